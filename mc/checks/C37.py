"""C37: instructions compose."""
import itertools
import struct

from .. import asm, rt
from ..asm import op, lget, lset, ltee, i32c, i64c, f32c, f64c, v128c, call, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from . import C15, C16

LEVEL = 'model_checking'
RULE = ('(a) every instruction with its operands taken from every pair of places (parameter, copy of it, global, constant, tee, select, '
        'block, taken branch, loop, call, call through a table, host function, memory, table, the same place twice), with further copies of the operands in locals, '
        'in a global, in the caller and on the stack below, done twice by the same code and in two calls; (b) every ordered pair of instructions whose '
        'types fit, in every operand position, next to each other and with the intermediate value kept in a local and a global, and every '
        'instruction before every use of a condition (if, br_if, br_table, select, call_indirect, eqz); (c) every sequence of moves and changes of a value between '
        'four places. The results must be those of the instructions executed alone on parameters, and every other copy must be '
        'what it was. Non-trivial: all.')
BOUNDS = {'quick': '435 instructions; two sets of operands; pairs; sequences of 2', 'thorough': 'three sets of operands; sequences of 3'}
ASSUMPTIONS = ['the results of single instructions on parameters (which C01 to C07 check)']

VALS = [C15.VAL, {t: v[::-1] for t, v in C15.VAL.items()},
        {I32: (6, 3), I64: (9, 1 << 40), F32: (-1.5, 3.0), F64: (2.5, -1024.0), V128: (bytearray(b'\0\0\x80\x3f\0\0\0\xc0' * 2), bytearray(b'\1\2\3\4' * 4))}]
SKIP = {'drop', 'nop', 'local_get', 'local_set', 'local_tee', 'global_get', 'global_set', 'call', 'call_indirect', 'unreachable', 'return', 'br', 'br_if', 'br_table', 'block',
        'loop', 'if', 'i32_const', 'i64_const', 'f32_const', 'f64_const', 'v128_const', 'ref_null', 'ref_func', 'data_drop', 'elem_drop', 'table_init'}
ONCE = ('_store', 'memory_', 'table_')
STO = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128'}


def const(t, v):
    if t == I32:
        return i32c(v)
    if t == I64:
        return i64c(v)
    if t == F32:
        return f32c(struct.unpack('<I', struct.pack('<f', v))[0])
    if t == F64:
        return f64c(struct.unpack('<Q', struct.pack('<d', v))[0])
    return v128c(v)


_table = {}


def table():
    """name -> parameters, results, code, lists of arguments; instructions with an effect on more than the stack marked."""
    if not _table:
        for o, (ps, rs, im, args) in C16.plain().items():
            if o in SKIP:
                continue
            todo = [args]
            addr = '_load' in o or '_store' in o or any(x in o for x in ('memory_', 'table_'))
            if not addr and EXTERNREF not in ps:
                todo += [[v[t][i & 1] for i, t in enumerate(ps)] for v in VALS]
                if o == 'select' or o == 'select_type':
                    todo = [a[:2] + [c] for a in todo for c in (0, 1)]
            _table[o] = tuple(ps), tuple(rs), op(o) + im, todo, any(x in o for x in ONCE)
    return _table


def cp(v):
    return bytearray(v) if isinstance(v, bytearray) else v


def canon(vs):
    """For comparison: exact, with any not-a-number equal to any other."""
    if isinstance(vs, rt.Hung):
        return 'hung'
    if isinstance(vs, rt.Trap):
        return 'trap'
    return [bytes(v) if isinstance(v, (bytes, bytearray)) else 'nan' if v != v else repr(v) for v in vs]


def frame():
    """A module with all that the instructions of C16.plain need, a memory to read values from and functions to look at it."""
    m = asm.Mod()
    m.import_func('e', 'h', [I32], [I32])
    m.ids = {}
    for t in (I32, I64, F32, F64, V128, EXTERNREF):
        m.ids[t] = [m.import_func('e', 'id%d' % t, [t], [t])]
    m.mem(1, 3)
    m.data_passive(b'0123456789')
    m.data_active(i32c(0), bytes((5 * i + 3) & 0x7f for i in range(64)))
    m.table(EXTERNREF, 3, 9)
    m.table(FUNCREF, 9, 9)
    m.glob(I64, 1, i64c(3))
    m.gs = {}
    for t in m.ids:
        m.ids[t].append(m.func([t], [t], body=lget(0)))
        for i in range(4):
            m.gs[t, i] = m.glob(t, 1, op('ref_null', bytes([t])) if t == EXTERNREF else const(t, C15.VAL[t][0]))
    fs = [e[1] for e in m.ids.values()]
    m.elem_active(i32c(0), fs, table=1)
    m.slot = {t: i for i, t in enumerate(m.ids)}
    m.func([], [I32, I32], export='sizes', body=op('memory_size', 0) + op('table_size', 0))
    m.func([I32], [EXTERNREF], export='tget', body=lget(0) + op('table_get', 0))
    m.func([I32], [I64], export='peek', body=lget(0) + op('i64_load', b'\0\0'))
    return m


class Inst:
    def __init__(self, b):
        self.b = b
        self.fresh()

    def fresh(self):
        r = self.rt = rt.pywasm.core.Runtime()
        r.imports['e'] = {'h': rt.host(r, [I32], [I32], lambda m, a: a)}
        for t in (I32, I64, F32, F64, V128, EXTERNREF):
            r.imports['e']['id%d' % t] = rt.host(r, [t], [t], lambda m, a: list(a))
        self.inst = r.instance(rt.decode(self.b))

    def call(self, f, args):
        got = rt.call(self.rt, self.inst, f, [cp(a) for a in args])
        out = canon(got)
        if isinstance(got, (rt.Trap, rt.Hung)):
            self.fresh()
        return out

    def look(self):
        """All of the memory and tables that the instructions can reach."""
        n = rt.call(self.rt, self.inst, 'sizes', [])
        return n, [rt.call(self.rt, self.inst, 'tget', [i]) for i in range(n[1])], [rt.call(self.rt, self.inst, 'peek', [a]) for a in range(0, 72, 8)]


class Base:
    """The instructions alone."""
    def __init__(self):
        m = frame()
        for o, (ps, rs, code, _, _) in table().items():
            m.func(list(ps), list(rs), body=b''.join(lget(i) for i in range(len(ps))) + code, export=o)
        self.i = Inst(m.build())
        self.memo = {}

    def __call__(self, o, args):
        """Results as they are, or None for a trap."""
        k = (o, repr(args))
        if k not in self.memo:
            r = rt.call(self.i.rt, self.i.inst, o, [cp(a) for a in args])
            if isinstance(r, rt.Trap) or table()[o][4]:
                self.i.fresh()
            self.memo[k] = None if isinstance(r, (rt.Trap, rt.Hung)) else r
        r = self.memo[k]
        return r if r is None else [cp(v) for v in r]


# ---- (a)

PLACES = ('param', 'copy', 'global', 'const', 'tee', 'select', 'block', 'br', 'loop', 'call', 'indirect', 'host', 'mem', 'table', 'first')


def places(t):
    return [k for k in PLACES if not (k == 'mem' and t == EXTERNREF or k == 'table' and t != EXTERNREF or k == 'const' and t == EXTERNREF)]


def fetch(m, kind, i, t, c, v):
    """Code which puts operand i on the stack. c: the local with its copy."""
    bt = bytes([t])
    if kind in ('param', 'first'):
        return lget(i)
    if kind == 'copy':
        return lget(c)
    if kind == 'global':
        return op('global_get', m.gs[t, i])
    if kind == 'const':
        return const(t, v)
    if kind == 'tee':
        return lget(i) + ltee(c)
    if kind == 'select':
        return lget(i) + lget(c) + i32c(1) + op('select_type', b'\1' + bt)
    if kind == 'block':
        return op('block', bt) + lget(i) + op('end')
    if kind == 'br':
        return op('block', bt) + lget(i) + lget(c) + op('br', 0) + op('end')
    if kind == 'loop':
        return op('loop', bt) + lget(c) + op('end')
    if kind == 'call':
        return lget(i) + call(m.ids[t][1])
    if kind == 'indirect':
        return lget(c) + i32c(m.slot[t]) + op('call_indirect', m.type([t], [t]), 1)
    if kind == 'host':
        return lget(i) + call(m.ids[t][0])
    if kind == 'mem':
        a = 1024 + 16 * i
        return i32c(a) + lget(c) + op(STO[t] + '_store', b'\0\0') + i32c(a) + op(STO[t] + '_load', b'\0\0')
    if kind == 'table':
        return i32c(2) + op('table_get', 0)
    raise AssertionError(kind)


def build(m, name, o, kinds, vals):
    """Exported: name, called through a caller which keeps the operands too."""
    ps, rs, code, _, once = table()[o]
    n = len(ps)
    body, loc = b'', []
    for i, t in enumerate(ps):
        body += lget(i) + ltee(n + i) + op('global_set', m.gs[t, i])
    loc += list(ps)
    if 'table' in kinds:
        body += i32c(2) + lget(kinds.index('table')) + op('table_set', 0)
    r0 = 2 * n
    loc += list(rs) * 2
    below = b''.join(lget(i) + lget(n + i) for i in range(n))
    body += below
    for rep in range(1 if once else 2):
        for i, t in enumerate(ps):
            k = kinds[i]
            body += fetch(m, k, 0 if k == 'first' else i, t, n + i, vals[i])
        body += code
        body += b''.join(lset(r0 + rep * len(rs) + j) for j in reversed(range(len(rs))))
    body += b''.join(lget(i) + lget(n + i) + op('global_get', m.gs[t, i]) for i, t in enumerate(ps))
    body += b''.join(lget(r0 + j) for j in range(len(rs) * (1 if once else 2)))
    out = [t for t in ps for _ in (0, 1)] + [t for t in ps for _ in (0, 1, 2)] + list(rs) * (1 if once else 2)
    f = m.func(list(ps), out, locals=loc, body=body)
    # the caller has the operands on its stack and in its locals
    m.func(list(ps), list(ps) + out + list(ps), body=b''.join(lget(i) for i in range(n)) * 2 + call(f) + b''.join(lget(i) for i in range(n)), export=name)


def combos(o):
    ps = table()[o][0]
    if not ps:
        return [()]
    if len(ps) == 1:
        return [(k,) for k in places(ps[0]) if k != 'first']
    out = []
    for i, j in itertools.combinations(range(len(ps)), 2):
        for a in places(ps[i]):
            for b in places(ps[j]):
                if a == 'first' or b == 'first' and ps[j] != ps[0] or a == b == 'table':
                    continue
                if table()[o][4] and len({a, b, 'param'}) > 2 and ps[i] == ps[j]:
                    continue
                k = ['param'] * len(ps)
                k[i], k[j] = a, b
                out.append(tuple(k))
    return sorted(set(out))


def each(ctx, part, of):
    base = Base()
    for n, (o, (ps, rs, code, todo, once)) in enumerate(table().items()):
        if n % of != part:
            continue
        ctx.states += 1
        ctx.traces += 1
        for vals in (todo[:1] + todo[2:4] if ctx.tier == 'quick' else todo):
            vals = [cp(v) for v in vals]
            m = frame()
            cs = combos(o)
            for i, k in enumerate(cs):
                build(m, 'f%d' % i, o, k, vals)
            inst = Inst(m.build())
            for i, k in enumerate(cs):
                real = [vals[0] if x == 'first' else v for x, v in zip(k, vals)]
                want = base(o, real)
                if once:
                    alone = base.i
                    alone.fresh()
                    if 'table' in k:
                        # the operand lies in the table
                        rt.call(alone.rt, alone.inst, 'table_set', [2, cp(vals[k.index('table')])])
                    if want is not None:
                        rt.call(alone.rt, alone.inst, o, [cp(v) for v in real])
                    seen = alone.look()
                if want is not None:
                    kept = [v for v in vals for _ in (0, 1)] + [v for v in vals for _ in (0, 1, 2)]
                    want = vals + kept + want * (1 if once else 2) + vals
                for rep in range(1 if once else 2):
                    ctx.ev()
                    ctx.transitions += 1
                    got = inst.call('f%d' % i, vals)
                    exp = 'trap' if want is None else canon(want)
                    if got != exp:
                        ctx.viol('%s %s %r' % (o, '.'.join(k), vals), '%s with operands from %s, values %r, call %d: got %r, expected %r' % (
                            o, k, vals, rep, got, exp), {'instruction': o, 'places': k, 'values': repr(vals)})
                        if ctx.full:
                            return
                if once:
                    if want is not None and inst.look() != seen:
                        ctx.viol('%s %s %r effect' % (o, '.'.join(k), vals), '%s with operands from %s leaves %r, expected %r' % (
                            o, k, inst.look(), seen), {'instruction': o, 'places': k, 'values': repr(vals)})
                    inst.fresh()
            ctx.outcome('trap' if want is None else 'result')


# ---- (b)

def uses():
    """Uses of a condition: name -> (code before the operands, code after them, the result as a function)."""
    blk = op('block', bytes([I32]))
    return {
        'if': (b'', op('if', bytes([I32])) + i32c(11) + op('else') + i32c(22) + op('end'), lambda x: [11 if x else 22]),
        'if0': (b'', op('if', b'\x40') + op('else') + i32c(22) + op('return') + op('end') + i32c(11), lambda x: [11 if x else 22]),
        'brif': (blk + i32c(11), op('br_if', 0) + op('drop') + i32c(22) + op('end'), lambda x: [11 if x else 22]),
        'brif1': (blk + op('block', b'\x40'), op('br_if', 0) + i32c(22) + op('br', 1) + op('end') + i32c(11) + op('end'), lambda x: [11 if x else 22]),
        'ret': (op('block', b'\x40'), op('br_if', 0) + i32c(22) + op('return') + op('end') + i32c(11), lambda x: [11 if x else 22]),
        'eqzif': (b'', op('i32_eqz') + op('if', bytes([I32])) + i32c(22) + op('else') + i32c(11) + op('end'), lambda x: [11 if x else 22]),
        'eqzbr': (blk + i32c(22), op('i32_eqz') + op('br_if', 0) + op('drop') + i32c(11) + op('end'), lambda x: [11 if x else 22]),
        'eqz2': (b'', op('i32_eqz') * 2, lambda x: [1 if x else 0]),
        'and1': (b'', i32c(1) + op('i32_and'), lambda x: [x & 1]),
        'select': (i32c(11) + i32c(22), op('select'), lambda x: [11 if x else 22]),
        'table': (op('block', b'\x40') * 3, op('br_table', b'\2\0\1\2') + op('end') + i32c(30) + op('return') + op('end') + i32c(31) + op('return') + op('end') + i32c(32),
                  lambda x: [30 + min(x % 2 ** 32, 2)]),
        'local': (b'', None, lambda x: [x]),
        'drop': (i32c(5), op('drop'), lambda x: [5]),
    }


PURE = None


def pairs(ctx, part, of):
    base = Base()
    T = table()
    pure = [o for o, e in T.items() if not e[4] and EXTERNREF not in e[0] + e[1]]
    U = uses()
    for n, a in enumerate(x for x in pure if len(T[x][1]) == 1):
        if n % of != part:
            continue
        ctx.states += 1
        ctx.traces += 1
        ps, (t,), code, todo, _ = T[a]
        na = len(ps)
        m = frame()
        fs = []
        for b in pure:
            qs, rs, code2, todo2, _ = T[b]
            for k in range(len(qs)):
                if qs[k] != t:
                    continue
                oth = [q for i, q in enumerate(qs) if i != k]
                loc = na + len(oth)     # the intermediate value, its copy
                pre = b''.join(lget(na + i) for i in range(k))
                post = b''.join(lget(na + i) for i in range(k, len(oth)))
                first = b''.join(lget(i) for i in range(na)) + code
                name = '%s/%s/%d' % (a, b, k)
                m.func(list(ps) + oth, list(rs), body=pre + first + post + code2, export='n' + name)
                m.func(list(ps) + oth, list(rs) * 2 + [t] * 3 + list(ps), locals=[t, t, *rs], export='k' + name,
                       body=first + ltee(loc) + ltee(loc + 1) + op('global_set', m.gs[t, 0]) + pre + lget(loc) + post + code2 + lset(loc + 2) + lget(loc + 2) +
                       pre + lget(loc + 1) + post + code2 + lget(loc) + lget(loc + 1) + op('global_get', m.gs[t, 0]) + b''.join(lget(i) for i in range(na)))
                fs.append((name, b, k))
                if len(qs) == 2 and qs[0] == qs[1]:
                    m.func(list(ps) + oth, list(rs) + [t], locals=[t], export='s' + name, body=first + ltee(loc) + lget(loc) + code2 + lget(loc))
        if t == I32:
            for u, (pre, post, f) in U.items():
                first = b''.join(lget(i) for i in range(na)) + code
                m.func(list(ps), [I32], locals=[I32], body=pre + first + (post if post is not None else lset(na) + lget(na)), export='u' + u)
        inst = Inst(m.build())
        q = ctx.tier == 'quick'

        def judge(f, args, want):
            ctx.ev()
            ctx.transitions += 1
            got = inst.call(f, args)
            if got != ('trap' if want is None else canon(want)):
                ctx.viol('%s %r' % (f, args), '%s on %r: got %r, expected %r' % (f, args, got, 'trap' if want is None else canon(want)),
                         {'function': f, 'values': repr(args)})
        for vi, vals in enumerate(todo[1:3] or todo if q else todo):
            x = base(a, vals)
            if t == I32:
                for u, e in U.items():
                    judge('u' + u, vals, None if x is None else e[2](x[0]))
            for name, b, k in fs:
                qs, _, _, todo2, _ = T[b]
                second = todo2[vi % len(todo2)]
                oth = [cp(v) for i, v in enumerate(second) if i != k]
                args = [*vals, *oth]
                y = None
                if x is not None:
                    full = list(oth)
                    full.insert(k, x[0])
                    y = base(b, full)
                judge('n' + name, args, y)
                judge('k' + name, args, None if y is None else [*y, *y, x[0], x[0], x[0], *vals])
                if len(qs) == 2 and qs[0] == qs[1]:
                    z = None if x is None else base(b, [x[0], x[0]])
                    judge('s' + name, args, None if z is None else [*z, x[0]])
                if ctx.full:
                    return
        ctx.outcome('pairs', len(fs))


# ---- (c)

def moves(t):
    """Steps between four places: locals 0 and 1, globals 0 and 1."""
    un = {I32: ['i32_clz', 'i32_extend8_s'], I64: ['i64_ctz', 'i64_extend8_s'], F32: ['f32_neg', 'f32_abs'], F64: ['f64_neg', 'f64_abs'],
          V128: ['v128_not', 'i8x16_abs', 'f32x4_neg'], EXTERNREF: []}[t]
    lane = {V128: [('i8x16_replace_lane', b'\3'), ('i64x2_replace_lane', b'\1')]}.get(t, [])
    out = [('copy', a, b) for a in range(4) for b in range(4)] + [('tee', a, b) for a in range(4) for b in range(2)]
    out += [(o, a, b) for o in un for a in range(4) for b in range(4)]
    out += [(o, a, b) for o, _ in lane for a in range(4) for b in range(4)]
    out += [('call', a, b) for a in range(4) for b in (0, 2)] + [('swap', a, b) for a, b in ((0, 1), (0, 2), (2, 3))]
    out += [('select', a, b) for a in range(4) for b in (1, 3)] + [('store', a, b) for a in range(4) for b in (0, 3) if t != EXTERNREF]
    return out


def walk(ctx, t, n, part, of):
    base = Base()
    M = moves(t)
    start = [C15.VAL[t][0], C15.VAL[t][1]] if t != EXTERNREF else [41, None]
    start = [*start, *[cp(v) for v in start]]
    todo = [s for i, s in enumerate(itertools.product(M, repeat=n)) if i % of == part]
    for at in range(0, len(todo), 250):
        m = frame()
        get = lambda x: lget(x) if x < 2 else op('global_get', m.gs[t, x - 2])
        put = lambda x: lset(x) if x < 2 else op('global_set', m.gs[t, x - 2])
        ch = m.func([t], [t], body=(b'' if t == EXTERNREF else lget(0) + lset(0)) + lget(0))
        for i, steps in enumerate(todo[at:at + 250]):
            b = lget(2) + put(2) + lget(3) + put(3)
            for o, x, y in steps:
                if o == 'copy':
                    b += get(x) + put(y)
                elif o == 'tee':
                    b += get(x) + ltee(y) + op('drop')
                elif o == 'call':
                    b += get(x) + call(ch) + put(y)
                elif o == 'swap':
                    b += get(x) + get(y) + put(x) + put(y)
                elif o == 'select':
                    b += get(x) + get(0) + i32c(y & 2) + op('select_type', b'\1' + bytes([t])) + put(y)
                elif o == 'store':
                    b += i32c(512) + get(x) + op(STO[t] + '_store', b'\0\0') + i32c(512) + op(STO[t] + '_load', b'\0\0') + put(y)
                elif 'lane' in o:
                    b += get(x) + (i32c(77) if o[1] == '8' else i64c(-9)) + op(o) + (b'\3' if o[1] == '8' else b'\1') + put(y)
                else:
                    b += get(x) + op(o) + put(y)
            m.func([t] * 4, [t] * 4, body=b + b''.join(get(x) for x in range(4)), export='f%d' % i)
        inst = Inst(m.build())
        for i, steps in enumerate(todo[at:at + 250]):
            s = list(start)
            for o, x, y in steps:
                if o in ('copy', 'tee', 'call', 'store'):
                    s[y] = s[x]
                elif o == 'swap':
                    s[x], s[y] = s[y], s[x]
                elif o == 'select':
                    s[y] = s[x] if y & 2 else s[0]
                elif 'lane' in o:
                    v = bytearray(s[x])
                    if o[1] == '8':
                        v[3] = 77
                    else:
                        v[8:] = struct.pack('<q', -9)
                    s[y] = v
                else:
                    s[y] = base(o, [s[x]])[0]
            for rep in (0, 1):
                ctx.ev()
                ctx.transitions += n
                ctx.states += 1
                got = inst.call('f%d' % i, start)
                if got != canon(s):
                    ctx.viol('%s %r' % (hex(t), steps), 'after %r the places hold %r, expected %r' % (steps, got, canon(s)), {'steps': steps, 'type': t})
                    if ctx.full:
                        return
    ctx.traces += len(todo)
    ctx.outcome('sequences', len(todo))


def jobs(tier):
    q = tier == 'quick'
    out = [('each', (i, 48)) for i in range(48)] + [('pairs', (i, 64)) for i in range(64)]
    for t in (I32, I64, F32, F64, V128, EXTERNREF):
        of = (2 if t != V128 else 6) if q else (64 if t != V128 else 400)
        out += [('walk', (t, 2 if q else 3, i, of)) for i in range(of)]
    return out
