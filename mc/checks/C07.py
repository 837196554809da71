"""C07: tables, references, indirect calls."""
from .. import asm, rt, bfs
from ..asm import op, lget, i32c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from ..bfs import Mismatch

LEVEL = 'model_checking'
RULE = ('(a) breadth-first search over get/set/size/grow/fill/copy/init/drop/call_indirect histories on two function tables '
        'and one extern table with several limit shapes, full contents observed after every step; (b) every pair of '
        'expected type and actual function type (all signatures up to two parameters and two results over two value '
        'types, plus one of every value type, duplicated type entries included) times every table index around the '
        'bounds; (c) reference instructions; (d) a segment '
        'of each of the eight encodings and up to three entries, every table.init '
        'from it up to past its end, before and after drops; (e) bulk operations of every length on tables and segments of up to 300 different functions. Non-trivial: every step has a distinct operation and state.')
ASSUMPTIONS = ['histories on tables of at most about ten entries; growth beyond 900 entries may be refused',
               'the only merged histories are those with equal model state and equal structural dump of the runtime']
BOUNDS = {'quick': 'histories of depth 3 from limits (2,4) and of depth 2 from four other limit shapes; depth 3 on the extern table', 'thorough': 'histories of depth 4'}
NF = 4      # functions 0..3, with results 10..13; function 3 takes an argument


def hmodule(lo, hi):
    m = asm.Mod()
    t0 = m.type([], [I32])
    for k in range(3):
        m.func([], [I32], body=i32c(10 + k))
    m.func([I32], [I32], body=lget(0) + i32c(1000) + op('i32_add'))
    m.table(FUNCREF, lo, hi)
    m.table(FUNCREF, 2, 6)
    m.table(EXTERNREF, 2, None)
    m.elem_declare([0, 1, 2, 3])                                  # segment 0
    m.elem_passive([2, 0, 1])                                     # segment 1
    m.elem_passive_expr(FUNCREF, [op('ref_null', FUNCREF), op('ref_func', 3), op('ref_func', 1)])     # segment 2
    if lo >= 2:
        m.elem_active(i32c(1), [1])                               # segment 3 (active)
    else:
        m.elem_active(i32c(0), [])
    m.elem_passive_expr(EXTERNREF, [op('ref_null', EXTERNREF)])   # segment 4
    m.elem_active_expr(1, i32c(0), FUNCREF, [op('ref_func', 0), op('ref_null', FUNCREF)])     # segment 5
    three = lget(0) + lget(1) + lget(2)
    for t in range(3):
        ty = FUNCREF if t < 2 else EXTERNREF
        n = str(t)
        m.func([], [I32], body=op('table_size', t), export='size' + n)
        m.func([I32], [I32], body=lget(0) + op('table_get', t) + op('ref_is_null'), export='null' + n)
        m.func([I32], [], body=lget(0) + op('ref_null', ty) + op('table_set', t), export='setnull' + n)
        m.func([I32], [I32], body=op('ref_null', ty) + lget(0) + op('table_grow', t), export='grownull' + n)
        m.func([I32, I32], [], body=lget(0) + op('ref_null', ty) + lget(1) + op('table_fill', t), export='fillnull' + n)
        m.func([I32, I32], [], body=lget(0) + lget(1) + op('table_get', t) + op('table_set', t), export='move' + n)
        if t < 2:
            for f in (0, 1, 3):
                m.func([I32], [], body=lget(0) + op('ref_func', f) + op('table_set', t), export='set%s_%d' % (n, f))
            m.func([I32], [I32], body=op('ref_func', 1) + lget(0) + op('table_grow', t), export='grow' + n)
            m.func([I32, I32], [], body=lget(0) + op('ref_func', 2) + lget(1) + op('table_fill', t), export='fill' + n)
            m.func([I32], [I32], body=lget(0) + op('call_indirect', t0, t), export='call' + n)
            m.func([I32], [I32], body=i32c(5) + lget(0) + op('call_indirect', m.type([I32], [I32]), t),
                   export='calla' + n)
            for u in range(2):
                m.func([I32] * 3, [], body=three + op('table_copy', t, u), export='copy%d%d' % (t, u))
            for sgm in (0, 1, 2, 3, 5):
                m.func([I32] * 3, [], body=three + op('table_init', sgm, t), export='init%d_%d' % (t, sgm))
        else:
            m.func([I32, EXTERNREF], [], body=lget(0) + lget(1) + op('table_set', t), export='set2')
            m.func([I32], [EXTERNREF], body=lget(0) + op('table_get', t), export='get2')
            m.func([EXTERNREF, I32], [I32], body=lget(0) + lget(1) + op('table_grow', t), export='grow2')
            m.func([I32, EXTERNREF, I32], [], body=three + op('table_fill', t), export='fill2')
            m.func([I32] * 3, [], body=three + op('table_copy', t, t), export='copy22')
            m.func([I32] * 3, [], body=three + op('table_init', 4, t), export='init2_4')
    for sgm in (0, 1, 2, 4):
        m.func([], [], body=op('elem_drop', sgm), export='drop%d' % sgm)
    return m.build()


def sx(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


class Sys:
    def __init__(self, b, lo, hi, which):
        self.rt, self.inst = rt.instantiate(b)
        self.hi = [hi, 6, None]
        self.t = [[None] * lo, [0, None], [None, None]]
        if lo >= 2:
            self.t[0][1] = 1
        self.seg = {0: [], 1: [2, 0, 1], 2: [None, 3, 1], 3: [], 4: [None], 5: []}
        self.which = which
        self.observe()

    def grow(self, t, n, v):
        old = len(self.t[t])
        hi = self.hi[t]
        if old + n > (0xffffffff if hi is None else hi):
            return [-1]
        if old + n <= 900:
            self.t[t] += [v] * n
            return [old]
        return None

    def blk(self, dst, d, src, s, n):
        if d + n > len(dst) or s + n > len(src):
            return 'trap'
        dst[d:d + n] = list(src[s:s + n])
        return []

    def step(self, o):
        f, *a = o
        t = int(f.rstrip('0123456789_') and f[len(f.rstrip('0123456789_'))])  # first digit after the name
        name = f.rstrip('0123456789_')
        T = self.t[t] if name != 'drop' else None
        i = a[0] if a else None
        if name in ('set', 'setnull', 'null', 'get', 'call', 'calla') and i >= len(T):
            exp = 'trap'
        elif name == 'size':
            exp = [len(T)]
        elif name == 'null':
            exp = [int(T[i] is None)]
        elif name == 'setnull':
            T[i] = None
            exp = []
        elif name == 'set':
            T[i] = int(f[-1]) if t < 2 else a[1]
            exp = []
        elif name == 'get':
            exp = [T[i]]
        elif name == 'move':
            if a[0] >= len(T) or a[1] >= len(T):
                exp = 'trap'
            else:
                T[a[0]] = T[a[1]]
                exp = []
        elif name == 'grownull':
            exp = self.grow(t, a[0], None)
        elif name == 'grow':
            exp = self.grow(t, a[0] if t < 2 else a[1], 1 if t < 2 else a[0])
        elif name == 'fillnull':
            exp = self.blk(T, a[0], [None] * min(a[1], 1000) if a[1] < 1000 else [], 0, a[1])
        elif name == 'fill':
            n = a[-1]
            exp = self.blk(T, a[0], [2 if t < 2 else a[1]] * (n if n < 1000 else 0), 0, n)
        elif name == 'copy':
            exp = self.blk(T, a[0], self.t[int(f[5])], a[1], a[2])
        elif name == 'init':
            exp = self.blk(T, a[0], self.seg[int(f[6])], a[1], a[2])
        elif name == 'drop':
            self.seg[t] = []
            exp = []
        elif name == 'call':
            v = T[i]
            exp = 'trap' if v is None or v == 3 else [10 + v]
        elif name == 'calla':
            v = T[i]
            exp = [1005] if v == 3 else 'trap'
        else:
            raise KeyError(f)
        ext = name in ('set', 'grow', 'fill') and t == 2
        pos = {'set': 1, 'grow': 0, 'fill': 1}.get(name)
        args = [x if ext and k == pos else sx(x) for k, x in enumerate(a)]
        got = rt.call(self.rt, self.inst, f, args)
        if exp is None:         # growth the implementation may refuse
            if got == [-1]:
                exp = got
            else:
                raise Mismatch('%r: growth beyond 900 entries returned %r' % (o, got))
        if (exp == 'trap') != isinstance(got, rt.Trap) or (exp != 'trap' and got != exp):
            raise Mismatch('%r: got %r, expected %r' % (o, got, exp))
        self.observe()
        return '%s:%s' % (name, 'trap' if exp == 'trap' else exp)

    def observe(self):
        for t in self.which:
            T = self.t[t]
            got = rt.call(self.rt, self.inst, 'size%d' % t, [])
            if got != [len(T)]:
                raise Mismatch('table %d has size %r, expected %d' % (t, got, len(T)))
            for i, v in enumerate(T):
                got = rt.call(self.rt, self.inst, 'null%d' % t, [i])
                if got != [int(v is None)]:
                    raise Mismatch('table %d entry %d: null test gives %r, expected %r' % (t, i, got, v))
                if v is not None:
                    if t == 2:
                        got, exp = rt.call(self.rt, self.inst, 'get2', [i]), [v]
                    elif v == 3:
                        got, exp = rt.call(self.rt, self.inst, 'calla%d' % t, [i]), [1005]
                    else:
                        got, exp = rt.call(self.rt, self.inst, 'call%d' % t, [i]), [10 + v]
                    if got != exp:
                        raise Mismatch('table %d entry %d is %r, expected %r' % (t, i, got, exp))
            if not isinstance(rt.call(self.rt, self.inst, 'null%d' % t, [len(T)]), rt.Trap):
                raise Mismatch('reading table %d at its size %d did not trap' % (t, len(T)))

    def key(self):
        return repr(self.t), repr(self.seg), bfs.dump(self.rt, skip=('FuncDesc', 'Inst', 'Expr', 'FuncType'))


BIG = 0xffffffff


def hops(ts):
    o = []
    if 0 in ts:
        for t in (0, 1):
            n = str(t)
            o += [('call' + n, i) for i in (0, 1, 2, BIG, 0x80000000)] + [('calla' + n, 0), ('calla' + n, 1), ('calla' + n, BIG)]
            o += [('null' + n, BIG), ('setnull' + n, 0), ('setnull' + n, BIG), ('set%s_0' % n, 1), ('set%s_1' % n, 0),
                  ('set%s_3' % n, 1), ('set%s_1' % n, 2), ('set%s_1' % n, BIG), ('move' + n, 0, 1), ('move' + n, 1, BIG)]
            o += [('grow' + n, k) for k in (0, 1, 3, BIG, 0x80000000)] + [('grownull' + n, k) for k in (1, 2)]
            o += [('fill' + n, 0, 2), ('fill' + n, 1, 2), ('fill' + n, 2, 0), ('fill' + n, 3, 0), ('fill' + n, BIG, 1),
                  ('fill' + n, 1, BIG), ('fillnull' + n, 0, 1)]
        for x in ('copy00', 'copy01', 'copy10', 'copy11'):
            o += [(x, 0, 1, 1), (x, 1, 0, 2), (x, 0, 1, 2), (x, 2, 0, 0), (x, 0, 3, 0), (x, 3, 0, 0), (x, 0, BIG, 1)]
        for t in (0, 1):
            o += [('init%d_1' % t, 0, 0, 3), ('init%d_1' % t, 0, 1, 2), ('init%d_1' % t, 1, 2, 1), ('init%d_1' % t, 0, 3, 0),
                  ('init%d_1' % t, 0, 4, 0), ('init%d_1' % t, 0, 2, 2), ('init%d_1' % t, BIG, 0, 1),
                  ('init%d_2' % t, 0, 0, 2), ('init%d_2' % t, 1, 1, 1), ('init%d_0' % t, 0, 0, 0), ('init%d_0' % t, 0, 0, 1),
                  ('init%d_3' % t, 0, 0, 1), ('init%d_3' % t, 0, 0, 0), ('init%d_5' % t, 0, 0, 1)]
        o += [('drop0',), ('drop1',), ('drop2',)]
    if 2 in ts:
        o += [('set2', 0, 7), ('set2', 1, -1), ('set2', 2, 3), ('set2', BIG, 3), ('setnull2', 0), ('setnull2', 2),
              ('get2', BIG), ('null2', 2), ('move2', 0, 1), ('move2', 2, 0), ('grow2', 9, 1), ('grow2', 9, 0),
              ('grow2', 9, BIG), ('grow2', 0, 2), ('grownull2', 1), ('fill2', 0, 8, 2), ('fill2', 1, 6, 2), ('fill2', 2, 6, 0),
              ('fill2', 3, 6, 0), ('fillnull2', 0, 1), ('fillnull2', 0, BIG), ('copy22', 0, 1, 1), ('copy22', 1, 0, 2),
              ('copy22', 0, 2, 0), ('copy22', 3, 0, 0), ('copy22', 1, 0, BIG), ('init2_4', 0, 0, 1), ('init2_4', 1, 1, 0),
              ('init2_4', 0, 0, 2), ('drop4',), ('size2',)]
    return o


def histories(ctx, lo, hi, ts, first, depth):
    b = hmodule(lo, hi)
    bfs.search(ctx, lambda: Sys(b, lo, hi, ts), hops(ts), depth - len(first), prefix=[tuple(x) for x in first],
               label='tables(%s,%s)%s' % (lo, hi, ts))


# ------------------------------------------------------------------------------------------- indirect call types
def signatures():
    base = [[], [I32], [I64], [I32, I32], [I32, I64], [I64, I32]]
    s = [(tuple(p), tuple(r)) for p in base for r in base]
    for t in (F32, F64, V128, FUNCREF, EXTERNREF):
        s += [((t,), ()), ((), (t,)), ((t, I32), (I32,))]
    return s


ZERO = {I32: i32c(0), I64: asm.i64c(0), F32: asm.f32c(0), F64: asm.f64c(0), V128: asm.v128c(bytes(16)),
        FUNCREF: op('ref_null', FUNCREF), EXTERNREF: op('ref_null', EXTERNREF)}


def calltypes(ctx, part, parts):
    sig = signatures()
    m = asm.Mod()
    m.mem(1)
    for p, r in sig:
        m.type(p, r)
    # every signature a second time, as a separate but structurally equal type entry
    dup = len(m.types)
    m.types += list(m.types)
    n = len(sig)
    # function k of signature k (and k + n of the duplicate): records its number
    for k in range(2 * n):
        m.func(None, None, [], i32c(0) + i32c(k + 1) + op('i32_store', 2, 0) + b''.join(ZERO[t] for t in sig[k % n][1]),
               type=k)
    m.table(FUNCREF, 2 * n + 1, 2 * n + 1)
    m.elem_active(i32c(0), range(2 * n))
    for k in range(2 * n):
        p, r = sig[k % n]
        body = i32c(0) + i32c(0) + op('i32_store', 2, 0) + b''.join(ZERO[t] for t in p) + lget(0) + \
            op('call_indirect', k, 0) + op('drop') * len(r) + i32c(0) + op('i32_load', 2, 0)
        m.func([I32], [I32], [], body, export='c%d' % k)
    i = rt.Inst(m.build())
    for k in range(part, 2 * n, parts):
        idx = list(range(2 * n + 3)) + [BIG, 0x80000000, BIG - 1, BIG - 2 * n]
        for j in idx:
            got = i.call('c%d' % k, [sx(j)])
            ok = j < 2 * n and sig[j % n] == sig[k % n]
            exp = [j + 1] if ok else 'trap'
            ctx.ev()
            ctx.transitions += 1
            ctx.outcome('call' if ok else 'null' if j == 2 * n else 'bounds' if j > 2 * n else 'type')
            if (got != exp) if ok else not isinstance(got, rt.Trap):
                ctx.viol('call_indirect expecting %s at %d' % (sig[k % n], j), 'got %r, expected %r' % (got, exp),
                         {'expected_type': sig[k % n], 'index': j, 'actual': sig[j % n] if j < 2 * n else None})
                if ctx.full:
                    return
    ctx.states += 2 * n // parts
    ctx.traces += ctx.evals


def refs(ctx):
    """Reference instructions, through locals, globals, selects, calls and block results."""
    m = asm.Mod()
    m.func([], [I32], body=i32c(77))
    m.elem_declare([0, 1])
    cases = []
    for ty in (FUNCREF, EXTERNREF):
        g = m.glob(ty, 1, op('ref_null', ty))
        idf = m.func([ty], [ty], body=lget(0))
        vals = [('null', op('ref_null', ty), 1)]
        if ty == FUNCREF:
            vals.append(('func', op('ref_func', 0), 0))
        for nm, push, isnull in vals:
            routes = {
                'plain': push,
                'local': push + asm.lset(0) + lget(0),
                'tee': push + asm.ltee(0),
                'global': push + op('global_set', g) + op('global_get', g),
                'call': push + op('call', idf),
                'block': op('block') + bytes([ty]) + push + b'\x0b',
                'if': i32c(1) + op('if') + bytes([ty]) + push + op('else') + op('unreachable') + b'\x0b',
                'br': op('block') + bytes([ty]) + push + op('br', 0) + b'\x0b',
                'select1': push + op('ref_null', ty) + i32c(1) + op('select_type', asm.vec([bytes([ty])])),
                'select0': op('ref_null', ty) + push + i32c(0) + op('select_type', asm.vec([bytes([ty])])),
            }
            for rn, code in routes.items():
                e = 'r%d' % len(cases)
                m.func([], [I32], [ty], body=code + op('ref_is_null'), export=e)
                cases.append((e, (ty, nm, rn), [isnull]))
        e = 'r%d' % len(cases)
        m.func([], [I32], [ty], body=lget(0) + op('ref_is_null'), export=e)
        cases.append((e, (ty, 'uninitialised local'), [1]))
    i = rt.Inst(m.build())
    for e, what, exp in cases:
        got = i.call(e, [])
        ctx.ev()
        ctx.transitions += 1
        ctx.states += 1
        ctx.traces += 1
        ctx.outcome('is_null %r' % exp)
        if got != exp:
            ctx.viol('ref.is_null %s' % (what,), 'got %r, expected %r' % (got, exp))


def segkinds(ctx):
    """An element segment in each of the eight encodings (0-7) with the same contents: what the table holds after
    instantiation, and what table.init from the segment does, at every (source, length) up to just past its end, before
    and after elem.drop (once, and a second time)."""
    for kind in range(8):
        for n in range(4):
            fs = [1, 0, 1][:n]
            for drops in range(3):
                m = asm.Mod()
                for k in range(2):
                    m.func([], [I32], body=i32c(10 + k))
                m.table(FUNCREF, 5, 5)
                m.table(FUNCREF, 5, 5)
                m.elem_declare([0, 1])
                idx = asm.vec([asm.u(f) for f in fs])
                exprs = asm.vec([op('ref_func', f) + op('end') for f in fs])
                off = i32c(1) + op('end')
                e = m.elem({0: off + idx, 1: b'\x00' + idx, 2: asm.u(1) + off + b'\x00' + idx, 3: b'\x00' + idx,
                            4: off + exprs, 5: b'\x70' + exprs, 6: asm.u(1) + off + b'\x70' + exprs,
                            7: b'\x70' + exprs}[kind].join((asm.u(kind), b'')))
                three = lget(0) + lget(1) + lget(2)
                m.func([I32] * 3, [], body=three + op('table_init', e, 0), export='init')
                m.func([], [], body=op('elem_drop', e), export='drop')
                for t in range(2):
                    m.func([I32], [I32], body=lget(0) + op('table_get', t) + op('ref_is_null'), export='null%d' % t)
                    m.func([I32], [I32], body=lget(0) + op('call_indirect', m.type([], [I32]), t), export='call%d' % t)
                r, i = rt.instantiate(m.build())
                T = [[None] * 5, [None] * 5]
                if kind in (0, 4, 2, 6):
                    T[kind in (2, 6)][1:1 + n] = fs
                seg = fs if kind in (1, 5) else []
                for _ in range(drops):
                    rt.call(r, i, 'drop', [])
                    seg = []

                def look(what):
                    for t in range(2):
                        for x in range(5):
                            got = rt.call(r, i, 'null%d' % t, [x])
                            if got == [0]:
                                got = rt.call(r, i, 'call%d' % t, [x])
                            exp = [1] if T[t][x] is None else [10 + T[t][x]]
                            if got != exp:
                                ctx.viol('segment kind %d of %d, %d drops: %s' % (kind, n, drops, what),
                                         'table %d entry %d: got %r, expected %r' % (t, x, got, exp))
                look('initial')
                for s in range(n + 2):
                    for c in range(n + 2):
                        got = rt.call(r, i, 'init', [2, s, c])
                        ok = s + c <= len(seg)
                        if ok:
                            T[0][2:2 + c] = seg[s:s + c]
                        ctx.ev()
                        ctx.transitions += 1
                        ctx.outcome('init ok' if ok else 'init traps')
                        if (got != []) if ok else not isinstance(got, rt.Trap):
                            ctx.viol('segment kind %d of %d, %d drops: init %d,%d' % (kind, n, drops, s, c),
                                     'got %r, expected %s' % (got, 'success' if ok else 'a trap'))
                        look('after init %d,%d' % (s, c))
                ctx.states += 1
                ctx.traces += 1


# ---------------------------------------------------------------------------------------------------- sizes
def big(ctx, n):
    """Tables, segments and counts of n entries, each entry a function of its own: every one is called through the table and through
    the segment, and bulk operations of every length between all ends behave as on a list."""
    m = asm.Mod()
    t0 = m.type([], [I32])
    m.type([I32], [I32])
    for k in range(n):
        m.func([], [I32], body=i32c(7000 + k))
    m.table(FUNCREF, n)
    m.table(FUNCREF, 1, 900)
    m.elem_active(i32c(0), list(range(n)))
    e1 = m.elem_passive(list(range(n))[::-1])
    e2 = m.elem_passive_expr(FUNCREF, [op('ref_func', k) if k % 3 else op('ref_null', FUNCREF) for k in range(n)])
    three = lget(0) + lget(1) + lget(2)
    for t in (0, 1):
        m.func([I32], [I32], body=lget(0) + op('call_indirect', t0, t), export='call%d' % t)
        m.func([I32], [I32], body=lget(0) + op('table_get', t) + op('ref_is_null'), export='null%d' % t)
        m.func([I32, I32], [], body=lget(0) + op('ref_func', 3 % n) + lget(1) + op('table_fill', t), export='fill%d' % t)
        m.func([I32], [I32], body=op('ref_func', 1 % n) + lget(0) + op('table_grow', t), export='grow%d' % t)
        m.func([], [I32], body=op('table_size', t), export='size%d' % t)
        for sg in (e1, e2):
            m.func([I32] * 3, [], body=three + op('table_init', sg, t), export='init%d_%d' % (t, sg))
        for u in (0, 1):
            m.func([I32] * 3, [], body=three + op('table_copy', t, u), export='copy%d%d' % (t, u))
    r, q = rt.instantiate(m.build())
    T = [list(range(n)), [None]]
    S = {e1: list(range(n))[::-1], e2: [k if k % 3 else None for k in range(n)]}

    def step(f, a, want, look=True):
        got = rt.call(r, q, f, a)
        ctx.ev()
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome('big:%s:%s' % (f[:4], 'trap' if isinstance(want, rt.Trap) else 'ok'))
        if got != want:
            ctx.viol('big:%d:%s%r' % (n, f, tuple(a)), 'got %r, expected %r' % (got, want))
        for t in (0, 1) if look else ():
            k = len(T[t])
            for i in (range(k + 1) if look == 2 else sorted({0, 1, 2, k // 2, k - 2, k - 1, k, 127, 128, 255, 256, 257} & set(range(k + 1)))):
                want = rt.TRAP if i >= k or T[t][i] is None else [7000 + T[t][i]]
                got = rt.call(r, q, 'call%d' % t, [i])
                if got != want:
                    ctx.viol('big:%d:%s%r:entry %d of %d' % (n, f, tuple(a), i, t), 'calling it gave %r, expected %r' % (got, want))
    step('size0', [], [n], 2)
    for by in (n, 5, 900, 900 - n - 6):
        ok = by >= 0 and len(T[1]) + by <= 900
        want = [len(T[1])] if ok else [-1]
        if ok:
            T[1] += [1 % n] * by
        step('grow1', [by], want)
    step('size1', [], [len(T[1])], 2)
    ends = [0, 1, n // 2, n - 1, n]
    lens = [0, 1, n // 3, n // 2, n - 1, n, n + 1]
    for sg in (e1, e2):
        for d in ends:
            for x in ends:
                for k in lens:
                    for t in (0, 1):
                        ok = d + k <= len(T[t]) and x + k <= n
                        if ok:
                            T[t][d:d + k] = S[sg][x:x + k]
                        step('init%d_%d' % (t, sg), [d, x, k], [] if ok else rt.TRAP, 2 if ok and k == n else k != 0)
    for t in (0, 1):
        for u in (0, 1):
            for d in ends:
                for x in ends:
                    for k in lens:
                        ok = d + k <= len(T[t]) and x + k <= len(T[u])
                        if ok:
                            T[t][d:d + k] = list(T[u][x:x + k])
                        step('copy%d%d' % (t, u), [d, x, k], [] if ok else rt.TRAP, 2 if ok and k > n // 2 and d == 1 else k != 0)
    for d in ends:
        for k in lens:
            ok = d + k <= len(T[0])
            if ok:
                T[0][d:d + k] = [3 % n] * k
            step('fill0', [d, k], [] if ok else rt.TRAP, 2)


def jobs(tier):
    out = [('big', [k]) for k in ((20, 70, 300) if tier == 'quick' else (5, 20, 70, 127, 128, 129, 300, 500))]
    out += [('refs', []), ('segkinds', [])] + [('calltypes', [k, 6]) for k in range(6)]
    for lo, hi in ((2, None), (2, 4), (0, 1), (0, 0), (3, 3)):
        if tier == 'quick':
            out += [('histories', [lo, hi, [0, 1], [list(o)], 3]) for o in hops([0, 1])] if (lo, hi) == (2, 4) else \
                [('histories', [lo, hi, [0, 1], [], 2])]
        else:
            out += [('histories', [lo, hi, [0, 1], [list(o)], 3 if lo != 2 else 4]) for o in hops([0, 1])]
    out += [('histories', [2, None, [2], [], 3 if tier == 'quick' else 5])]
    return out
