"""C09: calls, locals, globals."""
import itertools
from .. import asm, rt, ctl
from ..asm import op, lget, lset, i32c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from .C08 import seqs, uses, chunks

LEVEL = 'model_checking'
RULE = ('(a) every signature of up to three parameters over the seven value types, called directly, indirectly and through '
        'an import of the host, results rotated, with the caller\'s operands and locals checked afterwards, and signatures of up to 200 parameters and results; (b) every '
        'layout of up to three local groups, and functions of up to 257 groups and 1000 locals of a type; (c) recursion of every depth around the limit; (d) every pair of a caller '
        'body and a callee body up to a size bound, mutually recursive ones included, compared with a reference evaluator; '
        '(e) every history of global writes to a depth. Non-trivial: a call, a local or a global access is executed.')
ASSUMPTIONS = ['call depth limit is left to the implementation, but must be monotone and at least 100',
               'host functions which call back into the runtime are the business of C10']
BOUNDS = {'quick': 'caller bodies of size <= 4 against callee bodies of size <= 2; all global states',
          'thorough': 'caller bodies of size <= 5, callee bodies of size <= 3; all global states'}
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


def value(t, k):
    return {I32: -1000 - k, I64: -(1 << 40) - k, F32: 0.5 + k, F64: -1.25e300 * (k + 1),
            V128: bytearray((k * 16 + j * 7) & 255 for j in range(16)), FUNCREF: 0, EXTERNREF: 40 + k}[t]


def const(t, k):
    import struct
    v = value(t, k)
    if t == I32:
        return i32c(v)
    if t == I64:
        return asm.i64c(v)
    if t == F32:
        return asm.f32c(struct.unpack('<I', struct.pack('<f', v))[0])
    if t == F64:
        return asm.f64c(struct.unpack('<Q', struct.pack('<d', v))[0])
    if t == V128:
        return asm.v128c(bytes(v))
    if t == FUNCREF:
        return op('ref_func', 0)
    return op('ref_null', EXTERNREF)


def same(got, exp):
    return isinstance(got, list) and len(got) == len(exp) and all(a == b for a, b in zip(got, exp))


def signatures(ctx, first):
    """first: the type list prefix handled by this job."""
    sigs = [s for n in range(4) for s in itertools.product(TYPES, repeat=n)]
    sigs = [s for s in sigs if (s[0] if s else None) == first]
    for c in chunks(sigs, 60):
        m = asm.Mod()
        r = rt.pywasm.core.Runtime()
        r.imports['env'] = {}
        seen = []
        for k, s in enumerate(c):
            rot = s[1:] + s[:1]

            def fn(machine, a, s=s):
                seen.append(list(a))
                return list(a[1:] + a[:1])
            r.imports['env']['h%d' % k] = rt.host(r, s, rot, fn)
            m.import_func('env', 'h%d' % k, s, rot)
        m.elem_declare([0])
        m.table(FUNCREF, len(c))
        base = m.n['func']
        for k, s in enumerate(c):
            rot = s[1:] + s[:1]
            n = len(s)
            # the callee spoils its own parameters and locals and leaves junk under its results
            body = b''.join(lget(i) for i in range(n)) + b''.join(lset(n + i) for i in reversed(range(n)))
            body += b''.join(const(s[i], 9) + lset(i) for i in range(n))
            body += i32c(3) + b''.join(lget(n + i) for i in list(range(1, n)) + [0][:n]) + op('return')
            m.func(s, rot, list(s), body)
        for k, s in enumerate(c):
            rot = s[1:] + s[:1]
            n = len(s)
            get = b''.join(lget(i) for i in range(n))
            for how, callc in (('direct', op('call', base + k)), ('host', op('call', k)),
                               ('indirect', i32c(k) + op('call_indirect', m.type(s, rot), 0))):
                body = i32c(-5) + get + callc + get + asm.i64c(-6)
                m.func(s, [I32] + list(rot) + list(s) + [I64], [], body, export='%s%d' % (how, k))
        m.elem_active(i32c(0), [base + k for k in range(len(c))])
        inst = r.instance(rt.decode(m.build()))
        for k, s in enumerate(c):
            args = [value(t, i) for i, t in enumerate(s)]
            exp = [-5] + args[1:] + args[:1] + args + [-6]
            for how in ('direct', 'host', 'indirect'):
                for rep in range(2):
                    del seen[:]
                    got = rt.call(r, inst, '%s%d' % (how, k), args)
                    ctx.ev()
                    ctx.transitions += 1
                    ctx.outcome('%s/%d' % (how, len(s)))
                    if not same(got, exp) or (how == 'host' and seen != [args]):
                        ctx.viol('%s call of %s' % (how, [hex(t) for t in s]), 'got %r (host saw %r), expected %r' % (
                            got, seen, exp), {'signature': s, 'how': how})
                        if ctx.full:
                            return
            ctx.states += 1
        ctx.sample({'signature': [hex(t) for t in c[-1]], 'arguments': repr(args), 'expected': repr(exp)})
    ctx.traces += ctx.evals


def layouts(ctx, part, parts):
    """Declared locals start at zero in every activation and have the declared types, whatever earlier ones left."""
    groups = [(n, t) for t in TYPES for n in (0, 1, 2)]
    lays = [x for k in range(4) for x in itertools.product(groups, repeat=k)]
    lays = [x for i, x in enumerate(lays) if i % parts == part and (len(x) < 3 or len({t for _, t in x}) > 1)]
    for c in chunks(lays, 150):
        m = asm.Mod()
        m.func([], [])
        m.elem_declare([0])
        for k, lay in enumerate(c):
            flat = [t for n, t in lay for _ in range(n)]
            reft = (FUNCREF, EXTERNREF)
            body = b''
            for i, t in enumerate(flat):
                body += lget(1 + i) + (op('ref_is_null') if t in reft else b'')
            spoil = b''.join(const(t, 3 + i) + lset(1 + i) for i, t in enumerate(flat))
            rets = [I32 if t in reft else t for t in flat]
            m.func([I32], rets + [I32], list(lay), body + spoil + lget(0), export='f%d' % k)
            me = m.n['func'] - 1
            # recursive: the inner activation's locals are fresh, the outer's survive it
            spoil = b''.join(const(t, 3 + i) + lset(1 + i) for i, t in enumerate(flat))
            inner = lget(0) + op('if') + b'\x40' + spoil + lget(0) + i32c(1) + op('i32_sub') + op('call', me + 1) + \
                op('drop') * (len(rets) + 1) + b'\x0b'
            m.func([I32], rets + [I32], list(lay), inner + body + lget(0), export='g%d' % k)
        inst = rt.Inst(m.build())
        for k, lay in enumerate(c):
            flat = [t for n, t in lay for _ in range(n)]
            zero = [{I32: 0, I64: 0, F32: 0.0, F64: 0.0, V128: bytearray(16), FUNCREF: 1, EXTERNREF: 1}[t] for t in flat]
            spoilt = [1 if t == EXTERNREF else 0 if t == FUNCREF else value(t, 3 + i) for i, t in enumerate(flat)]
            for f, a, exp in (('f', 4, zero + [4]), ('f', 5, zero + [5]), ('g', 0, zero + [0]), ('g', 2, spoilt + [2]),
                              ('f', 6, zero + [6])):
                got = inst.call('%s%d' % (f, k), [a])
                ctx.ev(bool(flat))
                ctx.transitions += 1
                if not same(got, exp):
                    ctx.viol('locals %s %s(%d)' % ([(n, hex(t)) for n, t in lay], f, a), 'got %r, expected %r' % (got, exp),
                             {'layout': lay})
                    if ctx.full:
                        return
            ctx.states += 1
            ctx.outcome('%d locals' % len(flat))
    ctx.traces += ctx.evals


def manylocals(ctx, part, parts):
    """Functions with many groups of locals, and with large groups: the locals at every position start at zero, hold what is
    stored in them and no other local changes."""
    todo = []
    for ngroups in (7, 31, 63, 64, 65, 66, 100, 127, 128, 129, 200, 257):
        for count in (1, 2, 3):
            lay = [(count if g % 3 else 1, TYPES[g % len(TYPES)]) for g in range(ngroups)]
            todo.append((lay, 'groups %d x %d' % (ngroups, count)))
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000):
        for t in TYPES:
            todo.append(([(n, t), (1, I64), (0, F32), (2, t)], 'one group of %d of %#x' % (n, t)))
    for lay, what in todo[part::parts]:
        biglocals(ctx, lay, what)
    ctx.traces += ctx.evals


def biglocals(ctx, lay, what):
    reft = (FUNCREF, EXTERNREF)
    flat = [t for n, t in lay for _ in range(n)]
    m = asm.Mod()
    m.func([], [])
    m.elem_declare([0])
    rets = [I32 if t in reft else t for t in flat]
    body = b''.join(lget(2 + i) + (op('ref_is_null') if t in reft else b'') for i, t in enumerate(flat))
    step = max(1, len(flat) // 40)
    pick = sorted(set(range(0, len(flat), step)) | set(range(60, min(70, len(flat)))) | {len(flat) - 1})
    spoil = b''.join(lget(0) + i32c(i) + op('i32_eq') + op('if') + b'\x40' + const(flat[i], 3 + i % 5) + lset(2 + i) + b'\x0b' for i in pick)
    me = m.func([I32, I64], rets + [I32, I64], list(lay), spoil + body + lget(0) + lget(1), export='f')
    # called by another function rather than by the host
    m.func([I32], rets + [I32, I64], [], lget(0) + asm.i64c(-7) + op('call', me), export='g')
    inst = rt.Inst(m.build())
    zero = [{I32: 0, I64: 0, F32: 0.0, F64: 0.0, V128: bytearray(16), FUNCREF: 1, EXTERNREF: 1}[t] for t in flat]
    for f in 'fg':
        for i in [-1] + pick + [-1]:
            exp = list(zero)
            if i >= 0:
                t = flat[i]
                exp[i] = 1 if t == EXTERNREF else 0 if t == FUNCREF else value(t, 3 + i % 5)
            got = inst.call(f, [i, -7] if f == 'f' else [i])
            ctx.ev()
            ctx.transitions += 1
            if not same(got, exp + [i, -7]):
                ctx.viol('%s, %s(%d)' % (what, f, i), 'got %.300r, expected %.300r' % (got, exp), {'layout': what})
                break
    ctx.states += 1
    ctx.outcome('many locals')


WIDE = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 127, 128, 129, 200)


def wide(ctx, p):
    """p parameters and each number of results: called directly, indirectly, through an import of the host, and from the host."""
    at = lambda i: TYPES[(i * 3 + i // 7) % 7]
    ins = [at(i) for i in range(p)]
    for q in WIDE:
        outs = [ins[(j * 5 + 1) % p] if p else at(j) for j in range(q)]
        args = [value(t, i) for i, t in enumerate(ins)]
        exp = [args[(j * 5 + 1) % p] if p else (None if t == EXTERNREF else value(t, j)) for j, t in enumerate(outs)]
        m, r, seen = asm.Mod(), rt.pywasm.core.Runtime(), []
        h = m.import_func('env', 'h', ins, outs)
        r.imports['env'] = {'h': rt.host(r, ins, outs, lambda machine, a: seen.append(list(a)) or list(exp))}
        m.elem_declare([0])
        m.table(FUNCREF, 2)
        f = m.func(ins, outs, [(3, I32)], b''.join(lget((j * 5 + 1) % p) if p else const(t, j) for j, t in enumerate(outs)) +
                   op('return'), export='from the host')
        m.elem_active(i32c(0), [f, h])
        get = b''.join(lget(i) for i in range(p))
        for how, c in (('direct', op('call', f)), ('host', op('call', h)), ('indirect', i32c(0) + op('call_indirect', m.type(ins, outs), 0)),
                       ('indirect host', i32c(1) + op('call_indirect', m.type(ins, outs), 0))):
            m.func(ins, [I32] + outs + [I64], [], i32c(-5) + get + c + asm.i64c(-6), export=how)
        inst = r.instance(rt.decode(m.build()))
        for how in ('from the host', 'direct', 'host', 'indirect', 'indirect host'):
            del seen[:]
            got = rt.call(r, inst, how, args)
            want = exp if how == 'from the host' else [-5] + exp + [-6]
            ctx.ev()
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            ctx.outcome('wide')
            if not same(got, want) or seen != ([args] if how.endswith(' host') or how == 'host' else []) and how != 'from the host':
                ctx.viol('wide:%s:%d:%d' % (how, p, q), 'got %r (host saw %r), expected %r' % (got, seen, want))


def recursion(ctx, kind):
    m = asm.Mod()
    t = m.type([I32, I32], [I32])
    n1 = lget(0) + i32c(1) + op('i32_sub')
    # f(n, acc): n == 0 ? acc : (7, f(n-1, acc+n)) with operands and a local kept across the call
    me = 0 if kind != 'host' else 1
    if kind == 'host':
        m.import_func('env', 'inc', [I32], [I32])
    callc = {'direct': op('call', me), 'indirect': i32c(0) + op('call_indirect', t, 0), 'mutual': op('call', 1),
             'block': op('call', me), 'nest': op('call', me), 'host': op('call', me)}[kind]
    extra = op('call', 0) + i32c(1) + op('i32_sub') if kind == 'host' else b''
    rec = i32c(7) + n1 + lget(1) + lget(0) + op('i32_add') + extra + callc + ltee2() + lget(2) + op('i32_sub') + op('i32_add') + \
        i32c(7) + op('i32_sub') + lget(2) + op('i32_add')
    body = lget(0) + i32c(9) + lset(2) + op('if') + bytes([I32]) + rec + op('else') + lget(1) + b'\x0b'
    if kind == 'block':
        body = op('block') + bytes([I32]) + op('loop') + bytes([I32]) + body + op('br', 1) + b'\x0b' + b'\x0b'
    if kind == 'nest':
        # eight constructs around every call, left at once
        body = (op('block') + bytes([I32])) * 7 + body + op('br', 6) + b'\x0b' * 7
    m.func([I32, I32], [I32], [I32], body, export='f')
    m.func([I32, I32], [I32], [], lget(0) + lget(1) + op('call', me), export='via')
    m.table(FUNCREF, 1)
    m.elem_active(i32c(0), [me])
    r = rt.pywasm.core.Runtime()
    r.imports['env'] = {'inc': rt.host(r, [I32], [I32], lambda machine, a: [a[0] + 1])}
    inst = r.instance(rt.decode(m.build()))
    top = None
    for d in list(range(0, 130)) + list(range(130, 1400, 1 if ctx.tier != 'quick' else 19 if kind == 'nest' else 3)) + [1, 50, 99]:
        got = rt.call(r, inst, 'f', [d, 3])
        exp = 3 + d * (d + 1) // 2
        ctx.ev(d > 0)
        ctx.transitions += 1
        if isinstance(got, rt.Trap) and d >= 100:
            top = d if top is None else min(top, d)
            ctx.outcome('depth refused')
        elif got != [exp] or (top is not None and d >= top):
            ctx.viol('recursion %s depth %d' % (kind, d), 'got %r, expected %r (smallest refused depth %r)' % (got, [exp], top),
                     {'kind': kind, 'depth': d})
            if ctx.full:
                return
        else:
            ctx.outcome('depth ok')
    # endless recursion traps and the runtime stays usable
    got = [rt.call(r, inst, 'f', [-1, 0]), rt.call(r, inst, 'f', [4, 0]), rt.call(r, inst, 'via', [5, 0])]
    ctx.ev()
    if not isinstance(got[0], rt.Trap) or got[1:] != [[10], [15]]:
        ctx.viol('endless recursion %s' % kind, 'got %r' % (got,))
    ctx.states += 1400
    ctx.traces += ctx.evals


def ltee2():
    return asm.ltee(2)


# -------------------------------------------------------------------------------------- caller and callee bodies
def withcalls(size, calls):
    """Bodies of `size` that contain at least one call: the bodies of C08 with a log or a subtraction replaced."""
    out = []
    for b in seqs(size, 0, (1,), 1):
        flat = list(positions(b))
        for p in flat:
            for callee in calls:
                out.append(replace(b, p, callee))
    return out


def positions(body, pre=()):
    """Places where a call of type (i32)->(i32) may be inserted: after any instruction that leaves a value."""
    for i, ins in enumerate(body):
        if ins[0] in ('const', 'get', 'sub'):
            yield pre + (i,)
        elif ins[0] in ('block', 'loop'):
            yield from positions(ins[2], pre + (i, 2))
        elif ins[0] == 'if':
            yield from positions(ins[2], pre + (i, 2))
            yield from positions(ins[3], pre + (i, 3))


def replace(body, p, callee):
    body = list(body)
    if len(p) == 1:
        body.insert(p[0] + 1, ('call', callee))
    else:
        ins = list(body[p[0]])
        ins[p[1]] = replace(ins[p[1]], p[2:], callee)
        body[p[0]] = tuple(ins)
    return tuple(body)


def pairs(ctx, csize, gsize, part, parts):
    """f calls g (or itself); g may call f. Functions: 0 log, 1 f, 2 g."""
    callers = [ctl.number(b) for i, b in enumerate(withcalls(csize, (1, 2))) if i % parts == part]
    callees = [ctl.number(b) for k in range(1, gsize + 1) for b in list(seqs(k, 0, (1,), 1)) +
               (withcalls(k, (1,)) if k == gsize else [])]
    for c in chunks(itertools.product(callers, callees), 60):
        m = asm.Mod()
        m.import_func('env', 'log', [I32], [])
        progs = []
        for i, (f, g) in enumerate(c):
            def shift(b, i=i):
                return tuple((x[0], x[1] + 2 * i) if x[0] == 'call' else
                             (x[0], x[1], shift(x[2])) if x[0] in ('block', 'loop') else
                             (x[0], x[1], shift(x[2]), shift(x[3])) if x[0] == 'if' else x for x in b)
            progs += [(1, 1, 2, shift(f)), (1, 1, 2, shift(g))]
        for i, (p, q, n, b) in enumerate(progs):
            m.func([I32], [I32], [(2, I32)], ctl.encode(m, b), export='f%d' % i)
        log = []
        b = m.build()

        def fresh():
            r = rt.pywasm.core.Runtime()
            r.imports['env'] = {'log': rt.host(r, [I32], [], lambda machine, a: log.append(a[0]) or [])}
            return r, r.instance(rt.decode(b))
        r, inst = fresh()
        for i, (f, g) in enumerate(c):
            ctx.states += 1
            for x in (0, 1):
                ref = ctl.Ref(progs, fuel=300, depth=40)
                try:
                    want = [ctl.sx(v, 32) for v in ref.call(1 + 2 * i, [x])]
                except ctl.Fuel:
                    ctx.note('skipped_nonterminating')
                    continue
                del log[:]
                got = rt.call(r, inst, 'f%d' % (2 * i), [x])
                ctx.ev()
                ctx.transitions += 1
                ctx.outcome('%d logs' % len(log))
                if got != want or log != ref.log:
                    ctx.viol('f(%d) with f={%s} g={%s}' % (x, ctl.show(f), ctl.show(g)),
                             'got %r log %r, expected %r log %r' % (got, log, want, ref.log))
                    if ctx.full:
                        return
                    r, inst = fresh()
    ctx.traces += ctx.evals


# ------------------------------------------------------------------------------------------------------- globals
def globs(ctx, first):
    """Histories of writes to mutable globals of every type by two functions, with immutable neighbours."""
    m = asm.Mod()
    m.func([], [])
    m.elem_declare([0])
    ty = [I32, I64, F32, F64, V128]
    for k, t in enumerate(ty):
        m.glob(t, 1, const(t, 1))
        m.glob(t, 0, const(t, 2))
    allget = b''.join(op('global_get', i) for i in range(10))
    for k, t in enumerate(ty):
        m.func([t], [], [], lget(0) + op('global_set', 2 * k), export='set%d' % k)
        # reads it, calls a function that changes it, reads it again
        m.func([t], [t, t], [], op('global_get', 2 * k) + lget(0) + op('call', 1 + 2 * k) + op('global_get', 2 * k),
               export='rw%d' % k)
    m.func([], [t for t in ty for _ in (0, 1)], [], allget, export='all')
    b = m.build()
    opsl = [('set', k, v) for k in range(5) for v in (3, 4)] + [('rw', k, 5) for k in range(5)]
    depth = 4 if ctx.tier == 'quick' else 5
    i = rt.Inst(b)
    state = [value(t, 1) for t in ty]

    def setall(st):
        for k in range(5):
            i.call('set%d' % k, [st[k]])

    def go(st, d):
        for f, k, v in opsl:
            new = list(st)
            new[k] = value(ty[k], v)
            setall(st)
            got = i.call('%s%d' % (f, k), [new[k]])
            exp = [] if f == 'set' else [st[k], new[k]]
            now = i.call('all', [])
            want = [x for q in range(5) for x in (new[q], value(ty[q], 2))]
            ctx.ev()
            ctx.transitions += 1
            if not same(got, exp) or not same(now, want):
                ctx.viol('global %s %d from %r' % (f, k, st), 'got %r then %r, expected %r then %r' % (got, now, exp, want))
                if ctx.full:
                    return
            key = repr(new)
            if d > 1 and (key, d) not in seen and key not in done:
                done.add(key)
                seen.add((key, d))
                go(new, d - 1)
    seen, done = set(), set()
    first_all = i.call('all', [])
    if not same(first_all, [value(t, j) for t in ty for j in (1, 2)]):
        ctx.viol('initial globals', repr(first_all))
    go(state, depth + 6)
    ctx.states += len(done)
    ctx.traces += ctx.evals
    ctx.outcome('%d global states' % len(done))


def jobs(tier):
    out = [('signatures', [f]) for f in [None] + TYPES]
    out += [('layouts', [k, 8]) for k in range(8)]
    out += [('recursion', [k]) for k in ('direct', 'indirect', 'mutual', 'block', 'nest', 'host')]
    out += [('wide', [p]) for p in WIDE]
    out += [('globs', [0]), *(('manylocals', [k, 4]) for k in range(4))]
    q = tier == 'quick'
    for cs in range(1, 5 if q else 6):
        for gs in ([2] if q else [2, 3]):
            parts = {1: 1, 2: 1, 3: 4, 4: 24, 5: 128}[cs]
            for p in range(parts):
                out.append(('pairs', [cs, gs, p, parts]))
    return out
