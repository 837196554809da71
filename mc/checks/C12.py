"""C12: linking and instantiation."""
import itertools

from .. import asm, rt, bfs
from ..asm import op, lget, i32c, i64c, f32c, f64c, v128c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from ..bfs import Mismatch
import pywasm

LEVEL = 'model_checking'
RULE = ('(a) every offered against every required import type: functions (13 signatures), globals (7 types, both '
        'mutabilities), tables and memories (11 limit shapes, grown or not), offered by a module and by the host, all kinds '
        'against all kinds, missing names, 23 names which differ in little (in pairs for imports, and for what the host asks for), and every order of five imports of mixed kinds; each success is followed by '
        'operations showing that the object is shared; (b) every placement of two data and two element segments around the '
        'bounds, with and without a start function, and every initialiser form; (c) breadth-first search over operation '
        'histories on two instances of one decoded module, an importer, and an instance of the same module in a second '
        'runtime, all observable state compared after every step; (d) every index of modules with up to four imported and four '
        'own functions and globals, and of some with up to 300, used in every place that takes one. Non-trivial: all cases are distinct.')
ASSUMPTIONS = ['the standard\'s matching rules: current size of the offered object against the required minimum, declared '
               'maximum against the required maximum',
               'the only merged histories are those with equal model state and equal structural dump of the runtimes']
BOUNDS = {'quick': 'histories of depth 3', 'thorough': 'histories of depth 4'}

SIGS = [((), ()), ((I32,), ()), ((I64,), ()), ((F32,), ()), ((V128,), ()), ((FUNCREF,), ()), ((EXTERNREF,), ()), ((), (I32,)),
        ((I32,), (I32,)), ((I32, I64), ()), ((I64, I32), ()), ((I32,), (I32, I32)), ((I32, I32), (I32,))]
ZERO = {I32: i32c(0), I64: i64c(0), F32: f32c(0), F64: f64c(0), V128: v128c(bytes(16)), FUNCREF: op('ref_null', FUNCREF),
        EXTERNREF: op('ref_null', EXTERNREF)}
ALL = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
LIM = [(0, None), (1, None), (2, None), (3, None), (0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 5), (0, 5)]


def limmatch(size, omax, req):
    return size >= req[0] and (req[1] is None or (omax is not None and omax <= req[1]))


def tryinst(r, b, imports):
    for (m, n), e in imports.items():
        r.imports.setdefault(m, {})[n] = e
    rt.arm(10)
    try:
        return r.instance(rt.decode(b))
    except Exception as e:
        return rt.Trap(e)
    finally:
        rt.disarm()


def exp(inst, n):
    return [e.data for e in inst.exps if e.name == n][0]


def verdict(ctx, key, got, want):
    """True if instantiation succeeded as it should; reports otherwise."""
    ctx.ev()
    ok = not isinstance(got, rt.Trap)
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome('linked' if ok else 'refused')
    if ok != want:
        ctx.viol(key, 'instantiation %s but should %s (%r)' % ('succeeded' if ok else 'failed', 'succeed' if want else 'fail', got))
    return ok and want


# --- functions
def provider_func(sig):
    m = asm.Mod()
    g = m.glob(I32, 1, i32c(0))
    m.type([F64], [])
    m.func(sig[0], sig[1], body=op('global_get', g) + i32c(1) + op('i32_add') + op('global_set', g) +
           b''.join(i32c(77) for _ in sig[1]), export='x')
    m.func([], [I32], body=op('global_get', g), export='count')
    return m.build()


def user_func(sig):
    m = asm.Mod()
    m.type([F32, F32], [F64])
    m.type([], [F64])
    f = m.import_func('p', 'x', *sig)
    m.func([], [I32], body=b''.join(ZERO[t] for t in sig[0]) + asm.call(f) + (op('drop') * max(0, len(sig[1]) - 1)) +
           (b'' if sig[1] else i32c(77)), export='go')
    return m.build()


def funcs(ctx, host):
    ub = [user_func(s) for s in SIGS]
    for i, so in enumerate(SIGS):
        r = pywasm.core.Runtime()
        n = [0]
        if host:
            def fn(m, a, so=so, n=n):
                n[0] += 1
                return [77] * len(so[1])
            x = rt.host(r, *so, fn)
        else:
            p = r.instance(rt.decode(provider_func(so)))
            x = exp(p, 'x')
        for j, sr in enumerate(SIGS):
            key = 'func:%s:%d:%d' % ('host' if host else 'wasm', i, j)
            q = tryinst(r, ub[j], {('p', 'x'): x})
            if verdict(ctx, key, q, i == j):
                a = rt.call(r, q, 'go', [])
                c = n[0] if host else r.invocate(p, 'count', [])[0]
                if a != [77] or c != 1:
                    ctx.viol(key, 'call through the import gave %r, the provider saw %r calls' % (a, c))
        if i < 2:
            ctx.sample({'offered': str(so), 'required': str(SIGS), 'linked': [i]})


# --- globals
def init(t, k):
    """An initialiser, and a second distinct one; host values alongside."""
    return {I32: [i32c(5), i32c(-9)], I64: [i64c(1 << 40), i64c(-3)], F32: [f32c(0x3fc00000), f32c(0xbf000000)],
            F64: [f64c(0x3ff8000000000000), f64c(0xc000000000000000)],
            V128: [v128c(bytes(range(16))), v128c(bytes([255] * 16))],
            FUNCREF: [op('ref_func', 0), op('ref_null', FUNCREF)],
            EXTERNREF: [op('ref_null', EXTERNREF)] * 2}[t][k]


def hostval(t, k):
    V = pywasm.core.ValInst
    return {I32: lambda: V.from_i32([5, -9][k]), I64: lambda: V.from_i64([1 << 40, -3][k]),
            F32: lambda: V.from_f32([1.5, -0.5][k]), F64: lambda: V.from_f64([1.5, -2.0][k]),
            V128: lambda: V.from_v128(bytearray([bytes(range(16)), bytes([255] * 16)][k])),
            FUNCREF: lambda: V.from_ref(rt.VT[FUNCREF](), None),
            EXTERNREF: lambda: V.from_ref(rt.VT[EXTERNREF](), [12, None][k])}[t]()


def provider_glob(t, mut):
    m = asm.Mod()
    m.func([], [], export='f')
    m.glob(I32, 0, i32c(1))
    g = m.glob(t, mut, init(t, 0), export='x')
    m.func([], [t], body=op('global_get', g), export='get')
    if mut:
        m.func([], [], body=init(t, 1) + op('global_set', g), export='set')
    return m.build()


def user_glob(t, mut):
    m = asm.Mod()
    g = m.import_global('p', 'x', t, mut)
    m.func([], [], export='f')
    m.func([], [t], body=op('global_get', g), export='get')
    if mut:
        m.func([], [], body=init(t, 1) + op('global_set', g), export='set')
        m.func([t], [], body=lget(0) + op('global_set', g), export='put')
    return m.build()


def globs(ctx, host):
    kinds = [(t, u) for t in ALL for u in (0, 1)]
    ub = [user_glob(*k) for k in kinds]
    for i, (t, mut) in enumerate(kinds):
        for j, req in enumerate(kinds):
            key = 'global:%s:%d:%d' % ('host' if host else 'wasm', i, j)
            r = pywasm.core.Runtime()
            if host:
                x = r.allocate_global(pywasm.core.GlobalType(rt.VT[t](), mut), hostval(t, 0))
                p = None
            else:
                p = r.instance(rt.decode(provider_glob(t, mut)))
                x = exp(p, 'x')
            q = tryinst(r, ub[j], {('p', 'x'): x})
            if not verdict(ctx, key, q, i == j):
                continue
            q2 = tryinst(r, ub[j], {('p', 'x'): x})
            first = (p and rt.call(r, p, 'get', [])) or rt.call(r, q, 'get', [])
            views = [lambda q=q: rt.call(r, q, 'get', []), lambda q2=q2: rt.call(r, q2, 'get', [])]
            if p:
                views.append(lambda: rt.call(r, p, 'get', []))
            def look(what, want):
                got = [v() for v in views]
                if any(g != want for g in got):
                    ctx.viol(key, 'after %s the views are %r, expected %r' % (what, got, want))
            look('linking', first)
            raw = {I32: 5, I64: 1 << 40, F32: 1.5, F64: 1.5, V128: bytearray(range(16))}.get(t, ())
            if raw != () and first != [raw]:
                ctx.viol(key, 'imported global reads %r' % (first,))
            if mut:
                s = rt.call(r, q, 'set', [])
                second = rt.call(r, q, 'get', [])
                if s != [] or (t not in (EXTERNREF, FUNCREF) and second == first):
                    ctx.viol(key, 'set through the import: %r then %r' % (s, second))
                look('set through one import', second)
                rt.call(r, q2, 'put', list(first))
                look('set back through another import', first)
                if p:
                    rt.call(r, p, 'set', [])
                    look('set by the provider', rt.call(r, p, 'get', []))
    ctx.sample({'kinds': str(kinds), 'host': host})


# --- tables and memories
def provider_tm(kind, t, lim):
    m = asm.Mod()
    m.func([], [I32], body=i32c(41), export='f')
    if kind == 'mem':
        m.mem(lim[0], lim[1], export='x')
        m.func([I32], [I32], body=lget(0) + op('memory_grow', b'\0'), export='grow')
        m.func([], [I32], body=op('memory_size', b'\0'), export='size')
        m.func([I32, I32], [], body=lget(0) + lget(1) + op('i32_store', 0, 0), export='put')
        m.func([I32], [I32], body=lget(0) + op('i32_load', 0, 0), export='get')
    else:
        m.table(t, lim[0], lim[1], export='x')
        ref = op('ref_func', 0) if t == FUNCREF else op('ref_null', t)
        m.func([I32], [I32], body=op('ref_null', t) + lget(0) + op('table_grow', 0), export='grow')
        m.func([], [I32], body=op('table_size', 0), export='size')
        m.func([I32], [], body=lget(0) + ref + op('table_set', 0), export='put')
        m.func([I32], [I32], body=lget(0) + op('table_get', 0) + op('ref_is_null'), export='get')
    return m.build()


def user_tm(kind, t, lim):
    m = asm.Mod()
    m.func([], [I32], body=i32c(42), export='f') if kind == 'none' else None
    if kind == 'mem':
        m.import_mem('p', 'x', lim[0], lim[1])
        m.func([I32], [I32], body=lget(0) + op('memory_grow', b'\0'), export='grow')
        m.func([], [I32], body=op('memory_size', b'\0'), export='size')
        m.func([I32, I32], [], body=lget(0) + lget(1) + op('i32_store', 0, 0), export='put')
        m.func([I32], [I32], body=lget(0) + op('i32_load', 0, 0), export='get')
    else:
        m.import_table('p', 'x', t, lim[0], lim[1])
        m.func([], [I32], body=i32c(42), export='f')
        ref = op('ref_func', 0) if t == FUNCREF else op('ref_null', t)
        m.func([I32], [I32], body=op('ref_null', t) + lget(0) + op('table_grow', 0), export='grow')
        m.func([], [I32], body=op('table_size', 0), export='size')
        m.func([I32], [], body=lget(0) + ref + op('table_set', 0), export='put')
        m.func([I32], [I32], body=lget(0) + op('table_get', 0) + op('ref_is_null'), export='get')
    return m.build()


def tms(ctx, kind, t, host):
    ub = {}
    reqs = [(k, u, l) for k, u in (('mem', 0), ('table', FUNCREF), ('table', EXTERNREF)) for l in LIM]
    for lim in LIM:
        for grow in ((0,) if host else (0, 1, 2)):
            if lim[1] is not None and lim[0] + grow > lim[1]:
                continue
            for k, u, req in reqs:
                if (k, u) != (kind, t) and req not in ((0, None), (1, 2)):
                    continue
                key = '%s:%s:%s:%s+%d:%s:%s:%s' % (kind, t, 'host' if host else 'wasm', lim, grow, k, u, req)
                r = pywasm.core.Runtime()
                if host:
                    L = pywasm.core.Limits(lim[0], lim[1])
                    p = None
                    if kind == 'mem':
                        x = r.allocate_memory(pywasm.core.MemType(L))
                    else:
                        x = r.allocate_table(pywasm.core.TableType(rt.VT[t](), L))
                else:
                    p = r.instance(rt.decode(provider_tm(kind, t, lim)))
                    x = exp(p, 'x')
                    if grow and r.invocate(p, 'grow', [grow]) != [lim[0]]:
                        ctx.viol(key, 'growth by %d was refused' % grow)
                        continue
                if (k, u, req) not in ub:
                    ub[k, u, req] = user_tm(k, u, req)
                b = ub[k, u, req]
                q = tryinst(r, b, {('p', 'x'): x})
                size = lim[0] + grow
                if not verdict(ctx, key, q, (k, u) == (kind, t) and limmatch(size, lim[1], req)):
                    continue
                q2 = tryinst(r, b, {('p', 'x'): x})
                insts = [i for i in (p, q, q2) if i]
                # every holder sees the same size, the same contents, and everybody's growth
                for n, w in enumerate(insts):
                    sizes = [rt.call(r, i, 'size', []) for i in insts]
                    if sizes != [[size]] * len(insts):
                        ctx.viol(key, 'sizes seen: %r, expected %d' % (sizes, size))
                        break
                    if size:
                        at = 4 * n if kind == 'mem' else min(n, size - 1)
                        rt.call(r, w, 'put', [at, 1000 + n] if kind == 'mem' else [at])
                        seen = [rt.call(r, i, 'get', [at]) for i in insts]
                        want = [1000 + n] if kind == 'mem' else [int(t == EXTERNREF)]
                        if seen != [want] * len(insts):
                            ctx.viol(key, 'after a write by holder %d: %r' % (n, seen))
                    can = size + 1 <= (lim[1] if lim[1] is not None else 100)
                    g = rt.call(r, w, 'grow', [1])
                    if g != ([size] if can else [-1]):
                        ctx.viol(key, 'grow by holder %d from %d gave %r' % (n, size, g))
                        break
                    size += can
    ctx.sample({'kind': kind, 'type': t, 'host': host, 'limits': str(LIM)})


# --- kinds and orders
def kinds(ctx):
    """Every kind of export against every kind of import under the same name; missing names; one good, one bad import."""
    p = asm.Mod()
    p.func([], [], export='func')
    p.table(FUNCREF, 1, None, export='table')
    p.mem(1, None, export='mem')
    p.glob(I32, 0, i32c(3), export='global')
    pb = p.build()

    def user(reqs):
        m = asm.Mod()
        for mod, nm, k in reqs:
            if k == 'func':
                m.import_func(mod, nm, [], [])
            elif k == 'table':
                m.import_table(mod, nm, FUNCREF, 1)
            elif k == 'mem':
                m.import_mem(mod, nm, 1)
            else:
                m.import_global(mod, nm, I32, 0)
        m.func([], [I32], body=i32c(9), export='nine')
        return m.build()
    K = ('func', 'table', 'mem', 'global')
    for a in K:
        for b in K:
            r = pywasm.core.Runtime()
            inst = r.instance(rt.decode(pb))
            verdict(ctx, 'kind:%s:%s' % (a, b), tryinst(r, user([('p', 'x', b)]), {('p', 'x'): exp(inst, a)}), a == b)
            for c in K:
                if c == 'mem' == b or c == 'table' == b:
                    continue
                # two imports, the first right, the second of kind a against b; and the other way round
                im = {('p', 'x'): exp(inst, a), ('p', 'y'): exp(inst, c)}
                verdict(ctx, 'kind2:%s:%s:%s' % (a, b, c),
                        tryinst(r, user([('p', 'y', c), ('p', 'x', b)]), im), a == b)
                verdict(ctx, 'kind2r:%s:%s:%s' % (a, b, c),
                        tryinst(r, user([('p', 'x', b), ('p', 'y', c)]), im), a == b)
    for b in K:
        for have in ([], [('p', 'y')], [('q', 'x')], [('', 'x')], [('p', '')], [('P', 'x')], [('p', 'x ')], [('p', 'x')]):
            r = pywasm.core.Runtime()
            inst = r.instance(rt.decode(pb))
            verdict(ctx, 'missing:%s:%s' % (b, have), tryinst(r, user([('p', 'x', b)]), {h: exp(inst, b) for h in have}),
                    have == [('p', 'x')])
        for nm in (('', ''), ('', 'x'), ('é', '名'), ('p', 'p'), ('a.b', 'c d')):
            r = pywasm.core.Runtime()
            inst = r.instance(rt.decode(pb))
            verdict(ctx, 'name:%s:%r' % (b, nm), tryinst(r, user([nm + (b,)]), {nm: exp(inst, b)}), True)
    ctx.sample({'kinds': str(K)})


def orders(ctx):
    """Each of the orders of seven imports of mixed kinds gives every import its own index space."""
    items = ['f1', 'f2', 'g1', 'g2', 'm', 't', 'f1b']
    for perm in itertools.permutations(items, 7):
        if perm.index('f1b') < perm.index('f1'):
            continue
        r = pywasm.core.Runtime()
        m = asm.Mod()
        im, fi, gi = {}, {}, {}
        for x in perm:
            if x[0] == 'f':
                fi[x] = m.import_func('h', x, [], [I32])
                v = {'f1': 11, 'f2': 22, 'f1b': 33}[x]
                im['h', x] = rt.host(r, [], [I32], lambda mm, a, v=v: [v])
            elif x[0] == 'g':
                gi[x] = m.import_global('h', x, I32, int(x == 'g2'))
                im['h', x] = r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), int(x == 'g2')),
                                               pywasm.core.ValInst.from_i32({'g1': 101, 'g2': 202}[x]))
            elif x == 'm':
                m.import_mem('h', x, 1)
                im['h', x] = r.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, None)))
            else:
                m.import_table('h', x, FUNCREF, 4)
                im['h', x] = r.allocate_table(pywasm.core.TableType(rt.VT[FUNCREF](), pywasm.core.Limits(4, None)))
        own = m.func([], [I32], body=i32c(44))
        og = m.glob(I32, 0, op('global_get', gi['g1']), export='og')
        m.table(FUNCREF, 3)
        m.elem_active(i32c(0), [own, fi['f2'], fi['f1'], fi['f1b']])
        m.elem_active(i32c(1), [fi['f1'], own], table=1)
        m.data_active(op('global_get', gi['g1']), b'\x07')
        t = m.type([], [I32])
        m.func([I32], [I32], body=lget(0) + op('call_indirect', t, 0), export='t0')
        m.func([I32], [I32], body=lget(0) + op('call_indirect', t, 1), export='t1')
        m.func([], [I32] * 8, body=asm.call(fi['f1']) + asm.call(fi['f2']) + asm.call(fi['f1b']) +
               asm.call(own) + op('global_get', gi['g1']) + op('global_get', gi['g2']) + op('global_get', og) +
               i32c(101) + op('i32_load8_u', 0, 0), export='all')
        q = tryinst(r, m.build(), im)
        key = 'order:' + ','.join(perm)
        if not verdict(ctx, key, q, True):
            continue
        got = [rt.call(r, q, 'all', [])] + [rt.call(r, q, 't0', [i]) for i in range(4)] + \
              [rt.call(r, q, 't1', [i]) for i in range(3)]
        want = [[11, 22, 33, 44, 101, 202, 101, 7], [44], [22], [11], [33], rt.TRAP, [11], [44]]
        if got != want:
            ctx.viol(key, 'got %r, expected %r' % (got, want))
    ctx.sample({'orders of': items})


# --- segments
DOFF = [0, 1, 65534, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff]
EOFF = [0, 1, 2, 3, 4, 5, 0x7fffffff, 0x80000000, 0xffffffff]


def seg_module(d1, d2, e1, e2, start, mode):
    """Imports memory and table and a log; own start. Offsets by constant or through an imported global."""
    m = asm.Mod()
    log = m.import_func('h', 'log', [], [])
    m.import_mem('h', 'm', 1)
    m.import_table('h', 't', FUNCREF, 4)
    g = m.import_global('h', 'g', I32, 0)
    f = m.func([], [I32], body=i32c(50))
    f2 = m.func([], [I32], body=i32c(60))

    def off(x):
        return op('global_get', g) if mode == 'global' else i32c(x)
    m.elem_active(off(e1[0]), [f] * e1[1])
    m.elem_active(i32c(e2[0]), [f2] * e2[1])
    (m.data_active if mode != 'idx' else m.data_active_idx)(off(d1[0]), b'\x11\x12'[:d1[1]])
    m.data_active(i32c(d2[0]), b'\x21\x22'[:d2[1]])
    if start:
        m.start(m.func([], [], body=asm.call(log) + (op('unreachable') if start == 2 else b'')))
    m.func([], [], export='x')
    return m.build()


def segments(ctx, mode, part, parts):
    # the observer shares memory and table
    ob = asm.Mod()
    ob.import_mem('h', 'm', 1)
    ob.import_table('h', 't', FUNCREF, 4)
    ob.func([I32], [I32], body=lget(0) + op('call_indirect', ob.type([], [I32]), 0), export='call')
    ob = ob.build()
    if mode == 'global':
        cases = [((d, n), (0, 1), (d, k), (1, 1)) for d in DOFF + EOFF for n in (0, 1, 2) for k in (0, 1, 2)]
    else:
        cases = [((d, n), (d2, n2), (0, 1), (2, 1)) for d in DOFF for n in (0, 1, 2) for d2 in DOFF for n2 in (0, 1, 2)]
        cases += [((0, 1), (2, 1), (e, n), (e2, n2)) for e in EOFF for n in (0, 1, 2) for e2 in EOFF for n2 in (0, 1, 2)]
        cases += [((d, n), (1, 1), (e, k), (1, 1)) for d in DOFF for n in (0, 2) for e in EOFF for k in (0, 2)]
    if mode == 'idx':
        cases = [c for c in cases if c[1][1] == 1 and c[3][1] == 1 and c[0][1] and c[2][1]]
    for c, (d1, d2, e1, e2) in enumerate(cases):
        if c % parts != part:
            continue
        for start in (0, 1, 2):
            r = pywasm.core.Runtime()
            n = [0]

            def log(m, a):
                n[0] += 1
                return []
            L = pywasm.core.Limits
            im = {('h', 'log'): rt.host(r, [], [], log), ('h', 'm'): r.allocate_memory(pywasm.core.MemType(L(1, None))),
                  ('h', 't'): r.allocate_table(pywasm.core.TableType(rt.VT[FUNCREF](), L(4, None))),
                  ('h', 'g'): r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), 0),
                                                pywasm.core.ValInst.from_u32(d1[0]))}
            o = tryinst(r, ob, im)
            q = tryinst(r, seg_module(d1, d2, e1, e2, start, mode), im)
            mem, tab = bytearray(65536), [None] * 4
            ok = True
            for (a, k), v in ((e1, 50), (e2, 60)):
                ok = ok and a + k <= 4
                if ok:
                    tab[a:a + k] = [v] * k
            for (a, k), v in ((d1, b'\x11\x12'), (d2, b'\x21\x22')):
                ok = ok and a + k <= 65536
                if ok:
                    mem[a:a + k] = v[:k]
            runs = int(ok and start > 0)
            key = 'segments:%s:%s:%s:%s:%s:start%d' % (mode, d1, d2, e1, e2, start)
            if verdict(ctx, key, q, ok and start != 2) != (ok and start != 2):
                continue
            real = bytes(r.machine.store.mems[im['h', 'm'].data].data)
            seen = [rt.call(r, o, 'call', [i]) for i in range(4)]
            if real != bytes(mem) or seen != [rt.TRAP if x is None else [x] for x in tab] or n[0] != runs:
                diff = [i for i in range(min(len(real), 65536)) if real[i] != mem[i]][:4]
                ctx.viol(key, 'memory differs at %r (length %d), table calls %r expected %r, start ran %d times expected %d' % (
                    diff, len(real), seen, tab, n[0], runs))
                if ctx.full:
                    return
    ctx.sample({'mode': mode, 'cases': len(cases), 'last': str(cases[-1])})


def dropped(ctx):
    """After instantiation active and declarative segments are empty, passive ones whole; start sees all segments."""
    for order in itertools.permutations(['active', 'passive', 'declare', 'passive2']):
        for sn in (0, 1, 2):
            m = asm.Mod()
            m.mem(1)
            m.table(FUNCREF, 5)
            f = m.func([], [I32], body=i32c(7))
            idx = {}
            for o in order:
                if o == 'active':
                    idx[o] = m.elem_active(i32c(0), [f, f])
                    di = m.data_active(i32c(0), b'AB')
                elif o == 'declare':
                    idx[o] = m.elem_declare([f, f])
                    dd = m.data_passive(b'EF')
                elif o == 'passive':
                    idx[o] = m.elem_passive([f, f])
                    dp = m.data_passive(b'CD')
                else:
                    idx[o] = m.elem_passive_expr(FUNCREF, [op('ref_func', f), op('ref_null', FUNCREF)])
            for o in order:
                m.func([I32], [], body=i32c(3) + i32c(0) + lget(0) + op('table_init', idx[o], 0), export='e' + o)
            for nm, i in (('da', di), ('dp', dp), ('dd', dd)):
                m.func([I32], [], body=i32c(8) + i32c(0) + lget(0) + op('memory_init', i, b'\0'), export=nm)
            m.func([], [I32, I32], body=i32c(0) + op('i32_load8_u', 0, 0) + i32c(0) + op('call_indirect', m.type([], [I32]), 0),
                   export='look')
            g = m.glob(I32, 1, i32c(-1), export='g')
            st = m.func([], [], body=i32c(0) + op('i32_load8_u', 0, 0) + i32c(1) + op('call_indirect', m.type([], [I32]), 0) +
                        op('i32_add') + op('global_set', g))
            m.start(st)
            r = pywasm.core.Runtime()
            q = tryinst(r, m.build(), {})
            key = 'dropped:%s:%d' % (','.join(order), sn)
            if not verdict(ctx, key, q, True):
                continue
            if r.exported_global(q, 'g').data.into_i32() != 65 + 7:
                ctx.viol(key, 'the start function did not see the segments')
            for nm, live in (('eactive', 0), ('edeclare', 0), ('epassive', 2), ('epassive2', 2), ('da', 0), ('dp', 2), ('dd', 2)):
                got = rt.call(r, q, nm, [sn])
                want = [] if sn <= live else rt.TRAP
                if got != want:
                    ctx.viol(key + nm, '%s of %d: %r, expected %r' % (nm, sn, got, want))
            if rt.call(r, q, 'look', []) != [65, 7]:
                ctx.viol(key, 'contents')
    ctx.sample({'kinds': 'orders of active, passive, declarative segments'})


def inits(ctx):
    """Every form of constant initialiser of globals, element expressions and offsets."""
    V = pywasm.core.ValInst
    for t in ALL:
        for mut in (0, 1):
            for k in (0, 1):
                for form in ('const', 'get0', 'get1'):
                    if form == 'const' and t == FUNCREF and k == 0:
                        pass
                    r = pywasm.core.Runtime()
                    m = asm.Mod()
                    f0 = m.import_func('h', 'f', [], [I32])
                    gs = [m.import_global('h', 'g%d' % i, t, 0) for i in range(2)]
                    m.glob(I64, 0, i64c(99))
                    e = init(t, k) if form == 'const' else op('global_get', gs[int(form[3])])
                    g = m.glob(t, mut, e)
                    m.glob(I64, 1, i64c(98))
                    if t == FUNCREF:
                        tb = m.table(FUNCREF, 3)
                        m.elem_active_expr(0, i32c(1), FUNCREF, [e])
                        m.func([], [I32], body=op('global_get', g) + op('ref_is_null'), export='null')
                        m.func([], [I32], body=i32c(1) + op('call_indirect', m.type([], [I32]), tb), export='call')
                    m.func([], [t], body=op('global_get', g), export='get')
                    fh = rt.host(r, [], [I32], lambda mm, a: [31])
                    vals = [hostval(t, 0), hostval(t, 1)]
                    if t == FUNCREF:
                        vals = [V.from_ref(rt.VT[FUNCREF](), fh.data), V.from_ref(rt.VT[FUNCREF](), None)]
                    q = tryinst(r, m.build(), {('h', 'f'): fh, **{('h', 'g%d' % i): r.allocate_global(
                        pywasm.core.GlobalType(rt.VT[t](), 0), vals[i]) for i in range(2)}})
                    key = 'init:%x:%d:%d:%s' % (t, mut, k, form)
                    if not verdict(ctx, key, q, True):
                        continue
                    w = k if form == 'const' else int(form[3])
                    got = rt.call(r, q, 'get', [])
                    if t == FUNCREF:
                        got = rt.call(r, q, 'null', []), rt.call(r, q, 'call', [])
                        want = ([w], rt.TRAP if w else [31])
                    elif t == EXTERNREF and form == 'const':
                        want = [None]
                    else:
                        want = [vals[w].into_all()]
                    if got != want:
                        ctx.viol(key, 'initial value %r, expected %r' % (got, want))
    ctx.sample({'initialisers': 'types x const/global.get'})


# --- many of everything
def many(ctx, ni, nd):
    """A module that imports and defines ni and nd functions and globals; every index used in every place that takes one."""
    V = pywasm.core.ValInst
    n = ni + nd
    key = 'many:%d+%d:' % (ni, nd)

    def build(r, ran, start):
        m = asm.Mod()
        for i in range(ni):
            m.import_func('h', 'f%d' % i, [], [])
            r.imports.setdefault('h', {})['f%d' % i] = rt.host(r, [], [], lambda mm, a, i=i: ran.append(i) or [])
            m.import_global('h', 'g%d' % i, I32, i & 1)
            r.imports['h']['g%d' % i] = r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), i & 1), V.from_i32(2000 + i))
        m.table(FUNCREF, n + 1)
        m.mem(1)
        const = [i for i in range(ni) if not i & 1]
        for i in range(nd):
            # half of them from constants, half from an imported global
            m.glob(I32, i & 1, op('global_get', const[i % len(const)]) if const and i % 3 else i32c(3000 + i))
        last = ni + nd
        m.glob(I32, 1, i32c(-1))
        for i in range(nd):
            m.func([], [], body=i32c(ni + i) + op('global_set', last))
        for i in range(n):
            m.export('f%d' % i, 'func', i)
            m.export('g%d' % i, 'global', i)
            m.func([], [I32], body=op('global_get', i), export='get%d' % i)
            m.func([], [], body=op('call', i), export='call%d' % i)
            if i % 2:
                m.elem_active(i32c(i), [i])
            else:
                m.elem_active_expr(0, i32c(i), FUNCREF, [op('ref_func', i)])
            m.data_active(i32c(i), bytes([i & 255]))
        m.func([I32], [], body=lget(0) + op('call_indirect', m.type([], []), 0), export='indirect')
        m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='byte')
        m.func([], [I32], body=op('global_get', last), export='last')
        m.func([], [], body=i32c(-1) + op('global_set', last), export='reset')
        # one active element segment whose expressions come from every function, and passive ones
        e = m.elem_passive_expr(FUNCREF, [op('ref_func', i) for i in range(n)])
        m.func([I32], [], body=i32c(n) + lget(0) + i32c(1) + op('table_init', e, 0) + i32c(n) + op('call_indirect', m.type([], []), 0),
               export='seg')
        m.export('m', 'mem', 0)
        if start is not None:
            m.start(start)
        return m.build()

    def went(what, i, got, ran, r, q):
        ctx.ev()
        ctx.transitions += 1
        ctx.traces += 1
        own = rt.call(r, q, 'last', [])
        if got != [] or (ran, own) != (([i], [-1]) if i < ni else ([], [i])):
            ctx.viol(key + what, '%s %d gave %r and ran %r %r' % (what, i, got, ran, own))
        del ran[:]
        rt.call(r, q, 'reset', [])

    ran = []
    r = pywasm.core.Runtime()
    q = tryinst(r, build(r, ran, None), {})
    if not verdict(ctx, key + 'plain', q, True):
        return
    const = [i for i in range(ni) if not i & 1]
    for i in range(n):
        want = 2000 + i if i < ni else 2000 + const[(i - ni) % len(const)] if const and (i - ni) % 3 else 3000 + i - ni
        for what, got in (('export', [r.exported_global(q, 'g%d' % i).data.into_i32()]), ('get', rt.call(r, q, 'get%d' % i, []))):
            ctx.ev()
            ctx.transitions += 1
            if got != [want]:
                ctx.viol(key + 'global ' + what, 'global %d: %r, expected %d' % (i, got, want))
        if i >= ni:
            went('exported function', i, rt.call(r, q, 'f%d' % i, []), ran, r, q)
        went('call', i, rt.call(r, q, 'call%d' % i, []), ran, r, q)
        went('table entry', i, rt.call(r, q, 'indirect', [i]), ran, r, q)
        went('element segment', i, rt.call(r, q, 'seg', [i]), ran, r, q)
        if rt.call(r, q, 'byte', [i]) != [i & 255]:
            ctx.viol(key + 'data', 'data segment %d' % i)
    if n > 40:
        return
    for i in range(n):
        ran = []
        r = pywasm.core.Runtime()
        q = tryinst(r, build(r, ran, i), {})
        if verdict(ctx, key + 'start%d' % i, q, True):
            went('start', i, [], ran, r, q)
    ctx.sample({'imported': ni, 'defined': nd})


# --- histories
def module_q():
    """Imports a log, a shared mutable global, memory and table; owns a global, a table, passive segments, a function."""
    m = asm.Mod()
    m.import_global('p', 'g', I32, 1)
    m.import_mem('p', 'm', 1)
    m.import_table('p', 't', FUNCREF, 3)
    m.glob(I32, 1, i32c(0))
    m.table(FUNCREF, 2, 4)
    d = m.data_passive(b'\x05\x06')
    own = m.func([], [I32], body=op('global_get', 1) + i32c(1) + op('i32_add') + op('global_set', 1) + op('global_get', 1))
    e = m.elem_passive([own])
    t = m.type([], [I32])
    m.func([], [], body=op('global_get', 0) + i32c(1) + op('i32_add') + op('global_set', 0), export='bumpg')
    m.func([], [], body=op('call', own) + op('drop'), export='bumpo')
    m.func([I32], [], body=lget(0) + op('ref_func', own) + op('table_set', 0), export='pub')
    m.func([I32], [I32], body=lget(0) + op('call_indirect', t, 0), export='callt')
    m.func([I32], [I32], body=lget(0) + op('call_indirect', t, 1), export='callo')
    m.func([I32], [], body=lget(0) + i32c(0) + i32c(1) + op('table_init', e, 1), export='inito')
    m.func([], [], body=op('elem_drop', e), export='dropeseg')
    m.func([I32], [], body=lget(0) + i32c(0) + i32c(2) + op('memory_init', d, b'\0'), export='minit')
    m.func([], [], body=op('data_drop', d), export='dropdseg')
    m.func([], [I32], body=op('ref_null', FUNCREF) + i32c(1) + op('table_grow', 0), export='growt')
    m.func([], [I32], body=op('ref_null', FUNCREF) + i32c(1) + op('table_grow', 1), export='growo')
    m.func([], [I32], body=i32c(1) + op('memory_grow', b'\0'), export='growm')
    m.func([I32], [], body=lget(0) + lget(0) + op('i32_load8_u', 0, 0) + i32c(1) + op('i32_add') + op('i32_store8', 0, 0),
           export='bumpm')
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='rd')
    m.func([], [I32] * 5, body=op('global_get', 0) + op('global_get', 1) + op('table_size', 0) + op('table_size', 1) +
           op('memory_size', b'\0'), export='view')
    m.func([I32], [I32], body=lget(0) + op('table_get', 0) + op('ref_is_null'), export='nullt')
    m.func([I32], [I32], body=lget(0) + op('table_get', 1) + op('ref_is_null'), export='nullo')
    return m.build()


def module_p():
    m = asm.Mod()
    m.glob(I32, 1, i32c(100), export='g')
    m.mem(1, 3, export='m')
    m.table(FUNCREF, 3, 5, export='t')
    own = m.func([], [I32], body=op('global_get', 0))
    m.elem_active(i32c(0), [own])
    m.data_active(i32c(0), b'\x01')
    m.func([], [], export='nop')
    return m.build()


PB, QB = module_p(), module_q()


class World:
    """Q0 and Q1: two instances of one decoded module over P0 in runtime 0; Q2: the same decoded module over P1 in runtime 0;
    Q3: the same decoded module over P2 (same decoded P) in runtime 1."""
    N = 4

    def __init__(self):
        pd, qd = rt.decode(PB), rt.decode(QB)
        self.r = [pywasm.core.Runtime(), pywasm.core.Runtime()]
        self.q = []
        for k, ri in ((0, 0), (1, 0), (2, 1)):
            r = self.r[ri]
            p = r.instance(pd)
            r.imports['p'] = {e.name: e.data for e in p.exps}
            for _ in range(2 if k == 0 else 1):
                self.q.append((r, r.instance(qd)))
        self.home = [0, 0, 1, 2]
        self.P = [{'g': 100, 'm': {0: 1}, 'pages': 1, 't': ['p', None, None]} for _ in range(3)]
        self.Q = [{'o': 0, 't': [None, None], 'd': True, 'e': True} for _ in range(4)]
        self.observe()

    def invoke(self, who, home):
        """Calling a published function: P's reads its global, an instance's bumps its own global."""
        if who is None:
            return rt.TRAP
        if who == 'p':
            return [self.P[home]['g']]
        self.Q[who]['o'] += 1
        return [self.Q[who]['o']]

    def step(self, o):
        k, f, *a = o
        P, Q, home = self.P[self.home[k]], self.Q[k], self.home[k]
        i = a[0] if a else None
        want = []
        if f == 'bumpg':
            P['g'] += 1
        elif f == 'bumpo':
            Q['o'] += 1
        elif f == 'pub':
            if i < len(P['t']):
                P['t'][i] = k
            else:
                want = rt.TRAP
        elif f == 'callt':
            want = self.invoke(P['t'][i], home) if i < len(P['t']) else rt.TRAP
        elif f == 'callo':
            want = self.invoke(Q['t'][i], home) if i < len(Q['t']) else rt.TRAP
        elif f == 'inito':
            if Q['e'] and i < len(Q['t']):
                Q['t'][i] = k
            else:
                want = rt.TRAP
        elif f == 'dropeseg':
            Q['e'] = False
        elif f == 'minit':
            if Q['d']:
                P['m'][i], P['m'][i + 1] = 5, 6
            else:
                want = rt.TRAP
        elif f == 'dropdseg':
            Q['d'] = False
        elif f == 'growt':
            want = [len(P['t'])] if len(P['t']) < 5 else [-1]
            if want != [-1]:
                P['t'].append(None)
        elif f == 'growo':
            want = [len(Q['t'])] if len(Q['t']) < 4 else [-1]
            if want != [-1]:
                Q['t'].append(None)
        elif f == 'growm':
            want = [P['pages']] if P['pages'] < 3 else [-1]
            if want != [-1]:
                P['pages'] += 1
        elif f == 'bumpm':
            P['m'][i] = P['m'].get(i, 0) + 1
        r, q = self.q[k]
        got = rt.call(r, q, f, a)
        if got != want:
            raise Mismatch('instance %d %s%r: %r, expected %r' % (k, f, tuple(a), got, want))
        self.observe()
        return '%s:%s' % (f, got)

    def observe(self):
        for k, (r, q) in enumerate(self.q):
            P, Q = self.P[self.home[k]], self.Q[k]
            want = [P['g'], Q['o'], len(P['t']), len(Q['t']), P['pages']]
            got = rt.call(r, q, 'view', [])
            if got != want:
                raise Mismatch('instance %d sees %r, expected %r' % (k, got, want))
            for at in (0, 1, 2, 3):
                g = rt.call(r, q, 'rd', [at])
                if g != [P['m'].get(at, 0)]:
                    raise Mismatch('instance %d reads %r at %d, expected %r' % (k, g, at, P['m'].get(at, 0)))
            for f, T in (('nullt', P['t']), ('nullo', Q['t'])):
                g = [rt.call(r, q, f, [i]) for i in range(len(T))]
                if g != [[int(x is None)] for x in T]:
                    raise Mismatch('instance %d %s: %r expected %r' % (k, f, g, T))

    def key(self):
        return bfs.dump([self.P, self.Q, [r.machine.store.__dict__ for r in self.r]], skip=('ModuleInst', 'FuncInst', 'FuncHost'))


HOPS = [(k, f, *a) for k in range(4) for f, *a in (
    ('bumpg',), ('bumpo',), ('pub', 1), ('callt', 1), ('callo', 0), ('inito', 0), ('dropeseg',), ('minit', 1), ('dropdseg',),
    ('growt',), ('growo',), ('growm',), ('bumpm', 1))]


def histories(ctx, first, depth):
    bfs.search(ctx, World, HOPS, depth - 1, prefix=(first,), label='world')


NAMES = ('', 'a', 'A', ' a', 'a ', 'ab', 'a\n', 'a.b', 'a\0', 'a\0b', '\xe9', 'e\u0301', '\u200ba', '\ufeffa', '\uff41', '0', '00', 'a' * 300, 'a' * 301, '\U0001f600', '__class__', 'keys', '*')


def names(ctx, kind):
    """Names are compared exactly, both when something is imported and when the host asks for something."""
    def value(i):
        return i + 1000
    if kind == 'imports':
        # every pair of a module name and a name, each its own function or global; all imported, then with one missing
        pairs = [(a, b) for a in NAMES for b in NAMES]

        def user(ps):
            m = asm.Mod()
            fs, gs = {}, {}
            for k, p in enumerate(ps):
                if k % 2:
                    gs[p] = m.import_global(*p, I32, 0)
                else:
                    fs[p] = m.import_func(*p, [], [I32])
            for k, p in enumerate(ps):
                m.func([], [I32], body=op('global_get', gs[p]) if p in gs else asm.call(fs[p]), export='%d' % k)
            return m.build()

        def provide(r, ps, missing=None):
            for k, p in enumerate(ps):
                if p != missing:
                    r.imports.setdefault(p[0], {})[p[1]] = (
                        r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), 0), pywasm.core.ValInst.from_i32(value(k))) if k % 2 else
                        rt.host(r, [], [I32], lambda m, a, k=k: [value(k)]))
        r = pywasm.core.Runtime()
        provide(r, pairs)
        i = tryinst(r, user(pairs), {})
        if verdict(ctx, 'names all', i, True):
            for k in range(len(pairs)):
                g = rt.call(r, i, '%d' % k, [])
                if g != [value(k)]:
                    ctx.viol('names', 'import %r gives %r, expected %r' % (pairs[k], g, value(k)))
        for p in pairs:
            r = pywasm.core.Runtime()
            provide(r, pairs, p)
            verdict(ctx, 'names missing %r' % (p,), tryinst(r, user([p]), {}), False)
            r = pywasm.core.Runtime()
            r.imports.setdefault(p[0], {})[p[1]] = rt.host(r, [], [I32], lambda m, a: [5])
            i = tryinst(r, user([p]), {})
            if verdict(ctx, 'names only %r' % (p,), i, True) and rt.call(r, i, '0', []) != [5]:
                ctx.viol('names only', repr(p))
        return
    # exports: each name in turn is missing, and everything else is found
    for gone in (None,) + NAMES:
        for what in ('func', 'global', 'mem'):
            m = asm.Mod()
            have = [n for n in NAMES if n != gone]
            mem = m.mem(1, 1)
            for k, n in enumerate(have):
                g = m.glob(I32, 0, i32c(value(k)))
                f = m.func([], [I32], body=i32c(value(k)))
                m.export(n, what, {'func': f, 'global': g, 'mem': mem}[what])
            r, i = rt.instantiate(m.build())
            ask = {'func': lambda n: r.invocate(i, n, [])[0], 'global': lambda n: r.exported_global(i, n).data.into_i32(),
                   'mem': lambda n: len(r.exported_memory(i, n).get(0, 65536))}
            for n in NAMES + ('b', 'a' * 299, 'a  ', 'a\t', 'None'):
                for q in ask:
                    ctx.ev()
                    ctx.states += 1
                    want = 'refused' if q != what or n not in have else 65536 if q == 'mem' else value(have.index(n))
                    try:
                        got = ask[q](n)
                    except Exception:
                        got = 'refused'
                    if got != want:
                        ctx.viol('asking for a %s' % q, '%s exported as all names but %r; asked for the %s %r: %r, expected %r' % (what, gone, q, n, got, want))
            ctx.outcome('lookups')


def jobs(tier):
    j = [('funcs', (h,)) for h in (0, 1)] + [('globs', (h,)) for h in (0, 1)]
    j += [('tms', (k, t, h)) for k, t in (('mem', 0), ('table', FUNCREF), ('table', EXTERNREF)) for h in (0, 1)]
    j += [('kinds', ()), ('orders', ()), ('dropped', ()), ('inits', ()), ('names', ('imports',)), ('names', ('exports',))]
    j += [('segments', ('const', p, 8)) for p in range(8)] + [('segments', ('idx', p, 8)) for p in range(8)] + \
        [('segments', ('global', 0, 1))]
    j += [('many', (a, b)) for a in range(5) for b in range(5) if a + b] + [('many', x) for x in ((9, 9), (0, 20), (20, 0), (63, 65), (64, 64), (130, 130), (0, 300))]
    j += [('histories', (h, 3 if tier == 'quick' else 4)) for h in HOPS]
    return j
