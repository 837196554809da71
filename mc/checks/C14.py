"""C14: values between host and guest."""
import itertools
import math
import struct

import pywasm

from .. import asm, rt
from ..asm import op, lget, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF

LEVEL = 'exploration'
RULE = ('for every value type, every value of a boundary alphabet is sent along every route: argument to result, through a '
        'host function in both directions, through exported and imported globals, exported memory and tables, alone and '
        'in every signature of two (and a set of three and more, up to 300 parameters and results) types, and compared with the value sent; on every route for '
        'vectors and buffers the host then overwrites its copy, which must change nothing in the guest. Every argument '
        'list of a wrong length or with one impossible value must be refused and leave the runtime working. Non-trivial: '
        'the value is not zero.')
ASSUMPTIONS = ['nan payloads are not compared: the host sees floats as Python floats']
BOUNDS = {'quick': 'single values: full alphabet on all routes; pairs of types: 8 values each; a third of the triples of types: 3 values each',
          'thorough': 'pairs of types: 16 values each; all triples of types: 8 values each'}
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
NAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128', FUNCREF: 'funcref', EXTERNREF: 'externref'}
SIZE = {I32: 4, I64: 8, F32: 4, F64: 8, V128: 16}


def f32r(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def alpha(t):
    if t in (I32, I64):
        n = 32 if t == I32 else 64
        out = [5, -(1 << n - 1), -1, 0]
        for k in range(n):
            out += [v for v in ((1 << k), (1 << k) - 1, -(1 << k), -(1 << k) - 1) if -(1 << n - 1) <= v < 1 << n - 1]
        return list(dict.fromkeys(out))
    if t in (F32, F64):
        out = [1.5, -0.0, math.inf, math.nan, 0.0, -math.inf, -1.0, 16777216.0, 2.0 ** -149, 2.0 ** -126, 3.4028234663852886e+38,
               -2.5, 1e10]
        if t == F64:
            out += [5e-324, 2.2250738585072014e-308, 1.7976931348623157e+308, 0.1, 1e300, 2.0 ** 53 + 2, -1 / 3]
        return out
    if t == V128:
        return [bytearray(range(16)), bytearray([0xff] * 16), bytearray([0x80] + [0] * 15), bytearray([0] * 15 + [0x80]),
                bytearray(16), bytearray([0xa5, 0x5a] * 8)]
    if t == FUNCREF:
        return [0, None, 1, 2]
    return [7, None, 0, 2147483647, 65536, 1, 255, 256]


def bits(t, v):
    """The little-endian bytes a value of a numeric type has in memory."""
    if t == I32:
        return struct.pack('<i', v)
    if t == I64:
        return struct.pack('<q', v)
    if t == F32:
        return struct.pack('<f', f32r(v))
    if t == F64:
        return struct.pack('<d', v)
    return bytes(v)


def same(t, a, b):
    if type(a) is not type(b):
        return False
    if t in (F32, F64):
        return a != a and b != b or struct.pack('<d', a) == struct.pack('<d', b)
    return a == b


def sames(ts, a, b):
    return isinstance(a, list) and len(a) == len(ts) == len(b) and all(same(t, x, y) for t, x, y in zip(ts, a, b))


def nonzero(v):
    return v is None or bool(v if not isinstance(v, bytearray) else any(v))


def zero(t):
    return {I32: op('i32_const', asm.s(0)), I64: op('i64_const', asm.s(0)), F32: asm.f32c(0), F64: asm.f64c(0),
            V128: asm.v128c(bytes(16)), FUNCREF: op('ref_null', bytes([FUNCREF])),
            EXTERNREF: op('ref_null', bytes([EXTERNREF]))}[t]


STORE = {I32: 'i32_store', I64: 'i64_store', F32: 'f32_store', F64: 'f64_store', V128: 'v128_store'}
LOAD = {k: v.replace('store', 'load') for k, v in STORE.items()}


def report(ctx, route, ts, args, got, want):
    ctx.ev(any(nonzero(v) for v in want))
    ctx.transitions += 1
    ctx.outcome('%s %s' % (route, ','.join(NAME[t] for t in ts) if len(ts) < 8 else 'many'))
    if not sames(ts, got, want):
        ctx.viol('%s %s %r' % (route, [NAME[t] for t in ts], args), 'got %r, expected %r' % (got, want),
                 {'route': route, 'types': [NAME[t] for t in ts], 'values': repr(args)})


def single(ctx, t):
    """Every value of one type along every route."""
    log = []
    r = pywasm.core.Runtime()
    ret = []

    def h(m, a):
        log.append(list(a))
        return [ret[0]] if ret else [a[0]]

    r.imports['h'] = {'h': rt.host(r, [t], [t], h),
                      'obs': rt.host(r, [t], [], lambda m, a: (log.append(list(a)), [])[1])}
    gt = pywasm.core.GlobalType(rt.VT[t](), 1)
    r.imports['h']['g'] = r.allocate_global(gt, pywasm.core.ValInst.zero(rt.VT[t]()))
    m = asm.Mod()
    hi = m.import_func('h', 'h', [t], [t])
    obs = m.import_func('h', 'obs', [t], [])
    gi = m.import_global('h', 'g', t, 1)
    m.mem(1, export='mem')
    g = m.glob(t, 1, zero(t), export='g')
    gc = m.glob(t, 0, zero(t), export='gc')
    m.export('gi', 'global', gi)
    m.func([t], [t], body=lget(0), export='id')
    m.func([t], [t], [t, t], lget(0) + asm.ltee(2) + asm.lset(1) + lget(1), export='local')
    m.func([t], [t], body=lget(0) + asm.call(hi), export='host')
    m.func([t], [t], body=lget(0) + asm.call(obs) + lget(0), export='obs')
    m.func([t], [t], body=lget(0) + op('global_set', g) + op('global_get', g), export='glob')
    m.func([], [t], body=op('global_get', g), export='gget')
    m.func([], [t], body=op('global_get', gc), export='gcget')
    m.func([], [t], body=op('global_get', gi), export='giget')
    m.func([t], [], body=lget(0) + op('global_set', gi), export='giset')
    if t in SIZE:
        m.func([t], [], body=asm.i32c(40) + lget(0) + op(STORE[t], 0, 0), export='store')
        m.func([], [t], body=asm.i32c(72) + op(LOAD[t], 0, 0), export='load')
    else:
        ti = m.table(t, 3)
        m.func([t], [t], body=asm.i32c(1) + lget(0) + op('table_set', ti) + asm.i32c(1) + op('table_get', ti), export='table')
        m.func([t], [I32], body=lget(0) + op('ref_is_null'), export='isnull')
        m.func([], [t], body=op('ref_null', bytes([t])), export='null')
        if t == FUNCREF:
            fs = [m.func([], [I32], body=asm.i32c(100 + i), export='f%d' % i) for i in range(3)]
            m.elem_declare(fs)
            for i, f in enumerate(fs):
                m.func([], [t], body=op('ref_func', f), export='ref%d' % i)
            m.func([t], [I32], body=asm.i32c(0) + lget(0) + op('table_set', ti) + asm.i32c(0) +
                   op('call_indirect', m.type([], [I32]), ti), export='icall')
    inst = r.instance(rt.decode(m.build()))
    vals = alpha(t)

    def call(f, a):
        del log[:]
        return rt.call(r, inst, f, a)

    name = NAME[t]
    if t == FUNCREF:
        refs = [call('ref%d' % i, []) for i in range(3)]
        vals = [None] + [x[0] for x in refs if isinstance(x, list)]
        if len(vals) != 4 or len(set(vals)) != 4:
            ctx.viol('ref.func', 'references of three functions come out as %r' % refs)
            return
        for i, x in enumerate(vals[1:]):
            report(ctx, 'call through reference', [I32], [i], call('icall', [x]), [100 + i])
        if not isinstance(call('icall', [None]), rt.Trap):
            ctx.viol('icall null', 'calling the null reference did not trap')
    if t in (FUNCREF, EXTERNREF):
        report(ctx, 'null literal', [t], [], call('null', []), [None])
        for v in vals:
            report(ctx, 'is_null', [I32], [v], call('isnull', [v]), [int(v is None)])
    for v in vals:
        want = [f32r(v)] if t == F32 else [v]
        report(ctx, 'identity', [t], [v], call('id', [v]), want)
        report(ctx, 'locals', [t], [v], call('local', [v]), want)
        for w in vals[:6] + [None]:
            ret[:] = [] if w is None and t in SIZE or w is v else [w]
            got = call('host', [v])
            report(ctx, 'host function sees', [t], [v], log[0] if len(log) == 1 else log, want)
            report(ctx, 'host function returns', [t], [v, w], got, [f32r(ret[0]) if t == F32 else ret[0]] if ret else want)
        ret[:] = []
        got = call('obs', [v])
        report(ctx, 'host observer sees', [t], [v], log[0] if len(log) == 1 else log, want)
        report(ctx, 'value kept across a host call', [t], [v], got, want)
        report(ctx, 'global', [t], [v], call('glob', [v]), want)
        report(ctx, 'exported global read by the host', [t], [v], [r.exported_global(inst, 'g').data.into_all()], want)
        # The host writes, the guest reads.
        r.exported_global(inst, 'g').data = pywasm.core.ValInst.from_all(rt.VT[t](), v)
        report(ctx, 'exported global written by the host', [t], [v], call('gget', []), want)
        report(ctx, 'immutable global', [t], [v], call('gcget', []), [ZERO[t]])
        call('giset', [v])
        report(ctx, 'imported global set by the guest', [t], [v], [r.exported_global(inst, 'gi').data.into_all()], want)
        report(ctx, 'imported global', [t], [v], call('giget', []), want)
        if t in SIZE:
            mem = r.exported_memory(inst, 'mem')
            mem.put(0, bytearray(120))
            call('store', [v])
            if v == v:
                got = bytes(mem.get(40, SIZE[t]))
                ctx.ev(nonzero(v))
                if got != bits(t, v) or any(mem.get(0, 40)) or any(mem.get(40 + SIZE[t], 30)):
                    ctx.viol('memory %s %r' % (name, v), 'guest store of %r leaves %s' % (v, got.hex()))
            mem.put(72, bytearray(bits(t, v)))
            report(ctx, 'memory written by the host', [t], [v], call('load', []), want)
        else:
            report(ctx, 'table', [t], [v], call('table', [v]), want)
        if ctx.full:
            return
    ctx.sample({'type': name, 'values': [repr(v) for v in vals[:6]]})


ZERO = {I32: 0, I64: 0, F32: 0.0, F64: 0.0, V128: bytearray(16), FUNCREF: None, EXTERNREF: None}


def hostmem(ctx):
    """The typed accessors a host function uses on the memory of its caller."""
    r = pywasm.core.Runtime()
    m = asm.Mod()
    m.mem(1, export='mem')
    inst = r.instance(rt.decode(m.build()))
    mem = r.exported_memory(inst, 'mem')
    for n, lo, hi in [('i32', -(1 << 31), (1 << 31) - 1), ('i64', -(1 << 63), (1 << 63) - 1), ('u8', 0, 255),
                      ('u16', 0, 65535), ('u32', 0, (1 << 32) - 1), ('u64', 0, (1 << 64) - 1)]:
        size = {'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'u8': 1, 'u16': 2}[n]
        vals = {lo, hi, lo + 1, hi - 1, 0, 1, 127, 128 if hi > 128 else 0, (lo + hi) // 2}
        for v in sorted(vals):
            for addr in (0, 1, 7, 65536 - size):
                mem.put(max(0, addr - 8), bytearray(8))
                getattr(mem, 'put_' + n)(addr, v)
                raw = bytes(mem.get(addr, size))
                got = getattr(mem, 'get_' + n)(addr)
                ctx.ev(v != 0)
                if got != v or raw != v.to_bytes(size, 'little', signed=lo < 0) or len(mem.get(0, 65536)) != 65536:
                    ctx.viol('mem.%s(%d)=%d' % (n, addr, v), 'read back %r, bytes %s' % (got, raw.hex()))
                getattr(mem, 'put_' + n)(addr, 0)


def shuffle_module(r, sig, log):
    """f: sig -> reversed sig, directly and through a host function which reverses."""
    def h(m, a):
        log.append(list(a))
        return list(a)[::-1]

    r.imports['h'] = {'h': rt.host(r, sig, sig[::-1], h)}
    m = asm.Mod()
    hi = m.import_func('h', 'h', sig, sig[::-1])
    body = b''.join(lget(len(sig) - 1 - i) for i in range(len(sig)))
    m.func(sig, sig[::-1], body=body, export='rev')
    m.func(sig, sig[::-1], body=b''.join(lget(i) for i in range(len(sig))) + asm.call(hi), export='host')
    g = m.func(sig, sig, body=b''.join(lget(i) for i in range(len(sig))))
    m.func(sig, sig, body=b''.join(lget(i) for i in range(len(sig))) + asm.call(g), export='fwd')
    return r.instance(rt.decode(m.build()))


def signature(ctx, sig, per):
    log = []
    r = pywasm.core.Runtime()
    inst = shuffle_module(r, sig, log)
    al = [[0, None] if t == FUNCREF else alpha(t)[:per] for t in sig]
    for vals in itertools.product(*al):
        vals = list(vals)
        want = [f32r(v) if t == F32 else v for t, v in zip(sig, vals)]
        report(ctx, 'direct reversed', sig[::-1], vals, rt.call(r, inst, 'rev', vals), want[::-1])
        del log[:]
        got = rt.call(r, inst, 'host', vals)
        report(ctx, 'host sees', sig, vals, log[0] if len(log) == 1 else log, want)
        report(ctx, 'host reversed', sig[::-1], vals, got, want[::-1])
        report(ctx, 'forward', sig, vals, rt.call(r, inst, 'fwd', vals), want)
        if ctx.full:
            return
    ctx.traces += 1


def signatures(ctx, first):
    q = ctx.tier == 'quick'
    for t2 in TYPES:
        signature(ctx, [first, t2], 8 if q else 16)
        for t3 in (TYPES if not q else TYPES[::3]):
            signature(ctx, [first, t2, t3], 3 if q else 8)
    signature(ctx, [first] + [t for t in TYPES if t != first], 2)
    signature(ctx, [first, I32, first, I64, first], 2)


def wide(ctx, n, step):
    """Many parameters and results, of all types; a different value in each place."""
    ts = [t for t in TYPES if t not in (FUNCREF, EXTERNREF)]
    sig = [ts[i * step // 2 % len(ts)] for i in range(n)]
    log = []
    r = pywasm.core.Runtime()
    inst = shuffle_module(r, sig, log)
    for k in range(3):
        vals = []
        for i, t in enumerate(sig):
            x = i * 7 + k + 1
            vals.append(bytearray(x.to_bytes(16, 'little')) if t == V128 else x + 0.5 if t in (F32, F64) else (x << 16 | x) * (-1) ** i if k else -x)
        report(ctx, 'direct reversed', sig[::-1], vals, rt.call(r, inst, 'rev', vals), vals[::-1])
        del log[:]
        got = rt.call(r, inst, 'host', vals)
        report(ctx, 'host sees', sig, vals, log[0] if len(log) == 1 else log, vals)
        report(ctx, 'host reversed', sig[::-1], vals, got, vals[::-1])
        report(ctx, 'forward', sig, vals, rt.call(r, inst, 'fwd', vals), vals)
        for bad in ([], vals[:-1], vals + [0], vals[1:]):
            got = rt.call(r, inst, 'rev', bad)
            ctx.ev()
            if not isinstance(got, rt.Trap):
                ctx.viol('wide count %d %d' % (n, len(bad)), '%d values accepted for %d parameters' % (len(bad), n))
    ctx.traces += 1


BAD = {I32: [1 << 31, -(1 << 31) - 1, 1 << 32, 1 << 64, 'x', None, 1.5],
       I64: [1 << 63, -(1 << 63) - 1, 1 << 64, 'x', None, 1.5],
       F32: ['x', None, bytearray(4)], F64: ['x', None, bytearray(8)],
       V128: [bytearray(15), bytearray(17), bytearray(0), 5, None],
       FUNCREF: ['x', 1 << 40, 1.5], EXTERNREF: ['x', 1 << 40, 1.5]}


def refused(ctx):
    """Wrong counts, impossible values, names of other kinds; afterwards everything still works."""
    for sig in [[t] for t in TYPES] + [[a, b] for a in TYPES for b in TYPES] + [[]]:
        log = []
        r = pywasm.core.Runtime()
        inst = shuffle_module(r, sig, log)
        good = [alpha(t)[0] for t in sig]
        cases = [good + [0], good + [0, 0], good + good + [1]]
        if sig:
            cases += [good[:-1], []]
        for i, t in enumerate(sig):
            cases += [good[:i] + [b] + good[i + 1:] for b in BAD[t]]
        for c in cases:
            for f in ('rev', 'host', 'fwd'):
                del log[:]
                got = rt.call(r, inst, f, c)
                ctx.ev()
                ctx.outcome('refused' if isinstance(got, rt.Trap) else 'accepted')
                k = 'refuse %s %s %r' % (f, [NAME[t] for t in sig], c)
                if not isinstance(got, rt.Trap):
                    ctx.viol(k, 'accepted, result %r' % (got,))
                elif log:
                    ctx.viol(k, 'refused only after the guest had run')
                want = good[::-1] if f != 'fwd' else good
                ts = sig[::-1] if f != 'fwd' else sig
                got = rt.call(r, inst, f, good)
                if not sames(ts, got, want):
                    ctx.viol(k, 'after the refused call a proper one gives %r, expected %r' % (got, want))
                if ctx.full:
                    return


def hostret(ctx):
    """Host functions that return too few or too many results, or impossible ones."""
    for sig in [[]] + [[t] for t in TYPES] + [[a, b] for a in TYPES for b in TYPES]:
        r = pywasm.core.Runtime()
        ret = [[]]
        ran = []
        r.imports['h'] = {'h': rt.host(r, [], sig, lambda m, a: list(ret[0])),
                          'ran': rt.host(r, [], [], lambda m, a: ran.append(1) or [])}
        m = asm.Mod()
        hi = m.import_func('h', 'h', [], sig)
        ra = m.import_func('h', 'ran', [], [])
        m.func([], [I32] + sig, body=asm.i32c(77) + asm.call(hi) + asm.call(ra), export='f')
        m.func([], [I32], body=asm.i32c(77), export='ok')
        inst = r.instance(rt.decode(m.build()))
        good = [alpha(t)[0] for t in sig]
        cases = [good + [0], good + [0, 1]]
        if sig:
            cases += [good[:-1], []]
        for i, t in enumerate(sig):
            cases += [good[:i] + [b] + good[i + 1:] for b in BAD[t]]
        for c in cases:
            ret[0] = c
            del ran[:]
            got = rt.call(r, inst, 'f', [])
            k = 'host result %s %r' % ([NAME[t] for t in sig], c)
            ctx.ev()
            if not isinstance(got, rt.Trap) or ran:
                ctx.viol(k, 'accepted, the guest went on: %r' % (got,))
            ret[0] = good
            got = rt.call(r, inst, 'f', [])
            if not sames([I32] + sig, got, [77] + [f32r(v) if t == F32 else v for t, v in zip(sig, good)]):
                ctx.viol(k, 'after it a proper result gives %r' % (got,))
            if ctx.full:
                return


def names(ctx):
    """Exports of one kind are not usable as another; unknown names are refused; the right one is picked among many."""
    r = pywasm.core.Runtime()
    m = asm.Mod()
    ran = []
    r.imports['h'] = {'ran': rt.host(r, [], [], lambda mm, a: ran.append(1) or [])}
    ra = m.import_func('h', 'ran', [], [])
    fs = [m.func([], [I32], body=asm.call(ra) + asm.i32c(i)) for i in range(3)]
    ms = m.mem(1)
    gs = [m.glob(I32, 1, asm.i32c(50 + i)) for i in range(3)]
    t = m.table(FUNCREF, 1)
    kinds = {}
    for i in range(3):
        for k, n, ix in (('func', 'f%d', fs[i]), ('global', 'g%d', gs[i])):
            m.export(n % i, k, ix)
            kinds[n % i] = (k, i)
    for n, k, ix in (('m', 'mem', ms), ('t', 'table', t), ('', 'func', fs[1]), ('\u00e9\u4e2d', 'func', fs[2]), ('F0', 'func', fs[2]),
                     ('f', 'func', fs[1]), ('f00', 'mem', ms)):
        m.export(n, k, ix)
        kinds[n] = (k, {'': 1, '\u00e9\u4e2d': 2, 'F0': 2, 'f': 1}.get(n, 0))
    inst = r.instance(rt.decode(m.build()))
    for n in list(kinds) + ['nope', 'g', 'f3', 'M']:
        k, i = kinds.get(n, (None, None))
        for what, fn in (('func', lambda: r.invocate(inst, n, [])), ('mem', lambda: r.exported_memory(inst, n).get(0, 1)),
                         ('global', lambda: r.exported_global(inst, n).data.into_all())):
            del ran[:]
            try:
                got = fn()
            except Exception:
                got = 'refused'
            want = 'refused' if what != k else {'func': [i], 'mem': bytearray(1), 'global': 50 + (i or 0)}[what]
            ctx.ev()
            ctx.outcome('names: ' + ('refused' if want == 'refused' else 'resolved'))
            if got != want or (want == 'refused' and ran):
                ctx.viol('name %r as %s' % (n, what), 'got %r, expected %r (export of kind %s)' % (got, want, k))


def aliasing(ctx):
    """What crosses the boundary is a value: whatever the host does afterwards to a bytearray or list it passed or was given
    (at every moment it can act: inside a host function, between invocations) changes nothing inside the guest."""
    X, Y, Z = bytearray(range(16)), bytearray(range(100, 116)), bytearray([7] * 16)

    def spoil(b):
        b[:] = bytes(x ^ 0xff for x in b)

    def build():
        st = {'sent': [], 'seen': [], 'kept': bytearray(Y), 'list': None}
        r = pywasm.core.Runtime()

        def see(m, a):          # spoils what it is given, and everything the host has passed in
            st['seen'] += [bytes(x) for x in a]
            for x in a + st['sent']:
                spoil(x)
            a.clear()
            return []

        def give(m, a):
            st['list'] = [st['kept']]
            return st['list']

        def spoilkept(m, a):
            spoil(st['kept'])
            st['list'].clear()
            return []

        def echo(m, a):
            st['list'] = a
            st['kept'] = a[0]
            return a

        r.imports['h'] = {'see': rt.host(r, [V128], [], see), 'give': rt.host(r, [], [V128], give),
                          'spoil': rt.host(r, [], [], spoilkept), 'echo': rt.host(r, [V128], [V128], echo)}
        m = asm.Mod()
        see, give = m.import_func('h', 'see', [V128], []), m.import_func('h', 'give', [], [V128])
        spo, echo = m.import_func('h', 'spoil', [], []), m.import_func('h', 'echo', [V128], [V128])
        m.mem(1, export='mem')
        g = m.glob(V128, 1, asm.v128c(bytes(X)), export='g')
        k = m.glob(V128, 0, asm.v128c(bytes(X)), export='k')
        c, vv = asm.call, [V128, V128]
        m.func([V128], vv, body=lget(0) + lget(0) + c(see) + lget(0), export='seelocal')
        m.func([V128], vv, [V128], lget(0) + asm.ltee(1) + c(see) + lget(1) + lget(0), export='seetee')
        m.func([], vv, body=op('global_get', g) + op('global_get', g) + c(see) + op('global_get', g), export='seeglob')
        m.func([], vv, body=op('global_get', k) + op('global_get', k) + c(see) + op('global_get', k), export='seeconst')
        m.func([], [V128], body=asm.v128c(bytes(X)) + c(see) + asm.v128c(bytes(X)), export='seelit')
        m.func([], [V128], body=asm.v128c(bytes(X)), export='lit')
        m.func([], [V128], body=op('global_get', k), export='const')
        m.func([], [V128], body=op('global_get', g), export='glob')
        m.func([V128], [], body=lget(0) + op('global_set', g), export='setglob')
        m.func([], [V128] * 3, [V128], c(give) + asm.ltee(0) + lget(0) + op('global_set', g) + c(spo) + lget(0) + op('global_get', g),
               export='given')
        m.func([V128], [V128] * 3, [V128], lget(0) + c(echo) + asm.ltee(1) + c(spo) + lget(0) + lget(1), export='echoed')
        m.func([V128], [V128], body=asm.i32c(16) + lget(0) + op('v128_store', 0, 0) + asm.i32c(16) + op('v128_load', 0, 0) + c(see) +
               asm.i32c(16) + op('v128_load', 0, 0), export='seemem')
        m.func([], [V128], body=asm.i32c(16) + op('v128_load', 0, 0), export='load')
        return r, r.instance(rt.decode(m.build())), st

    def once(what, f, want, sends):
        for rounds in (1, 2):
            r, inst, st = build()
            for k in range(rounds):
                st['kept'], st['sent'] = bytearray(Y), []
                a = [bytearray(Z)] if sends else []
                st['sent'] = list(a)
                st['seen'] = []
                got = rt.call(r, inst, f, a)
                report(ctx, what, [V128] * len(want), a, got, want)
                if isinstance(got, list):
                    for x in got:
                        spoil(x)
                if a and len(a) != 1:
                    ctx.viol(what + ' argument list', 'the argument list of the caller became %r' % (a,))
                for x in st['seen']:
                    if x != bytes(Z if sends else X):
                        ctx.viol(what + ' host', 'the host function saw %r' % x)
                for x in a:
                    spoil(x)

    once('see a local', 'seelocal', [Z, Z], True)
    once('see a tee', 'seetee', [Z, Z], True)
    once('see a stored value', 'seemem', [Z], True)
    once('see a global', 'seeglob', [X, X], False)
    once('see a constant', 'seeconst', [X, X], False)
    once('see a literal', 'seelit', [X], False)
    once('spoil a literal', 'lit', [X], False)
    once('spoil a constant', 'const', [X], False)
    once('spoil a global', 'glob', [X], False)
    once('spoil a given value', 'given', [Y] * 3, False)
    once('spoil an echoed value', 'echoed', [Z] * 3, True)
    r, inst, st = build()
    a = bytearray(Z)
    report(ctx, 'set a global', [], [a], rt.call(r, inst, 'setglob', [a]), [])
    spoil(a)
    report(ctx, 'argument spoilt later', [V128], [], rt.call(r, inst, 'glob', []), [Z])
    for n in 'g', 'k':
        got = r.exported_global(inst, n).data.into_all()
        spoil(got)
        report(ctx, 'exported global spoilt', [V128], [n], rt.call(r, inst, 'glob' if n == 'g' else 'const', []), [Z if n == 'g' else X])
    a = bytearray(Y)
    r.exported_global(inst, 'g').data = pywasm.core.ValInst.from_all(rt.VT[V128](), a)
    spoil(a)
    report(ctx, 'value put into a global spoilt', [V128], [], rt.call(r, inst, 'glob', []), [Y])
    mem = r.exported_memory(inst, 'mem')
    a = bytearray(Z)
    mem.put(16, a)
    spoil(a)
    report(ctx, 'bytes put into memory spoilt', [V128], [], rt.call(r, inst, 'load', []), [Z])
    spoil(mem.get(16, 16))
    report(ctx, 'bytes got from memory spoilt', [V128], [], rt.call(r, inst, 'load', []), [Z])
    ctx.states += 1
    ctx.traces += 1


def jobs(tier):
    return ([('single', [t]) for t in TYPES] + [('signatures', [t]) for t in TYPES] +
            [('wide', [n, s]) for n in (6, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 257, 300) for s in (1, 2)] +
            [('refused', []), ('hostret', []), ('names', []), ('hostmem', []), ('aliasing', [])])
