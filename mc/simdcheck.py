"""Exhaustive drive of the vector instructions over structured operand sets; shared by C04 (integer) and C05 (float)."""
from . import asm, rt, ref, simd
from .asm import op, lget, lset, I32, I64, F32, F64, V128
from .ref import sx

CAR = {'v': V128, 'i': I32, 'l': I64, 'f': I32, 'd': I64}
INTO = {'f': op('f32_reinterpret_i32'), 'd': op('f64_reinterpret_i64')}
RES = {'v': (V128, b''), 'i32': (I32, b''), 'i64': (I64, b''), 'f32': (I32, op('i32_reinterpret_f32')),
       'f64': (I64, op('i64_reinterpret_f64'))}


def module(o, imms):
    kinds, spec, res, _ = simd.OPS[o]
    m = asm.Mod()
    ps = [CAR[k] for k in kinds]
    rt_, fin = RES[res]
    get = b''.join(lget(i) + INTO.get(k, b'') for i, k in enumerate(kinds))
    back = b''.join(lget(i) for i in range(len(kinds)))
    for i, im in enumerate(imms):
        ib = bytes(im)
        m.func(ps, [rt_], body=get + asm.OPS[o] + ib + fin, export='f%d' % i)
        m.func(ps, [rt_] + ps, body=get + asm.OPS[o] + ib + fin + back, export='g%d' % i)
    return m.build()


def immediates(o):
    spec = simd.OPS[o][1]
    if not spec:
        return [()]
    if len(spec) == 1:
        return [(i,) for i in range(spec[0])]
    base = tuple(range(16))
    out = [base, tuple(range(16, 32)), tuple(range(31, 15, -1)), tuple((5 * i + 3) % 32 for i in range(16)),
           tuple((i * 2) % 32 for i in range(16)), tuple((i * 2 + 1) % 32 for i in range(16))]
    out += [(k,) * 16 for k in range(32)]
    for i in range(16):
        for j in range(32):
            out.append(base[:i] + (j,) + base[i + 1:])
    return out


def conv(k, a):
    if k == 'v':
        return bytearray(a)
    return sx(a, 32 if k in 'if' else 64)


def one(ctx, inst, o, idx, im, args, keep):
    kinds, spec, res, fn = simd.OPS[o]
    got = inst.call(('g%d' if keep else 'f%d') % idx, [conv(k, a) for k, a in zip(kinds, args)])
    want = fn(*args, *im)
    ok = isinstance(got, list) and len(got) == 1 + (len(args) if keep else 0)
    if ok:
        g = got[0]
        if isinstance(want, simd.Lanes):
            ok = isinstance(g, (bytes, bytearray)) and len(g) == 16 and want.ok(bytes(g))
        elif isinstance(want, bytes):
            ok = isinstance(g, (bytes, bytearray)) and bytes(g) == want
        elif res in ('f32', 'f64'):
            ok = (g & ((1 << (32 if res == 'f32' else 64)) - 1)) == want
        elif res == 'i64':
            ok = g == sx(want, 64)
        else:
            ok = g == sx(want, 32)
        if ok and keep:
            ok = [bytes(x) if k == 'v' else x for k, x in zip(kinds, got[1:])] == [
                bytes(a) if k == 'v' else conv(k, a) for k, a in zip(kinds, args)]
    ctx.ev(isinstance(want, simd.Lanes) or want not in args)
    ctx.outcome(o)
    if not ok:
        def sh(x):
            return bytes(x).hex() if isinstance(x, (bytes, bytearray)) else (hex(x) if isinstance(x, int) else repr(x))
        ctx.viol('%s%s(%s)' % (o, list(im) if im else '', ','.join(sh(a) for a in args)),
                 'got %s, expected %s' % ([sh(x) for x in got] if isinstance(got, list) else got, sh(want)),
                 {'op': o, 'imm': im, 'args': [sh(a) for a in args]})
    elif ctx.evals % 4999 == 1:
        ctx.sample({'op': o, 'imm': list(im), 'args': [repr(a) for a in args], 'result': repr(got)[:120]})


def lanealpha(w):
    s = {0, 1, 2, 3, 5, -1, -2, -3}
    for k in (w // 2 - 1, w // 2, w // 2 + 1, w - 2, w - 1):
        s |= {(1 << k), (1 << k) - 1, (1 << k) + 1, -(1 << k), -(1 << k) - 1, -(1 << k) + 1}
    s |= {0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x0123456789abcdef, 0xfedcba9876543210, 0x4000400040004000,
          0x80ff7f0180ff7f01, 0x7fff80007fff8000}
    return sorted({x & ((1 << w) - 1) for x in s})


def vectors(thin=False):
    out = [bytes(16), b'\xff' * 16, bytes(range(16)), bytes(range(15, -1, -1)), bytes(range(16, 32)),
           bytes((17 * i + 1) % 256 for i in range(16)), bytes((37 * i + 129) % 256 for i in range(16)),
           bytes.fromhex('807f01ff00fe8081' '7f7e8100ff017f80'), bytes.fromhex('ff7f0080ffff0100' '0180fe7f00400040'),
           bytes.fromhex('ffffff7f00000080' 'ffffffff01000000'), bytes.fromhex('ffffffffffffff7f' '0000000000000080'),
           bytes.fromhex('0102040810204080' 'fefdfbf7efdfbf7f')]
    for w in (8, 16, 32, 64):
        n = 128 // w
        step = 1 if not thin else max(1, n // 4)
        for i in range(0, n, step):
            for v in ((1 << (w - 1)), (1 << (w - 1)) - 1, 1) if not thin else ((1 << (w - 1)),):
                out.append(simd.pack([v if j == i else 0 for j in range(n)], w))
            out.append(simd.pack([0 if j == i else (1 << w) - 1 for j in range(n)], w))
        for v in ((1 << (w - 1)), (1 << (w - 1)) - 1, 1):
            out.append(simd.pack([v] * n, w))
    return list(dict.fromkeys(out))


def lanepairs(al, w):
    """All pairs of the alphabet, packed so that neighbouring lanes hold different pairs and positions rotate."""
    n = 128 // w
    pairs = [(a, b) for a in al for b in al]
    pairs += pairs[:(-len(pairs)) % n]
    # a second copy shifted by one lane puts every pair at another position
    for off in ((0, 1) if n > 1 else (0,)):
        p = pairs[off:] + pairs[:off]
        for i in range(0, len(p), n):
            c = p[i:i + n]
            yield simd.pack([x for x, _ in c], w), simd.pack([y for _, y in c], w)


def lanesingles(al, w):
    n = 128 // w
    al = list(al)
    al += al[:(-len(al)) % n]
    for off in range(n):
        p = al[off:] + al[:off]
        for i in range(0, len(p), n):
            yield simd.pack(p[i:i + n], w)


def srcwidth(o):
    """Width of the lanes the instruction reads."""
    for tag, w in (('_i8x16', 8), ('_i16x8', 16), ('_i32x4', 32), ('_f32x4', 32), ('_f64x2', 64)):
        if tag in o:
            return w
    return {'i8': 8, 'i1': 16, 'i3': 32, 'i6': 64, 'f3': 32, 'f6': 64, 'v1': 8}[o[:2]]


def isfloat(o):
    return ('_f32x4' in o or '_f64x2' in o) or (o[0] == 'f' and 'convert' not in o)


def alpha(o):
    w = srcwidth(o)
    if isfloat(o):
        return ref.falpha(ref.F32 if w == 32 else ref.F64)
    if w == 8:
        return range(256)
    return lanealpha(w)


def explore(ctx, o, part, parts):
    kinds, spec, res, fn = simd.OPS[o]
    ims = immediates(o)
    inst = rt.Inst(module(o, ims))
    w = srcwidth(o)
    al = alpha(o)
    if isfloat(o) and kinds == 'vv' and ctx.tier == 'quick' and w == 64:
        al = al[::2] + [ref.F64.sign, ref.F64.inf, ref.F64.canon] if part == 0 else al[1::2] + [0, 1]
        al = sorted(set(al))
    cases = []
    if kinds == 'v':
        if isfloat(o) or w in (32, 64):
            base = list(al) if isfloat(o) else sorted(set(ref.ialpha(w)) | set(al))
        else:
            base = list(range(256)) if w == 8 else list(range(0, 65536, 1 if ctx.tier != 'quick' else 61)) + list(al)
        cases = [(v,) for v in vectors()] + [(v,) for v in lanesingles(base, w)]
    elif kinds == 'vv':
        vs = vectors(thin=True)
        cases = [(a, b) for a in vs for b in vs] + list(lanepairs(al, w))
    elif kinds == 'vvv':
        vs = vectors(thin=True)[::2]
        cases = [(a, b, c) for a in vs for b in vs for c in vs]
    elif kinds == 'vi' and not spec:
        sh = list(range(0, 2 * w + 2)) + [-1, -2, -w, 1 << 31, (1 << 31) - 1, 255, 256, 257, 1 << 16, 0x7fffff08]
        vs = vectors(thin=True) + list(lanesingles(al, w))[:: max(1, len(al) // 40)]
        cases = [(v, k & 0xffffffff) for v in vs for k in sh]
    elif kinds in ('i', 'l', 'f', 'd'):
        n = 32 if kinds in 'if' else 64
        base = ref.falpha(ref.F32 if n == 32 else ref.F64) if kinds in 'fd' else ref.ialpha(n)
        cases = [(x,) for x in base]
    elif spec:
        n = 32 if kinds[1] in 'if' else 64
        base = (ref.falpha(ref.F32 if n == 32 else ref.F64) if kinds[1] in 'fd' else ref.ialpha(n))[::5]
        cases = [(v, x) for v in vectors(thin=True)[:14] for x in base]
    if len(ims) > 40:       # shuffle
        vs = [(bytes(range(16)), bytes(range(16, 32))), (bytes(range(200, 216)), bytes(range(100, 116)))]
        cases = vs
    k = 0
    for idx, im in enumerate(ims):
        for args in cases:
            k += 1
            if k % parts != part:
                continue
            one(ctx, inst, o, idx, im, args, k % 4 == 0)
            if ctx.full:
                return
