"""C03: conversions between numeric types."""
from .. import asm, rt, ref
from ..asm import op, lget, I32, I64

LEVEL = 'exploration'
RULE = ('every conversion instruction (wrap, extend, trunc, trunc_sat, convert, demote, promote, reinterpret) applied to '
        'every pattern of a corner alphabet that includes the float neighbours of every integer range limit, every '
        'rounding tie between representable values, all power-of-two neighbourhoods, NaNs and infinities. Non-trivial: '
        'traps, saturates, rounds or changes value.')
ASSUMPTIONS = ['operands outside the enumerated alphabet are not executed',
               'the reference converts through exact rationals (mc/ref.py)']
BOUNDS = {'quick': '~2000 float patterns per source type, ~5000 integers per source type',
          'thorough': 'all f32 patterns with distinct upper 17 bits; 64 neighbours of every power of two'}

FR = {'f32': ref.F32, 'f64': ref.F64}
N = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}


def into(t):
    return {'f32': op('f32_reinterpret_i32'), 'f64': op('f64_reinterpret_i64')}.get(t, b'')


def outof(t):
    return {'f32': op('i32_reinterpret_f32'), 'f64': op('i64_reinterpret_f64')}.get(t, b'')


def carrier(t):
    return {'f32': I32, 'f64': I64, 'i32': I32, 'i64': I64}[t]


OPS = {}
for d in ('i32', 'i64'):
    for f in ('f32', 'f64'):
        for sg in 'su':
            OPS['%s_trunc_%s_%s' % (d, f, sg)] = (f, d, lambda x, f=f, d=d, sg=sg: ref.trunc(FR[f], x, N[d], sg == 's'))
            OPS['%s_trunc_sat_%s_%s' % (d, f, sg)] = (
                f, d, lambda x, f=f, d=d, sg=sg: ref.trunc_sat(FR[f], x, N[d], sg == 's'))
            OPS['%s_convert_%s_%s' % (f, d, sg)] = (d, f, lambda x, f=f, d=d, sg=sg: ref.convert(FR[f], x, N[d], sg == 's'))
OPS['f32_demote_f64'] = ('f64', 'f32', lambda x: ref.fcast(ref.F64, ref.F32, x))
OPS['f64_promote_f32'] = ('f32', 'f64', lambda x: ref.fcast(ref.F32, ref.F64, x))
OPS['i32_wrap_i64'] = ('i64', 'i32', lambda x: x & 0xffffffff)
OPS['i64_extend_i32_s'] = ('i32', 'i64', lambda x: ref.ux(ref.sx(x, 32), 64))
OPS['i64_extend_i32_u'] = ('i32', 'i64', lambda x: x)
OPS['i32_reinterpret_f32'] = ('f32', 'i32', lambda x: x)
OPS['i64_reinterpret_f64'] = ('f64', 'i64', lambda x: x)
OPS['f32_reinterpret_i32'] = ('i32', 'f32', lambda x: x)
OPS['f64_reinterpret_i64'] = ('i64', 'f64', lambda x: x)


def module():
    m = asm.Mod()
    for o, (s, d, _) in OPS.items():
        st = asm.NAMES[s]
        m.func([carrier(s)], [carrier(d), carrier(s)], [st],
               body=lget(0) + into(s) + asm.ltee(1) + op(o) + outof(d) + lget(1) + outof(s), export=o)
    return m.build()


def integers(n, tier):
    s = set(ref.ialpha(n, 'thorough'))
    for k in range(8, n):
        for w in (24, 25, 53, 54):       # ties and their neighbours at the two mantissa widths
            if k >= w:
                u = 1 << (k - w + 1)
                for base in (1 << k, (1 << k) + (1 << (k - 1)), (1 << (k + 1)) - 2 * u, (1 << k) + 2 * u):
                    for d in (-u - 1, -u, -u + 1, -u // 2 - 1, -u // 2, -u // 2 + 1, -1, 0, 1, u // 2 - 1, u // 2,
                              u // 2 + 1, u - 1, u, u + 1, 3 * u // 2, 3 * u // 2 + 1):
                        s.add(base + d)
                        s.add(-(base + d))
        if tier == 'thorough':
            for d in range(-64, 65):
                s.add((1 << k) + d)
                s.add(-(1 << k) + d)
    return sorted({x & ((1 << n) - 1) for x in s})


def floats(t, tier):
    f = FR[t]
    s = set(ref.falpha(f))
    m = f.m
    for k in range(-3, 66):
        b = (f.bias + k) << m
        for d in (-3, -2, -1, 0, 1, 2, 3):
            s.add(b + d)
        s.add(b | (1 << (m - 1)))
        if 0 < k < m:
            s.add(b | (1 << (m - k)))
            s.add(b | (1 << (m - k - 1)))
            s.add(b + (((1 << k) - 1) << (m - k)))
            s.add(b + (((1 << k) - 1) << (m - k)) + (1 << (m - k - 1)))
    if t == 'f64':
        g = ref.F32
        for x in ref.falpha(g):
            if not ref.isnan(g, x) and not ref.isinf(g, x):
                y = ref.enc(f, ref.dec(g, x), ref.neg(g, x))
                half = 1 << (m - 24)
                for d in (0, 1, -1, half, half - 1, half + 1, -half, -half + 1, -half - 1, 2 * half, 3 * half):
                    s.add(y + d)
        for e in range(-150, -125):      # f32 subnormal range: every rounding position
            for d in (-1, 0, 1):
                for w in (0, 1 << (m - 1), 1 << (m - 2), 3 << (m - 2), 1 << (m - 22), 1 << (m - 23)):
                    s.add(((f.bias + e) << m) + w + d)
        for e in (126, 127, 128):
            for d in (-1, 0, 1):
                s.add(((f.bias + e) << m) + d)
                s.add(((f.bias + e) << m) + ((1 << 24) - 1 << (m - 24)) + d)
                s.add(((f.bias + e) << m) + ((1 << 23) - 1 << (m - 23)) + d)
    if tier == 'thorough':
        sh = f.n - 17
        for k in range(1 << 17):
            s.add(k << sh)
            s.add(((k << sh) - 1) & ((1 << f.n) - 1))
    return sorted({(x & f.magmask) for x in s} | {(x & f.magmask) | f.sign for x in s})


def run(ctx, o):
    s, d, fn = OPS[o]
    inst = rt.Inst(module())
    vals = floats(s, ctx.tier) if s[0] == 'f' else integers(N[s], ctx.tier)
    for x in vals:
        got = inst.call(o, [ref.sx(x, N[s])])
        want = fn(x)
        ctx.ev(want is ref.TRAP or want != x)
        ctx.outcome(o + (':trap' if want is ref.TRAP else ''))
        if want is ref.TRAP:
            ok = isinstance(got, rt.Trap)
        else:
            ok = isinstance(got, list) and len(got) == 2
            if ok:
                g = [got[0] & ((1 << N[d]) - 1), got[1] & ((1 << N[s]) - 1)]
                ok = (ref.okf(FR[d], want, g[0]) if d[0] == 'f' else want == g[0]) and g[1] == x
                got = [hex(e) for e in g]
        if not ok:
            ctx.viol('%s(%s)' % (o, hex(x)), 'got %r, expected %s' % (got, hex(want) if isinstance(want, int) else want),
                     {'op': o, 'arg': hex(x), 'got': repr(got), 'want': repr(want)})
            if ctx.full:
                return
        elif ctx.evals % 997 == 1:
            ctx.sample({'op': o, 'arg': hex(x), 'result': repr(got)})


def jobs(tier):
    return [('run', [o]) for o in OPS]
