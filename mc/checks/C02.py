"""C02: scalar floating point instructions, bit for bit."""
from .. import asm, rt, ref
from ..asm import op, lget, lset, I32, I64, F32, F64

LEVEL = 'exploration'
RULE = ('every f32/f64 unary, binary and comparison instruction applied to every tuple of a corner alphabet of bit '
        'patterns (zeros, subnormals, every binade border used by rounding, halves, ties, infinities, quiet and '
        'signalling NaNs, both signs); patterns travel as integers so no host float is involved. Non-trivial: the '
        'result differs from every operand.')
ASSUMPTIONS = ['bit patterns outside the enumerated alphabet are not executed',
               'the reference rounds exact rationals once (mc/ref.py); NaN results are compared with the canonical / '
               'arithmetic NaN sets that the specification allows']
BOUNDS = {'quick': 'all pairs of ~190 patterns; unary: also 2^13 regularly spaced patterns',
          'thorough': 'unary f32: every pattern with a distinct upper 18 bits, and both neighbours'}
FM = {32: (ref.F32, I32, F32, 'f32', 'i32'), 64: (ref.F64, I64, F64, 'f64', 'i64')}
CMP = ('eq', 'ne', 'lt', 'gt', 'le', 'ge')


def module(n):
    f, it, ft, fn, n_i = FM[n]
    into = op('%s_reinterpret_%s' % (fn, n_i))
    outof = op('%s_reinterpret_%s' % (n_i, fn))
    m = asm.Mod()
    for o in ref.FUN:
        m.func([it], [it], body=lget(0) + into + op('%s_%s' % (fn, o)) + outof, export=o)
        m.func([it], [it, it], [ft], body=lget(0) + into + asm.ltee(1) + op('%s_%s' % (fn, o)) + outof + lget(1) + outof,
               export=o + '+')
    for o in ref.FBIN:
        fin, r = (b'', I32) if o in CMP else (outof, it)
        b = op('%s_%s' % (fn, o)) + fin
        m.func([it, it], [r], body=lget(0) + into + lget(1) + into + b, export=o)
        m.func([it, it], [r, it, it], [ft, ft], body=lget(0) + into + lset(2) + lget(1) + into + lset(3) + lget(2)
               + lget(3) + b + lget(2) + outof + lget(3) + outof, export=o + '+')
    return m.build()


def check(ctx, inst, n, o, args, keep):
    f = FM[n][0]
    got = inst.call(o + ('+' if keep else ''), [ref.sx(a, n) for a in args])
    want = ref.fbin(o, f, *args) if len(args) == 2 else ref.fun(o, f, *args)
    ok = isinstance(got, list) and len(got) == 1 + (len(args) if keep else 0)
    if ok:
        g = [x & ((1 << n) - 1) for x in got]
        ok = ref.okf(f, want, g[0]) and (not keep or g[1:] == args)
    ctx.ev(want not in args)
    ctx.outcome(o + (':nan' if want in (ref.NC, ref.NA) else ''))
    if not ok:
        ctx.viol('f%d.%s(%s)' % (n, o, ','.join(hex(a) for a in args)), 'got %s, expected %s' % (
            [hex(x & ((1 << n) - 1)) for x in got] if isinstance(got, list) else got,
            hex(want) if isinstance(want, int) else want), {'args': args, 'got': repr(got), 'want': repr(want)})
    elif ctx.evals % 9973 == 1:
        ctx.sample({'op': 'f%d.%s' % (n, o), 'args': [hex(a) for a in args], 'result': repr(got)})


def binary(ctx, n, o, part, parts):
    inst = rt.Inst(module(n))
    al = ref.falpha(FM[n][0])
    for i, a in enumerate(al):
        if i % parts != part:
            continue
        for j, b in enumerate(al):
            check(ctx, inst, n, o, [a, b], (i * 7 + j) % 5 == 0)
            if ctx.full:
                return


def unary(ctx, n, o):
    inst = rt.Inst(module(n))
    f = FM[n][0]
    for a in ref.falpha(f):
        check(ctx, inst, n, o, [a], True)
    bits = 13 if ctx.tier == 'quick' else 18
    for k in range(1 << bits):
        a = k << (n - bits)
        check(ctx, inst, n, o, [a], False)
        if ctx.full:
            return
        if ctx.tier != 'quick' and a:
            check(ctx, inst, n, o, [a - 1], False)
            check(ctx, inst, n, o, [a + 1], False)


def jobs(tier):
    return [('unary', [n, o]) for n in (64, 32) for o in ref.FUN[::-1]] + \
           [('binary', [n, o, p, 2]) for n in (64, 32) for o in ref.FBIN for p in range(2)]
