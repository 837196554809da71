"""C01: scalar integer instructions."""
from .. import asm, rt, ref
from ..asm import op, lget, I32, I64
from ..harness import Ctx

LEVEL = 'exploration'
RULE = ('every i32/i64 unary, binary, test, comparison, sign-extension instruction applied to every tuple of a corner '
        'alphabet (all powers of two and their neighbours, both signs, bit patterns) plus every pair of a small window '
        'around zero and every shift distance; the operands are read back afterwards. An evaluation is non-trivial when '
        'the result differs from every operand or the instruction must trap.')
ASSUMPTIONS = ['operand values outside the enumerated alphabet are not executed',
               'the reference is an independent definition over unbounded integers (mc/ref.py)']
BOUNDS = {'quick': 'i32: all pairs of the alphabet; i64: all pairs of a thinner alphabet; window -9..9; shifts 0..2n',
          'thorough': 'i64 alphabet includes every 2^k-1, 2^k, 2^k+1 and negations; window -40..40; unary: all 2^20 low'}

UN = {32: ['clz', 'ctz', 'popcnt', 'eqz', 'extend8_s', 'extend16_s'],
      64: ['clz', 'ctz', 'popcnt', 'eqz', 'extend8_s', 'extend16_s', 'extend32_s']}


def module(n):
    """Each instruction twice: alone, and with the operands returned after it (they must be intact)."""
    m = asm.Mod()
    t = {32: I32, 64: I64}[n]
    for o in UN[n]:
        r = I32 if o == 'eqz' else t
        m.func([t], [r], body=lget(0) + op('i%d_%s' % (n, o)), export=o)
        m.func([t], [r, t], [t], body=lget(0) + asm.ltee(1) + op('i%d_%s' % (n, o)) + lget(1), export=o + '+')
    for o in ref.IBIN:
        r = I32 if o[:2] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') else t
        m.func([t, t], [r], body=lget(0) + lget(1) + op('i%d_%s' % (n, o)), export=o)
        m.func([t, t], [r, t, t], body=lget(0) + lget(1) + op('i%d_%s' % (n, o)) + lget(0) + lget(1), export=o + '+')
    return m.build()


def check(ctx, inst, n, o, args, keep):
    got = inst.call(o + ('+' if keep else ''), [ref.sx(a, n) for a in args])
    want = ref.ibin(o, n, *args) if len(args) == 2 else ref.iun(o, n, *args)
    isbool = o[:2] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge')
    if want is ref.TRAP:
        ok = isinstance(got, rt.Trap)
        exp = 'trap'
    else:
        exp = [want if isbool else ref.sx(want, n)] + ([ref.sx(a, n) for a in args] if keep else [])
        ok = got == exp
    ctx.ev(want is ref.TRAP or want not in args)
    ctx.outcome('%s%s' % (o, ':trap' if want is ref.TRAP else ''))
    if not ok:
        ctx.viol('i%d.%s(%s)' % (n, o, ','.join(hex(a) for a in args)), 'got %r, expected %r' % (got, exp),
                 {'op': 'i%d.%s' % (n, o), 'args': args, 'got': repr(got), 'want': repr(exp)})
    elif ctx.evals % 9973 == 1:
        ctx.sample({'op': 'i%d.%s' % (n, o), 'args': args, 'result': repr(got)})


def binary(ctx, n, o):
    inst = rt.Inst(module(n))
    al = ref.ialpha(n, ctx.tier)
    M = (1 << n) - 1
    for a in al:
        for b in al:
            check(ctx, inst, n, o, [a, b], False)
            if ctx.full:
                return
    w = 9 if ctx.tier == 'quick' else 40
    for a in range(-w, w + 1):
        for b in range(-w, w + 1):
            check(ctx, inst, n, o, [a & M, b & M], True)
    for a in (1, M, 0x8000000000000001 & M | 1 << (n - 1), 0x123456789abcdef0 & M):
        for b in range(0, 2 * n + 1):
            check(ctx, inst, n, o, [a, b], True)
            check(ctx, inst, n, o, [a, -b & M], True)


def unary(ctx, n, o):
    inst = rt.Inst(module(n))
    for a in ref.ialpha(n, 'thorough'):
        check(ctx, inst, n, o, [a], True)
    for i in range(n):
        for j in range(i):
            a = (1 << i) | (1 << j)
            check(ctx, inst, n, o, [a], False)
            check(ctx, inst, n, o, [a ^ ((1 << n) - 1)], False)
            check(ctx, inst, n, o, [(1 << i) - (1 << j)], False)
    for a in range(1 << (10 if ctx.tier == 'quick' else 20)):
        check(ctx, inst, n, o, [a], False)
        if ctx.full:
            return
    if ctx.tier == 'quick':
        for a in range(1 << 10, 1 << 16, 37):
            check(ctx, inst, n, o, [a], False)


def jobs(tier):
    return [('binary', [n, o]) for n in (64, 32) for o in ref.IBIN] + [('unary', [n, o]) for n in UN for o in UN[n]]
