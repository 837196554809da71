"""Reference semantics of the vector instructions: name -> (operand kinds, immediates, result kind, function)."""
from . import ref
from .ref import sx, ux

SH = {'i8x16': (8, 16), 'i16x8': (16, 8), 'i32x4': (32, 4), 'i64x2': (64, 2), 'f32x4': (32, 4), 'f64x2': (64, 2)}
FM = {'f32x4': ref.F32, 'f64x2': ref.F64}


def lanes(b, w):
    k = w // 8
    return [int.from_bytes(b[i:i + k], 'little') for i in range(0, 16, k)]


def pack(ls, w):
    return b''.join((x & ((1 << w) - 1)).to_bytes(w // 8, 'little') for x in ls)


def sat(x, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return max(lo, min(hi, x))


def view(b, w, signed):
    return [sx(x, w) if signed else x for x in lanes(b, w)]


OPS = {}


def d(name, kinds, res, fn, imm=()):
    OPS[name] = (kinds, imm, res, fn)


# integer lane operations ------------------------------------------------------------------------------------------
for sh in ('i8x16', 'i16x8', 'i32x4', 'i64x2'):
    w, n = SH[sh]

    def un(f, w=w):
        return lambda a: pack([f(x) for x in lanes(a, w)], w)

    def bi(f, w=w):
        return lambda a, b: pack([f(x, y) for x, y in zip(lanes(a, w), lanes(b, w))], w)

    def cm(f, w=w):
        return lambda a, b: pack([-1 if f(x, y) else 0 for x, y in zip(lanes(a, w), lanes(b, w))], w)

    d(sh + '_abs', 'v', 'v', un(lambda x, w=w: abs(sx(x, w))))
    d(sh + '_neg', 'v', 'v', un(lambda x: -x))
    d(sh + '_all_true', 'v', 'i32', lambda a, w=w: int(all(lanes(a, w))))
    d(sh + '_bitmask', 'v', 'i32', lambda a, w=w: sum((x >> (w - 1)) << i for i, x in enumerate(lanes(a, w))))
    d(sh + '_add', 'vv', 'v', bi(lambda x, y: x + y))
    d(sh + '_sub', 'vv', 'v', bi(lambda x, y: x - y))
    d(sh + '_shl', 'vi', 'v', lambda a, k, w=w: pack([x << (k % w) for x in lanes(a, w)], w))
    d(sh + '_shr_s', 'vi', 'v', lambda a, k, w=w: pack([sx(x, w) // 2 ** (k % w) for x in lanes(a, w)], w))
    d(sh + '_shr_u', 'vi', 'v', lambda a, k, w=w: pack([x // 2 ** (k % w) for x in lanes(a, w)], w))
    d(sh + '_eq', 'vv', 'v', cm(lambda x, y: x == y))
    d(sh + '_ne', 'vv', 'v', cm(lambda x, y: x != y))
    for rel, fn in (('lt', lambda x, y: x < y), ('gt', lambda x, y: x > y), ('le', lambda x, y: x <= y),
                    ('ge', lambda x, y: x >= y)):
        d('%s_%s_s' % (sh, rel), 'vv', 'v', cm(lambda x, y, fn=fn, w=w: fn(sx(x, w), sx(y, w))))
        if sh != 'i64x2':
            d('%s_%s_u' % (sh, rel), 'vv', 'v', cm(fn))
    if sh != 'i8x16':
        d(sh + '_mul', 'vv', 'v', bi(lambda x, y: x * y))
    if sh != 'i64x2':
        for mm, fn in (('min', min), ('max', max)):
            d('%s_%s_s' % (sh, mm), 'vv', 'v', bi(lambda x, y, fn=fn, w=w: fn(sx(x, w), sx(y, w))))
            d('%s_%s_u' % (sh, mm), 'vv', 'v', bi(fn))
    if sh in ('i8x16', 'i16x8'):
        for sg in 'su':
            z = sg == 's'
            d('%s_add_sat_%s' % (sh, sg), 'vv', 'v',
              lambda a, b, w=w, z=z: pack([sat(x + y, w, z) for x, y in zip(view(a, w, z), view(b, w, z))], w))
            d('%s_sub_sat_%s' % (sh, sg), 'vv', 'v',
              lambda a, b, w=w, z=z: pack([sat(x - y, w, z) for x, y in zip(view(a, w, z), view(b, w, z))], w))
        d(sh + '_avgr_u', 'vv', 'v', bi(lambda x, y: (x + y + 1) // 2))
    if sh != 'i8x16':
        src = {'i16x8': 'i8x16', 'i32x4': 'i16x8', 'i64x2': 'i32x4'}[sh]
        hw = w // 2
        for sg in 'su':
            z = sg == 's'
            for half in ('low', 'high'):
                sl = slice(0, n) if half == 'low' else slice(n, 2 * n)
                d('%s_extend_%s_%s_%s' % (sh, half, src, sg), 'v', 'v',
                  lambda a, hw=hw, w=w, z=z, sl=sl: pack(view(a, hw, z)[sl], w))
                d('%s_extmul_%s_%s_%s' % (sh, half, src, sg), 'vv', 'v',
                  lambda a, b, hw=hw, w=w, z=z, sl=sl: pack(
                      [x * y for x, y in zip(view(a, hw, z)[sl], view(b, hw, z)[sl])], w))
            if sh != 'i64x2':
                d('%s_extadd_pairwise_%s_%s' % (sh, src, sg), 'v', 'v', lambda a, hw=hw, w=w, z=z: pack(
                    [view(a, hw, z)[2 * i] + view(a, hw, z)[2 * i + 1] for i in range(128 // w)], w))
    if sh in ('i8x16', 'i16x8'):
        src = {'i8x16': 'i16x8', 'i16x8': 'i32x4'}[sh]
        for sg in 'su':
            d('%s_narrow_%s_%s' % (sh, src, sg), 'vv', 'v', lambda a, b, w=w, z=sg == 's': pack(
                [sat(x, w, z) for x in view(a, 2 * w, True) + view(b, 2 * w, True)], w))
    d(sh + '_splat', {'i64x2': 'l'}.get(sh, 'i'), 'v', lambda x, w=w, n=n: pack([x] * n, w))
    ex = {'i8x16': ['_s', '_u'], 'i16x8': ['_s', '_u']}.get(sh, [''])
    for e in ex:
        d('%s_extract_lane%s' % (sh, e), 'v', 'i64' if sh == 'i64x2' else 'i32',
          lambda a, l, w=w, e=e: sx(lanes(a, w)[l], w) if e == '_s' else lanes(a, w)[l], (n,))
    d(sh + '_replace_lane', 'v' + {'i64x2': 'l'}.get(sh, 'i'), 'v',
      lambda a, x, l, w=w: pack([x if i == l else y for i, y in enumerate(lanes(a, w))], w), (n,))

d('i8x16_popcnt', 'v', 'v', lambda a: bytes(bin(x).count('1') for x in a))
d('i8x16_swizzle', 'vv', 'v', lambda a, b: bytes(a[i] if i < 16 else 0 for i in b))
d('i8x16_shuffle', 'vv', 'v', lambda a, b, *ls: bytes((a + b)[i] for i in ls), (32,) * 16)
d('i16x8_q15mulr_sat_s', 'vv', 'v', lambda a, b: pack(
    [sat((x * y + 0x4000) // 0x8000, 16, True) for x, y in zip(view(a, 16, True), view(b, 16, True))], 16))
d('i32x4_dot_i16x8_s', 'vv', 'v', lambda a, b: pack(
    [view(a, 16, True)[2 * i] * view(b, 16, True)[2 * i] + view(a, 16, True)[2 * i + 1] * view(b, 16, True)[2 * i + 1]
     for i in range(4)], 32))
d('v128_not', 'v', 'v', lambda a: bytes(255 - x for x in a))
d('v128_and', 'vv', 'v', lambda a, b: bytes(x & y for x, y in zip(a, b)))
d('v128_andnot', 'vv', 'v', lambda a, b: bytes(x & (255 - y) for x, y in zip(a, b)))
d('v128_or', 'vv', 'v', lambda a, b: bytes(x | y for x, y in zip(a, b)))
d('v128_xor', 'vv', 'v', lambda a, b: bytes(x ^ y for x, y in zip(a, b)))
d('v128_bitselect', 'vvv', 'v', lambda a, b, c: bytes((x & z) | (y & (255 - z)) for x, y, z in zip(a, b, c)))
d('v128_any_true', 'v', 'i32', lambda a: int(any(a)))

INT_OPS = sorted(OPS)

# float lanes --------------------------------------------------------------------------------------------------------
# Float results are lists of per-lane expectations (pattern, NC or NA) with a lane width.


class Lanes:
    def __init__(self, ls, f):
        self.ls, self.f = ls, f

    def ok(self, b):
        return all(ref.okf(self.f, w, g) for w, g in zip(self.ls, lanes(b, self.f.n)))

    def __repr__(self):
        return '[%s]' % ', '.join(hex(x) if isinstance(x, int) else repr(x) for x in self.ls)


for sh in ('f32x4', 'f64x2'):
    w, n = SH[sh]
    f = FM[sh]
    for o in ref.FUN:
        d('%s_%s' % (sh, o), 'v', 'v', lambda a, f=f, o=o: Lanes([ref.fun(o, f, x) for x in lanes(a, f.n)], f))
    for o in ('add', 'sub', 'mul', 'div', 'min', 'max', 'pmin', 'pmax'):
        d('%s_%s' % (sh, o), 'vv', 'v', lambda a, b, f=f, o=o: Lanes(
            [ref.fbin(o, f, x, y) for x, y in zip(lanes(a, f.n), lanes(b, f.n))], f))
    for o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        d('%s_%s' % (sh, o), 'vv', 'v', lambda a, b, f=f, o=o: pack(
            [-ref.fbin(o, f, x, y) for x, y in zip(lanes(a, f.n), lanes(b, f.n))], f.n))
    c = {'f32x4': 'f', 'f64x2': 'd'}[sh]
    d(sh + '_splat', c, 'v', lambda x, w=w, n=n: pack([x] * n, w))
    d(sh + '_extract_lane', 'v', sh[:3], lambda a, l, w=w: lanes(a, w)[l], (n,))
    d(sh + '_replace_lane', 'v' + c, 'v',
      lambda a, x, l, w=w: pack([x if i == l else y for i, y in enumerate(lanes(a, w))], w), (n,))
for sg in 'su':
    z = sg == 's'
    d('i32x4_trunc_sat_f32x4_' + sg, 'v', 'v',
      lambda a, z=z: pack([ref.trunc_sat(ref.F32, x, 32, z) for x in lanes(a, 32)], 32))
    d('f32x4_convert_i32x4_' + sg, 'v', 'v',
      lambda a, z=z: pack([ref.convert(ref.F32, x, 32, z) for x in lanes(a, 32)], 32))
    d('i32x4_trunc_sat_f64x2_%s_zero' % sg, 'v', 'v',
      lambda a, z=z: pack([ref.trunc_sat(ref.F64, x, 32, z) for x in lanes(a, 64)] + [0, 0], 32))
    d('f64x2_convert_low_i32x4_' + sg, 'v', 'v',
      lambda a, z=z: pack([ref.convert(ref.F64, x, 32, z) for x in lanes(a, 32)[:2]], 64))
d('f32x4_demote_f64x2_zero', 'v', 'v',
  lambda a: Lanes([ref.fcast(ref.F64, ref.F32, x) for x in lanes(a, 64)] + [0, 0], ref.F32))
d('f64x2_promote_low_f32x4', 'v', 'v', lambda a: Lanes([ref.fcast(ref.F32, ref.F64, x) for x in lanes(a, 32)[:2]], ref.F64))

FLOAT_OPS = sorted(set(OPS) - set(INT_OPS))
