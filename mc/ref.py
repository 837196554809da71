"""Reference semantics of WebAssembly numerics: integers by definition, floats by exact rational arithmetic followed by
one rounding. Floats are bit patterns everywhere; no host floating point is used."""
from fractions import Fraction
from math import isqrt


# ---------------------------------------------------------------- integers
def sx(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


def ux(x, n):
    return x & ((1 << n) - 1)


class TrapT:
    def __repr__(self):
        return 'TRAP'


TRAP = TrapT()


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def ibin(op, n, a, b):
    """a, b unsigned n-bit; result unsigned n-bit (or 0/1 for comparisons)."""
    sa, sb = sx(a, n), sx(b, n)
    M = (1 << n) - 1
    k = b % n
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'div_s':
        if b == 0 or (sb == -1 and sa == -(1 << (n - 1))):
            return TRAP
        return tdiv(sa, sb) & M
    if op == 'div_u':
        return TRAP if b == 0 else a // b
    if op == 'rem_s':
        return TRAP if b == 0 else (sa - sb * tdiv(sa, sb)) & M
    if op == 'rem_u':
        return TRAP if b == 0 else a - b * (a // b)
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a * 2 ** k) & M
    if op == 'shr_s':
        return (sa // 2 ** k) & M
    if op == 'shr_u':
        return a // 2 ** k
    if op == 'rotl':
        return (a * 2 ** k + a // 2 ** (n - k)) & M
    if op == 'rotr':
        return (a // 2 ** k + a * 2 ** (n - k)) & M
    if op == 'eq':
        return int(a == b)
    if op == 'ne':
        return int(a != b)
    rel, sign = op.split('_')
    x, y = (sa, sb) if sign == 's' else (a, b)
    return int({'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[rel])


def iun(op, n, a):
    if op == 'clz':
        return n - a.bit_length()
    if op == 'ctz':
        return n if a == 0 else (a & -a).bit_length() - 1
    if op == 'popcnt':
        return bin(a).count('1')
    if op == 'eqz':
        return int(a == 0)
    if op.startswith('extend'):
        w = int(op[6:].split('_')[0])
        return ux(sx(a, w), n)
    raise KeyError(op)


IUN = ['clz', 'ctz', 'popcnt', 'eqz']
IBIN = ['add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u',
        'rotl', 'rotr', 'eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u']


# ---------------------------------------------------------------- floats
class Fmt:
    def __init__(self, n, m):
        self.n = n                  # bits
        self.m = m                  # mantissa bits
        self.e = n - 1 - m
        self.bias = (1 << (self.e - 1)) - 1
        self.emin = 1 - self.bias - m      # exponent of the least significant bit of subnormals
        self.inf = ((1 << self.e) - 1) << m
        self.quiet = 1 << (m - 1)
        self.sign = 1 << (n - 1)
        self.canon = self.inf | self.quiet
        self.magmask = self.sign - 1


F32 = Fmt(32, 23)
F64 = Fmt(64, 52)


class NanCanon:
    def __repr__(self):
        return 'nan:canonical'


class NanArith:
    def __repr__(self):
        return 'nan:arithmetic'


NC, NA = NanCanon(), NanArith()


def isnan(f, x):
    return (x & f.magmask) > f.inf


def isinf(f, x):
    return (x & f.magmask) == f.inf


def iszero(f, x):
    return (x & f.magmask) == 0


def neg(f, x):
    return bool(x & f.sign)


def dec(f, x):
    """Exact value of a finite pattern."""
    mag = x & f.magmask
    ex, ma = mag >> f.m, mag & ((1 << f.m) - 1)
    v = Fraction(ma) if ex == 0 else Fraction(ma | (1 << f.m)) * 2 ** (ex - 1)
    v *= Fraction(2) ** f.emin
    return -v if x & f.sign else v


def enc(f, v, negzero=False):
    """Round an exact rational to the nearest pattern, ties to even."""
    if v == 0:
        return f.sign if negzero else 0
    sg = f.sign if v < 0 else 0
    a = abs(v)
    p = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** p > a:
        p -= 1
    e = max(p - f.m, f.emin)
    q = a / Fraction(2) ** e
    n, r = divmod(q.numerator, q.denominator)
    if 2 * r > q.denominator or (2 * r == q.denominator and n & 1):
        n += 1
    bits = ((e - f.emin) << f.m) + n
    return sg | min(bits, f.inf)


def nans(f, *xs):
    bad = [x for x in xs if isnan(f, x)]
    if all((x & f.magmask) == f.canon for x in bad):
        return NC
    return NA


def okf(f, want, got):
    """Does the pattern got meet the expectation (a pattern, NC or NA)?"""
    if want is NC:
        return (got & f.magmask) == f.canon
    if want is NA:
        return (got & f.magmask) >= f.canon
    return want == got


def fbin(op, f, a, b):
    if op == 'copysign':
        return (a & f.magmask) | (b & f.sign)
    if op in ('pmin', 'pmax'):
        lt = flt(f, b, a) if op == 'pmin' else flt(f, a, b)
        return b if lt else a
    if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        if isnan(f, a) or isnan(f, b):
            return int(op == 'ne')
        x, y = order(f, a), order(f, b)
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[op])
    if isnan(f, a) or isnan(f, b):
        return nans(f, a, b)
    na, nb = neg(f, a), neg(f, b)
    if op in ('min', 'max'):
        if iszero(f, a) and iszero(f, b):
            return (f.sign if (na or nb) else 0) if op == 'min' else (f.sign if (na and nb) else 0)
        x, y = order(f, a), order(f, b)
        return a if (x <= y) == (op == 'min') else b
    if op == 'sub':
        b ^= f.sign
        nb = not nb
        op = 'add'
    if op == 'add':
        if isinf(f, a):
            return NC if isinf(f, b) and na != nb else a
        if isinf(f, b):
            return b
        return enc(f, dec(f, a) + dec(f, b), iszero(f, a) and iszero(f, b) and na and nb)
    sg = f.sign if na != nb else 0
    if op == 'mul':
        if isinf(f, a) or isinf(f, b):
            return NC if iszero(f, a) or iszero(f, b) else sg | f.inf
        return enc(f, dec(f, a) * dec(f, b), bool(sg)) | sg
    if op == 'div':
        if isinf(f, a):
            return NC if isinf(f, b) else sg | f.inf
        if isinf(f, b):
            return sg
        if iszero(f, b):
            return NC if iszero(f, a) else sg | f.inf
        return enc(f, dec(f, a) / dec(f, b), bool(sg)) | sg
    raise KeyError(op)


def order(f, x):
    m = x & f.magmask
    return -m if x & f.sign else m


def flt(f, a, b):
    return not isnan(f, a) and not isnan(f, b) and order(f, a) < order(f, b)


def fun(op, f, a):
    if op == 'abs':
        return a & f.magmask
    if op == 'neg':
        return a ^ f.sign
    if isnan(f, a):
        return nans(f, a)
    if op == 'sqrt':
        if iszero(f, a):
            return a
        if neg(f, a):
            return NC
        if isinf(f, a):
            return a
        v = dec(f, a)
        # integer square root with sticky bit, wide enough that one rounding of it is exact
        k = 2 * (f.m + 8) + 2 * abs(f.emin)
        n = v.numerator * 2 ** (2 * k) // v.denominator
        r = isqrt(n)
        exact = r * r == n and (v.numerator * 2 ** (2 * k)) % v.denominator == 0
        return enc(f, Fraction(2 * r + (0 if exact else 1), 2) / 2 ** k)
    if op in ('ceil', 'floor', 'trunc', 'nearest'):
        if isinf(f, a) or iszero(f, a):
            return a
        v = dec(f, a)
        n = v.numerator // v.denominator
        if op == 'ceil':
            n = -((-v.numerator) // v.denominator)
        elif op == 'trunc':
            n = tdiv(v.numerator, v.denominator)
        elif op == 'nearest':
            d = v - n
            if d > Fraction(1, 2) or (d == Fraction(1, 2) and n & 1):
                n += 1
        return enc(f, Fraction(n), neg(f, a))
    raise KeyError(op)


FUN = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt']
FBIN = ['add', 'sub', 'mul', 'div', 'min', 'max', 'copysign', 'eq', 'ne', 'lt', 'gt', 'le', 'ge']


# ---------------------------------------------------------------- conversions
def trunc(f, x, n, signed):
    if isnan(f, x) or isinf(f, x):
        return TRAP
    v = dec(f, x)
    t = tdiv(v.numerator, v.denominator)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    return TRAP if t < lo or t > hi else t & ((1 << n) - 1)


def trunc_sat(f, x, n, signed):
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    if isnan(f, x):
        return 0
    if isinf(f, x):
        t = lo if neg(f, x) else hi
    else:
        v = dec(f, x)
        t = max(lo, min(hi, tdiv(v.numerator, v.denominator)))
    return t & ((1 << n) - 1)


def convert(f, x, n, signed):
    return enc(f, Fraction(sx(x, n) if signed else x))


def fcast(src, dst, x):
    """demote / promote"""
    if isnan(src, x):
        return nans(src, x)
    sg = dst.sign if neg(src, x) else 0
    if isinf(src, x):
        return sg | dst.inf
    return enc(dst, dec(src, x), bool(sg)) | sg


# ---------------------------------------------------------------- operand alphabets
def ialpha(n, tier='quick'):
    s = {0, 1, 2, 3, 5, 7, 10, 13, 100, 255, 256}
    for k in range(n):
        s |= {1 << k, (1 << k) - 1, -(1 << k)}
        if tier == 'thorough' or n == 32 or k % 4 in (0, 3):
            s |= {(1 << k) + 1, -(1 << k) - 1, -(1 << k) + 1}
    for p in (0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x00ff00ff00ff00ff, 0xff00ff00ff00ff00, 0x0123456789abcdef,
              0xfedcba9876543210, 0xdeadbeefcafebabe, 0x8000000080000000, 0x7fffffff7fffffff, 0x80007fff00018080,
              0x00000000ffffffff, 0xffffffff00000000, -2, -3, -5, -7, -10, -13, -100):
        s.add(p)
    return sorted({x & ((1 << n) - 1) for x in s})


def falpha(f, tier='quick'):
    m = f.m
    one = f.bias << m

    def two(k):
        return (f.bias + k) << m
    s = {0, 1, 2, 3, (1 << m) - 2, (1 << m) - 1, 1 << m, (1 << m) + 1, (2 << m) - 1, 2 << m,
         one - 1, one, one + 1, f.inf - 1, f.inf - 2, f.inf,
         two(-1) - 1, two(-1), two(-1) + 1, one | (1 << (m - 1)), two(1), two(1) | (1 << (m - 2)), two(1) | (1 << (m - 1)),
         two(2) | (1 << (m - 3)), two(2) | (1 << (m - 2)), one | (1 << (m - 2)), one | (3 << (m - 2)),
         two(1) + 1, two(2), one | ((1 << m) - 1), 0x1234567, two(-m), two(-m - 1), two(-m - 2), two(m // 2) + 1,
         two(f.bias // 2), two(-(f.bias // 2)), two(f.bias // 2) + 1, two(f.bias // 2 + 1), two(-(f.bias // 2) - 12)}
    for k in (7, 8, 15, 16, m - 2, m - 1, m, m + 1, 31, 32, 52, 53, 63, 64):
        s |= {two(k) - 1, two(k), two(k) + 1}
        if k < m:
            s.add(two(k) | (1 << (m - k - 1)))              # 2^k + 0.5
            s.add((two(k) - 1) | 1)
            s.add(two(k) + (1 << (m - k)) + (1 << (m - k - 1)))   # 2^k + 1.5
            s.add(two(k) - (1 << (m - k)))                  # below 2^k by 0.5
            s.add(two(k) + (1 << (m - k)))                  # 2^k + 1
    nan = {f.canon, f.canon | 1, f.canon | (1 << (m - 2)), f.inf | 1, f.inf | (1 << (m - 2)), f.inf | (f.quiet - 1),
           f.inf | ((1 << m) - 1)}
    s |= nan
    return sorted({x & f.magmask for x in s} | {(x & f.magmask) | f.sign for x in s})
