"""C11: the binary format."""
import itertools

from .. import asm, rt, mods, simd, simdcheck
from ..asm import sect, u, op, i32c, f64c, lget, lset, I32, I64, F32, F64, FUNCREF
from ..mods import bt

LEVEL = 'exploration'
RULE = ('modules using every section and immediate kind are re-encoded in every way the rule enumerates (each integer, '
        'and each pair of integers, with every legal redundant length; custom sections in every gap in many numbers; '
        'explicitly empty sections; every length and count at all sizes around the ends of its encodings) and must give the expected results; and damaged in every enumerated way (every '
        'truncation point, every wrong section or body size, surplus or missing bytes in every section and body, wrong '
        'element counts, data counts, every changed bit of the header, unknown section ids) and must be refused. Every evaluation is '
        'non-trivial except the unmodified modules.')
ASSUMPTIONS = ['what a padded encoding must do is defined by the expected results listed with the modules in mc/mods.py',
               'the decoder does no type checking and does not require the section order; neither is part of the property',
               'lane numbers and the reserved bytes of memory instructions are single bytes and are not padded']
BOUNDS = {'quick': 'all single paddings, uniform paddings, neighbouring pairs; all truncations; up to 40 custom sections',
          'thorough': 'all pairs of padded integers; custom sections in all pairs of gaps; up to 2000 custom sections'}
MAXLEN = {'u': 5, 's': 5, 'l': 10}
HEAD = b'\x00asm\x01\x00\x00\x00'


def encode(name, plan):
    """Build module `name` with integer number i padded by plan(i, kind, length); returns bytes, tests, the integers."""
    seen = []

    def hook(kind, n):
        i = len(seen)
        room = MAXLEN[kind] - n
        seen.append(room)
        return min(room, plan(i, room))

    asm.HOOK = hook
    try:
        m, tests = mods.ALL[name]()
        b = m.build()
    finally:
        asm.HOOK = None
    return b, tests, seen


def good(ctx, key, b, tests, trivial=False):
    ctx.ev(not trivial)
    ctx.traces += 1
    e = mods.behaves(b, tests)
    ctx.outcome('accepted' if e is None else 'bad')
    if e is not None:
        ctx.viol(key, e, {'module': b.hex()[:4000]})


def bad(ctx, key, b):
    ctx.ev()
    ctx.traces += 1
    rt.arm(20)
    try:
        rt.decode(b)
    except Exception:
        ctx.outcome('refused')
        return
    except rt.Hang:
        ctx.viol(key, 'decoding does not end', {'module': b.hex()[:4000]})
        return
    finally:
        rt.disarm()
    ctx.viol(key, 'a malformed module was accepted', {'module': b.hex()[:4000]})


def padding(ctx, name):
    b, tests, seen = encode(name, lambda i, room: 0)
    good(ctx, '%s canonical' % name, b, tests, True)
    assert b == mods.ALL[name]()[0].build()
    for p in range(1, 10):
        good(ctx, '%s all padded by %d' % (name, p), encode(name, lambda i, room: p)[0], tests)
    for k, room in enumerate(seen):
        for p in range(1, room + 1) if room <= 4 else (1, 2, 5, room):
            good(ctx, '%s integer %d padded by %d' % (name, k, p), encode(name, lambda i, room: p if i == k else 0)[0], tests)
        if ctx.full:
            return
    ctx.note('integers in ' + name, len(seen))
    ctx.sample({'module': name, 'integers': len(seen), 'bytes': len(b)})


def pairs(ctx, name, part, parts):
    b, tests, seen = encode(name, lambda i, room: 0)
    n = 0
    for a in range(len(seen)):
        for c in range(a + 1, len(seen) if ctx.tier != 'quick' else min(len(seen), a + 2)):
            n += 1
            if n % parts != part:
                continue
            p = 1 + n % 4
            good(ctx, '%s integers %d and %d padded by %d' % (name, a, c, p),
                 encode(name, lambda i, room: p if i in (a, c) else 0)[0], tests)
            if ctx.full:
                return


JUNK = [b'', b'\x00', b'\x0b' * 5, b'\x01\x04\x01\x60\x00\x00', b'\x0a\xff', bytes(range(256)), b'\xff' * 9]


def custom(name='n', data=b''):
    return sect(0, asm.name(name) + data)


def join(secs):
    return HEAD + b''.join(sect(i, b) if isinstance(i, int) else b for i, b in secs)


def customs(ctx, name):
    m, tests = mods.ALL[name]()
    secs = m.sections()
    gaps = range(len(secs) + 1)

    def put(where, c):
        out = HEAD
        for g in gaps:
            out += c * where.count(g)
            if g < len(secs):
                out += sect(*secs[g])
        return out

    for g in gaps:
        for j in JUNK:
            good(ctx, '%s custom %s in gap %d' % (name, j.hex()[:20], g), put([g], custom('x', j)), tests)
        good(ctx, '%s empty name in gap %d' % (name, g), put([g], custom('')), tests)
        good(ctx, '%s custom name section in gap %d' % (name, g), put([g], custom('name', b'\x01\x03\x01\x00\x00')), tests)
        good(ctx, '%s long custom in gap %d' % (name, g), put([g], custom('y' * 130, bytes(20000))), tests)
        for k in (2, 8, 15, 16, 20, 24, 30, 31, 32, 33, 40, 64, 100) + (() if ctx.tier == 'quick' else (500, 2000)):
            good(ctx, '%s %d customs in gap %d' % (name, k, g), put([g] * k, custom('z', b'\x0a')), tests)
        if ctx.full:
            return
    for k in (1, 3, 6):
        good(ctx, '%s %d customs in every gap' % (name, k), put([g for g in gaps for _ in range(k)], custom('q', b'abc')), tests)
    if ctx.tier != 'quick':
        for g, h in itertools.combinations_with_replacement(gaps, 2):
            good(ctx, '%s customs in gaps %d and %d' % (name, g, h), put([g, h] * 9, custom('r', b'\x00')), tests)


def empties(ctx, name):
    """Absent sections written out with no content; all subsets."""
    m, tests = mods.ALL[name]()
    have = dict(m.sections())
    order = [1, 2, 3, 4, 5, 6, 7, 9, 12, 10, 11]
    missing = [i for i in order if i not in have]
    for n in range(len(missing) + 1):
        for sub in itertools.combinations(missing, n):
            out = HEAD
            for i in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11]:
                if i in have:
                    out += sect(i, have[i])
                elif i in sub:
                    out += sect(i, u(0) if i != 12 or 11 not in have else u(have[11][0]))
            good(ctx, '%s empty sections %r' % (name, sub), out, tests)


def truncations(ctx, name, part, parts):
    m, tests = mods.ALL[name]() if name != 'big' else mods.big()
    secs = m.sections()
    full = join(secs)
    # Section boundaries, and whether the module up to there is complete.
    ends = {}
    pos = 8
    ids = []
    ends[pos] = True
    for i, b in secs:
        pos += len(sect(i, b))
        ids.append(i)
        ends[pos] = (3 in ids) == (10 in ids) and not (12 in ids and 11 not in ids)
    step = 1 if name != 'big' or ctx.tier != 'quick' else 61
    pts = [n for n in range(0, len(full), step) if n not in ends] if name != 'big' else \
        sorted(set(list(range(0, len(full), step)) + [e + d for e in ends for d in range(-9, 9)]))
    for n in pts[part::parts]:
        if 0 <= n < len(full) and n not in ends:
            bad(ctx, '%s truncated to %d bytes' % (name, n), full[:n])
            if ctx.full:
                return
    if part == 0:
        for n in ends:
            if not ends[n]:
                bad(ctx, '%s truncated to %d bytes, in front of a section' % (name, n), full[:n])
            elif n < len(full):
                ctx.ev()
                try:
                    rt.decode(full[:n])
                except Exception as e:
                    ctx.viol('%s first %d bytes' % (name, n), 'a complete module was refused: %r' % e)


def damage(ctx, name):
    m, tests = mods.ALL[name]()
    secs = m.sections()

    def repl(k, new):
        return HEAD + b''.join(new if j == k else sect(i, b) for j, (i, b) in enumerate(secs))

    for k, (i, b) in enumerate(secs):
        for d in list(range(-12, 13)) + [127, 128, 1 << 20, (1 << 32) - 1 - len(b)]:
            if d and len(b) + d >= 0:
                bad(ctx, '%s section %d declared %+d bytes' % (name, i, d), repl(k, bytes([i]) + u(len(b) + d) + b))
        for j in [bytes([x]) for x in (0, 1, 0x0b, 0x10, 0x7f, 0x80, 0xff)] + [bytes(4), b'\x0b' * 3, bytes(200)]:
            bad(ctx, '%s section %d with surplus %s' % (name, i, j.hex()[:8]), repl(k, sect(i, b + j)))
        for c in range(1, len(b) + 1) if len(b) < 400 or ctx.tier != 'quick' else list(range(1, 60)) + [len(b) - 1, len(b)]:
            bad(ctx, '%s section %d without its last %d bytes' % (name, i, c), repl(k, sect(i, b[:-c])))
        if i != 8 and i != 12:
            n, ln = lebu(b)
            for d in (-1, 1, 2, 100):
                if n + d >= 0:
                    bad(ctx, '%s section %d counts %+d' % (name, i, d), repl(k, sect(i, u(n + d) + b[ln:])))
        for x in list(range(13, 256)):
            bad(ctx, '%s section %d renamed %d' % (name, i, x), repl(k, sect(x, b)))
        if ctx.full:
            return
    codes = m.codes
    pos = [j for j, (i, b) in enumerate(secs) if i == 10][0]
    for c in range(len(codes)):
        def code(f):
            return repl(pos, sect(10, asm.vec(f(x) if j == c else u(len(x)) + x for j, x in enumerate(codes))))
        for d in range(-9, 10):
            if d and len(codes[c]) + d >= 0:
                bad(ctx, '%s body %d declared %+d bytes' % (name, c, d), code(lambda x: u(len(x) + d) + x))
        for j in [bytes([x]) for x in (0, 1, 0x0b, 0x41, 0x80)] + [b'\x0b\x0b', bytes(130)]:
            bad(ctx, '%s body %d with surplus %s' % (name, c, j.hex()[:8]), code(lambda x: u(len(x + j)) + x + j))
        for d in range(1, len(codes[c]) + 1):
            bad(ctx, '%s body %d without its last %d bytes' % (name, c, d), code(lambda x: u(len(x) - d) + x[:-d]))
        if ctx.full:
            return
    # One body too few or too many, data count that does not match.
    bad(ctx, '%s one body missing' % name, repl(pos, sect(10, asm.vec(u(len(x)) + x for x in codes[:-1]))))
    bad(ctx, '%s one body too many' % name, repl(pos, sect(10, asm.vec(u(len(x)) + x for x in codes + codes[-1:]))))
    bad(ctx, '%s no code section' % name, repl(pos, b''))
    fpos = [j for j, (i, b) in enumerate(secs) if i == 3][0]
    bad(ctx, '%s no function section' % name, repl(fpos, b''))
    for j, (i, b) in enumerate(secs):
        if i == 12:
            for d in (-1, 1, 5):
                bad(ctx, '%s data count %+d' % (name, d), repl(j, sect(12, u(len(m.datas) + d))))
            dpos = [x for x, (y, b) in enumerate(secs) if y == 11][0]
            bad(ctx, '%s no data section' % name, repl(dpos, b''))
    # Damaged custom sections.
    for g in range(len(secs) + 1):
        pre = HEAD + b''.join(sect(*s) for s in secs[:g])
        post = b''.join(sect(*s) for s in secs[g:])
        for body in (b'', u(1), u(5) + b'abcd', u(200) + b'a' * 199, b'\x80'):
            bad(ctx, '%s custom section with broken name %s in gap %d' % (name, body[:6].hex(), g), pre + sect(0, body) + post)
        if post:
            bad(ctx, '%s custom section longer than the file in gap %d' % (name, g),
                pre + bytes([0]) + u(len(post) + 300) + asm.name('a') + post)


def lebu(b):
    n = k = 0
    for k, x in enumerate(b):
        n |= (x & 0x7f) << 7 * k
        if not x & 0x80:
            return n, k + 1


def header(ctx):
    m, tests = mods.control()
    b = m.build()
    for i in range(8):
        for x in range(256):
            if x != b[i]:
                bad(ctx, 'header byte %d is %#x' % (i, x), b[:i] + bytes([x]) + b[i + 1:])
    for n in range(8):
        bad(ctx, 'file of %d bytes' % n, b[:n])
    for h in (b'asm\x00\x01\x00\x00\x00', b'\x00ASM\x01\x00\x00\x00', b'\x00asm\x00\x00\x00\x01', b'\x7fELF\x01\x00\x00\x00'):
        bad(ctx, 'header %s' % h.hex(), h + b[8:])
    good(ctx, 'empty module', HEAD, [])
    for j in range(1, 5):
        bad(ctx, 'header shifted by %d' % j, bytes(j) + b)


def bigmod(ctx):
    m, tests = mods.big()
    good(ctx, 'big', m.build(), tests)


SIZES = [0, 1, 2, 31, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 33000, 65535, 65536, 65537]


def lengths(ctx, k):
    """Everything with a length or a count, at every length around the ends of its encodings."""
    for t in ('a', '\u00e9', '\u6f22', '\U0001f600'):
        m = asm.Mod()
        text = t * (k // len(t.encode())) + 'z' * (k % len(t.encode()))
        m.func([], [I32], body=i32c(k), export=text)
        m.func([], [I32], body=i32c(k + 1), export=text + '1')
        b = m.build()
        for x in (b, HEAD + custom(text, b'ab') + b[8:], b + custom(text), HEAD + custom('d', text.encode()) + b[8:]):
            good(ctx, 'names of %d bytes, of U+%04X' % (k, ord(t)), x, [(text, [], [k]), (text + '1', [], [k + 1])])
    m = asm.Mod()
    raw = bytes((7 * i + 1) % 255 + 1 for i in range(k))
    m.mem(3)
    m.data_active(i32c(9), raw)
    p = m.data_passive(raw)
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='at')
    m.func([I32], [], body=i32c(100000) + i32c(0) + lget(0) + op('memory_init', u(p), b'\0'), export='init')
    m.func([], [I32], body=op('nop') * k + i32c(k), export='nops')
    m.func([], [I32], body=op('nop') * max(0, k - 5) + i32c(k), export='nops5')
    b = m.build()
    at = lambda i: raw[i - 9] if 9 <= i < 9 + k else 0
    late = lambda i: raw[i - 100000] if 100000 <= i < 100000 + k else 0
    good(ctx, 'data and bodies of %d bytes' % k, b, [('nops', [], [k]), ('nops5', [], [k])] +
         [('at', [i], [at(i)]) for i in (8, 9, 10, 8 + k, 9 + k)] + [('init', [k + 1], rt.TRAP), ('init', [k], [])] +
         [('at', [i], [late(i)]) for i in (99999, 100000, 100001, 99999 + k, 100000 + k)])
    if k > 5000:
        return
    m = asm.Mod()
    for i in range(k):
        m.type([I32] * (i % 7), [I64] * (i // 7)) if k <= 300 else m.type([I32] * (i % 71), [F32] * (i // 71))
    t = m.type([F64], [I32])
    for i in range(k):
        m.glob(I32, 1, i32c(i))
    g = m.glob(I32, 1, i32c(k))
    for i in range(k):
        m.func([], [I32], body=i32c(i), export='f%d' % i)
    m.func([F64], [I32], body=op('global_get', u(g)), export='last')
    m.table(FUNCREF, k + 1)
    m.elem_active(i32c(0), list(range(k)) + [k])
    m.func([I32], [I32], body=f64c(0) + lget(0) + op('call_indirect', t, 0), export='ci')
    m.func([I32], [I32], body=op('block', bt(0x40)) + op('block', bt(0x40)) + lget(0) + op('br_table', asm.vec([u(i % 2) for i in range(k)]), 1) +
           op('end') + i32c(0) + op('return') + op('end') + i32c(1), export='br')
    m.func([I32], [I32], [(1, I64)] * k + [(k, I64), (1, I32)], body=lget(0) + lset(2 * k + 1) + lget(2 * k + 1), export='loc')
    good(ctx, '%d of everything' % k, m.build(), [('last', [0.0], [k]), ('ci', [k], [k]), ('ci', [k + 1], rt.TRAP), ('loc', [77], [77])] +
         [('f%d' % i, [], [i]) for i in {0, k // 2, k - 1} if 0 <= i < k] + [('br', [i], [i % 2 if i < k else 1]) for i in {0, 1, k // 2, abs(k - 1), k, k + 1}])


def counts(ctx):
    """The data count section against the number of segments."""
    for n in range(5):
        for kinds in itertools.product((0, 1), repeat=n):
            m = asm.Mod()
            m.mem(1)
            for j, x in enumerate(kinds):
                m.data_passive(b'ab') if x else m.data_active(i32c(j), b'ab')
            m.func([], [], body=b'')
            secs = [x for x in m.sections() if x[0] != 12]
            at = [j for j, x in enumerate(secs) if x[0] == 10][0]
            for c in list(range(8)) + [127, 128, 300]:
                b = join(secs[:at] + [(12, u(c))] + secs[at:])
                if c == n:
                    good(ctx, 'data count %d with segments %r' % (c, kinds), b, [])
                else:
                    bad(ctx, 'data count %d with segments %r' % (c, kinds), b)


def unknown(ctx):
    """Opcodes that do not exist."""
    known = set(asm.OPS.values())
    for x in range(256):
        if bytes([x]) in known or x in (0xfc, 0xfd):
            continue
        m = asm.Mod()
        m.func([], [], body=bytes([x]))
        bad(ctx, 'opcode %02x' % x, m.build())
    for p in (0xfc, 0xfd):
        for x in range(300):
            o = bytes([p]) + u(x)
            if o not in known:
                m = asm.Mod()
                m.func([], [], body=o + bytes(2))
                bad(ctx, 'opcode %s' % o.hex(), m.build())


def prefixed(ctx, part, parts):
    """Every prefixed opcode with its number padded: same result as the reference."""
    names = sorted(o for o in asm.OPS if len(asm.OPS[o]) > 1 and o in simd.OPS)
    for o in names[part::parts]:
        kinds, spec, res, fn = simd.OPS[o]
        im = simdcheck.immediates(o)[-1]
        raw = asm.OPS[o]
        n = lebu(raw[1:])[0]
        args = [bytes((7 * i + 3 * k + 1) % 256 for i in range(16)) if c == 'v' else 5 for k, c in enumerate(kinds)]
        for pad in range(1, 5 - len(raw) + 2):
            asm.OPS[o] = raw[:1] + u(n, pad)
            try:
                b = simdcheck.module(o, [im])
            finally:
                asm.OPS[o] = raw
            try:
                inst = rt.Inst(b)
            except Exception as e:
                ctx.viol('%s padded by %d' % (o, pad), 'refused: %r' % e)
                break
            simdcheck.one(ctx, inst, o, 0, im, args, True)


def jobs(tier):
    names = list(mods.ALL)
    pp = 2 if tier == 'quick' else 16
    return ([('padding', [n]) for n in names] + [('pairs', [n, i, pp]) for n in names for i in range(pp)] +
            [('customs', [n]) for n in names] + [('empties', [n]) for n in names] +
            [('truncations', [n, 0, 1]) for n in names] + [('truncations', ['big', i, 8]) for i in range(8)] +
            [('damage', [n]) for n in names] + [('header', []), ('unknown', []), ('bigmod', []), ('counts', [])] +
            [('lengths', [k]) for k in SIZES] +
            [('prefixed', [i, 4]) for i in range(4)])
