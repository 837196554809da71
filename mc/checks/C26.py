"""C26: arguments and environment."""
import itertools

from .. import rt, wasi
from ..wasi import W

LEVEL = 'exploration'
RULE = ('every list of up to three strings over a ten-string alphabet as arguments, every environment of up to three variables '
        'over five names and six values, each read by the guest into seven placements of the two regions (apart, adjacent '
        'both ways, at the start and at the very end of memory), the whole memory compared. Non-trivial: lists that are not '
        'empty; also lists of up to 4000 strings, strings of up to 4000 bytes, and every placement at seven addresses of a 64 MiB memory.')
ASSUMPTIONS = ['strings without zero characters', 'the order of environment variables is free, that of arguments is not']
STR = ['', 'a', 'ab c', 'é', '€x', '😀', 'k=v', '\n"\\', 'z' * 130, 'ü' * 130]
NAMES = ['A', 'b', 'é', 'LONG' * 20, 'x y']
VALS = ['', '1', 'ß€', 'a=b', ' ', '😀' * 5]
TOP = 65536


def one(ctx, what, strings, w, ordered):
    n = len(strings)
    blob = [s.encode() + b'\0' for s in strings]
    size = sum(map(len, blob))
    key = '%s:%r' % (what, strings)
    base = 16
    if n:
        ctx.states += 1
    w.mem[:] = b'\xee' * TOP
    e = w(what + '_sizes_get', 8, 12)
    ctx.ev(n > 0)
    if e != 0 or (w.u32(8), w.u32(12)) != (n, size):
        ctx.viol(key, 'sizes: %s, count %d, bytes %d; expected %d, %d' % (wasi.err(e), w.u32(8), w.u32(12), n, size))
        return
    if w.mem[:8] + w.mem[16:] != b'\xee' * (TOP - 8):
        ctx.viol(key, 'sizes: wrote outside the two results')
    for ptr, buf in ((1024, max(4096, 1024 + 4 * n)), (0, 4 * n), (size, 0), (4096, 4096 + 4 * n), (TOP - 4 * n, 16), (16, TOP - size),
                     (TOP - 4 * n - size, TOP - size)):
        w.mem[:] = b'\xee' * TOP
        e = w(what + '_get', ptr, buf)
        ctx.ev(n > 0)
        if e != 0:
            ctx.viol(key, 'get(%d, %d): %s' % (ptr, buf, wasi.err(e)))
            return
        if len(w.mem) != TOP:
            ctx.viol(key, 'get(%d, %d) changed the size of memory' % (ptr, buf))
            return
        got = bytes(w.mem[buf:buf + size])
        parts = [p + b'\0' for p in got.split(b'\0')[:-1]]
        if (parts != blob) if ordered else (sorted(parts) != sorted(blob)):
            ctx.viol(key, 'get(%d, %d): strings %r, expected %r' % (ptr, buf, got, b''.join(blob)))
            return
        want = bytearray(b'\xee' * TOP)
        want[buf:buf + size] = got
        at = buf
        for i, p in enumerate(parts):
            want[ptr + 4 * i:ptr + 4 * i + 4] = at.to_bytes(4, 'little')
            at += len(p)
        if w.mem != want:
            bad = [i for i in range(TOP) if w.mem[i] != want[i]][:6]
            ctx.viol(key, 'get(%d, %d): memory differs at %r' % (ptr, buf, bad))
            return
    ctx.outcome('%s:%d:%d' % (what, n, size))


def args(ctx, part, parts):
    n = 0
    for k in range(4):
        for l in itertools.product(STR, repeat=k):
            n += 1
            if n % parts == part:
                one(ctx, 'args', list(l), W(args=l), True)
                ctx.sample({'args': l})


def envs(ctx, part, parts):
    n = 0
    for k in range(4):
        for names in itertools.combinations(NAMES, k):
            for vals in itertools.product(VALS, repeat=k):
                n += 1
                if n % parts == part:
                    d = dict(zip(names, vals))
                    one(ctx, 'environ', ['%s=%s' % e for e in d.items()], W(envs=d), False)
                    ctx.sample({'envs': d})


def high(ctx):
    """Arrays and strings far up in a big memory, apart and in either order."""
    for what, strings, w in (('args', ['a', '', 'ééé', 'd' * 300], W(args=['a', '', 'ééé', 'd' * 300])),
                             ('environ', ['K=v', 'L=', 'M=' + 'x' * 300], W(envs={'K': 'v', 'L': '', 'M': 'x' * 300}))):
        w.pages(1024)
        blob = b''.join(s.encode() + b'\0' for s in strings)
        n = len(strings)
        for ptr, buf in itertools.permutations([100, 65536 - 5, (1 << 20) + 1, (1 << 24) - 7, (1 << 24) + 1000, (1 << 25) + 3, 1024 * 65536 - 400], 2):
            w.mem[ptr:ptr + 4 * n] = b'\xee' * 4 * n
            w.mem[buf:buf + len(blob)] = b'\xee' * len(blob)
            e = w(what + '_get', ptr, buf)
            ctx.ev()
            ctx.states += 1
            at = [buf + len(b''.join(s.encode() + b'\0' for s in strings[:i])) for i in range(n)]
            if e != 0 or [w.u32(ptr + 4 * i) for i in range(n)] != at or w.mem[buf:buf + len(blob)] != blob:
                ctx.viol('%s at %#x, %#x' % (what, ptr, buf), '%s, pointers %r instead of %r, %s' % (
                    wasi.err(e), [w.u32(ptr + 4 * i) for i in range(n)], at, w.mem[buf:buf + len(blob)] == blob))
                return


def many(ctx, n):
    """n arguments, n variables; strings of n bytes."""
    room = 40000 // max(n, 1)
    few = [('%d' % i) + 'é-' * (i % max(1, min(9, (room - 5) // 3))) for i in range(n)]
    one(ctx, 'args', few, W(args=few), True)
    one(ctx, 'args', [''] * n, W(args=[''] * n), True)
    d = {'K%d' % i: x for i, x in enumerate(few)}
    one(ctx, 'environ', ['%s=%s' % e for e in d.items()], W(envs=d), False)
    for l in (['a' * n], ['', 'x' * n, 'y'], ['é' * (n // 2), 'b' * n]):
        one(ctx, 'args', l, W(args=l), True)
    d = {'A': 'v' * n, 'B' * (n + 1): 'w', 'C': ''}
    one(ctx, 'environ', ['%s=%s' % e for e in d.items()], W(envs=d), False)


def jobs(tier):
    return [('high', ())] + [('many', (n,)) for n in (4, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 4000)] + \
        [(f, (p, 8)) for f in ('args', 'envs') for p in range(8)]
