"""C13: the LEB128 codec."""
import io

import pywasm

from .. import asm, rt
from ..asm import I32, I64

LEVEL = 'exploration'
RULE = ('every integer within a window around every 7-bit boundary (and around the 32 and 64 bit limits) is encoded, '
        'compared with an independent encoder, decoded from its bytes and from a stream that goes on, with every legal '
        'padding; every strict prefix must be refused. All ordered pairs and triples of a set of encodings are decoded '
        'from one stream. Negative integers must be refused as unsigned. The same values are read back as constants of a decoded module. Non-trivial: longer than one byte.')
ASSUMPTIONS = ['values further than the window from a 7-bit boundary are not executed (the codec only branches on 7-bit groups)',
               'encodings longer than the format allows for 64 bits are outside the property']
BOUNDS = {'quick': 'window 2^12 around every boundary, one byte and two byte values completely',
          'thorough': 'window 2^17 around every boundary, every value of up to 22 bits'}
TAILS = (b'', b'\x00', b'\x7f', b'\x80\x01', b'\xff\xff\xff')


class Stream(io.BytesIO):
    """A non-seekable, one-way reader: looking ahead would show."""

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')


def one(ctx, signed, v, paddings, prefixes):
    c = pywasm.leb128.i if signed else pywasm.leb128.u
    ref = asm.s if signed else asm.u
    k = '%s(%d)' % ('signed' if signed else 'unsigned', v)
    want = ref(v)
    got = bytes(c.encode(v))
    ctx.ev(len(want) > 1)
    ctx.states += 1
    if got != want:
        ctx.viol(k, 'encoded as %s, shortest encoding is %s' % (got.hex(), want.hex()), v)
        return
    maxlen = 10
    for pad in range(0, maxlen - len(want) + 1) if paddings else (0,):
        e = ref(v, pad)
        ctx.transitions += 1
        d = c.decode(bytearray(e))
        if d != v:
            ctx.viol(k, '%s decoded as %r' % (e.hex(), d), [v, e.hex()])
        for tail in TAILS if paddings else TAILS[-1:]:
            r = Stream(e + tail)
            d = c.decode_reader(r)
            if tuple(d) != (v, len(e)) or r.tell() != len(e):
                ctx.viol(k, '%s followed by %s read as %r, position %d' % (e.hex(), tail.hex(), d, r.tell()), [v, e.hex()])
        if prefixes:
            for n in range(len(e)):
                try:
                    d = c.decode_reader(Stream(e[:n]))
                except Exception:
                    ctx.outcome('prefix refused')
                    continue
                ctx.viol(k, 'the incomplete encoding %s was read as %r' % (e[:n].hex(), d), [v, e[:n].hex()])
    ctx.outcome('%s, %d bytes' % ('signed' if signed else 'unsigned', len(want)))


def window(ctx, signed, centre, lo, hi):
    for v in range(centre + lo, centre + hi):
        if not signed and not 0 <= v < 1 << 64 or signed and not -(1 << 63) <= v < 1 << 63:
            continue
        d = abs(v - centre)
        one(ctx, signed, v, d < 600, d < 40)
        if ctx.full:
            return
    ctx.sample({'signed': signed, 'around': centre, 'window': [lo, hi]})


def centres():
    out = []
    for k in sorted({7 * i for i in range(1, 10)} | {7 * i - 1 for i in range(1, 10)} | {31, 32, 63, 64, 0}):
        out.append((0, 1 << k))
        if k < 64:
            out.append((1, 1 << k))
            out.append((1, -(1 << k)))
    return out


def seqs(ctx, signed):
    """Several integers in one stream, each with every padding."""
    c = pywasm.leb128.i if signed else pywasm.leb128.u
    ref = asm.s if signed else asm.u
    vals = [0, 1, 63, 64, 127, 128, 16383, 16384, (1 << 32) - 1, (1 << 63) - 1]
    if signed:
        vals += [-1, -64, -65, -128, -129, -(1 << 31), -(1 << 63)]
    encs = [(v, ref(v, p)) for v in vals for p in (0, 1, 3) if len(ref(v, p)) <= 10]
    import itertools
    n = 2 if ctx.tier == 'quick' else 3
    for t in itertools.chain(itertools.product(encs, repeat=2), itertools.product(encs[::3], repeat=n + 1)):
        r = Stream(b''.join(e for v, e in t))
        try:
            got = [c.decode_reader(r)[0] for _ in t]
        except Exception as e:
            got = repr(e)
        ctx.ev()
        ctx.transitions += len(t)
        if got != [v for v, e in t]:
            ctx.viol('seq:%r' % (t,), 'stream %s read as %r' % ([e.hex() for v, e in t], got), [v for v, e in t])
            if ctx.full:
                return


def consts(ctx, bits, part, parts):
    """The same values as immediates of a decoded module."""
    vals = set()
    for k in range(bits):
        for d in range(-40, 41):
            for sg in (1, -1):
                v = sg * (1 << k) + d
                if -(1 << bits - 1) <= v < 1 << bits - 1:
                    vals.add(v)
    vals = sorted(vals)[part::parts]
    t, opc, maxlen = (I32, 'i32_const', 5) if bits == 32 else (I64, 'i64_const', 10)
    for i in range(0, len(vals), 40):
        m = asm.Mod()
        names = []
        for v in vals[i:i + 40]:
            for pad in range(maxlen - len(asm.s(v)) + 1):
                n = '%d:%d' % (v, pad)
                m.func([], [t], body=asm.op(opc, asm.s(v, pad)), export=n)
                names.append((v, n))
        r, inst = rt.instantiate(m.build())
        for v, n in names:
            got = rt.call(r, inst, n, [])
            ctx.ev()
            ctx.traces += 1
            if got != [v]:
                ctx.viol('const i%d %s' % (bits, n), 'i%d.const %s gives %r' % (bits, n, got), [v])
        if ctx.full:
            return


def negatives(ctx):
    """A negative integer has no unsigned encoding."""
    for k in range(65):
        for d in (-2, -1, 0):
            v = -(1 << k) + d
            if v >= 0:
                continue
            ctx.ev()
            ctx.states += 1
            rt.arm(2)
            try:
                got = bytes(pywasm.leb128.u.encode(v)).hex()
            except Exception:
                got = None
            except rt.Hang:
                got = 'endless'
            finally:
                rt.disarm()
            ctx.outcome('negative refused' if got is None else 'negative accepted')
            if got is not None:
                ctx.viol('unsigned(%d)' % v, 'encoded as %s' % got, v)
                if ctx.full or got == 'endless':
                    return


def jobs(tier):
    w = 1 << (12 if tier == 'quick' else 17)
    out = [('consts', [64, i, 4]) for i in range(4)] + [('consts', [32, i, 2]) for i in range(2)]
    step = 1 << 15
    for sg, c in centres():
        for lo in range(-w, w, step):
            out.append(('window', [sg, c, lo, min(lo + step, w)]))
    top = 1 << (14 if tier == 'quick' else 22)
    for lo in range(0, top, step):
        out.append(('window', [0, 0, lo, lo + step]))
        out.append(('window', [1, 0, lo - top // 2, min(lo + step, top) - top // 2]))
    return out + [('negatives', []), ('seqs', [0]), ('seqs', [1])]
