"""C38: the host sees and changes the memories and globals of guests as they are."""
import itertools
import struct

import pywasm
from .. import asm, bfs, rt
from ..asm import I32, I64, F32, F64, V128, FUNCREF, EXTERNREF, op, lget, i32c, i64c, f32c, f64c, v128c, call

LEVEL = 'model_checking'
RULE = ('(a) every accessor of a memory x every address in reach of either end, of a page boundary, outside and negative x edge values, against '
        'the bytes of the standard and the loads and stores of a guest, values and addresses out of range being refused; (b) every sequence to '
        'the stated length of accesses by the host (through handles taken at any time, under any name), by three instances sharing and not sharing '
        'memories and a memory of the host, of growth by either, of host functions which write and grow while the guest runs, of '
        'traps, and of further instances, with everything compared through every handle and instance after each step; (c) the same for globals of every type. '
        'Non-trivial: histories in which both sides write.')
BOUNDS = {'quick': '10 accessors; histories of 3 steps from 35, of 4 for globals', 'thorough': 'histories of 4 steps, of 5 for globals'}
ASSUMPTIONS = []
PAGE = 65536

INT = {'i32': (4, True, 'i32_load', 'i32_store', I32), 'i64': (8, True, 'i64_load', 'i64_store', I64), 'u8': (1, False, 'i32_load8_u', 'i32_store8', I32),
       'u16': (2, False, 'i32_load16_u', 'i32_store16', I32), 'u32': (4, False, 'i32_load', 'i32_store', I32), 'u64': (8, False, 'i64_load', 'i64_store', I64)}


def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def values(n, signed):
    b = 8 * n
    s = {0, 1, 2, 127, 128, 255, 0x01020304050607f8, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << b) - 2} | {1 << i for i in range(b)}
    s = {x & ((1 << b) - 1) for x in s}
    if signed:
        s = {x - (1 << b) if x >> (b - 1) else x for x in s}
    return sorted(s)


def widths(ctx, kind):
    """Accessors against bytes and guest instructions."""
    for pages, limit in ((0, None), (1, 1), (2, None)):
        m = asm.Mod()
        m.mem(pages, limit, export='m')
        for k, (n, signed, ld, st, t) in INT.items():
            m.func([I32], [t], body=lget(0) + op(ld, 0, 0), export='get_' + k)
            m.func([I32, t], [], body=lget(0) + lget(1) + op(st, 0, 0), export='put_' + k)
        r, inst = rt.instantiate(m.build())
        mem = r.exported_memory(inst, 'm')
        top = pages * PAGE
        model = bytearray(top)
        addrs = sorted({a for c in (0, PAGE, top) for a in range(c - 10, c + 11)} | {-PAGE, -top, top - 30000, 1 << 31, (1 << 32) - 1, (1 << 32) - 8, 1 << 32, 1 << 40, -1 << 31})
        for i in range(top):
            model[i] = (i * 7 + (i >> 8) * 3 + 1) & 255
        if top:
            mem.put(0, bytearray(model))

        def whole(what):
            ctx.states += 1
            if bytes(mem.data) != bytes(model):
                i = next((i for i in range(min(len(mem.data), len(model))) if mem.data[i] != model[i]), -1)
                ctx.viol('accessor:%s' % kind, '%s: the memory of %d pages is other than it should be from address %d' % (what, pages, i))
                mem.data[:] = model
        if kind == 'bytes':
            for a, n in itertools.product(addrs, (0, 1, 2, 3, 8, 20, PAGE - 1, PAGE, PAGE + 1, 2 * PAGE, 2 * PAGE + 1, -1, -4)):
                ctx.ev()
                ok = a >= 0 and n >= 0 and a + n <= top
                if ok:
                    b = mem.get(a, n)
                    if bytes(b) != bytes(model[a:a + n]):
                        ctx.viol('get', 'get(%d, %d) of %d pages: %r' % (a, n, pages, bytes(b[:40])))
                    if n:
                        b[0] ^= 255
                        whole('changing what get(%d, %d) gave' % (a, n))
                elif not refused(mem.get, a, n):
                    ctx.viol('get', 'get(%d, %d) of %d pages was not refused' % (a, n, pages))
                if n < 0:
                    continue
                d = bytearray((a + i * 5 + 9) & 255 for i in range(n))
                if ok:
                    mem.put(a, d)
                    model[a:a + n] = d
                    for i in range(min(n, 3)):
                        d[i] ^= 255
                elif not refused(mem.put, a, d):
                    ctx.viol('put', 'put(%d, %d bytes) of %d pages was not refused' % (a, n, pages))
                ctx.outcome((ok, n > 0))
                whole('put(%d, %d bytes)' % (a, n))
            continue
        n, signed, ld, st, t = INT[kind]
        get, put = getattr(mem, 'get_' + kind), getattr(mem, 'put_' + kind)
        b = 8 * n
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
        for a in addrs:
            ok = 0 <= a and a + n <= top
            for v in values(n, signed) if ok else (0, 1, hi):
                ctx.ev()
                ctx.outcome((ok, v < 0))
                if not ok:
                    if not refused(put, a, v):
                        ctx.viol('accessor:%s' % kind, 'put_%s(%d, %d) of %d pages was not refused' % (kind, a, v, pages))
                    continue
                model[a:a + n] = v.to_bytes(n, 'little', signed=signed)
                put(a, v)
                if get(a) != v:
                    ctx.viol('accessor:%s' % kind, 'get_%s(%d) after put_%s(%d, %d): %r' % (kind, a, kind, a, v, get(a)))
                g = rt.call(r, inst, 'get_' + kind, [a])
                if not isinstance(g, list) or g[0] & ((1 << b) - 1) != v & ((1 << b) - 1):
                    ctx.viol('accessor:%s' % kind, 'the guest loads %r from %d after put_%s of %d' % (g, a, kind, v))
                if bytes(mem.data[a:a + n]) != bytes(model[a:a + n]):
                    ctx.viol('accessor:%s' % kind, 'put_%s(%d, %d) wrote %s' % (kind, a, v, bytes(mem.data[a:a + n]).hex()))
            whole('put_%s at %d' % (kind, a))
            if ok:
                for v in (lo - 1, hi + 1, lo - (1 << b), hi + (1 << b), 1 << 64, -1 << 64):
                    ctx.ev()
                    if not refused(put, a, v):
                        ctx.viol('accessor:%s' % kind, 'put_%s(%d, %d) was not refused' % (kind, a, v))
                whole('put_%s of values out of range' % kind)
                for v in values(n, signed):
                    w = v if not signed or t == I64 or v < 1 << 31 else v - (1 << 32)
                    w = w - (1 << 32) if t == I32 and w >> 31 == 1 else w - (1 << 64) if t == I64 and w >> 63 == 1 else w
                    g = rt.call(r, inst, 'put_' + kind, [a, w])
                    model[a:a + n] = v.to_bytes(n, 'little', signed=signed)
                    if g != [] or get(a) != v:
                        ctx.viol('accessor:%s' % kind, 'get_%s(%d) after the guest stored %d: %r' % (kind, a, v, get(a)))
                whole('guest stores at %d' % a)
            elif not refused(get, a):
                ctx.viol('accessor:%s' % kind, 'get_%s(%d) of %d pages was not refused' % (kind, a, pages))
        whole('at the end')
    ctx.sample('put_i64(%d, -2) against the bytes and a guest load' % (PAGE - 9))


PLACES = (16, PAGE - 2, PAGE + 40)      # within, across the first boundary, in the second page
GUESTS = {'a': 'A', 'b': 'A', 'c': 'C', 'd': 'H'}       # instance -> memory
MAX = {'A': 3, 'C': 2, 'H': None}


def memmod(imported, lo, hi):
    m = asm.Mod()
    hput = m.import_func('h', 'put', [I32], [])
    hgrow = m.import_func('h', 'grow', [], [])
    if imported:
        m.import_mem(imported[0], imported[1], lo, hi)
    else:
        m.mem(lo, hi, export='m')
        m.export('n', 'mem', 0)
    d = m.data_passive(b'\xd1\xd2\xd3\xd4\xd5')
    m.func([I32], [I64], body=lget(0) + op('i64_load', 0, 0), export='load')
    m.func([I32, I32], [], body=lget(0) + lget(1) + op('i32_store', 0, 0), export='store')
    m.func([I32], [], body=lget(0) + i32c(0xee) + i32c(5) + op('memory_fill', 0), export='fill')
    m.func([I32], [], body=lget(0) + i32c(14) + i32c(8) + op('memory_copy', 0, 0), export='copy')
    m.func([I32], [], body=lget(0) + i32c(0) + i32c(5) + op('memory_init', d, 0), export='init')
    m.func([], [I32], body=op('memory_size', 0), export='size')
    m.func([I32], [I32], body=lget(0) + op('memory_grow', 0), export='grow')
    m.func([I32], [], body=lget(0) + i32c(0x0badc0de) + op('i32_store', 0, 0) + op('unreachable'), export='trap')
    # a host function writes in the middle of a call: the guest sees it at once, and writes over part of it
    m.func([I32], [I64], body=lget(0) + call(hput) + lget(0) + op('i64_load', 0, 0) + lget(0) + i32c(0x77) + op('i32_store8', 0, 1), export='hput')
    # and grows the memory: the guest uses the new page at once
    m.func([], [I32], body=call(hgrow) + op('memory_size', 0) + i32c(PAGE) + op('i32_mul') + i32c(12) + op('i32_sub') + i32c(0x11223344) +
           op('i32_store', 0, 0) + op('memory_size', 0), export='hgrow')
    return rt.decode(m.build())


_mods = {}


def mods():
    if not _mods:
        _mods.update(a=memmod(None, 1, 3), b=memmod(('a', 'n'), 1, 3), c=memmod(None, 1, 2), d=memmod(('h', 'm'), 1, None))
    return _mods


def memops():
    o = []
    for x in 'ACH':
        o += [('hput', x, p) for p in PLACES]
        o += [('hgrow', x, 1), ('snap', x)]
    o += [('hgrow', 'A', 3), ('hgrow', 'A', 65536), ('hget', 'A')]
    for i in 'abcd':
        o += [('store', i, PLACES[1]), ('grow', i, 1), ('inhost', i)]
    o += [('store', 'b', PLACES[2]), ('fill', 'a', PLACES[1]), ('copy', 'b', PLACES[0]), ('init', 'a', PLACES[0]), ('trap', 'b', PLACES[0]),
          ('grow', 'b', 2), ('ingrow', 'a'), ('ingrow', 'd'), ('new', 'c'), ('new', 'a')]
    return o


def told(f):
    """What the package refuses here it should not."""
    def g(self, *a):
        try:
            return f(self, *a)
        except bfs.Mismatch:
            raise
        except Exception as e:
            raise bfs.Mismatch('%s: %s' % (type(e).__name__, e)) from e
    return g


class MemWorld:
    def __init__(self):
        d = mods()
        self.rt = r = pywasm.core.Runtime()
        ext = r.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, None)))
        r.imports['h'] = {'put': rt.host(r, [I32], [], self.put), 'grow': rt.host(r, [], [], self.grow), 'm': ext}
        self.inst = {}
        for i in 'abcd':
            self.inst[i] = r.instance(d[i])
            if i == 'a':
                r.imports['a'] = {e.name: e.data for e in self.inst['a'].exps}
        self.handle = {'A': r.exported_memory(self.inst['a'], 'm'), 'C': r.exported_memory(self.inst['c'], 'm'), 'H': r.machine.store.mems[ext.data]}
        self.more = []          # instances made later: handle and what it holds
        self.model = {x: bytearray(PAGE) for x in 'ACH'}
        self.snaps = []
        self.n = 0
        self.check('at the start')

    def put(self, m, args):
        b = bytearray(b'\x91\x92\x93\x94\x95\x96\x97\x98')
        self.handle[self.now].put(args[0], b)
        b[:] = bytes(8)
        return []

    def grow(self, m, args):
        self.handle[self.now].grow(1)
        return []

    def bad(self, what):
        raise bfs.Mismatch(what)

    def guest(self, i, f, *a):
        return rt.call(self.rt, self.inst[i], f, a)

    @told
    def step(self, o):
        k, x = o[:2]
        out = None
        if k in ('hput', 'hgrow', 'snap', 'hget'):
            h, m = self.handle[x], self.model[x]
            if k == 'hput':
                p = o[2]
                b = bytearray((0x40 + p + i) & 255 for i in range(5))
                if p + 5 <= len(m):
                    h.put(p, b)
                    m[p:p + 5] = b
                    b[:] = bytes(5)
                elif not refused(h.put, p, b):
                    self.bad('put beyond the end was not refused')
                else:
                    out = 'refused'
            elif k == 'hget':
                if bytes(h.get(0, len(m))) != bytes(m):
                    self.bad('get of the whole')
            elif k == 'hgrow':
                n = o[2]
                if len(m) // PAGE + n <= (65536 if MAX[x] is None else MAX[x]):
                    h.grow(n)
                    m.extend(bytes(n * PAGE))
                elif not refused(h.grow, n):
                    self.bad('growth beyond the limit was not refused')
                else:
                    out = 'refused'
            else:
                s = h.get(10, 40)
                self.snaps.append((s, bytes(s)))
                t = h.get(0, len(m))
                t[0:20] = b'\xaa' * 20
                t.clear()
        elif k == 'new':
            i = self.rt.instance(mods()[x])
            h = self.rt.exported_memory(i, 'n')
            if len(h.get(0, PAGE)) != PAGE or any(h.get(0, PAGE)):
                self.bad('the memory of a new instance is not empty')
            rt.call(self.rt, i, 'store', [20, 0x5a5a5a5a])
            h.put(24, bytearray(b'own'))
            e = bytearray(PAGE)
            e[20:24] = b'\x5a' * 4
            e[24:27] = b'own'
            self.more = self.more[-1:] + [(h, bytes(e))]
        else:
            y = GUESTS[x]
            m = self.model[y]
            self.now = y
            if k == 'grow':
                n = o[2]
                ok = len(m) // PAGE + n <= (65536 if MAX[y] is None else MAX[y])
                g = self.guest(x, 'grow', n)
                if g != [len(m) // PAGE if ok else -1]:
                    self.bad('memory.grow gave %r' % (g,))
                if ok:
                    m.extend(bytes(n * PAGE))
                out = 'ok' if ok else 'refused'
            elif k == 'ingrow':
                ok = len(m) // PAGE + 1 <= (65536 if MAX[y] is None else MAX[y])
                g = self.guest(x, 'hgrow')
                if ok:
                    m.extend(bytes(PAGE))
                    m[len(m) - 12:len(m) - 8] = b'\x44\x33\x22\x11'
                    if g != [len(m) // PAGE]:
                        self.bad('the guest saw %r after the host function grew its memory' % (g,))
                elif not isinstance(g, rt.Trap):
                    self.bad('growth beyond the limit by a host function: %r' % (g,))
                out = 'ok' if ok else 'refused'
            elif k == 'inhost':
                b = b'\x91\x92\x93\x94\x95\x96\x97\x98'
                g = self.guest(x, 'hput', 30)
                m[30:38] = b
                m[31] = 0x77
                if g != [int.from_bytes(b, 'little', signed=True)]:
                    self.bad('the guest loaded %r after the host function wrote' % (g,))
            else:
                p = o[2]
                n = {'store': 4, 'fill': 5, 'copy': 8, 'init': 5, 'trap': 4}[k]
                b = {'store': (0x01010101 * (ord(x) & 15) + 7).to_bytes(4, 'little'), 'fill': b'\xee' * 5, 'copy': bytes(m[14:22]), 'init': b'\xd1\xd2\xd3\xd4\xd5',
                     'trap': (0x0badc0de).to_bytes(4, 'little')}[k]
                a = [p] + ([0x01010101 * (ord(x) & 15) + 7] if k == 'store' else [])
                g = self.guest(x, k, *a)
                fits = p + n <= len(m)
                if fits:
                    m[p:p + n] = b
                if fits and k != 'trap':
                    if g != []:
                        self.bad('%s gave %r' % (k, g))
                elif not isinstance(g, rt.Trap):
                    self.bad('%s did not trap: %r' % (k, g))
                out = fits
        self.check(o)
        return (k, out)

    def check(self, o):
        r = self.rt
        hs = [('A', self.handle['A'], 'the handle from the start'), ('A', r.exported_memory(self.inst['a'], 'm'), 'a fresh handle'),
              ('A', r.exported_memory(self.inst['a'], 'n'), 'a handle by the other name'), ('C', self.handle['C'], 'the handle from the start'),
              ('C', r.exported_memory(self.inst['c'], 'n'), 'a fresh handle'), ('H', self.handle['H'], 'the handle of the host')]
        for x, h, what in hs:
            m = self.model[x]
            if h.size * PAGE != len(m) or bytes(h.get(0, len(m))) != bytes(m):
                d = [i for i, (p, q) in enumerate(zip(h.get(0, h.size * PAGE), m)) if p != q][:1]
                self.bad('memory %s through %s: %d pages for %d, other from %s' % (x, what, h.size, len(m) // PAGE, d))
            if not refused(h.get, len(m) - 3, 4) or h.get_u8(len(m) - 1) != m[-1]:
                self.bad('the end of memory %s through %s' % (x, what))
        for i, x in GUESTS.items():
            m = self.model[x]
            g = self.guest(i, 'size')
            if g != [len(m) // PAGE]:
                self.bad('memory.size of %s is %r' % (i, g))
            for p in (14, 30) + PLACES:
                g = self.guest(i, 'load', p)
                if p + 8 > len(m):
                    if not isinstance(g, rt.Trap):
                        self.bad('load beyond the end: %r' % (g,))
                elif g != [int.from_bytes(m[p:p + 8], 'little', signed=True)]:
                    self.bad('%s loads %r at %d' % (i, g, p))
        for s, b in self.snaps:
            if bytes(s) != b:
                self.bad('what get gave earlier has changed')
        for h, b in self.more:
            if h.size != 1 or bytes(h.get(0, PAGE)) != b:
                self.bad('the memory of an instance made later has changed')

    def key(self):
        return bfs.dump([[bytes(self.model[x]) for x in 'ACH'], [(bytes(h.data), h.size) for h in self.handle.values()],
                         len(self.more), sorted({b for _, b in self.snaps})])


def histories(ctx, i, of, depth):
    ops = memops()
    for o in ops[i::of]:
        bfs.search(ctx, MemWorld, ops, depth - 1, prefix=(o,), label='memory')
        if ctx.full:
            return
    if i == 0:
        ctx.sample('a: memory.grow 1 ; host: put across the old end through the old handle ; b: store ; all compared')
        ctx.note('%d steps' % len(ops))


# ---------------------------------------------------------------------------------------------------------- globals

GT = {I32: ('i32', 4), I64: ('i64', 8), F32: ('f32', 4), F64: ('f64', 8), V128: ('v128', 16)}
# bits of values: among them both zeros and NaNs of both kinds with payloads and signs
BITS = {I32: (0, 1, 0x80000000, 0xfffffffe, 0x7fffffff), I64: (0, 1, 1 << 63, (1 << 64) - 2, 0x123456789abcdef0),
        F32: (0, 0x80000000, 0x3fc00000, 0x7f800001, 0xffc01234), F64: (0, 1 << 63, 0x3ff8000000000000, 0x7ff0000000000001, 0xfff8000000001234),
        V128: (0, 1, (1 << 128) - 2, 0x7f8000010000000000000000ffc01234, 0x0f0e0d0c0b0a09080706050403020100)}


def gconst(t, bits):
    if t == I32:
        return i32c(bits - (1 << 32) if bits >> 31 else bits)
    if t == I64:
        return i64c(bits - (1 << 64) if bits >> 63 else bits)
    if t == F32:
        return f32c(bits)
    if t == F64:
        return f64c(bits)
    return v128c(bytearray(bits.to_bytes(16, 'little')))


def toval(t, bits):
    V = pywasm.core.ValInst
    if t == I32:
        return V.from_u32(bits)
    if t == I64:
        return V.from_u64(bits)
    if t == F32:
        return V.from_f32_u32(bits)
    if t == F64:
        return V.from_f64_u64(bits)
    return V.from_v128(bytearray(bits.to_bytes(16, 'little')))


def tobits(t, v):
    if v.type.data != t:
        return repr(v)
    return int.from_bytes(bytes(v.into_v128())[:GT[t][1]] if t == V128 else
                          (v.into_u64() if GT[t][1] == 8 else v.into_u32()).to_bytes(GT[t][1], 'little'), 'little')


def gmod(t, imported):
    """Stores the bits of the global to its memory, so that nothing is lost on the way out; and sets it."""
    m = asm.Mod()
    poke = m.import_func('h', 'poke', [], [])
    if imported:
        g = m.import_global(imported, 'g', t, 1)
        k = m.import_global(imported, 'k', t, 0)
    else:
        g = m.glob(t, 1, gconst(t, BITS[t][4]), export='g')
        m.export('also', 'global', g)
        k = m.glob(t, 0, gconst(t, BITS[t][3]), export='k')
    m.mem(1, 1, export='m')
    st = GT[t][0] + '_store'
    m.func([], [], body=i32c(0) + op('global_get', g) + op(st, 0, 0) + i32c(16) + op('global_get', k) + op(st, 0, 0), export='show')
    m.func([t], [], body=lget(0) + op('global_set', g), export='keep')
    for i, b in enumerate(BITS[t]):
        m.func([], [], body=gconst(t, b) + op('global_set', g), export='set%d' % i)
    # sets, then calls a host function which assigns; the guest shows what it then holds
    m.func([], [], body=gconst(t, BITS[t][1]) + op('global_set', g) + call(poke) + i32c(32) + op('global_get', g) + op(st, 0, 0), export='poke')
    m.func([], [], body=gconst(t, BITS[t][2]) + op('global_set', g) + op('unreachable'), export='trap')
    return rt.decode(m.build())


class GlobWorld:
    def __init__(self, t, mods):
        self.t, self.mods = t, mods
        self.rt = r = pywasm.core.Runtime()
        self.mine = r.allocate_global(pywasm.core.GlobalType(rt.VT[t](), 1), toval(t, BITS[t][0]))
        fixed = r.allocate_global(pywasm.core.GlobalType(rt.VT[t](), 0), toval(t, BITS[t][3]))
        r.imports['h'] = {'poke': rt.host(r, [], [], self.poke), 'g': self.mine, 'k': fixed}
        self.inst = {'a': r.instance(mods[0])}
        r.imports['a'] = {e.name: e.data for e in self.inst['a'].exps}
        self.inst['b'] = r.instance(mods[1])
        self.inst['c'] = r.instance(mods[0])
        self.inst['d'] = r.instance(mods[2])
        self.of = {'a': 'A', 'b': 'A', 'c': 'C', 'd': 'H'}
        self.handle = {'A': r.exported_global(self.inst['a'], 'g'), 'C': r.exported_global(self.inst['c'], 'g'), 'H': r.machine.store.glob[self.mine.data]}
        self.model = {'A': BITS[t][4], 'C': BITS[t][4], 'H': BITS[t][0]}
        self.held = []
        self.check()

    def bad(self, what):
        raise bfs.Mismatch(what)

    def poke(self, m, args):
        h = self.handle[self.now]
        self.seen = tobits(self.t, h.data)
        h.data = toval(self.t, BITS[self.t][3])
        return []

    @told
    def step(self, o):
        k, x = o[:2]
        t = self.t
        if k == 'assign':
            self.handle[x].data = toval(t, BITS[t][o[2]])
            self.model[x] = BITS[t][o[2]]
        elif k == 'take':
            self.held = [(self.handle[x].data, self.model[x])]
        elif k == 'carry':      # the value of one global given to another: they remain apart
            self.handle[x].data = self.handle[o[2]].data
            self.model[x] = self.model[o[2]]
        else:
            y = self.of[x]
            self.now = y
            g = rt.call(self.rt, self.inst[x], k + str(o[2]) if k == 'set' else k, [])
            if isinstance(g, rt.Trap) != (k == 'trap'):
                self.bad('%s: %r' % (k, g))
            self.model[y] = BITS[t][{'set': o[2] if len(o) > 2 else 0, 'poke': 3, 'trap': 2}[k]]
            if k == 'poke':
                if self.seen != BITS[t][1]:
                    self.bad('the host function saw %r' % self.seen)
                n = GT[t][1]
                v = self.rt.exported_memory(self.inst[x], 'm').get(32, n)
                if int.from_bytes(v, 'little') != BITS[t][3]:
                    self.bad('the guest held %s after the host function assigned' % bytes(v).hex())
        self.check()
        return k

    def check(self):
        t, n = self.t, GT[self.t][1]
        r = self.rt
        for x, h in [('A', self.handle['A']), ('A', r.exported_global(self.inst['a'], 'g')), ('A', r.exported_global(self.inst['a'], 'also')),
                     ('C', self.handle['C']), ('C', r.exported_global(self.inst['c'], 'also')), ('H', self.handle['H'])]:
            if tobits(t, h.data) != self.model[x]:
                self.bad('global %s is %r for the host' % (x, h.data))
            if h.mut != 1:
                self.bad('global %s is not mutable' % x)
        for i in 'ac':
            h = r.exported_global(self.inst[i], 'k')
            if tobits(t, h.data) != BITS[t][3] or h.mut != 0:
                self.bad('constant of %s is %r' % (i, h.data))
        for i, x in self.of.items():
            if rt.call(r, self.inst[i], 'show', []) != []:
                self.bad('show failed')
            m = r.exported_memory(self.inst[i], 'm')
            if int.from_bytes(m.get(0, n), 'little') != self.model[x]:
                self.bad('global %s is %s for guest %s' % (x, bytes(m.get(0, n)).hex(), i))
            if int.from_bytes(m.get(16, n), 'little') != BITS[t][3]:
                self.bad('constant is %s for guest %s' % (bytes(m.get(16, n)).hex(), i))
        for v, b in self.held:
            if tobits(t, v) != b:
                self.bad('a value the host took earlier has changed to %r' % v)

    def key(self):
        return bfs.dump([self.model, [(h.data.data, h.data.type.data) for h in self.handle.values()], [b for _, b in self.held],
                         len({id(h.data) for h in self.handle.values()})])


def globals_(ctx, t, depth):
    mods = [gmod(t, None), gmod(t, 'a'), gmod(t, 'h')]
    ops = [('assign', x, i) for x in 'ACH' for i in range(5)] + [('set', x, i) for x in 'abcd' for i in (0, 3)] + [(k, x) for k in ('poke', 'trap') for x in 'abcd']
    ops += [('take', x) for x in 'ACH'] + [('carry', x, y) for x in 'ACH' for y in 'ACH' if x != y]
    bfs.search(ctx, lambda: GlobWorld(t, mods), ops, depth, label='global:%s' % GT[t][0])
    ctx.sample('%s: host assigns the bits %x, guest shows them' % (GT[t][0], BITS[t][3]))


def references(ctx):
    """Globals which hold references: what the host takes from one and gives to another remains the same function or object."""
    for t, kind in ((FUNCREF, 'func'), (EXTERNREF, 'extern')):
        m = asm.Mod()
        f = [m.func([], [I32], body=i32c(40 + i), export='f%d' % i) for i in range(3)]
        m.elem_declare(f)
        ft = m.type([], [I32])
        init = op('ref_null', t) if t == EXTERNREF else op('ref_func', f[0])
        gs = [m.glob(t, 1, init, export='g%d' % i) for i in range(2)]
        tab = m.table(t, 1, 1)
        for i, g in enumerate(gs):
            m.func([], [I32], body=op('global_get', g) + op('ref_is_null'), export='null%d' % i)
            m.func([], [t], body=op('global_get', g), export='get%d' % i)
            m.func([t], [], body=lget(0) + op('global_set', g), export='set%d' % i)
            m.func([], [], body=op('ref_null', t) + op('global_set', g), export='clear%d' % i)
            if t == FUNCREF:
                m.func([], [I32], body=i32c(0) + op('global_get', g) + op('table_set', tab) + i32c(0) + op('call_indirect', ft, tab), export='call%d' % i)
                for j in range(3):
                    m.func([], [], body=op('ref_func', f[j]) + op('global_set', g), export='ref%d_%d' % (i, j))
        b = m.build()
        what = [None, 0, 1, 2]
        for seq in itertools.product([(k, i, j) for i in (0, 1) for k, j in [('guest', w) for w in what] + [('host', w) for w in what] + [('copy', 0)]], repeat=2):
            ctx.ev()
            ctx.traces += 1
            r, inst = rt.instantiate(b)
            h = [r.exported_global(inst, 'g%d' % i) for i in (0, 1)]
            V = pywasm.core.ValInst
            model = [None, None] if t == EXTERNREF else [0, 0]

            def refval(w):
                if w is None:
                    return V.from_ref(rt.VT[t](), None)
                if t == EXTERNREF:
                    return V.from_ref(rt.VT[t](), w)
                rt.call(r, inst, 'ref1_%d' % w, [])
                v, h[1].data = h[1].data, keep[1]
                return v
            for k, i, w in seq:
                keep = [x.data for x in h]
                ctx.transitions += 1
                if k == 'copy':
                    h[i].data = h[1 - i].data
                    model[i] = model[1 - i]
                elif k == 'host':
                    h[i].data = refval(w)
                    model[i] = w
                else:
                    if w is None:
                        g = rt.call(r, inst, 'clear%d' % i, [])
                    elif t == FUNCREF:
                        g = rt.call(r, inst, 'ref%d_%d' % (i, w), [])
                    else:
                        g = rt.call(r, inst, 'set%d' % i, [w])
                    if g != []:
                        ctx.viol('reference:%s' % kind, '%r: %r' % (seq, g))
                    model[i] = w
                for j in (0, 1):
                    ctx.states += 1
                    n = rt.call(r, inst, 'null%d' % j, [])
                    if n != [int(model[j] is None)]:
                        ctx.viol('reference:%s' % kind, '%r: null? %r' % (seq, n))
                    if t == FUNCREF:
                        g = rt.call(r, inst, 'call%d' % j, [])
                        if (g != [40 + model[j]]) if model[j] is not None else not isinstance(g, rt.Trap):
                            ctx.viol('reference:func', '%r: calling gave %r' % (seq, g))
                    else:
                        g = rt.call(r, inst, 'get%d' % j, [])
                        if g != [model[j]]:
                            ctx.viol('reference:extern', '%r: got %r' % (seq, g))
                        if h[j].data.into_all() != model[j]:
                            ctx.viol('reference:extern', '%r: the host sees %r' % (seq, h[j].data))
                ctx.outcome((k, w is None))
    ctx.sample('the host gives the function reference of one global to another, the guest calls it')


def jobs(tier):
    of = 32
    q = tier == 'quick'
    return ([('widths', (k,)) for k in list(INT) + ['bytes']] + [('globals_', (t, 4 if q else 5)) for t in GT] + [('references', ())] +
            [('histories', (i, of, 3 if q else 4)) for i in range(of)])
