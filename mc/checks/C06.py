"""C06: linear memory."""
from .. import asm, rt, bfs
from ..asm import op, lget, i32c, I32, I64, V128, F32, F64
from ..bfs import Mismatch

LEVEL = 'model_checking'
RULE = ('(a) every load/store instruction (scalar and vector, every lane) at every combination of boundary addresses and '
        'static offsets, full memory compared afterwards; (b) breadth-first search over grow/size/fill/copy/init/drop/'
        'store histories on memories with every limit shape, full memory, size and bounds compared after every step; (c) bulk operations of all lengths up to 200000 between all ends of a larger memory, and a memory of '
        '1024 pages. Non-trivial: every executed access (each has a distinct op, address, offset or history).')
ASSUMPTIONS = ['memories up to 3 pages; growth beyond 8 pages may succeed or fail (the implementation caps at 64 MiB)',
               'reference: a plain bytearray model',
               'the only merged histories are those with equal model state and equal structural dump of the store']
BOUNDS = {'quick': 'BFS depth 3 from 7 limit shapes', 'thorough': 'BFS depth 4'}
PAGE = 65536


def pattern(n):
    return bytes((i * 167 + (i >> 8) * 29 + 0x5b) & 0xff for i in range(n))


SC = {'i32_load': (4, 'u', I32), 'i64_load': (8, 'u', I64), 'f32_load': (4, 'u', F32), 'f64_load': (8, 'u', F64),
      'i32_load8_s': (1, 's', I32), 'i32_load8_u': (1, 'u', I32), 'i32_load16_s': (2, 's', I32),
      'i32_load16_u': (2, 'u', I32), 'i64_load8_s': (1, 's', I64), 'i64_load8_u': (1, 'u', I64),
      'i64_load16_s': (2, 's', I64), 'i64_load16_u': (2, 'u', I64), 'i64_load32_s': (4, 's', I64),
      'i64_load32_u': (4, 'u', I64)}
ST = {'i32_store': (4, I32), 'i64_store': (8, I64), 'f32_store': (4, F32), 'f64_store': (8, F64), 'i32_store8': (1, I32),
      'i32_store16': (2, I32), 'i64_store8': (1, I64), 'i64_store16': (2, I64), 'i64_store32': (4, I64),
      'v128_store': (16, V128)}


def ext(b, w, n, signed):
    return b''.join(int.from_bytes(b[i:i + w], 'little', signed=signed).to_bytes(n, 'little', signed=signed)
                    for i in range(0, len(b), w))


VL = {'v128_load': (16, lambda b: b)}
for _w, _n, _t in ((1, 2, '8x8'), (2, 4, '16x4'), (4, 8, '32x2')):
    VL['v128_load%s_s' % _t] = (8, lambda b, w=_w, n=_n: ext(b, w, n, True))
    VL['v128_load%s_u' % _t] = (8, lambda b, w=_w, n=_n: ext(b, w, n, False))
for _w in (1, 2, 4, 8):
    VL['v128_load%d_splat' % (_w * 8)] = (_w, lambda b, w=_w: b * (16 // w))
for _w in (4, 8):
    VL['v128_load%d_zero' % (_w * 8)] = (_w, lambda b: b + bytes(16 - len(b)))
LANE = [('v128_%s%d_lane' % (k, w * 8), w) for k in ('load', 'store') for w in (1, 2, 4, 8)]

OFFS = [0, 1, 3, 8, 65519, 65520, 65528, 65532, 65535, 65536, 1 << 31, 0xfffffff0, 0xffffffff]
ADDRS = sorted({0, 1, 2, 3, 5, 8, 15, 16, 17, 255, 256, 257, 32767, 32768} | {PAGE + d for d in range(-18, 3)} |
               {(1 << 31) + d for d in (-1, 0, 1)} | {(1 << 32) - k for k in (1, 2, 4, 8, 15, 16, 17, 65535, 65536)})


def reint(t):
    return {F32: (I32, op('f32_reinterpret_i32'), op('i32_reinterpret_f32')),
            F64: (I64, op('f64_reinterpret_i64'), op('i64_reinterpret_f64'))}.get(t, (t, b'', b''))


def single(ctx, o, kind):
    """One instruction, every offset and every alignment hint."""
    size = {'sc': lambda: SC[o][0], 'st': lambda: ST[o][0], 'vl': lambda: VL[o][0], 'la': lambda: dict(LANE)[o]}[kind]()
    nat = size.bit_length() - 1
    m = asm.Mod()
    m.mem(1, None, export='mem')
    cases = []
    lanes = range(16 // size) if kind == 'la' else [None]
    for ln in lanes:
        for k, off in enumerate(OFFS if ln in (None, 0) else [0, 3, 65528]):
            al = k % (nat + 1)
            im = asm.u(al) + asm.u(off) + (bytes([ln]) if ln is not None else b'')
            nm = 'f%d' % len(cases)
            if kind == 'sc':
                t, into, outof = reint(SC[o][2])
                m.func([I32], [t, I32], body=lget(0) + asm.OPS[o] + im + outof + lget(0), export=nm)
            elif kind == 'st':
                t, into, outof = reint(ST[o][1])
                m.func([I32, t], [I32, t], body=lget(0) + lget(1) + into + asm.OPS[o] + im + lget(0) + lget(1), export=nm)
            elif kind == 'vl':
                m.func([I32], [V128, I32], body=lget(0) + asm.OPS[o] + im + lget(0), export=nm)
            else:
                res = [V128] if 'load' in o else []
                m.func([I32, V128], res + [V128], body=lget(0) + lget(1) + asm.OPS[o] + im + lget(1), export=nm)
            cases.append((nm, off, al, ln))
    pat = pattern(PAGE)
    m.data_active(i32c(0), pat)
    b = m.build()
    inst = rt.Inst(b)
    mem = bytearray(pat)
    V = bytes.fromhex('8091a2b3c4d5e6f708192a3b4c5d6e7f')
    val = 0x8899aabbccddeeff
    for nm, off, al, ln in cases:
        for a in ADDRS:
            ea = a + off
            ok = ea + size <= PAGE
            # restore known contents around any store
            args = [asm_sx(a, 32)]
            exp = []
            if kind == 'sc':
                if ok:
                    raw = mem[ea:ea + size]
                    v = int.from_bytes(raw, 'little', signed=SC[o][1] == 's')
                    n = 32 if SC[o][2] in (I32, F32) else 64
                    exp = [asm_sx(v, n), args[0]]
            elif kind == 'st':
                t = ST[o][1]
                n = {I32: 32, F32: 32, I64: 64, F64: 64}.get(t)
                args.append(bytearray(V) if t == V128 else asm_sx(val, n))
                if ok:
                    raw = V if t == V128 else (val & ((1 << 64) - 1)).to_bytes(8, 'little')
                    mem[ea:ea + size] = raw[:size]
                    exp = list(args)
            elif kind == 'vl':
                if ok:
                    exp = [VL[o][1](bytes(mem[ea:ea + size])), args[0]]
            else:
                args.append(bytearray(V))
                if ok:
                    if 'load' in o:
                        r = bytearray(V)
                        r[ln * size:(ln + 1) * size] = mem[ea:ea + size]
                        exp = [bytes(r), V]
                    else:
                        mem[ea:ea + size] = V[ln * size:(ln + 1) * size]
                        exp = [V]
            store = kind == 'st' or (kind == 'la' and 'store' in o)
            if store and not ok:
                # keep the same runtime, so that the memory after the trap can be inspected
                got = rt.call(inst.rt, inst.inst, nm, args)
            else:
                got = inst.call(nm, args)
            ctx.ev()
            ctx.transitions += 1
            ctx.outcome('%s:%s' % (o, 'ok' if ok else 'trap'))
            good = (got == exp) if ok else isinstance(got, rt.Trap)
            if good and store:
                now = inst.rt.exported_memory(inst.inst, 'mem').data
                if bytes(now) != bytes(mem):
                    good = False
                    got = 'memory differs at %s' % [i for i in range(min(len(now), PAGE)) if now[i] != mem[i]][:8]
                    exp = 'memory as in the model'
            if store and ok:
                # next address starts from the pattern again
                mem[ea:ea + size] = pat[ea:ea + size]
                inst.rt.exported_memory(inst.inst, 'mem').put(ea, bytearray(pat[ea:ea + size]))
            if store and not ok:
                inst.fresh()
            if not good:
                ctx.viol('%s align=%d offset=%d lane=%s addr=%d' % (o, al, off, ln, a),
                         'got %r, expected %r' % (got, exp if ok else 'trap'), {'op': o, 'offset': off, 'addr': a})
                if ctx.full:
                    return
                inst.fresh()
                mem[:] = pat
    ctx.states += len(cases) * len(ADDRS)
    ctx.traces += len(cases) * len(ADDRS)


def asm_sx(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


# ---------------------------------------------------------------------------------------------- (b) histories
SEG = b'\xe1\xe2\xe3\xe4\xe5'


def hmodule(lo, hi):
    m = asm.Mod()
    m.mem(lo, hi, export='mem')
    m.data_passive(SEG)
    m.data_active(i32c(0), b'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if lo else b'')
    m.data_passive(b'')
    m.func([], [I32], body=op('memory_size', 0), export='size')
    m.func([I32], [I32], body=lget(0) + op('memory_grow', 0), export='grow')
    three = lget(0) + lget(1) + lget(2)
    m.func([I32] * 3, [], body=three + op('memory_fill', 0), export='fill')
    m.func([I32] * 3, [], body=three + op('memory_copy', 0, 0), export='copy')
    for i in range(3):
        m.func([I32] * 3, [], body=three + op('memory_init', i, 0), export='init%d' % i)
        m.func([], [], body=op('data_drop', i), export='drop%d' % i)
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='ld')
    m.func([I32, I32], [], body=lget(0) + lget(1) + op('i32_store8', 0, 0), export='st')
    m.func([I32, I64], [], body=lget(0) + lget(1) + op('i64_store', 0, 0), export='st64')
    m.func([I32, I64], [I64], body=lget(0) + lget(1) + op('i64_store', 0, 0) + lget(0) + op('i64_load', 0, 0), export='sl')
    return m.build()


class Sys:
    def __init__(self, b, lo, hi):
        self.hi = hi
        self.rt, self.inst = rt.instantiate(b)
        self.mem = bytearray(lo * PAGE)
        if lo:
            self.mem[0:26] = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
        self.seg = [SEG, b'', b'']
        self.probe()

    def step(self, o):
        f, *a = o
        n = len(self.mem)
        exp = []
        if f == 'size':
            exp = [n // PAGE]
        elif f == 'grow':
            old, new = n // PAGE, n // PAGE + a[0]
            exp = None
            if new > 65536 or (self.hi is not None and new > self.hi):
                exp = [-1]
            elif new <= 8:
                exp = [old]
        elif f == 'fill':
            d, v, k = a
            if d + k > n:
                exp = 'trap'
            else:
                self.mem[d:d + k] = bytes([v & 255]) * k
        elif f == 'copy':
            d, s, k = a
            if d + k > n or s + k > n:
                exp = 'trap'
            else:
                self.mem[d:d + k] = bytes(self.mem[s:s + k])
        elif f[:4] == 'init':
            d, s, k = a
            g = self.seg[int(f[4])]
            if d + k > n or s + k > len(g):
                exp = 'trap'
            else:
                self.mem[d:d + k] = g[s:s + k]
        elif f[:4] == 'drop':
            self.seg[int(f[4])] = b''
        elif f == 'st':
            if a[0] + 1 > n:
                exp = 'trap'
            else:
                self.mem[a[0]] = a[1] & 255
        elif f in ('st64', 'sl'):
            if a[0] + 8 > n:
                exp = 'trap'
            else:
                self.mem[a[0]:a[0] + 8] = (a[1] & ((1 << 64) - 1)).to_bytes(8, 'little')
                if f == 'sl':
                    exp = [asm_sx(a[1], 64)]
        args = [asm_sx(x, 32) if i != 1 or f not in ('st64', 'sl') else asm_sx(x, 64) for i, x in enumerate(a)]
        got = rt.call(self.rt, self.inst, f, args)
        if f == 'grow' and isinstance(got, list):
            if exp is None and got not in ([n // PAGE], [-1]):
                raise Mismatch('grow returned %r' % got)
            if got != [-1]:
                self.mem.extend(bytes(a[0] * PAGE))
        if exp == 'trap':
            if not isinstance(got, rt.Trap):
                raise Mismatch('%r: got %r, expected a trap' % (o, got))
        elif exp is not None and got != exp:
            raise Mismatch('%r: got %r, expected %r' % (o, got, exp))
        self.probe()
        return '%s:%s' % (f, 'trap' if exp == 'trap' else got)

    def probe(self):
        n = len(self.mem)
        got = rt.call(self.rt, self.inst, 'size', [])
        if got != [n // PAGE]:
            raise Mismatch('memory.size gives %r, expected %d' % (got, n // PAGE))
        now = self.rt.exported_memory(self.inst, 'mem').data
        if bytes(now) != bytes(self.mem):
            raise Mismatch('memory contents differ: %d bytes against %d, first difference at %s' % (
                len(now), n, next((i for i in range(min(n, len(now))) if now[i] != self.mem[i]), None)))
        if n:
            got = rt.call(self.rt, self.inst, 'ld', [n - 1])
            if got != [self.mem[n - 1]]:
                raise Mismatch('last byte reads %r, expected %r' % (got, self.mem[n - 1]))
        if not isinstance(rt.call(self.rt, self.inst, 'ld', [n]), rt.Trap):
            raise Mismatch('a load at the memory size %d did not trap' % n)

    def key(self):
        return (bytes(self.mem[:64]), hash(bytes(self.mem)), len(self.mem), tuple(self.seg),
                bfs.dump(self.rt, skip=('FuncDesc', 'FuncInst', 'Inst', 'Expr')))


HOPS = [('size',), ('grow', 0), ('grow', 1), ('grow', 2), ('grow', 3), ('grow', 65535), ('grow', 65536),
        ('grow', 0xffffffff), ('grow', 0x80000000),
        ('st', 0, 0x1f7), ('st', 65535, 0x99), ('st', 65536, 0x77), ('st', 131071, 1), ('st', 0xffffffff, 1),
        ('st64', 65528, 0x1122334455667788), ('st64', 65529, 0x8877665544332211), ('sl', 65532, -2),
        ('fill', 0, 1, 3), ('fill', 65534, 0x1ff, 2), ('fill', 65534, 7, 3), ('fill', 65536, 7, 0), ('fill', 65537, 7, 0),
        ('fill', 0xffffffff, 1, 1), ('fill', 1, 2, 0xffffffff), ('fill', 3, -1, 300), ('fill', 131072, 0, 0),
        ('fill', 0x80000000, 0, 0),
        ('copy', 1, 0, 5), ('copy', 0, 1, 5), ('copy', 65534, 0, 2), ('copy', 65534, 0, 3), ('copy', 0, 65534, 2),
        ('copy', 0, 65535, 2), ('copy', 0, 0, 0xffffffff), ('copy', 65536, 0, 0), ('copy', 0, 65536, 0),
        ('copy', 0, 65537, 0), ('copy', 65537, 0, 0), ('copy', 5, 5, 5), ('copy', 0x80000000, 0, 1),
        ('copy', 65530, 3, 12), ('copy', 3, 65530, 12),
        ('init0', 0, 0, 5), ('init0', 2, 1, 3), ('init0', 0, 5, 0), ('init0', 0, 6, 0), ('init0', 0, 3, 3),
        ('init0', 65534, 0, 3), ('init0', 65536, 0, 0), ('init0', 65537, 0, 0), ('init0', 0, 0xffffffff, 1),
        ('init0', 0, 1, 0xffffffff), ('init1', 0, 0, 0), ('init1', 0, 0, 1), ('init2', 1, 0, 0), ('init2', 0, 1, 0),
        ('drop0',), ('drop1',), ('drop2',)]


def histories(ctx, lo, hi, first):
    b = hmodule(lo, hi)
    bfs.search(ctx, lambda: Sys(b, lo, hi), HOPS, (3 if ctx.tier == 'quick' else 4) - len(first), prefix=first,
               label='mem(%s,%s)' % (lo, hi))


# ---------------------------------------------------------------------------------------------- (c) sizes
LENS = [0, 1, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, 200001]
AT = [0, 1, 255, 65535, 65536, 131071, 300000]


def big(ctx, f, part, parts):
    """Bulk operations of every length from every start to every end, in a memory of nine pages with a large data segment."""
    seg = pattern(200003)
    m = asm.Mod()
    m.mem(9, None, export='mem')
    m.data_passive(seg)
    m.data_active(i32c(0), pattern(9 * PAGE))
    three = lget(0) + lget(1) + lget(2)
    m.func([I32] * 3, [], body=three + {'fill': op('memory_fill', 0), 'copy': op('memory_copy', 0, 0),
                                        'init': op('memory_init', 0, 0)}[f], export='go')
    m.func([I32], [I64], body=lget(0) + op('i64_load', 0, 0), export='ld')
    r, inst = rt.instantiate(m.build())
    mem = bytearray(pattern(9 * PAGE))
    n = len(mem)
    cases = [(d, x, k) for d in AT + [n - 65537, n - 256, n - 1, n] for x in (AT if f != 'fill' else [0x17]) for k in LENS]
    for d, x, k in cases[part::parts]:
        ok = d + k <= n and {'fill': True, 'copy': x + k <= n, 'init': x + k <= len(seg)}[f]
        if ok:
            mem[d:d + k] = {'fill': lambda: bytes([x]) * k, 'copy': lambda: bytes(mem[x:x + k]), 'init': lambda: seg[x:x + k]}[f]()
        got = rt.call(r, inst, 'go', [d, x, k])
        ctx.ev()
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome('big %s:%s' % (f, 'ok' if ok else 'trap'))
        now = r.exported_memory(inst, 'mem').data
        if (got == [] if ok else isinstance(got, rt.Trap)) is not True or now != mem:
            ctx.viol('big:%s:%d:%d:%d' % (f, d, x, k), 'got %r, memory %s' % (got, 'differs' if now != mem else 'as expected'))
            return
        at = min(d + k, n - 8)
        if rt.call(r, inst, 'ld', [at]) != [asm_sx(int.from_bytes(mem[at:at + 8], 'little'), 64)]:
            ctx.viol('big load:%d' % at, 'read back')
            return


def high(ctx):
    """A memory of up to 1024 pages: every page is there, keeps what is stored in it, and ends where it should."""
    m = asm.Mod()
    m.mem(1000, 1024, export='mem')
    m.func([], [I32], body=op('memory_size', 0), export='size')
    m.func([I32], [I32], body=lget(0) + op('memory_grow', 0), export='grow')
    m.func([I32, I64], [], body=lget(0) + lget(1) + op('i64_store', 0, 0), export='st')
    m.func([I32], [I64], body=lget(0) + op('i64_load', 0, 0), export='ld')
    m.func([I32], [I64], body=lget(0) + op('i64_load', 0, 0x3fff0000), export='ldo')
    r, inst = rt.instantiate(m.build())
    pages, kept = 1000, {}

    def see(what, got, want):
        ctx.ev()
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        if got != want:
            ctx.viol('high:' + what, 'got %r, expected %r' % (got, want))
    for step in (0, 1, 22, 2, 1, 1):
        got = rt.call(r, inst, 'grow', [step])
        see('grow %d from %d' % (step, pages), got, [pages] if pages + step <= 1024 else [-1])
        pages += step if pages + step <= 1024 else 0
        see('size', rt.call(r, inst, 'size', []), [pages])
        for p in sorted({1, 2, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, pages - 1, pages} & set(range(1, pages + 1))):
            for a in (p * PAGE - 8, p * PAGE - 4):
                bad = a + 8 > pages * PAGE
                see('store %d' % a, rt.call(r, inst, 'st', [a, a * 1000003]), rt.TRAP if bad else [])
                if not bad:
                    for j in range(8):
                        kept[a + j] = (a * 1000003 >> 8 * j) & 255
        for a in {x - x % 4 for x in kept}:
            if a + 8 <= pages * PAGE:
                see('load %d' % a, rt.call(r, inst, 'ld', [a]),
                    [asm_sx(sum(kept.get(a + j, 0) << 8 * j for j in range(8)), 64)])
        see('beyond', rt.call(r, inst, 'ld', [pages * PAGE - 7]), rt.TRAP)
        see('far beyond', rt.call(r, inst, 'ldo', [-1]), rt.TRAP)
    now = r.exported_memory(inst, 'mem').data
    see('length', len(now), pages * PAGE)
    see('everything else is zero', len(now) - now.count(0), sum(v != 0 for v in kept.values()))


def jobs(tier):
    out = [('high', [])] + [('big', [f, k, 4]) for f in ('copy', 'init') for k in range(4)] + [('big', ['fill', 0, 1])]
    if tier != 'quick':
        return out + rest(tier)
    return rest(tier) + out


def rest(tier):
    out = []
    for lo, hi in ((1, None), (1, 3), (2, 2), (0, None), (0, 1), (0, 0), (1, 1)):
        out.append(('histories', [lo, hi, ()]))
    if tier != 'quick':
        out = []
        for lo, hi in ((1, None), (1, 3), (2, 2), (0, None), (0, 1), (0, 0), (1, 1)):
            out += [('histories', [lo, hi, (o,)]) for o in HOPS]
    out += [('single', [o, 'la']) for o, _ in LANE]
    out += [('single', [o, 'sc']) for o in SC] + [('single', [o, 'st']) for o in ST] + [('single', [o, 'vl']) for o in VL]
    return out
