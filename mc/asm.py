"""A small WebAssembly binary assembler. Independent of the code under test."""
import struct
from .ops import OPS

I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f
EMPTY = 0x40
NAMES = {'i32': I32, 'i64': I64, 'f32': F32, 'f64': F64, 'v128': V128, 'funcref': FUNCREF, 'externref': EXTERNREF}


HOOK = None      # when set: called with the kind ('u', 's', 'l') and shortest length of every integer written, returns padding


def u(n, pad=0):
    """Unsigned LEB128; pad > 0 adds that many redundant continuation bytes."""
    assert n >= 0
    r = bytearray()
    if HOOK:
        pad = HOOK('u', max(1, (n.bit_length() + 6) // 7))
    while True:
        b = n & 0x7f
        n >>= 7
        if n == 0:
            r.append(b)
            break
        r.append(b | 0x80)
    for _ in range(pad):
        r[-1] |= 0x80
        r.append(0)
    return bytes(r)


def s(n, pad=0, kind='s'):
    """Signed LEB128; pad > 0 adds that many redundant sign-extending bytes."""
    r = bytearray()
    if HOOK:
        pad = HOOK(kind, (n if n >= 0 else -n - 1).bit_length() // 7 + 1)
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            r.append(b)
            break
        r.append(b | 0x80)
    fill = 0x7f if r[-1] & 0x40 else 0x00
    for _ in range(pad):
        r[-1] |= 0x80
        r.append(fill)
    return bytes(r)


def vec(items):
    items = list(items)
    return u(len(items)) + b''.join(items)


def name(t):
    b = t.encode() if isinstance(t, str) else t
    return u(len(b)) + b


def sect(i, body, pad=0):
    return bytes([i]) + u(len(body), pad) + body


def op(n, *imm):
    o = OPS[n]
    if HOOK and len(o) > 1:
        o = o[:1] + u(sum((b & 0x7f) << 7 * i for i, b in enumerate(o[1:])))
    return o + b''.join(u(x) if isinstance(x, int) else x for x in imm)


def i32c(n):
    n &= 0xffffffff
    return OPS['i32_const'] + s(n - (1 << 32) if n >> 31 else n)


def i64c(n):
    n &= (1 << 64) - 1
    return OPS['i64_const'] + s(n - (1 << 64) if n >> 63 else n, 0, 'l')


def f32c(bits):
    return OPS['f32_const'] + struct.pack('<I', bits)


def f64c(bits):
    return OPS['f64_const'] + struct.pack('<Q', bits)


def v128c(b):
    assert len(b) == 16
    return op('v128_const', bytes(b))


def lget(i):
    return op('local_get', i)


def lset(i):
    return op('local_set', i)


def ltee(i):
    return op('local_tee', i)


def call(i):
    return op('call', i)


def limits(n, m=None):
    return b'\x00' + u(n) if m is None else b'\x01' + u(n) + u(m)


class Mod:
    def __init__(self):
        self.types = []
        self.imps = []          # (bytes, kind)
        self.funcs = []         # typeidx
        self.codes = []         # bytes
        self.tables = []
        self.mems = []
        self.globs = []
        self.exps = []
        self.starti = None
        self.elems = []
        self.datas = []
        self.datacount = False
        self.customs = []       # (position, name, data)
        self.n = {'func': 0, 'table': 0, 'mem': 0, 'global': 0}

    def type(self, params, results):
        t = (tuple(params), tuple(results))
        if t not in self.types:
            self.types.append(t)
        return self.types.index(t)

    def _idx(self, kind):
        i = self.n[kind]
        self.n[kind] += 1
        return i

    def import_func(self, m, n, params, results):
        assert not self.funcs
        self.imps.append(name(m) + name(n) + b'\x00' + u(self.type(params, results)))
        return self._idx('func')

    def import_table(self, m, n, type, lo, hi=None):
        self.imps.append(name(m) + name(n) + b'\x01' + bytes([type]) + limits(lo, hi))
        return self._idx('table')

    def import_mem(self, m, n, lo, hi=None):
        self.imps.append(name(m) + name(n) + b'\x02' + limits(lo, hi))
        return self._idx('mem')

    def import_global(self, m, n, type, mut):
        self.imps.append(name(m) + name(n) + b'\x03' + bytes([type, mut]))
        return self._idx('global')

    def export(self, n, kind, idx):
        self.exps.append(name(n) + bytes([{'func': 0, 'table': 1, 'mem': 2, 'global': 3}[kind]]) + u(idx))

    def func(self, params, results, locals=(), body=b'', export=None, type=None):
        """locals: list of value types, or of (count, type) pairs. body without the final end."""
        self.funcs.append(self.type(params, results) if type is None else type)
        loc = []
        for e in locals:
            if isinstance(e, tuple):
                loc.append(u(e[0]) + bytes([e[1]]))
            else:
                loc.append(u(1) + bytes([e]))
        self.codes.append(vec(loc) + body + b'\x0b')
        i = self._idx('func')
        if export is not None:
            self.export(export, 'func', i)
        return i

    def table(self, type, lo, hi=None, export=None):
        self.tables.append(bytes([type]) + limits(lo, hi))
        i = self._idx('table')
        if export is not None:
            self.export(export, 'table', i)
        return i

    def mem(self, lo, hi=None, export=None):
        self.mems.append(limits(lo, hi))
        i = self._idx('mem')
        if export is not None:
            self.export(export, 'mem', i)
        return i

    def glob(self, type, mut, init, export=None):
        self.globs.append(bytes([type, mut]) + init + b'\x0b')
        i = self._idx('global')
        if export is not None:
            self.export(export, 'global', i)
        return i

    def elem(self, raw):
        self.elems.append(raw)
        return len(self.elems) - 1

    def elem_active(self, off, funcs, table=None):
        e = [u(f) for f in funcs]
        if table is None:
            return self.elem(u(0) + off + b'\x0b' + vec(e))
        return self.elem(u(2) + u(table) + off + b'\x0b' + b'\x00' + vec(e))

    def elem_passive(self, funcs):
        return self.elem(u(1) + b'\x00' + vec([u(f) for f in funcs]))

    def elem_declare(self, funcs):
        return self.elem(u(3) + b'\x00' + vec([u(f) for f in funcs]))

    def elem_passive_expr(self, type, exprs):
        return self.elem(u(5) + bytes([type]) + vec([e + b'\x0b' for e in exprs]))

    def elem_active_expr(self, table, off, type, exprs):
        return self.elem(u(6) + u(table) + off + b'\x0b' + bytes([type]) + vec([e + b'\x0b' for e in exprs]))

    def data_active(self, off, b):
        self.datas.append(u(0) + off + b'\x0b' + u(len(b)) + bytes(b))
        return len(self.datas) - 1

    def data_passive(self, b):
        self.datas.append(u(1) + u(len(b)) + bytes(b))
        self.datacount = True
        return len(self.datas) - 1

    def data_active_idx(self, off, b):
        self.datas.append(u(2) + u(0) + off + b'\x0b' + u(len(b)) + bytes(b))
        return len(self.datas) - 1

    def start(self, i):
        self.starti = i

    def sections(self):
        """The non-empty sections, in order, as (id, body)."""
        out = []
        if self.types:
            out.append((1, vec(b'\x60' + vec(bytes([x]) for x in p) + vec(bytes([x]) for x in r)
                               for p, r in self.types)))
        if self.imps:
            out.append((2, vec(self.imps)))
        if self.funcs:
            out.append((3, vec(u(t) for t in self.funcs)))
        if self.tables:
            out.append((4, vec(self.tables)))
        if self.mems:
            out.append((5, vec(self.mems)))
        if self.globs:
            out.append((6, vec(self.globs)))
        if self.exps:
            out.append((7, vec(self.exps)))
        if self.starti is not None:
            out.append((8, u(self.starti)))
        if self.elems:
            out.append((9, vec(self.elems)))
        if self.datacount:
            out.append((12, u(len(self.datas))))
        if self.codes:
            out.append((10, vec(u(len(c)) + c for c in self.codes)))
        if self.datas:
            out.append((11, vec(self.datas)))
        return out

    def build(self):
        return b'\x00asm\x01\x00\x00\x00' + b''.join(sect(i, b) for i, b in self.sections())
