"""Modules that together use every section and every kind of immediate, with the results their exports must give.
Each builder returns (asm.Mod, [(export, args, results)]); imports are those of env()."""
import struct

import pywasm

from . import asm, rt, simd, simdcheck
from .asm import op, lget, lset, i32c, i64c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF

Z = b'\x00'


def bt(t):
    return bytes([t])


def env(r):
    """A fresh set of imports on runtime r; returns the log of host calls."""
    log = []

    def h(m, a):
        log.append(tuple(a))
        return [a[0] * 10 + 1]

    r.imports['e'] = {
        'h': rt.host(r, [I32], [I32], h),
        'hh': rt.host(r, [I32, I64], [I64], lambda m, a: [a[0] + a[1]]),
        'g': r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), 0), pywasm.core.ValInst.from_i32(3)),
        'gm': r.allocate_global(pywasm.core.GlobalType(rt.VT[I64](), 1), pywasm.core.ValInst.from_i64(-9)),
        't': r.allocate_table(pywasm.core.TableType(rt.VT[FUNCREF](), pywasm.core.Limits(6, 9))),
        'm': r.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, 3))),
    }
    return log


def control():
    m = asm.Mod()
    t22 = m.type([I32, I32], [I32, I32])
    tests = []
    m.func([I32], [I32], body=op('block', bt(I32)) + lget(0) + op('end'), export='b1')
    tests.append(('b1', [-7], [-7]))
    m.func([I32], [I32], [I32], op('block', bt(0x40)) + lget(0) + lset(1) + op('end') + lget(1), export='b0')
    tests.append(('b0', [1 << 30], [1 << 30]))
    m.func([I32, I32], [I32, I32], body=lget(0) + lget(1) + op('block', asm.s(t22)) + op('br', 0) + op('end'), export='bt')
    tests.append(('bt', [3, 4], [3, 4]))
    m.func([I32], [I32], body=lget(0) + op('if', bt(I32)) + i32c(-64) + op('else') + i32c(64) + op('end'), export='if')
    tests += [('if', [0], [64]), ('if', [5], [-64])]
    m.func([I32], [I32], [(1, I32), (2, I64)], op('block', bt(0x40)) + op('loop', bt(0x40)) + lget(0) + op('i32_eqz') +
           op('br_if', 1) + lget(1) + lget(0) + op('i32_add') + lset(1) + lget(0) + i32c(1) + op('i32_sub') + lset(0) +
           op('br', 0) + op('end') + op('end') + lget(1), export='loop')
    tests.append(('loop', [5], [15]))
    m.func([I32], [I32], body=op('block', bt(0x40)) + op('block', bt(0x40)) + op('block', bt(0x40)) + lget(0) +
           op('br_table', asm.vec([asm.u(2), asm.u(0)]), 1) + op('end') + i32c(70) + op('return') + op('end') + i32c(80) +
           op('return') + op('end') + i32c(90), export='brt')
    tests += [('brt', [0], [90]), ('brt', [1], [70]), ('brt', [2], [80]), ('brt', [-1], [80])]
    m.func([I32], [I32], body=i32c(11) + i32c(22) + lget(0) + op('select_type', asm.vec([bt(I32)])), export='selt')
    tests += [('selt', [0], [22]), ('selt', [1], [11])]
    f = m.func([I32], [I32], body=lget(0) + i32c(128) + op('i32_add'))
    m.func([I32], [I32], body=lget(0) + asm.call(f), export='call')
    tests.append(('call', [1], [129]))
    m.func([], [I64, F32, F64, I32], body=i64c(-(1 << 40)) + asm.f32c(0x3fc00000) + asm.f64c(0xc004000000000000) +
           i32c(-1), export='consts')
    tests.append(('consts', [], [-(1 << 40), 1.5, -2.5, -1]))
    return m, tests


def memory():
    m = asm.Mod()
    m.mem(1, 3, export='mem')
    m.data_active(i32c(8), b'abcdefgh')
    p = m.data_passive(b'0123456789')
    m.data_active_idx(i32c(300), b'\x80\x01\xff')
    tests = []
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='ld')
    m.func([I32], [I32], body=lget(0) + op('i32_load', 2, 200), export='ldo')
    m.func([I32], [I64], body=lget(0) + op('i64_load', 3, 0), export='ldl')
    m.func([I32, I32], [], body=lget(0) + lget(1) + op('i32_store16', 1, 130), export='st')
    m.func([], [I32], body=op('memory_size', Z), export='size')
    m.func([I32], [I32], body=lget(0) + op('memory_grow', Z), export='grow')
    m.func([], [], body=i32c(40) + i32c(2) + i32c(5) + op('memory_init', asm.u(p), Z), export='init')
    m.func([], [], body=i32c(60) + i32c(40) + i32c(4) + op('memory_copy', Z, Z), export='copy')
    m.func([], [], body=i32c(80) + i32c(7) + i32c(3) + op('memory_fill', Z), export='fill')
    m.func([], [], body=op('data_drop', p), export='drop')
    tests += [('ld', [8], [97]), ('ld', [15], [104]), ('ld', [301], [1]), ('ld', [302], [255]), ('ldo', [100], [0xff0180]),
              ('ldl', [8], [int.from_bytes(b'abcdefgh', 'little')]), ('st', [2, 0x4142], []), ('ld', [132], [0x42]),
              ('ld', [133], [0x41]), ('ld', [134], [0]), ('size', [], [1]), ('grow', [1], [1]), ('grow', [2], [-1]),
              ('size', [], [2]), ('init', [], []), ('ld', [39], [0]), ('ld', [40], [50]), ('ld', [44], [54]),
              ('ld', [45], [0]), ('copy', [], []), ('ld', [63], [53]), ('ld', [64], [0]), ('fill', [], []),
              ('ld', [82], [7]), ('ld', [83], [0]), ('drop', [], []), ('init', [], rt.TRAP)]
    return m, tests


def tables():
    m = asm.Mod()
    v = m.type([], [I32])
    for i in range(4):
        m.func([], [I32], body=i32c(500 + i))
    t0 = m.table(FUNCREF, 12, 14, export='t0')
    t1 = m.table(EXTERNREF, 3)
    t2 = m.table(FUNCREF, 4)
    rf = [op('ref_func', i) for i in range(4)]
    nul = op('ref_null', bt(FUNCREF))
    m.elem_active(i32c(0), [1])                                                                   # kind 0
    e1 = m.elem_passive([2, 3])                                                                   # kind 1
    m.elem_active(i32c(1), [3, 0], t2)                                                            # kind 2
    m.elem_declare([0])                                                                           # kind 3
    m.elem(asm.u(4) + i32c(2) + b'\x0b' + asm.vec([rf[0] + b'\x0b', nul + b'\x0b', rf[2] + b'\x0b']))   # kind 4
    e5 = m.elem_passive_expr(FUNCREF, [rf[1], nul])                                               # kind 5
    m.elem_active_expr(t2, i32c(3), FUNCREF, [rf[2]])                                             # kind 6
    m.elem(asm.u(7) + bt(FUNCREF) + asm.vec([rf[3] + b'\x0b']))                                   # kind 7
    tests = []
    m.func([I32], [I32], body=lget(0) + op('call_indirect', v, t0), export='c0')
    m.func([I32], [I32], body=lget(0) + op('call_indirect', v, t2), export='c2')
    m.func([I32], [I32], body=lget(0) + op('table_get', t0) + op('ref_is_null'), export='n0')
    m.func([I32, EXTERNREF], [], body=lget(0) + lget(1) + op('table_set', t1), export='s1')
    m.func([I32], [EXTERNREF], body=lget(0) + op('table_get', t1), export='g1')
    m.func([], [I32, I32, I32], body=op('table_size', t0) + op('table_size', t1) + op('table_size', t2), export='sizes')
    m.func([I32], [I32], body=rf[3] + lget(0) + op('table_grow', t0), export='grow')
    m.func([], [], body=i32c(5) + i32c(0) + i32c(2) + op('table_init', e1, t0), export='init1')
    m.func([], [], body=i32c(8) + i32c(0) + i32c(2) + op('table_init', e5, t0), export='init5')
    m.func([], [], body=op('elem_drop', e1), export='drop1')
    m.func([], [], body=i32c(9) + i32c(1) + i32c(3) + op('table_copy', t0, t2), export='copy')
    m.func([], [], body=i32c(0) + rf[2] + i32c(2) + op('table_fill', t0), export='fill')
    tests += [('c0', [0], [501]), ('c0', [1], rt.TRAP), ('c0', [2], [500]), ('n0', [3], [1]), ('c0', [4], [502]),
              ('c2', [1], [503]), ('c2', [2], [500]), ('c2', [3], [502]), ('n0', [5], [1]), ('init1', [], []),
              ('c0', [5], [502]), ('c0', [6], [503]), ('init5', [], []), ('c0', [8], [501]), ('n0', [9], [1]),
              ('copy', [], []), ('c0', [9], [503]), ('c0', [10], [500]), ('c0', [11], [502]), ('sizes', [], [12, 3, 4]),
              ('grow', [2], [12]), ('grow', [1], [-1]), ('c0', [13], [503]), ('sizes', [], [14, 3, 4]), ('s1', [2, 77], []),
              ('g1', [2], [77]), ('fill', [], []), ('c0', [0], [502]), ('c0', [1], [502]), ('c0', [2], [500]),
              ('drop1', [], []), ('init1', [], rt.TRAP)]
    return m, tests


def link():
    m = asm.Mod()
    h = m.import_func('e', 'h', [I32], [I32])
    g = m.import_global('e', 'g', I32, 0)
    hh = m.import_func('e', 'hh', [I32, I64], [I64])
    t = m.import_table('e', 't', FUNCREF, 5, 9)
    gm = m.import_global('e', 'gm', I64, 1)
    m.import_mem('e', 'm', 1, 3)
    g2 = m.glob(I32, 0, op('global_get', g))
    g3 = m.glob(F64, 1, asm.f64c(0x3ff8000000000000), export='g3')
    g4 = m.glob(FUNCREF, 1, op('ref_func', h))
    g5 = m.glob(EXTERNREF, 1, op('ref_null', bt(EXTERNREF)))
    st = m.func([], [], body=i32c(100) + i32c(4) + asm.call(h) + op('i32_store', 2, 4))
    m.start(st)
    m.data_active(op('global_get', g), b'xyz')
    m.elem_active(op('global_get', g), [h, hh])
    tests = []
    m.func([I32], [I32], body=lget(0) + op('i32_load', 0, 0), export='ld')
    m.func([I32, I32], [I32], body=lget(1) + lget(0) + op('call_indirect', m.type([I32], [I32]), t), export='ci')
    m.func([], [I32, I64, F64, I32, I32], body=op('global_get', g2) + op('global_get', gm) + op('global_get', g3) +
           op('global_get', g4) + op('ref_is_null') + op('global_get', g5) + op('ref_is_null'), export='gs')
    m.func([I64], [], body=lget(0) + op('global_set', gm), export='set')
    m.func([I32, I64], [I64], body=lget(0) + lget(1) + asm.call(hh), export='hh')
    m.export('h2', 'func', st)
    m.export('\u00e9\u4e2d', 'func', st + 1)
    tests += [('ld', [104], [41]), ('ld', [2], [0x7a797800]), ('ci', [3, 5], [51]), ('ci', [4, 5], rt.TRAP),
              ('gs', [], [3, -9, 1.5, 0, 1]), ('set', [1 << 50], []), ('gs', [], [3, 1 << 50, 1.5, 0, 1]),
              ('hh', [2, -5], [-3]), ('h2', [], []), ('\u00e9\u4e2d', [104], [41])]
    return m, tests


def vector():
    m = asm.Mod()
    m.mem(1)
    m.data_active(i32c(16), bytes(range(1, 33)))
    tests = []
    b = bytearray(range(1, 17))
    m.func([I32], [V128], body=lget(0) + op('v128_load', 4, 8), export='ld')
    tests.append(('ld', [8], [b]))
    m.func([], [V128], body=asm.v128c(bytes(range(200, 216))), export='c')
    tests.append(('c', [], [bytearray(range(200, 216))]))
    m.func([V128, V128], [V128], body=lget(0) + lget(1) + op('i8x16_shuffle', bytes(range(31, 15, -1))), export='sh')
    tests.append(('sh', [b, bytearray(range(50, 66))], [bytearray(range(65, 49, -1))]))
    m.func([V128], [I32], body=lget(0) + op('i8x16_extract_lane_s', b'\x0f'), export='ex')
    tests.append(('ex', [bytearray([0xfe] * 16)], [-2]))
    m.func([V128], [V128], body=i32c(16) + lget(0) + op('v128_load16_lane', 1, 2, b'\x07'), export='ll')
    tests.append(('ll', [bytearray(16)], [bytearray(14) + bytearray([3, 4])]))
    m.func([V128], [I32], body=i32c(200) + lget(0) + op('v128_store32_lane', 2, 4, b'\x03') + i32c(204) +
           op('i32_load', 2, 0), export='sl')
    tests.append(('sl', [bytearray(12) + bytearray([1, 2, 3, 4])], [0x04030201]))
    m.func([], [V128], body=i32c(16) + op('v128_load32_zero', 2, 0), export='lz')
    tests.append(('lz', [], [bytearray([1, 2, 3, 4]) + bytearray(12)]))
    m.func([], [V128], body=i32c(16) + op('v128_load8x8_s', 3, 0), export='l8')
    tests.append(('l8', [], [bytearray(x for i in range(1, 9) for x in (i, 0))]))
    m.func([], [V128], body=i32c(17) + op('v128_load8_splat', 0, 0), export='sp')
    tests.append(('sp', [], [bytearray([2] * 16)]))
    m.func([V128], [V128], body=i32c(400) + lget(0) + op('v128_store', 0, 0) + i32c(400) + op('v128_load', 0, 0), export='st')
    tests.append(('st', [b], [b]))
    m.func([V128, V128], [V128], body=lget(0) + lget(1) + op('i64x2_extmul_high_i32x4_u'), export='xm')
    tests.append(('xm', [bytearray(struct.pack('<4I', 0, 0, 5, 6)), bytearray(struct.pack('<4I', 0, 0, 7, 8))],
                  [bytearray(struct.pack('<2Q', 35, 48))]))
    m.func([F32], [I64], body=lget(0) + op('i64_trunc_sat_f32_u'), export='ts')
    tests.append(('ts', [4e9], [4000000000]))
    return m, tests


def big():
    """Every index and count needs more than one byte, some more than two."""
    m = asm.Mod()
    N = 300
    for i in range(70):
        m.type([I32] * (i % 5), [I64] * (i // 5 % 15))
    tv = m.type([], [I32])
    t2 = m.type([I32], [I32, I32])
    for i in range(N):
        m.func([], [I32], body=i32c(1000 + i), export='f%d' % i)
    gs = [m.glob(I32, 1, i32c(2000 + i)) for i in range(N)]
    m.table(FUNCREF, 400)
    t1 = [m.table(FUNCREF, 2) for _ in range(140)][-1]
    m.elem_active(i32c(70), range(N))
    es = [m.elem_passive([(3 * i) % N]) for i in range(140)]
    m.mem(2)
    m.data_active(i32c(66000), bytes(i % 251 for i in range(20000)))
    ds = [m.data_passive(bytes([i % 256])) for i in range(140)]
    tests = [('f0', [], [1000]), ('f127', [], [1127]), ('f128', [], [1128]), ('f299', [], [1299])]
    m.func([I32], [I32], body=lget(0) + op('call_indirect', tv, 0), export='ci')
    tests += [('ci', [70], [1000]), ('ci', [369], [1299]), ('ci', [370], rt.TRAP), ('ci', [69], rt.TRAP)]
    m.func([], [I32, I32, I32], body=b''.join(op('global_get', gs[i]) for i in (0, 128, 299)), export='gg')
    tests.append(('gg', [], [2000, 2128, 2299]))
    m.func([I32], [I32], [(200, I64), (17000, I32), (3, F32)], body=lget(0) + lset(17100) + lget(17100) + lget(17099) +
           op('i32_add'), export='loc')
    tests.append(('loc', [9], [9]))
    deep = 150
    m.func([I32], [I32], body=op('block', bt(I32)) * deep + lget(0) + op('br', 140) +
           b''.join(op('end') + i32c(1) + op('i32_add') for _ in range(deep)), export='deep')
    tests.append(('deep', [0], [9 + 1]))
    m.func([I32], [I32], body=op('block', bt(0x40)) * 150 + lget(0) + op('br_table', asm.vec([asm.u(i % 150) for i in range(290)]),
           3) + b''.join(op('end') + i32c(i) + op('return') for i in range(150)), export='brt')
    tests += [('brt', [i], [i % 150]) for i in (0, 127, 128, 149, 150, 289)] + [('brt', [290], [3])]
    m.func([I32], [I32, I32], body=lget(0) + op('block', asm.s(t2)) + i32c(6) + op('end'), export='bty')
    tests.append(('bty', [4], [4, 6]))
    m.func([], [I32], body=i32c(1) + i32c(0) + i32c(1) + op('table_init', es[139], t1) + i32c(1) + op('call_indirect', tv, t1),
           export='ti')
    tests.append(('ti', [], [1000 + (3 * 139) % N]))
    m.func([], [I32], body=i32c(5) + i32c(0) + i32c(1) + op('memory_init', asm.u(ds[139]), Z) + i32c(0) +
           op('i32_load8_u', 0, 5), export='mi')
    tests.append(('mi', [], [139]))
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 66000), export='ld')
    tests += [('ld', [0], [0]), ('ld', [19999], [19999 % 251]), ('ld', [20000], [0])]
    m.func([], [I32], body=b''.join(i32c(k) + op('drop') for k in range(7000)) + i32c(7), export='long')
    tests.append(('long', [], [7]))
    m.func([], [I32], body=i32c(5), export='x' * 20000)
    tests.append(('x' * 20000, [], [5]))
    return m, tests


ALL = {'control': control, 'memory': memory, 'tables': tables, 'link': link, 'vector': vector}


def agree(got, want):
    if want is rt.TRAP:
        return isinstance(got, rt.Trap)
    return isinstance(got, list) and len(got) == len(want) and all(
        type(a) is type(b) and a == b for a, b in zip(got, want))


def behaves(b, tests):
    """None when the encoded module decodes, instantiates and gives every expected result; otherwise what went wrong."""
    try:
        desc = rt.decode(b)
    except Exception as e:
        return 'refused: %s %s' % (type(e).__name__, e)
    r = pywasm.core.Runtime()
    log = env(r)
    try:
        inst = r.instance(desc)
    except Exception as e:
        return 'not instantiated: %s %s' % (type(e).__name__, e)
    for f, a, want in tests:
        got = rt.call(r, inst, f, a)
        if not agree(got, want):
            return '%s%r gives %r, expected %r' % (f[:20], a, got, want)
    return None
