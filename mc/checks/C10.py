"""C10: traps, host exceptions and interruptions end one invocation only."""
import itertools
import sys

import pywasm

from .. import asm, bfs, rt
from ..asm import op, lget, lset, i32c, i64c, I32, I64, F32, V128, FUNCREF, EMPTY

LEVEL = 'fault_enumeration'
RULE = ('one runtime with two linked modules is driven through histories over an alphabet of every fault (kinds of traps and '
        'of host exceptions, failing calls and failing instantiations) in every context (operands, blocks, loops, nested and '
        'indirect calls, other modules, start functions, host functions which call back), each followed by probes of every '
        'kind of normal work whose results and state are compared with a model; equal states are merged, and pairs are '
        'run unmerged. In addition an interruption is raised at every single source line executed inside the interpreter '
        'during an invocation, an instantiation and a call-back. Every fault is non-trivial.')
ASSUMPTIONS = ['an interruption inside memory.grow, table.grow and bulk operations is not judged (their atomicity is not promised)',
               'merging looks at the operand, label and frame stacks, memory, globals and tables']
BOUNDS = {'quick': 'merged histories of depth 3; unmerged pairs (second from an eighth of the alphabet); all interruption points',
          'thorough': 'merged histories of depth 6; unmerged triples over a third of the alphabet; all pairs of interruptions'}


class HostError(Exception):
    pass


class HostStop(BaseException):
    pass


HOSTEXC = [HostError, ValueError, AssertionError, StopIteration, IndexError, KeyboardInterrupt, SystemExit, GeneratorExit,
           RecursionError, MemoryError, HostStop]


def u(t):
    return bytes([t])


def fault_bodies(m, hraise, tv, inf, passive):
    """name -> bytes which never complete (stack polymorphic where needed by following code)."""
    f = {
        'unreachable': op('unreachable'),
        'div0': i32c(1) + i32c(0) + op('i32_div_s') + op('drop'),
        'remov': i64c(1 << 63) + i64c(-1) + op('i64_div_s') + op('drop'),
        'load': i32c(65533) + op('i32_load', 0, 0) + op('drop'),
        'store': i32c(-1) + i64c(5) + op('i64_store', 0, 0),
        'null': i32c(3) + op('call_indirect', tv, 0),
        'sig': i32c(1) + op('call_indirect', tv, 0),
        'index': i32c(100) + op('call_indirect', tv, 0),
        'nan': asm.f32c(0x7fc00000) + op('i32_trunc_f32_s') + op('drop'),
        'exhaust': asm.call(inf),
        'init': i32c(0) + i32c(2) + i32c(9) + op('memory_init', asm.u(passive), b'\0'),
        'fill': i32c(65530) + i32c(1) + i32c(9) + op('memory_fill', b'\0'),
        'tset': i32c(777) + op('ref_null', u(FUNCREF)) + op('table_set', 0),
        'copy': i32c(65530) + i32c(0) + i32c(9) + op('memory_copy', b'\0\0'),
        'copysrc': i32c(16) + i32c(65530) + i32c(9) + op('memory_copy', b'\0\0'),
        'tcopy': i32c(198) + i32c(0) + i32c(4) + op('table_copy', 0, 0),
        'tcopysrc': i32c(4) + i32c(198) + i32c(4) + op('table_copy', 0, 0),
        'tfill': i32c(198) + op('ref_null', u(FUNCREF)) + i32c(4) + op('table_fill', 0),
        'tinit': i32c(199) + i32c(0) + i32c(2) + op('table_init', 2, 0),
        'tinitsrc': i32c(4) + i32c(1) + i32c(2) + op('table_init', 2, 0),
        'tget': i32c(200) + op('table_get', 0) + op('drop'),
        'loadmax': i32c(-1) + op('i64_load8_u', 0, 0xffffffff) + op('drop'),
        'load16': i32c(65535) + op('i32_load16_u', 0, 0) + op('drop'),
        'vload': i32c(65521) + op('v128_load', 0, 0) + op('drop'),
    }
    for i, e in enumerate(HOSTEXC):
        f['host%d' % i] = i32c(i) + asm.call(hraise)
    return f


def inc(addr):
    return i32c(addr) + i32c(addr) + op('i32_load', 2, 0) + i32c(1) + op('i32_add') + op('i32_store', 2, 0)


BEFORE, AFTER = inc(0), inc(4)
CONTEXTS = ['top', 'blocks', 'loop', 'if', 'call', 'deep', 'indirect', 'other', 'callback', 'caught']


def moduleA():
    m = asm.Mod()
    hraise = m.import_func('h', 'raise', [I32], [])
    back = m.import_func('h', 'back', [I32], [I32])
    caught = m.import_func('h', 'caught', [I32], [I32])
    hadd = m.import_func('h', 'add', [I32, I32], [I32])
    tv = m.type([], [])
    ti = m.type([], [I32])
    m.mem(1, 3, export='mem')
    g = m.glob(I32, 1, i32c(0), export='g')
    tab = m.table(FUNCREF, 200, export='tab')
    passive = m.data_passive(b'12345')
    inf = len(m.imps)
    assert m.func([], [], [(3, I64)], i32c(1) + asm.call(inf) + op('drop')) == inf
    faults = fault_bodies(m, hraise, tv, inf, passive)
    m.func([], [I32], body=i32c(5))
    slots = []
    names = {}
    for n, (k, F) in enumerate(faults.items()):
        def exp(ctxname, body, res=(), locals=()):
            i = m.func([], list(res), locals, body, export='%s:%s' % (ctxname, k))
            names['%s:%s' % (ctxname, k)] = i
            return i
        plain = exp('plain', BEFORE + F + AFTER)
        slots.append(plain)
        exp('top', i32c(1) + i64c(2) + BEFORE + F + AFTER + op('drop') + op('drop'))
        exp('blocks', i32c(9) + op('block', u(I32)) + i32c(8) + op('block', u(EMPTY)) + op('loop', u(EMPTY)) + i64c(7) + BEFORE + F +
            AFTER + op('drop') + op('end') + op('end') + op('end') + op('drop') + op('drop'))
        exp('loop', op('loop', u(EMPTY)) + lget(0) + i32c(1) + op('i32_add') + asm.ltee(0) + i32c(3) + op('i32_eq') +
            op('if', u(EMPTY)) + BEFORE + F + AFTER + op('end') + op('br', 0) + op('end'), (), [I32])
        exp('if', i32c(4) + op('global_get', g) + op('if', u(EMPTY)) + BEFORE + F + AFTER + op('else') + BEFORE + F + AFTER + op('end') +
            op('drop'))
        exp('call', i32c(3) + i32c(4) + asm.call(plain) + AFTER + op('drop') + op('drop'))
        d = m.func([I32], [I32], [I64], lget(0) + op('i32_eqz') + op('if', u(I32)) + BEFORE + F + AFTER + i32c(1) + op('else') +
                   i32c(6) + lget(0) + i32c(1) + op('i32_sub') + asm.call(len(m.imps) + len(m.funcs)) + op('i32_add') +
                   op('end'))
        exp('deep', i32c(20) + asm.call(d) + op('drop') + AFTER)
        exp('indirect', i32c(5) + op('block', u(EMPTY)) + i32c(10 + n) + op('call_indirect', tv, tab) + op('end') + AFTER +
            op('drop'))
        exp('callback', i32c(1) + i32c(n) + asm.call(back) + AFTER + op('drop') + op('drop'))
        exp('caught', i32c(11) + op('block', u(I32)) + i32c(5) + i32c(n) + asm.call(caught) + op('i32_add') + op('end') +
            i32c(22), (I32, I32, I32))
    m.elem_active(i32c(10), slots)
    m.elem_active(i32c(1), [inf + 1])
    assert m.elem_passive([inf + 1, inf + 1]) == 2
    m.func([], [I32, I32], body=op('memory_size', b'\0') + op('table_size', tab), export='sizes')
    m.func([I32], [I32], body=lget(0) + op('i32_load8_u', 0, 0), export='byte')
    m.func([I32], [I32], body=lget(0) + op('table_get', tab) + op('ref_is_null'), export='slot')
    # Normal work.
    m.func([I32, I32], [I32], body=lget(0) + lget(1) + op('i32_add'), export='add')
    m.func([], [I32, I32, I32], body=i32c(0) + op('i32_load', 2, 0) + i32c(4) + op('i32_load', 2, 0) + op('global_get', g), export='cells')
    m.func([], [], body=op('global_get', g) + i32c(1) + op('i32_add') + op('global_set', g), export='bump')
    m.func([I32], [I32, I64], body=op('block', asm.s(m.type([], [I32, I64]))) + i32c(99) + op('loop', u(EMPTY)) + lget(0) + i64c(7) +
           op('br', 1) + op('end') + op('unreachable') + op('end'), export='mr')
    r = len(m.imps) + len(m.funcs)
    m.func([I32], [I32], [I64], lget(0) + op('i32_eqz') + op('if', u(I32)) + i32c(0) + op('else') + i32c(1) + lget(0) +
           i32c(1) + op('i32_sub') + asm.call(r) + op('i32_add') + op('end'), export='rec')
    m.func([I32, I32], [I32], body=lget(0) + lget(1) + asm.call(hadd), export='hadd')
    m.func([], [I32], body=i32c(1) + op('call_indirect', ti, tab), export='ci')
    m.func([], [], body=BEFORE, export='effect')
    # Work for the interruptions: marks its beginning, middle and end.
    m.func([], [I32], [I32], inc(0) + i32c(40) + op('block', u(I32)) + i32c(2) + asm.call(r) + lset(0) + inc(0) + lget(0) +
           i32c(2) + asm.call(hadd) + op('end') + inc(0) + op('i32_add'), export='work')
    m.func([], [I32], body=i32c(100) + i32c(-1) + asm.call(back) + op('i32_add') + inc(0), export='workback')
    return m.build(), list(faults)


def moduleB(faults):
    """Uses A's functions."""
    m = asm.Mod()
    fs = [m.import_func('a', 'top:%s' % k, [], []) for k in faults]
    m.mem(1, export='mem')
    for k, f in zip(faults, fs):
        m.func([], [], body=i32c(4) + op('block', u(EMPTY)) + i64c(4) + asm.call(f) + inc(4) + op('drop') + op('end') + op('drop'),
               export='other:%s' % k)
    m.func([], [I32], body=i32c(4) + op('i32_load', 2, 0), export='bcell')
    return m.build()


A, FAULTS = moduleA()
B = moduleB(FAULTS)


def failing():
    """Modules whose instantiation fails: name -> (bytes, number of BEFORE effects, other effect)."""
    out = {}

    def base():
        m = asm.Mod()
        eff = m.import_func('a', 'effect', [], [])
        hr = m.import_func('h', 'raise', [I32], [])
        m.import_mem('a', 'mem', 1, 3)
        m.import_table('a', 'tab', FUNCREF, 200)
        return m, eff, hr
    for k in ('unreachable', 'div0', 'load', 'null', 'exhaust') + tuple('host%d' % i for i in range(len(HOSTEXC))):
        m, eff, hr = base()
        inf = len(m.imps) - 2
        m.func([], [], body=i32c(1) + asm.call(inf) + op('drop'))
        pas = m.data_passive(b'1')
        tv = m.type([], [])
        F = fault_bodies(m, hr, tv, inf, pas)[k]
        m.start(m.func([], [], body=i64c(3) + asm.call(eff) + op('block', u(EMPTY)) + F + op('end') + asm.call(eff) + op('drop')))
        out['start:' + k] = (m.build(), 1)
    m, eff, hr = base()
    m.data_active(i32c(64), b'zz')
    m.data_active(i32c(65536), b'x')
    m.start(eff)
    out['data-oob'] = (m.build(), 0)
    m, eff, hr = base()
    m.elem_active(i32c(198), [eff])
    m.elem_active(i32c(199), [eff, eff])
    m.start(eff)
    out['elem-oob'] = (m.build(), 0)
    m, eff, hr = base()
    m.func([], [], export='ok')
    m.export('bad', 'func', 99)
    m.start(eff)
    out['export'] = (m.build(), 0)
    m = asm.Mod()
    m.import_func('a', 'effect', [I32], [])
    out['import-type'] = (m.build(), 0)
    m = asm.Mod()
    m.import_func('a', 'nosuch', [], [])
    out['import-missing'] = (m.build(), 0)
    m = asm.Mod()
    m.import_global('a', 'effect', I32, 1)
    out['import-kind'] = (m.build(), 0)
    m = asm.Mod()
    m.mem(65536)
    out['memory-huge'] = (m.build(), 0)
    m = asm.Mod()
    m.glob(I32, 0, op('global_get', 5))
    out['global-init'] = (m.build(), 0)
    return out


FAILING = failing()
CALLS = {'bad:noexport': ('nosuch', []), 'bad:few': ('add', [1]), 'bad:many': ('add', [1, 2, 3]), 'bad:type': ('add', ['x', 1]),
         'bad:range': ('add', [1 << 40, 1]), 'bad:kind': ('mem', [])}
OPS = (['%s:%s' % (c, k) for c in CONTEXTS for k in FAULTS] + ['inst:' + k for k in FAILING] + list(CALLS) +
       ['bump', 'deep-ok', 'inst:ok'])


def good_instance():
    m = asm.Mod()
    eff = m.import_func('a', 'effect', [], [])
    m.func([], [I32], body=i32c(3), export='three')
    m.start(eff)
    return m.build()


OKMOD = good_instance()
_desc = {}


def decoded(b):
    if b not in _desc:
        _desc[b] = rt.decode(b)
    return _desc[b]


class Sys:
    """The runtime and its model."""

    def __init__(self):
        self.r = r = pywasm.core.Runtime()
        self.thrown = None

        def hraise(m, a):
            self.thrown = HOSTEXC[a[0]]('raised by the host')
            raise self.thrown

        def back(m, a):
            if a[0] == -1:
                return r.invocate(self.a, 'work', [])
            r.invocate(self.a, 'plain:' + FAULTS[a[0]], [])
            return [1]

        def caught(m, a):
            try:
                r.invocate(self.a, 'plain:' + FAULTS[a[0]], [])
            except BaseException:
                return [7]
            return [8]

        r.imports['h'] = {'raise': rt.host(r, [I32], [], hraise), 'back': rt.host(r, [I32], [I32], back),
                          'caught': rt.host(r, [I32], [I32], caught),
                          'add': rt.host(r, [I32, I32], [I32], lambda m, a: [a[0] + a[1]])}
        self.a = r.instance(decoded(A))
        r.imports['a'] = {e.name: e.data for e in self.a.exps}
        self.b = r.instance(decoded(B))
        self.c0 = self.g = 0

    def run(self, inst, f, args=()):
        self.thrown = None
        rt.arm(20)
        try:
            return self.r.invocate(inst, f, list(args))
        except rt.Hang:
            return rt.Hung()
        except BaseException as e:
            return rt.Trap(e)
        finally:
            rt.disarm()

    def must(self, what, got, want):
        if want is rt.TRAP:
            if not isinstance(got, rt.Trap):
                raise bfs.Mismatch('%s gives %r instead of an exception' % (what, got))
        elif not (isinstance(got, list) and got == want):
            raise bfs.Mismatch('%s gives %r, expected %r' % (what, got, want))

    def probe(self):
        self.must('cells', self.run(self.a, 'cells'), [self.c0, 0, self.g])
        self.must('sizes', self.run(self.a, 'sizes'), [1, 200])
        for x in (12, 16, 65530, 65535):
            self.must('byte %d' % x, self.run(self.a, 'byte', [x]), [0])
        for x, v in ((2, 1), (4, 1), (10, 0), (199, 1)):
            self.must('table entry %d' % x, self.run(self.a, 'slot', [x]), [v])
        self.must('byte past the end', self.run(self.a, 'byte', [65536]), rt.TRAP)
        self.must('table entry past the end', self.run(self.a, 'slot', [200]), rt.TRAP)
        self.must('add', self.run(self.a, 'add', [3, 4]), [7])
        self.must('mr', self.run(self.a, 'mr', [5]), [5, 7])
        self.must('rec', self.run(self.a, 'rec', [12]), [12])
        self.must('host call', self.run(self.a, 'hadd', [5, 6]), [11])
        self.must('indirect call', self.run(self.a, 'ci'), [5])
        self.must('second module', self.run(self.b, 'bcell'), [0])

    def step(self, o):
        c, _, k = o.partition(':')
        if c == 'inst':
            b, eff = (OKMOD, 1) if k == 'ok' else FAILING[k]
            rt.arm(20)
            try:
                inst = self.r.instance(decoded(b))
                got = [1]
            except BaseException as e:
                got = rt.Trap(e)
            finally:
                rt.disarm()
            self.c0 += eff
            if k == 'ok':
                self.must(o, got, [1])
                self.must('new instance', self.run(inst, 'three'), [3])
            else:
                self.must(o, got, rt.TRAP)
        elif c == 'bad':
            f, a = CALLS[o]
            self.must(o, self.run(self.a, f, a), rt.TRAP)
        elif c == 'bump':
            self.g += 1
            self.must(o, self.run(self.a, 'bump'), [])
        elif c == 'deep-ok':
            self.must(o, self.run(self.a, 'rec', [1000]), [1000])
        elif c == 'caught':
            self.c0 += 1
            self.must(o, self.run(self.a, o), [11, 12, 22])
        else:
            self.c0 += 1
            self.must(o, self.run(self.b if c == 'other' else self.a, o), rt.TRAP)
        self.probe()
        return c + ('' if c not in ('inst', 'bad') else ':' + k)

    def key(self):
        m = self.r.machine
        st = m.store
        return (self.c0, self.g, bfs.dump([m.stack, [x.data for x in st.mems[:2]], [x.data for x in st.glob[:1]],
                                            [[y.data for y in x.elem] for x in st.tabl[:1]]], skip=('ModuleInst',)))


def merged(ctx, ops, depth):
    bfs.search(ctx, Sys, ops, depth, label='merged')


def unmerged(ctx, firsts, seconds, depth):
    for a in firsts:
        for rest in itertools.product(seconds, repeat=depth - 1):
            s = Sys()
            h = (a,) + rest
            ctx.ev()
            ctx.traces += 1
            try:
                for o in h:
                    s.step(o)
            except bfs.Mismatch as e:
                ctx.viol('history:%s' % ' ; '.join(h), str(e), {'history': list(h)})
                if ctx.full:
                    return
        ctx.outcome('first ' + a.partition(':')[0])
    ctx.sample({'history': list(h)})


class Interrupt(BaseException):
    pass


PKG = pywasm.core.__file__.rsplit('/', 1)[0]


def interrupted(fn, k):
    """Run fn; raise at the k-th line executed inside the package. Returns (finished normally, lines seen)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                raise Interrupt()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return local
        return None

    sys.settrace(tracer)
    try:
        fn()
        return True, n[0]
    except Interrupt:
        return False, n[0]
    finally:
        sys.settrace(None)


def startmod():
    m = asm.Mod()
    m.import_mem('a', 'mem', 1, 3)
    m.import_table('a', 'tab', FUNCREF, 200)
    g = m.glob(I32, 0, i32c(64))
    m.data_active(op('global_get', g), b'abc')
    f = m.func([], [], body=inc(0) + op('block', u(EMPTY)) + inc(0) + op('end'))
    m.elem_active(i32c(190), [f])
    m.start(f)
    return m.build()


STARTMOD = startmod()
WORKS = {'work': 3, 'workback': 4, 'start': 2, 'trap': 1}


def work(s, w):
    if w == 'start':
        s.r.instance(decoded(STARTMOD))
    elif w == 'trap':
        try:
            s.r.invocate(s.a, 'blocks:div0', [])
        except Interrupt:
            raise
        except Exception:
            pass
    else:
        s.r.invocate(s.a, w, [])


def interrupts(ctx, w, part, parts):
    decoded(STARTMOD)
    s = Sys()
    ok, total = interrupted(lambda: work(s, w), -1)
    assert ok
    ctx.note('lines executed by ' + w, total if part == 0 else 0)
    two = ctx.tier != 'quick'
    for k in range(1 + part, total + 1, parts):
        s = Sys()
        seen = 0
        for j in [k] if not two else [k] + list(range(1, total + 1, max(1, total // 40))):
            ok, n = interrupted(lambda: work(s, w), j)
            ctx.ev()
            got = s.run(s.a, 'cells')
            if ok:
                ctx.outcome('interruption not reached')
            if not isinstance(got, list) or not seen <= got[0] <= seen + WORKS[w] or got[1:] != [0, 0]:
                ctx.viol('interrupt %s at line event %d' % (w, j), 'counters afterwards: %r, before: %d' % (got, seen))
                break
            seen = s.c0 = got[0]
            ctx.outcome('%s interrupted after %d effects' % (w, seen) if not two else w)
            try:
                s.probe()
            except bfs.Mismatch as e:
                ctx.viol('interrupt %s at line event %d' % (w, j), str(e), {'work': w, 'event': j})
                break
        if ctx.full:
            return
    ctx.sample({'work': w, 'interrupted at line events': [1 + part, total, parts]})


def jobs(tier):
    q = tier == 'quick'
    out = []
    if q:
        out += [('merged', [OPS, 3])]
        out += [('unmerged', [OPS[i:i + 4], OPS[::8] + OPS[-9:], 2]) for i in range(0, len(OPS), 4)]
    else:
        out += [('merged', [OPS, 6])]
        out += [('unmerged', [[o], OPS, 2]) for o in OPS]
        out += [('unmerged', [[o], OPS[::6] + OPS[-9:], 3]) for o in OPS]
    for w in WORKS:
        pp = 8 if q else 32
        out += [('interrupts', [w, i, pp]) for i in range(pp)]
    return out
