"""C29: the end of a program."""
import io
import itertools
import struct

import pywasm
from .. import asm, rt
from ..asm import I32, op, i32c, call
from ..bfs import Mismatch
from .. import bfs

LEVEL = 'model_checking'
RULE = ('enumeration of every chain, up to the depth bound, of the control contexts and call kinds below, in one module and with '
        'one module per level, and chains of up to 300, with an exit, a trap or a normal return on the first, second and third visit of the innermost '
        'function, and every exit code of the alphabet; a second program run by a host function of the first, each '
        'ending in each way; plus a breadth-first search over histories of programs ending in each way '
        'on one runtime. Compared with a reference: code, number of times each level was entered and left, captured output, '
        'results of later calls. Non-trivial: every run.')
BOUNDS = {'quick': 'depth 4 of 11 contexts (one module), depth 3 (a module per level); histories of 3 runs',
          'thorough': 'depth 4 of 11 contexts, depth 3 (a module per level); histories of 5 runs'}
ASSUMPTIONS = ['exit codes are compared modulo 2^32']

CTX = ['plain', 'block', 'loop', 'if', 'else', 'value', 'deep', 'brtable', 'indirect', 'host', 'params']
CODES = sorted({0, 1, 2, 3, 42, 77, 125, 126, 127, 128, 255, 256, 257, 0xffff, 0x10000} | {x for k in range(1, 33) for x in (2 ** k - 1, 2 ** k % 2 ** 32)})
BEFORE, AFTER, VISIT, WHEN, WHAT, CODE, LOST, LEFT, END = 4096, 8192, 12288, 12292, 12296, 12300, 12304, 12308, 12312
VOID = b'\x40'


def bump(a):
    return i32c(a) + i32c(a) + op('i32_load', b'\x02\0') + i32c(1) + op('i32_add') + op('i32_store', b'\x02\0')


def load(a):
    return i32c(a) + op('i32_load', b'\x02\0')


def wrap(kind, go, nth, hosts, slot, t):
    """The context of a call of the next level (go: its code without operands)."""
    if kind == 'plain':
        return go
    if kind == 'block':
        return i32c(7) + op('block', VOID) + op('block', VOID) + go + op('end') + op('end') + op('drop')
    if kind == 'loop':
        # twice
        return i32c(0) + asm.lset(0) + op('loop', VOID) + go + asm.lget(0) + i32c(1) + op('i32_add') + asm.ltee(0) + i32c(2) + \
            op('i32_lt_s') + op('br_if', 0) + op('end')
    if kind == 'if':
        return i32c(1) + op('if', VOID) + go + op('else') + op('unreachable') + op('end')
    if kind == 'else':
        return i32c(0) + op('if', VOID) + op('unreachable') + op('else') + go + op('end')
    if kind == 'value':
        return i32c(11) + op('block', bytes([I32])) + go + i32c(4) + op('end') + op('i32_add') + op('drop')
    if kind == 'deep':
        return i32c(1) + op('loop', VOID) + i32c(2) + op('block', VOID) + i32c(3) + i32c(1) + op('if', bytes([I32])) + go + i32c(4) + \
            op('br', 0) + op('else') + i32c(5) + op('end') + op('drop') + op('drop') + op('end') + op('drop') + op('end') + op('drop')
    if kind == 'brtable':
        return op('block', VOID) + op('block', VOID) + go + i32c(1) + op('br_table', b'\x02\x00\x01\x00') + op('end') + \
            op('unreachable') + op('end')
    if kind == 'indirect':
        return i32c(slot) + op('call_indirect', asm.u(t) + b'\0')
    if kind == 'host':
        return call(hosts)
    if kind == 'params':
        return i32c(9) + i32c(8) + go + op('i32_add') + op('drop')
    raise AssertionError(kind)


def leaf(ex, wr):
    """Writes one byte to the output, then ends as the words in memory say."""
    out = i32c(1) + i32c(64) + i32c(1) + i32c(96) + call(wr) + op('drop')
    now = bump(VISIT) + load(VISIT) + load(WHEN) + op('i32_eq')
    acts = op('if', VOID) + load(WHAT) + i32c(1) + op('i32_eq') + op('if', VOID) + i32c(5) + load(CODE) + call(ex) + op('drop') + \
        bump(LOST) + op('end') + load(WHAT) + i32c(2) + op('i32_eq') + op('if', VOID) + op('unreachable') + op('end') + \
        load(WHAT) + i32c(3) + op('i32_eq') + op('if', VOID) + i32c(1) + i32c(0) + op('i32_div_u') + op('drop') + op('end') + op('end')
    return out + now + acts + bump(LEFT)


def one(chain):
    """All levels in one module."""
    m = asm.Mod()
    ns = 'wasi_snapshot_preview1'
    ex = m.import_func(ns, 'proc_exit', [I32], [])
    wr = m.import_func(ns, 'fd_write', [I32] * 4, [I32])
    hosts = [m.import_func('host', 'h%d' % (i + 1), [], []) for i in range(len(chain))]
    base = 2 + len(chain)
    m.table(asm.FUNCREF, len(chain) + 2)
    m.elem_active(i32c(0), [base + i for i in range(len(chain) + 1)])
    m.mem(1, 1, export='memory')
    t = m.type([], [])
    for i, k in enumerate(chain):
        m.func([], [], locals=[I32], export='_start' if i == 0 else 'f%d' % i,
               body=bump(BEFORE + 4 * i) + wrap(k, call(base + i + 1), i, hosts[i], i + 1, t) + bump(AFTER + 4 * i))
    m.func([], [], export='f%d' % len(chain) if chain else '_start', body=leaf(ex, wr))
    m.func([I32, I32], [I32, I32], export='swap', body=asm.lget(1) + asm.lget(0))
    m.data_active(i32c(64), struct.pack('<II', 80, 1) + b'\0' * 8 + b'x')
    return [m.build()]


def many(chain):
    """A module per level, innermost first. Every level imports the next one and the memory."""
    ns = 'wasi_snapshot_preview1'
    out = []
    m = asm.Mod()
    ex = m.import_func(ns, 'proc_exit', [I32], [])
    wr = m.import_func(ns, 'fd_write', [I32] * 4, [I32])
    m.mem(1, 1, export='memory')
    m.func([], [], export='f', body=leaf(ex, wr))
    if not chain:
        m.export('_start', 'func', 2)
    m.func([I32, I32], [I32, I32], export='swap', body=asm.lget(1) + asm.lget(0))
    m.data_active(i32c(64), struct.pack('<II', 80, 1) + b'\0' * 8 + b'x')
    out.append(m.build())
    for i in reversed(range(len(chain))):
        m = asm.Mod()
        nxt = m.import_func('m%d' % (i + 1), 'f', [], [])
        h = m.import_func('host', 'h%d' % (i + 1), [], [])
        m.import_mem('leaf', 'memory', 1, 1)
        m.table(asm.FUNCREF, len(chain) + 2)
        m.elem_active(i32c(i + 1), [nxt])
        t = m.type([], [])
        m.func([], [], locals=[I32], export='f',
               body=bump(BEFORE + 4 * i) + wrap(chain[i], call(nxt), i, h, i + 1, t) + bump(AFTER + 4 * i))
        if i == 0:
            m.export('_start', 'func', 2)
        out.append(m.build())
    return out


class Prog:
    def __init__(self, chain, layout, runtime=None, hook=None):
        self.chain, self.layout = chain, layout
        self.rt = runtime or pywasm.core.Runtime()
        self.wasi = pywasm.wasi.Preview1([], {}, {})
        self.wasi.bind(self.rt)
        self.inst = {}
        r = self.rt
        r.imports['host'] = {}
        for i in range(1, len(chain) + 1):
            def fn(m, a, i=i):
                if hook:
                    hook()
                at, name = (self.main, 'f%d' % i) if layout == 'one' else (self.inst[i], 'f')
                r.invocate(at, name, [])
                return []
            r.imports['host']['h%d' % i] = rt.host(r, [], [], fn)
        if layout == 'one':
            self.main = self.leaf = r.instance(rt.decode(one(chain)[0]))
        else:
            b = many(chain)
            for i, x in zip(reversed(range(len(chain) + 1)), b):
                inst = r.instance(rt.decode(x))
                self.inst[i] = inst
                r.imports['m%d' % i] = {'f': [e for e in inst.exps if e.name == 'f'][0].data}
                if i == len(chain):
                    self.leaf = inst
                    r.imports['leaf'] = {'memory': [e for e in inst.exps if e.name == 'memory'][0].data}
                self.main = inst
        self.mem = r.exported_memory(self.leaf, 'memory')

    def set(self, what, when, code):
        self.mem.data[BEFORE:END] = bytes(END - BEFORE)
        struct.pack_into('<III', self.mem.data, WHEN, when, what, code)
        self.wasi.fd[1].pipe = io.BytesIO(bytearray())

    def run(self, how='main'):
        rt.arm(10)
        try:
            if how == 'main':
                return self.wasi.main(self.rt, self.main)
            return self.rt.invocate(self.main, '_start', [])
        except rt.Hang:
            return 'hang'
        except SystemExit as e:
            return 'exit', e.code
        except Exception as e:
            return rt.Trap(e)
        finally:
            rt.disarm()

    def counts(self):
        n = len(self.chain)
        g = lambda a: struct.unpack_from('<I', self.mem.data, a)[0]
        return ([g(BEFORE + 4 * i) for i in range(n)], [g(AFTER + 4 * i) for i in range(n)], g(VISIT), g(LOST), g(LEFT))


class Stop(Exception):
    pass


def reference(chain, what, when):
    n = len(chain)
    before, after, c = [0] * n, [0] * n, [0, 0, 0]

    def go(i):
        if i == n:
            c[0] += 1
            if c[0] == when and what:
                raise Stop
            c[2] += 1
            return
        before[i] += 1
        for _ in range(2 if chain[i] == 'loop' else 1):
            go(i + 1)
        after[i] += 1
    try:
        go(0)
        ended = False
    except Stop:
        ended = True
    return ended, (before, after, *c)


def judge(p, what, when, code, how='main', roe=1):
    """None, or what is wrong."""
    p.wasi.return_on_exit = roe
    p.set(what, when, code)
    got = p.run(how)
    ended, want = reference(p.chain, what, when)
    if p.counts() != want:
        return 'entered, left, visited: %r instead of %r (outcome %r)' % (p.counts(), want, got)
    out = p.wasi.fd[1].pipe
    if how == 'main':
        data = out.read()
        if data != b'x' * want[2]:
            return 'output %r instead of %d times x' % (data, want[2])
    if not ended:
        ok = got == (0 if how == 'main' else [])
    elif what > 1:
        ok = isinstance(got, rt.Trap) and got.exc.args[:1] != (SystemExit,)
    elif not roe:
        ok = isinstance(got, tuple) and isinstance(got[1], int) and got[1] % 2 ** 32 == code
    elif how == 'main':
        ok = isinstance(got, int) and not isinstance(got, bool) and got % 2 ** 32 == code
    else:
        ok = isinstance(got, rt.Trap)
    if not ok:
        return 'outcome %r for %s %d' % (got, ['return', 'exit', 'trap', 'trap'][what], code)
    if p.rt.invocate(p.leaf, 'swap', [3, -4]) != [-4, 3]:
        return 'a later call gives a wrong result'
    return None


def chains(ctx, layout, depth, first):
    for d in range(depth + 1):
        for chain in itertools.product(CTX, repeat=d):
            if d and chain[0] != first or not d and first != CTX[0]:
                continue
            visits = 1 << chain.count('loop')
            p = Prog(chain, layout)
            ctx.traces += 1
            ctx.states += 1
            cases = [(0, 1, 0)]
            for when in sorted({1, min(2, visits), min(3, visits), visits}):
                cases += [(1, when, 0), (1, when, 77), (2, when, 0), (3, when, 0), (1, when, 2 ** 32 - 1)]
            for what, when, code in cases + [(0, 1, 0)]:
                for how, roe in (('main', 1), ('main', 0), ('invocate', 1)) if d < 3 else (('main', 1),):
                    ctx.ev()
                    ctx.transitions += 1
                    ctx.outcome(['return', 'exit', 'unreachable', 'div0'][what])
                    bad = judge(p, what, when, code, how, roe)
                    if bad:
                        ctx.viol('%s:%s:%d,%d,%d,%s,%d' % (layout, '.'.join(chain), what, when, code, how, roe),
                                 'chain %s, %s: %s' % ('.'.join(chain), layout, bad),
                                 {'chain': chain, 'layout': layout, 'what': what, 'when': when, 'code': code})
                        if ctx.full:
                            return
            ctx.sample({'chain': chain, 'layout': layout})


def depths(ctx, layout, kind):
    """The same with long chains."""
    for n in DEPTHS if kind != 'host' else DEPTHS[:4]:
        for chain in ((kind,) * n, ('plain',) * (n - 1) + (kind,), (kind,) + ('plain',) * (n - 1), ('plain', kind) * (n // 2), (kind, 'block') * (n // 2)):
            if kind == 'loop' and chain.count('loop') > 5 or kind == 'host' and chain.count('host') > 1 and n > 20:
                continue
            visits = 1 << chain.count('loop')
            p = Prog(chain, layout)
            ctx.traces += 1
            ctx.states += 1
            for what, when, code in [(0, 1, 0), (1, 1, 0), (1, visits, 77), (2, visits, 0), (3, 1, 0), (1, 1, 2 ** 32 - 1), (0, 1, 0)]:
                for how, roe in (('main', 1), ('main', 0), ('invocate', 1)):
                    ctx.ev()
                    ctx.transitions += 1
                    ctx.outcome(['return', 'exit', 'unreachable', 'div0'][what])
                    bad = judge(p, what, when, code, how, roe)
                    if bad:
                        ctx.viol('deep:%s:%s,%d:%d,%d,%d,%s,%d' % (layout, chain[:3], n, what, when, code, how, roe), 'chain %d of %s, %s: %s' % (
                            n, chain[:3], layout, bad), {'chain': chain, 'layout': layout, 'what': what, 'when': when, 'code': code})
                        if ctx.full:
                            return


def codes(ctx, chain, layout):
    p = Prog(chain, layout)
    ctx.traces += 1
    ctx.states += 1
    for code in sorted(set(CODES) | set(range(1024))):
        for how, roe in (('main', 1), ('main', 0)):
            ctx.ev()
            ctx.transitions += 1
            bad = judge(p, 1, 1, code, how, roe)
            if bad:
                ctx.viol('code:%d:%d' % (code, roe), bad, {'code': code, 'return_on_exit': roe, 'chain': chain})
                if ctx.full:
                    return
    ctx.outcome('codes', 1)


DEPTHS = [5, 9, 17, 33, 65, 129, 300]
ENDS = [(0, 1, 0), (1, 1, 0), (1, 1, 7), (2, 1, 0), (3, 1, 0), (1, 2, 9)]


def programs(ctx, layout, outer):
    """A host function of a running program runs a second program, on the same runtime and on another one, which ends in each
    way; the first then goes on and ends in each way itself."""
    for inner in [()] + [(c,) for c in CTX] + [('host', 'deep'), ('deep', 'host'), ('loop', 'loop')]:
        for shared in (True, False):
            found = []
            q = Prog(inner, layout, None)
            todo = []
            p = Prog(outer, layout, q.rt if shared else None, lambda: found.append(judge(q, *todo[0])))
            ctx.traces += 1
            ctx.states += 1
            for a in ENDS:
                for b in ENDS:
                    for (how, roe), (how2, roe2) in itertools.product((('main', 1), ('invocate', 1), ('main', 0)), repeat=2):
                        if how2 != 'main' and (a, b) != (ENDS[0], ENDS[2]):
                            continue
                        todo[:] = [(*b, how2, roe2)]
                        del found[:]
                        ctx.ev()
                        ctx.transitions += 2
                        bad = judge(p, *a, how, roe)
                        if not found:
                            bad = bad or 'the second program was not run'
                        for x in found:
                            bad = bad or x and 'the second program: ' + x
                        ctx.outcome('first %d second %d' % (a[0], b[0]))
                        if bad:
                            ctx.viol('programs:%s:%s:%s:%s,%s:%s,%s,%s' % (layout, '.'.join(outer), '.'.join(inner), a, b, shared, how, how2),
                                     'first %s, second %s, %s: %s' % ('.'.join(outer), '.'.join(inner), layout, bad))
                            if ctx.full:
                                return


class Hist:
    """Histories of whole runs on one runtime; one more instance than programs shows what is left behind."""
    CH = ('deep', 'indirect', 'host', 'loop')

    def __init__(self):
        self.p = Prog(self.CH, 'one')
        self.n = 0

    def step(self, o):
        bad = judge(self.p, *o)
        if bad:
            raise Mismatch('%r: %s' % (o, bad))
        return str(o[0])

    def key(self):
        st = self.p.rt.machine.stack
        return bfs.dump([st.frame, st.label, st.value, bytes(self.p.mem.data[:64])], skip=('ModuleInst',)), \
            [(f.wasm_status, f.host_status) for f in self.p.wasi.fd].__repr__(), bytes(self.p.mem.data[BEFORE:1024])


OPS = [(w, n, c, h, r) for w, n, c in ((0, 1, 0), (1, 1, 5), (1, 2, 2 ** 31), (2, 1, 0), (3, 2, 0))
       for h, r in (('main', 1), ('invocate', 1), ('main', 0))]


def histories(ctx, first, depth):
    bfs.search(ctx, Hist, OPS, depth - 1, prefix=(OPS[first],), label='history')


def jobs(tier):
    q = tier == 'quick'
    out = [('chains', ('one', 4 if q else 5, c)) for c in CTX] + [('chains', ('many', 3 if q else 4, c)) for c in CTX]
    out += [('depths', (l, c)) for l in ('one', 'many') for c in CTX]
    out += [('codes', (c, l)) for c in ((), ('host',), ('deep', 'indirect')) for l in ('one', 'many')]
    out += [('programs', (l, c)) for l in ('one', 'many') for c in (('host',), ('deep', 'host'), ('host', 'value'), ('loop', 'host', 'block'))]
    out += [('histories', (i, 3 if q else 5)) for i in range(len(OPS))]
    return out
