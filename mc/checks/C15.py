"""C15: runtimes are independent of each other, whatever the threads they run in, and of the process around them."""
import decimal
import gc
import io
import locale
import os
import random
import resource
import signal
import struct
import sys
import warnings

import pywasm

from .. import asm, mods, rt, sched, simd, wasi
from ..asm import op, lget, lset, i32c, i64c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from ..wasi import W, unprivileged

LEVEL = 'model_checking'
RULE = ('two programs, each on a runtime of its own and in a thread of its own (instances of the same decoded module where both run '
        'the same program), are run under a controlled scheduler through every schedule of the stated bound; points at which '
        'a thread gives way are the bytecode instructions of the package under test that touch anything outside the running frame '
        '(fine), or the first of those on each source line (coarse). Results, memory, output and files of each program must be '
        'those of the program run alone. Also every program is run alone and the settings of the process compared before and after '
        'it. Every schedule is non-trivial.')
ASSUMPTIONS = ['one runtime is used by one thread at a time', 'code of the standard library runs without giving way',
               'a thread gives way between bytecode instructions only, which is what the interpreter lock allows']
BOUNDS = {'quick': 'one preemption, coarse: 11 programs over the instruction set with themselves, every WASI function with itself, two mixed WASI '
          'programs; two preemptions, coarse: the WASI functions with up to 67 (paths) or 40 points of their own; one preemption, fine: the '
          'first and last visit of each place of the numeric and vector instructions, in the first of an eighth of them that visits it',
          'thorough': 'one preemption, coarse: every pair of 17 programs, fine: each with itself and every numeric and vector instruction; two '
          'preemptions, coarse: every WASI function, 6 programs with themselves and, at the first and last visit of each place, in the first of '
          'a 32nd of the numeric and vector instructions that visits it'}


# ---- programs: name -> prepare(variant, box) giving a thunk

def pure(build, name, calls):
    """An instance of a module decoded once."""
    desc = []

    def prepare(v, box):
        if not desc:
            desc.append(rt.decode(build()))
        r = pywasm.core.Runtime()
        mods.env(r)
        inst = r.instance(desc[0])

        def run():
            out = []
            for f, args in calls(v):
                try:
                    out.append(r.invocate(inst, f, args))
                except Exception as e:
                    out.append('trap')
            return repr(out)
        return run
    return prepare


def one(ins, params, results, pre=b''):
    m = asm.Mod()
    m.mem(1, 3)
    m.func(params, results, body=pre + b''.join(lget(i) for i in range(len(params))) + ins, export='f')
    return m.build


def ints():
    m = asm.Mod()
    m.func([I64, I32], [I64, I32, I32], body=lget(0) + i64c(7) + op('i64_div_s') + lget(0) + op('i64_rotl') + lget(1) + i32c(3) +
           op('i32_rem_u') + lget(0) + i64c(3) + op('i64_lt_s'), export='f')
    return m.build()


def floats():
    m = asm.Mod()
    m.func([F32, F64], [F32, F64, I32], body=lget(0) + lget(0) + op('f32_div') + op('f32_nearest') + lget(1) + op('f64_sqrt') + lget(0) +
           op('f64_promote_f32') + op('f64_min') + lget(1) + op('i32_trunc_sat_f64_s'), export='f')
    return m.build()


def vectors():
    m = asm.Mod()
    m.func([V128], [V128, V128], body=lget(0) + lget(0) + op('i16x8_q15mulr_sat_s') + lget(0) + op('f32x4_sqrt'), export='f')
    return m.build()


def memory():
    m = asm.Mod()
    m.mem(1, 3)
    d = m.data_passive(b'0123456789')
    m.func([I32, I64], [I64, I32], body=lget(0) + lget(1) + op('i64_store', 3, 0) + lget(0) + i32c(3) + i32c(4) +
           op('memory_init', asm.u(d), b'\0') + i32c(100) + lget(0) + i32c(8) + op('memory_copy', b'\0\0') + i32c(100) +
           op('i64_load', 3, 0) + i32c(1) + op('memory_grow', b'\0'), export='f')
    return m.build()


def calls():
    m = asm.Mod()
    t = m.type([I32], [I32])
    f = m.func([I32], [I32], [(1, I32)], lget(0) + op('if', bytes([I32])) + lget(0) + lget(0) + i32c(1) + op('i32_sub') + asm.call(0) +
               op('i32_mul') + op('else') + i32c(1) + op('end'), export='f')
    m.table(FUNCREF, 2)
    m.elem_active(i32c(1), [f])
    m.func([I32], [I32], body=lget(0) + i32c(1) + op('call_indirect', t, 0), export='g')
    return m.build()


def control():
    m = asm.Mod()
    m.func([I32], [I32], [(1, I32)], op('loop', b'\x40') + op('block', b'\x40') + op('block', b'\x40') + lget(0) +
           op('br_table', asm.vec([asm.u(1), asm.u(0)]), 1) + op('end') + lget(1) + i32c(10) + op('i32_add') + lset(1) + op('end') +
           lget(0) + i32c(1) + op('i32_sub') + asm.ltee(0) + op('br_if', 0) + op('end') + lget(1), export='f')
    return m.build()


def tables():
    m = asm.Mod()
    m.table(EXTERNREF, 2, 9)
    g = m.glob(I64, 1, i64c(5))
    m.func([EXTERNREF, I64], [EXTERNREF, I32, I64], body=i32c(1) + lget(0) + op('table_set', 0) + lget(0) + i32c(2) + op('table_grow', 0) +
           op('drop') + lget(1) + op('global_set', g) + i32c(3) + op('table_get', 0) + op('table_size', 0) + op('global_get', g), export='f')
    return m.build()


def traps():
    m = asm.Mod()
    m.mem(1)
    m.func([I32], [I32], body=op('block', bytes([I32])) + i32c(5) + lget(0) + op('i32_load', 2, 0) + op('i32_add') + op('end'), export='f')
    return m.build()


def hosts(v, box):
    m = asm.Mod()
    h = m.import_func('e', 'h', [I32, F32, V128], [V128, I64])
    m.func([I32, V128], [V128, I64], body=lget(0) + asm.f32c(0x3fc00000 + 0x400000) + lget(1) + asm.call(h), export='f')
    desc = rt.decode(m.build())
    r = pywasm.core.Runtime()
    got = []

    def fn(_, a):
        got.append(repr(a))
        return [a[2], a[0] * 3]
    r.imports['e'] = {'h': rt.host(r, [I32, F32, V128], [V128, I64], fn)}
    inst = r.instance(desc)
    return lambda: repr(r.invocate(inst, 'f', [v + 5, bytearray([v] * 16)])) + repr(got)


def decodes(v, box):
    m = asm.Mod()
    m.mem(1)
    m.data_active(i32c(v), b'ab')
    m.func([I32], [I64], [(2 + v, I64)], op('block', b'\x40') + lget(0) + op('br_if', 0) + op('end') + i64c(77 + v * 1000), export='n%d' % v)
    b = m.build()

    def run():
        d = rt.decode(b)
        return repr(([f.locals[0].n for f in d.func], [[str(i) for i in f.expr.data] for f in d.func], [e.name for e in d.exps], d.data[0].init))
    return run


LINK = []


def links_module():
    m = asm.Mod()
    g = m.import_global('e', 'g', I32, 0)
    m.table(FUNCREF, 3, export='t')
    m.mem(1, export='m')
    g2 = m.glob(I32, 1, op('global_get', g), export='g2')
    st = m.func([], [], body=op('global_get', g) + op('global_set', g2))
    m.start(st)
    m.data_active(op('global_get', g), b'xyz')
    m.elem_active(i32c(1), [st])
    return m.build()


def links(v, box):
    if not LINK:
        LINK.append(rt.decode(links_module()))
    r = pywasm.core.Runtime()
    r.imports['e'] = {'g': r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), 0), pywasm.core.ValInst.from_i32(40 + v))}

    def run():
        i = r.instance(LINK[0])
        return repr((r.exported_global(i, 'g2').data, bytes(r.exported_memory(i, 'm').data[:64])))
    return run


def program(f, pre=None, again=False):
    """With `again`, f leaves the descriptors as they are and one instance serves all schedules."""
    kept = {}

    def prepare(v, box):
        p = '%s/%d' % (box, v)
        if not os.path.isdir(p):
            os.mkdir(p)
        wasi.clear(p)
        os.mkdir(p + '/d')
        with open(p + '/a', 'w') as h:
            h.write('contents of ' + str(v))
        os.utime(p + '/a', ns=(10 ** 9 * v, 10 ** 9 + v))
        w = kept.get(v) or W({'p': p}, ['prog%d' % v, 'x' * v], {'N': str(v)})
        if again:
            kept[v] = w
            w.mem[:] = bytes(len(w.mem))
        w.wasi.fd[1].pipe = io.BytesIO()
        if pre:
            pre(w, v)

        def run():
            out = f(w, v)
            return repr((out, wasi.snapshot(p)))
        if not again:
            run.close = w.close
        return run
    return prepare


def w_paths(w, v):
    return [w.path('path_create_directory', 3, 'n%d' % v), w.path2('path_rename', 3, 'a', 3, 'd/b'), w.symlink('d', 3, 'l')]


def w_open(w, v):
    e, fd = w.open(3, 'new', oflags=wasi.O_CREAT)
    return [e, fd, w.write(fd, [b'%d' % v, b'more']), w('fd_close', fd)]


def w_read(w, v):
    e, fd = w.open(3, 'a')
    return [e, fd, w.read(fd, [3, 20]), w.seek(fd, -1, 2)]


def w_args(w, v):
    r = [w('args_sizes_get', 64, 72), w('args_get', 128, 256), w('environ_get', 80, 512)]
    return r, bytes(w.mem[:1024])


def w_out(w, v):
    return w.write(1, [b'out%d' % v]), w.wasi.fd[1].pipe.getvalue()


def w_exit(w, v):
    w.p32(8, 1, 40 + v)
    w.ended = True
    return w.wasi.main(w.rt, w.inst)


F64V = lambda v: struct.unpack('<d', struct.pack('<d', v * 1.7 + 2))[0]
PROGS = {
    'ints': pure(ints, 'f', lambda v: [('f', [-1000 + 77 * v, 5 + v])]),
    'floats': pure(floats, 'f', lambda v: [('f', [0.1 + v, F64V(v)])]),
    'vectors': pure(vectors, 'f', lambda v: [('f', [bytearray(range(v * 50, v * 50 + 16))])]),
    'memory': pure(memory, 'f', lambda v: [('f', [8 + 16 * v, 0x0102030405060708 << v])]),
    'calls': pure(calls, 'f', lambda v: [('g', [2 + v])]),
    'control': pure(control, 'f', lambda v: [('f', [2 + v])]),
    'tables': pure(tables, 'f', lambda v: [('f', [v + 1, 1 << 40 + v])]),
    'traps': pure(traps, 'f', lambda v: [('f', [65534 - v]), ('f', [v])]),
    'hosts': hosts, 'decodes': decodes, 'links': links,
    'paths': program(w_paths), 'open': program(w_open), 'read': program(w_read), 'args': program(w_args), 'out': program(w_out),
    'exit': program(w_exit),
}
ALLD = wasi.ALLR & ~64
WASI = ['paths', 'open', 'read', 'args', 'out', 'exit']


# ---- schedules

def settings():
    """What belongs to the whole process."""
    um = os.umask(0)
    os.umask(um)
    return {
        'directory': os.getcwd(), 'umask': um, 'environment': dict(os.environ), 'recursion limit': sys.getrecursionlimit(),
        'signals': [repr(signal.getsignal(n)) for n in range(1, 32)], 'streams': [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)],
        'stream descriptors': [x.fileno() for x in (sys.stdin, sys.stdout, sys.stderr)],
        'limits': [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU)],
        'generator': hash(random.getstate()), 'decimal': repr(decimal.getcontext()), 'locale': locale.setlocale(locale.LC_ALL),
        'collector': (gc.isenabled(), gc.get_threshold()), 'switch interval': sys.getswitchinterval(), 'arguments': list(sys.argv),
        'display': id(sys.excepthook), 'descriptors': wasi.fds(), 'warnings': len(warnings.filters), 'path': list(sys.path),
        'digits': sys.get_int_max_str_digits(), 'timer': signal.getitimer(signal.ITIMER_PROF), 'user': (os.getuid(), os.getgid()),
        'trace': (sys.gettrace(), sys.getprofile()),
    }


def close(*fs):
    for f in fs:
        if hasattr(f, 'close'):
            f.close()


def process(ctx):
    unprivileged(ctx, _process)


class Watch:
    """Reports what changed since the last look."""

    def __init__(self, ctx):
        self.ctx = ctx
        rt.arm(20)
        rt.disarm()
        self.last = settings()

    def look(self, what, but=()):
        now = settings()
        self.ctx.ev()
        self.ctx.transitions += 1
        self.ctx.outcome('process')
        for k in now:
            if now[k] != self.last[k] and k not in but:
                self.ctx.viol('%s changes the process: %s' % (what, k), 'before %r, after %r' % (str(self.last[k])[:300], str(now[k])[:300]))
        self.last = now


def _process(ctx, box):
    os.umask(0o27)
    for name in list(PROGS) + list(OPS):
        make = PROGS[name] if name in PROGS else program(OPS[name][1], OPS[name][0])
        for v in (0, 1):
            close(make(v, box))
            watch = Watch(ctx)
            f = make(v, box)
            f()
            close(f)
            watch.look(name)
    b = links_module()
    watch = Watch(ctx)
    for n in range(len(b)):
        try:
            pywasm.core.ModuleDesc.from_reader(io.BytesIO(b[:n]))
        except Exception:
            pass
        watch.look('decoding %d of %d bytes' % (n, len(b)))
    for k in range(3):
        r = pywasm.core.Runtime()
        if k:
            r.imports['e'] = {'g': r.allocate_global(pywasm.core.GlobalType(rt.VT[I32](), 0), pywasm.core.ValInst.from_i32((k - 1) * 70000))}
        try:
            r.instance(rt.decode(b))
        except Exception:
            pass
        watch.look('an instantiation (%d)' % k)


PATHS = ['a', 'd', 'no', 'no/x', 'd/x', 'a/x', 'l', 'loop', 'out', '../0', '/', '', '.', 'x' * 300, 'd/\0', b'\xff']
FDS = [3, 4, 5, 0, 6, 99]


def errors(ctx, fd):
    unprivileged(ctx, _errors, fd)


def _errors(ctx, box, fd):
    """Every WASI function in situations where most of them fail."""
    os.umask(0o27)
    state = {}

    def fresh():
        if state:
            state['w'].mem[:64] = bytes(64)
            state['close']()
        f = program(None, lambda w, v: (state.update(w=w), w.symlink('a', 3, 'l'), w.symlink('loop', 3, 'loop'), w.open(3, 'a'),
                                        w.open(3, 'd', oflags=wasi.O_DIR, base=ALLD)))(0, box)
        if not os.path.lexists(box + '/0/out'):
            os.symlink('/', box + '/0/out')
        state['close'] = f.close
        state['w'].open(3, 'a', base=0)
        return state['w']
    fresh()
    fresh()
    watch = Watch(ctx)
    calls = []
    for f in ('path_create_directory', 'path_remove_directory', 'path_unlink_file'):
        calls += [('%s %r' % (f, p), lambda w, f=f, p=p: w.path(f, fd, p)) for p in PATHS]
    for p in PATHS:
        calls += [('path_open %r %d %d %d' % (p, o, b, fl), lambda w, p=p, o=o, b=b, fl=fl: w.open(fd, p, oflags=o, base=b, flags=fl))
                  for o in range(16) for b in (2, 66, ALLD) for fl in (0, 1)]
        calls += [('path_filestat_get %r' % p, lambda w, p=p: w.stat(fd, p)), ('path_readlink %r' % p, lambda w, p=p: w.readlink(fd, p)),
                  ('path_symlink %r' % p, lambda w, p=p: w.symlink('a', fd, p)), ('path_symlink to %r' % p, lambda w, p=p: w.symlink(p, fd, 's')),
                  ('times %r' % p, lambda w, p=p: w('path_filestat_set_times', fd, 1, *w.text(p), 5, 6, 5))]
        for q in PATHS:
            calls += [('%s %r %r' % (f, p, q), lambda w, f=f, p=p, q=q, x=x: w.path2(f, fd, p, 3, q, *x))
                      for f, x in (('path_rename', ()), ('path_link', (0,)), ('path_link', (1,)))]
    rest = {n: [64 if i else fd for i in range(len(t))] for n, t in wasi.SIG.items() if n[:2] in ('fd', 'so')}
    rest.update({n: [64 + 64 * i for i in range(len(t))] for n, t in wasi.SIG.items() if n[:3] in ('arg', 'env', 'ran', 'clo', 'sch')})
    for n, args in rest.items():
        for x in (0, 1, 8, 1 << 31, (1 << 32) - 1):
            calls += [('%s %s' % (n, a), lambda w, n=n, a=a: w(n, *a))
                      for i in range(len(args)) for a in [[x if j == i else y for j, y in enumerate(args)]] if n != 'fd_renumber' or a[0] != a[1]]
    top = wasi.snapshot(box + '/0')
    base = len(state['w'].wasi.fd)
    for what, c in calls:
        r = c(state['w'])
        watch.look('fd %d, %s' % (fd, what), ('descriptors',))
        if r != 0 and not isinstance(r, tuple) or isinstance(r, tuple) and r[0] != 0:
            if len(state['w'].wasi.fd) == base and wasi.snapshot(box + '/0') == top and what[:8] not in ('fd_close', 'fd_renum'):
                continue
        fresh()
        watch.last = settings()
    state['w'].mem[:64] = bytes(64)
    state['close']()


class Pair:
    """Two prepared programs, what each gives alone, and how many points it has."""

    def __init__(self, ctx, s, name, make, ends=False, past=()):
        self.ctx, self.s, self.name, self.make = ctx, s, name, make
        self.want, self.n, self.at, new = [], [], [], set()
        for v in (0, 1):
            for _ in range(2):
                f = make(v)
                r, log = s.alone(f)
                close(f)
            self.want.append(r)
            self.n.append(len(log))
            # Of the visits of one place, the first and the last.
            at = {p: i for i, p in reversed(list(enumerate(log, 1)))}
            self.at.append(sorted({i for d in (at, {p: i for i, p in enumerate(log, 1)}) for p, i in d.items() if p not in past})
                           if ends else range(2, len(log) + 1))
            new.update(at)
        if ends and past != ():
            past.update(new)

    def go(self, plan, first=0):
        fs = [self.make(0), self.make(1)]
        out = self.s.run(fs, first, plan)
        self.ctx.ev()
        self.ctx.transitions += 1
        self.ctx.traces += 1
        if out is None:
            self.ctx.viol('%s %s' % (self.name, plan), 'does not end')
            raise RuntimeError('threads are stuck')
        close(*fs)
        for i in (0, 1):
            if out[i] != self.want[i]:
                self.ctx.viol('%s: %d then %s' % (self.name, first, plan), 'thread %d gives %.300r, alone %.300r' % (i, out[i], self.want[i]),
                              {'schedule': plan, 'first': first})
                return False
        self.ctx.outcome('as alone')
        return True

    def single(self):
        for first in (0, 1):
            for k in self.at[first]:
                self.go([k], first)
                if self.ctx.full:
                    return

    def double(self, part=0, parts=1):
        for k in self.at[0][part::parts]:
            for l in self.at[1]:
                self.go([k, l])
                if self.ctx.full:
                    return


# ---- every WASI function: name -> (what is done before, what is done under the scheduler)

def held(oflags=0, name='a', **k):
    return lambda w, v: w.open(3, name, oflags=oflags, **k)


def _stat(r):
    return r[0], {k: x for k, x in (r[1] or {}).items() if k in ('type', 'nlink', 'size', 'mtim')}


def _new(w, v):
    p = os.path.dirname(w.wasi.fd[3].host_name) + '/%d' % v
    x = W({'/': p, 'y': p + '/d'}, ['q%d' % v], {'E': '%d' % v})
    r = [x.path('path_create_directory', 3, 'made%d' % v), x('args_sizes_get', 64, 72), x.u32(72), x('fd_prestat_get', 4, 64), x.u32(68)]
    return r, x.close()


def _end(w, v):
    w('fd_close', 3)
    w.ended = True
    return w.wasi.main(w.rt, w.inst)


def _mem(f, *a, n=1024):
    return lambda w, v: (w(f, *a), bytes(w.mem[:n]))


def _poll(w, v):
    w.mem[1024:1024 + 48] = struct.pack('<QB7xIxxxxQQHxxxx', 7 + v, 0, 1, 0, 0, 0)[:48].ljust(48, b'\0')
    return w('poll_oneoff', 1024, 2048, 1, 64), bytes(w.mem[2048:2059]), w.u32(64)


def _random(w, v):
    b = w('random_get', 1024 + v, 8), bytes(w.mem[1016:1024 + v]), bytes(w.mem[1032 + v:1060])
    return b


OPS = {
    'path_create_directory': (None, lambda w, v: w.path('path_create_directory', 3, 'n')),
    'path_remove_directory': (None, lambda w, v: w.path('path_remove_directory', 3, 'd')),
    'path_unlink_file': (None, lambda w, v: w.path('path_unlink_file', 3, 'a')),
    'path_rename': (None, lambda w, v: w.path2('path_rename', 3, 'a', 3, 'd/b')),
    'path_link': (None, lambda w, v: w.path2('path_link', 3, 'a', 3, 'd/b', 0)),
    'path_symlink': (None, lambda w, v: w.symlink('a', 3, 'l')),
    'path_readlink': (lambda w, v: w.symlink('a%d' % v, 3, 'l'), lambda w, v: w.readlink(3, 'l')),
    'path_filestat_get': (None, lambda w, v: _stat(w.stat(3, 'a'))),
    'path_filestat_set_times': (None, lambda w, v: (w('path_filestat_set_times', 3, 0, *w.text('a'), 1000 + v, 2000, 5),
                                                    os.stat(w.wasi.fd[3].host_name + '/a').st_mtime_ns)),
    'path_open': (None, lambda w, v: w.open(3, 'new%d' % v, oflags=wasi.O_CREAT)),
    'fd_read': (held(), lambda w, v: w.read(4, [3, 20])),
    'fd_pread': (held(), lambda w, v: w.read(4, [3, 20], 2 + v)),
    'fd_write': (held(), lambda w, v: w.write(4, [b'%d' % v, b'more'])),
    'fd_pwrite': (held(), lambda w, v: w.write(4, [b'%d' % v, b'more'], 3)),
    'fd_seek': (held(), lambda w, v: w.seek(4, 5 + v, 0)),
    'fd_tell': (lambda w, v: (w.open(3, 'a'), w.seek(4, 3 + v, 0)), lambda w, v: w.tell(4)),
    'fd_allocate': (held(), lambda w, v: w('fd_allocate', 4, 20, 10 + v)),
    'fd_filestat_set_size': (held(), lambda w, v: w('fd_filestat_set_size', 4, 3 + v)),
    'fd_filestat_get': (held(), lambda w, v: _stat(w.stat(4))),
    'fd_filestat_set_times': (held(), lambda w, v: (w('fd_filestat_set_times', 4, 1000, 2000 + v, 5), w.stat(4)[1]['mtim'])),
    'fd_fdstat_get': (held(), lambda w, v: w.fdstat(4 - v)),
    'fd_fdstat_set_flags': (held(), lambda w, v: (w('fd_fdstat_set_flags', 4, wasi.APPEND), w.write(4, [b'x']))),
    'fd_fdstat_set_rights': (held(), lambda w, v: (w('fd_fdstat_set_rights', 4, 2 + v, 0), w.fdstat(4))),
    'fd_readdir': (lambda w, v: w.path('path_create_directory', 3, 'sub%d' % v), lambda w, v: (
        w('fd_readdir', 3, 1024, 400, 0, 64), w.u32(64), sorted(x for x in (b'sub0', b'sub1', b'a') if x in bytes(w.mem[1024:1424])))),
    'fd_renumber': (lambda w, v: (w.open(3, 'a'), w.open(3, 'a')), lambda w, v: (w('fd_renumber', 4, 5), w.read(5, [9]), w('fd_close', 4))),
    'fd_sync': (held(), lambda w, v: w('fd_sync', 4)), 'fd_datasync': (held(), lambda w, v: w('fd_datasync', 4)),
    'fd_advise': (held(), lambda w, v: w('fd_advise', 4, 0, 5, 0)), 'fd_close': (held(), lambda w, v: (w('fd_close', 4), w('fd_tell', 4, 64))),
    'fd_prestat_get': (None, _mem('fd_prestat_get', 3, 64)), 'fd_prestat_dir_name': (None, _mem('fd_prestat_dir_name', 3, 64, 1)),
    'args_get': (None, _mem('args_get', 64, 128)), 'args_sizes_get': (None, _mem('args_sizes_get', 64, 128)),
    'environ_get': (None, _mem('environ_get', 64, 128)), 'environ_sizes_get': (None, _mem('environ_sizes_get', 64, 128)),
    'clock_res_get': (None, _mem('clock_res_get', 1, 64, n=64)), 'clock_time_get': (None, _mem('clock_time_get', 1, 1, 64, n=64)),
    'random_get': (None, _random), 'poll_oneoff': (None, _poll), 'end': (held(), _end), 'new': (None, _new),
}


def function(ctx, name, limit, part=0, parts=1):
    unprivileged(ctx, _function, name, limit, part, parts)


def _function(ctx, box, n, limit, part, parts):
    with sched.Sched(0) as s:
        yield_ = program(lambda w, v: w('sched_yield'))
        x = yield_(0, box)
        s.visited(x)
        s.skip = s.visited(x)
        close(x)
        pre, f = OPS[n]
        prog = program(f, pre, n[:5] == 'path_' and n != 'path_open')
        p = Pair(ctx, s, n, lambda v: prog(v, box), n == 'new' and ctx.tier == 'quick')
        ctx.states += 1
        ctx.sample({'function': n, 'points': p.n})
        if part == 0:
            p.single()
        if len(p.at[0]) * len(p.at[1]) <= limit:
            ctx.note('functions with two preemptions', 1 if part == 0 else 0)
            p.double(part, parts)


def pair(ctx, a, b, fine, bound, part=0, parts=1):
    unprivileged(ctx, _pair, a, b, fine, bound, part, parts)


def _pair(ctx, box, a, b, fine, bound, part, parts):
    with sched.Sched(fine) as s:
        p = Pair(ctx, s, '%s with %s' % (a, b), lambda v: PROGS[(a, b)[v]](v, box))
        ctx.note('points of %s (%s)' % (a, 'fine' if fine else 'coarse'), p.n[0] if part == 0 else 0)
        ctx.sample({'programs': [a, b], 'points': p.n, 'preemptions': bound})
        ctx.states += 1
        if bound == 1:
            p.single()
        else:
            p.double(part, parts)


def instructions():
    """name -> (operand types, result type, code)"""
    from . import C01, C03
    out = {}
    for n, t, ft in ((32, I32, F32), (64, I64, F64)):
        for o in C01.UN[n]:
            out['i%d_%s' % (n, o)] = ([t], I32 if o == 'eqz' else t, b'')
        for o in C01.ref.IBIN:
            out['i%d_%s' % (n, o)] = ([t, t], I32 if o[:2] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') else t, b'')
        for o in C01.ref.FUN:
            out['f%d_%s' % (n, o)] = ([ft], ft, b'')
        for o in C01.ref.FBIN:
            out['f%d_%s' % (n, o)] = ([ft, ft], I32 if o[:2] in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') else ft, b'')
    for o, (s, d, _) in C03.OPS.items():
        out[o] = ([asm.NAMES[s]], asm.NAMES[d], b'')
    car = {'v': V128, 'i': I32, 'l': I64, 'f': F32, 'd': F64}
    res = {'v': V128, 'i32': I32, 'i64': I64, 'f32': F32, 'f64': F64}
    for o, (kinds, spec, r, _) in simd.OPS.items():
        out[o] = ([car[k] for k in kinds], res[r], bytes(x - 1 for x in spec) if spec else b'')
    return out


VAL = {I32: (-1000000007, 77), I64: (-(1 << 52) - 12345, 99), F32: (2.75, 100.5), F64: (-0.7, 1234567.25),
       V128: (bytearray(range(3, 19)), bytearray((255 - 13 * i) % 256 for i in range(16)))}


def prep(o, ps, r, ins, im):
    m = asm.Mod()
    m.func(ps, [r], body=b''.join(lget(i) for i in range(len(ps))) + ins + im, export='f')
    args = lambda v: [VAL[t][v ^ i & 1] for i, t in enumerate(ps)]
    p = pure(m.build, o, lambda v: [('f', args(v))])
    return lambda v: p(v, None)


def numeric(ctx, names, fine, bound, ends, once=False):
    I = instructions()
    common = {}
    past = set() if once else ()
    with sched.Sched(fine) as s:
        for o in names:
            ps, r, im = I[o]
            # A thread gives way at what is the instruction's own: passing arguments and results is in the other programs.
            key = tuple(ps), r
            if key not in common:
                s.skip = ()
                m = asm.Mod()
                m.func([*ps, r], [r], body=b''.join(lget(i) + op('drop') for i in range(len(ps))) + lget(len(ps)), export='f')
                p = pure(m.build, '', lambda v: [('f', [VAL[t][v] for t in (*ps, r)])])
                s.visited(p(0, None))
                common[key] = s.visited(p(0, None))
            s.skip = common[key]
            q = Pair(ctx, s, o, prep(o, ps, r, op(o), im), ends, past)
            ctx.states += 1
            if bound == 1:
                q.single()
            else:
                q.double()
            if ctx.full:
                return
        ctx.sample({'instruction': o, 'points': q.n, 'preemptions': bound})


SHORT = ['ints', 'traps', 'tables', 'hosts', 'vectors', 'out']


def jobs(tier):
    ns = sorted(instructions())
    names = list(PROGS)
    if tier == 'quick':
        return [('function', (n, 4500 if n[:5] == 'path_' else 1600)) for n in reversed(OPS)] + [('process', ())] + [('errors', (fd,)) for fd in FDS] + \
            [('pair', (a, a, 0, 1)) for a in names if a not in WASI] + [('pair', ('open', 'exit', 0, 1))] + \
            [('numeric', (ns[i::8], 1, 1, True, True)) for i in range(8)]
    return [('function', (n, 60000, i, 8)) for n in OPS for i in range(8)] + [('process', ())] + [('errors', (fd,)) for fd in FDS] + \
        [('pair', (a, a, 1, 1)) for a in names] + [('pair', (a, b, 0, 1)) for i, a in enumerate(names) for b in names[i:]] + \
        [('numeric', (ns[i::32], 1, 1, False)) for i in range(32)] + \
        [('pair', (a, a, 0, 2, i, 16)) for a in SHORT for i in range(16)] + \
        [('numeric', (ns[i::32], 0, 2, True, True)) for i in range(32)]
