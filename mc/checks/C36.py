"""C36: a host function acts on the memory of the instance whose function calls it."""
import itertools

import pywasm
from .. import asm, rt, wasi
from . import C27
from ..asm import I32, FUNCREF, op, lget, lset, i32c, call

LEVEL = 'model_checking'
RULE = ('every sequence of steps to the stated length, a step being a call of the code of one of three instances (own memories, and one '
        'imported from another) by a direct import, through a shared table, by the host calling back with '
        'and without catching traps, by instantiating a module with a start function; a return; or a trap. After each '
        'step the running function calls three host functions (one of the embedder and two of WASI; directly, through a table, through an export of '
        'another instance, in turn) which write to its memory. All memories are compared with those of the model. '
        'Then every WASI function that uses memory, called in each of seven ways, with every other memory compared. '
        'Non-trivial: sequences with two instances on the stack at once.')
BOUNDS = {'quick': 'four steps', 'thorough': 'five steps'}
ASSUMPTIONS = ['a host function is given the machine whose top frame is that of its caller, as the WASI functions of the package rely on']

RET, TRAP = 0, 1
WAYS = ('alone', 'second', 'through', 'indirect', 'host', 'foreign', 'start')
INDIRECT, DIRECT, HOST, CATCH = 10, 20, 30, 40         # plus the number of the instance
N = 3                   # instances; N itself is one made for each use, running in its start function
SIG = {'args_sizes_get': [I32, I32], 'clock_res_get': [I32, I32]}
NS = 'wasi_snapshot_preview1'
HOW = ('direct', 'table', 'foreign')


class Stop(Exception):
    pass


def module(i, n, mem, start=False):
    """Instance i: a function which performs the steps the host tells it one after the other."""
    m = asm.Mod()
    ask = m.import_func('h', 'ask', [], [I32])
    mark = m.import_func('h', 'mark', [I32], [])
    nxt = m.import_func('h', 'next', [I32], [])
    sizes = m.import_func(NS, 'args_sizes_get', [I32, I32], [I32])
    res = m.import_func(NS, 'clock_res_get', [I32, I32], [I32])
    foreign = [m.import_func('i0', k, p, r) for k, p, r in (
        ('mark', [I32], []), ('args_sizes_get', [I32, I32], [I32]), ('clock_res_get', [I32, I32], [I32]))] if i else None
    other = {j: m.import_func('i%d' % j, 'run', [I32], [I32]) for j in range(n) if j < i}
    m.import_table('h', 't', FUNCREF, 16)
    if mem:
        m.import_mem(mem[0], mem[1], 1)
    else:
        m.mem(1, 1, export='memory')
    own = m.table(FUNCREF, 3, 3)
    m.elem_active(i32c(0), [mark, sizes, res], own)
    tm, ts = m.type([I32], []), m.type([I32, I32], [I32])
    run_t = m.type([I32], [I32])
    # locals: 0 parameter, 1 step, 2 place
    body = []
    for f in (HOW if i else HOW[:2]):
        if f == 'direct':
            body.append(lget(2) + call(mark) +
                        lget(2) + i32c(4) + op('i32_add') + lget(2) + i32c(8) + op('i32_add') + call(sizes) + op('drop') +
                        i32c(0) + lget(2) + i32c(16) + op('i32_add') + call(res) + op('drop'))
        elif f == 'table':
            body.append(lget(2) + i32c(0) + op('call_indirect', tm, own) +
                        lget(2) + i32c(4) + op('i32_add') + lget(2) + i32c(8) + op('i32_add') + i32c(1) +
                        op('call_indirect', ts, own) + op('drop') +
                        i32c(0) + lget(2) + i32c(16) + op('i32_add') + i32c(2) + op('call_indirect', ts, own) + op('drop'))
        else:
            body.append(lget(2) + call(foreign[0]) +
                        lget(2) + i32c(4) + op('i32_add') + lget(2) + i32c(8) + op('i32_add') + call(foreign[1]) + op('drop') +
                        i32c(0) + lget(2) + i32c(16) + op('i32_add') + call(foreign[2]) + op('drop'))

    def case(k, b):
        return lget(1) + i32c(k) + op('i32_eq') + op('if', b'\x40') + b + op('end')
    # the low two bits of what the host answers choose how to call the host, the next six the step, the rest the place
    how = b''.join(lget(1) + i32c(3) + op('i32_and') + i32c(k) + op('i32_eq') + op('if', b'\x40') + b + op('end')
                   for k, b in enumerate(body))
    steps = b''
    for j in range(n):
        steps += case(INDIRECT + j, lget(2) + i32c(j) + op('call_indirect', run_t, 0) + op('drop'))
        if j in other:
            steps += case(DIRECT + j, lget(2) + call(other[j]) + op('drop'))
    steps += lget(1) + i32c(HOST) + op('i32_ge_u') + op('if', b'\x40') + lget(1) + call(nxt) + op('end')
    loop = (call(ask) + asm.ltee(1) + i32c(8) + op('i32_shr_u') + lset(2) + how +
            lget(1) + i32c(2) + op('i32_shr_u') + i32c(63) + op('i32_and') + lset(1) +
            case(TRAP, op('unreachable')) + steps +
            lget(1) + i32c(RET) + op('i32_ne') + op('br_if', 0))
    f = m.func([I32], [I32], [I32, I32], op('loop', b'\x40') + loop + op('end') + lget(0) + i32c(1) + op('i32_add'), export='run')
    if i == 0:
        for k, x in (('mark', mark), ('args_sizes_get', sizes), ('clock_res_get', res)):
            m.export(k, 'func', x)
    if start:
        m.start(m.func([], [], [], i32c(7) + call(f) + op('drop')))
    elif i < n:
        m.elem_active(i32c(i), [f], 0)
    return m.build()


_made = {}


def decoded():
    if not _made:
        for i in range(N):
            _made[i] = rt.decode(module(i, N, ('i1', 'memory') if i == 2 else None))
        _made[N] = rt.decode(module(N, N, ('h', 'memory'), True))
    return _made


class World:
    def __init__(self):
        d = decoded()
        self.rt = r = pywasm.core.Runtime()
        self.wasi = pywasm.wasi.Preview1(['one', 'and two'], {}, {})
        self.wasi.bind(r)
        memory = r.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, None)))
        r.imports['h'] = {
            'ask': rt.host(r, [], [I32], self.ask), 'mark': rt.host(r, [I32], [], self.mark), 'next': rt.host(r, [I32], [], self.next),
            't': r.allocate_table(pywasm.core.TableType(rt.VT[FUNCREF](), pywasm.core.Limits(16, None))), 'memory': memory}
        self.inst = []
        for i in range(N):
            self.inst.append(r.instance(d[i]))
            r.imports['i%d' % i] = {e.name: e.data for e in self.inst[-1].exps}
        self.mems = {0: r.exported_memory(self.inst[0], 'memory'), 1: r.exported_memory(self.inst[1], 'memory'),
                     N: r.machine.store.mems[memory.data]}
        self.answers = []

    def ask(self, m, args):
        a = self.answers[self.k]
        self.k += 1
        return [a]

    def mark(self, m, args):
        self.m = m
        m.store.mems[m.stack.frame[-1].module.mems[0]].put_u32(args[0], 1000 + self.k)
        return []

    def next(self, m, args):
        j = args[0] % 10
        try:
            if j == N:
                self.rt.instance(decoded()[N])
            elif self.rt.invocate(self.inst[j], 'run', [70 + j]) != [71 + j]:
                raise Stop('result of a call by the host')
        except Stop:
            raise
        except Exception:
            if args[0] < CATCH:
                raise
        return []

    def run(self, first, answers, marks):
        self.answers, self.k, self.m = answers, 0, None
        n = 64 + 32 * (len(answers) + 2)
        for x in self.mems.values():
            x.data[:n] = bytes(n)
        r = rt.call(self.rt, self.inst[first], 'run', [5])
        want = {j: bytearray(n) for j in self.mems}
        for k, j in enumerate(marks):
            b = want[1 if j == 2 else j]
            at = 64 + 32 * k
            b[at:at + 2] = (1001 + k).to_bytes(2, 'little')
            b[at + 4], b[at + 8], b[at + 16] = 2, 12, 1
        for j in self.mems:
            if self.mems[j].data[:n] != want[j]:
                at = next(x for x in range(n) if self.mems[j].data[x] != want[j][x])
                return 'memory %d is wrong at %d, by mark %d, made by instance %r' % (j, at, (at - 64) // 32,
                                                                              dict(enumerate(marks)).get((at - 64) // 32))
        if self.m is not None and self.m is not self.rt.machine:
            return 'a host function got another machine'
        return r


def simulate(first, seq, variant):
    """answers of the host, marks [instance], trapped, instances on the stack at once; None if the sequence is not of this length."""
    answers, marks, deep = [], [], [0]

    def run(x, n):
        deep[0] = max(deep[0], n)
        while True:
            k = len(answers)
            step = seq[k] if k < len(seq) else RET
            if DIRECT <= step < HOST and step - DIRECT >= x:
                raise ValueError
            how = (k + variant) % 3
            if x == 0 and how == 2:
                how = 0
            answers.append(64 + 32 * k << 8 | step << 2 | how)
            marks.append(x)
            if step == RET:
                return
            if step == TRAP:
                raise Stop
            try:
                run(step % 10, n + 1)
            except Stop:
                if step < CATCH:
                    raise
    trapped = False
    try:
        run(first, 1)
    except Stop:
        trapped = True
    except ValueError:
        return None
    return (answers, marks, trapped, deep[0]) if len(answers) >= len(seq) else None


STEPS = ([RET, TRAP] + [INDIRECT + j for j in range(N)] + [DIRECT + j for j in range(N)] + [HOST + j for j in range(N + 1)] +
         [CATCH + j for j in range(N + 1)])


def sequences(ctx, part, of):
    w = World()
    used = 0
    for size in range(1, 5 if ctx.tier == 'quick' else 6):
        for n, (first, *seq) in enumerate(itertools.product(range(N), *[STEPS] * size)):
            if n % of != part:
                continue
            s = simulate(first, seq, n // of % 3)
            if s is None:
                continue
            answers, marks, trapped, deep = s
            ctx.ev(deep > 1)
            ctx.states += 1
            ctx.transitions += len(marks)
            r = w.run(first, answers, marks)
            used += 1
            if r != ([6] if not trapped else rt.TRAP):
                ctx.viol('%d: %r' % (first, seq), 'starting in %d, steps %r: %r' % (first, seq, r))
                if ctx.full:
                    return
                w = World()
            if used % 1000 == 0:
                w = World()


def wrapper(f, way):
    """A module with a memory of its own whose function calls the guest's."""
    m = asm.Mod()
    p = wasi.SIG[f]
    if way == 'host':
        i = m.import_func('h', 'go', p, [I32])
    elif way == 'foreign':
        i = m.import_func('foreign', f, p, [I32])
    else:
        i = m.import_func('guest', f, p, [I32])
    m.mem(1, 4, export='memory')
    t = m.table(FUNCREF, 1)
    m.elem_active(asm.i32c(0), [i])
    m.func(p, [I32], export='go', body=b''.join(lget(k) for k in range(len(p))) + (
        i32c(0) + op('call_indirect', m.type(p, [I32]), t) if way == 'indirect' else call(i)))
    return m.build()


def foreign(f):
    """A module with a memory of its own which hands an import on."""
    m = asm.Mod()
    i = m.import_func(wasi.NS, f, wasi.SIG[f], [I32])
    m.mem(1, 4, export='memory')
    m.export(f, 'func', i)
    return m.build()


def starter(f, args):
    """A module which makes the call in its start function, over a memory given to it."""
    m = asm.Mod()
    i = m.import_func(wasi.NS, f, wasi.SIG[f], [I32])
    done = m.import_func('h', 'done', [I32], [])
    m.import_mem('h', 'memory', 1)
    m.start(m.func([], [], [], b''.join(i32c(a) if t == I32 else asm.i64c(a) for t, a in zip(wasi.SIG[f], args)) + call(i) + call(done)))
    return m.build()


def one(ctx, box, f, way):
    wd = C27.World(box)
    try:
        w = wd.w
        r = w.rt
        first = w.m
        others = {'the first instance': first}
        junk = bytes((5 * i + 0x81) & 0xff for i in range(256)) * 256
        inst, name = w.inst, f
        if way != 'alone':
            r.imports['guest'] = {e.name: e.data for e in w.inst.exps}
        if way == 'second':
            inst = r.instance(wasi.guest())
            w.m = r.exported_memory(inst, 'memory')
        elif way == 'start':
            e = r.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, 4)))
            w.m = r.machine.store.mems[e.data]
        elif way != 'alone':
            g = r.imports['guest']
            if way == 'foreign':
                x = r.instance(rt.decode(foreign(f)))
                others['the instance in between'] = r.exported_memory(x, 'memory')
                r.imports['foreign'] = {e.name: e.data for e in x.exps}
            # the calls run in the code of a second instance of the guest, but for 'foreign'
            second = r.instance(wasi.guest())
            r.imports['guest'] = {e.name: e.data for e in second.exps}
            r.imports['h'] = {'go': rt.host(r, wasi.SIG[f], [I32], lambda m, a: r.invocate(second, f, a))}
            inst, name = r.instance(rt.decode(wrapper(f, way))), 'go'
            caller = r.exported_memory(inst, 'memory')
            guest = r.exported_memory(second, 'memory')
            if way == 'foreign':
                others['an uninvolved instance'] = guest
                w.m = caller
            else:
                others['the caller'] = caller
                w.m = guest
        others = {k: m for k, m in others.items() if m is not w.m}
        w.m.data[:] = bytes((7 * i + 3) & 0xff for i in range(256)) * 256
        for m in others.values():
            m.data[:] = junk
        args, iov = C27.setup(wd, f)
        for i, v in enumerate(iov):
            w.p32(C27.IOV + 4 * i, v)
        before = bytearray(w.mem)
        must, may = C27.regions(f, args, before)
        if way == 'start':
            got = []
            r.imports['h'] = {'memory': e, 'done': rt.host(r, [I32], [], lambda m, a: got.append(a[0]) or [])}
            r.instance(rt.decode(starter(f, args)))
            e = got[0]
        else:
            e = rt.call(r, inst, name, [wasi.signed(t, v) for t, v in zip(wasi.SIG[f], args)])
            e = e[0] if isinstance(e, list) else e
        ctx.ev(way != 'alone')
        ctx.states += 1
        if e != 0:
            return ctx.viol('%s %s' % (f, way), '%s (%s): %s' % (f, way, wasi.err(e)))
        for k, m in others.items():
            if m.data != junk:
                ctx.viol('%s %s' % (f, way), '%s (%s) writes to the memory of %s' % (f, way, k))
        allowed = bytearray(len(before))
        for a, n in may:
            allowed[a:a + n] = b'\1' * n
        changed = [i for i in range(len(before)) if w.mem[i] != before[i]]
        if any(not allowed[i] for i in changed):
            ctx.viol('%s %s' % (f, way), '%s (%s) writes outside its buffers' % (f, way))
        return changed != [], None if f in VARIES else bytes(w.mem)
    finally:
        wd.close()


VARIES = {'random_get', 'clock_time_get', 'clock_res_get', 'fd_filestat_get', 'path_filestat_get', 'fd_readdir'}


def ways(ctx, box, f):
    want = None
    for way in WAYS:
        got = one(ctx, box, f, way)
        if got is None:
            continue
        if way == 'alone':
            want = got
        elif got != want:
            ctx.viol('%s %s' % (f, way), '%s (%s) gives other memory contents than in an instance by itself' % (f, way))


def each(ctx, f):
    wasi.unprivileged(ctx, ways, f)


def jobs(tier):
    of = 16 if tier == 'quick' else 64
    return [('sequences', (i, of)) for i in range(of)] + [('each', (f,)) for f in C27.T]
