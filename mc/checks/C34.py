"""C34: clocks, random data, signals, yielding."""
import itertools
import os
import pickle
import random
import threading
import time

from .. import wasi, rt
from ..wasi import W, E

LEVEL = 'exploration'
RULE = ('every clock number of the alphabet with every precision, with another thread taking processor time as well, in every '
        'sequence of three clocks, each reading between two readings of the host\'s clock; every size, place and seed of the '
        'alphabets for random data, every byte of the buffer and its surroundings compared over repeated calls; every signal '
        'number. Non-trivial: calls that succeed.')
BOUNDS = {'quick': 'sequences of three clocks; random data of 0 to 96 bytes at four places and up to all of memory, up to 1000003 bytes; 64 seeds',
          'thorough': 'sequences of four clocks; random data of 0 to 512 bytes; 1024 seeds'}
ASSUMPTIONS = ['a byte that stays the same in 9 calls, or 16 bytes that repeat, are not random (chance of a false alarm under 2^-50)']
CLOCK = [time.time_ns, time.monotonic_ns, time.process_time_ns, time.thread_time_ns]
IDS = [0, 1, 2, 3, 4, 5, 7, 8, 255, 256, 65536, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 4]
PREC = [0, 1, 1000, 10 ** 9, 1 << 63, (1 << 64) - 1]


def burn(ns):
    t = time.thread_time_ns()
    while time.thread_time_ns() - t < ns:
        pass


def read(ctx, w, i, prec):
    w.mem[56:80] = b'\xa5' * 24
    a = CLOCK[i]() if i < 4 else 0
    e = w('clock_time_get', i, prec, 64)
    b = CLOCK[i]() if i < 4 else 0
    ctx.ev(i < 4)
    v = w.u64(64)
    if bytes(w.mem[56:64]) + bytes(w.mem[72:80]) != b'\xa5' * 16:
        ctx.viol('clock %d writes elsewhere' % i, 'clock_time_get(%d, %d) changes memory around the result' % (i, prec))
    if i < 4:
        if e or not a <= v <= b and a <= b:         # (the time of day may be set back)
            ctx.viol('clock %d' % i, 'clock_time_get(%d, %d): %s, %d, the host reads %d to %d' % (i, prec, wasi.err(e), v, a, b))
        return v
    if e != E['INVAL'] or v != 0xa5a5a5a5a5a5a5a5:
        ctx.viol('clock %d' % i, 'clock_time_get(%d, %d): %s, %d' % (i, prec, wasi.err(e), v))


def clocks(ctx):
    w = W()
    # Another thread makes the clock of the process differ from that of the thread.
    t = threading.Thread(target=burn, args=(300_000_000,))
    t.start()
    t.join()
    time.sleep(.05)
    for i, p in itertools.product(IDS, PREC):
        read(ctx, w, i, p)
    for k in itertools.product(range(4), repeat=3 if ctx.tier == 'quick' else 4):
        last = {}
        for i in k:
            v = read(ctx, w, i, 1)
            if v is not None and i and v < last.get(i, 0):
                ctx.viol('clock %d goes back' % i, '%d after %d' % (v, last[i]))
            last[i] = v
    for i in IDS:
        w.mem[56:80] = b'\xa5' * 24
        e = w('clock_res_get', i, 64)
        v = w.u64(64)
        ctx.ev(i < 4)
        if bytes(w.mem[56:64]) + bytes(w.mem[72:80]) != b'\xa5' * 16 or (e or not 1 <= v <= 10 ** 9 if i < 4 else
                                                                        e != E['INVAL'] or v != 0xa5a5a5a5a5a5a5a5):
            ctx.viol('resolution of clock %d' % i, 'clock_res_get(%d): %s, %d' % (i, wasi.err(e), v))
    w.close()


def bigrandom(ctx, n):
    """More than one page, at both ends of memory."""
    w = W()
    w.pages(20)
    top = len(w.mem)
    for at in sorted({0, 1, 5000, top - n}):
        old = bytes(n)
        same = b'\xff' * n
        for k in range(11):
            w.mem[:] = b'\xa5' * top
            e = w('random_get', at, n)
            ctx.ev()
            if e or w.mem[:at] != b'\xa5' * at or w.mem[at + n:] != b'\xa5' * (top - at - n):
                ctx.viol('random_get size %d' % n, 'random_get(%d, %d): %s' % (at, n, wasi.err(e)))
                break
            new = bytes(w.mem[at:at + n])
            if k:       # bits which are the same as the first time, each time
                x = int.from_bytes(new, 'little') ^ int.from_bytes(old, 'little')
                same = x if k == 1 else same | x
            else:
                old = new
        else:
            still = [i for i, b in enumerate(same.to_bytes(n, 'little')) if not b]
            if still:
                ctx.viol('random_get constant size %d' % n, 'random_get(%d, %d): %d bytes never change, the first is %d' % (at, n, len(still), still[0]))
    w.close()


def randoms(ctx, part, of):
    w = W()
    sizes = list(range(97 if ctx.tier == 'quick' else 513)) + [255, 256, 257, 1000, 4096, 40000, 65535, 65536]
    for n in sizes[part::of]:
        for at in sorted({0, 64, 301, 65536 - n}):
            if at + n > 65536:
                continue
            seen = [set() for _ in range(n)]
            for k in range(9):
                w.mem[:] = b'\xa5' * 65536
                e = w('random_get', at, n)
                ctx.ev(n > 0)
                if e or w.mem[:at] != b'\xa5' * at or w.mem[at + n:] != b'\xa5' * (65536 - at - n):
                    ctx.viol('random_get size %d' % n, 'random_get(%d, %d): %s' % (at, n, wasi.err(e)))
                    break
                for s, b in zip(seen, w.mem[at:at + n]):
                    s.add(b)
            else:
                still = [i for i, s in enumerate(seen) if len(s) < 2]
                if still:
                    ctx.viol('random_get constant size %d' % n, 'random_get(%d, %d): byte %d never changes' % (at, n, still[0]))
        if ctx.full:
            return
    w.close()


def seeds(ctx):
    """Whatever the embedder does to its own generator, and in however many processes and runtimes."""
    seen = {}
    for seed in range(64 if ctx.tier == 'quick' else 1024):
        for again in range(2):
            for kind in ('seed', 'state', 'new', 'fork'):
                random.seed(seed)
                if kind == 'state':
                    random.setstate(random.getstate())
                w = W()
                before = random.getstate()
                if kind == 'fork':
                    r, s = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            e = w('random_get', 64, 16)
                            os.write(s, pickle.dumps((e, bytes(w.mem[64:80]))))
                        finally:
                            os._exit(0)
                    os.close(s)
                    with os.fdopen(r, 'rb') as f:
                        e, b = pickle.loads(f.read())
                    os.waitpid(pid, 0)
                else:
                    e = w('random_get', 64, 16)
                    b = bytes(w.mem[64:80])
                ctx.ev()
                if random.getstate() != before:
                    ctx.viol('embedder\'s generator', 'random_get changes the state of the embedder\'s own generator')
                if e or b in seen:
                    ctx.viol('repeats', 'seed %d: random_get gives %s %s, as before with %r' % (seed, wasi.err(e), b.hex(), seen.get(b)))
                    return
                seen[b] = (kind, seed)
                w.close()


def signals(ctx):
    w = W()
    for s in list(range(256)) + [256, 257, 1 << 31, (1 << 32) - 1]:
        w.mem[:] = b'\xa5' * 65536
        e = w('proc_raise', s)
        ctx.ev(not s)
        # The runtime raises no signals in its host.
        if (e if s == 0 else e not in (E['INVAL'], E['NOTSUP'], E['NOSYS'])) or w.mem[:] != b'\xa5' * 65536:
            ctx.viol('signal %d' % s, 'proc_raise(%d): %s' % (s, wasi.err(e)))
    for _ in range(10):
        e = w('sched_yield')
        ctx.ev()
        if e or w.mem[:] != b'\xa5' * 65536:
            ctx.viol('sched_yield', wasi.err(e))
    w.close()


def forked(ctx, fn):
    """In a process of its own, as a signal may end it."""
    wasi.unprivileged(ctx, _forked, fn)


def _forked(ctx, box, fn):
    globals()[fn](ctx)


def jobs(tier):
    return [('bigrandom', (k,)) for k in (65535, 65537, 70001, 131072, 131073, 1000003)] + [('clocks', ()), ('forked', ('signals',)), ('seeds', ())] + [('randoms', (i, 4)) for i in range(4)]
