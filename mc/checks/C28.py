"""C28: polling."""
import io
import itertools
import math
import os
import select
import selectors
import struct
import time

import pywasm
from .. import rt, wasi
from ..wasi import W, unprivileged, R

LEVEL = 'model_checking'
RULE = ('every list of up to three subscriptions over an alphabet of 30 (relative and absolute clock deadlines in the past, '
        'now, soon, late and at the end of the range on both wall clocks; CPU, unknown clocks and invalid tags; pipes with '
        'data, without, full, becoming ready later; files, captured and provided streams; closed numbers and missing '
        'rights), polled under a virtual clock that only the wait moves; events, reported count, error code, waiting time '
        'and memory compared with a model. Also lists of up to 700 subscriptions, all alike but one, and of up to 150 pipes of '
        'which any may be ready. Non-trivial: lists of at least one subscription.')
ASSUMPTIONS = ['time passes only in select and sleep, which wake no earlier than asked (rounded up to microseconds)',
               'an unusable subscription may be reported by the error code of the call or of its event',
               'CPU clocks may be refused']
S = 10 ** 9
T0 = {0: 1700000000 * S + 123, 1: 5000 * S + 7, 2: 3 * S, 3: 2 * S}
FULLT = (1 << 64) - 1
IN, OUT, CNT = 4096, 40960, 64        # room for 700 subscriptions

CLOCKS = [('c', i, a, t, g) for i, a, t, g in (
    (0, 0, 0, 0), (1, 0, 0, 0), (1, 0, 1, 0), (0, 0, 2 * S, 0), (1, 0, 2 * S, 1), (1, 0, 5 * S + 1, 0), (1, 0, FULLT, 0),
    (0, 1, T0[0] - S, 0), (1, 1, 0, 0), (1, 1, T0[1], 0), (0, 1, T0[0] + 1, 0), (0, 1, T0[0] + 2 * S, 1), (1, 1, T0[1] + 3 * S, 0),
    (0, 1, FULLT, 0), (1, 0, 1 << 62, 0))]
BAD = [('c', 2, 0, 5, 0), ('c', 9, 0, 5, 0), ('t', 3), ('t', 255), ('r', 'closed'), ('w', 'never'), ('r', 'noright'), ('w', 'noright')]
FDS = [('r', 'data'), ('r', 'empty'), ('r', 'later'), ('r', 'file'), ('r', 'stdin'), ('w', 'empty'), ('w', 'full'), ('w', 'file'),
       ('w', 'stdout')]
ALPHA = CLOCKS + FDS + BAD
LATER = 4 * S


class Blocked(Exception):
    pass


class World:
    def __init__(self, box):
        wasi.clear(box)
        os.mkdir(box + '/p')
        for n in ('data', 'empty', 'later', 'full'):
            os.mkfifo(box + '/p/' + n)
        with open(box + '/p/file', 'w') as f:
            f.write('x')
        self.w = w = W({'p': box + '/p'})
        w.wasi.fd[0].pipe = io.BytesIO(b'in')
        w.wasi.fd[1].pipe = io.BytesIO()
        self.fd = {'stdin': 0, 'stdout': 1, 'never': 77}
        for n in ('data', 'empty', 'later', 'full', 'file'):
            e, self.fd[n] = w.open(3, n)
            assert e == 0, (n, e)
        e, self.fd['closed'] = w.open(3, 'file')
        w('fd_close', self.fd['closed'])
        e, self.fd['noright'] = w.open(3, 'file', base=R['read'] | R['write'], root=0)
        self.host = {n: os.open(box + '/p/' + n, os.O_RDWR | os.O_NONBLOCK) for n in ('data', 'empty', 'later', 'full')}
        os.write(self.host['data'], b'some')
        try:
            while True:
                os.write(self.host['full'], b'x' * 4096)
        except BlockingIOError:
            pass
        self.reset()

    def reset(self):
        self.now = 0
        self.written = False
        self.waits = 0
        while True:
            try:
                os.read(self.host['later'], 100)
            except BlockingIOError:
                break

    def advance(self, ns):
        self.now += ns
        if self.now >= LATER and not self.written:
            self.written = True
            os.write(self.host['later'], b'!')

    # stand-ins
    def wait(self, look, ns):
        """look() until it finds something or ns (None: for ever) have passed."""
        self.waits += 1
        if self.waits > 1000000:
            raise Blocked('does not make progress')
        got = look()
        if got or ns == 0:
            return got
        while not self.written and (ns is None or self.now + ns >= LATER):
            step = LATER - self.now
            self.advance(step)
            if ns is not None:
                ns -= step
            got = look()
            if got:
                return got
        if ns is None:
            raise Blocked('blocks for ever')
        self.advance(ns)
        return look()

    def sel(self, r, w, x, timeout=None):
        if timeout is not None and timeout < 0:
            raise ValueError('timeout must be non-negative')
        if timeout is not None and timeout > 9223372036:
            raise OverflowError('timestamp too large to convert to C PyTime_t')

        def look():
            got = self.real(r, w, x, 0)
            return got if any(got) else None
        return self.wait(look, None if timeout is None else math.ceil(timeout * 1e6) * 1000) or ([], [], [])

    def poll(self):
        world, real = self, self.realpoll()

        class Poll:
            register, modify, unregister = real.register, real.modify, real.unregister

            def poll(self, timeout=None):
                if timeout is not None and timeout > 2 ** 31 - 1:
                    raise OverflowError('timeout is too large')
                return world.wait(lambda: real.poll(0), None if timeout is None or timeout < 0 else math.ceil(timeout) * 10 ** 6)
        return Poll()

    def patched(self, f):
        self.real, self.realpoll = select.select, select.poll
        saved = {}

        def put(mod, name, fn):
            saved[mod, name] = getattr(mod, name)
            setattr(mod, name, fn)
        put(select, 'select', self.sel)
        put(select, 'poll', self.poll)
        put(selectors, 'DefaultSelector', selectors.SelectSelector)
        put(selectors.SelectSelector, '_select', lambda _, r, w, x, t=None: self.sel(r, w, x, t))
        for name, k in (('time', 0), ('monotonic', 1), ('process_time', 2), ('thread_time', 3)):
            put(time, name + '_ns', lambda k=k: T0[k] + (self.now if k < 2 else 0))
            put(time, name, lambda k=k: (T0[k] + (self.now if k < 2 else 0)) / S)
        put(time, 'sleep', lambda s: self.advance(math.ceil(s * 1e6) * 1000))
        try:
            return f()
        finally:
            for (mod, name), fn in saved.items():
                setattr(mod, name, fn)


def model(subs):
    """(invalid positions, virtual time at which the poll ends or None, indices due then)."""
    bad, when, always = set(), [], set()
    at = {}
    for i, s in enumerate(subs):
        if s in BAD:
            bad.add(i)
        elif s[0] == 'c':
            at[i] = max(0, s[3] - T0[s[1]]) if s[2] else s[3]
        elif s[1] in ('data', 'file', 'stdin', 'stdout') or s[1][:2] == 'md' or s == ('w', 'empty'):
            at[i] = 0
        elif s[1] == 'later':
            at[i] = LATER
    if not at:
        return bad, None, set()
    t = min(at.values())
    return bad, t, {i for i, x in at.items() if x <= t}, at


def put(w, i, s, fd):
    a = IN + 48 * i
    w.mem[a:a + 48] = b'\0' * 48
    w.p64(a, 0x1122334455667700 + i)
    if s[0] == 'c':
        w.mem[a + 8] = 0
        w.p32(a + 16, s[1])
        w.p64(a + 24, s[3])
        w.p64(a + 32, 1)
        w.mem[a + 40] = s[2]
        if s[4]:        # garbage in the padding
            w.mem[a + 9:a + 16] = b'\xff' * 7
            w.mem[a + 20:a + 24] = b'\xff' * 4
            w.mem[a + 42:a + 48] = b'\xff' * 6
    elif s[0] == 't':
        w.mem[a + 8] = s[1]
    else:
        w.mem[a + 8] = 1 if s[0] == 'r' else 2
        w.p32(a + 16, fd[s[1]])


def one(ctx, wd, subs, key=None):
    w = wd.w
    wd.reset()
    key = key or '; '.join(':'.join(map(str, s)) for s in subs)
    w.mem[:] = b'\xee' * len(w.mem)
    for i, s in enumerate(subs):
        put(w, i, s, wd.fd)
    before = bytes(w.mem)
    n = len(subs)
    r = wd.patched(lambda: w('poll_oneoff', IN, OUT, n, CNT))
    ctx.ev(n > 0)
    ctx.states += 1
    ctx.transitions += max(1, wd.waits)
    ctx.traces += 1
    m = model(subs)
    bad, end, due = m[:3]

    def fail(x):
        ctx.viol(key, '%s (error code %s, %d ns passed)' % (x, wasi.err(r) if isinstance(r, int) else r, wd.now))
    want = bytearray(before)
    want[OUT:OUT + 32 * n] = w.mem[OUT:OUT + 32 * n]
    want[CNT:CNT + 4] = w.mem[CNT:CNT + 4]
    if w.mem != want:
        return fail('memory outside the results changed')
    if isinstance(r, rt.Trap) and 'blocks for ever' in str(r.exc):
        ctx.outcome('blocks')
        if end is not None or bad or not n:
            fail('blocks for ever')
        return
    if not isinstance(r, int):
        return fail('aborted')
    if r != 0:
        ctx.outcome('error')
        if not bad and n:
            fail('refused')
        elif wd.now:
            fail('waited before reporting an unusable subscription')
        return
    ctx.outcome('%d events' % w.u32(CNT))
    evs = {}
    for k in range(min(w.u32(CNT), n)):
        ud, er, ty, nb, fl = struct.unpack_from('<QHBxxxxxQH', w.mem, OUT + 32 * k)
        if ud in evs:
            return fail('two events for one subscription')
        evs[ud] = (er, ty, nb, fl)
    if w.u32(CNT) > n:
        return fail('%d events for %d subscriptions' % (w.u32(CNT), n))
    if n and not evs:
        return fail('no event')
    if bad:
        rep = {i for i in bad if evs.get(0x1122334455667700 + i, (0,))[0] != 0}
        if not rep:
            return fail('an unusable subscription was not reported')
        if wd.now:
            return fail('waited although a subscription is unusable')
        return
    if not n:
        return fail('waited') if wd.now else None
    # the wait may be longer than the deadline by the rounding of the host's timer only
    if wd.now < end or wd.now > end + 2000:
        return fail('ended after %d ns instead of %d' % (wd.now, end))
    lo = {i for i, x in m[3].items() if x <= end}
    hi = {i for i, x in m[3].items() if x <= wd.now}
    got = {ud - 0x1122334455667700 for ud in evs}
    if not (lo <= got <= hi):
        return fail('events for subscriptions %r, expected %r' % (sorted(got), sorted(lo)))
    for i in got:
        er, ty, nb, fl = evs[0x1122334455667700 + i]
        tag = {'c': 0, 'r': 1, 'w': 2}[subs[i][0]]
        if er or ty != tag:
            return fail('event %d: error %d type %d' % (i, er, ty))
        if tag and (nb == 0xeeeeeeeeeeeeeeee or fl == 0xeeee):
            return fail('event %d: the byte count or flags are left over from memory' % i)


def run(ctx, box, part, parts, depth):
    wd = World(box)
    try:
        if part == 0:
            one(ctx, wd, [])
        i = 0
        for k in range(1, depth + 1):
            for subs in itertools.product(ALPHA, repeat=k):
                i += 1
                if i % parts == part:
                    one(ctx, wd, subs)
                    if ctx.full:
                        return
        ctx.sample({'subscriptions': str(subs)})
    finally:
        wd.w.close()


def long(ctx, box, n):
    """n subscriptions: all alike, with every other one at every place of interest; n pipes of which any one has data."""
    wd = World(box)
    try:
        few = [s for s in CLOCKS if 0 < s[3] < 1 << 61] + FDS + BAD[:1] + BAD[4:5]
        for s in few:
            for t in few:
                for at in sorted(({0, 1, n // 2, n - 2, n - 1} if n < 20 else {0, n - 1} if n > 200 else {0, 16, n - 1}) & set(range(n))):
                    if s == t and at:
                        continue
                    one(ctx, wd, [s] * at + [t] + [s] * (n - at - 1), '%d of %r, %r at %d' % (n, s, t, at))
            if ctx.full:
                return
        k = min(n, 150 if n < 400 else 5)
        for i in range(k):
            os.mkfifo(box + '/p/m%d' % i)
            wd.host['m%d' % i] = os.open(box + '/p/m%d' % i, os.O_RDWR | os.O_NONBLOCK)
            e, fd = wd.w.open(3, 'm%d' % i)
            assert e == 0, e
            wd.fd['md%d' % i] = wd.fd['me%d' % i] = fd
        soon = ('c', 1, 0, 5 * S + 1, 0)
        for ready in [{i} for i in range(k)] + [set(), set(range(k)), set(range(0, k, 2)), set(range(k // 2, k)), set(range(k - 3))]:
            for i in ready:
                os.write(wd.host['m%d' % i], b'x')
            subs = [('r', 'md%d' % i if i in ready else 'me%d' % i) for i in range(k)]
            one(ctx, wd, subs + [soon], '%d pipes, data in %r, and a deadline' % (k, sorted(ready)))
            if ready:
                one(ctx, wd, subs, '%d pipes, data in %r' % (k, sorted(ready)))
                one(ctx, wd, [soon, ('w', 'full')] + subs[::-1], 'a deadline, %d pipes in reverse, data in %r' % (k, sorted(ready)))
            for i in ready:
                os.read(wd.host['m%d' % i], 10)
            if ctx.full:
                return
    finally:
        wd.w.close()
        for x in wd.host.values():
            os.close(x)


def many(ctx, *a):
    unprivileged(ctx, long, *a)


def part(ctx, *a):
    unprivileged(ctx, run, *a)


def jobs(tier):
    n = 16
    return [('many', (k,)) for k in (4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 700)] + [('part', (p, n, 3)) for p in range(n)]
