"""C22: descriptor life cycle."""
import io
import os
import sys

from .. import bfs, rt, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, R, E, ALLR

LEVEL = 'model_checking'
RULE = ('breadth-first search over every history of opening (files, directories, devices, through preopens and opened '
        'directories), closing and renumbering (every ordered pair of numbers, standard streams, preopens, closed and '
        'never-opened numbers included) and writing, with captured and with real standard streams; after every step each '
        'number is identified through the guest, and in every distinct state every open number is written or read, '
        'and the program is ended by returning, exiting, a trap and a Python exit (below the last level all four and with every '
        'descriptor function tried on closed and unknown numbers, on the last level one of them in turn), after which the open host descriptors of the process must be those of before and no number works any more, although the host uses the freed numbers. '
        'The host opens bait descriptors after each step, so that a second close would hit one. Also long regular histories with up to 270 descriptors open at once. Non-trivial: every step.')
BOUNDS = {'quick': 'depth 3 with captured and with real streams, 2 with a device directory', 'thorough': 'depth 4'}
ASSUMPTIONS = ['which unused number a new descriptor gets is free', 'renumbering to a number that is not open may be refused',
               'closing a standard stream closes it for the guest only']
NUM = 8
FULL = {'f': (R['read'] | R['write'] | R['filestat_get'] | R['seek'] | R['tell']), 'd': ALLR & ~R['write']}
UNKNOWN = [77, 0xffffffff, 1 << 31]


FLAGS = wasi.NONBLOCK | 2       # of one of the files


class World:
    def __init__(self, box, cfg):
        wasi.clear(box + '/w')
        for d in ('p', 'p/d', 'q'):
            os.mkdir(box + '/w/' + d)
        for n in ('p/a', 'p/b', 'p/d/c'):
            with open(box + '/w/' + n, 'wb') as f:
                f.write(b'')
        self.box, self.cfg = box, cfg
        self.paths = {n: box + '/w/' + n for n in ('p', 'p/d', 'q', 'p/a', 'p/b', 'p/d/c')}
        self.paths['/dev'] = '/dev'
        for n in (1, 2):
            os.ftruncate(n, 0)
            os.lseek(n, 0, 0)
        os.lseek(0, 0, 0)
        self.before = wasi.fds()
        dirs = {'p': box + '/w/p', 'q': box + '/w/q'}
        if cfg == 'dev':
            dirs['r'] = '/dev'
        self.w = W(dirs)
        self.pipe = [None] * 3
        if cfg != 'real':
            self.pipe = [io.BytesIO(b'captured'), io.BytesIO(), io.BytesIO()]
            for i in range(3):
                self.w.wasi.fd[i].pipe = self.pipe[i]
        # number -> object; an object is [kind, name, position]
        self.t = {0: ['s', 0, 0], 1: ['s', 1, 0], 2: ['s', 2, 0], 3: ['d', 'p', 0], 4: ['d', 'q', 0]}
        if cfg == 'dev':
            self.t[5] = ['d', '/dev', 0]
        self.pre = set(self.t) - {0, 1, 2}
        self.preobj = [self.t[n] for n in self.pre]
        self.closed = set()
        self.files = {n: bytearray() for n in ('p/a', 'p/b', 'p/d/c')}
        self.out = {1: b'', 2: b''}
        self.bait = []
        self.ended = False
        self.compare()

    def lure(self):
        self.bait.append(os.open(self.box + '/bait', os.O_RDONLY))

    def close(self):
        if not self.ended:
            self.end(0)

    def key(self):
        return (repr(sorted(self.t.items())), repr(sorted(self.closed)), repr(self.files), repr(self.out),
                repr([sorted(n for n in self.t if self.t[n] is o) for o in self.preobj]), bfs.dump(self.w.wasi.fd))

    def step(self, o):
        r = getattr(self, o[0])(*o[1:])
        if o[0] != 'write':
            self.lure()
        self.compare()
        return '%s:%s' % (o[0], wasi.err(r))

    def code(self, e, want, what):
        if not isinstance(e, int) or e not in [E[x] for x in want]:
            raise Mismatch('%s = %s, expected %s' % (what, wasi.err(e), want))

    def open(self, n, name):
        kind, base = ('d', FULL['d']) if name in ('d', '.') else ('f', FULL['f'])
        o = self.t.get(n)
        e, new = self.w.open(n, name, base=base if name != 'null' else R['read'] | R['write'], root=ALLR,
                          flags=FLAGS if name == 'b' else 0)
        if o is None:
            self.code(e, ['BADF'], 'open(%d, %s)' % (n, name))
            return e
        full = None
        if o[0] == 'd':
            full = o[1] if name == '.' else os.path.join(o[1], name)
        if full not in self.paths and full != '/dev/null':
            self.code(e, ['NOTCAPABLE', 'NOTDIR', 'NOENT'], 'open(%d, %s)' % (n, name))
            return e
        self.code(e, ['SUCCESS'], 'open(%d, %s)' % (n, name))
        if new in self.t:
            raise Mismatch('open returned the number %d which is in use' % new)
        self.t[new] = ['n' if full == '/dev/null' else kind, full, 0]
        self.closed.discard(new)
        return e

    def shut(self, n):
        e = self.w('fd_close', n)
        self.code(e, ['SUCCESS'] if n in self.t else ['BADF'], 'close(%d)' % n)
        if self.t.pop(n, None) is not None:
            self.closed.add(n)
        return e

    def renumber(self, a, b):
        was = self.w.fdstat(a)
        e = self.w('fd_renumber', a, b)
        if a not in self.t:
            self.code(e, ['BADF'], 'renumber(%d, %d)' % (a, b))
            return e
        if b not in self.t:
            if e == E['BADF']:
                return e
        self.code(e, ['SUCCESS'], 'renumber(%d, %d)' % (a, b))
        if self.w.fdstat(b) != was:
            raise Mismatch('renumber(%d, %d): the status was %r and is %r' % (a, b, was, self.w.fdstat(b)))
        if a != b:
            self.t[b] = self.t.pop(a)
            self.closed.discard(b)
            self.closed.add(a)
        return e

    def write(self, n, data=None):
        data = data or b'%d.' % (n % 10)
        e, c = self.w.write(n, [data])
        o = self.t.get(n)
        if o is None:
            self.code(e, ['BADF'], 'write(%d)' % n)
        elif o[0] == 'd' or o[:2] == ['s', 0]:
            self.code(e, ['ISDIR', 'NOTCAPABLE', 'BADF'], 'write(%d)' % n)
        else:
            self.code(e, ['SUCCESS'], 'write(%d)' % n)
            if o[0] == 's':
                self.out[o[1]] += data
            elif o[0] == 'f':
                f = self.files[o[1]]
                f.extend(bytes(max(0, o[2] - len(f))))
                f[o[2]:o[2] + len(data)] = data
                o[2] += len(data)
        return e

    def compare(self):
        for n in sorted(set(self.t) | self.closed | set(range(NUM))):
            e, st = self.w.fdstat(n)
            o = self.t.get(n)
            if o is None:
                if e != E['BADF']:
                    raise Mismatch('number %d, which is not open: %s %r' % (n, wasi.err(e), st))
                continue
            if e or st['type'] != {'s': wasi.CHR, 'd': wasi.DIR, 'f': wasi.REG, 'n': wasi.CHR}[o[0]]:
                raise Mismatch('number %d should be %r: %s %r' % (n, o, wasi.err(e), st))
            if o[0] == 'f':
                if st['flags'] != (FLAGS if o[1] == 'p/b' else 0):
                    raise Mismatch('number %d, which should be %r, has the flags %r' % (n, o, st['flags']))
                e, s = self.w.stat(n)
                if e or s['ino'] != os.stat(self.paths[o[1]]).st_ino:
                    raise Mismatch('number %d should be %r: %s %r' % (n, o, wasi.err(e), s))
                e, p = self.w.tell(n)
                if (e, p) != (0, o[2]):
                    raise Mismatch('number %d should be at %d: %s %r' % (n, o[2], wasi.err(e), p))
            if o[0] == 'd' and o[1] in self.paths:
                e, s = self.w.stat(n, '.')
                if e or s['ino'] != os.stat(self.paths[o[1]]).st_ino:
                    raise Mismatch('number %d should be %r: %s %r' % (n, o, wasi.err(e), s))
        self.contents()

    def contents(self):
        for n, c in self.files.items():
            with open(self.paths[n], 'rb') as f:
                if f.read() != bytes(c):
                    raise Mismatch('%s should hold %r' % (n, bytes(c)))
        for n in (1, 2):
            with open(self.box + '/std%d' % n, 'rb') as f:
                real = f.read()
            cap = self.pipe[n].getvalue() if self.pipe[n] else b''
            if (real, cap) != ((self.out[n], b'') if self.pipe[n] is None else (b'', self.out[n])):
                raise Mismatch('stream %d: real %r, captured %r, expected %r' % (n, real, cap, self.out[n]))
        now = wasi.fds()
        for b in self.bait:
            if b not in now or now[b] != self.before_bait(b):
                raise Mismatch('a host descriptor of somebody else was closed')

    def before_bait(self, b):
        st = os.stat(self.box + '/bait')
        return (st.st_dev, st.st_ino, st.st_mode)

    # ---- in each distinct state
    def final(self, how, thorough=True):
        w = self.w
        for n in sorted(self.closed | set(range(NUM))) + UNKNOWN:
            if n in self.t or not thorough:
                continue
            for f, e in every(w, n):
                if e != E['BADF']:
                    raise Mismatch('%s on the number %d, which is not open, = %s' % (f, n, wasi.err(e)))
        for n in sorted(self.t):
            o = self.t[n]
            e = w('fd_prestat_get', n, 64)
            e2 = w('fd_prestat_dir_name', n, 128, 100)
            want = any(o is x for x in self.preobj)
            if not want and (e, e2) != (E['BADF'],) * 2 or want and (e, e2) != (0, 0):
                raise Mismatch('prestat of %d (%r) = %s, %s' % (n, o, wasi.err(e), wasi.err(e2)))
            if want:
                name = {'p': b'p', 'q': b'q', '/dev': b'r'}[o[1]]
                if w.u32(68) != len(name) or w.mem[64] != 0 or bytes(w.mem[128:128 + len(name)]) != name:
                    raise Mismatch('prestat of %d gives the wrong name' % n)
            self.write(n, b'F%d' % n)
            if o[:2] == ['s', 0]:
                want = b'captured' if self.pipe[0] else b'real input'
                e, got = w.readbytes(n, 100)
                if (e, got) != (0, want):
                    raise Mismatch('reading standard input as %d: %s %r' % (n, wasi.err(e), got))
        self.contents()
        self.end(how, thorough)

    def end(self, how, after=False):
        w = self.w
        self.ended = True
        w.ended = True
        w.p32(8, (0, 1, 2, 1)[how], 9)
        if how == 3:
            w.wasi.return_on_exit = 0
        try:
            r = w.wasi.main(w.rt, w.inst)
        except SystemExit as e:
            r = ('exit', e.code)
        except Exception as e:
            r = type(e).__name__
        now = wasi.fds()
        for b in self.bait:
            if b not in now:
                raise Mismatch('a host descriptor of somebody else was closed at the end')
            os.close(b)
            del now[b]
        if now != self.before:
            extra = {k: v for k, v in now.items() if self.before.get(k) != v}
            lost = {k: v for k, v in self.before.items() if now.get(k) != v}
            for k in extra:
                if k not in self.before:
                    os.close(k)
            raise Mismatch('at the end (%s): left open %r, lost %r' % (how, extra, lost))
        if (r if how in (0, 1, 3) else isinstance(r, str)) != (0, 9, True, ('exit', 9))[how]:
            raise Mismatch('the program ended with %r' % (r,))
        for n in (1, 2):
            if self.pipe[n] and not any(o[:2] == ['s', n] and k != n for k, o in self.t.items()) and n in self.t and \
                    self.t[n][:2] == ['s', n] and self.pipe[n].tell() != 0:
                raise Mismatch('captured stream %d is not rewound' % n)
        if after:
            self.afterwards()

    def afterwards(self):
        """The program has ended and the host uses the freed numbers for files of its own; it then calls into the guest again."""
        w = self.w
        w.p32(8, 0, 0)
        name = self.box + '/host'
        with open(name, 'wb') as f:
            f.write(b'of the host')
        mine = [os.open(name, os.O_RDWR) for _ in range(12)]
        try:
            for n in sorted(self.t):
                if self.t[n][0] != 's':
                    for f, e in every(w, n):
                        if e != E['BADF']:
                            raise Mismatch('after the end %s on the number %d = %s' % (f, n, wasi.err(e)))
            for f in mine:
                try:
                    at = os.lseek(f, 0, 1)
                except OSError:
                    at = 'closed'
                if at != 0:
                    raise Mismatch('a descriptor of the host was used after the end of the program (%s)' % at)
            with open(name, 'rb') as f:
                if f.read() != b'of the host':
                    raise Mismatch('a file of the host was written after the end of the program')
        finally:
            for f in mine:
                try:
                    os.close(f)
                except OSError:
                    pass


def every(w, n):
    """Every function with a descriptor argument, on the number n."""
    t, k = w.text('x')
    yield 'fd_advise', w('fd_advise', n, 0, 0, 0)
    yield 'fd_allocate', w('fd_allocate', n, 0, 1)
    yield 'fd_close', w('fd_close', n)
    yield 'fd_datasync', w('fd_datasync', n)
    yield 'fd_fdstat_get', w('fd_fdstat_get', n, 256)
    yield 'fd_fdstat_set_flags', w('fd_fdstat_set_flags', n, 0)
    yield 'fd_fdstat_set_rights', w('fd_fdstat_set_rights', n, 0, 0)
    yield 'fd_filestat_get', w('fd_filestat_get', n, 256)
    yield 'fd_filestat_set_size', w('fd_filestat_set_size', n, 0)
    yield 'fd_filestat_set_times', w('fd_filestat_set_times', n, 0, 0, 0)
    yield 'fd_pread', w.read(n, [1], 0)[0]
    yield 'fd_prestat_get', w('fd_prestat_get', n, 256)
    yield 'fd_prestat_dir_name', w('fd_prestat_dir_name', n, 256, 9)
    yield 'fd_pwrite', w.write(n, [b'x'], 0)[0]
    yield 'fd_read', w.read(n, [1])[0]
    yield 'fd_readdir', w('fd_readdir', n, 20480, 100, 0, 64)
    yield 'fd_renumber from', w('fd_renumber', n, 3)
    yield 'fd_renumber to itself', w('fd_renumber', n, n)
    yield 'fd_seek', w('fd_seek', n, 0, 0, 64)
    yield 'fd_sync', w('fd_sync', n)
    yield 'fd_tell', w('fd_tell', n, 64)
    yield 'fd_write', w.write(n, [b'x'])[0]
    yield 'path_create_directory', w.path('path_create_directory', n, 'x')
    yield 'path_filestat_get', w('path_filestat_get', n, 0, t, k, 256)
    yield 'path_filestat_set_times', w('path_filestat_set_times', n, 0, t, k, 0, 0, 0)
    yield 'path_link from', w.path2('path_link', n, 'a', 3, 'x', 0)
    yield 'path_link to', w.path2('path_link', 3, 'a', n, 'x', 0)
    yield 'path_open', w.open(n, 'a')[0]
    yield 'path_readlink', w.readlink(n, 'x')[0]
    yield 'path_remove_directory', w.path('path_remove_directory', n, 'x')
    yield 'path_rename from', w.path2('path_rename', n, 'a', 3, 'x')
    yield 'path_rename to', w.path2('path_rename', 3, 'a', n, 'x')
    yield 'path_symlink', w.symlink('a', n, 'x')
    yield 'path_unlink_file', w.path('path_unlink_file', n, 'x')
    for kind in (1, 2):
        w.mem[4096:4144] = bytes(48)
        w.mem[4104] = kind
        w.p32(4112, n)
        e = w('poll_oneoff', 4096, 6000, 1, 64)
        yield 'poll_oneoff', e if e != 0 else w.u16(6008)
    yield 'sock_accept', w('sock_accept', n, 0, 64)
    yield 'sock_recv', w('sock_recv', n, *w.iov([1])[:2], 0, 64, 68)
    yield 'sock_send', w('sock_send', n, *w.iov([1])[:2], 0, 64)
    yield 'sock_shutdown', w('sock_shutdown', n, 3)


def alphabet(cfg):
    out = [('open', 3, 'a'), ('open', 3, 'b'), ('open', 3, 'd'), ('open', 4, '.'), ('open', 5, 'c'), ('open', 6, 'c'), ('open', 7, 'a')]
    if cfg == 'dev':
        out += [('open', 5, 'null')]
    top = 6 if cfg == 'real' else 7
    out += [('shut', n) for n in range(top)]
    out += [('renumber', a, b) for a in range(top) for b in range(top)]
    out += [('write', n) for n in range(top)]
    return out


def histories(ctx, cfg, n, of, depth):
    unprivileged(ctx, _histories, cfg, n, of, depth)


def _histories(ctx, box, cfg, n, of, depth):
    os.mkdir(box + '/w')
    for name, data in (('bait', b''), ('std0', b'real input'), ('std1', b''), ('std2', b'')):
        with open(box + '/' + name, 'wb') as f:
            f.write(data)
    # the real standard streams of this process are scratch files
    sys.stdin = sys.__stdin__ if sys.__stdin__ and not sys.__stdin__.closed else open(0, closefd=False)
    for k, fl in ((0, os.O_RDWR), (1, os.O_RDWR), (2, os.O_RDWR)):
        f = os.open(box + '/std%d' % k, fl)
        os.dup2(f, k)
        os.close(f)
    if sys.stdin.fileno() != 0:
        sys.stdin = open(0, closefd=False)
    if sys.stdout.fileno() != 1:
        sys.stdout = open(1, 'w', closefd=False)
    if sys.stderr.fileno() != 2:
        sys.stderr = open(2, 'w', closefd=False)
    ops = alphabet(cfg)
    make = lambda: World(box, cfg)
    first = bfs.firsts(ctx, make, ops, cfg)
    seen = set()
    hist = [()] + [(o,) for o in first[n::of]] if n == 0 else [(o,) for o in first[n::of]]
    level = hist
    for d in range(depth):
        nxt = []
        for h in level:
            if ctx.full:
                return
            # the end of this history
            last = len(h) == depth
            for how in range(4) if not last else (len(seen) % 4,):
                s = None
                try:
                    s = make()
                    for o in h:
                        s.step(o)
                    ctx.traces += 1
                    k = s.key()
                    s.final(how, not last)
                except Mismatch as e:
                    ctx.viol('%s:%r:end%d' % (cfg, h, how), '%r then end %d: %s' % (h, how, e), {'history': list(h), 'end': how})
                    return
                ctx.ev()
                ctx.outcome('end%d' % how)
                seen.add(k)
            else:
                ctx.states += 1
                if h and not last:
                    s = None
                    for o in ops:
                        try:
                            if s is None:
                                s = make()
                                for x in h:
                                    s.step(x)
                                hk = s.key()
                            ctx.ev()
                            ctx.transitions += 1
                            ctx.outcome(s.step(o))
                            k = s.key()
                        except Mismatch as e:
                            ctx.viol('%s:%r' % (cfg, h + (o,)), '%r: %s' % (h + (o,), e), {'history': list(h + (o,))})
                            s = None
                            if ctx.full:
                                return
                            continue
                        if k == hk:
                            continue
                        s.close()
                        s = None
                        if k not in seen:
                            seen.add(k)
                            nxt.append(h + (o,))
                    if s is not None:
                        s.close()
        level = nxt
    if level:
        ctx.sample('%s: %r' % (cfg, level[-1]))


def crowd(ctx, *a):
    unprivileged(ctx, _crowd, *a)


def _crowd(ctx, box, n, plan):
    """n files and directories open at once, then closed, renumbered and opened again in long regular histories."""
    os.mkdir(box + '/p')
    for i in range(n):
        os.mkdir(box + '/p/d%d' % i)
        with open(box + '/p/f%d' % i, 'w') as f:
            f.write('%d!' % i)
        with open(box + '/p/d%d/x' % i, 'w') as f:
            f.write('in %d!' % i)
    before = wasi.fds(2048)
    w = W({'p': box + '/p'})
    base = set(wasi.fds(2048))
    t, dead = {}, set()

    def bad(m):
        ctx.viol('%d objects, %s: after %d steps' % (n, plan, ctx.evals), m)
        return True

    def look(fd):
        """Is number fd what it should be?"""
        ctx.ev()
        kind, i = t[fd]
        if kind == 'f':
            e, c, b = w.read(fd, [20], 0)
            got = b[16:16 + c] if e == 0 else None
            want = b'%d!' % i
        else:
            e, x = w.open(fd, 'x', base=R['read'])
            if e:
                return bad('descriptor %d is not directory %d: %s' % (fd, i, wasi.err(e)))
            got = w.readbytes(x, 20)[1]
            want = b'in %d!' % i
            e = w('fd_close', x)
            dead.add(x)
        if e or got != want:
            return bad('descriptor %d gives %s %r, expected %r' % (fd, wasi.err(e), got, want))

    def add(kind, i):
        e, fd = w.open(3, '%s%d' % (kind, i), oflags=wasi.O_DIR if kind == 'd' else 0, base=ALLR & ~R['write'] if kind == 'd' else FULL['f'])
        ctx.transitions += 1
        if e or fd in t or fd <= 3:
            return bad('opening %s%d: %s, number %r' % (kind, i, wasi.err(e), fd))
        dead.discard(fd)
        t[fd] = (kind, i)
        return look(fd)

    def shut(fd):
        ctx.transitions += 1
        e = w('fd_close', fd)
        del t[fd]
        dead.add(fd)
        if e:
            return bad('closing %d: %s' % (fd, wasi.err(e)))

    def move(a, b):
        ctx.transitions += 1
        e = w('fd_renumber', a, b)
        if e:
            return bad('renumbering %d to %d: %s' % (a, b, wasi.err(e)))
        t[b] = t.pop(a)
        dead.add(a)

    def all():
        ctx.states += 1
        for fd in list(t):
            if look(fd):
                return True
        for fd in sorted(dead)[:40] + sorted(dead)[-40:]:
            if fd not in t and w('fd_close', fd) != E['BADF']:
                return bad('closed number %d works' % fd)
        have = wasi.fds(2048)
        if len(set(have) - base) != len(t):
            return bad('%d host descriptors for %d descriptors' % (len(set(have) - base), len(t)))

    def run():
        for i in range(n):
            if add('fd'[plan == 'dirs' or plan == 'mixed' and i % 2], i):
                return
        if all():
            return
        for rounds in range(3):
            nums = sorted(t)
            if plan in ('files', 'dirs'):           # close every other one, open others
                for fd in nums[rounds % 2::2]:
                    if shut(fd):
                        return
                if all():
                    return
                for i in range(len(nums[rounds % 2::2])):
                    if add('fd'[plan == 'dirs'], n - 1 - i):
                        return
            elif plan == 'rotate':                  # every other one to the number of its neighbour
                for a, b in list(zip(nums[1::2], nums[::2])) + [(max(nums), nums[0])] * (len(nums) % 2):
                    if move(a, b):
                        return
                if add('f', rounds):
                    return
            elif plan == 'mixed':                   # far moves
                for a, b in list(zip(nums, nums[::-1]))[:len(nums) // 2]:
                    if move(*((a, b) if rounds % 2 else (b, a))):
                        return
                for i in range(len(nums) // 2):
                    if add('fd'[i % 2], i):
                        return
            else:                                   # many short lives
                for i in range(300):
                    if add('fd'[i % 3 == 0], i % n):
                        return
                    if i % 7 and shut(max(t)):
                        return
                for fd in sorted(t)[5:]:
                    if shut(fd):
                        return
            if all():
                return

    run()
    w.close()
    after = wasi.fds(2048)
    if after != before:
        bad('after the end the host has descriptors %r' % sorted(set(after) ^ set(before))[:20])
    ctx.traces += 1
    ctx.outcome('crowd')


def jobs(tier):
    d, n = (3, 24) if tier == 'quick' else (4, 64)
    return [('crowd', (k, p)) for k in ((20, 70, 270) if tier == 'quick' else (5, 20, 33, 70, 130, 270, 400)) for p in ('files', 'dirs', 'rotate', 'mixed', 'short')] + \
        [('histories', (c, i, n, d - (c == 'dev' and tier == 'quick'))) for c in ('captured', 'real', 'dev') for i in range(n)]
