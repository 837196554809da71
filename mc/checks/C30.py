"""C30: file status, times and flags."""
import contextlib
import fcntl
import os
import time

from .. import bfs, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, R, E
from .C24 import want

LEVEL = 'model_checking'
RULE = ('breadth-first search over every history of setting times (by descriptor and by path, every combination of the time flags, '
        'following links or not), setting sizes and descriptor flags (every value below 64 and larger ones), renaming, unlinking, '
        'linking, replacing, writing, seeking, reading a fifo, and times set by the host before 1970 or after 2554, for several initial descriptor flags. After every step the '
        'status of every name and descriptor is read through the guest and compared with the host\'s status of that object, the '
        'times of every object with a model, and contents, offsets, link counts and error codes with a twin tree driven by plain '
        'POSIX calls; sizes up to 2^62, up to 300 links and times around every power of two, by guest and host; every combination of opening flags and access with changes of the flags, compared with the flags of '
        'the host file. Non-trivial: every step.')
BOUNDS = {'quick': 'depth 2 with 300 operations, depth 3 with 40 operations, 4 initial flags',
          'thorough': 'depth 3 with 60 operations, depth 4 with 40 operations, 5 initial flags'}
ASSUMPTIONS = ['"now" is any time between 0.1 s before the call and its end', 'the access time of a symbolic link that is followed '
               'is free', 'changing other descriptor flags than append and non-blocking may be refused or accepted',
               'unknown time flags may be refused or ignored', 'EACCES and EPERM count as the same error']

T1, T2, T3 = 1500000000123456789, 7, 2 ** 63 + 5
INIT = {'plain': 0, 'append': 1, 'nonblock': 4, 'dsync': 2, 'sync+append': 17}
NAMES = ['a', 'b', 'd', 'e', 'd/x', 'e/x', 'l', 'm', 'z', 'f', '.']
MAXT = 2 ** 64 - 1
ATIM, ATIM_NOW, MTIM, MTIM_NOW = 1, 2, 4, 8
HO = ((1, os.O_APPEND), (4, os.O_NONBLOCK))


def odd(st):
    return any(not 0 <= t <= MAXT for t in (st.st_atime_ns, st.st_mtime_ns, st.st_ctime_ns))


def build(top):
    os.mkdir(top)
    os.mkdir(top + '/d')
    for n, b in (('a', b'AAAA'), ('d/x', b'X')):
        with open(top + '/' + n, 'wb') as f:
            f.write(b)
    for n, t in (('l', 'a'), ('m', 'd'), ('z', 'nothing')):
        os.symlink(t, top + '/' + n)
    os.mkfifo(top + '/f')
    for n in ('a', 'd/x', 'd', 'l', 'm', 'z', 'f', '.'):
        os.utime(top + '/' + n, ns=(1000 + len(n), 2000 + len(n)), follow_symlinks=False)


class World:
    def __init__(self, box, init):
        wasi.clear(box)
        self.real, self.twin = box + '/r', box + '/t'
        build(self.real)
        build(self.twin)
        v = INIT[init]
        self.w = W({'p': self.real})
        self.flag = {}
        self.fd, self.obj, self.hfd = {'P': 3}, {}, {}
        for k, n, base, fl in (('A', 'a', wasi.ALLR, v), ('D', 'd', wasi.ALLR & ~R['write'], 0), ('F', 'f', wasi.ALLR, 4)):
            e, self.fd[k] = self.w.open(3, n, base=base, flags=fl)
            if e:
                raise Mismatch('opening %s = %s' % (n, wasi.err(e)))
            self.flag[k] = fl
            hf = sum(b for a, b in HO if fl & a)
            self.hfd[k] = os.open(self.twin + '/' + n, (os.O_RDONLY if k == 'D' else os.O_RDWR) | hf)
            self.obj[k] = os.open(self.real + '/' + n, os.O_PATH)
        self.obj['P'] = os.open(self.real, os.O_PATH)
        self.fifo = 0
        self.top = os.open(self.twin, os.O_RDONLY)

    def close(self):
        for f in [*self.hfd.values(), *self.obj.values(), self.top]:
            os.close(f)
        self.w.close()

    # ---- state
    def objects(self):
        """inode -> status of everything that exists or is open."""
        out = {}
        for k, f in self.obj.items():
            st = os.fstat(f)
            out[st.st_ino] = st
        for n in NAMES:
            try:
                st = os.lstat(self.real + '/' + n)
            except OSError:
                continue
            out[st.st_ino] = st
        return out

    def key(self):
        t = lambda x: x if x in (T1, T2, T3) or x < 10000 else 'now'
        groups, names = {}, []
        for n in NAMES:
            try:
                st = os.lstat(self.twin + '/' + n)
            except OSError:
                continue
            groups.setdefault(st.st_ino, []).append(n)
        here = {os.fstat(f).st_ino: k for k, f in self.hfd.items()}
        times = []
        for n in NAMES:
            try:
                st = os.lstat(self.real + '/' + n)
                times.append((n, t(st.st_atime_ns), t(st.st_mtime_ns)))
            except OSError:
                pass
        for k, f in self.obj.items():
            st = os.fstat(f)
            times.append((k, t(st.st_atime_ns), t(st.st_mtime_ns)))
        fs = [(k, os.fstat(f).st_size, os.fstat(f).st_nlink, self.flag[k]) for k, f in self.hfd.items()]
        snap = {k: v for k, v in wasi.snapshot(self.twin).items()}
        return repr((sorted(snap.items()), sorted((v, here.get(k)) for k, v in groups.items()), times, fs, self.fifo,
                     os.lseek(self.hfd['A'], 0, 1)))

    # ---- steps
    def step(self, o):
        kind = o[0]
        what = '%s%r' % (kind, o[1:])
        before = self.objects()
        t0 = time.time_ns()
        r = getattr(self, kind)(*o[1:])
        e, host, times = (*r, None)[:3]
        if not isinstance(e, int):
            raise Mismatch('%s ended the guest: %r' % (what, e))
        t1 = time.time_ns()
        he = None
        try:
            host()
        except OSError as x:
            he = x
        if he is None and e != 0 or he is not None and e not in want(he):
            raise Mismatch('%s = %s, expected %s' % (what, wasi.err(e), 'success' if he is None else he))
        after = self.objects()
        if times is not None or e != 0:
            # nothing but the asked times of the target changes
            for ino, st in before.items():
                now = after.get(ino)
                if now is None:
                    raise Mismatch('%s: object %d is gone' % (what, ino))
                link = st.st_mode >> 12 == 10
                wants = [('any' if link else st.st_atime_ns), st.st_mtime_ns]
                if e == 0 and ino == times[0]:
                    wants = [b if b is not None else a for a, b in zip((st.st_atime_ns, st.st_mtime_ns), times[1])]
                for name, x, y in zip(('access', 'modification'), wants, (now.st_atime_ns, now.st_mtime_ns)):
                    if x == 'now' and t0 - 100000000 <= y <= t1 or x == 'any' or x == y:
                        continue
                    raise Mismatch('%s = %s: %s time of %r is %d, expected %s' % (what, wasi.err(e), name, self.name(ino), y, x))
                if (st.st_size, st.st_mode, st.st_nlink) != (now.st_size, now.st_mode, now.st_nlink):
                    raise Mismatch('%s changed size, mode or link count of %r' % (what, self.name(ino)))
        self.observe(what)
        return '%s:%s' % (kind, wasi.err(e))

    def name(self, ino):
        return [n for n in NAMES if os.path.lexists(self.real + '/' + n) and os.lstat(self.real + '/' + n).st_ino == ino] + \
            [k for k, f in self.obj.items() if os.fstat(f).st_ino == ino]

    def observe(self, what):
        w = self.w
        a, b = wasi.snapshot(self.real), wasi.snapshot(self.twin)
        if a != b:
            raise Mismatch('%s: the tree is %r, expected %r' % (what, a, b))

        def same(st, real, who, type=None):
            t = {4: wasi.DIR, 8: wasi.REG, 10: wasi.LNK}.get(real.st_mode >> 12, st['type'])
            got = [st[k] for k in ('type', 'ino', 'nlink', 'size', 'atim', 'mtim', 'ctim')]
            exp = [t, real.st_ino, real.st_nlink, real.st_size, real.st_atime_ns, real.st_mtime_ns, real.st_ctime_ns]
            # times which the interface has no number for may read as anything
            exp = exp[:4] + [b if 0 <= b <= MAXT else a for a, b in zip(got[4:], exp[4:])]
            if got != exp:
                raise Mismatch('%s: status of %s is %r, expected %r' % (what, who, got, exp))
        for k, f in self.fd.items():
            e, st = w.stat(f)
            if e == E['OVERFLOW'] and odd(os.fstat(self.obj[k])):
                continue
            if e:
                raise Mismatch('%s: fd_filestat_get of %s = %s' % (what, k, wasi.err(e)))
            same(st, os.fstat(self.obj[k]), k)
            if k != 'P':
                x, y = os.fstat(self.obj[k]), os.fstat(self.hfd[k])
                if (x.st_size, x.st_nlink) != (y.st_size, y.st_nlink):
                    raise Mismatch('%s: size and links of %s are %d %d, expected %d %d' % (
                        what, k, x.st_size, x.st_nlink, y.st_size, y.st_nlink))
                e, fs = w.fdstat(f)
                if e or fs['flags'] != self.flag[k]:
                    raise Mismatch('%s: flags of %s read back as %r, expected %d' % (what, k, fs, self.flag[k]))
        for n in NAMES:
            for follow in (0, 1):
                e, st = w.stat(3, n, follow)
                try:
                    real = os.stat(self.real + '/' + n, follow_symlinks=bool(follow))
                except OSError as x:
                    if e not in want(x):
                        raise Mismatch('%s: path_filestat_get(%s) = %s' % (what, n, wasi.err(e)))
                    continue
                if e == E['OVERFLOW'] and odd(real):
                    continue
                if e:
                    raise Mismatch('%s: path_filestat_get(%s) = %s' % (what, n, wasi.err(e)))
                same(st, real, '%s (follow %d)' % (n, follow))
        e, p = w.tell(self.fd['A'])
        if e or p != os.lseek(self.hfd['A'], 0, 1):
            raise Mismatch('%s: offset of A is %r, expected %d' % (what, p, os.lseek(self.hfd['A'], 0, 1)))

    def asked(self, flags, at, mt):
        return (at if flags & ATIM else 'now' if flags & ATIM_NOW else None, mt if flags & MTIM else 'now' if flags & MTIM_NOW else None)

    def bad(self, flags):
        return flags & 3 == 3 or flags & 12 == 12

    def fdtimes(self, k, flags, at, mt):
        e = self.w('fd_filestat_set_times', self.fd[k], at, mt, flags)

        def host():
            if (self.bad(flags) or flags > 15) and e in (0, E['INVAL']) and (e or self.bad(flags)):
                raise OSError(22, 'invalid flags')
        return e, host, (os.fstat(self.obj[k]).st_ino, self.asked(flags, at, mt))

    def ptimes(self, n, follow, flags, at, mt):
        e = self.w('path_filestat_set_times', 3, follow, *self.w.text(n), at, mt, flags)
        try:
            ino = os.stat(self.real + '/' + n, follow_symlinks=bool(follow)).st_ino
        except OSError:
            ino = None

        def host():
            if (self.bad(flags) or flags > 15) and e in (0, E['INVAL']) and (e or self.bad(flags)):
                raise OSError(22, 'invalid flags')
            os.stat(self.twin + '/' + n, follow_symlinks=bool(follow))
        return e, host, (ino, self.asked(flags, at, mt))

    def touch(self, n, at, mt):
        """By the host."""
        p = self.real + '/' + n
        for top in (self.real, self.twin):
            with contextlib.suppress(OSError):
                os.utime(top + '/' + n, ns=(at, mt), follow_symlinks=False)
        return 0, lambda: None, (os.lstat(p).st_ino if os.path.lexists(p) else None, (at, mt))

    def size(self, k, n):
        return self.w('fd_filestat_set_size', self.fd[k], n), lambda: os.ftruncate(self.hfd[k], n)

    def flags(self, k, v):
        e = self.w('fd_fdstat_set_flags', self.fd[k], v)

        def host():
            if v > 31 or e and (v ^ self.flag[k]) & ~5:
                raise OSError(22, 'may be refused')
            self.flag[k] = v
            h = fcntl.fcntl(self.hfd[k], fcntl.F_GETFL) & ~(os.O_APPEND | os.O_NONBLOCK)
            fcntl.fcntl(self.hfd[k], fcntl.F_SETFL, h | sum(b for a, b in HO if v & a))
        return e, host, (None, None)

    def rename(self, a, b):
        return self.w.path2('path_rename', 3, a, 3, b), lambda: os.rename(self.twin + '/' + a, self.twin + '/' + b)

    def unlink(self, n):
        return self.w.path('path_unlink_file', 3, n), lambda: os.unlink(self.twin + '/' + n)

    def link(self, a, b):
        return self.w.path2('path_link', 3, a, 3, b, 0), lambda: os.link(self.twin + '/' + a, self.twin + '/' + b)

    def create(self, n):
        e, f = self.w.open(3, n, oflags=wasi.O_CREAT | wasi.O_EXCL)
        if e == 0:
            self.w('fd_close', f)
        return e, lambda: os.close(os.open(self.twin + '/' + n, os.O_CREAT | os.O_EXCL | os.O_RDWR, 0o644))

    def write(self, k, s):
        e, n = self.w.write(self.fd[k], [s])
        if e == 0 and n != len(s):
            raise Mismatch('write counts %r' % n)

        def host():
            os.write(self.hfd[k], s)
            if k == 'F':
                self.fifo += len(s)
        return e, host

    def seek(self, k, n):
        e, p = self.w.seek(self.fd[k], n, 0)
        return e, lambda: os.lseek(self.hfd[k], n, 0)

    def read(self, k):
        """Of the fifo. A read that would block for ever is reported instead of made."""
        if self.fifo == 0:
            st = os.fstat(self.obj[k])
            non = [n for n, (d, i, m) in wasi.fds().items() if i == st.st_ino and n not in (self.obj[k], self.hfd[k])]
            real = {fcntl.fcntl(n, fcntl.F_GETFL) & os.O_NONBLOCK for n in non}
            if real != {os.O_NONBLOCK if self.flag[k] & 4 else 0}:
                raise Mismatch('reading an empty fifo %s with flags %d' % ('blocks' if real == {0} else 'does not block', self.flag[k]))
            if real == {0}:
                return 0, lambda: None
        e, got = self.w.readbytes(self.fd[k], 2)

        def host():
            b = os.read(self.hfd[k], 2)
            self.fifo -= len(b)
            if b != got:
                raise Mismatch('reading the fifo gives %r instead of %r' % (got, b))
        return e, host


def times(few):
    out = []
    fl = (range(20) if not few else (0, 1, 4, 5, 10, 9, 3))
    for f in fl:
        out += [('fdtimes', k, f, T1, T2) for k in (('A', 'D', 'P', 'F') if not few else ('A',))]
        for n in ('a', 'l', 'd', 'm', 'z', 'd/x', 'b', 'nope') if not few else ('l', 'b'):
            out += [('ptimes', n, 0, f, T2, T1), ('ptimes', n, 1, f, T1, T3)]
    return out


OTHER = [('rename', 'a', 'b'), ('rename', 'b', 'a'), ('rename', 'd', 'e'), ('rename', 'd/x', 'a'), ('rename', 'l', 'b'), ('rename', 'm', 'l'),
         ('unlink', 'a'), ('unlink', 'l'), ('unlink', 'b'), ('unlink', 'f'), ('link', 'a', 'b'), ('link', 'd/x', 'a'), ('link', 'l', 'b'), ('create', 'a'),
         ('create', 'b'), ('write', 'A', b'ww'), ('write', 'F', b'ff'), ('read', 'F'), ('seek', 'A', 0), ('seek', 'A', 3), ('seek', 'A', 9)] + \
        [('size', 'A', n) for n in (0, 3, 4, 9, 70000)] + \
        [('touch', n, a, m) for n in ('a', 'd', 'l', 'd/x') for a, m in ((-1, 5), (5, -10 ** 18), (MAXT, MAXT + 1))]
FLAGS = [('flags', 'A', v) for v in (*range(64), 255, 0x100, 0x10000, 2 ** 31, 2 ** 32 - 1)] + \
        [('flags', k, v) for k in ('D', 'F') for v in (0, 1, 4, 5, 2, 32, 37)]
FEW = [o for o in OTHER if o not in (('rename', 'm', 'l'), ('link', 'd/x', 'a'), ('unlink', 'f'), ('seek', 'A', 3), ('size', 'A', 70000)) and (o[0] != 'touch' or o[1:3] == ('a', -1))] + \
      [('flags', 'A', v) for v in (0, 1, 4, 5, 3)] + [('flags', 'F', 0), ('flags', 'F', 4)] + \
      [('fdtimes', 'A', 5, T1, T2), ('fdtimes', 'A', 8, T1, T2), ('ptimes', 'l', 0, 5, T2, T1), ('ptimes', 'l', 1, 4, T1, T3),
       ('ptimes', 'b', 1, 3, T1, T1), ('ptimes', 'a', 1, 1, T2, T2)]
SETS = {'all': times(False) + OTHER + FLAGS, 'few': FEW, 'mid': FEW + times(True)}


def histories(ctx, init, ops, n, of, depth):
    unprivileged(ctx, _histories, init, ops, n, of, depth)


def _histories(ctx, box, init, ops, n, of, depth):
    make = lambda: World(box, init)
    ops = SETS[ops]
    first = bfs.firsts(ctx, make, ops, init)
    if ctx.full:
        return
    for o in first[n::of]:
        bfs.search(ctx, make, ops, depth - 1, prefix=(o,), label=init)
        if ctx.full:
            return


SIZES = [0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33 + 1, 2 ** 40 + 7, 2 ** 45 + 2 ** 31, 2 ** 53 + 1,
         2 ** 62 + 3]
LINKS = [1, 2, 255, 256, 257, 300]


def numbers(ctx):
    unprivileged(ctx, _numbers)


def _numbers(ctx, box):
    """Sizes, link counts and times which do not fit in few bytes, set by the guest or by the host."""
    top = box + '/r'
    os.mkdir(top)
    os.mkdir(top + '/many')
    os.close(os.open(top + '/a', os.O_CREAT | os.O_RDWR))
    os.symlink('a', top + '/l')
    w = W({'p': top})
    e, f = w.open(3, 'a')
    assert e == 0
    hf = os.open(top + '/a', os.O_RDWR)

    def look(label):
        ctx.ev()
        ctx.states += 1
        ctx.transitions += 1
        st = os.fstat(hf)
        exp = [wasi.REG, st.st_ino, st.st_nlink, st.st_size, st.st_atime_ns, st.st_mtime_ns, st.st_ctime_ns]
        for who, (e, got) in (('descriptor', w.stat(f)), ('name', w.stat(3, 'a', 1)), ('name, not following', w.stat(3, 'a', 0)),
                              ('link', w.stat(3, 'l', 1))):
            got = e or [got[k] for k in ('type', 'ino', 'nlink', 'size', 'atim', 'mtim', 'ctim')]
            if got != exp:
                ctx.viol('%s:%s' % (label, who), 'status by %s is %r, expected %r' % (who, got, exp))
        ctx.outcome(label.split()[0])
    try:
        for by in ('guest', 'host'):
            for n in SIZES:
                try:
                    os.ftruncate(hf, n)
                    possible = True
                    os.ftruncate(hf, 3)
                except OSError:
                    possible = False
                if by == 'host' and possible:
                    os.ftruncate(hf, n)
                elif by == 'guest':
                    e = w('fd_filestat_set_size', f, n)
                    if possible != (e == 0) or possible and os.fstat(hf).st_size != n:
                        ctx.viol('size %d' % n, 'setting the size = %s, the host\'s size is %d' % (wasi.err(e), os.fstat(hf).st_size))
                look('size %d by %s' % (n, by))
        os.ftruncate(hf, 3)
        made = 1
        for by in ('guest', 'host'):
            for n in LINKS:
                while made < n:
                    made += 1
                    if by == 'guest':
                        e = w.path2('path_link', 3, 'a', 3, 'many/%d' % made, 0)
                        if e:
                            ctx.viol('link %d' % made, 'path_link = %s' % wasi.err(e))
                    else:
                        os.link(top + '/a', '%s/many/%d' % (top, made))
                look('links %d by %s' % (n, by))
            for i in range(2, made + 1):
                os.unlink('%s/many/%d' % (top, i))
            made = 1
        vals = sorted({(1 << b) + d for b in range(0, 64) for d in (-1, 0, 1) if 0 <= (1 << b) + d < 2 ** 63})
        for i, at in enumerate(vals):
            mt = vals[-1 - i]
            for by in ('guest', 'host'):
                os.utime(hf, ns=(5, 6))
                if by == 'guest':
                    e = w('fd_filestat_set_times', f, at, mt, 5) if i % 2 else w('path_filestat_set_times', 3, 1, *w.text('l'), at, mt, 5)
                    st = os.fstat(hf)
                    if e or (st.st_atime_ns, st.st_mtime_ns) != (at, mt):
                        ctx.viol('times %d %d' % (at, mt), 'setting the times = %s, the host has %r' % (wasi.err(e), (st.st_atime_ns, st.st_mtime_ns)))
                else:
                    os.utime(hf, ns=(at, mt))
                look('times %d %d by %s' % (at, mt, by))
    finally:
        os.close(hf)
        w.close()


def modes(ctx):
    unprivileged(ctx, _modes)


def _modes(ctx, box):
    """Every combination of flags at opening and one change of flags after it: what is reported, and what the host file really does."""
    top = box + '/m'
    os.mkdir(top)
    with open(top + '/a', 'wb') as f:
        f.write(b'data')
    os.mkdir(top + '/d')
    w = W({'p': top})
    for name, of in (('a', 0), ('new', wasi.O_CREAT), ('a', wasi.O_TRUNC), ('d', wasi.O_DIR)):
        for base in (R['read'], R['write'], R['read'] | R['write']):
            if name == 'd' and base & R['write']:
                continue
            for flags in range(32):
                key = 'open %s %d rights %#x flags %#x' % (name, of, base, flags)
                e, n = w.open(3, name, oflags=of, base=base | R['fdstat_set_flags'], flags=flags)
                ctx.ev()
                ctx.states += 1
                ctx.transitions += 1
                if e:
                    ctx.viol(key, wasi.err(e))
                    continue
                now = flags
                for new in (None, flags ^ 5, flags ^ 1, flags):
                    if new is not None:
                        e = w('fd_fdstat_set_flags', n, new)
                        ctx.transitions += 1
                        if e:
                            ctx.viol(key, 'setting %#x: %s' % (new, wasi.err(e)))
                            break
                        now = new
                    st = w.fdstat(n)[1]
                    h = fcntl.fcntl(w.wasi.fd[n].host_fd, fcntl.F_GETFL)
                    want = {os.O_RDONLY} if base == R['read'] else {os.O_WRONLY} if base == R['write'] else {os.O_RDWR}
                    bad = [x for x, ok in (
                        ('reported %#x' % st['flags'], st['flags'] == now), ('access mode', h & os.O_ACCMODE in want),
                        ('appending', bool(h & os.O_APPEND) == bool(now & 1)), ('not blocking', bool(h & os.O_NONBLOCK) == bool(now & 4)),
                        ('data synchronous', h & os.O_DSYNC or not now & 18), ('synchronous', h & os.O_SYNC == os.O_SYNC or not now & 16)) if not ok]
                    if bad:
                        ctx.viol(key, 'with the flags %#x the host file has %#o: wrong are %s' % (now, h, ', '.join(bad)))
                        break
                w('fd_close', n)
                if name == 'new':
                    os.unlink(top + '/new')
                if ctx.full:
                    return
    ctx.traces += ctx.evals
    w.close()


def jobs(tier):
    if tier == 'quick':
        return [('numbers', ()), ('modes', ())] + [('histories', ('plain', 'all', i, 24, 2)) for i in range(24)] + \
            [('histories', (t, 'few', i, 16, 3 if t == 'plain' else 2)) for t in list(INIT)[:4] for i in range(16 if t == 'plain' else 1)]
    return [('numbers', ()), ('modes', ())] + [('histories', (t, 'all', i, 24, 2)) for t in INIT for i in range(24)] + \
        [('histories', (t, 'mid', i, 64, 3)) for t in INIT for i in range(64)] + \
        [('histories', ('plain', 'few', i, 64, 4)) for i in range(64)]
