"""C23: file contents and positions."""
import io
import itertools
import os
import resource
import sys

from .. import bfs, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, R, E

LEVEL = 'model_checking'
RULE = ('breadth-first search over every history of read, write, positional read and write (vectors of zero to four parts with '
        'empty parts anywhere), seek, tell, allocate, set size, stat, close and append-flag changes on two descriptors: of one '
        'file, of two files, opened for reading, writing, both, appending, truncating, without rights, of a directory and of '
        'captured standard streams; error codes, counts, guest buffers, positions, sizes and host file contents compared '
        'with a plain model after every step; every write under every limit on '
        'the size of files around it, and real pipes with every amount of room or input; '
        'every vector of up to three buffers of four sizes at every position in and around a file; '
        'transfers of up to a million bytes in up to 3000 vectors, and every call that takes a position at positions up to 2^40. Non-trivial: every operation on an open descriptor.')
BOUNDS = {'quick': 'depth 3, two descriptors, 44 operations each', 'thorough': 'depth 4 on the main configurations'}
ASSUMPTIONS = ['histories on files of at most a few hundred bytes', 'positional writes on appending descriptors are not exercised (Linux '
               'appends, POSIX does not)', 'allocation of no bytes, or on a descriptor the host cannot write, may fail']
A0 = b'0123456789'
B0 = b'the other'

# descriptors: (name, oflags, rights, flags) or a number
RW = R['read'] | R['write'] | R['seek'] | R['tell'] | R['set_size'] | R['allocate'] | R['filestat_get'] | R['fdstat_set_flags'] | \
    R['sync'] | R['datasync'] | R['advise']
CFG = {
    'same': [('a', 0, RW, 0), ('a', 0, RW, 0)],
    'two': [('a', 0, RW, 0), ('b', 0, RW, 0)],
    'append': [('a', 0, RW, wasi.APPEND), ('a', 0, RW, 0)],
    'rdwr': [('a', 0, RW & ~R['write'], 0), ('a', 0, RW & ~R['read'], 0)],
    'trunc': [('a', 0, RW, 0), ('a', wasi.O_TRUNC, RW, 0)],
    'new': [('new', wasi.O_CREAT | wasi.O_EXCL, RW, 0), ('new', wasi.O_CREAT, RW, wasi.APPEND)],
    'rights': [('a', 0, R['read'] | R['write'], 0), ('a', 0, RW & ~R['seek'] & ~R['set_size'], 0)],
    'dir': [('a', 0, RW, 0), ('d', 0, RW & ~R['write'], 0)],
    'std': [0, 1],
}


def fdops(f, light=False):
    out = []
    for parts in ([], [b''], [b'abc'], [b'', b'xy', b'', b'z'], [b'w' * 20]):
        out.append(('write', f, parts))
    for parts, off in (([b'PQ'], 0), ([b'', b'R', b'', b'ST'], 3), ([b'U'], 14), ([], 2), ([b''], 30), ([b'X'], 1 << 63)):
        out.append(('pwrite', f, parts, off))
    for lens in ([], [0], [1], [2, 0, 3], [0, 0, 4], [100]):
        out.append(('read', f, lens))
    for lens, off in (([3], 0), ([1, 0, 2, 100], 2), ([5], 200), ([0], 1), ([2], 1 << 63), ([2], (1 << 64) - 1)):
        out.append(('pread', f, lens, off))
    for off, wh in ((0, 0), (2, 0), (15, 0), (-1, 0), (3, 1), (-1, 1), (-100, 1), (0, 2), (-2, 2), (5, 2), (-100, 2), (0, 3), (0, 4), (1, 9),
                    (-1 << 63, 1)):
        out.append(('seek', f, off, wh))
    for off, n in ((0, 12), (5, 3), (11, 4), (0, 0), (1 << 63, 1), ((1 << 64) - 1, 2)):
        out.append(('allocate', f, off, n))
    for n in (0, 3, 13, 1 << 63, (1 << 64) - 1):
        out.append(('set_size', f, n))
    out += [('stat', f), ('flags', f, wasi.APPEND), ('flags', f, 0), ('close', f), ('advise', f)]
    return out


FAIL = 'fail'


class World:
    def __init__(self, box, cfg):
        wasi.clear(box)
        os.mkdir(box + '/p')
        os.mkdir(box + '/p/d')
        self.box = box
        self.files = {'a': bytearray(A0), 'b': bytearray(B0)}
        for n, c in self.files.items():
            with open(box + '/p/' + n, 'wb') as f:
                f.write(c)
        self.w = W({'p': box + '/p'})
        self.fd = []
        self.std = [io.BytesIO(b'some input'), io.BytesIO(), io.BytesIO()]
        for i in range(3):
            self.w.wasi.fd[i].pipe = self.std[i]
        self.out = [b'', b'', b'']
        for c in CFG[cfg]:
            if isinstance(c, int):
                self.fd.append(dict(n=c, name=None, std=c, off=0, rights=R['read'] if c == 0 else R['write'], append=False, open=True,
                                    dir=False))
                continue
            name, of, rights, flags = c
            e, n = self.w.open(3, name, oflags=of, base=rights, root=0, flags=flags)
            if e:
                raise Mismatch('opening %r: %s' % (c, wasi.err(e)))
            if of & wasi.O_CREAT:
                self.files.setdefault(name, bytearray())
            if of & wasi.O_TRUNC:
                del self.files[name][:]
            self.fd.append(dict(n=n, name=name, std=None, off=0, rights=rights & (~R['seek'] if name == 'd' else -1),
                                append=bool(flags & wasi.APPEND), open=True, dir=name == 'd'))
        self.compare()

    def close(self):
        self.w.close()

    def compare(self):
        for n, c in self.files.items():
            with open(self.box + '/p/' + n, 'rb') as f:
                got = f.read(1000)
            if got != bytes(c):
                raise Mismatch('file %s holds %r, expected %r' % (n, got, bytes(c)))
        for i in (1, 2):
            if self.std[i].getvalue() != self.out[i]:
                raise Mismatch('stream %d holds %r, expected %r' % (i, self.std[i].getvalue(), self.out[i]))
        for d in self.fd:
            if d['open'] and not d['dir'] and d['std'] is None and d['rights'] & R['tell']:
                e, o = self.w.tell(d['n'])
                if (e, o) != (0, d['off']):
                    raise Mismatch('descriptor %d is at %r (%s), expected %d' % (d['n'], o, wasi.err(e), d['off']))

    def key(self):
        return (tuple((n, bytes(c)) for n, c in sorted(self.files.items())), tuple(self.out), self.std[0].tell(),
                tuple(tuple(d.items()) for d in self.fd), bfs.dump(self.w.wasi.fd))

    def step(self, o):
        d = self.fd[o[1]]
        r = getattr(self, o[0])(d, *o[2:])
        self.compare()
        return '%s:%s' % (o[0], wasi.err(r))

    def refused(self, d, e, right, what):
        """Whether the call must fail whatever its arguments, having checked that it did."""
        if not d['open']:
            want = {E['BADF']}
        elif d['dir'] and right != R['filestat_get']:
            want = {E['ISDIR'], E['NOTCAPABLE'], E['BADF'], E['INVAL']}
        elif not d['rights'] & right:
            want = {E['NOTCAPABLE']}
        else:
            return False
        if e not in want:
            raise Mismatch('%s = %s, expected %s' % (what, wasi.err(e), '/'.join(map(wasi.err, want))))
        return True

    def code(self, e, want, what):
        if not isinstance(e, int) or e not in want:
            raise Mismatch('%s = %s, expected %s' % (what, wasi.err(e), '/'.join(map(wasi.err, want))))

    def put(self, d, off, data):
        f = self.files[d['name']]
        if data:
            f.extend(bytes(max(0, off - len(f))))
            f[off:off + len(data)] = data

    def write(self, d, parts):
        e, n = self.w.write(d['n'], parts)
        if self.refused(d, e, R['write'], 'write'):
            return e
        data = b''.join(parts)
        self.code(e, {0}, 'write')
        if n != len(data):
            raise Mismatch('write of %d bytes returned %d' % (len(data), n))
        if d['std'] is not None:
            self.out[d['std']] += data
            return e
        if d['append'] and data:
            d['off'] = len(self.files[d['name']])
        self.put(d, d['off'], data)
        d['off'] += len(data)
        return e

    def pwrite(self, d, parts, off):
        if d['append']:
            return None
        e, n = self.w.write(d['n'], parts, off)
        if self.refused(d, e, R['write'], 'pwrite'):
            return e
        if d['std'] is not None or off >= 1 << 63:
            if e == 0 or not isinstance(e, int):
                raise Mismatch('pwrite at %d on stream %r = %s' % (off, d['std'], wasi.err(e)))
            return e
        if e == E['NOTCAPABLE'] and not d['rights'] & R['seek']:
            return e                # the seek right may be asked for as well
        data = b''.join(parts)
        self.code(e, {0}, 'pwrite')
        if n != len(data):
            raise Mismatch('pwrite of %d bytes returned %d' % (len(data), n))
        self.put(d, off, data)
        return e

    def got(self, lens, data, e, n, mem, what):
        """The expected picture of the buffers after reading data."""
        self.code(e, {0}, what)
        if n != len(data):
            raise Mismatch('%s returned %d bytes, expected %d' % (what, n, len(data)))
        pic = b'\xee' * 16
        for k in lens:
            pic += data[:k] + b'\xee' * (k - len(data[:k])) + b'\xee' * 3
            data = data[k:]
        pic += b'\xee' * 16
        if mem != pic:
            raise Mismatch('%s: buffers %r, expected %r' % (what, mem, pic))

    def read(self, d, lens):
        e, n, mem = self.w.read(d['n'], lens)
        if self.refused(d, e, R['read'], 'read'):
            return e
        if d['std'] is not None:
            data = b'some input'[d['off']:d['off'] + sum(lens)]
        else:
            data = bytes(self.files[d['name']])[d['off']:d['off'] + sum(lens)]
        self.got(lens, data, e, n, mem, 'read')
        d['off'] += len(data)
        return e

    def pread(self, d, lens, off):
        e, n, mem = self.w.read(d['n'], lens, off)
        if self.refused(d, e, R['read'], 'pread'):
            return e
        if d['std'] is not None or off >= 1 << 63:
            if e == 0 or not isinstance(e, int):
                raise Mismatch('pread at %d on stream %r = %s' % (off, d['std'], wasi.err(e)))
            return e
        if e == E['NOTCAPABLE'] and not d['rights'] & R['seek']:
            return e
        self.got(lens, bytes(self.files[d['name']])[off:off + sum(lens)], e, n, mem, 'pread')
        return e

    def seek(self, d, off, wh):
        e, n = self.w.seek(d['n'], off, wh)
        if self.refused(d, e, R['seek'], 'seek'):
            return e
        new = None if wh > 2 else off + (0, d['off'], len(self.files[d['name']]))[wh]
        if new is None or new < 0:
            self.code(e, {E['INVAL']}, 'seek(%d, %d)' % (off, wh))
            return e
        self.code(e, {0}, 'seek(%d, %d)' % (off, wh))
        if n != new:
            raise Mismatch('seek(%d, %d) returned %d, expected %d' % (off, wh, n, new))
        d['off'] = new
        return e

    def allocate(self, d, off, n):
        e = self.w('fd_allocate', d['n'], off, n)
        if self.refused(d, e, R['allocate'], 'allocate'):
            return e
        f = self.files[d['name']]
        if off + n >= 1 << 63:
            if e == 0 or not isinstance(e, int):
                raise Mismatch('allocate(%d, %d) = %s' % (off, n, wasi.err(e)))
            return e
        if n == 0 or not d['rights'] & R['write']:
            if not isinstance(e, int) or e == 0 and off + n > len(f):
                raise Mismatch('allocate(%d, %d) = %s' % (off, n, wasi.err(e)))
            return e
        self.code(e, {0}, 'allocate(%d, %d)' % (off, n))
        f.extend(bytes(max(0, off + n - len(f))))
        return e

    def set_size(self, d, n):
        e = self.w('fd_filestat_set_size', d['n'], n)
        if self.refused(d, e, R['set_size'], 'set_size'):
            return e
        if n >= 1 << 63 or not d['rights'] & R['write']:
            if e == 0 or not isinstance(e, int):
                raise Mismatch('set_size(%d) = %s' % (n, wasi.err(e)))
            return e
        self.code(e, {0}, 'set_size(%d)' % n)
        f = self.files[d['name']]
        f[:] = f[:n] + bytes(max(0, n - len(f)))
        return e

    def stat(self, d):
        e, st = self.w.stat(d['n'])
        if self.refused(d, e, R['filestat_get'], 'stat'):
            return e
        self.code(e, {0}, 'stat')
        if d['dir']:
            return e
        if st['size'] != len(self.files[d['name']]) or st['type'] != wasi.REG:
            raise Mismatch('stat: %r, expected size %d' % (st, len(self.files[d['name']])))
        e, ps = self.w.stat(3, d['name'])
        if e or ps['size'] != st['size'] or ps['ino'] != st['ino']:
            raise Mismatch('stat of the path differs: %r, %r' % (ps, st))
        return e

    def flags(self, d, v):
        if d['dir']:
            return None
        e = self.w('fd_fdstat_set_flags', d['n'], v)
        if self.refused(d, e, R['fdstat_set_flags'], 'set_flags'):
            return e
        self.code(e, {0}, 'set_flags')
        d['append'] = bool(v)
        return e

    def advise(self, d):
        e = self.w('fd_advise', d['n'], 0, 5, 1)
        if d['dir'] and e == 0 or self.refused(d, e, R['advise'], 'advise'):
            return e
        self.code(e, {0}, 'advise')
        for f, r in (('fd_sync', 'sync'), ('fd_datasync', 'datasync')):
            e = self.w(f, d['n'])
            if not self.refused(d, e, R[r], f):
                self.code(e, {0}, f)
        return e

    def close_(self, d):
        e = self.w('fd_close', d['n'])
        self.code(e, {0} if d['open'] else {E['BADF']}, 'close')
        d['open'] = False
        return e


def alphabet():
    return [(o[0] if o[0] != 'close' else 'close_',) + o[1:] for f in (0, 1) for o in fdops(f)]


def histories(ctx, cfg, first, n, of, depth):
    unprivileged(ctx, _histories, cfg, first, n, of, depth)


def _histories(ctx, box, cfg, first, n, of, depth):
    ops = alphabet()
    make = lambda: World(box, cfg)
    if not first:
        return bfs.search(ctx, make, ops, depth, label=cfg)
    # one representative history for each state reachable by one operation; the jobs share these out
    for o in bfs.firsts(ctx, make, ops, cfg)[n::of]:
        bfs.search(ctx, make, ops, depth - 1, prefix=(o,), label=cfg)
        if ctx.full:
            return


def vecs(ctx, *a):
    unprivileged(ctx, _vecs, *a)


def _vecs(ctx, box, cfg):
    """Every vector of up to three buffers with every position in and around a file, after one positional or sequential operation."""
    for n in range(4):
        for shape in itertools.product((0, 1, 2, 9), repeat=n):
            lens = list(shape)
            it = iter(range(65, 91))
            parts = [bytes(next(it) for _ in range(k if k < 9 else 8)) for k in lens]
            for off in (0, 1, 3, len(A0), len(A0) + 4):
                for what in ('read', 'write', 'pread', 'pwrite'):
                    w = World(box, cfg)
                    try:
                        hist = [('seek', 0, off, 0)] if what[0] != 'p' else [('seek', 0, 2, 0)]
                        hist.append((what, 0, lens if 'read' in what else parts) + ((off,) if what[0] == 'p' else ()))
                        hist.append(('read', 0, [3]))
                        ctx.ev()
                        ctx.transitions += len(hist)
                        for o in hist:
                            w.step(o)
                    except Mismatch as e:
                        ctx.viol('%s: %r' % (cfg, hist), e)
                    finally:
                        w.close()
                    if ctx.full:
                        return
    ctx.traces += ctx.evals


class Limit:
    """A limit on the size of files, around one call of the guest only."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


VECS = [[], [b''], [b'ab'], [b'abcdef'], [b'a', b'', b'bcd', b'efghi'], [b'', b'qrstuvwxyz0123456789']]


def partial(ctx):
    unprivileged(ctx, _partial)


def _partial(ctx, box):
    """The host can take or give only a part: every size limit around the write, every amount of room in a pipe and every
    amount of input. What is reported is what happened."""
    for flags in (0, wasi.APPEND):
        for how in ('write', 'pwrite', 'allocate', 'set_size'):
            if flags and how != 'write':
                continue
            for at in (0, 4, 10, 13):
                for lim in range(10, 34) if how != 'allocate' else (10, 12, 20):
                    for parts in VECS:
                        key = '%s flags %d at %d, limit %d, %r' % (how, flags, at, lim, parts)
                        wasi.clear(box)
                        os.mkdir(box + '/p')
                        with open(box + '/p/a', 'wb') as f:
                            f.write(A0)
                        w = W({'p': box + '/p'})
                        try:
                            e, fd = w.open(3, 'a', base=RW, flags=flags)
                            w.seek(fd, at, 0)
                            n = len(b''.join(parts))
                            with Limit(lim):
                                if how == 'write':
                                    e, c = w.write(fd, parts)
                                elif how == 'pwrite':
                                    e, c = w.write(fd, parts, at)
                                elif how == 'allocate':
                                    e, c = w('fd_allocate', fd, at, n), n
                                else:
                                    e, c = w('fd_filestat_set_size', fd, at + n), n
                            ctx.ev(n > 0)
                            ctx.transitions += 1
                            ctx.states += 1
                            ctx.outcome('%s %s %s' % (how, wasi.err(e), 'all' if c == n else 'part'))
                            pos = w.tell(fd)
                            with open(box + '/p/a', 'rb') as f:
                                got = f.read()
                            want, moved = bytearray(A0), 0
                            if e == 0 and how in ('write', 'pwrite'):
                                o = len(A0) if flags else at
                                if c:
                                    want.extend(bytes(max(0, o - len(want))))
                                    want[o:o + c] = b''.join(parts)[:c]
                                moved = c if how == 'write' else 0
                                if flags and c:
                                    at_ = len(A0) + c
                                else:
                                    at_ = at + moved
                                if c > n or (n and c == 0):
                                    ctx.viol(key, '%r bytes reported of %d' % (c, n))
                            else:
                                at_ = at
                                if e == 0 and how == 'allocate':
                                    want.extend(bytes(max(0, at + n - len(want))))
                                elif e == 0:
                                    want = want[:at + n] + bytes(max(0, at + n - len(want)))
                            if not isinstance(e, int) or bytes(want) != got or pos != (0, at_):
                                ctx.viol(key, '%s, %r bytes reported; the file holds %r at %r, expected %r at %d' % (
                                    wasi.err(e), c, got, pos, bytes(want), at_))
                        finally:
                            w.close()
                        if ctx.full:
                            return
    # real pipes as standard streams
    fin, fout = sys.stdin.fileno(), sys.stdout.fileno()
    keep = os.dup(fin), os.dup(fout)
    try:
        for free in (0, 1, 2, 15, 16):
            for n in (0, 1, 4096, 4097, 8192, 12000, 30000):
                for split in (1, 3):
                    r, x = os.pipe()
                    os.set_blocking(x, False)
                    os.write(x, bytes(4096 * (16 - free)))
                    os.dup2(x, fout)
                    data = bytes((i * 7 + i // 256) & 255 for i in range(n))
                    parts = [data[k * n // split:(k + 1) * n // split] for k in range(split)]
                    w = W()
                    e, c = w.write(1, parts)
                    ctx.ev(n > 0)
                    ctx.transitions += 1
                    ctx.outcome('pipe %s %s' % (wasi.err(e), 'all' if c == n else 'part'))
                    w.close()
                    os.close(x)
                    os.dup2(keep[1], fout)
                    got = b''
                    while True:
                        b = os.read(r, 100000)
                        if not b:
                            break
                        got += b
                    os.close(r)
                    got = got[4096 * (16 - free):]
                    key = 'pipe with room for %d pages, %d bytes in %d' % (free, n, split)
                    if (e == 0 and (got != data[:c] or (n and not c))) or (e and (got or e != E['AGAIN'])):
                        ctx.viol(key, '%s, reported %r, %d bytes arrived' % (wasi.err(e), c, len(got)))
        for n in range(0, 12):
            for lens in ([], [0], [3], [2, 0, 3], [0, 4, 0, 4], [20], [1] * 9):
                for end in (True, False):
                    if not end and (n == 0 or sum(lens) == 0):
                        continue            # would wait
                    r, x = os.pipe()
                    os.dup2(r, fin)
                    os.close(r)
                    data = A0[:n]
                    os.write(x, data)
                    if end:
                        os.close(x)
                    w = W()
                    key = 'input of %d%s, vectors %r' % (n, ' and the end' if end else '', lens)
                    for k in range(2):
                        want = data[:sum(lens)]
                        if k and (not end and not data[sum(lens):] or not lens):
                            break
                        e, c, mem = w.read(0, lens)
                        data = data[sum(lens):] if k == 0 else data
                        if k:
                            want = data[:sum(lens)]
                        ctx.ev(n > 0)
                        ctx.transitions += 1
                        pic, rest = b'\xee' * 16, want
                        for j in lens:
                            pic += rest[:j] + b'\xee' * (j - len(rest[:j])) + b'\xee' * 3
                            rest = rest[j:]
                        pic += b'\xee' * 16
                        if e or c != len(want) or mem != pic:
                            ctx.viol(key, 'read %d: %s, %r bytes, %r' % (k, wasi.err(e), c, mem))
                            break
                    w.close()
                    end or os.close(x)
                    os.dup2(keep[0], fin)
    finally:
        os.dup2(keep[0], fin)
        os.dup2(keep[1], fout)
        os.close(keep[0])
        os.close(keep[1])
    ctx.traces += ctx.evals


# ---------------------------------------------------------------------------------------- sizes
def large(ctx, *a):
    unprivileged(ctx, _large, *a)


def blob(n, k=0):
    return bytes((i * 31 + (i >> 8) * 7 + (i >> 16) * 3 + k) & 0xff for i in range(n))


def vectors(w, parts, at):
    """Vectors for parts which lie at `at` and further, one byte between them; in the first 96 KiB of memory."""
    ps = []
    for i, n in enumerate(parts):
        w.p32(16384 + 8 * i, at, n)
        ps.append(at)
        at += n + 1
    return 16384, len(parts), ps


SHAPES = [[n] for n in (4095, 4096, 4097, 8193, 32768, 65535, 65536, 65537, 131073, 1000000)] + \
    [[1] * n for n in (5, 15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 3000)] + \
    [[3, 0] * 600, [0] * 2000 + [2], [5] + [0] * 1100 + [6], [70000, 3, 70000], [4096] * 20, [1, 65536, 1, 0, 65537], [100] * 1030]


def _large(ctx, box, part, parts):
    """Long vectors, many vectors, far offsets, against a plain model of the file."""
    for shape in SHAPES[part::parts]:
        for how in ('write', 'pwrite', 'append', 'read', 'pread', 'short read', 'short pread', 'stdout', 'stdin'):
            wasi.clear(box)
            os.mkdir(box + '/p')
            n = sum(shape)
            old = b'' if 'write' in how or how == 'stdout' else blob(n + 50 if 'short' not in how else n - 1, 9)
            if how == 'append':
                old = b'old'
            with open(box + '/p/f', 'wb') as f:
                f.write(old)
            w = W({'p': box + '/p'})
            key = '%s of %d vectors, %d bytes (%r...)' % (how, len(shape), n, shape[:6])
            try:
                w.pages(40)
                e, fd = w.open(3, 'f', base=RW, flags=wasi.APPEND if how == 'append' else 0)
                assert e == 0, e
                if how.startswith('std'):
                    fd = ('stdin', 'stdout').index(how)
                    w.wasi.fd[fd].pipe = io.BytesIO(old if fd == 0 else b'')
                base = 100000
                p, c, ps = vectors(w, shape, base)
                end = base + n + len(shape) + 50
                w.p32(64, 0xdeadbeef)
                ctx.ev()
                ctx.transitions += 1
                if 'read' in how or how == 'stdin':
                    w.mem[base:end] = b'\xee' * (end - base)
                    off = 5 if 'pread' in how else 0
                    e = w('fd_read', fd, p, c, 64) if 'pread' not in how else w('fd_pread', fd, p, c, off, 64)
                    want = old[off:off + n]
                    pic, rest = bytearray(b'\xee' * (end - base)), want
                    for a, k in zip(ps, shape):
                        pic[a - base:a - base + len(rest[:k])] = rest[:k]
                        rest = rest[k:]
                    if e or w.u32(64) != len(want) or w.mem[base:end] != pic:
                        ctx.viol(key, '%s, %d read, memory %s' % (wasi.err(e), w.u32(64), w.mem[base:end] == pic))
                        continue
                    if how == 'read':
                        t = w.tell(fd)
                        if t != (0, len(want)):
                            ctx.viol(key, 'position %r' % (t,))
                else:
                    data = blob(n, 3)
                    at = 0
                    for a, k in zip(ps, shape):
                        w.mem[a:a + k] = data[at:at + k]
                        at += k
                    off = 7 if how == 'pwrite' else 0
                    e = w('fd_write', fd, p, c, 64) if how != 'pwrite' else w('fd_pwrite', fd, p, c, off, 64)
                    if fd == 1:
                        got = w.wasi.fd[1].pipe.getvalue()
                    else:
                        with open(box + '/p/f', 'rb') as f:
                            got = f.read()
                    want = old + bytes(off) + data
                    if e or w.u32(64) != n or got != want:
                        ctx.viol(key, '%s, %d written, the file has %d bytes, %s' % (wasi.err(e), w.u32(64), len(got), got == want))
                        continue
                    if how == 'write':
                        t = w.tell(fd)
                        if t != (0, n):
                            ctx.viol(key, 'position %r' % (t,))
            finally:
                w.close()
            if ctx.full:
                return
    ctx.traces += ctx.evals


OFFS = [127, 128, 255, 256, 4096, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 77, 5 << 32, (1 << 40) + 3]


def far(ctx):
    unprivileged(ctx, _far)


def _far(ctx, box):
    """Everything that takes or gives a position, at every far position, in a sparse file."""
    for off in OFFS:
        for d in OFFS:
            wasi.clear(box)
            os.mkdir(box + '/p')
            w = W({'p': box + '/p'})
            try:
                e, fd = w.open(3, 'f', oflags=wasi.O_CREAT, base=RW)
                assert e == 0, e
                steps = [
                    ('pwrite', lambda: w.write(fd, [b'abc'], off), (0, 3)),
                    ('size', lambda: w.stat(fd)[1]['size'], off + 3),
                    ('pread', lambda: (lambda r: (r[0], r[1], r[2][16:21]))(w.read(fd, [5], off)), (0, 3, b'abc\xee\xee')),
                    ('pread in front', lambda: (lambda r: (r[0], r[1], r[2][16:18]))(w.read(fd, [2], off - 1)), (0, 2, b'\0a')),
                    ('pread behind', lambda: w.read(fd, [2], off + 3)[:2], (0, 0)),
                    ('seek set', lambda: w.seek(fd, d, 0), (0, d)),
                    ('tell', lambda: w.tell(fd), (0, d)),
                    ('seek cur', lambda: w.seek(fd, -(d // 2), 1), (0, d - d // 2)),
                    ('seek cur forth', lambda: w.seek(fd, off, 1), (0, d - d // 2 + off)),
                    ('seek end', lambda: w.seek(fd, -3, 2), (0, off)),
                    ('read', lambda: (lambda r: (r[0], r[1], r[2][16:19]))(w.read(fd, [9])), (0, 3, b'abc')),
                    ('seek end back', lambda: w.seek(fd, -off, 2), (0, 3)),
                    ('write', lambda: w.write(fd, [b'X', b'Y']), (0, 2)),
                    ('set size', lambda: w('fd_filestat_set_size', fd, d), 0),
                    ('size', lambda: w.stat(fd)[1]['size'], d),
                    ('seek end', lambda: w.seek(fd, 0, 2), (0, d)),
                    ('write', lambda: w.write(fd, [b'Z']), (0, 1)),
                    ('pread', lambda: (lambda r: (r[0], r[1], r[2][16:17]))(w.read(fd, [1], d)), (0, 1, b'Z')),
                    ('size', lambda: w.stat(fd, None)[1]['size'], d + 1),
                    ('path size', lambda: w.stat(3, 'f')[1]['size'], d + 1),
                    ('allocate', lambda: w('fd_allocate', fd, d, 9), 0),
                    ('size', lambda: w.stat(fd)[1]['size'], d + 9),
                    ('host', lambda: os.stat(box + '/p/f').st_size, d + 9),
                    ('pread', lambda: (lambda r: (r[0], r[1], r[2][16:19]))(w.read(fd, [3], d)), (0, 3, b'Z\0\0')),
                    ('the other end', lambda: (lambda r: (r[0], r[1], r[2][16:18]))(w.read(fd, [2], 3)), (0, 2, b'XY')),
                ]
                for k, (name, do, want) in enumerate(steps):
                    got = do()
                    ctx.ev()
                    ctx.transitions += 1
                    if got != want:
                        ctx.viol('offset %d, then %d: step %d, %s' % (off, d, k, name), 'gives %r, expected %r' % (got, want))
                        break
                ctx.states += 1
            finally:
                w.close()
        if ctx.full:
            return
    ctx.traces += ctx.evals


def jobs(tier):
    out = [('partial', ()), ('far', ())] + [('vecs', (c,)) for c in ('same', 'append', 'two', 'trunc')] + [('large', (i, 5)) for i in range(5)]
    for c in CFG:
        deep = c in ('same', 'append', 'two', 'trunc')
        if tier == 'quick':
            out += [('histories', (c, True, i, 12, 3 if deep else 2)) for i in range(12)] if deep else \
                [('histories', (c, False, 0, 1, 2))]
        else:
            out += [('histories', (c, True, i, 98, 4 if deep else 3)) for i in range(98)]
    return out
