"""C24: directory trees."""
import errno
import os

from .. import bfs, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, R, E

LEVEL = 'model_checking'
RULE = ('breadth-first search over every history of creating, opening (every combination of create, exclusive, truncate, '
        'directory and follow with reading, writing and neither), renaming, linking, unlinking, removing, symlinking, reading '
        'links (every buffer length) and stat over an alphabet of names (files, directories, links to each and to nothing, '
        'loops, trailing slashes, dots, names below files and links, an opened directory under its old and new names), compared '
        'after every step with the same POSIX operation on a twin tree: error code, result, whole tree with types, contents, '
        'link targets and link counts; every operation once on trees up to 65 (130) levels deep, chains of up to 42 links, names of up to '
        '256 and targets of up to 4095 bytes. Non-trivial: every step.')
BOUNDS = {'quick': 'depth 2 with 17 names, depth 3 with 6 names', 'thorough': 'depth 3 with 12 names, depth 4 with 5 names'}
ASSUMPTIONS = ['reference: the POSIX system calls of the host on an identical tree of its own',
               'EACCES and EPERM count as the same error', 'targets of new links that begin with dot-dot or are absolute may be '
               'refused', 'permission bits of new objects are free', 'rights not needed for the operation are all present']

TREES = {
    'mixed': {'a': b'AA', 'd': {'x': b'X'}, 'l': 'a', 'm': 'd', 'z': 'nothing'},
    'links': {'a': b'AA', 'd': {}, 'l': 'l2', 'l2': 'd', 'o': 'o', 'é': 'ünï'},
}
WIDE = ['a', 'b', 'd', 'd/x', 'd/y', 'l', 'm', 'm/x', 'z', 'd/', 'a/', 'm/', 'b/', 'a/x', 'z/x', './d/../a', '.', '', 'd/.', '@x', '@y', '@.',
        'é', 'o', 'l2']
MID = ['a', 'b', 'd', 'd/x', 'd/y', 'l', 'm/x', 'z', 'd/', 'm', '@x', '@y']
SMALL = ['a', 'b', 'd', 'd/x', 'l', '@y']
TARGETS = ['a', 'd', 'd/x', 'b', 'ünï', '.']

RIGHTS = {'r': R['read'], 'w': R['write'], 'rw': R['read'] | R['write'], '0': 0}
HFLAG = {'r': os.O_RDONLY, 'w': os.O_WRONLY, 'rw': os.O_RDWR, '0': os.O_RDONLY}


def build(top, tree):
    for n, v in tree.items():
        p = os.path.join(top, n)
        if isinstance(v, dict):
            os.mkdir(p)
            build(p, v)
        elif isinstance(v, str):
            os.symlink(v, p)
        else:
            with open(p, 'wb') as f:
                f.write(v)


def strip(s):
    return {k: [v[0]] + v[2:] if v[0] in 'df' else v for k, v in s.items()}


def want(e):
    """The acceptable WASI codes for a host error."""
    n = errno.errorcode.get(e.errno, 'EIO')[1:]
    if n in ('ACCES', 'PERM'):
        return {E['ACCES'], E['PERM']}
    return {E[n]}


class World:
    def __init__(self, box, tree):
        wasi.clear(box)
        self.real, self.twin = box + '/r', box + '/t'
        for t in (self.real, self.twin):
            os.mkdir(t)
            build(t, TREES[tree])
        self.w = W({'p': self.real})
        # a directory that stays open
        e, n = self.w.open(3, 'd', base=wasi.ALLR & ~R['write'])
        self.fd = {'': 3, '@': n}
        self.hfd = {'': os.open(self.twin, os.O_RDONLY), '@': os.open(self.twin + '/d', os.O_RDONLY)}
        self.snap = strip(wasi.snapshot(self.twin))
        self.n = 0

    def close(self):
        for f in self.hfd.values():
            os.close(f)
        self.w.close()

    def key(self):
        # the opened directory may have lost its name
        st = os.fstat(self.hfd['@'])
        name = [k for k in self.snap if self.snap[k][0] == 'd' and os.stat(os.path.join(self.twin, k)).st_ino == st.st_ino]
        groups = {}
        for k, v in self.snap.items():
            if v[0] == 'f' and v[1] > 1:
                groups.setdefault(os.stat(os.path.join(self.twin, k)).st_ino, []).append(k)
        return repr(sorted(self.snap.items())), repr(name), repr(sorted(groups.values()))

    def at(self, name):
        k = '@' if name[:1] == '@' else ''
        return self.fd[k], self.hfd[k], name[len(k):]

    def step(self, o):
        kind = o[0]
        e, got, host = getattr(self, kind)(*o[1:])
        try:
            exp, he = host(), None
        except OSError as x:
            exp, he = None, x
        what = '%s%r' % (kind, o[1:])
        if not isinstance(e, int):
            raise Mismatch('%s ended the guest: %r' % (what, e))
        if he is None and e != 0 or he is not None and e not in want(he):
            raise Mismatch('%s = %s, the host gives %r' % (what, wasi.err(e), he))
        if e == 0 and got != exp:
            raise Mismatch('%s yields %r, expected %r' % (what, got, exp))
        if kind not in ('stat', 'readlink'):
            if he is None:
                self.snap = strip(wasi.snapshot(self.twin))
            now = strip(wasi.snapshot(self.real))
            if now != self.snap:
                raise Mismatch('%s = %s: tree differs: %r, expected %r' % (
                    what, wasi.err(e), {k: v for k, v in now.items() if v != self.snap.get(k)},
                    {k: v for k, v in self.snap.items() if v != now.get(k)}))
        return '%s:%s' % (kind, wasi.err(e))

    def mkdir(self, name):
        fd, h, n = self.at(name)
        return self.w.path('path_create_directory', fd, n), None, lambda: os.mkdir(n, dir_fd=h)

    def rmdir(self, name):
        fd, h, n = self.at(name)
        return self.w.path('path_remove_directory', fd, n), None, lambda: os.rmdir(n, dir_fd=h)

    def unlink(self, name):
        fd, h, n = self.at(name)
        return self.w.path('path_unlink_file', fd, n), None, lambda: os.unlink(n, dir_fd=h)

    def stat(self, name, follow):
        fd, h, n = self.at(name)
        e, st = self.w.stat(fd, n, follow)
        got = None
        if e == 0:
            # the object itself, on the real tree
            real = os.stat(n, dir_fd=self.w.wasi.fd[fd].host_fd, follow_symlinks=bool(follow))
            if (st['ino'], st['size'], st['mtim'], st['ctim'], st['atim']) != (
                    real.st_ino, real.st_size, real.st_mtime_ns, real.st_ctime_ns, real.st_atime_ns):
                raise Mismatch('stat(%r, %d) = %r instead of %r' % (name, follow, st, real))
            got = st['type'], st['nlink'] if st['type'] != wasi.DIR else 0

        def host():
            x = os.stat(n, dir_fd=h, follow_symlinks=bool(follow))
            t = {4: wasi.DIR, 8: wasi.REG, 10: wasi.LNK}[x.st_mode >> 12]
            return t, x.st_nlink if t != wasi.DIR else 0
        return e, got, host

    def readlink(self, name, size):
        fd, h, n = self.at(name)
        w = self.w
        top = max(20600, 20600 + size)
        w.mem[20480:top] = b'\xee' * (top - 20480)
        w.p32(64, 0)
        e = w('path_readlink', fd, *w.text(n), 20496, size, 64)
        got = None
        if e == 0:
            k = w.u32(64)
            got = k, bytes(w.mem[20496:20496 + k])
            if set(w.mem[20480:20496]) | set(w.mem[20496 + k:top]) != {0xee}:
                raise Mismatch('readlink(%r, %d) wrote beyond what it reports (%d)' % (name, size, k))

        def host():
            b = os.fsencode(os.readlink(n, dir_fd=h))[:size]
            return len(b), b
        return e, got, host

    def symlink(self, target, name):
        fd, h, n = self.at(name)
        return self.w.symlink(target, fd, n), None, lambda: os.symlink(target, n, dir_fd=h)

    def rename(self, a, b):
        fa, ha, na = self.at(a)
        fb, hb, nb = self.at(b)
        return self.w.path2('path_rename', fa, na, fb, nb), None, lambda: os.rename(na, nb, src_dir_fd=ha, dst_dir_fd=hb)

    def link(self, a, b, follow):
        fa, ha, na = self.at(a)
        fb, hb, nb = self.at(b)
        return (self.w.path2('path_link', fa, na, fb, nb, follow), None,
                lambda: os.link(na, nb, src_dir_fd=ha, dst_dir_fd=hb, follow_symlinks=bool(follow)))

    def open(self, name, oflags, rights, follow):
        fd, h, n = self.at(name)
        w = self.w
        extra = R['filestat_get'] | R['readdir'] | R['seek'] | R['tell']
        e, f = w.open(fd, n, lookup=follow, oflags=oflags, base=RIGHTS[rights] | extra, root=0)
        got = None
        if e == 0:
            x, st = w.stat(f)
            x, fs = w.fdstat(f)
            got = [st['type'], st['size'] if st['type'] == wasi.REG else 0, fs['type']]
            if st['type'] == wasi.REG and rights in ('w', 'rw'):
                x = w.write(f, [b'W'])[0]
                if x:
                    raise Mismatch('writing to %r opened with %s = %s' % (name, rights, wasi.err(x)))
            if st['type'] == wasi.REG and rights == 'r':
                got.append(w.readbytes(f, 50))
            w('fd_close', f)
        fl = HFLAG[rights] | (0 if follow else os.O_NOFOLLOW)
        for bit, v in ((wasi.O_CREAT, os.O_CREAT), (wasi.O_DIR, os.O_DIRECTORY), (wasi.O_EXCL, os.O_EXCL), (wasi.O_TRUNC, os.O_TRUNC)):
            if oflags & bit:
                fl |= v

        def host():
            f = os.open(n, fl, 0o644, dir_fd=h)
            st = os.fstat(f)
            t = {4: wasi.DIR, 8: wasi.REG}[st.st_mode >> 12]
            r = [t, st.st_size if t == wasi.REG else 0, t]
            if t == wasi.REG and rights in ('w', 'rw'):
                os.write(f, b'W')
            if t == wasi.REG and rights == 'r':
                r.append((0, os.read(f, 50)))
            os.close(f)
            return r
        return e, got, host


def alphabet(names, few):
    out = []
    for n in names:
        out += [('mkdir', n), ('rmdir', n), ('unlink', n), ('stat', n, 0), ('stat', n, 1)]
        out += [('readlink', n, k) for k in ((0, 1, 2, 3, 5, 6, 100) if not few else (100,))]
        out += [('symlink', t, n) for t in (TARGETS if not few else TARGETS[:2])]
        if few:
            out += [('open', n, *x) for x in ((1, 'w', 1), (5, 'w', 0), (8, 'w', 1), (0, 'r', 1), (2, '0', 1), (0, 'r', 0))]
        else:
            for of in range(16):
                for r in RIGHTS:
                    if of & 3 == 3:
                        continue                # creating a directory by opening differs between kernels
                    out += [('open', n, of, r, 0), ('open', n, of, r, 1)]
        for b in names:
            out += [('rename', n, b), ('link', n, b, 0), ('link', n, b, 1)]
    return out


SETS = {'wide': (WIDE, False), 'mid': (MID, True), 'small': (SMALL, True), 'tiny': (SMALL[:5], True)}


def histories(ctx, tree, names, n, of, depth):
    unprivileged(ctx, _histories, tree, names, n, of, depth)


def _histories(ctx, box, tree, names, n, of, depth):
    ops = alphabet(*SETS[names])
    make = lambda: World(box, tree)
    first = bfs.firsts(ctx, make, ops, tree)
    if ctx.full:
        return
    for o in first[n::of]:
        bfs.search(ctx, make, ops, depth - 1, prefix=(o,), label=tree)
        if ctx.full:
            return


# ---------------------------------------------------------------------------------------- sizes
def sizes(ctx, kind, n):
    unprivileged(ctx, _sizes, kind, n)


def _sizes(ctx, box, kind, n):
    """Deep trees, long chains of links, long names and targets; every operation once, compared as above."""
    ops = []
    if kind == 'chain':
        at = {'x': b'bottom'}
        for i in range(n - 1, -1, -1):
            at = {'c%d' % i: at, 'x': b'%d' % i, 'up': '../' * i + 'x', 'top': '../' * i + '../a'}
        tree = {'a': b'AA', 'd': at, 'jump': 'd/' + '/'.join('c%d' % i for i in range(n))}
        down = ['/'.join(['d'] + ['c%d' % i for i in range(k)]) for k in range(n + 1)]
        names = ['jump/x', 'jump/../x', 'jump/../up', 'jump/new', '@' + down[n][2:] + '/x', down[n] + '/x']
        for k in sorted({1, n // 2, n - 1, n}):
            names += [down[k], down[k] + '/new', down[k] + '/x', down[k] + '/..' * k + '/x', down[k] + '/..' * k + '/new', down[k] + '/..' * (k + 1) + '/a',
                      'd/' + './' * k + 'x', 'd/' + 'c0/../' * k + 'x', 'd/' + 'c0/../' * k + 'c0/../new']
            if k < n:
                names += [down[k] + '/up', down[k] + '/top']
    elif kind == 'links':
        tree = {'a': b'AA', 'd': {'x': b'X'}, 'l0': 'a', 'm0': 'd', 'z0': 'nothing'}
        for i in range(1, n + 1):
            for c in 'lmz':
                tree['%s%d' % (c, i)] = '%s%d' % (c, i - 1)
        names = [c + '%d' % k + t for k in sorted({0, 1, n // 2, n - 1, n}) for c, ts in (('l', ('', '/')), ('m', ('', '/', '/x', '/new')), ('z', ('',)))
                 for t in ts] + ['/'.join(['m0/..'] * n + ['a']), 'm%d/../m%d/../a' % (n // 2, n // 2)]
    elif kind == 'name':
        a, b = 'n' * (n - 1), 'é' * (n // 2)
        tree = {'a': b'AA', 'd': {'x': b'X', a + '0': b'0', a + '1': {}, a + '2': 'x'}, b: b'multi', a + '0': b'00', a + '3': 'd/' + a + '0'}
        names = ['a', 'd/x', 'd/' + a + '0', 'd/' + a + '1', 'd/' + a + '2', a + '0', a + '3', a + '4', 'd/' + a + '4', b, 'd/' + b, 'd/' + a + '1/' + a + '5',
                 '@' + a + '0', '@/' + a + '1/' + b, a + '67']
        names = [x if x[:2] != '@/' else '@' + x[2:] for x in names]
    else:
        # targets of n bytes, which lead to an object by detours
        t = './' * ((n - 1) // 2) + '/' * ((n - 1) % 2)
        tree = {'a': b'AA', 'd': {'x': b'X'}, 'la': t + 'a', 'ld': t + 'd', 'lz': 'q' * min(n, 255) + '/' * max(0, n - 255)}
        names = ['la', 'ld', 'ld/x', 'ld/new', 'lz', 'a']
        ops += [('readlink', x, k) for x in ('la', 'ld', 'lz') for k in (n - 1, n, n + 1)]
        ops += [('symlink', tree[x], y) for x in ('la', 'ld', 'lz') for y in ('new', '@new', 'ld/new', 'a')]
    TREES[kind] = tree
    for x in names:
        ops += [('mkdir', x), ('rmdir', x), ('unlink', x), ('stat', x, 0), ('stat', x, 1), ('readlink', x, 5), ('readlink', x, 5000), ('symlink', 'a', x)]
        ops += [('open', x, *y) for y in ((1, 'w', 1), (5, 'w', 0), (8, 'w', 1), (0, 'r', 1), (2, '0', 1), (0, 'r', 0))]
        for y in ('a', 'd/x', 'new', '@new'):
            ops += [('rename', x, y), ('link', x, y, 0), ('rename', y, x), ('link', y, x, 0)]
    bfs.search(ctx, lambda: World(box, kind), ops, 1, label='%s %d' % (kind, n))


def many(tier):
    return [('sizes', ('chain', k)) for k in ((65, 33, 20, 17, 9, 5) if tier == 'quick' else (130, 100, 65, 64, 33, 32, 20, 17, 16, 9, 8, 5))] + \
        [('sizes', ('links', k)) for k in (3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 38, 42)] + \
        [('sizes', ('name', k)) for k in (14, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 200, 253, 254, 255)] + \
        [('sizes', ('target', k)) for k in (63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4000, 4094, 4095)]


def jobs(tier):
    return many(tier) + trees(tier)


def trees(tier):
    if tier == 'quick':
        return [('histories', (t, 'wide', i, 16, 2)) for t in TREES for i in range(16)] + \
            [('histories', ('mixed', 'small', i, 16, 3)) for i in range(16)]
    return [('histories', (t, 'wide', i, 32, 2)) for t in TREES for i in range(32)] + \
        [('histories', (t, 'mid', i, 64, 3)) for t in TREES for i in range(64)] + \
        [('histories', ('mixed', 'tiny', i, 32, 4)) for i in range(32)]
