"""C20: containment of paths."""
import itertools
import os
import stat

from .. import wasi
from ..wasi import W, unprivileged, R, E

LEVEL = 'model_checking'
RULE = ('part 1: every path of up to four components over an alphabet of plain names, dot, dot-dot, empty components, missing '
        'names and links (to files and directories inside, outside, upwards, absolute, dangling, cyclic, chained) plus '
        'absolute and otherwise odd strings, given to every path operation in every argument position with every relevant '
        'flag, through a preopen and through an opened sub-directory, for several names of the preopen, with the other name of a link or rename in the same or another preopen, and paths through up to 33 '
        '(100) levels and links; part 2: every '
        'history of up to N tree operations that plant and move links, directories and names, with every probing operation '
        'through every name at the end. An own resolver over a model tree tells whether a path leaves; if so the call '
        'must fail, if not it must do what the same host operation does on a twin tree; the outside world is compared '
        'after every call. Non-trivial: paths with a dot-dot, a link or a leading slash.')
BOUNDS = {'quick': 'paths of 4 components (3 for other preopen names), histories of 2 operations',
          'thorough': 'paths of 5 components (4 for other preopen names), histories of 3 operations'}
ASSUMPTIONS = ['nothing else changes the tree at the same time', 'the exact error code of a refused path is free',
               'absolute paths and links with absolute targets count as leaving',
               'a path that leaves an opened sub-directory but not the preopen may be refused or followed',
               'link targets that begin with dot-dot may be refused when the link is made']

# ---- the world; a tree is a dict of names: bytes = file, str = link target, dict = directory
TREE = {
    'f': b'inside',
    'd': {'f': b'in d', 'e': {'g': b'deep'}, 'up': '../f', 'esc': '../../out', 'chain': '../ldo'},
    'lf': 'f', 'ld': 'd', 'lo': '../out/secret', 'ldo': '../out', 'lup': '..', 'lre': '../pre/f', 'dang': 'no',
    'dango': '../out/new', 'loop': 'loop', 'lla': 'ld/up', 'llo': 'd/esc/secret', 'self': '.', 'labs': '/@/out/secret',
    'labin': '/@/pre/f',
}
OUT = {'out': {'secret': b'secret', 'sub': {'s': b's'}}, 'pre2': {'secret': b'sibling'}, 'f': b'above'}


def build(top, tree, box):
    for n, v in tree.items():
        p = os.path.join(top, n)
        if isinstance(v, dict):
            os.mkdir(p)
            build(p, v, box)
            os.utime(p, ns=(1000, 2000))
        elif isinstance(v, str):
            os.symlink(v.replace('/@', box), p)
        else:
            with open(p, 'wb') as f:
                f.write(v)
            os.utime(p, ns=(1000, 2000))


def outside(box):
    """Everything outside the preopen: kinds, links, sizes, times, names."""
    out = []
    for d in ('', 'out', 'out/sub', 'pre2'):
        p = os.path.join(box, d)
        st = os.stat(p)
        out.append((d, st.st_mode, st.st_nlink if d else 0, st.st_mtime_ns if d else 0))
        for n in sorted(os.listdir(p)):
            st = os.lstat(os.path.join(p, n))
            if d or n in OUT:
                out.append((d, n, st.st_mode, st.st_nlink, st.st_size, st.st_mtime_ns))
            else:
                out.append((d, n, st.st_mode))
    return out


LEAVES, SUB, STAYS = 'leaves', 'leaves the sub-directory', 'stays'


def resolve(tree, start, path, follow):
    """Own resolver over a model tree (absolute targets and paths leave)."""
    links = 0
    sub = False
    at = list(start)              # names from the preopen down to the current directory
    if path.startswith('/'):
        return LEAVES
    todo = path.split('/')

    def node(names):
        n = tree
        for x in names:
            if not isinstance(n, dict) or x not in n:
                return None
            n = n[x]
        return n
    low = len(at)
    while todo:
        c = todo.pop(0)
        if c in ('', '.'):
            continue
        if not isinstance(node(at), dict):
            break                   # the host refuses to go through what is not a directory
        if c == '..':
            if not at:
                return LEAVES
            at.pop()
            if len(at) < low:
                sub = True
            continue
        n = node(at + [c])
        if isinstance(n, str) and (todo or follow):
            if n.startswith('/'):
                return LEAVES
            links += 1
            if links > 40:
                break
            todo = n.split('/') + todo
            continue
        at.append(c)
    return SUB if sub else STAYS


# ---- operations: name -> (call on the guest, the same on the host, follows the last link, changes the tree)
def _open(oflags, base, follow):
    hf = {0: os.O_RDONLY, 1: os.O_WRONLY}[1 if base & R['write'] else 0]
    if oflags & wasi.O_CREAT:
        hf |= os.O_CREAT
    if oflags & wasi.O_DIR:
        hf |= os.O_DIRECTORY
    if oflags & wasi.O_EXCL:
        hf |= os.O_EXCL
    if oflags & wasi.O_TRUNC:
        hf |= os.O_TRUNC
    if not follow:
        hf |= os.O_NOFOLLOW

    def guest(w, fd, p):
        e, n = w.open(fd, p, lookup=1 if follow else 0, oflags=oflags, base=base, root=0)
        if e == 0:
            st = w.stat(n)[1]
            w('fd_close', n)
            return e, st and st['ino']
        return e, None

    def host(fd, p):
        n = os.open(p, hf, 0o644, dir_fd=fd)
        try:
            return os.fstat(n).st_ino
        finally:
            os.close(n)
    return guest, host, follow, bool(oflags & (wasi.O_CREAT | wasi.O_TRUNC))


RD, WR = R['read'] | R['filestat_get'] | R['readdir'], R['write'] | R['filestat_get']


def _stat(follow):
    def guest(w, fd, p):
        e, st = w.stat(fd, p, follow)
        return e, st and st['ino']
    return guest, lambda fd, p: os.stat(p, dir_fd=fd, follow_symlinks=bool(follow)).st_ino, follow, False


def _times(follow):
    return (lambda w, fd, p: (w('path_filestat_set_times', fd, follow, *w.text(p), 10 ** 9, 10 ** 9, 5), None),
            lambda fd, p: os.utime(p, ns=(10 ** 9, 10 ** 9), dir_fd=fd, follow_symlinks=bool(follow)), follow, True)


def _link(follow):
    return (lambda w, fd, p: (w.path2('path_link', fd, p, fd, 'new', follow), None),
            lambda fd, p: os.link(p, 'new', src_dir_fd=fd, dst_dir_fd=fd, follow_symlinks=bool(follow)), follow, True)


def _readlink():
    return (lambda w, fd, p: w.readlink(fd, p), lambda fd, p: os.fsencode(os.readlink(p, dir_fd=fd)), 0, False)


def _simple(name, host):
    return (lambda w, fd, p: (w.path(name, fd, p), None), lambda fd, p: host(p, dir_fd=fd), 0, True)


SECOND = {}     # the host descriptor of the other directory, for each host descriptor
OTHER = {'f': b'other', 'd': {}}
OPS = {
    'mkdir': _simple('path_create_directory', os.mkdir),
    'rmdir': _simple('path_remove_directory', os.rmdir),
    'unlink': _simple('path_unlink_file', os.unlink),
    'stat': _stat(1), 'lstat': _stat(0), 'utime': _times(1), 'lutime': _times(0),
    'link': _link(1), 'llink': _link(0),
    'linkto': (lambda w, fd, p: (w.path2('path_link', fd, 'f', fd, p, 0), None),
               lambda fd, p: os.link('f', p, src_dir_fd=fd, dst_dir_fd=fd), 0, True),
    'readlink': _readlink(),
    'rename': (lambda w, fd, p: (w.path2('path_rename', fd, p, fd, 'new'), None),
               lambda fd, p: os.rename(p, 'new', src_dir_fd=fd, dst_dir_fd=fd), 0, True),
    'renameto': (lambda w, fd, p: (w.path2('path_rename', fd, 'f', fd, p), None),
                 lambda fd, p: os.rename('f', p, src_dir_fd=fd, dst_dir_fd=fd), 0, True),
    'renamedirto': (lambda w, fd, p: (w.path2('path_rename', fd, 'd', fd, p), None),
                    lambda fd, p: os.rename('d', p, src_dir_fd=fd, dst_dir_fd=fd), 0, True),
    # the other name is in another preopened directory, which has none of the links
    'linkin': (lambda w, fd, p: (w.path2('path_link', 4, 'f', fd, p, 0), None),
               lambda fd, p: os.link('f', p, src_dir_fd=SECOND[fd], dst_dir_fd=fd), 0, True),
    'linkout': (lambda w, fd, p: (w.path2('path_link', fd, p, 4, 'd/new', 1), None),
                lambda fd, p: os.link(p, 'd/new', src_dir_fd=fd, dst_dir_fd=SECOND[fd], follow_symlinks=True), 1, True),
    'renamein': (lambda w, fd, p: (w.path2('path_rename', 4, 'f', fd, p), None),
                 lambda fd, p: os.rename('f', p, src_dir_fd=SECOND[fd], dst_dir_fd=fd), 0, True),
    'renameout': (lambda w, fd, p: (w.path2('path_rename', fd, p, 4, 'd/new'), None),
                  lambda fd, p: os.rename(p, 'd/new', src_dir_fd=fd, dst_dir_fd=SECOND[fd]), 0, True),
    'symlink': (lambda w, fd, p: (w.symlink('f', fd, p), None), lambda fd, p: os.symlink('f', p, dir_fd=fd), 0, True),
    'open': _open(0, RD, 1), 'openn': _open(0, RD, 0), 'openw': _open(0, WR, 1), 'opend': _open(wasi.O_DIR, RD, 1),
    'openc': _open(wasi.O_CREAT, WR, 1), 'opencn': _open(wasi.O_CREAT, WR, 0),
    'openx': _open(wasi.O_CREAT | wasi.O_EXCL, WR, 1), 'opent': _open(wasi.O_TRUNC, WR, 1), 'opentn': _open(wasi.O_TRUNC, WR, 0),
}


class World:
    def __init__(self, box, pre='p', sub=None, tree=None):
        self.box, self.pre, self.sub, self.tree = box, pre, sub, tree or TREE
        wasi.clear(box)
        build(box, OUT, box)
        os.mkdir(box + '/twin')
        build(box + '/twin', OUT, box)
        os.utime(box + '/out', ns=(1000, 2000))
        self.n = 0
        self.w = None
        self.rebuild()
        self.out = outside(box)

    def rebuild(self):
        if self.w:
            self.w.close()
            os.close(self.host)
            os.close(self.twin)
            for n in SECOND.values():
                os.close(n)
            SECOND.clear()
            for d in ('/pre', '/twin/pre', '/other', '/twin/other'):
                wasi.clear(self.box + d)
        else:
            for d in ('/pre', '/twin/pre', '/other', '/twin/other'):
                os.mkdir(self.box + d)
        build(self.box + '/other', OTHER, self.box)
        build(self.box + '/twin/other', OTHER, self.box)
        build(self.box + '/pre', self.tree, self.box)
        build(self.box + '/twin/pre', self.tree, self.box)
        self.w = W({self.pre: self.box + '/pre', '\U0010ffff': self.box + '/other'})
        self.fd = 3
        d = ''
        if self.sub:
            e, self.fd = self.w.open(3, self.sub, base=wasi.ALLR & ~R['write'])
            assert e == 0, e
            d = '/' + self.sub
        self.host = os.open(self.box + '/pre' + d, os.O_RDONLY)
        self.twin = os.open(self.box + '/twin/pre' + d, os.O_RDONLY)
        SECOND[self.host] = os.open(self.box + '/other', os.O_RDONLY)
        SECOND[self.twin] = os.open(self.box + '/twin/other', os.O_RDONLY)
        self.n = 0

    def step(self, ctx, op, p):
        """One operation with one path on the initial tree."""
        guest, host, follow, mutates = OPS[op]
        what = resolve(self.tree, self.sub.split('/') if self.sub else [], p, follow)
        key = '%s:%s:%s:%s' % (self.pre, self.sub or '', op, p)
        ctx.ev('..' in p or 'l' in p or p.startswith('/'))
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        self.n += 1
        e, got = guest(self.w, self.fd, p)
        if not isinstance(e, int):
            ctx.viol(key, '%s(%r) ended the guest: %r' % (op, p, e))
            self.rebuild()
            return
        ctx.outcome(what + ':' + wasi.err(e))
        if outside(self.box) != self.out:
            ctx.viol(key, '%s(%r) = %s changed something outside: %r' % (
                op, p, wasi.err(e), [x for x in outside(self.box) if x not in self.out]))
            self.__init__(self.box, self.pre, self.sub, self.tree)
            return
        if what == LEAVES:
            if e == 0:
                ctx.viol(key, '%s(%r) succeeded although the path leaves the directory' % (op, p))
        elif what == STAYS:
            try:
                want, he = host(self.twin if mutates else self.host, p), None
            except OSError as x:
                want, he = None, x
            if (e == 0) != (he is None):
                ctx.viol(key, '%s(%r) = %s, the host operation gives %r' % (op, p, wasi.err(e), he))
            elif e == 0 and not mutates and want != got:
                ctx.viol(key, '%s(%r) yields %r instead of %r' % (op, p, got, want))
            elif he is not None and e in (E['PERM'], E['NOTCAPABLE']) and he.errno not in (1, 13):
                # Refused as forbidden although merely impossible: allowed, but counted.
                ctx.note('refused although inside (host: %s)' % type(he).__name__)
        if e == 0 and mutates or what == STAYS and mutates and he is None:
            if what == STAYS and not ctx.full:
                t = op in ('utime', 'lutime')
                a, b = (wasi.snapshot(self.box + x, t) for x in ('/pre', '/twin/pre'))
                if t:
                    a, b = ({k: v[-1] in (10 ** 9, 2000) and v for k, v in x.items() if v[0] == 'f'} for x in (a, b))
                if op.endswith(('in', 'out')) and wasi.snapshot(self.box + '/other') != wasi.snapshot(self.box + '/twin/other'):
                    ctx.viol(key, '%s(%r): the other directory has %r' % (op, p, sorted(wasi.snapshot(self.box + '/other'))))
                if a != b:
                    ctx.viol(key, '%s(%r): tree %r, expected %r' % (op, p, [k for k in a if a[k] != b.get(k)],
                                                                 [k for k in b if b[k] != a.get(k)]))
            self.rebuild()
        elif self.n > 3000:
            self.rebuild()


COMP = ['..', '.', '', 'f', 'd', 'lf', 'ld', 'lo', 'ldo', 'lup', 'no', 'pre2', 'up', 'esc']
COMP3 = COMP + ['lre', 'dang', 'dango', 'loop', 'lla', 'llo', 'self', 'labs', 'labin', 'chain', 'e', 'out', 'pre', 'secret', 'sub',
                'new', '...', '..f', 'F', 'é']
SUBC = ['..', '.', 'f', 'e', 'g', 'up', 'esc', 'chain', 'd', 'no', 'ldo', 'pre']
ODD = ['/', '//', '/f', '/d/f', '//f', './/f', '/pre/f', '/p/f', '/..', '/../f', '/out/secret', '@/pre/f', '@/out/secret', '@/pre/../f',
       '@', '@/pre', '@/pre2/secret', 'd//f', 'd/./f', './././f', 'd/../d/../f', 'd/e/../../f', 'd/e/../../../f', 'd/e/../../../pre/f',
       '../pre', '../pre/', '../pre/f', '../pre2/secret', '../pre/../pre/f', 'd/../../pre/d/f', '../p/f', 'f/..', 'f/../..',
       'f/../../f', 'no/../f', 'no/../..', 'no/../../f', 'lf/', 'ldo/', 'lo/', 'dango/', 'ld/', 'f/', 'd/', 'new/', 'ldo/.', 'ldo/new',
       'ldo/secret', 'ldo/..', 'ldo/../pre/f', 'lup/f', 'lup/pre/f', 'lup/out/secret', 'self/self/self/f', 'self/../f',
       'self/../../f', 'ld/../f', 'ld/e/../../f', 'ld/e/../../../f', 'ld/esc', 'ld/up', 'ld/chain/secret', 'loop/f', 'dang/f',
       '.', '..', './.', './..', '', '...', '..f', 'a' * 255, 'a' * 256, '../' * 20 + 'etc', 'd/' + '../' * 5, 'self/' * 39 + 'f',
       'self/' * 40 + 'f', 'self/' * 41 + 'f', 'self/' * 39 + 'ldo/secret', 'self/' * 45 + 'ldo/secret', './' * 2000 + 'f',
       './' * 2047 + 'f', './' * 2100 + 'ldo/secret', 'd/../' * 800 + 'f', 'd/../' * 900 + '../f', 'C:\\f', '\\..\\f', '~', '$HOME',
       '-', '*', ' ', 'f ', '%2e%2e/f', '..%2ff', '\u2025/f', '．．/f']


def paths(ctx, pre, sub, comps, depth, first):
    unprivileged(ctx, _paths, pre, sub, comps, depth, first)


def _paths(ctx, box, pre, sub, comps, depth, first):
    world = World(box, pre, sub)
    for n in range(depth):
        for rest in itertools.product(comps, repeat=n):
            p = '/'.join((first,) + rest)
            for op in OPS:
                world.step(ctx, op, p)
                if ctx.full:
                    return
    world.w.close()
    ctx.sample('%s(%r) through %r' % (op, p, pre))


def odd(ctx, pre, sub, n, of):
    unprivileged(ctx, _odd, pre, sub, n, of)


def _odd(ctx, box, pre, sub, n, of):
    world = World(box, pre, sub)
    for p in ODD[n::of]:
        for op in OPS:
            world.step(ctx, op, p.replace('@', box))
            if ctx.full:
                return
    world.w.close()


# ---- many levels
def far(ctx, n, sub):
    unprivileged(ctx, _far, n, sub)


def _far(ctx, box, n, sub):
    """n directories inside one another, n links behind one another, and what leads out of them."""
    at = {'f': b'bottom'}
    for i in range(n - 1, -1, -1):
        at = {'c': at, 'f': b'%d' % i}
        if i in (0, n // 2, n - 1):
            at.update({'in': '../' * (i + 1) + 'f', 'esc': '../' * (i + 2) + 'out/secret', 'escd': '../' * (i + 2) + 'out', 'top': '../' * (i + 1) + '.'})
    tree = {'f': b'inside', 'd': at, 'k0': '../out/secret', 'm0': '../out', 'l0': 'f', 'jump': 'd' + '/c' * n}
    for i in range(1, n):
        for c in 'kml':
            tree['%s%d' % (c, i)] = '%s%d' % (c, i - 1)
    downs = ['d' + '/c' * k for k in sorted({0, 1, n // 2, n - 1, n})]
    paths = []
    for x in downs:
        k = x.count('/') + 1
        paths += [x + '/..' * k + t for t in ('', '/f', '/new', '/l0', '/k0', '/m0/secret')]
        paths += [x + '/..' * (k + 1) + t for t in ('', '/f', '/new', '/out/secret', '/pre/f', '/pre/d/f', '/out')]
        paths += [x + '/..' * (k - 1) + '/f', x + '/in', x + '/esc', x + '/escd/secret', x + '/escd', x + '/top/f', x + '/top/../f', x + '/top/../out/secret', x + '/f']
    paths += ['jump/f', 'jump/..' + '/..' * n + '/f', 'jump/..' + '/..' * n + '/../f', 'jump/in', 'jump/../escd/secret', 'jump/../esc']
    for k in sorted({0, 1, n // 2, n - 1} & set(range(n))):
        paths += ['k%d' % k, 'm%d/secret' % k, 'm%d/new' % k, 'm%d' % k, 'l%d' % k, 'd/../k%d' % k, 'd/c/../../m%d/secret' % k, 'm%d/..' % k]
    if sub:
        paths = [x[2:] for x in paths if x.startswith('d/')]
    world = World(box, 'p', 'd' if sub else None, tree)
    for p in paths:
        for op in OPS:
            world.step(ctx, op, p)
        if ctx.full:
            return
    world.w.close()


# ---- long chains: resolved prefixes longer than any path string may be
def deep(ctx):
    unprivileged(ctx, _deep)


def _deep(ctx, box):
    build(box, OUT, box)
    os.mkdir(box + '/pre')
    name = 'n' * 250
    w = W({'p': box + '/pre'})
    fd = 3
    e = 0
    for i in range(24):            # a directory chain of 6000 characters, made through descriptors
        e |= w.path('path_create_directory', fd, name)
        x, fd = w.open(fd, name, oflags=wasi.O_DIR, base=wasi.ALLR & ~R['write'])
        e |= x
    assert e == 0, e
    hfd = w.wasi.fd[fd].host_fd
    os.symlink('../' * 25 + 'out', 'esc', dir_fd=hfd)
    os.symlink('../' * 23 + 'ok', 'in', dir_fd=hfd)
    with open(box + '/pre/ok', 'wb') as f:
        f.write(b'ok')
    # links that each stand for several levels
    for i in range(4):
        os.symlink('/'.join([name] * 8), box + '/pre/' + ('s%d' % i if i == 0 else 'x%d' % i))
    os.symlink('/'.join([name] * 8), box + '/pre/' + '/'.join([name] * 8) + '/s1')
    # the third lies deeper than a path string can say
    e, f8 = w.open(3, 's0/s1', oflags=wasi.O_DIR, base=wasi.ALLR & ~R['write'])
    ctx.ev()
    ctx.outcome('deep:' + wasi.err(e))
    if e == 0:
        os.symlink('/'.join([name] * 8), 's2', dir_fd=w.wasi.fd[f8].host_fd)
    before = outside(box)
    for p in ('s0/s1/s2/esc', 's0/s1/s2/esc/secret', 's0/s1/s2/esc/new', 's0/s1/s2/../' + name + '/esc/secret', 's0/s1/s2/esc/sub'):
        for op in OPS:
            ctx.ev()
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            e, got = OPS[op][0](w, 3, p)
            ctx.outcome('deep:' + wasi.err(e))
            if not isinstance(e, int):
                ctx.viol('deep:%s:%s' % (op, p), 'ended the guest: %r' % e)
            elif outside(box) != before or e == 0 and p != 's0/s1/s2/esc':
                ctx.viol('deep:%s:%s' % (op, p), '%s through a very long chain = %s reached outside' % (op, wasi.err(e)))
                return
            elif e == 0 and op in ('open', 'openn', 'opend', 'openc', 'stat'):
                ctx.viol('deep:%s:%s' % (op, p), '%s through a very long chain = %s reached outside' % (op, wasi.err(e)))
                return
    w.close()


# ---- histories
H_TREE = {'f': b'inside', 'd': {'e': {'g': b'g'}}}
PLACES = ['l', 'd/l', 'd/e/l']
TARGETS = ['..', '../..', '../f', '../../f', '.', 'f', 'd/..', 'd/../..', 'e/..', 'e/../..', '/@/out/secret', '../out/secret',
           '../../out', 'l', 'd/e/l', 'd/l/../..']
DIRS = ['d', 'd/e', 'n', 'd/n']
ACTS = ([('symlink', t, p) for t in TARGETS for p in PLACES] +
        [('rename', a, b) for a in PLACES + DIRS for b in PLACES + DIRS if a != b] +
        [('link', a, b) for a in PLACES for b in PLACES if a != b])
PROBES = ['l', 'd/l', 'd/e/l', 'n/l', 'l/f', 'l/out/secret', 'd/l/f', 'd/e/l/f', 'd/l/out/secret', 'd/e/l/out/secret', 'n/l/f',
          'l/secret', 'd/l/secret', 'l/l', 'd/l/l', 'l/../f', 'd/l/../f', 'd/e/../../f', 'n/../f', 'n/../../f', 'l/new', 'd/l/new',
          'd/n/l/f', 'd/n/l/out/secret']
POPS = ['stat', 'open', 'openc', 'readlink', 'mkdir', 'opent', 'utime', 'link', 'linkto', 'rename', 'renameto', 'symlink', 'unlink']


def model(top):
    """The tree as it is now, as a model tree."""
    out = {}
    for n in os.listdir(top):
        p = os.path.join(top, n)
        if os.path.islink(p):
            out[n] = os.readlink(p)
        elif os.path.isdir(p):
            out[n] = model(p)
        else:
            out[n] = b''
    return out


def act(w, fd, a, box):
    if a[0] == 'symlink':
        return w.symlink(a[1].replace('/@', box), fd, a[2])
    return w.path2('path_rename' if a[0] == 'rename' else 'path_link', fd, a[1], fd, a[2], *([0] if a[0] == 'link' else []))


def histories(ctx, n, of, depth):
    unprivileged(ctx, _histories, n, of, depth)


def _histories(ctx, box, n, of, depth):
    build(box, OUT, box)
    os.mkdir(box + '/pre')
    build(box + '/pre', H_TREE, box)
    base = outside(box)
    seen = set()
    top = box + '/pre'

    def reset(hist, probe=True):
        wasi.clear(top)
        build(top, H_TREE, box)
        w = W({'p': top})
        r = [act(w, 3, a, box) for a in hist]
        return w, r

    def visit(hist):
        w, r = reset(hist)
        ctx.transitions += 1
        bad = [x for x in r if not isinstance(x, int)]
        if bad or outside(box) != base:
            ctx.viol('history:%r' % (hist,), '%r: %s' % (hist, bad or 'changed something outside'))
            w.close()
            return False
        tree = model(top)
        k = repr(tree)
        if r and r[-1] != 0 or k in seen:
            w.close()
            return False
        seen.add(k)
        ctx.states += 1
        for p in PROBES:
            for op in POPS:
                follow = OPS[op][2]
                what = resolve(tree, [], p, follow)
                if what != LEAVES and OPS[op][3]:
                    continue
                ctx.ev()
                ctx.transitions += 1
                ctx.traces += 1
                e, got = OPS[op][0](w, 3, p)
                ctx.outcome(what + ':' + wasi.err(e))
                if not isinstance(e, int) or what == LEAVES and e == 0 or outside(box) != base:
                    ctx.viol('history:%r:%s:%s' % (hist, op, p), 'after %r, %s(%r) = %s%s' % (
                        hist, op, p, wasi.err(e), '' if outside(box) == base else ' changed something outside'))
                    wasi.clear(box)
                    build(box, OUT, box)
                    os.mkdir(top)
                    w.close()
                    return False
        w.close()
        return True

    level = [(a,) for a in ACTS[n::of]]
    if n == 0:
        visit(())
    while level:
        nxt = []
        for h in level:
            if ctx.full:
                return
            if visit(h) and len(h) < depth:
                nxt += [h + (a,) for a in ACTS]
        level = nxt
    ctx.sample('last history %r' % (h,))


NAMES = ['/', '.', 'pre', '/pre', '..', 'a/b', 'p/', 'é x', '']


def jobs(tier):
    d = 4 if tier == 'quick' else 5
    out = [('histories', (n, 16, d - 2)) for n in range(16)]
    out += [('paths', ('p', None, COMP, d - 1 if tier == 'quick' else d - 1, c)) for c in COMP]
    out += [('paths', ('p', None, COMP3, 2 if tier == 'quick' else 3, c)) for c in COMP3]
    out += [('paths', ('p', 'd', SUBC, d - 1, c)) for c in SUBC]
    for n in NAMES:
        out += [('paths', (n, None, COMP, d - 2, c)) for c in COMP]
        out += [('odd', (n, None, i, 4)) for i in range(4)]
    out += [('odd', ('p', s, i, 8)) for s in (None, 'd', 'd/e') for i in range(8)]
    out += [('deep', ())]
    out = [('far', (k, s)) for k in ((33, 20, 9, 5) if tier == 'quick' else (100, 65, 41, 33, 32, 21, 20, 17, 16, 9, 8, 5)) for s in (False, True)] + out
    return out
