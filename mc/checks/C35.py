"""C35: preopened directories are announced as given and lead where they were opened."""
import itertools
import os

from .. import wasi
from ..wasi import W, E

LEVEL = 'model_checking'
RULE = ('every ordered choice of up to three guest names of the alphabet, with every choice of host directories and of how their '
        'paths are written; every descriptor number announced, every buffer size for the name, the identity of the directory, '
        'reading, creating and listing through it; likewise up to 257 directories at once and names of up to 4112 bytes; then every history of opening, closing and renumbering to the stated depth '
        'after every disturbance by the host (changing its directory, moving a directory, putting another in its place). '
        'Non-trivial: worlds with a preopened directory.')
BOUNDS = {'quick': 'all triples of names; histories of 3 steps', 'thorough': 'histories of 4 steps'}
ASSUMPTIONS = ['names that are the same after lexical normalisation are not given together',
               'a name may be announced in any form that is the same after lexical normalisation',
               'which numbers from 3 on the directories get, and in which order, is free, but they are consecutive']
NAMES = ['', '/', 'a', 'b/c', '../x', '/a', 'a b', '\xe9', 'x\udcff', '..', '/d/e/', 'A', 'a=b', 'n' * 300, 'a:b', '//q']
DIRS = ['one', 'two', 'one/in']
HOW = ['abs', 'rel', 'slash', 'dots', 'link', 'deep']


def spelled(box, d, how):
    p = box + '/' + d
    return {'abs': p, 'rel': d, 'slash': p + '///', 'dots': './' + d + '/./', 'link': box + '/to-' + d.replace('/', '-'),
            'deep': box + '/one/../' + d}[how]


def make(box):
    wasi.clear(box)
    for d in DIRS:
        os.mkdir(box + '/' + d)
        with open(box + '/' + d + '/marker', 'w') as f:
            f.write('in ' + d)
        os.symlink(d, box + '/to-' + d.replace('/', '-'))
    os.mkdir(box + '/else')


class Bad(Exception):
    pass


def norm(s):
    if isinstance(s, bytes):
        return os.path.normpath(s) if s else b'.'
    return os.path.normpath(s).encode('utf-8', 'surrogateescape')


def announced(w, n, full):
    """What the descriptor announces: a name, or None."""
    w.mem[56:80] = b'\xa5' * 24
    e = w('fd_prestat_get', n, 64)
    if e:
        if bytes(w.mem[56:80]) != b'\xa5' * 24:
            raise Bad('a failing fd_prestat_get(%d) writes' % n)
        for size in (0, 1, 4000):
            w.mem[8192:12300] = b'\xa5' * 4108
            f = w('fd_prestat_dir_name', n, 8192, size)
            if f != e or bytes(w.mem[8192:12300]) != b'\xa5' * 4108:
                raise Bad('fd_prestat_dir_name(%d, size %d) = %s, though fd_prestat_get = %s' % (n, size, wasi.err(f), wasi.err(e)))
        if e != E['BADF']:
            raise Bad('fd_prestat_get(%d) = %s' % (n, wasi.err(e)))
        return None
    if bytes(w.mem[56:64]) + bytes(w.mem[72:80]) != b'\xa5' * 16:
        raise Bad('fd_prestat_get(%d) writes around its result' % n)
    if w.u8(64) != 0:
        raise Bad('kind of the preopened %d: %d' % (n, w.u8(64)))
    size = w.u32(68)
    name = None
    sizes = range(size + 4) if full else sorted({0, max(0, size - 1), size, size + 1})
    for k in [*sizes[::-1], size]:
        if k > 6000:
            raise Bad('size of the name of %d: %d' % (n, size))
        w.mem[8191:8191 + size + 10] = b'\xa5' * (size + 10)
        e = w('fd_prestat_dir_name', n, 8192, k)
        got = bytes(w.mem[8191:8191 + size + 10])
        if k < size:
            if e != E['NAMETOOLONG'] or got != b'\xa5' * (size + 10):
                raise Bad('fd_prestat_dir_name(%d) with %d of %d bytes: %s' % (n, k, size, wasi.err(e)))
            continue
        if e or got[0] != 0xa5 or got[k + 1:] != b'\xa5' * (size + 9 - k):
            raise Bad('fd_prestat_dir_name(%d) with %d of %d bytes: %s, %r' % (n, k, size, wasi.err(e), got))
        if name not in (None, got[1:size + 1]):
            raise Bad('the name of %d changes: %r, %r' % (n, name, got[1:size + 1]))
        name = got[1:size + 1]
    return name


def where(w, n):
    """The marker and the identity of the directory behind a number."""
    e, s = w.stat(n, '.')
    e2, s2 = w.stat(n)
    if e or e2 or s['ino'] != s2['ino'] or s['dev'] != s2['dev'] or s['type'] != wasi.DIR or s2['type'] != wasi.DIR:
        raise Bad('stat of the preopened %d: %s %r, %s %r' % (n, wasi.err(e), s, wasi.err(e2), s2))
    return s['ino']


def use(w, n, host, tag):
    """Reading, creating, listing and removing through the directory; host: the directory as the host sees it now."""
    st = os.stat(host)
    if where(w, n) != st.st_ino:
        raise Bad('the preopened %d is not %s' % (n, host))
    e, f = w.open(n, 'marker', base=wasi.R['read'], root=0)
    if e:
        raise Bad('opening the marker of %d: %s' % (n, wasi.err(e)))
    got = w.readbytes(f, 100)
    with open(host + '/marker', 'rb') as g:
        if got != (0, g.read()):
            raise Bad('the marker of %d: %r' % (n, got))
    if announced(w, f, False) is not None:
        raise Bad('a file is announced as a preopened directory')
    if w('fd_close', f):
        raise Bad('closing the marker')
    e = w.path('path_create_directory', n, tag)
    if e or not os.path.isdir(host + '/' + tag):
        raise Bad('creating a directory in %d: %s' % (n, wasi.err(e)))
    e, d = w.open(n, tag, oflags=wasi.O_DIR, base=wasi.R['readdir'])
    if e or announced(w, d, False) is not None:
        raise Bad('a directory opened by the program: %s, or announced' % wasi.err(e))
    if w('fd_close', d):
        raise Bad('closing a directory')
    e = w('fd_readdir', n, 8192, 4000, 0, 64)
    data = bytes(w.mem[8192:8192 + w.u32(64)])
    for x in os.listdir(host):
        if e or x.encode() not in data:
            raise Bad('listing %d: %s, %s missing' % (n, wasi.err(e), x))
    e = w.path('path_remove_directory', n, tag)
    if e or os.path.exists(host + '/' + tag):
        raise Bad('removing a directory in %d: %s' % (n, wasi.err(e)))


def table(w, given, full):
    """number -> guest name, after comparing what is announced with what was given."""
    t = {}
    for n in range(len(given) + 6):
        a = announced(w, n, full)
        if a is not None:
            t[n] = a
    if sorted(t) != list(range(3, 3 + len(given))):
        raise Bad('preopened numbers %r for %d directories' % (sorted(t), len(given)))
    if sorted(norm(a) for a in t.values()) != sorted(norm(g) for g in given):
        raise Bad('announced %r' % sorted(t.values()))
    for n in (1 << 31, (1 << 32) - 1, 64, 256, 1000):
        if n not in t and announced(w, n, False) is not None:
            raise Bad('the number %d is announced' % n)
    back = {norm(g): g for g in given}
    return {n: back[norm(a)] for n, a in t.items()}


def attempt(ctx, key, fn, *args):
    try:
        fn(*args)
    except Bad as e:
        ctx.viol('%s' % key, '%s: %s' % (key, e))
    except OSError as e:
        ctx.viol('%s' % key, '%s: %r' % (key, e))


def world(box, pairs, full):
    given = {g: spelled(box, d, how) for g, d, how in pairs}
    host = {g: box + '/' + d for g, d, how in pairs}
    w = W(given)
    try:
        for n, g in sorted(table(w, given, full).items()):
            use(w, n, host[g], 'new%d' % n)
    finally:
        w.close()


def names(ctx, part, of):
    from ..harness import scratch
    box = scratch()
    make(box)
    os.chdir(box)
    k = 0
    for size in (0, 1, 2, 3):
        for gs in itertools.permutations(NAMES, size):
            k += 1
            if k % of != part:
                continue
            # over the triples the directories and their spellings go round; single names and pairs meet all of them
            if size == 1:
                sel = [((g, d, h),) for g in gs for d in DIRS for h in HOW]
            elif size == 2:
                sel = [tuple(zip(gs, ds, ('abs', HOW[k // of % len(HOW)]))) for ds in itertools.product(DIRS, repeat=2)]
            else:
                sel = [tuple(zip(gs, [DIRS[(k + i * (k // 3 % 3)) % 3] for i in range(3)], [HOW[(k + i) % 6] for i in range(3)]))]
            for pairs in sel:
                ctx.ev(size > 0)
                attempt(ctx, 'names %r' % (pairs,), world, box, pairs, size == 1)
            if ctx.full:
                return


def crowd(ctx, n):
    """n directories under n names, given in several orders; names of every length up to 300 and some beyond."""
    from ..harness import scratch
    box = scratch()
    wasi.clear(box)
    for i in range(n):
        os.mkdir(box + '/h%d' % i)
        with open(box + '/h%d/marker' % i, 'w') as f:
            f.write('in %d' % i)
    os.chdir(box)
    kinds = {'short': lambda i: 'g%d' % i, 'rooted': lambda i: '/%d/x' % (i * 7919 % 1000), 'long': lambda i: 'n' * (i % 290) + '.%d' % i,
             'bytes': lambda i: '\xe9' * (i % 100) + '\udcff%d' % i, 'nested': lambda i: '/'.join('abcdefgh'[: 1 + i % 8]) + '/%d' % i}
    for kind, f in kinds.items():
        for order in (1, -1):
            given = {f(i): box + '/h%d' % i for i in list(range(n))[::order]}
            assert len(given) == n

            def go():
                w = W(given)
                try:
                    for k, g in sorted(table(w, given, n < 20).items()):
                        use(w, k, given[g], 'new%d' % k)
                finally:
                    w.close()
            ctx.ev()
            ctx.states += n
            attempt(ctx, '%d directories, %s names, order %d' % (n, kind, order), go)
    for size in sorted({n, n + 1, 16 * n, 16 * n + 1}):
        name = 'q' * (size - 1) + 'r'
        ctx.ev()
        attempt(ctx, 'a name of %d bytes' % size, lambda: world2(box, name))


def world2(box, name):
    w = W({name: box + '/h0', '0' + name[1:]: box + '/h1'})
    try:
        for k, g in table(w, [name, '0' + name[1:]], len(name) < 600).items():
            use(w, k, box + '/h%d' % (g != name), 'new')
    finally:
        w.close()


def disturbances(box, i):
    """What the host does to the directories of the program after it has started; returns where 'one' and 'two' are now."""
    one, two = box + '/one', box + '/two'
    if i == 1:
        os.chdir(box + '/else')
    elif i == 2:
        os.rename(one, box + '/moved')
        one = box + '/moved'
    elif i == 3:
        os.rename(one, box + '/moved')
        os.rename(two, one)
        one, two = box + '/moved', one
    elif i == 4:
        os.rename(one, two + '/within')
        os.mkdir(one)
        one = two + '/within'
    elif i == 5:
        os.chmod(box + '/else', 0)
    return one, two


OPS = [('close', 3), ('close', 4), ('renumber', 3, 4), ('renumber', 4, 3), ('renumber', 3, 3), ('open', 3), ('open', 4),
       ('renumber', 5, 3), ('renumber', 3, 5), ('close', 5), ('close', 1), ('renumber', 4, 1), ('renumber', 0, 4)]


def history(ctx, box, how, i, ops):
    make(box)
    os.chdir(box)
    w = W({'p': spelled(box, 'one', how), 'q/r': spelled(box, 'two', how)})
    try:
        t = table(w, ['p', 'q/r'], False)
        t = {n: ('pre', g) for n, g in t.items()}
        t.update({0: 'other', 1: 'other', 2: 'other'})
        one, two = disturbances(box, i)
        host = {'p': one, 'q/r': two}
        last = 5
        for o in (None,) + ops:
            o = o and (o[0],) + tuple(last if x == 5 else x for x in o[1:])         # 5: the directory opened last
            ctx.transitions += 1
            if o is None:
                pass
            elif o[0] == 'close':
                e = w('fd_close', o[1])
                if o[1] >= 3 and (e != 0) != (o[1] not in t):
                    raise Bad('%r: %s' % (o, wasi.err(e)))
                if e == 0:
                    t.pop(o[1], None)
            elif o[0] == 'renumber':
                e = w('fd_renumber', o[1], o[2])
                if o[1] not in t or (o[2] not in t and e):
                    if e == 0:
                        raise Bad('%r of a number that is not open succeeds' % (o,))
                elif e == 0:
                    if o[1] != o[2]:
                        t[o[2]] = t.pop(o[1])
                elif o[1] >= 3 and o[2] >= 3:
                    raise Bad('%r: %s' % (o, wasi.err(e)))
            else:
                if t.get(o[1], 'other') == 'other':
                    continue
                e, d = w.open(o[1], '.', oflags=wasi.O_DIR, base=wasi.ALLR & ~wasi.R['write'])
                if e or d in t:
                    raise Bad('opening the directory %d itself: %s %r' % (o[1], wasi.err(e), d))
                t[d] = ('opened', t[o[1]][1])
                last = d
            for n in sorted({*range(7), *t, last, last + 1}):
                a = announced(w, n, False)
                want = t.get(n)
                if (None if a is None else norm(a)) != (norm(want[1]) if want and want[0] == 'pre' else None):
                    raise Bad('after %r the number %d is announced as %r' % (o, n, a))
                if want and want != 'other':
                    if want[0] == 'pre':
                        use(w, n, host[want[1]], 'made')
                    else:
                        st = os.stat(host[want[1]])
                        if where(w, n) != st.st_ino:
                            raise Bad('after %r the number %d is another directory' % (o, n))
    finally:
        w.close()
        os.chdir(box)


def histories(ctx, part, of):
    from ..harness import scratch
    box = scratch()
    k = 0
    for ops in itertools.product(OPS, repeat=3 if ctx.tier == 'quick' else 4):
        for i in range(6):
            k += 1
            if k % of != part:
                continue
            how = HOW[(k // of + i) % 6]
            ctx.ev()
            ctx.states += 1
            attempt(ctx, 'history %s %d %r' % (how, i, ops), history, ctx, box, how, i, ops)
        if ctx.full:
            return


def twice(ctx):
    """Programs side by side announce their own directories, and a program without any announces none."""
    from ..harness import scratch
    box = scratch()
    for a, b in itertools.product([{}, {'p': 'one'}, {'p': 'two'}, {'q': 'one', 'p': 'two'}], repeat=2):
        for order in range(2):
            make(box)
            os.chdir(box)
            d = [{g: spelled(box, x, 'rel') for g, x in y.items()} for y in (a, b)]

            def go():
                ws = [W(d[0]), W(d[1])]
                try:
                    for _ in range(2):
                        for w, y in list(zip(ws, (a, b)))[::-1 if order else 1]:
                            for n, g in table(w, list(y), True).items():
                                use(w, n, box + '/' + y[g], 'made')
                    ws[order].close()
                    for n, g in table(ws[1 - order], list((a, b)[1 - order]), True).items():
                        use(ws[1 - order], n, box + '/' + (a, b)[1 - order][g], 'made')
                finally:
                    for w in ws:
                        w.close()
            ctx.ev()
            attempt(ctx, 'side by side %r %r %d' % (a, b, order), go)


def jobs(tier):
    return [('crowd', (k,)) for k in (4, 5, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257)] + \
        [('names', (i, 16)) for i in range(16)] + [('histories', (i, 16)) for i in range(16)] + [('twice', ())]
