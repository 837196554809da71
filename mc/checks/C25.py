"""C25: directory listing."""
import itertools
import os

from .. import rt, wasi
from ..wasi import W, unprivileged

LEVEL = 'exploration'
RULE = ('directories holding every subset (up to a size) of entries of every kind (file, directory, links to a file, a '
        'directory, nothing and itself, fifo, multi-byte, maximal-length and non-UTF-8 names, names that begin with dots), read through the preopen, '
        'through an opened sub-directory, and through one renamed after it was opened; every buffer size from zero to the '
        'whole listing and beyond with every cookie, and for every buffer size the complete listing by resuming, as '
        'wasi-libc does; directories of up to 1100 (3000) entries listed and emptied while they are listed; directories of up to four '
        '(five) entries with every one and every two changes (an entry removed, created in front, between or behind, replaced, '
        'renamed, all removed, the descriptor renumbered) between any calls of a listing, also next to a second listing of the same '
        'directory: what stays is listed once, what comes or goes at most once, and from the start the listing is the current one. '
        'Non-trivial: directories with entries.')
ASSUMPTIONS = ['an entry which is created or removed during a listing may or may not be listed', 'the order of entries is free',
               'the part of a name, or of a header of which less than its 24 bytes fit, at the end of the buffer is free']
LONG = 'n' * 255
KINDS = ['a', 'é', 'dir', 'lfile', 'ldir', 'dangling', 'loop', 'fifo', '名前 x', LONG, b'\xff\xfe', '.hidden', '-', '..x', '...']


def build(top, names):
    """name bytes -> (inode, type)"""
    for n in names:
        p = os.path.join(os.fsencode(top), n if isinstance(n, bytes) else n.encode())
        if n == 'dir':
            os.mkdir(p)
        elif n == 'lfile':
            os.symlink('a', p)
        elif n == 'ldir':
            os.symlink('.', p)
        elif n == 'dangling':
            os.symlink('nowhere', p)
        elif n == 'loop':
            os.symlink('loop', p)
        elif n == 'fifo':
            os.mkfifo(p)
        else:
            with open(p, 'wb') as f:
                f.write(b'x')
    out = {}
    for b in os.listdir(os.fsencode(top)):
        st = os.lstat(os.path.join(os.fsencode(top), b))
        out[b] = (st.st_ino, {4: wasi.DIR, 8: wasi.REG, 10: wasi.LNK}.get(st.st_mode >> 12, 0))
    return out


def listing(w, fd, size, cookie, buf):
    """errno, reported size, complete entries [(next cookie, ino, type, name)], the header of one cut off, memory unharmed."""
    w.mem[:] = b'\xee' * len(w.mem)
    e = w('fd_readdir', fd, buf, size, cookie, 16)
    used = w.u32(16)
    ok = all(x == 0xee for x in set(w.mem[:16])) and set(w.mem[20:buf]) <= {0xee} and set(w.mem[buf + size:]) <= {0xee}
    out, head = [], None
    at = buf
    if isinstance(e, int):
        while at + 24 <= buf + min(used, size):
            n = w.u32(at + 16)
            if at + 24 + n > buf + min(used, size):
                head = (w.u64(at), w.u64(at + 8), w.u8(at + 20), n)
                break
            out.append((w.u64(at), w.u64(at + 8), w.u8(at + 20), bytes(w.mem[at + 24:at + 24 + n])))
            at += 24 + n
    return e, used, out, head, ok


def check(ctx, w, fd, want, own, key, thorough):
    """want: name -> (ino, type); own: inodes that '.' and '..' may have."""
    def bad(m):
        ctx.viol(key, m)
        return True
    big = sum(24 + len(n) for n in want) + 24 * 2 + 3
    e, used, full, _, ok = listing(w, fd, big + 100, 0, 32)
    ctx.ev(bool(want))
    if e != 0 or used != big or not ok:
        return bad('whole listing: %s, size %r (expected %d), memory %s' % (wasi.err(e), used, big, ok))
    names = [x[3] for x in full]
    if sorted(names) != sorted([b'.', b'..'] + list(want)):
        return bad('names %r, expected %r' % (names, sorted(want)))
    for c, ino, ty, n in full:
        if n in (b'.', b'..'):
            if ty != wasi.DIR or (n == b'.' and ino != own):
                return bad('%r: type %d, inode %d, expected %d' % (n, ty, ino, own))
        elif (ino, ty) != want[n]:
            return bad('%r: inode %d type %d, expected %r' % (n, ino, ty, want[n]))
    cookies = [0] + [x[0] for x in full]
    if len(set(cookies)) != len(cookies):
        return bad('cookies %r' % cookies)
    ends = [0]
    for x in full:
        ends.append(ends[-1] + 24 + len(x[3]))
    sizes = sorted(set(list(range(0, min(big, 140))) + [x + d for x in ends for d in (-1, 0, 1, 23, 24, 25)] + [big + 1, big + 50]))
    sizes = [s for s in sizes if s >= 0]
    for k, ck in enumerate(cookies):
        for s in sizes:
            e, used, got, head, ok = listing(w, fd, s, ck, 32)
            ctx.ev(bool(want))
            rest = big - ends[k]
            if e != 0 or not ok or used != min(s, rest):
                return bad('cookie %d size %d: %s, reported %r (expected %d), memory %s' % (
                    ck, s, wasi.err(e), used, min(s, rest), ok))
            fit = [x for j, x in enumerate(full) if j >= k and ends[j + 1] - ends[k] <= s]
            if got != fit:
                return bad('cookie %d size %d: entries %r, expected %r' % (ck, s, got, fit))
            nxt = full[k + len(fit):][:1]
            if nxt and s - (ends[k + len(fit)] - ends[k]) >= 24:
                c, ino, ty, n = nxt[0]
                if head != (c, ino, ty, len(n)):
                    return bad('cookie %d size %d: header %r of the entry cut off, expected %r' % (ck, s, head, (c, ino, ty, len(n))))
    for s in sizes if thorough else sizes[::7]:
        got, ck, n = [], 0, 0
        size = s
        while n < 200:
            n += 1
            e, used, part, _, ok = listing(w, fd, size, ck, 40)
            ctx.ev(bool(want))
            if e != 0:
                return bad('resuming: %s' % wasi.err(e))
            got += part
            if used < size:
                break
            if part:
                ck = part[-1][0]
            else:
                size = size * 2 + 24
        if got != full:
            return bad('listing with buffer %d by resuming: %r, expected %r' % (s, [x[3] for x in got], [x[3] for x in full]))
    for ck in (cookies[-1] + 1, cookies[-1] + 100, 1 << 31, (1 << 64) - 1):
        e, used, got, _, ok = listing(w, fd, 100, ck, 32)
        if not isinstance(e, int) or not ok or (e == 0 and (used or got)):
            return bad('cookie beyond the end %d: %r, reported %r' % (ck, e, used))
    ctx.outcome('%d entries' % len(full))


def run(ctx, box, part, parts, tier):
    cases = [c for k in range(4 if tier == 'thorough' else 3) for c in itertools.combinations(KINDS, k)]
    cases += [tuple(KINDS), tuple(KINDS[::2]), tuple(KINDS[1::2]), tuple('f%02d' % i for i in range(20))]
    for i, names in enumerate(cases):
        if i % parts != part:
            continue
        for how in ('preopen', 'sub', 'renamed', 'link'):
            wasi.clear(box)
            os.mkdir(box + '/p')
            top = box + '/p' if how == 'preopen' else box + '/p/s'
            os.path.exists(top) or os.mkdir(top)
            want = build(top, names)
            os.symlink('s', box + '/p/ls') if how != 'preopen' else None
            w = W({'p': box + '/p'})
            try:
                fd = 3
                if how != 'preopen':
                    e, fd = w.open(3, 'ls' if how == 'link' else 's', oflags=wasi.O_DIR, base=wasi.R['readdir'])
                    if e != 0:
                        ctx.viol('open', wasi.err(e))
                        return
                if how == 'renamed':
                    os.mkdir(box + '/p/q')
                    os.rename(top, box + '/p/q/t')
                    top = box + '/p/q/t'
                key = '%s:%r' % (how, names)
                check(ctx, w, fd, want, os.stat(top).st_ino, key, tier == 'thorough' or len(names) != 2)
            finally:
                w.close()
            if ctx.full:
                return
        ctx.sample({'names': str(names)})


# ---------------------------------------------------------------------------------------- changes between calls
def resume(w, fd, size, between, limit):
    """Lists as wasi-libc does; between(k, entries so far) after call k. The entries, or a message."""
    got, ck, k = [], 0, 0
    now = fd if isinstance(fd, list) else [fd]
    while True:
        e, used, part, head, ok = listing(w, now[0], size, ck, 40)
        if e != 0:
            return 'call %d: %s' % (k, wasi.err(e))
        if head and head[3] > 255:
            return 'call %d leaves %d entries and then something that is no entry in a buffer of %d said to be full' % (k, len(part), size)
        if not ok:
            return 'call %d writes outside the buffer' % k
        got += part
        if used < size:
            return got
        if part:
            ck = part[-1][0]
        else:
            size = size * 2 + 24
        between(k, part)
        k += 1
        if k > limit:
            return 'does not end after %d calls' % k


def named(n):
    return [('e%02d' % (2 * i)).encode() for i in range(n)]


def changing(ctx, box, how, tier, part, parts):
    """Entries removed, created, replaced or renamed between the calls of one listing: those that stay are listed once."""
    deep = tier == 'thorough'
    for n in range(0, 6 if deep else 5):
        names = named(n)
        spots = sorted({0, 1, n // 2, n - 1} & set(range(n))) if not deep else range(n)
        acts = [('rm', x) for x in names] + [('mk', ('e%02d' % (2 * i + 1)).encode()) for i in range(-1, n)] + [('mk', b'a'), ('mk', b'z')] + \
            [('mv', names[i], y) for i in spots for y in (b'a1', b'z1', b'e03x')] + [('over', names[i], names[j]) for i in spots for j in spots if i != j] + \
            [('swap', x) for x in names] + [('all',)] + [('renumber',)]
        sizes = [27 * j for j in range(2, n + 2)] + ([30, 60, 95] if deep else [70])
        plans = [((g, a),) for g in range(n + 2) for a in acts]
        if deep or n <= 3:
            few = [a for a in acts if a[0] in ('rm', 'mk', 'all', 'renumber')]
            plans += [((g, a), (h, b)) for g in range(n + 1) for h in range(g, n + 1) for a in few for b in few]
        for size in sizes:
            for plan in plans[part::parts]:
                d = os.path.join(os.fsencode(box), b'p/s')
                wasi.clear(box)
                os.makedirs(d)
                for x in names:
                    open(os.path.join(d, x), 'w').close()
                w = W({'p': box + '/p'})
                try:
                    e, fd = w.open(3, 's', oflags=wasi.O_DIR, base=wasi.R['readdir'])
                    e, other = w.open(3, 's', oflags=wasi.O_DIR, base=wasi.R['readdir'])
                    if how == 'two':          # another listing of the same directory, at another place
                        listing(w, other, 60, 0, 32)
                    now = [fd]
                    touched = set()

                    def between(k, part):
                        for g, a in plan:
                            if g != k:
                                continue
                            have = set(os.listdir(d))
                            p = lambda x: os.path.join(d, x)
                            if a[0] == 'rm' and a[1] in have:
                                os.unlink(p(a[1]))
                            elif a[0] == 'mk' and a[1] not in have:
                                open(p(a[1]), 'w').close()
                            elif a[0] in ('mv', 'over') and a[1] in have:
                                os.rename(p(a[1]), p(a[2]))
                            elif a[0] == 'swap' and a[1] in have:
                                os.unlink(p(a[1]))
                                os.mkdir(p(a[1]))
                            elif a[0] == 'all':
                                for x in have:
                                    os.path.isdir(p(x)) or os.unlink(p(x))
                                touched.update(have)
                            elif a[0] == 'renumber' and now[0] == fd:
                                assert w('fd_renumber', fd, other) == 0
                                now[0] = other
                            touched.update(x for x in a[1:])
                        if how == 'two' and now[0] == fd:
                            listing(w, other, 1000 if k % 2 else 60, 0 if k % 2 else 2, 32)

                    got = resume(w, now, size, between, 60)
                    ctx.ev()
                    ctx.transitions += len(plan)
                    ctx.traces += 1
                    key = '%s:%d entries, buffer %d, %r' % (how, n, size, plan)
                    ctx.outcome('changes:%s' % plan[0][1][0])
                    if isinstance(got, str):
                        ctx.viol(key, got)
                        continue
                    seen = [x[3] for x in got]
                    stay = set(names) - touched | {b'.', b'..'}
                    if len(set(seen)) != len(seen) or not stay <= set(seen) or not set(seen) <= stay | touched:
                        ctx.viol(key, 'listed %r; %r were there all the time, %r came or went' % (seen, sorted(stay), sorted(touched)))
                        continue
                    # from the start again: what is there now
                    e, used, again, _, ok = listing(w, now[0], 1000, 0, 32)
                    now_there = {x: os.lstat(os.path.join(d, x)).st_ino for x in os.listdir(d)}
                    if e or {x[3]: x[1] for x in again if x[3] not in (b'.', b'..')} != now_there:
                        ctx.viol(key, 'afterwards from the start: %s %r, expected %r' % (wasi.err(e), again, now_there))
                finally:
                    w.close()
                if ctx.full:
                    return


def many(ctx, box, n):
    """Large directories: complete with every buffer, and empty after a guest removed each entry as it came to it."""
    names = [(b'%d' % i) + b'-' * (i * 37 % (200 if n < 1000 else 60)) for i in range(n)]
    d = os.path.join(os.fsencode(box), b'p')
    wasi.clear(box)
    os.mkdir(d)
    want = {}
    for x in names:
        p = os.path.join(d, x)
        if len(want) % 5 == 4:
            os.mkdir(p)
        else:
            open(p, 'w').close()
        want[x] = (os.lstat(p).st_ino, wasi.DIR if len(want) % 5 == 4 else wasi.REG)
    w = W({'p': box + '/p'})
    try:
        w.pages(4)
        cookies = None
        for size in (300, 1000, 4096, 8192, 20000, 65536, 150000):
            got = resume(w, 3, size, lambda k, p: None, 10 * n + 10)
            ctx.ev()
            ctx.states += n
            ctx.transitions += n
            if isinstance(got, str):
                ctx.viol('%d entries, buffer %d' % (n, size), got)
                return
            seen = {x[3]: (x[1], x[2]) for x in got if x[3] not in (b'.', b'..')}
            if len(got) != n + 2 or seen != want:
                ctx.viol('%d entries, buffer %d' % (n, size), '%d entries listed, missing %r, surplus %r' % (
                    len(got), sorted(set(want) - set(seen))[:3], sorted(set(seen) - set(want))[:3]))
                return
            cookies = [0] + [x[0] for x in got]
        for k in sorted({0, 1, 2, 3, n // 2, n - 1, n, n + 1, n + 2} | set(range(0, n + 3, 61))):
            e, used, part, _, ok = listing(w, 3, 700, cookies[k], 32)
            ctx.ev()
            if e or not ok or [x[3] for x in part] != [x[3] for x in got[k:k + len(part)]] or (len(part) < 2 and k < n):
                ctx.viol('%d entries, from cookie %d' % (n, cookies[k]), '%s %r' % (wasi.err(e), part))
                return
        for size in (300, 1000, 20000):
            gone = []

            def between(k, part):
                for c, i, t, x in part:
                    if x not in (b'.', b'..'):
                        e = w.path('path_remove_directory' if t == wasi.DIR else 'path_unlink_file', 3, x)
                        assert e == 0, (x, e)
                        gone.append(x)

            last = []

            def run(k, part):
                between(k, part)
                last[:] = part
            got = resume(w, 3, size, run, 10 * n + 10)
            ctx.ev()
            if isinstance(got, str):
                ctx.viol('%d entries, emptied through a buffer of %d' % (n, size), got)
                return
            between(0, [x for x in got if x[3] not in gone])
            if os.listdir(d) or len(set(gone)) != n or len(gone) != n:
                ctx.viol('%d entries, emptied through a buffer of %d' % (n, size), '%d are left, %d were removed' % (len(os.listdir(d)), len(gone)))
                return
            for x, (i, t) in want.items():
                p = os.path.join(d, x)
                os.mkdir(p) if t == wasi.DIR else open(p, 'w').close()
    finally:
        w.close()


def extra(ctx, f, *a):
    unprivileged(ctx, globals()[f], *a)


def part(ctx, *a):
    unprivileged(ctx, run, *a)


def jobs(tier):
    n = 16 if tier == 'quick' else 64
    return [('extra', ('many', k)) for k in ((63, 64, 65, 130, 300, 1100) if tier == 'quick' else (40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1100, 3000))] + \
        [('extra', ('changing', how, tier, i, 8)) for how in ('one', 'two') for i in range(8)] + [('part', (p, n, tier)) for p in range(n)]
