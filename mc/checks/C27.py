"""C27: WASI calls and guest memory."""
import itertools
import os
import select
import socket

import pywasm
from .. import rt, wasi
from ..wasi import W, unprivileged

LEVEL = 'exploration'
RULE = ('for every WASI function with a pointer, from a call that succeeds: every pointer, length and count argument, and every '
        'field of its vectors, replaced in turn (and in all pairs over a smaller alphabet) by every value of an alphabet '
        'around zero, the end of memory, 2^31 and 2^32; every length up to 160, also with the buffer ending at the end of memory '
        'and one byte past it; all of it also with memory which the guest has grown, and with long and many arguments, '
        'names and links; the valid calls also with everything moved to six places of a 64 MiB memory; the whole memory is compared with what the call may write, a call '
        'one of whose buffers is not inside memory must fail, and the runtime must work afterwards. Non-trivial: calls '
        'whose arguments differ from the valid ones.')
ASSUMPTIONS = ['buffers the call does not need to touch (zero length, unused tails) may be anywhere',
               'a failing call may report an error code or trap']
TOP = 65536
BIG = [TOP - 64, TOP - 48, TOP - 33, TOP - 32, TOP - 25, TOP - 24, TOP - 9, TOP - 8, TOP - 7, TOP - 5, TOP - 4, TOP - 3, TOP - 2,
       TOP - 1, TOP, TOP + 1, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000100, 0xffff0000, 0xfffffff8, 0xfffffffc, 0xffffffff]
PTR = [0, 1] + BIG
LEN = [0, 1, 2, 5, 2000, 40000, TOP - 1000, TOP, TOP + 1, 0x1fffffff, 0x20000000, 0x7fffffff, 0x80000000, 0xffffffff]
CNT = [0, 1, 3, 8190, 8192, 0x1fffffff, 0x20000000, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff]
FEW = [0, TOP - 4, TOP - 1, TOP, 0x80000000, 0xffffffff]
FEWL = [0, 1, TOP, 0x80000000, 0xffffffff]
RES, PATH, PATH2, IOV, BUF = 64, 1024, 2048, 4096, 8192
DATA = b'hello world, here is some text'
SMALL = dict(top=TOP, args=['ab', 'c'], env={'K': 'val', 'L': ''}, pre='p', link='f-and-more', files=0)
S = dict(SMALL)
WORLDS = {
    'small': {},
    # memory which the guest grew after it started
    'grown': dict(top=3 * 65536),
    # everything longer than a byte can count, in memory of four pages
    'large': dict(top=4 * 65536, args=['%d' % i * 60 for i in range(10, 300)], env={'K%d' % i: 'v' * i for i in range(300)}, pre='n' * 200 + '/' + 'm' * 120,
                  link='t' * 255 + '/' + 'u' * 255 + '/' + 'v' * 300, files=40),
}


def use(world):
    global TOP, BIG, PTR, LEN, FEW, FEWL
    S.update(SMALL)
    S.update(WORLDS[world])
    d = S['top'] - TOP
    # addresses and lengths around the end of memory move with it
    sh = lambda xs: [x + d if TOP - 2000 < x < TOP + 2000 else x for x in xs]
    BIG, PTR, LEN, FEW, FEWL = map(sh, (BIG, PTR, LEN, FEW, FEWL))
    TOP += d


def total(xs):
    return sum(len(x) + 1 for x in xs)


class World:
    def __init__(self, box):
        wasi.clear(box)
        self.box = box
        os.mkdir(box + '/p')
        with open(box + '/p/f', 'wb') as f:
            f.write(DATA)
        os.mkdir(box + '/p/d')
        os.symlink(S['link'], box + '/p/l')
        for i in range(S['files']):
            open('%s/p/%s%03d' % (box, 'x' * 250, i), 'w').close()
        self.w = w = W({S['pre']: box + '/p'}, S['args'], S['env'])
        w.pages(TOP // 65536)
        w.mem[:] = b'\0' * TOP
        w.open(3, 'f')
        w.open(3, 'd', oflags=wasi.O_DIR, base=wasi.R['readdir'])
        a, b = socket.socketpair()
        a.settimeout(1)
        b.send(b'incoming bytes')
        self.peer = b
        w.wasi.fd.append(pywasm.wasi.Preview1.File(
            host_fd=os.dup(a.fileno()), host_flag=0, host_name='socket', host_status=0, pipe=None, wasm_fd=6, wasm_flag=0,
            wasm_name='socket', wasm_rights_base=wasi.ALLR, wasm_rights_root=wasi.ALLR, wasm_status=0,
            wasm_type=w.wasi.FILETYPE_SOCKET_STREAM))
        a.close()
        w.mem[:] = bytes((7 * i + 3) & 0xff for i in range(256)) * (TOP // 256)

    def close(self):
        self.w.close()
        self.peer.close()


def p(kind, v):
    return (kind, v)


IOVS = [p('ptr', BUF), p('len', 5), p('ptr', BUF + 100), p('len', 9)]
READS = {'fd_read', 'fd_pread', 'sock_recv'}
# name -> arguments: (kind, value) for a mutable one or a plain number; extra: values at fixed addresses; text: strings in memory
T = {
    'args_get': ([p('ptr', BUF), p('ptr', BUF + 4096)],), 'args_sizes_get': ([p('ptr', RES), p('ptr', RES + 8)],),
    'environ_get': ([p('ptr', BUF), p('ptr', BUF + 4096)],), 'environ_sizes_get': ([p('ptr', RES), p('ptr', RES + 8)],),
    'clock_res_get': ([0, p('ptr', RES)],), 'clock_time_get': ([1, 0, p('ptr', RES)],),
    'fd_fdstat_get': ([4, p('ptr', RES)],), 'fd_filestat_get': ([4, p('ptr', RES)],),
    'fd_pread': ([4, p('iov', IOV), p('cnt', 2), 3, p('ptr', RES)], IOVS),
    'fd_read': ([4, p('iov', IOV), p('cnt', 2), p('ptr', RES)], IOVS),
    'fd_pwrite': ([4, p('iov', IOV), p('cnt', 2), 3, p('ptr', RES)], IOVS),
    'fd_write': ([4, p('iov', IOV), p('cnt', 2), p('ptr', RES)], IOVS),
    'fd_prestat_dir_name': ([3, p('ptr', BUF), p('len', 400)],), 'fd_prestat_get': ([3, p('ptr', RES)],),
    'fd_readdir': ([3, p('ptr', BUF), p('len', 4000), 0, p('ptr', RES)],),
    'fd_seek': ([4, 3, 0, p('ptr', RES)],), 'fd_tell': ([4, p('ptr', RES)],),
    'path_create_directory': ([3, p('ptr', PATH), p('len', 3)], [], {PATH: b'new'}),
    'path_filestat_get': ([3, 0, p('ptr', PATH), p('len', 1), p('ptr', RES)], [], {PATH: b'f'}),
    'path_filestat_set_times': ([3, 0, p('ptr', PATH), p('len', 1), 5, 6, 5], [], {PATH: b'f'}),
    'path_link': ([3, 0, p('ptr', PATH), p('len', 1), 3, p('ptr', PATH2), p('len', 2)], [], {PATH: b'f', PATH2: b'hl'}),
    'path_open': ([3, 1, p('ptr', PATH), p('len', 1), 0, 2, 0, 0, p('ptr', RES)], [], {PATH: b'f'}),
    'path_readlink': ([3, p('ptr', PATH), p('len', 1), p('ptr', BUF), p('len', 900), p('ptr', RES)], [], {PATH: b'l'}),
    'path_remove_directory': ([3, p('ptr', PATH), p('len', 1)], [], {PATH: b'd'}),
    'path_rename': ([3, p('ptr', PATH), p('len', 1), 3, p('ptr', PATH2), p('len', 2)], [], {PATH: b'f', PATH2: b'ff'}),
    'path_symlink': ([p('ptr', PATH), p('len', 1), 3, p('ptr', PATH2), p('len', 2)], [], {PATH: b'f', PATH2: b'sl'}),
    'path_unlink_file': ([3, p('ptr', PATH), p('len', 1)], [], {PATH: b'f'}),
    'poll_oneoff': ([p('sub', IOV), p('ptr', BUF), p('cnt', 2), p('ptr', RES)],),
    'random_get': ([p('ptr', BUF), p('len', 20)],),
    'sock_recv': ([6, p('iov', IOV), p('cnt', 2), 0, p('ptr', RES), p('ptr', RES + 8)], IOVS),
    'sock_send': ([6, p('iov', IOV), p('cnt', 2), 0, p('ptr', RES)], IOVS),
}


def inside(a, n):
    return a + n <= TOP


def regions(f, a, mem):
    """(must be inside, may be written), as lists of (address, length)."""
    must, may = [], []

    def out(x, n):
        must.append((x, n))
        may.append((x, n))
    if f in ('args_get', 'environ_get'):
        xs = S['args'] if f == 'args_get' else ['%s=%s' % e for e in S['env'].items()]
        n, size = len(xs), total(xs)
        out(a[0], 4 * n)
        out(a[1], size)
    elif f.endswith('sizes_get'):
        out(a[0], 4)
        out(a[1], 4)
    elif f in ('clock_res_get', 'clock_time_get', 'fd_tell'):
        out(a[-1], 8)
    elif f == 'fd_seek':
        out(a[3], 8)
    elif f == 'fd_fdstat_get':
        out(a[1], 24)
    elif f == 'fd_filestat_get':
        out(a[1], 64)
    elif f == 'fd_prestat_get':
        out(a[1], 8)
    elif f == 'fd_prestat_dir_name':
        if a[2] >= 1:
            out(a[1], min(a[2], len(S['pre'])))
    elif f == 'random_get':
        out(*a)
    elif f == 'fd_readdir':
        may.append((a[1], a[2]))
        out(a[4], 4)
    elif f == 'poll_oneoff':
        must.append((a[0], 48 * a[2]))
        if 0 < a[2] < 3000:
            must.append((a[1], 32))
            may.append((a[1], 32 * a[2]))
        may.append((a[3], 4))
        if a[2]:
            must.append((a[3], 4))
    elif f in ('fd_read', 'fd_pread', 'sock_recv', 'fd_write', 'fd_pwrite', 'sock_send'):
        out(a[4 if f != 'fd_read' and f != 'fd_write' else 3], 4)
        if f == 'sock_recv':
            out(a[5], 2)
        left = {'fd_read': len(DATA), 'fd_pread': len(DATA) - 3, 'sock_recv': 14}.get(f)
        for i in range(a[2]):
            must.append((a[1] + 8 * i, 8))
            if not inside(*must[-1]):
                break
            q = int.from_bytes(mem[a[1] + 8 * i:a[1] + 8 * i + 4], 'little')
            n = int.from_bytes(mem[a[1] + 8 * i + 4:a[1] + 8 * i + 8], 'little')
            if left is None:
                must.append((q, n))
            else:
                may.append((q, n))
                must.append((q, min(n, left)))
                left -= min(n, left)
                if left == 0:
                    break
    else:
        ps = {'path_link': [(2, 3), (5, 6)], 'path_rename': [(1, 2), (4, 5)], 'path_symlink': [(0, 1), (3, 4)],
              'path_filestat_get': [(2, 3)], 'path_filestat_set_times': [(2, 3)], 'path_open': [(2, 3)]}.get(f, [(1, 2)])
        for x, y in ps:
            must.append((a[x], a[y]))
        if f == 'path_filestat_get':
            out(a[4], 64)
        if f == 'path_open':
            out(a[8], 4)
        if f == 'path_readlink':
            may.append((a[3], min(a[4], len(S['link']))))
            must.append((a[3], min(a[4], len(S['link']))))
            out(a[5], 4)
    return must, may


def setup(wd, f):
    t = T[f]
    w = wd.w
    for a, b in (t[2] if len(t) > 2 else {}).items():
        w.mem[a:a + len(b)] = b
    if f == 'poll_oneoff':
        for i in range(2):
            w.mem[IOV + 48 * i:IOV + 48 * (i + 1)] = bytes(48)
            w.p64(IOV + 48 * i, 1000 + i)
            w.mem[IOV + 48 * i + 8] = 0
            w.p32(IOV + 48 * i + 16, 1)
            w.p64(IOV + 48 * i + 24, 1000 + i)
    return [x[1] if isinstance(x, tuple) else x for x in t[0]], [x[1] for x in (t[1] if len(t) > 1 else [])]


def run(ctx, box, f, change, valid=False):
    """change: {position: value}; positions past the arguments are vector fields."""
    wd = World(box)
    try:
        w = wd.w
        args, iov = setup(wd, f)
        na = len(args)
        for i, v in change.items():
            if i < na:
                args[i] = v
            else:
                iov[i - na] = v
        for i, v in enumerate(iov):
            w.p32(IOV + 4 * i, v)
        before = bytearray(w.mem)
        must, may = regions(f, args, before)
        ok = all(n == 0 or inside(x, n) for x, n in must)
        key = '%s%s:%s' % ('' if S == SMALL else '%d:' % (TOP // 65536), f, ','.join('%d=%#x' % e for e in sorted(change.items())))
        r = w(f, *args)
        ctx.ev(bool(change))
        ctx.outcome('%s:%s' % (f, wasi.err(r) if isinstance(r, int) else 'trap'))
        if len(w.mem) != TOP:
            return ctx.viol(key, 'the size of guest memory became %d (%s)' % (len(w.mem), wasi.err(r)))
        if r == 0 and not ok:
            return ctx.viol(key, 'succeeded although %r is not inside memory' % [
                x for x in must if x[1] and not inside(*x)])
        if not isinstance(r, int) and all(inside(x, n) for x, n in must + may) and not (iov and not inside(args[1], 8 * args[2])):
            return ctx.viol(key, '%r although every buffer is inside memory' % (r,))
        if valid and r != 0:
            return ctx.viol(key, 'the valid call failed: %s' % wasi.err(r))
        if isinstance(r, rt.Hung):
            return ctx.viol(key, 'no termination')
        for x, n in may:
            if x < TOP:
                before[x:min(TOP, x + n)] = w.mem[x:min(TOP, x + n)]
        if before != w.mem:
            bad = [i for i in range(TOP) if w.mem[i] != before[i]]
            return ctx.viol(key, '%s wrote outside its buffers: %r (%d bytes)' % (wasi.err(r), bad[:6], len(bad)))
        r = w('fd_prestat_get', 3, 128)
        if r != 0 or w.u32(132) != len(S['pre']) or rt.call(w.rt, w.inst, 'pages', []) != [TOP // 65536]:
            ctx.viol(key, 'the runtime is not usable afterwards: %r' % (r,))
    finally:
        wd.close()


def alphabet(kind, few=False):
    if kind in ('ptr', 'iov', 'sub'):
        return FEW if few else PTR
    if kind == 'cnt':
        return FEWL if few else CNT
    return FEWL if few else LEN


def singles(ctx, box, f, world):
    use(world)
    real = select.select
    select.select = lambda r, w, x, t=None: real(r, w, x, 0)
    realpoll = select.poll

    class Poll:
        def __init__(self):
            p = realpoll()
            self.register, self.modify, self.unregister = p.register, p.modify, p.unregister
            self.poll = lambda t=None: p.poll(0)
    select.poll = Poll
    run(ctx, box, f, {}, valid=True)
    pos = [(i, x[0]) for i, x in enumerate(T[f][0] + (T[f][1] if len(T[f]) > 1 else [])) if isinstance(x, tuple)]
    for i, k in pos:
        for v in alphabet(k):
            if f == 'poll_oneoff' and k == 'sub' and v < 2:
                continue        # would wait for whatever lies there
            run(ctx, box, f, {i: v})
            if ctx.full:
                return
    # every small length, in the middle of memory, up to its end, and one byte beyond
    for i, k in pos:
        if k == 'len' and f not in ('path_open',):
            for n in range(160) if S == SMALL else sorted({*range(254, 259), *(len(S[k]) + j for k in ('pre', 'link') for j in (-1, 0, 1))}):
                run(ctx, box, f, {i: n})
                for past in (0, 1):
                    run(ctx, box, f, {i: n, i - 1: TOP - n + past})
                if ctx.full:
                    return
    for (i, k), (j, l) in itertools.combinations(pos, 2):
        for v, u in itertools.product(alphabet(k, True), alphabet(l, True)):
            if f == 'poll_oneoff' and k == 'sub' and v == 0:
                continue
            run(ctx, box, f, {i: v, j: u})
            if ctx.full:
                return
    ctx.sample({'function': f, 'positions': str(pos)})


def single(ctx, f, world):
    unprivileged(ctx, singles, f, world)


SHIFTS = [65536, (1 << 20) + 1, (1 << 24) - 4100, 1 << 24, (1 << 25) + 7, 1023 * 65536]


def reloc(ctx, fs):
    unprivileged(ctx, _reloc, fs)


def _reloc(ctx, box, fs):
    """The same call with everything it names further up in a memory of 64 MiB does the same there and nothing anywhere else."""
    use('small')
    for f in fs:
        base = None
        for s in [0] + SHIFTS:
            wd = World(box)
            try:
                w = wd.w
                args, iov = setup(wd, f)
                for i, v in enumerate(iov):
                    w.p32(IOV + 4 * i, v + (s if T[f][1][i][0] == 'ptr' else 0))
                args = [v + (s if isinstance(x, tuple) and x[0] in ('ptr', 'iov', 'sub') else 0) for x, v in zip(T[f][0], args)]
                if s:
                    w.pages(1024)
                    w.mem[s:s + TOP] = w.mem[:TOP]
                    w.mem[:min(s, TOP)] = b'\xee' * min(s, TOP)
                before = bytearray(w.mem)
                r = w(f, *args)
                ctx.ev(s > 0)
                ctx.transitions += 1
                ctx.traces += 1
                key = 'at %#x: %s' % (s, f)
                got = bytearray(w.mem[s:s + TOP])
                # what differs between any two runs, and the addresses in the results
                for a, n in {'clock_time_get': [(RES, 8)], 'random_get': [(BUF, 20)], 'fd_filestat_get': [(RES + 8, 8), (RES + 40, 24)],
                             'path_filestat_get': [(RES + 8, 8), (RES + 40, 24)]}.get(f, []):
                    got[a:a + n] = bytes(n)
                if f == 'fd_readdir' and r == 0:
                    a = BUF
                    while a + 24 <= BUF + w.u32(s + RES):
                        got[a + 8:a + 16] = bytes(8)
                        a += 24 + int.from_bytes(got[a + 16:a + 20], 'little')
                if f in ('args_get', 'environ_get') and r == 0:
                    for i in range(2):
                        a = BUF + 4 * i
                        got[a:a + 4] = (int.from_bytes(got[a:a + 4], 'little') - s & 0xffffffff).to_bytes(4, 'little')
                if f in ('fd_write', 'fd_pwrite', 'fd_read', 'fd_pread', 'sock_recv', 'sock_send'):
                    for i, x in enumerate(T[f][1]):
                        got[IOV + 4 * i:IOV + 4 * i + 4] = x[1].to_bytes(4, 'little')
                out = (r if isinstance(r, int) else repr(r), bytes(got), wasi.snapshot(box + '/p'), wd.peer.recv(1000) if f == 'sock_send' and r == 0 else None)
                if base is None:
                    base = out
                    if r != 0:
                        ctx.viol(key, 'the call failed: %s' % wasi.err(r))
                        break
                elif out != base:
                    ctx.viol(key, '%s instead of %s; differing at %r' % (wasi.err(r), base[0], [i for i in range(TOP) if got[i] != base[1][i]][:6]))
                elif len(w.mem) != len(before) or before[:s] != w.mem[:s] or before[s + TOP:] != w.mem[s + TOP:]:
                    ctx.viol(key, 'wrote somewhere else')
            finally:
                wd.close()
            if ctx.full:
                return


def jobs(tier):
    return [('reloc', (list(T)[i::8],)) for i in range(8)] + [('single', (f, x)) for x in WORLDS for f in T]
