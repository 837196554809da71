"""C31: failing host calls."""
import errno
import fcntl
import gc
import itertools
import os
import select
import socket
import struct

import pywasm
from .. import rt, wasi
from ..wasi import W, unprivileged, E, ALLR, R

LEVEL = 'fault_enumeration'
RULE = ('for every WASI function (several variants each) the host calls it makes are recorded at the os, fcntl, select and socket '
        'seam, then every one of them is made to fail in turn with every error number of the host, or to transfer less than asked '
        '(every shorter length), on a fresh world; afterwards the error code, the descriptor table, guest memory, host '
        'descriptors, file tree and the outcome of the repeated call are compared with the run without fault. Failing closes at '
        'the end of the program in every combination, and a failing close during the program after which the number belongs to somebody else. Malformed and over-long names and extreme numbers for every argument. '
        'Non-trivial: runs in which a fault was delivered.')
BOUNDS = {'quick': 'all single faults; all subsets of failing closes at program end',
          'thorough': 'all single faults, all pairs of faults within one call and across two calls (12 errors each)'}
ASSUMPTIONS = ['faults are delivered at the functions of the host modules, before the call has any effect; close has its effect and '
               'then fails, as on Linux', 'a link look-up failing with EINVAL, ENOENT or ENOTDIR says that there is no link and is '
               'no failure', 'EINTR may be retried', 'errors unknown to WASI may give any code', 'EACCES and EPERM count as the same']

ERRNOS = sorted(errno.errorcode)
FEW = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EINTR, errno.EINVAL, errno.ENOENT, errno.EAGAIN, errno.ENOMEM,
       errno.EBADF, errno.EPIPE, errno.EEXIST]
BENIGN = {errno.EINVAL, errno.ENOENT, errno.ENOTDIR}
OS = ('access chdir chmod chown close close_range copy_file_range dup dup2 eventfd_read fchdir fchmod fchown fdatasync fpathconf '
      'fstat fstatvfs fsync ftruncate get_blocking getxattr isatty lchown link listdir lockf lseek lstat memfd_create mkdir mkfifo mknod '
      'open openpty pathconf pipe pipe2 posix_fadvise posix_fallocate pread preadv pwrite pwritev read readlink readv remove rename '
      'replace rmdir scandir sendfile set_blocking splice stat statvfs symlink sync truncate unlink urandom getrandom utime write '
      'writev').split()
SOCK = 'accept recv recvfrom recvmsg recv_into recvmsg_into recvfrom_into send sendall sendmsg sendto shutdown setblocking settimeout ' \
       'getsockopt setsockopt detach dup'.split()
CLOSE = {'os.close'}
SHORT_OUT = {'os.write': 1, 'os.pwrite': 1, 'send': 1}
SHORT_IN = {'os.read': 1, 'os.pread': 1, 'recv': 1, 'recvmsg': 1}


def fit(n):
    """Acceptable codes for a host error; None: any but success."""
    if n in (errno.EACCES, errno.EPERM):
        return {E['ACCES'], E['PERM']}
    names = {k[1:] for k, v in vars(errno).items() if v == n and k.startswith('E')}
    names = {'TOOBIG' if k == '2BIG' else k for k in names}
    got = {E[k] for k in names if k in E}
    if n == errno.ENOTSUP:
        got |= {E['NOTSUP']}
    return got or None


class Seam:
    """Stand-ins for the host calls, which count and fail on demand while armed."""

    def __init__(self):
        self.armed, self.n, self.plan, self.log, self.hit = False, 0, {}, [], []

    def install(self):
        for n in OS:
            if hasattr(os, n):
                self.wrap(os, n, 'os.' + n)
        self.wrap(fcntl, 'fcntl', 'fcntl')
        self.wrap(fcntl, 'ioctl', 'ioctl')
        self.wrap(select, 'select', 'select')
        self.wrap(socket, 'fromfd', 'fromfd')
        for n in SOCK:
            self.wrap(socket.socket, n, n)

    def wrap(self, at, n, name):
        orig = getattr(at, n)

        def f(*a, **k):
            if not self.armed:
                return orig(*a, **k)
            i = self.n
            self.n += 1
            act = self.plan.get(i)
            self.log.append(name)
            self.armed = False
            try:
                if act is None:
                    return orig(*a, **k)
                self.hit.append(name)
                if act[0] == 'short':
                    a = list(a)
                    pos = 1
                    if name in SHORT_OUT:
                        a[pos] = bytes(a[pos])[:act[1]]
                    else:
                        a[pos] = min(a[pos], act[1])
                    return orig(*a, **k)
                if name in CLOSE:
                    orig(*a, **k)
                raise OSError(act[1], os.strerror(act[1]))
            finally:
                self.armed = True
        for s in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks', 'supports_effective_ids'):
            if at is os and orig in getattr(os, s):
                getattr(os, s).add(f)
        setattr(at, n, f)


SEAM = Seam()
_real = {'close': os.close, 'fstat': os.fstat}


class FW(W):
    """A program whose WASI calls go through the seam."""
    plan = {}

    def arm(self, plan):
        self.plan = plan

    def __call__(self, f, *args):
        self.before = bytes(self.mem)
        SEAM.n, SEAM.plan, SEAM.log, SEAM.hit = 0, self.plan, [], []
        SEAM.armed = True
        try:
            r = W.__call__(self, f, *args)
        finally:
            SEAM.armed = False
            self.plan = {}
        self.log, self.hit = SEAM.log, SEAM.hit
        return r


def file(w, host_fd, type):
    n = len(w.wasi.fd)
    w.wasi.fd.append(pywasm.wasi.Preview1.File(
        host_fd=host_fd, host_flag=0, host_name='socket', host_status=0, pipe=None, wasm_fd=n, wasm_flag=0, wasm_name='socket',
        wasm_rights_base=ALLR, wasm_rights_root=ALLR, wasm_status=0, wasm_type=type))
    return n


class World:
    def __init__(self, box):
        wasi.clear(box)
        self.top = box + '/p'
        os.mkdir(self.top)
        os.mkdir(self.top + '/d')
        for n, b in (('a', b'hello world'), ('d/x', b'X')):
            with open(self.top + '/' + n, 'wb') as f:
                f.write(b)
        os.mkdir(self.top + '/e')
        os.symlink('a', self.top + '/l')
        os.symlink('d', self.top + '/m')
        self.w = w = FW({'p': self.top})
        self.A = w.open(3, 'a')[1]
        self.B = w.open(3, 'd/x')[1]
        self.D = w.open(3, 'd', base=ALLR & ~R['write'])[1]
        w.seek(self.A, 2, 0)
        a, b = socket.socketpair()
        b.send(b'incoming')
        self.peer = b
        self.S = file(w, a.detach(), 6)
        self.lst = socket.socket()
        self.lst.bind(('127.0.0.1', 0))
        self.lst.listen(4)
        # two, so that accepting again after a failure does not block
        self.cli, self.cli2 = socket.socket(), socket.socket()
        self.cli.connect(self.lst.getsockname())
        self.cli2.connect(self.lst.getsockname())
        self.L = file(w, os.dup(self.lst.fileno()), 6)
        w.mem[:64] = b'\0' * 64

    def close(self):
        self.w.close()
        for s in (self.peer, self.lst, self.cli, self.cli2):
            s.close()

    def obs(self):
        """What the guest and the host can see."""
        w = self.w
        out = []
        for f in range(len(w.wasi.fd) + 2):
            e, st = w.fdstat(f)
            r = [f, e, st, w.tell(f)]
            e, st = w.stat(f)
            if e == 0:
                r += [st['type'], st['size'], st['ino'], st['nlink']]
            out.append(r)
        return out, wasi.snapshot(self.top), self.peer_bytes()

    def peer_bytes(self):
        self.peer.setblocking(False)
        try:
            return self.peer.recv(1000, socket.MSG_PEEK)
        except OSError:
            return b''
        finally:
            self.peer.setblocking(True)

    def hfds(self):
        gc.collect()
        return set(wasi.fds())


T = 5 * 10 ** 9


def recv(x, lens, flags=0):
    w = x.w
    p, n, ps = w.iov(lens)
    w.p32(RESN, 0)
    return w('sock_recv', x.S, p, n, flags, RESN, RESN + 8), (w.u32(RESN), [bytes(w.mem[a:a + k]) for a, k in zip(ps, lens)])


def send(x, parts):
    w = x.w
    p, n, ps = w.iov([len(b) for b in parts])
    for a, b in zip(ps, parts):
        w.mem[a:a + len(b)] = b
    return w('sock_send', x.S, p, n, 0, RESN), w.u32(RESN)


def poll(x, subs, timeout=None):
    w = x.w
    w.mem[4096:4096 + 480] = bytes(480)
    at = 4096
    for k, fd in subs:
        w.p64(at, 7)
        w.mem[at + 8] = k
        w.p32(at + 16, fd)
        at += 48
    if timeout is not None:
        w.p64(at, 9)
        w.p32(at + 16, 1)
        w.p64(at + 24, timeout)
        at += 48
    return w('poll_oneoff', 4096, 6000, (at - 4096) // 48, RESN), None


def w3(f, *a):
    return lambda x: (x.w(f, *[getattr(x, y) if isinstance(y, str) else y for y in a]), None)


def p3(f, name, *more, fd=3):
    return lambda x: (x.w.path(f, fd, name, *more), None)


RESN = 80
# name: call on a world -> (code, result); none of them blocks
CASES = {
    'fd_allocate': w3('fd_allocate', 'A', 0, 50), 'fd_allocate less': w3('fd_allocate', 'A', 0, 5),
    'fd_advise': w3('fd_advise', 'A', 0, 5, 3), 'fd_close': w3('fd_close', 'A'), 'fd_close dir': w3('fd_close', 'D'),
    'fd_close preopen': w3('fd_close', 3), 'fd_close socket': w3('fd_close', 'S'), 'fd_close stdout': w3('fd_close', 1),
    'fd_datasync': w3('fd_datasync', 'A'), 'fd_sync': w3('fd_sync', 'A'), 'fd_fdstat_get': w3('fd_fdstat_get', 'A', 64),
    'fd_fdstat_set_flags append': w3('fd_fdstat_set_flags', 'A', 1), 'fd_fdstat_set_flags both': w3('fd_fdstat_set_flags', 'A', 5),
    'fd_fdstat_set_flags none': w3('fd_fdstat_set_flags', 'A', 0), 'fd_fdstat_set_rights': w3('fd_fdstat_set_rights', 'A', 2, 0),
    'fd_filestat_get': w3('fd_filestat_get', 'A', 256), 'fd_filestat_set_size': w3('fd_filestat_set_size', 'A', 3),
    'fd_filestat_set_times': w3('fd_filestat_set_times', 'A', T, T, 5), 'fd_filestat_set_times now': w3('fd_filestat_set_times', 'D', T, T, 10),
    'fd_pread': lambda x: x.w.read(x.A, [2, 0, 3], 1)[:3], 'fd_read': lambda x: x.w.read(x.A, [2, 0, 3])[:3],
    'fd_pwrite': lambda x: x.w.write(x.A, [b'ab', b'', b'cde'], 1), 'fd_write': lambda x: x.w.write(x.A, [b'ab', b'', b'cde']),
    'fd_write other': lambda x: x.w.write(x.B, [b'0123456789']), 'fd_read socket': lambda x: x.w.read(x.S, [3, 2])[:3],
    'fd_write socket': lambda x: x.w.write(x.S, [b'out', b'put']),
    'fd_prestat_get': w3('fd_prestat_get', 3, 64), 'fd_prestat_dir_name': w3('fd_prestat_dir_name', 3, 64, 1),
    'fd_readdir': w3('fd_readdir', 'D', 20480, 500, 0, RESN), 'fd_readdir small': w3('fd_readdir', 3, 20480, 60, 2, RESN),
    'fd_renumber': w3('fd_renumber', 'A', 'B'), 'fd_renumber dir': w3('fd_renumber', 'A', 3), 'fd_renumber socket': w3('fd_renumber', 'S', 'D'),
    'fd_renumber over stdout': w3('fd_renumber', 'A', 1), 'fd_renumber stdout': w3('fd_renumber', 1, 'A'),
    'fd_seek': lambda x: x.w.seek(x.A, 3, 0), 'fd_seek end': lambda x: x.w.seek(x.A, -1, 2), 'fd_tell': lambda x: x.w.tell(x.A),
    'path_create_directory': p3('path_create_directory', 'n'), 'path_create_directory deep': p3('path_create_directory', 'm/n'),
    'path_filestat_get': lambda x: (x.w.stat(3, 'd/x', 0)[0], None), 'path_filestat_get follow': lambda x: (x.w.stat(3, 'l', 1)[0], None),
    'path_filestat_set_times': lambda x: (x.w('path_filestat_set_times', 3, 1, *x.w.text('l'), T, T, 5), None),
    'path_filestat_set_times link': lambda x: (x.w('path_filestat_set_times', 3, 0, *x.w.text('l'), T, T, 4), None),
    'path_link': lambda x: (x.w.path2('path_link', 3, 'a', x.D, 'n', 0), None), 'path_link follow': lambda x: (x.w.path2('path_link', 3, 'l', 3, 'm/n', 1), None),
    'path_open': lambda x: x.w.open(3, 'a'), 'path_open create': lambda x: x.w.open(3, 'd/n', oflags=1, flags=1),
    'path_open exclusive': lambda x: x.w.open(3, 'n', oflags=5), 'path_open truncate': lambda x: x.w.open(3, 'a', oflags=8),
    'path_open dir': lambda x: x.w.open(3, 'm', oflags=2, base=ALLR & ~R['write']), 'path_open link': lambda x: x.w.open(3, 'm/x', base=R['read']),
    'path_open nofollow': lambda x: x.w.open(3, 'd/x', lookup=0, flags=4),
    'path_readlink': lambda x: x.w.readlink(3, 'l'), 'path_remove_directory': p3('path_remove_directory', 'e'),
    'path_rename': lambda x: (x.w.path2('path_rename', 3, 'a', x.D, 'n'), None), 'path_rename over': lambda x: (x.w.path2('path_rename', 3, 'l', 3, 'm/x'), None),
    'path_symlink': lambda x: (x.w.symlink('d/x', 3, 'n'), None), 'path_symlink deep': lambda x: (x.w.symlink('x', x.D, 'n'), None),
    'path_unlink_file': p3('path_unlink_file', 'a'), 'path_unlink_file link': p3('path_unlink_file', 'm/x'),
    'poll read': lambda x: poll(x, [(1, x.S)]), 'poll write': lambda x: poll(x, [(2, x.A), (1, x.A)]), 'poll clock': lambda x: poll(x, [(1, x.L)], 1000),
    'poll only clock': lambda x: poll(x, [], 1000), 'random_get': w3('random_get', 64, 4), 'sched_yield': w3('sched_yield'),
    'clock_time_get': w3('clock_time_get', 0, 1, 64),
    'sock_accept': w3('sock_accept', 'L', 0, RESN), 'sock_accept nonblocking': w3('sock_accept', 'L', 4, RESN),
    'sock_recv': lambda x: recv(x, [3, 2, 9]), 'sock_recv peek': lambda x: recv(x, [3], 1), 'sock_recv all': lambda x: recv(x, [8], 2),
    'sock_send': lambda x: send(x, [b'ab', b'', b'cde']), 'sock_shutdown': w3('sock_shutdown', 'S', 2), 'sock_shutdown both': w3('sock_shutdown', 'S', 3),
}
# memory that the calls above may write
OUT = [(64, 96), (256, 320), (6000, 6100), (20464, 21000)]
FREE = ('random_get', 'clock_time_get')


def mask(b):
    b = bytearray(b)
    for x, y in OUT:
        b[x:y] = bytes(y - x)
    return bytes(b)


def norm(o):
    """Observation without inode numbers (worlds differ in them)."""
    fds, tree, peer = o
    return [[v if i != 6 and not (i == 5 and r[4] == 3) else 0 for i, v in enumerate(r)] for r in fds], tree, peer


class Base:
    """The run without fault."""

    def __init__(self, box, name):
        x = World(box)
        self.pre = norm(x.obs())
        nf = len(x.hfds())
        self.code, self.out = rest(CASES[name](x))
        self.log = list(x.w.log)
        self.post = norm(x.obs())
        self.dfds = len(x.hfds()) - nf
        x.close()


def rest(r):
    return r[0], (r[1] if len(r) == 2 else r[1:])


def judge(ctx, box, name, base, plan, key):
    """One run with the faults of plan (index -> action). True when a fault was delivered."""
    x = World(box)
    w = x.w
    try:
        pre = norm(x.obs())
        fds = x.hfds()
        w.arm(plan)
        code, out = rest(CASES[name](x))
        mem = bytes(w.mem)
        hit, log = list(w.hit), list(w.log)
        after = x.hfds()
        post = norm(x.obs())
        ctx.ev(bool(hit))
        ctx.outcome('%s' % (wasi.err(code) if isinstance(code, int) else 'trap'))
        if not hit:
            return False

        def bad(msg):
            ctx.viol('%s:%s' % (name, key), '%s with %s of %s: %s' % (name, ', '.join(map(show, plan.values())), ', '.join(hit), msg),
                     {'case': name, 'plan': {str(k): list(v) for k, v in plan.items()}, 'calls': log})
        acts = [plan[i] for i in sorted(plan) if i < len(log)][:len(hit)]
        if not isinstance(code, int):
            return bad('the guest is ended by %r' % code)
        if mask(w.before) != mask(mem):
            return bad('memory outside the results changed')
        short = [a for a in acts if a[0] == 'short']
        if short:
            # less was transferred than asked for, and the guest is told exactly how much
            if code != 0:
                return bad('gives %s' % wasi.err(code))
            if after != fds:
                return bad('host descriptors %r' % (after ^ fds))
            msg = transferred(x, name, out, pre, post)
            return bad(msg) if msg else True
        closing = all(h in CLOSE for h in hit)
        ok = set()
        anyerr = False
        for a, h in zip(acts, hit):
            f = fit(a[1])
            if f is None:
                anyerr = True
            else:
                ok |= f
            if h in ('os.readlink', 'os.lstat', 'os.stat') and a[1] in BENIGN and len(log) > 1 or a[1] == errno.EINTR:
                ok.add(0)
            if h in CLOSE and (name.startswith('fd_renumber') or len(hit) > 1):
                ok.add(0)
            if name.startswith('fd_readdir') and a[1] in BENIGN and h != 'os.listdir':
                ok.add(0)
            if name.startswith('fd_close') and h == 'os.close' and len(log) > 1 and log[0] != 'os.close':
                ok.add(0)
        if code not in ok and not (anyerr and code != 0):
            return bad('gives %s, expected %s' % (wasi.err(code), '/'.join(sorted(str(wasi.err(c)) for c in ok)) or 'an error'))
        if closing and (name.startswith('fd_close') or name.startswith('fd_renumber')):
            # the descriptor is gone all the same
            if post != base.post:
                return bad('state %s' % diff(post, base.post))
            if len(after) - len(fds) != base.dfds:
                return bad('host descriptors %r' % (after ^ fds))
            return True
        if code == 0:
            if name.startswith('fd_readdir'):
                return True
            if post != base.post:
                return bad('success, but the state differs: %s' % diff(post, base.post))
            if len(after) - len(fds) != base.dfds:
                return bad('success, host descriptors %r' % (after ^ fds))
            return True
        if after != fds:
            return bad('%s, but host descriptors %r' % (wasi.err(code), after ^ fds))
        if post[0] != pre[0] and name not in ('path_open truncate',):
            return bad('%s, but descriptors changed: %s' % (wasi.err(code), diff(post, pre)))
        if (post[1], post[2]) not in ((pre[1], pre[2]), (base.post[1], base.post[2])):
            return bad('%s, but files changed: %s' % (wasi.err(code), diff(post, pre)))
        if post[1:] == pre[1:]:
            # and the call works when repeated
            code, out = rest(CASES[name](x))
            again = norm(x.obs())
            if (code, out) != (base.code, base.out) and name not in FREE or again != base.post:
                return bad('repeated without fault: %s %r instead of %s %r; %s' % (
                    wasi.err(code), out, wasi.err(base.code), base.out, diff(again, base.post)))
        return True
    finally:
        x.close()


def transferred(x, name, out, pre, post):
    if 'write' in name and 'socket' not in name:
        n, data = out, b'abcde' if 'other' not in name else b'0123456789'
        path, off = ('d/x', 0) if 'other' in name else ('a', 1 if name == 'fd_pwrite' else 2)
        old = pre[1][path][-1]
        want = old[:off] + data[:n] + old[off + n:]
        if post[1][path][-1] != want:
            return 'reports %d bytes, the file holds %r instead of %r' % (n, post[1][path][-1], want)
        fd = x.B if 'other' in name else x.A
        pos = post[0][fd][3][1]
        if pos != (2 if name == 'fd_pwrite' else off + n):
            return 'reports %d bytes, the offset is %r' % (n, pos)
    elif 'sock_send' in name or name == 'fd_write socket':
        data = b'abcde' if 'sock_send' in name else b'output'
        if x.peer_bytes() != data[:out]:
            return 'reports %d bytes, the peer got %r' % (out, x.peer_bytes())
    elif 'sock_recv' in name:
        n, parts = out
        got, lens = b'', n
        for p in parts:
            got += p[:lens]
            lens -= min(lens, len(p))
        left = b''
        x.w.arm({})
        e, o = recv(x, [20], 2 if False else 0) if name == 'sock_recv peek' or n < 8 else (0, (0, [b'']))
        left = o[1][0][:o[0]]
        if got != b'incoming'[:n] or left != (b'incoming' if name == 'sock_recv peek' else b'incoming'[n:]):
            return 'reports %d bytes %r, %r remains' % (n, got, left)
    else:
        n, b = out
        src, off = (b'incoming', 0) if 'socket' in name else (b'hello world', 1 if name == 'fd_pread' else 2)
        lens = [3, 2] if 'socket' in name else [2, 0, 3]
        at, k, got = 16, n, b''
        for v in lens:
            got += b[at:at + min(v, k)]
            k -= min(v, k)
            at += v + 3
        if got != src[off:off + n]:
            return 'reports %d bytes, buffers hold %r' % (n, got)
        if 'socket' not in name and post[0][x.A][3][1] != (2 if name == 'fd_pread' else 2 + n):
            return 'reports %d bytes, the offset is %r' % (n, post[0][x.A][3][1])
    return None


def show(a):
    return errno.errorcode.get(a[1], str(a[1])) if a[0] == 'errno' else 'only %d bytes' % a[1]


def diff(a, b):
    out = []
    for p, q in zip(a[0], b[0]):
        if p != q:
            out.append('%r / %r' % (p, q))
    out += ['%s: %r / %r' % (k, a[1].get(k), b[1].get(k)) for k in sorted(set(a[1]) | set(b[1])) if a[1].get(k) != b[1].get(k)]
    if len(a[0]) != len(b[0]):
        out.append('%d / %d descriptors' % (len(a[0]), len(b[0])))
    if a[2] != b[2]:
        out.append('peer %r / %r' % (a[2], b[2]))
    return '; '.join(out)[:500] or 'same'


def faults(ctx, names, mode):
    unprivileged(ctx, _faults, names, mode)


def _faults(ctx, box, names, mode):
    SEAM.install()
    for name in names:
        base = Base(box, name)
        if base.code != 0:
            ctx.viol('base:' + name, '%s without fault gives %s' % (name, wasi.err(base.code)))
            continue
        ctx.note('host calls recorded', len(base.log))
        ctx.sample({'case': name, 'host calls': base.log})
        if mode == 'single':
            for i, h in enumerate(base.log):
                for e in ERRNOS:
                    judge(ctx, box, name, base, {i: ('errno', e)}, '%d:%s' % (i, errno.errorcode[e]))
                    if ctx.full:
                        return
                if h in SHORT_OUT or h in SHORT_IN:
                    for n in range(0 if h not in SHORT_IN else 1, 12):
                        judge(ctx, box, name, base, {i: ('short', n)}, '%d:short%d' % (i, n))
        else:
            for i, e in itertools.product(range(len(base.log)), FEW):
                # the calls that follow the first fault may be other ones
                for j in range(i + 1, len(base.log) + 3):
                    got = [judge(ctx, box, name, base, {i: ('errno', e), j: ('errno', f)}, '%d:%s,%d:%s' % (
                        i, errno.errorcode[e], j, errno.errorcode[f])) for f in FEW]
                    if ctx.full:
                        return
                    if not any(got):
                        break


def sequences(ctx, first):
    """A fault in one call, another fault in the next one, then the final state equals that of an undisturbed world."""
    unprivileged(ctx, _sequences, first)


def _sequences(ctx, box, first):
    SEAM.install()
    one = Base(box, first)
    for second in CASES:
        two = Base(box, second)
        for i in range(len(one.log)):
            for j in range(len(two.log)):
                for e, f in ((errno.EIO, errno.EIO), (errno.EACCES, errno.EMFILE), (errno.ENOSPC, errno.EIO)):
                    if one.log[i] in CLOSE or two.log[j] in CLOSE:
                        continue
                    x = World(box)
                    w = x.w
                    pre, fds = norm(x.obs()), x.hfds()
                    w.arm({i: ('errno', e)})
                    a = CASES[first](x)[0]
                    mid = norm(x.obs())
                    w.arm({j: ('errno', f)})
                    b = CASES[second](x)[0]
                    ctx.ev()
                    post = norm(x.obs())
                    if not isinstance(a, int) or not isinstance(b, int) or a == 0 or b == 0 or x.hfds() != fds or \
                            mid[1:] == pre[1:] and post[1:] == mid[1:] and post != pre:
                        ctx.viol('%s:%d:%s:%d' % (first, i, second, j), '%s failing with %s and %s failing with %s: %s %s, %s, %r' % (
                            first, errno.errorcode[e], second, errno.errorcode[f], wasi.err(a), wasi.err(b), diff(post, pre), x.hfds() ^ fds))
                    x.close()
                    if ctx.full:
                        return


def ends(ctx):
    unprivileged(ctx, _ends)


def _ends(ctx, box):
    """Failing closes at the end of the program, in every combination, for every way to end."""
    SEAM.install()
    for how, code in ((0, 0), (1, 9), (2, 0)):
        for bits in range(256):
            x = World(box)
            w = x.w
            w.p32(8, how, code)
            keep = {x.peer.fileno(), x.lst.fileno(), x.cli.fileno(), x.cli2.fileno()}
            mine = {n for n in wasi.fds() if n in {f.host_fd for f in w.wasi.fd[3:]}}
            all_ = x.hfds()
            SEAM.n, SEAM.log, SEAM.hit = 0, [], []
            SEAM.plan = {i: ('errno', errno.EIO) for i in range(8) if bits >> i & 1}
            SEAM.armed = True
            try:
                r = w.wasi.main(w.rt, w.inst)
            except Exception as e:
                r = rt.Trap(e)
            finally:
                SEAM.armed = False
            w.ended = True
            ctx.ev(bool(SEAM.hit))
            ok = isinstance(r, rt.Trap) and not isinstance(r.exc, OSError) if how == 2 else r == code
            left = x.hfds()
            x.close()
            if not ok or left != all_ - mine or not keep <= left:
                ctx.viol('end:%d:%d' % (how, bits), 'ending (%d) with failing closes %s: %r, left open %r' % (how, bin(bits), r, sorted(left & mine)))
                if ctx.full:
                    return


def stale(ctx):
    unprivileged(ctx, _stale)


def _stale(ctx, box):
    """A host descriptor whose closing failed is gone: its number may be somebody else's by the time the guest does more or ends."""
    SEAM.install()
    for which in range(6):
        for how in ('close', 'from', 'onto', 'close twice'):
            for code in (None, errno.EIO, errno.EINTR, errno.ENOSPC):
                for end in (0, 1, 2):
                    x = World(box)
                    w = x.w
                    n = [3, x.A, x.B, x.D, x.S, x.L][which]
                    other = x.A if n != x.A else x.B
                    gone = w.wasi.fd[n if how != 'from' else other].host_fd
                    w.arm({0: ('errno', code)} if code else {})
                    e = w('fd_renumber', *((n, other) if how == 'from' else (other, n))) if how in ('from', 'onto') else w('fd_close', n)
                    SEAM.armed = False
                    bait = os.open(box, os.O_RDONLY)
                    inode = os.fstat(bait).st_ino
                    key = 'stale:%d:%s:%s:%d' % (which, how, code and errno.errorcode[code], end)
                    ctx.ev(bool(code))
                    if bait != gone:
                        ctx.note('the number was not reused at once')
                    if how == 'close twice' and w('fd_close', n) != E['BADF']:
                        ctx.viol(key, 'closing again after %s succeeded' % wasi.err(e))
                    w.p32(8, end, 3)
                    try:
                        w.wasi.main(w.rt, w.inst)
                    except Exception:
                        pass
                    w.ended = True
                    try:
                        ok = os.fstat(bait).st_ino == inode
                    except OSError:
                        ok = False
                    if not ok:
                        ctx.viol(key, 'a descriptor which the host opened after the closing (%s) was closed' % wasi.err(e))
                    else:
                        os.close(bait)
                    x.close()
                    if ctx.full:
                        return
    ctx.traces += ctx.evals


NAMES = [b'\xff', b'a\xff', b'\xc3', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\xc0\x80', b'\0', b'a\0', b'a\0b', b'd/\0', b'\0/x', b'n' * 256,
         b'n' * 4096, b'd/' * 2500, b'd/' + b'n' * 256, b'a/n', b'l/n', b'', b'nope/n', b'n' * 5000, 'é'.encode() * 130]
NUMS = [0, 1, 5, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2, 2 ** 64 - 1]


def hostile(ctx):
    unprivileged(ctx, _hostile)


def _hostile(ctx, box):
    """Names no host accepts, and numbers no host accepts."""
    one = {
        'path_create_directory': lambda x, n: x.w('path_create_directory', 3, *x.w.text(n)),
        'path_filestat_get': lambda x, n: x.w('path_filestat_get', 3, 1, *x.w.text(n), 256),
        'path_filestat_get nofollow': lambda x, n: x.w('path_filestat_get', 3, 0, *x.w.text(n), 256),
        'path_filestat_set_times': lambda x, n: x.w('path_filestat_set_times', 3, 1, *x.w.text(n), T, T, 5),
        'path_link from': lambda x, n: x.w('path_link', 3, 0, *x.w.text(n), 3, *x.w.text(b'new', wasi.STR2)),
        'path_link to': lambda x, n: x.w('path_link', 3, 0, *x.w.text(b'a'), 3, *x.w.text(n, wasi.STR2)),
        'path_open': lambda x, n: x.w.open(3, n)[0], 'path_open create': lambda x, n: x.w.open(3, n, oflags=1, lookup=0)[0],
        'path_readlink': lambda x, n: x.w.readlink(3, n)[0], 'path_remove_directory': lambda x, n: x.w('path_remove_directory', 3, *x.w.text(n)),
        'path_rename from': lambda x, n: x.w('path_rename', 3, *x.w.text(n), 3, *x.w.text(b'new', wasi.STR2)),
        'path_rename to': lambda x, n: x.w('path_rename', 3, *x.w.text(b'a'), 3, *x.w.text(n, wasi.STR2)),
        'path_symlink to': lambda x, n: x.w('path_symlink', *x.w.text(b'a'), 3, *x.w.text(n, wasi.STR2)),
        'path_unlink_file': lambda x, n: x.w('path_unlink_file', 3, *x.w.text(n)),
    }
    x = World(box)
    pre = norm(x.obs())
    fds = x.hfds()
    for name, f in one.items():
        for n in NAMES:
            ctx.ev()
            e = f(x, n)
            if not isinstance(e, int) or e == 0 or norm(x.obs()) != pre or x.hfds() != fds:
                ctx.viol('name:%s:%r' % (name, n[:20]), '%s of %r (%d bytes) = %s; %s' % (
                    name, n[:20], len(n), wasi.err(e), diff(norm(x.obs()), pre)))
                x.close()
                x = World(box)
                fds = x.hfds()
                if ctx.full:
                    return
    for n in [b for b in NAMES if 0 in b or b[:1] > b'\x7f' or b == b'a\xff' or not b or len(b) > 4095]:
        ctx.ev()
        try:
            n.decode()
            if 0 not in n and n and len(n) < 4096:
                continue
        except ValueError:
            pass
        e = x.w('path_symlink', *x.w.text(n), 3, *x.w.text(b'new', wasi.STR2))
        if not isinstance(e, int) or e == 0 or norm(x.obs()) != pre:
            ctx.viol('target:%r' % n[:20], 'path_symlink to %r = %s' % (n[:20], wasi.err(e)))
            x.close()
            x = World(box)
    x.close()
    # every number of every function replaced by every extreme; no call may end the guest, a refused one changes nothing
    calls = {
        'fd_advise': ['A', 0, 5, 0], 'fd_allocate': ['A', 0, 5], 'fd_fdstat_set_flags': ['A', 0], 'fd_fdstat_set_rights': ['A', 0, 0],
        'fd_filestat_set_size': ['A', 11], 'fd_filestat_set_times': ['A', T, T, 5], 'fd_seek': ['A', 0, 0, RESN], 'fd_close': ['A'], 'fd_renumber': ['A', 'B'],
        'fd_readdir': ['D', 20480, 100, 0, RESN], 'clock_time_get': [0, 0, RESN], 'clock_res_get': [0, RESN], 'proc_raise': [0],
        'fd_tell': ['A', RESN], 'fd_sync': ['A'], 'fd_datasync': ['A'], 'fd_filestat_get': ['A', 256], 'fd_prestat_get': [3, 64],
        'fd_pread': ['A', wasi.IOV, 1, 0, RESN], 'fd_pwrite': ['A', wasi.IOV, 1, 0, RESN], 'fd_fdstat_get': ['A', 256],
        'sock_accept': ['L', 0, RESN], 'sock_recv': ['S', wasi.IOV, 1, 0, RESN, RESN + 8], 'sock_send': ['S', wasi.IOV, 1, 0, RESN], 'sock_shutdown': ['S', 1],
        'path_filestat_set_times': [3, 1, 1024, 1, T, T, 5], 'path_open': [3, 1, 1024, 1, 0, ALLR, ALLR, 0, RESN],
        'path_filestat_get': [3, 1, 1024, 1, 256], 'path_link': [3, 0, 1024, 1, 3, 1030, 1],
    }
    pointers = {(f, i) for f, ix in {'fd_seek': [3], 'fd_readdir': [1, 2, 4], 'clock_time_get': [2], 'clock_res_get': [1], 'fd_tell': [1], 'fd_filestat_get': [1],
                'fd_prestat_get': [1], 'fd_pread': [1, 2, 4], 'fd_pwrite': [1, 2, 4], 'fd_fdstat_get': [1], 'sock_accept': [2], 'sock_recv': [1, 2, 4, 5],
                'sock_send': [1, 2, 4], 'path_filestat_set_times': [2, 3], 'path_open': [2, 3, 8], 'path_filestat_get': [2, 3, 4],
                'path_link': [2, 3, 5, 6]}.items() for i in ix}
    for f, args in calls.items():
        for i in range(len(args)):
            if (f, i) in pointers:
                continue
            for v in NUMS:
                if v >> (32 if wasi.SIG[f][i] == wasi.I32 else 64):
                    continue
                if f == 'fd_filestat_set_size' and 2 ** 31 <= v <= 2 ** 62 or f == 'fd_allocate' and 2 ** 31 <= v <= 2 ** 62 or \
                        f == 'fd_pwrite' and i == 3 and 2 ** 31 <= v:
                    if v < 2 ** 63 - 1:
                        continue            # the host may really make files of that size
                x = World(box)
                w = x.w
                w.text(b'a')
                w.text(b'n', 1030)
                w.iov([3])
                pre, fds = norm(x.obs()), x.hfds()
                a = [getattr(x, y) if isinstance(y, str) else y for y in args]
                a[i] = v
                ctx.ev()
                e = w(f, *a)
                ctx.outcome('%s' % (wasi.err(e) if isinstance(e, int) else 'trap'))
                if not isinstance(e, int) or e and (norm(x.obs()) != pre or x.hfds() != fds):
                    ctx.viol('number:%s:%d:%d' % (f, i, v), '%s%r = %s; %s' % (f, tuple(a), wasi.err(e), diff(norm(x.obs()), pre)))
                x.close()
                if ctx.full:
                    return


def jobs(tier):
    names = list(CASES)
    out = [('hostile', ()), ('ends', ()), ('stale', ())] + [('faults', (names[i::24], 'single')) for i in range(24)]
    if tier != 'quick':
        out += [('faults', ([n], 'pairs')) for n in names] + [('sequences', (n,)) for n in names]
    return out
