"""A guest that can make any WASI call, over a scratch directory, through the public interface only."""
import json
import os
import pickle
import struct
import sys

import pywasm
from . import asm, rt, harness
from .asm import I32, I64, op, lget

I, L = I32, I64
SIG = {
    'args_get': [I, I], 'args_sizes_get': [I, I], 'clock_res_get': [I, I], 'clock_time_get': [I, L, I], 'environ_get': [I, I],
    'environ_sizes_get': [I, I], 'fd_advise': [I, L, L, I], 'fd_allocate': [I, L, L], 'fd_close': [I], 'fd_datasync': [I],
    'fd_fdstat_get': [I, I], 'fd_fdstat_set_flags': [I, I], 'fd_fdstat_set_rights': [I, L, L], 'fd_filestat_get': [I, I],
    'fd_filestat_set_size': [I, L], 'fd_filestat_set_times': [I, L, L, I], 'fd_pread': [I, I, I, L, I],
    'fd_prestat_dir_name': [I, I, I], 'fd_prestat_get': [I, I], 'fd_pwrite': [I, I, I, L, I], 'fd_read': [I] * 4,
    'fd_readdir': [I, I, I, L, I], 'fd_renumber': [I, I], 'fd_seek': [I, L, I, I], 'fd_sync': [I], 'fd_tell': [I, I],
    'fd_write': [I] * 4, 'path_create_directory': [I] * 3, 'path_filestat_get': [I] * 5,
    'path_filestat_set_times': [I, I, I, I, L, L, I], 'path_link': [I] * 7, 'path_open': [I, I, I, I, I, L, L, I, I],
    'path_readlink': [I] * 6, 'path_remove_directory': [I] * 3, 'path_rename': [I] * 6, 'path_symlink': [I] * 5,
    'path_unlink_file': [I] * 3, 'poll_oneoff': [I] * 4, 'proc_exit': [I], 'proc_raise': [I], 'random_get': [I, I],
    'sched_yield': [], 'sock_accept': [I] * 3, 'sock_recv': [I] * 6, 'sock_send': [I] * 5, 'sock_shutdown': [I, I],
}
NS = 'wasi_snapshot_preview1'

E = {n: i for i, n in enumerate(
    'SUCCESS TOOBIG ACCES ADDRINUSE ADDRNOTAVAIL AFNOSUPPORT AGAIN ALREADY BADF BADMSG BUSY CANCELED CHILD CONNABORTED CONNREFUSED '
    'CONNRESET DEADLK DESTADDRREQ DOM DQUOT EXIST FAULT FBIG HOSTUNREACH IDRM ILSEQ INPROGRESS INTR INVAL IO ISCONN ISDIR LOOP MFILE '
    'MLINK MSGSIZE MULTIHOP NAMETOOLONG NETDOWN NETRESET NETUNREACH NFILE NOBUFS NODEV NOENT NOEXEC NOLCK NOLINK NOMEM NOMSG '
    'NOPROTOOPT NOSPC NOSYS NOTCONN NOTDIR NOTEMPTY NOTRECOVERABLE NOTSOCK NOTSUP NOTTY NXIO OVERFLOW OWNERDEAD PERM PIPE PROTO '
    'PROTONOSUPPORT PROTOTYPE RANGE ROFS SPIPE SRCH STALE TIMEDOUT TXTBSY XDEV NOTCAPABLE'.split())}
NAME = {v: k for k, v in E.items()}

R = {n: 1 << i for i, n in enumerate(
    'datasync read seek fdstat_set_flags sync tell write advise allocate create_directory create_file link_source link_target '
    'open readdir readlink rename_source rename_target path_filestat_get path_set_size path_set_times filestat_get set_size '
    'set_times symlink remove_directory unlink poll sock_shutdown sock_accept'.split())}
ALLR = (1 << 30) - 1
O_CREAT, O_DIR, O_EXCL, O_TRUNC = 1, 2, 4, 8
APPEND, DSYNC, NONBLOCK, RSYNC, SYNC = 1, 2, 4, 8, 16
FOLLOW = 1
CHR, DIR, REG, LNK = 2, 3, 4, 7

# guest memory layout
RES, STAT, STR1, STR2, IOV, BUF = 64, 256, 1024, 8192, 16384, 20480

_desc = None


def guest():
    """The module: every WASI function imported and exported again through a guest function; an empty _start; a memory."""
    global _desc
    if _desc is None:
        m = asm.Mod()
        idx = {n: m.import_func(NS, n, p, [] if n == 'proc_exit' else [I32]) for n, p in SIG.items()}
        m.mem(1, 2000, export='memory')
        for n, p in SIG.items():
            m.func(p, [] if n == 'proc_exit' else [I32], export=n,
                   body=b''.join(lget(i) for i in range(len(p))) + asm.call(idx[n]))
        # the entry point returns, exits or traps as the word at address 8 says
        how = asm.i32c(8) + op('i32_load', b'\x02\0')
        m.func([], [], export='_start', body=how + asm.i32c(1) + op('i32_eq') + op('if', b'\x40') + asm.i32c(12) +
               op('i32_load', b'\x02\0') + asm.call(idx['proc_exit']) + op('end') + how + asm.i32c(2) + op('i32_eq') +
               op('if', b'\x40') + op('unreachable') + op('end'))
        m.func([], [I32], body=op('memory_size', b'\0'), export='pages')
        m.func([I32], [I32], body=lget(0) + op('memory_grow', b'\0'), export='grow')
        _desc = rt.decode(m.build())
    return _desc


def signed(t, v):
    n = 32 if t == I32 else 64
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class W:
    """One WASI program."""

    def __init__(self, dirs=None, args=(), envs=None):
        self.rt = pywasm.core.Runtime()
        self.wasi = pywasm.wasi.Preview1(list(args), dict(dirs or {}), dict(envs or {}))
        self.wasi.bind(self.rt)
        self.inst = self.rt.instance(guest())
        self.m = self.rt.exported_memory(self.inst, 'memory')
        self.ended = False

    @property
    def mem(self):
        return self.m.data

    def close(self):
        if not self.ended:
            self.ended = True
            return self.wasi.main(self.rt, self.inst)

    def __call__(self, f, *args):
        """The error code, or a Trap."""
        r = rt.call(self.rt, self.inst, f, [signed(t, v) for t, v in zip(SIG[f], args)])
        return r[0] & 0xffffffff if isinstance(r, list) and r else r

    # memory
    def u8(self, a):
        return self.mem[a]

    def u16(self, a):
        return struct.unpack_from('<H', self.mem, a)[0]

    def u32(self, a):
        return struct.unpack_from('<I', self.mem, a)[0]

    def u64(self, a):
        return struct.unpack_from('<Q', self.mem, a)[0]

    def p32(self, a, *v):
        struct.pack_into('<%dI' % len(v), self.mem, a, *v)

    def p64(self, a, *v):
        struct.pack_into('<%dQ' % len(v), self.mem, a, *v)

    def pages(self, n):
        """Memory of n pages."""
        rt.call(self.rt, self.inst, 'grow', [n - len(self.mem) // 65536])
        assert len(self.mem) == n * 65536

    def text(self, s, at=STR1):
        b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
        self.mem[at:at + len(b)] = b
        return at, len(b)

    def iov(self, lens, at=BUF, gap=3):
        """Vectors of the given lengths, with gaps between the buffers; (pointer, count) and the buffer addresses."""
        ps = []
        for i, n in enumerate(lens):
            self.p32(IOV + 8 * i, at, n)
            ps.append(at)
            at += n + gap
        return IOV, len(lens), ps

    # calls with results
    def open(self, fd, path, lookup=FOLLOW, oflags=0, base=ALLR, root=ALLR, flags=0):
        self.p32(RES, 0xdeadbeef)
        e = self('path_open', fd, lookup, *self.text(path), oflags, base, root, flags, RES)
        return e, (self.u32(RES) if e == 0 else None)

    def write(self, fd, parts, offset=None):
        p, n, ps = self.iov([len(x) for x in parts])
        for a, x in zip(ps, parts):
            self.mem[a:a + len(x)] = x
        self.p32(RES, 0xdeadbeef)
        e = self('fd_write', fd, p, n, RES) if offset is None else self('fd_pwrite', fd, p, n, offset, RES)
        return e, (self.u32(RES) if e == 0 else None)

    def read(self, fd, lens, offset=None, fill=0xee):
        """errno, count, the contents of each buffer."""
        p, n, ps = self.iov(lens)
        end = BUF + sum(lens) + 3 * len(lens) + 16
        self.mem[BUF - 16:end] = bytes([fill]) * (end - BUF + 16)
        self.p32(RES, 0xdeadbeef)
        e = self('fd_read', fd, p, n, RES) if offset is None else self('fd_pread', fd, p, n, offset, RES)
        return e, (self.u32(RES) if e == 0 else None), bytes(self.mem[BUF - 16:end])

    def readbytes(self, fd, n):
        e, c, b = self.read(fd, [n])
        return (e, b[16:16 + c] if e == 0 else None)

    def seek(self, fd, off, whence):
        self.p64(RES, 0xdeadbeef)
        e = self('fd_seek', fd, off, whence, RES)
        return e, (self.u64(RES) if e == 0 else None)

    def tell(self, fd):
        self.p64(RES, 0xdeadbeef)
        e = self('fd_tell', fd, RES)
        return e, (self.u64(RES) if e == 0 else None)

    def stat(self, fd, path=None, lookup=0):
        self.mem[STAT:STAT + 64] = b'\xee' * 64
        if path is None:
            e = self('fd_filestat_get', fd, STAT)
        else:
            e = self('path_filestat_get', fd, lookup, *self.text(path), STAT)
        if e != 0:
            return e, None
        v = struct.unpack_from('<QQB7xQQQQQ', self.mem, STAT)
        return 0, dict(zip(('dev', 'ino', 'type', 'nlink', 'size', 'atim', 'mtim', 'ctim'), v))

    def fdstat(self, fd):
        self.mem[STAT:STAT + 24] = b'\0' * 24
        e = self('fd_fdstat_get', fd, STAT)
        if e != 0:
            return e, None
        t, f, b, r = struct.unpack_from('<BxH4xQQ', self.mem, STAT)
        return 0, {'type': t, 'flags': f, 'base': b, 'root': r}

    def path(self, f, fd, path, *more):
        return self(f, fd, *self.text(path), *more)

    def path2(self, f, fd, a, fd2, b, *pre):
        """path_rename and path_link (pre: lookup flags)."""
        return self(f, fd, *pre, *self.text(a), fd2, *self.text(b, STR2))

    def symlink(self, target, fd, name):
        return self('path_symlink', *self.text(target), fd, *self.text(name, STR2))

    def readlink(self, fd, name, n=1000):
        self.p32(RES, 0xdeadbeef)
        self.mem[BUF:BUF + n + 16] = b'\xee' * (n + 16)
        e = self('path_readlink', fd, *self.text(name), BUF, n, RES)
        return e, (bytes(self.mem[BUF:BUF + self.u32(RES)]) if e == 0 else None)


def err(e):
    return NAME.get(e, e) if isinstance(e, int) else repr(e)


def fds(top=256):
    """The open host descriptors of this process, with the object each refers to."""
    out = {}
    for n in range(top):
        try:
            st = os.fstat(n)
        except OSError:
            continue
        out[n] = (st.st_dev, st.st_ino, st.st_mode)
    return out


def snapshot(top, times=False, follow=None):
    """Every object under top: type, mode, link count, contents or target."""
    out = {}
    todo = [top]
    while todo:
        p = todo.pop()
        st = os.lstat(p)
        k = os.path.relpath(p, top)
        t = st.st_mode >> 12
        if t == 4:
            out[k] = ['d', st.st_mode & 0o7777]
            todo += [os.path.join(p, n) for n in os.listdir(p)]
        elif t == 10:
            out[k] = ['l', os.readlink(p)]
        elif t == 8:
            with open(p, 'rb') as f:
                out[k] = ['f', st.st_mode & 0o7777, st.st_nlink, f.read()]
        else:
            out[k] = ['?', st.st_mode]
        if times:
            out[k] += [st.st_mtime_ns]
            if times == 'all':
                out[k] += [st.st_atime_ns]
    return out


def clear(top):
    """Empties a scratch directory (never follows links)."""
    for n in os.listdir(top):
        p = os.path.join(top, n)
        if os.path.isdir(p) and not os.path.islink(p):
            clear(p)
            os.rmdir(p)
        else:
            os.unlink(p)


def unprivileged(ctx, fn, *args):
    """Runs fn(ctx, scratch directory, *args) in a child process which has no privileges and owns nothing but an empty scratch
    directory, so that whatever the code under test does to paths cannot reach anything real."""
    top = os.path.realpath(harness.scratch())
    box = os.path.join(top, 'box')
    os.mkdir(box)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            os.umask(0o022)
            if os.getuid() == 0:
                os.chown(box, 65534, 65534)
                d = top
                while d not in ('/', '/dev/shm', '/tmp'):
                    os.chmod(d, 0o711)
                    d = os.path.dirname(d)
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            os.chdir(box)
            try:
                fn(ctx, box, *args)
            except BaseException as e:
                import traceback
                ctx.violations.append({'key': 'job-crash:%s:%s' % (fn.__name__, type(e).__name__), 'case': None,
                                       'msg': 'exploration could not proceed: ' +
                                       ''.join(traceback.format_exception(e))[-1500:]})
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(ctx, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    got = pickle.loads(b) if b else None
    if got is None:
        ctx.viol('job-died:%s' % fn.__name__, 'the exploring process died')
    else:
        ctx.__dict__.update(got.__dict__)
