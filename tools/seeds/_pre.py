# Shared beginning of the demonstrations that run a WASI guest.
WASI = '''
import io
import os
import shutil
import struct
import sys
import tempfile
import pywasm
import wat

I, L = wat.I32, wat.I64
SIG = {
    'args_get': [I, I], 'args_sizes_get': [I, I], 'clock_time_get': [I, L, I], 'environ_get': [I, I], 'environ_sizes_get': [I, I],
    'fd_close': [I], 'fd_fdstat_get': [I, I], 'fd_fdstat_set_flags': [I, I], 'fd_fdstat_set_rights': [I, L, L],
    'fd_filestat_get': [I, I], 'fd_filestat_set_size': [I, L], 'fd_filestat_set_times': [I, L, L, I], 'fd_allocate': [I, L, L],
    'fd_pread': [I, I, I, L, I], 'fd_prestat_dir_name': [I, I, I], 'fd_prestat_get': [I, I], 'fd_pwrite': [I, I, I, L, I],
    'fd_read': [I] * 4, 'fd_readdir': [I, I, I, L, I], 'fd_renumber': [I, I], 'fd_seek': [I, L, I, I], 'fd_tell': [I, I],
    'fd_write': [I] * 4, 'path_create_directory': [I] * 3, 'path_filestat_get': [I] * 5,
    'path_filestat_set_times': [I, I, I, I, L, L, I], 'path_link': [I] * 7, 'path_open': [I, I, I, I, I, L, L, I, I],
    'path_readlink': [I] * 6, 'path_remove_directory': [I] * 3, 'path_rename': [I] * 6, 'path_symlink': [I] * 5,
    'path_unlink_file': [I] * 3, 'poll_oneoff': [I] * 4, 'proc_exit': [I], 'random_get': [I, I], 'sock_accept': [I] * 3,
    'sock_recv': [I] * 6, 'sock_send': [I] * 5, 'sock_shutdown': [I, I],
}
ALL = (1 << 30) - 1
READ, WRITE, SEEK = 2, 64, 4
box = tempfile.mkdtemp()


class Guest:
    def __init__(self, dirs=None, args=(), envs=None):
        m = wat.Mod()
        idx = {n: m.import_func('wasi_snapshot_preview1', n, p, [] if n == 'proc_exit' else [I]) for n, p in SIG.items()}
        m.mem(1, None, export='memory')
        for n, p in SIG.items():
            m.func(p, [] if n == 'proc_exit' else [I], export=n,
                   body=b''.join(wat.lget(i) for i in range(len(p))) + wat.call(idx[n]))
        m.func([], [], export='_start')
        self.rt = pywasm.core.Runtime()
        self.wasi = pywasm.wasi.Preview1(list(args), dict(dirs or {}), dict(envs or {}))
        self.wasi.bind(self.rt)
        self.inst = self.rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(m.build())))
        self.mem = self.rt.exported_memory(self.inst, 'memory')

    def put(self, a, b):
        self.mem.put(a, bytearray(b))
        return a

    def get(self, a, n):
        return bytes(self.mem.get(a, n))

    def u32(self, a):
        return struct.unpack('<I', self.get(a, 4))[0]

    def u64(self, a):
        return struct.unpack('<Q', self.get(a, 8))[0]

    def __call__(self, f, *args):
        a = []
        for t, v in zip(SIG[f], args):
            n = 32 if t == I else 64
            v &= (1 << n) - 1
            a.append(v - (1 << n) if v >> (n - 1) else v)
        r = self.rt.invocate(self.inst, f, a)
        return r[0] if r else None

    def path(self, f, fd, name, *rest, at=1024):
        b = name.encode()
        self.put(at, b)
        return self(f, fd, at, len(b), *rest)

    def open(self, fd, name, base, root=0, oflags=0, fdflags=0, look=1):
        b = name.encode()
        self.put(1024, b)
        e = self('path_open', fd, look, 1024, len(b), oflags, base, root, fdflags, 64)
        return e, self.u32(64)

    def iov(self, lens, at=4096, buf=8192):
        for i, n in enumerate(lens):
            self.put(at + 8 * i, struct.pack('<II', buf, n))
            buf += n
        return at, len(lens)

    def write(self, fd, data):
        self.put(8192, data)
        return self('fd_write', fd, *self.iov([len(data)]), 64)

    def read(self, fd, n):
        e = self('fd_read', fd, *self.iov([n]), 64)
        return e, (self.get(8192, self.u32(64)) if e == 0 else b'')

'''


def wasi(body):
    body = '\n'.join('    ' + l if l else l for l in body.strip('\n').split('\n'))
    return WASI + '\ntry:\n' + body + '\nfinally:\n    shutil.rmtree(box)\n'
