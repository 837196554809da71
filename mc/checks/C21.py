"""C21: rights."""
import os
import socket

from .. import bfs, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, R, E, ALLR

LEVEL = 'model_checking'
RULE = ('part 1: every descriptor operation (with good and bad other arguments) on a descriptor with all rights, with each '
        'single right removed, with only its own right and with none, where the rights were restricted by opening, by '
        'setting them, and by both in steps; part 2: breadth-first search over all histories of setting rights and of opening '
        'files and directories through one another over a small lattice of right sets, where the rights reported and the '
        'rights enforced are compared with a model after every step; part 3: a connection accepted from a listener with every '
        'combination of own and inheriting rights, and every call on it. Non-trivial: every operation.')
BOUNDS = {'quick': 'part 2: depth 3, 6 descriptors', 'thorough': 'part 2: depth 4'}
ASSUMPTIONS = ['asking for more than the parent passes on may fail or give less', 'rights that mean nothing for the kind of '
               'object may be dropped when it is opened', 'an accepted connection may have the rights of the listener or those it passes on', 'positional access may require the seek right as well']

T1 = 5 * 10 ** 9


# operation: (descriptor kind, rights required, call on the descriptor); each must succeed when all rights are there
def _poll(w, fd, kind):
    w.mem[4096:4096 + 48] = bytes(48)
    w.p64(4096, 7)
    w.mem[4104] = kind
    w.p32(4112, fd)
    return w('poll_oneoff', 4096, 6000, 1, 64)


def _path(f, *more):
    return lambda w, fd, n: w.path(f, fd, n, *more)


OPS = [
    ('fd_datasync', 'f', 'datasync', lambda w, fd, _: w('fd_datasync', fd)),
    ('fd_read', 'f', 'read', lambda w, fd, _: w.read(fd, [2])[0]),
    ('fd_read empty', 'f', 'read', lambda w, fd, _: w.read(fd, [])[0]),
    ('fd_pread', 'f', 'read', lambda w, fd, _: w.read(fd, [2], 1)[0]),
    ('fd_seek', 'f', 'seek', lambda w, fd, _: w.seek(fd, 1, 0)[0]),
    ('fd_seek current', 'f', 'seek', lambda w, fd, _: w.seek(fd, 0, 1)[0]),
    ('fd_seek bad', 'f', 'seek', lambda w, fd, _: w.seek(fd, -5, 0)[0]),
    ('fd_tell', 'f', 'tell', lambda w, fd, _: w.tell(fd)[0]),
    ('fd_fdstat_set_flags', 'f', 'fdstat_set_flags', lambda w, fd, _: w('fd_fdstat_set_flags', fd, 0)),
    ('fd_fdstat_set_flags bad', 'f', 'fdstat_set_flags', lambda w, fd, _: w('fd_fdstat_set_flags', fd, 2)),
    ('fd_sync', 'f', 'sync', lambda w, fd, _: w('fd_sync', fd)),
    ('fd_write', 'f', 'write', lambda w, fd, _: w.write(fd, [b'x'])[0]),
    ('fd_write empty', 'f', 'write', lambda w, fd, _: w.write(fd, [])[0]),
    ('fd_pwrite', 'f', 'write', lambda w, fd, _: w.write(fd, [b'x'], 1)[0]),
    ('fd_advise', 'f', 'advise', lambda w, fd, _: w('fd_advise', fd, 0, 1, 0)),
    ('fd_allocate', 'f', 'allocate', lambda w, fd, _: w('fd_allocate', fd, 0, 20)),
    ('fd_allocate nothing', 'f', 'allocate', lambda w, fd, _: w('fd_allocate', fd, 0, 1)),
    ('fd_filestat_get', 'f', 'filestat_get', lambda w, fd, _: w.stat(fd)[0]),
    ('fd_filestat_set_size', 'f', 'set_size', lambda w, fd, _: w('fd_filestat_set_size', fd, 3)),
    ('fd_filestat_set_times', 'f', 'set_times', lambda w, fd, _: w('fd_filestat_set_times', fd, T1, T1, 5)),
    ('fd_filestat_set_times nothing', 'f', 'set_times', lambda w, fd, _: w('fd_filestat_set_times', fd, T1, T1, 0)),
    ('fd_filestat_set_times bad', 'f', 'set_times', lambda w, fd, _: w('fd_filestat_set_times', fd, T1, T1, 3)),
    ('poll read', 'f', 'poll', lambda w, fd, _: _poll(w, fd, 1)),
    ('poll write', 'f', 'poll', lambda w, fd, _: _poll(w, fd, 2)),
    ('fd_readdir', 'd', 'readdir', lambda w, fd, _: w('fd_readdir', fd, 20480, 500, 0, 64)),
    ('fd_filestat_get dir', 'd', 'filestat_get', lambda w, fd, _: w.stat(fd)[0]),
    ('fd_filestat_set_times dir', 'd', 'set_times', lambda w, fd, _: w('fd_filestat_set_times', fd, T1, T1, 5)),
    ('path_create_directory', 'd', 'create_directory', lambda w, fd, _: w.path('path_create_directory', fd, 'new')),
    ('path_create_directory bad', 'd', 'create_directory', lambda w, fd, _: w.path('path_create_directory', fd, 'f')),
    ('path_open', 'd', 'open', lambda w, fd, _: w.open(fd, 'f', base=0, root=0)[0]),
    ('path_open missing', 'd', 'open', lambda w, fd, _: w.open(fd, 'no', base=0, root=0)[0]),
    ('path_open creating', 'd', 'open create_file', lambda w, fd, _: w.open(fd, 'new', oflags=1, base=R['write'], root=0)[0]),
    ('path_open exclusive', 'd', 'open create_file', lambda w, fd, _: w.open(fd, 'new', oflags=5, base=R['write'], root=0)[0]),
    ('path_open creating existing', 'd', 'open create_file', lambda w, fd, _: w.open(fd, 'f', oflags=1, base=0, root=0)[0]),
    ('path_open truncating', 'd', 'open path_set_size', lambda w, fd, _: w.open(fd, 'f', oflags=8, base=R['write'], root=0)[0]),
    ('path_open escaping', 'd', 'open', lambda w, fd, _: w.open(fd, '..', base=0, root=0)[0]),
    ('path_link source', 'd', 'link_source', lambda w, fd, _: w.path2('path_link', fd, 'f', 3, 'new', 0)),
    ('path_link target', 'd', 'link_target', lambda w, fd, _: w.path2('path_link', 3, 'top', fd, 'new', 0)),
    ('path_link both', 'd', 'link_source link_target', lambda w, fd, _: w.path2('path_link', fd, 'f', fd, 'new', 1)),
    ('path_readlink', 'd', 'readlink', lambda w, fd, _: w.readlink(fd, 'l')[0]),
    ('path_readlink bad', 'd', 'readlink', lambda w, fd, _: w.readlink(fd, 'f')[0]),
    ('path_rename source', 'd', 'rename_source', lambda w, fd, _: w.path2('path_rename', fd, 'f', 3, 'new')),
    ('path_rename target', 'd', 'rename_target', lambda w, fd, _: w.path2('path_rename', 3, 'top', fd, 'new')),
    ('path_rename both', 'd', 'rename_source rename_target', lambda w, fd, _: w.path2('path_rename', fd, 'f', fd, 'new')),
    ('path_filestat_get', 'd', 'path_filestat_get', lambda w, fd, _: w.stat(fd, 'f')[0]),
    ('path_filestat_get missing', 'd', 'path_filestat_get', lambda w, fd, _: w.stat(fd, 'no')[0]),
    ('path_filestat_set_times', 'd', 'path_set_times', lambda w, fd, _: w('path_filestat_set_times', fd, 0, *w.text('f'), T1, T1, 5)),
    ('path_filestat_set_times bad', 'd', 'path_set_times', lambda w, fd, _: w('path_filestat_set_times', fd, 0, *w.text('f'), 0, 0, 15)),
    ('path_symlink', 'd', 'symlink', lambda w, fd, _: w.symlink('f', fd, 'new')),
    ('path_symlink bad', 'd', 'symlink', lambda w, fd, _: w.symlink('f', fd, 'f')),
    ('path_remove_directory', 'd', 'remove_directory', lambda w, fd, _: w.path('path_remove_directory', fd, 'e')),
    ('path_remove_directory bad', 'd', 'remove_directory', lambda w, fd, _: w.path('path_remove_directory', fd, 'f')),
    ('path_unlink_file', 'd', 'unlink', lambda w, fd, _: w.path('path_unlink_file', fd, 'f')),
    ('path_unlink_file bad', 'd', 'unlink', lambda w, fd, _: w.path('path_unlink_file', fd, 'e')),
    ('sock_shutdown', 's', 'sock_shutdown', lambda w, fd, _: w('sock_shutdown', fd, 3)),
    ('sock_recv', 's', 'read', lambda w, fd, _: w('sock_recv', fd, *w.iov([3])[:2], 0, 64, 68)),
    ('sock_send', 's', 'write', lambda w, fd, _: w('sock_send', fd, *w.iov([3])[:2], 0, 64)),
    ('sock_accept', 'a', 'sock_accept', lambda w, fd, _: w('sock_accept', fd, 0, 64)),
]
# additional rights an operation may ask for
MAY = {'fd_pread': 'seek', 'fd_pwrite': 'seek', 'fd_seek current': 'tell', 'fd_tell': 'seek'}
FILE = [n for n in R if not n.startswith(('path_', 'link', 'rename', 'create')) and n not in (
    'open', 'readdir', 'readlink', 'symlink', 'remove_directory', 'unlink', 'sock_shutdown', 'sock_accept')]


def reset(box):
    wasi.clear(box)
    os.mkdir(box + '/p')
    os.mkdir(box + '/p/d')
    os.mkdir(box + '/p/d/e')
    for n in ('top', 'd/f'):
        with open(box + '/p/' + n, 'w') as f:
            f.write('contents')
    os.symlink('f', box + '/p/d/l')


def mask(names):
    return sum(R[n] for n in names)


def state(box):
    s = wasi.snapshot(box + '/p', True)
    return {k: v for k, v in s.items()}


class Set:
    """One operation on one descriptor with the given rights."""

    def __init__(self, box, kind, how, rights):
        reset(box)
        self.keep = []
        self.w = w = W({'p': box + '/p'})
        base = mask(rights)
        full = mask(FILE) if kind == 'f' else ALLR & ~R['write'] & ~(3 << 28)
        if kind in 'sa':
            F = w.wasi.File
            if kind == 's':
                a, b = socket.socketpair()
                b.send(b'hello')
            else:
                a = socket.socket()
                a.bind(('127.0.0.1', 0))
                a.listen(1)
                b = socket.create_connection(a.getsockname())
            self.keep = [b]
            self.fd = len(w.wasi.fd)
            w.wasi.fd.append(F(host_fd=a.detach(), host_flag=0, host_name='', host_status=0, pipe=None, wasm_fd=self.fd, wasm_flag=0,
                               wasm_name='', wasm_rights_base=ALLR, wasm_rights_root=ALLR, wasm_status=0,
                               wasm_type=w.wasi.FILETYPE_SOCKET_STREAM))
            e = w('fd_fdstat_set_rights', self.fd, base, 0)
            assert e == 0, e
            return
        name = 'd/f' if kind == 'f' else 'd'
        if how == 'open':
            e, self.fd = w.open(3, name, base=base, root=0)
            assert e == 0, e
        else:
            e, self.fd = w.open(3, name, base=full, root=ALLR)
            assert e == 0, e
            if how == 'steps':
                for n in R:
                    if n not in rights and full & R[n]:
                        full &= ~R[n]
                        cur = w.fdstat(self.fd)[1]['base']
                        e = w('fd_fdstat_set_rights', self.fd, cur & ~R[n], 0)
                        assert e == 0, e
            else:
                cur = w.fdstat(self.fd)[1]['base']
                e = w('fd_fdstat_set_rights', self.fd, base & cur, 0)
                assert e == 0, e

    def close(self):
        for s in self.keep:
            s.close()
        self.w.close()


def single(ctx, i):
    unprivileged(ctx, _single, i)


def _single(ctx, box, i):
    name, kind, need, fn = OPS[i]
    need = need.split()
    may = MAY.get(name, '').split()
    every = FILE if kind == 'f' else [n for n in R if n != 'write' and not n.startswith('sock')] if kind == 'd' else list(R)
    s = Set(box, kind, 'set', every)
    normal = fn(s.w, s.fd, None)
    s.close()
    if not isinstance(normal, int) or normal == E['NOTCAPABLE'] or ' bad' not in name and ' missing' not in name and \
            ' escaping' not in name and normal != 0:
        ctx.viol('%s:all' % name, '%s with all rights = %s' % (name, wasi.err(normal)))
        return
    cases = [[n for n in every if n != r] for r in every] + [need, []]
    if len(need) > 1:
        cases += [[n for n in every if n not in need]] + [[n] for n in need]
    for have in cases:
        for how in ('open', 'set', 'steps') if kind in 'fd' else ('set',):
            if how == 'open' and kind == 'f' and not {'read', 'write'} <= set(have):
                # the host file would be opened for less
                pass
            s = Set(box, kind, how, have)
            before = state(box)
            st = s.w.fdstat(s.fd)
            e = fn(s.w, s.fd, None)
            ctx.ev()
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            lacks = [n for n in need if n not in have]
            key = '%s:%s:%s' % (name, how, 'without ' + ','.join(n for n in every if n not in have) if len(have) > 4 else
                                'only ' + ','.join(have))
            ctx.outcome('%s:%s' % ('lacking' if lacks else 'enough', wasi.err(e)))
            if lacks:
                ok = e == E['NOTCAPABLE'] or name == 'path_open truncating' and e == E['PERM'] or \
                    name == 'path_open escaping' and e == E['PERM']
                if not ok:
                    ctx.viol(key, '%s lacking %s = %s' % (name, lacks, wasi.err(e)))
                elif state(box) != before:
                    ctx.viol(key, '%s lacking %s changed the file system' % (name, lacks))
            elif e != normal and not (e == E['NOTCAPABLE'] and any(n not in have for n in may)):
                # fewer host abilities follow from fewer rights at opening
                if not (how == 'open' and kind == 'f' and 'write' not in have and e in (
                        E['INVAL'], E['BADF'], E['ACCES'], E['PERM'])) or e == E['NOTCAPABLE']:
                    ctx.viol(key, '%s with enough rights = %s instead of %s' % (name, wasi.err(e), wasi.err(normal)))
            if s.w.fdstat(s.fd) != st and 'set_flags' not in name:
                ctx.viol(key, '%s changed its descriptor: %r' % (name, s.w.fdstat(s.fd)))
            s.close()
            if ctx.full:
                return


# ---- part 2
SETS = [0, R['read'], R['open'] | R['path_filestat_get'], R['read'] | R['filestat_get'] | R['open'] | R['path_filestat_get'],
        R['read'] | R['write'] | R['filestat_get'] | R['open'] | R['path_filestat_get'] | R['seek'] | R['tell'], ALLR, (1 << 64) - 1]
PROBE = [('filestat_get', lambda w, fd: w.stat(fd)[0]), ('path_filestat_get', lambda w, fd: w.stat(fd, 'f')[0]),
         ('open', lambda w, fd: w.open(fd, 'no', base=0, root=0)[0]), ('read', lambda w, fd: w.read(fd, [0])[0]),
         ('tell', lambda w, fd: w.tell(fd)[0]), ('write', lambda w, fd: w.write(fd, [b''])[0])]
MAXFD = 6
FREL = mask(FILE)
DREL = ALLR & ~(R['read'] | R['write'] | R['seek'] | R['tell'] | R['set_size'] | R['allocate'] | 3 << 28)


class World:
    def __init__(self, box):
        if not os.path.exists(box + '/p/d'):
            reset(box)
        self.w = W({'p': box + '/p'})
        st = self.w.fdstat(3)[1]
        self.fd = {3: ['d', st['base'], st['root']]}

    def close(self):
        self.w.close()

    def key(self):
        return repr(self.fd), bfs.dump(self.w.wasi.fd)

    def step(self, o):
        w = self.w
        if o[0] == 'set':
            _, fd, base, root = o
            if fd not in self.fd:
                return None
            cur = self.fd[fd]
            e = w('fd_fdstat_set_rights', fd, base, root)
            ok = cur[1] is not None and base & ~cur[1] == 0 and root & ~cur[2] == 0
            want = E['BADF'] if cur[1] is None else 0 if ok else E['NOTCAPABLE']
            if e != want:
                raise Mismatch('set_rights(%d, %#x, %#x) with %r = %s' % (fd, base, root, cur, wasi.err(e)))
            if ok:
                self.fd[fd] = [cur[0], base, root]
        elif o[0] == 'close':
            if o[1] not in self.fd:
                return None
            e = w('fd_close', o[1])
            if (e == 0) != (self.fd[o[1]][1] is not None):
                raise Mismatch('close = ' + wasi.err(e))
            self.fd[o[1]] = ['', None, None]
        elif o[0] == 'renumber':
            _, a, b = o
            if a not in self.fd or b not in self.fd:
                return None
            e = w('fd_renumber', a, b)
            if (e == 0) != (self.fd[a][1] is not None and self.fd[b][1] is not None):
                raise Mismatch('renumber = ' + wasi.err(e))
            if e == 0 and a != b:
                self.fd[b], self.fd[a] = self.fd[a], ['', None, None]
        else:
            _, fd, name, base, root = o
            if fd not in self.fd or len(self.fd) >= MAXFD:
                return None
            kind, pb, pr = self.fd[fd]
            if kind == 'd' and name == 'd' and base & (pr or 0) & R['write']:
                base &= ~R['write']         # a directory cannot be opened for writing
            e, n = w.open(fd, {'d': '.', 'f': 'f' if fd != 3 else 'd/f'}[name], base=base, root=root)
            what = 'open(%d, %s, %#x, %#x) with %r' % (fd, name, base, root, self.fd[fd])
            if pb is None or not pb & R['open']:
                if e != (E['BADF'] if pb is None else E['NOTCAPABLE']):
                    raise Mismatch('%s = %s' % (what, wasi.err(e)))
                return 'refused'
            more = base & ~pr or root & ~pr
            if e == E['NOTCAPABLE'] and more or kind == 'f' and e == E['NOTDIR'] or e == E['INVAL'] and (base | root) > ALLR:
                return 'refused'
            if fd != 3 and name == 'f' and e == E['NOENT']:
                return 'missing'
            if e != 0:
                raise Mismatch('%s = %s' % (what, wasi.err(e)))
            st = w.fdstat(n)[1]
            rel = FREL if name == 'f' else DREL
            for asked, got, part in ((base, st['base'], 'base'), (root, st['root'], 'inheriting')):
                if got & ~(asked & pr):
                    raise Mismatch('%s: %s rights %#x exceed those passed on' % (what, part, got))
                if part == 'base' and asked & pr & rel & ~got:
                    raise Mismatch('%s: %s rights %#x lack %#x' % (what, part, got, asked & pr & rel & ~got))
            self.fd[n] = [name, st['base'], st['root']]
        self.compare()
        return o[0] + ':' + wasi.err(e)

    def compare(self):
        for fd, (kind, base, root) in self.fd.items():
            e, st = self.w.fdstat(fd)
            if base is None:
                if e != E['BADF']:
                    raise Mismatch('closed descriptor %d: %s' % (fd, wasi.err(e)))
                continue
            if e or (st['base'], st['root']) != (base, root):
                raise Mismatch('descriptor %d has %r, expected %#x, %#x' % (fd, st, base, root))
            for n, fn in PROBE:
                e = fn(self.w, fd)
                if not base & R[n]:
                    if e not in (E['NOTCAPABLE'], E['ISDIR'] if kind == 'd' else E['NOTCAPABLE']):
                        raise Mismatch('descriptor %d without the right %s: %s' % (fd, n, wasi.err(e)))
                elif not isinstance(e, int) or e == E['NOTCAPABLE']:
                    raise Mismatch('descriptor %d with the right %s: %s' % (fd, n, wasi.err(e)))


def ops(light):
    out = []
    sets = SETS if not light else SETS[1::2] + SETS[:1]
    for fd in (3, 4, 5):
        for b in sets:
            for r in sets:
                out.append(('set', fd, b & (1 << 64) - 1, r))
        for n in 'df':
            for b in (R['read'] | R['filestat_get'], SETS[3], ALLR, 0):
                for r in (SETS[2], SETS[4], ALLR, 0):
                    out.append(('open', fd, n, b, r))
    out += [('renumber', 4, 3), ('renumber', 3, 4), ('renumber', 4, 5), ('close', 4), ('close', 3)]
    return out


def histories(ctx, n, of, depth):
    unprivileged(ctx, _histories, n, of, depth)


def _histories(ctx, box, n, of, depth):
    light = ctx.tier == 'quick'
    o = ops(light)
    for f in bfs.firsts(ctx, lambda: World(box), o)[n::of]:
        bfs.search(ctx, lambda: World(box), o, depth - 1, prefix=(f,), label='rights')
        if ctx.full:
            return


def accepted(ctx):
    unprivileged(ctx, _accepted)


CONN = ['read', 'write', 'sock_shutdown', 'poll', 'fdstat_set_flags', 'sock_accept']


def _accepted(ctx, box):
    """Connections from listeners of every combination of rights: nothing which the listener neither has nor passes on."""
    reset(box)
    calls = {
        'read': lambda w, fd: w('sock_recv', fd, *w.iov([3])[:2], 0, 64, 68),
        'write': lambda w, fd: w('sock_send', fd, *w.iov([3])[:2], 0, 64),
        'poll': lambda w, fd: _poll(w, fd, 1),
        'fdstat_set_flags': lambda w, fd: w('fd_fdstat_set_flags', fd, 4),
        'sock_shutdown': lambda w, fd: w('sock_shutdown', fd, 3),
        'sock_accept': lambda w, fd: w('sock_accept', fd, 0, 64),
    }
    for b in range(64):
        base = mask(n for i, n in enumerate(CONN) if b >> i & 1)
        for root in (0, ALLR, base, ALLR & ~base, R['read'], ALLR & ~R['write']):
            w = W({'p': box + '/p'})
            keep = []
            try:
                a = socket.socket(socket.AF_UNIX)
                a.bind('\0mc-C21-%d' % os.getpid())
                a.listen(2)
                for _ in range(2):
                    keep.append(socket.socket(socket.AF_UNIX))
                    keep[-1].connect(a.getsockname())
                    keep[-1].send(b'hello')
                fd = len(w.wasi.fd)
                w.wasi.fd.append(w.wasi.File(
                    host_fd=a.detach(), host_flag=0, host_name='', host_status=0, pipe=None, wasm_fd=fd, wasm_flag=0, wasm_name='',
                    wasm_rights_base=base, wasm_rights_root=root, wasm_status=0, wasm_type=w.wasi.FILETYPE_SOCKET_STREAM))
                key = 'accepted: base %#x root %#x' % (base, root)
                ctx.ev()
                ctx.states += 1
                ctx.traces += 1
                ctx.transitions += 1
                n = len(w.wasi.fd)
                e = w('sock_accept', fd, 0, 64)
                ctx.outcome('accept:%s' % wasi.err(e))
                if not b >> 5 & 1:
                    if e != E['NOTCAPABLE'] or len(w.wasi.fd) != n:
                        ctx.viol(key, 'accepting without the right = %s' % wasi.err(e))
                    continue
                if e:
                    ctx.viol(key, 'accepting = %s' % wasi.err(e))
                    continue
                c = w.u32(64)
                st = w.fdstat(c)[1]
                if st['base'] & ~(base | root) or st['root'] & ~root:
                    ctx.viol(key, 'the connection has base %#x, root %#x' % (st['base'], st['root']))
                    continue
                if w.fdstat(fd)[1]['base'] != base or w.fdstat(fd)[1]['root'] != root:
                    ctx.viol(key, 'the listener changed to %r' % w.fdstat(fd)[1])
                    continue
                for x in CONN[:5]:
                    e = calls[x](w, c)
                    ctx.transitions += 1
                    if st['base'] & R[x] and e == E['NOTCAPABLE'] or not st['base'] & R[x] and e != E['NOTCAPABLE']:
                        ctx.viol(key, '%s on the connection, which has base %#x = %s' % (x, st['base'], wasi.err(e)))
                e = w('fd_fdstat_set_rights', c, st['base'] | 1 << 26, st['root'])
                if not st['base'] >> 26 & 1 and e != E['NOTCAPABLE']:
                    ctx.viol(key, 'the connection was given a right = %s' % wasi.err(e))
            finally:
                for x in keep:
                    x.close()
                w.close()
            if ctx.full:
                return


def jobs(tier):
    n, d = (32, 3) if tier == 'quick' else (96, 4)
    return [('accepted', ())] + [('histories', (i, n, d)) for i in range(n)] + [('single', (i,)) for i in range(len(OPS))]
