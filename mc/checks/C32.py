"""C32: sockets."""
import fcntl
import gc
import os
import select
import socket

import pywasm
from .. import bfs, wasi
from ..bfs import Mismatch
from ..wasi import W, unprivileged, E, ALLR, R
from .C24 import want

LEVEL = 'model_checking'
RULE = ('breadth-first search over every history of sending and receiving (scatter/gather vectors of zero to four parts with empty '
        'ones; plain, peek, wait for all, both; through sock_* and fd_*), peer traffic, accepting, shutting down each direction by '
        'either side, closing, renumbering and non-blocking mode on stream pairs, datagram pairs and listeners with accepted '
        'connections. Twin sockets driven by plain host calls give the expected code, count, bytes, flags and what every peer '
        'sees after every step; the garbage collector runs after every step. All sock_* calls on everything that is no socket. '
        'Transfers of up to 60000 bytes in up to 2500 vectors. '
        'Non-trivial: every step that was carried out.')
BOUNDS = {'quick': 'depth 3 (stream, datagram, listener) on AF_UNIX; depth 4 with a third of the '
          'alphabet', 'thorough': 'depth 4; depth 5 with a third of the alphabet'}
ASSUMPTIONS = ['reference: the host\'s own sockets', 'calls that would block for ever are not made',
               'AF_UNIX sockets only: on TCP the time of delivery and the ports are the kernel\'s choice, which is no deterministic '
               'reference',
               'the guest gets sockets from its embedder, which appends them to the descriptor table']


def pair(type):
    return socket.socketpair(socket.AF_UNIX, type)


class World:
    def __init__(self, box, kind):
        wasi.clear(box)
        self.kind = kind
        self.w = W()
        self.fd, self.twin, self.peer, self.tpeer = {}, {}, {}, {}
        self.flag, self.ended, self.left, self.queue = {}, {}, [], 0
        self.inb, self.inq, self.outq = {}, [], []       # datagrams under way
        if kind == 'listen':
            lst = []
            for n in 'rt':
                s = socket.socket(socket.AF_UNIX)
                s.bind(box + '/' + n)
                s.listen(5)
                lst.append(s)
            self.at = [s.getsockname() for s in lst]
            self.add('L', lst[0].detach(), 6)
            self.twin['L'] = lst[1]
            self.waiting = []
        else:
            t = socket.SOCK_STREAM if kind == 'stream' else socket.SOCK_DGRAM
            a, b = pair(t)
            c, d = pair(t)
            self.add('S', a.detach(), 6 if kind == 'stream' else 5)
            self.twin['S'], self.peer['S'], self.tpeer['S'] = c, b, d

    def add(self, k, host_fd, type):
        n = len(self.w.wasi.fd)
        self.w.wasi.fd.append(pywasm.wasi.Preview1.File(
            host_fd=host_fd, host_flag=0, host_name='s', host_status=0, pipe=None, wasm_fd=n, wasm_flag=0, wasm_name='s',
            wasm_rights_base=ALLR, wasm_rights_root=ALLR, wasm_status=0, wasm_type=type))
        self.fd[k], self.flag[k] = n, 0

    def close(self):
        for d in (self.twin, self.peer, self.tpeer):
            for s in d.values():
                s.close()
        for a, b in getattr(self, 'waiting', []):
            a.close()
            b.close()
        self.w.close()

    def view(self, s):
        """What a host socket has pending."""
        try:
            return s.recv(10000, socket.MSG_PEEK | socket.MSG_DONTWAIT)
        except OSError as e:
            return e.errno

    def state(self, s):
        p = select.poll()
        p.register(s, select.POLLIN | select.POLLOUT | select.POLLRDHUP)
        return p.poll(0)[0:1] and p.poll(0)[0][1]

    def key(self):
        out = [self.queue, sorted(self.flag.items()), sorted(self.ended.items()), self.left, self.inq, self.outq]
        for k in sorted(self.twin):
            if k != 'L':
                out.append((k, self.state(self.twin[k]), self.inb.get(k), self.view(self.tpeer[k]) if k in self.tpeer else None))
        out.append([(f.wasm_status, f.wasm_type) for f in self.w.wasi.fd])
        return repr(out)

    def step(self, o):
        what = '%s%r' % (o[0], o[1:])
        if len(o) > 1 and o[0] not in ('accept', 'feed', 'pshut', 'pclose', 'take') and o[1] not in self.fd:
            return None
        r = getattr(self, o[0])(*o[1:])
        if r is None:
            return None
        e, got, exp, he = r
        if not isinstance(e, int):
            raise Mismatch('%s ended the guest: %r' % (what, e))
        if he is None and e != 0 or he is not None and e not in want(he):
            raise Mismatch('%s = %s, the host gives %s' % (what, wasi.err(e), he or 'success'))
        if e == 0 and got != exp:
            raise Mismatch('%s yields %r, expected %r' % (what, got, exp))
        gc.collect(0)
        for k in self.peer:
            a, b = self.view(self.peer[k]), self.view(self.tpeer[k])
            if a != b:
                raise Mismatch('%s: the peer of %s sees %r, expected %r' % (what, k, a, b))
        for k, f in self.fd.items():
            x, fs = self.w.fdstat(f)
            if x or fs['flags'] != self.flag[k] or fs['type'] != (5 if self.kind == 'dgram' else 6):
                raise Mismatch('%s: status of %s is %r %r' % (what, k, wasi.err(x), fs))
        return '%s:%s' % (o[0], wasi.err(e))

    def host(self, f):
        try:
            return f(), None
        except OSError as e:
            return None, e

    # ---- guest operations
    def send(self, k, parts, fdcall):
        w = self.w
        p, n, ps = w.iov([len(b) for b in parts])
        for a, b in zip(ps, parts):
            w.mem[a:a + len(b)] = b
        w.p32(64, 0xdeadbeef)
        e = w('fd_write', self.fd[k], p, n, 64) if fdcall else w('sock_send', self.fd[k], p, n, 0, 64)
        t = self.twin[k]
        data = b''.join(parts)
        exp, he = self.host(lambda: os.write(t.fileno(), data) if fdcall else t.send(data))
        if he is None and self.kind == 'dgram' and (data or not fdcall):
            self.outq.append(data)
        return e, w.u32(64), exp, he

    def recv(self, k, lens, flags, fdcall=False):
        t = self.twin[k]
        total = sum(lens)
        hf = (socket.MSG_PEEK if flags & 1 else 0) | (socket.MSG_WAITALL if flags & 2 and self.kind != 'dgram' else 0)
        # would it block?
        if not self.flag[k] & 4:
            if not self.state(t) & ~select.POLLOUT:
                return None
            got = self.inb.get(k, b'')
            if flags & 2 and self.kind != 'dgram' and 0 < len(got) < total and not self.ended.get(k):
                return None
            if flags & 2 and flags & 1 and total > len(got) > 0:
                return None
        w = self.w
        p, n, ps = w.iov(lens)
        end = wasi.BUF + total + 3 * len(lens) + 16
        w.mem[wasi.BUF - 16:end] = b'\xee' * (end - wasi.BUF + 16)
        w.mem[64:96] = b'\xee' * 32
        if fdcall:
            e = w('fd_read', self.fd[k], p, n, 64)
        else:
            e = w('sock_recv', self.fd[k], p, n, flags, 64, 72)

        def host():
            if fdcall:
                b, fl = os.read(t.fileno(), total), 0
            else:
                b, _, fl, _ = t.recvmsg(total, 0, hf)
            mem = bytearray(b'\xee' * (end - wasi.BUF + 16))
            at, i = 16, 0
            for v in lens:
                c = b[i:i + v]
                mem[at:at + len(c)] = c
                i += len(c)
                at += v + 3
            if self.kind != 'dgram' and not hf & socket.MSG_PEEK:
                self.inb[k] = self.inb.get(k, b'')[len(b):]
            if self.inq and not hf & socket.MSG_PEEK:
                self.inq.pop(0)
            return len(b), bytes(mem), int(bool(fl & socket.MSG_TRUNC)), b'\xee' * 22
        exp, he = self.host(host)
        got = w.u32(64), bytes(w.mem[wasi.BUF - 16:end]), 0 if fdcall else w.u16(72), bytes(w.mem[74:96])
        return e, got, exp, he

    def shut(self, k, how):
        e = self.w('sock_shutdown', self.fd[k], how)

        def host():
            if how not in (1, 2, 3):
                raise OSError(22, 'invalid')
            self.twin[k].shutdown({1: socket.SHUT_RD, 2: socket.SHUT_WR, 3: socket.SHUT_RDWR}[how])
        exp, he = self.host(host)
        if he is None and how & 1:
            self.ended[k] = 1
        if he is None:
            self.left.append((k, how))
            self.left = sorted(set(self.left), key=str)
        return e, None, None, he

    def shutf(self, k):
        e = self.w('fd_close', self.fd[k])
        self.twin[k].close()
        f = self.fd.pop(k)
        self.twin.pop(k)
        self.flag.pop(k)
        for name, args in (('sock_recv', (0, 0, 0, 64, 72)), ('sock_send', (0, 0, 0, 64)), ('sock_shutdown', (3,)), ('sock_accept', (0, 64))):
            x = self.w(name, f, *args)
            if x != E['BADF']:
                raise Mismatch('%s on a closed descriptor = %s' % (name, wasi.err(x)))
        return e, None, None, None

    def renumber(self, k, to):
        e = self.w('fd_renumber', self.fd[k], to)
        for x in [x for x in self.fd if self.fd[x] == to and x != k]:
            # what was there is closed
            self.twin.pop(x).close()
            self.fd.pop(x)
            self.flag.pop(x)
        self.fd[k] = to
        return e, None, None, None

    def flags(self, k, v):
        e = self.w('fd_fdstat_set_flags', self.fd[k], v)
        self.flag[k] = v
        self.twin[k].setblocking(not v & 4)
        return e, None, None, None

    def accept(self, flags):
        if 'L' not in self.fd or not self.waiting and not self.flag['L'] & 4:
            return None
        n = len(self.w.wasi.fd)
        self.w.p32(64, 0xdeadbeef)
        e = self.w('sock_accept', self.fd['L'], flags, 64)

        def host():
            if flags > 31:
                raise OSError(22, 'invalid')
            c = self.twin['L'].accept()[0]
            c.setblocking(not flags & 4)
            k = 'C%d' % len([x for x in self.peer])
            self.peer[k], self.tpeer[k] = self.waiting.pop(0)
            self.twin[k], self.fd[k], self.flag[k] = c, n, flags
            self.queue -= 1
            return n
        exp, he = self.host(host)
        return e, self.w.u32(64), exp, he

    # ---- what happens outside
    def connect(self):
        if len(self.waiting) >= 2:
            return None
        out, codes = [], []
        for a in self.at:
            s = socket.socket(socket.AF_UNIX)
            codes.append(s.connect_ex(a))
            out.append(s)
        if codes[0] != codes[1]:
            raise Mismatch('connecting gives %r, expected %r' % tuple(codes))
        if codes[0]:
            for s in out:
                s.close()
            return None
        self.waiting.append(out)
        self.queue += 1
        return 0, None, None, None

    def feed(self, k, b):
        if k not in self.peer:
            return None
        for s in (self.peer[k], self.tpeer[k]):
            try:
                s.send(b, socket.MSG_DONTWAIT)
                if s is not self.tpeer[k]:
                    continue
                if self.kind == 'dgram':
                    self.inq.append(b)
                else:
                    self.inb[k] = self.inb.get(k, b'') + b
            except OSError:
                pass
        return 0, None, None, None

    def pshut(self, k):
        if k not in self.peer:
            return None
        for s in (self.peer[k], self.tpeer[k]):
            try:
                s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        self.ended[k] = 1
        self.left = sorted(set(self.left + [(k, 'p')]), key=str)
        return 0, None, None, None

    def pclose(self, k):
        if k not in self.peer:
            return None
        self.peer.pop(k).close()
        self.tpeer.pop(k).close()
        self.ended[k] = 1
        self.left = sorted(set(self.left + [(k, 'c')]), key=str)
        return 0, None, None, None

    def take(self, k):
        if k not in self.peer:
            return None
        for s in (self.peer[k], self.tpeer[k]):
            try:
                s.recv(10000, socket.MSG_DONTWAIT)
                if self.outq and s is self.tpeer[k]:
                    self.outq.pop(0)
            except OSError:
                pass
        return 0, None, None, None


PARTS = [[b'ab'], [b'', b'c', b'', b'de'], []]
LENS = [[1], [2, 0, 3], [10], [], [0, 1, 1, 40]]


def traffic(k, few=False):
    out = [('send', k, p, f) for p in (PARTS if not few else PARTS[1:2]) for f in (False, True)]
    out += [('recv', k, l, fl) for l in (LENS if not few else LENS[:3:2]) for fl in (range(4) if not few else (0, 1))]
    out += [('recv', k, l, 0, True) for l in (LENS if not few else LENS[1:2])]
    out += [('feed', k, b) for b in ((b'xyz', b'0123456789ABCDEF', b'') if not few else (b'xyz',))]
    out += [('shut', k, h) for h in ((1, 2, 3, 0, 4, 255) if not few else (1, 2, 3))]
    out += [('pshut', k), ('pclose', k), ('shutf', k), ('flags', k, 4), ('flags', k, 0), ('take', k), ('renumber', k, 2)]
    return out


OPS = {'stream': traffic('S'), 'dgram': [o for o in traffic('S') if o[0] != 'pshut'],
       'listen': traffic('C0', True) + traffic('C1', True) +
       [('connect',), ('accept', 0), ('accept', 4), ('accept', 32), ('shutf', 'L'), ('flags', 'L', 4), ('flags', 'L', 0), ('renumber', 'L', 0)]}
OPS['stream few'] = traffic('S', True)
OPS['dgram few'] = [o for o in traffic('S', True) if o[0] != 'pshut']
PRE = {'listen': [('connect',), ('accept', 0)]}


def histories(ctx, kind, n, of, depth, pre):
    unprivileged(ctx, _histories, kind, n, of, depth, pre)


def _histories(ctx, box, kind, n, of, depth, pre):
    ops = OPS[kind]
    kind = kind.split()[0]
    make = lambda: World(box, kind)
    for o in ops[n::of]:
        bfs.search(ctx, make, ops, depth - 1, prefix=(*pre, o), label=kind)
        if ctx.full:
            return


def others(ctx):
    unprivileged(ctx, _others)


def _others(ctx, box):
    with open(box + '/f', 'wb') as f:
        f.write(b'data')
    os.mkfifo(box + '/p')
    w = W({'p': box})
    fds = {'stdin': 0, 'stdout': 1, 'preopen': 3, 'file': w.open(3, 'f')[1], 'dir': w.open(3, '.', base=ALLR & ~R['write'])[1],
           'fifo': w.open(3, 'p')[1]}
    for k, f in fds.items():
        for name, args in (('sock_recv', (wasi.IOV, 1, 0, 64, 72)), ('sock_send', (wasi.IOV, 1, 0, 64)), ('sock_shutdown', (1,)),
                           ('sock_shutdown', (3,)), ('sock_accept', (0, 64)), ('sock_recv', (wasi.IOV, 0, 1, 64, 72))):
            w.iov([4])
            before = bytes(w.mem), wasi.snapshot(box), wasi.fds(), len(w.wasi.fd)
            e = w(name, f, *args)
            ctx.ev()
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += 1
            if e not in (E['NOTSOCK'], E['NOTCAPABLE'], E['NOTSUP']) or (bytes(w.mem), wasi.snapshot(box), wasi.fds(), len(w.wasi.fd)) != before:
                ctx.viol('other:%s:%s' % (k, name), '%s on %s = %s' % (name, k, wasi.err(e)))
    w.close()


# ---------------------------------------------------------------------------------------- sizes
SHAPES = [[n] for n in (127, 128, 255, 256, 1023, 1024, 1025, 1500, 4095, 4096, 4097, 8192, 8193, 16384, 30000, 60000)] + \
    [[1] * n for n in (5, 8, 15, 16, 17, 31, 33, 64, 65, 128, 255, 257, 1023, 1024, 1025, 2500)] + \
    [[3, 0] * 700, [0] * 1100 + [5], [4096] * 10, [5000, 1, 0, 5000], [100] * 300]


def bulk(ctx, *a):
    unprivileged(ctx, _bulk, *a)


def _bulk(ctx, box, kind, part, parts):
    """Long transfers and many vectors, both ways, with more, less and exactly as much as there is room for."""
    for shape in SHAPES[part::parts]:
        n = sum(shape)
        for how, extra in [(h, 0) for h in ('send', 'write')] + [(h, x) for h in ('recv', 'peek', 'all', 'read') for x in (0, -1, 7)]:
            x = World(box, kind)
            w, fd, peer = x.w, x.fd['S'], x.peer['S']
            try:
                w.pages(6)
                ps, at = [], 100000
                for i, k in enumerate(shape):
                    w.p32(16384 + 8 * i, at, k)
                    ps.append(at)
                    at += k + 1
                end = at + 40
                data = bytes((i * 31 + (i >> 8) * 7 + 1) & 0xff for i in range(n + max(extra, 0)))
                key = '%s: %s of %d vectors, %d bytes (%r...), %+d' % (kind, how, len(shape), n, shape[:5], extra)
                ctx.ev()
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                ctx.outcome('bulk:' + how)
                w.mem[64:96] = b'\xee' * 32
                if how in ('send', 'write'):
                    i = 0
                    for a, k in zip(ps, shape):
                        w.mem[a:a + k] = data[i:i + k]
                        i += k
                    e = w('sock_send', fd, 16384, len(shape), 0, 64) if how == 'send' else w('fd_write', fd, 16384, len(shape), 64)
                    peer.setblocking(False)
                    got = []
                    try:
                        while True:
                            b = peer.recv(1 << 20)
                            if not b:
                                break
                            got.append(b)
                    except BlockingIOError:
                        pass
                    if e or w.u32(64) != n or b''.join(got) != data or kind == 'dgram' and len(got) != 1:
                        ctx.viol(key, '%s, %d sent, the peer receives %r bytes, %s' % (wasi.err(e), w.u32(64), [len(b) for b in got], b''.join(got) == data))
                    continue
                sent = data if extra >= 0 else data[:extra]
                peer.sendall(sent)
                if how == 'all' and extra < 0:
                    peer.shutdown(socket.SHUT_WR)
                w.mem[100000:end] = b'\xee' * (end - 100000)
                e = w('fd_read', fd, 16384, len(shape), 64) if how == 'read' else \
                    w('sock_recv', fd, 16384, len(shape), {'recv': 0, 'peek': 1, 'all': 2}[how], 64, 72)
                want = sent[:n]
                pic, rest = bytearray(b'\xee' * (end - 100000)), want
                for a, k in zip(ps, shape):
                    pic[a - 100000:a - 100000 + len(rest[:k])] = rest[:k]
                    rest = rest[k:]
                fl = int(kind == 'dgram' and extra > 0)
                if e or w.u32(64) != len(want) or w.mem[100000:end] != pic or how != 'read' and w.u16(72) != fl:
                    ctx.viol(key, '%s, %d received, memory %s, flags %#x' % (wasi.err(e), w.u32(64), w.mem[100000:end] == pic, w.u16(72)))
                    continue
                # what is left
                left = b'' if kind == 'dgram' else sent[n:]
                if how == 'peek':
                    left = sent
                e = w('fd_fdstat_set_flags', fd, wasi.NONBLOCK)
                w.p32(16384, 100000, 100000)
                e2 = w('fd_read', fd, 16384, 1, 64)
                if e or (e2 != 0 or bytes(w.mem[100000:100000 + w.u32(64)]) != left if left else e2 != E['AGAIN'] and (how != 'all' or extra >= 0)):
                    ctx.viol(key, 'afterwards: %s, %d bytes instead of %d' % (wasi.err(e2), w.u32(64), len(left)))
            finally:
                x.close()
            if ctx.full:
                return


def jobs(tier):
    q = tier == 'quick'
    out = [('others', ())] + [('bulk', (k, i, 4)) for k in ('stream', 'dgram') for i in range(4)]
    for kind in ('stream few', 'dgram few'):
        out += [('histories', (kind, i, 32, 4 if q else 5, [])) for i in range(32)]
    for kind in ('stream', 'dgram', 'listen'):
        out += [('histories', (kind, i, 16, 3 if q else 4, [])) for i in range(16)]
    out += [('histories', ('listen', i, 16, 2 if q else 3, PRE['listen'])) for i in range(16)]
    return out
