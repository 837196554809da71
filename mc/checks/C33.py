"""C33: the command line."""
import io
import itertools
import math
import os
import shutil
import struct
import subprocess
import sys

import pywasm
from .. import asm, harness, wasi
from ..asm import I32, I64, F32, F64, V128, FUNCREF, EXTERNREF, op, i32c, lget, call

LEVEL = 'exploration'
RULE = ('every signature of up to two value types (three in the thorough tier) with every list of argument texts of the alphabets '
        'below, too few and too many; every request for something that does not exist or is no function; every combination of '
        'WASI arguments, environment and directories up to the bound, in every place relative to the file, with a program that '
        'prints all it was given, the identity of its directories and its input; every exit code of the alphabet and every other '
        'end; up to 800 options of a kind and options of up to 65536 bytes. Compared with a reference: exit status and the whole standard output (and error output of the program). Each run is '
        'a process of its own: all single options really start the interpreter, combinations run the same program in a fork. '
        'Non-trivial: an accepted request.')
BOUNDS = {'quick': 'signatures of two types; three WASI options of a kind', 'thorough': 'signatures of three types; combinations '
          'of three arguments, three environments and three directories'}
ASSUMPTIONS = ['an exit code reaches the parent modulo 256, as of any process',
               'integers from 2^(n-1) to 2^n-1 may be refused or wrap; numbers in other than plain decimal notation may be refused']
TYPES = [I32, I64, F32, F64, V128]
NAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128', FUNCREF: 'funcref', EXTERNREF: 'externref'}
NO = 'refused'
MAIN = os.path.join(os.path.dirname(os.path.abspath(pywasm.__file__)), '__main__.py')


class Runner:
    """Runs command lines in the scratch directory."""
    def __init__(self, box):
        self.box = box
        self.code = compile(open(os.path.join(box, '..', 'pkg', 'pywasm', '__main__.py')).read(), MAIN, 'exec')

    def real(self, argv, stdin=b''):
        p = subprocess.run([sys.executable, '-m', 'pywasm', *argv], cwd=self.box, input=stdin, capture_output=True, timeout=100,
                           env={'PYTHONPATH': os.path.join(self.box, '..', 'pkg'), 'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'})
        return p.returncode, p.stdout, p.stderr

    def fork(self, argv, stdin=b''):
        files = [os.memfd_create(n) for n in ('in', 'out', 'err')]
        os.write(files[0], stdin)
        os.lseek(files[0], 0, 0)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for i, f in enumerate(files):
                    os.dup2(f, i)
                sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), write_through=True)
                sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), write_through=True)
                sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), write_through=True)
                sys.argv = ['pywasm'] + [os.fsdecode(a) for a in argv]
                try:
                    exec(self.code, {'__name__': '__main__', '__builtins__': __builtins__, '__package__': 'pywasm', '__file__': MAIN})
                    code = 0
                except SystemExit as e:
                    if e.code is None or isinstance(e.code, int):
                        code = (e.code or 0) & 0xff
                    else:
                        print(e.code, file=sys.stderr)
                except BaseException as e:
                    print('Traceback:', type(e), e, file=sys.stderr)
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        out = []
        for f in files[1:]:
            out.append(os.pread(f, 1 << 22, 0))
        for f in files:
            os.close(f)
        return os.waitstatus_to_exitcode(status), out[0], out[1]


def start(ctx, fn, *args):
    # A copy of the package which an unprivileged process can read.
    pkg = os.path.join(os.path.realpath(harness.scratch()), 'pkg')
    if not os.path.isdir(pkg):
        shutil.copytree(os.path.dirname(MAIN), pkg + '/pywasm', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run([sys.executable, '-m', 'compileall', '-q', pkg], check=True)
        os.chmod(pkg, 0o755)
        for d, ds, fs in os.walk(pkg):
            for n in ds:
                os.chmod(d + '/' + n, 0o755)
            for n in fs:
                os.chmod(d + '/' + n, 0o644)
    wasi.unprivileged(ctx, fn, *args)


# ---- functions with arguments

def texts(t):
    """Texts and what they mean: a list of acceptable values, NO among them if the text may be refused."""
    out = []
    if t in (I32, I64):
        n = 32 if t == I32 else 64
        h = 1 << n - 1
        for v in (0, 1, -1, 7, h - 1, -h, 1234567, 10 ** 9, -2):
            out.append((str(v), [v]))
        out += [(str(v), [NO, v - 2 * h]) for v in (h, 2 * h - 1)]
        out += [(str(v), [NO]) for v in (2 * h, -h - 1, -2 * h, 4 * h, 10 ** 30)]
        out += [('007', [NO, 7]), ('+5', [NO, 5]), (' 6', [NO, 6]), ('0x10', [NO, 16]), ('1_0', [NO, 10])]
        out += [(s, [NO]) for s in ('', 'x', '1.5', '1e3', '0x', '--', '1 2', 'nan', 'None', '7i')]
    elif t in (F32, F64):
        for s in ('0', '1', '-1', '1.5', '-0.0', '0.1', '1e10', '-2.5e-3', '3.4028234663852886e38', '1e-45', '16777217', '5e-324',
                  '1.7976931348623157e308', 'inf', '-inf', 'nan', '1e400'):
            v = float(s)
            if t == F32:
                try:
                    v = struct.unpack('<f', struct.pack('<f', v))[0]
                except OverflowError:
                    v = math.copysign(math.inf, v)
            out.append((s, [v] if s not in ('1e400', '1.7976931348623157e308') else [v, NO]))
        out += [(s, [NO]) for s in ('', 'x', '1,5', '0x', '1.5.1', '1f', '--')]
    elif t == V128:
        for b in (bytes(16), b'\xff' * 16, bytes(range(16)), bytes(range(0x8f, 0x7f, -1)), b'\x01' + bytes(15), bytes(15) + b'\x80'):
            out.append(('0x' + b.hex(), [bytearray(b)]))
            out.append((b.hex(), [bytearray(b), NO]))
        b = bytes(range(16))
        out += [('0x' + b.hex().upper(), [bytearray(b)])]
        out += [(s, [NO]) for s in ('', '0x', '0x00', '0x' + b.hex()[:-1], '0x' + b.hex()[:-2], '0x' + b.hex() + '0', '0x' + b.hex() + 'aa',
                                    'xx' + b.hex()[2:] + 'xx', 'ab' + b.hex(), '00' + b.hex(), '0' + b.hex(), '0x' + 'g' * 32, 'zz' + b.hex(),
                                    '1', '-1', '--')]
    else:
        out = [(s, [NO]) for s in ('0', '1', 'null', 'None', '', '0x0')]
    return out


def same(a, b):
    return repr(a) == repr(b)


def value(out):
    """The printed list."""
    return eval(out, {'__builtins__': {}}, {'nan': math.nan, 'inf': math.inf, 'bytearray': bytearray, 'None': None})


def judge(ctx, label, argv, res, want, show):
    """want: list of acceptable results; each a list of values or NO."""
    code, out, err = res
    ctx.ev(want != [NO])
    ctx.transitions += 1
    if code == 0:
        try:
            got = value(out.decode())
            if not out.endswith(b'\n') or out.count(b'\n') != 1:
                raise ValueError
        except Exception:
            ctx.viol(label, '%r prints %r' % (argv, out[:200]))
            return
    else:
        got = NO
        if out:
            ctx.viol(label, '%r fails with status %d and prints %r' % (argv, code, out[:200]))
            return
    ctx.outcome('%s: %s' % (show, 'refused' if got is NO else 'runs'))
    if not any(got is NO and w is NO or got is not NO and w is not NO and same(got, w) for w in want):
        ctx.viol(label, '%r: status %d, prints %r, expected %r (%r)' % (argv, code, out[:200], want, err[-200:]))


def ident(sig):
    m = asm.Mod()
    m.func([], [I32], body=i32c(77))            # other functions around the one asked for
    m.func(sig, sig, body=b''.join(lget(i) for i in range(len(sig))), export='echo')
    m.func([], [I32], body=i32c(88), export='_start')
    m.mem(1, export='mem')
    m.func(sig, [], body=b'', export='none')
    m.func(sig[::-1], sig, body=b''.join(lget(len(sig) - 1 - i) for i in range(len(sig))), export='rev')
    return m.build()


def signature(ctx, sig, part, of, real):
    start(ctx, _signature, sig, part, of, real)


def _signature(ctx, box, sig, part, of, real):
    run = Runner(box)
    with open(box + '/m.wasm', 'wb') as f:
        f.write(ident(sig))
    go = run.real if real else run.fork
    al = [texts(t) for t in sig]
    if len(sig) == 3:
        al = [a[:3] + a[-3:-1] for a in al]
    label = 'args(%s)' % ','.join(NAME[t] for t in sig)
    n = 0
    for vals in itertools.product(*al):
        n += 1
        if n % of != part:
            continue
        ts = [v[0] for v in vals]
        want = [NO] if any(v[1] == [NO] for v in vals) else [NO if NO in w else list(w) for w in itertools.product(*[v[1] for v in vals])]
        args = ['--func-args=' + x for x in ts]
        judge(ctx, label, ts, go(['--func', 'echo', *args, 'm.wasm']), want, label)
        if n % 5 == 0 or len(sig) < 2:
            judge(ctx, label + ' file first', ts, go(['m.wasm', *args, '--func=rev']) if sig == sig[::-1] else
                  go(['m.wasm', *args, '--func=echo']), want if sig != sig[::-1] else [w if w is NO else w[::-1] for w in want], label)
            # an argument which looks like an option may be refused when it is a word of its own
            apart = [y for x in ts for y in ('--func-args', x)]
            w = want + [NO] if any(x.startswith('-') for x in ts) else want
            judge(ctx, label + ' apart', ts, go([*apart, 'm.wasm', '--func', 'none']), [x if x is NO else [] for x in w], label)
        if ctx.full:
            return
    good = [next(v[0] for v in a if NO not in v[1]) for a in al if NO not in a[0][1]]
    if len(good) == len(sig):
        for k in range(5):
            if k != len(sig):
                args = ['--func-args=' + x for x in (good + ['1'] * 5)[:k]]
                judge(ctx, label + ' count', args, go(['--func', 'echo', *args, 'm.wasm']), [NO], label)
    ctx.sample({'signature': label, 'texts': [[v[0] for v in a] for a in al]})


def requests(ctx):
    start(ctx, _requests)


def _requests(ctx, box):
    run = Runner(box)
    m = asm.Mod()
    hid = m.func([], [I32], body=i32c(1))
    m.func([], [I32], body=i32c(2), export='_start')
    m.func([], [I32], body=i32c(3), export='f')
    m.func([], [I32], body=i32c(4), export='_start ')
    m.func([], [I32], body=i32c(5), export='')
    m.func([], [I32], body=i32c(6), export='--func')
    m.func([], [I32], body=i32c(7), export='é')
    m.func([], [], body=op('unreachable'), export='trap')
    m.func([], [I64, I32, F32], body=asm.i64c(-1) + i32c(2) + asm.f32c(0xc0000000), export='many')
    m.export('alias', 'func', hid)
    m.table(FUNCREF, 1, export='table')
    m.mem(1, export='memory')
    m.glob(I32, 0, i32c(9), export='global')
    w = asm.Mod()
    w.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
    w.func([], [], export='_start')
    t = asm.Mod()
    x = t.func([], [], body=op('unreachable'))
    t.func([], [], export='_start')
    t.start(x)
    n = asm.Mod()
    n.func([], [I32], body=i32c(2), export='f')
    good = m.build()
    v = [FUNCREF, EXTERNREF]
    r = asm.Mod()
    r.func([], v, body=op('ref_null', bytes([FUNCREF])) + op('ref_null', bytes([EXTERNREF])), export='_start')
    for k, b in {'m': good, 'w': w.build(), 't': t.build(), 'n': n.build(), 'cut': good[:-1], 'empty': b'', 'junk': b'\0asm\2\0\0\0', 'r': r.build(),
                 'text': b'hello', 'more': good + b'\1', '-dash': good}.items():
        with open(box + '/' + k, 'wb') as f:
            f.write(b)
    os.mkdir(box + '/dir')
    cases = [(['m'], [2]), (['./m'], [2]), ([box + '/m'], [2]), (['--func', 'f', 'm'], [3]), (['--func=_start ', 'm'], [4]), (['--func=', 'm'], [5]),
             (['--func=--func', 'm'], [6]), (['--func', 'é', 'm'], [7]), (['--func=alias', 'm'], [1]), (['--func=many', 'm'], [-1, 2, -2.0]),
             (['--func=f', '--func=_start', 'm'], [2]), (['n', '--func', 'f'], [2]), (['r'], [None, None]), (['--', '-dash'], [2]),
             (['--', 'm'], [2])]
    cases += [(['--func=' + k, 'm'], NO) for k in ('g', 'F', 'f ', ' f', 'table', 'memory', 'global', 'trap', 'start', '0', '1', 'mem', '_star')]
    cases += [([k], NO) for k in ('n', 'w', 't', 'cut', 'empty', 'junk', 'text', 'more', 'none', 'dir', '', 'm/', './')]
    cases += [([], NO), (['m', 'm'], NO), (['m', 'x'], NO), (['--nosuch', 'm'], NO), (['m', '--func'], NO), (['m', '--wasi'], NO),
              (['--wasi', 'preview2', 'm'], NO), (['--wasi=', 'm'], NO), (['--func-args=1', 'm'], NO), (['m', '--func=f', '--func-args='], NO)]
    for argv, want in cases:
        for go in (run.real, run.fork):
            judge(ctx, 'request:%r' % argv, argv, go(argv), [want], 'request')
    for argv in (['--version'], ['-v'], ['-v', 'm']):
        code, out, err = run.real(argv)
        ctx.ev()
        if code or out.decode() != 'pywasm %s\n' % pywasm.version:
            ctx.viol('version', '%r: %d %r' % (argv, code, out))
    for argv in (['--help'], ['-h']):
        code, out, err = run.real(argv)
        ctx.ev()
        if code or any(x not in out.decode() for x in ('--func', '--func-args', '--wasi', '--wasi-args', '--wasi-envs', '--wasi-dirs', 'file')):
            ctx.viol('help', '%r: %d %r' % (argv, code, out))


# ---- WASI programs

NS = 'wasi_snapshot_preview1'
ARGV, ARGB, ENVV, ENVB, PRE, NAMES, IDS, STDIN = 1024, 4096, 12288, 16384, 256, 32768, 40960, 49152
PREOPENS = range(3, 8)
ERR, VECS, NREAD, SIZE = 512, 800, 860, 65536
BIG = dict(ARGV=4096, ARGB=8192, ENVV=131072, ENVB=135168, PRE=2048, NAMES=262144, IDS=327680, STDIN=393216, PREOPENS=range(3, 60),
           ERR=397312, VECS=1024, NREAD=1536, SIZE=458752)


def dumper(end):
    """Writes all it was given into its memory and its memory to the output."""
    m = asm.Mod()
    imp = {n: m.import_func(NS, n, [I32] * k, [I32]) for n, k in (('args_sizes_get', 2), ('args_get', 2), ('environ_sizes_get', 2),
           ('environ_get', 2), ('fd_prestat_get', 2), ('fd_prestat_dir_name', 3), ('fd_read', 4), ('fd_write', 4), ('fd_close', 1))}
    imp['path_open'] = m.import_func(NS, 'path_open', [I32] * 5 + [I64] * 2 + [I32] * 2, [I32])
    imp['proc_exit'] = m.import_func(NS, 'proc_exit', [I32], [])
    m.mem(SIZE // 65536, SIZE // 65536, export='memory')
    err = [ERR]

    def go(name, *args):
        b = i32c(err[0])
        err[0] += 4
        for a in args:
            b += i32c(a) if isinstance(a, int) else a
        return b + call(imp[name]) + op('i32_store', 2, 0)

    b = go('args_sizes_get', 0, 4) + go('args_get', ARGV, ARGB) + go('environ_sizes_get', 8, 12) + go('environ_get', ENVV, ENVB)
    for i, f in enumerate(PREOPENS):
        b += go('fd_prestat_get', f, PRE + 8 * i)
        b += go('fd_prestat_dir_name', f, NAMES + 512 * i, i32c(PRE + 8 * i + 4) + op('i32_load', 2, 0))
        b += go('path_open', f, 0, 768, 2, 0, asm.i64c(2), asm.i64c(2), 0, 780)
        b += go('fd_read', i32c(780) + op('i32_load', 2, 0), VECS + 8 * i, 1, NREAD + 4 * i)
        b += i32c(780) + i32c(99) + op('i32_store', 2, 0)
    b += go('fd_read', 0, 840, 1, NREAD + 4 * len(PREOPENS)) + go('fd_write', 1, 848, 1, 60) + go('fd_write', 2, 784, 1, 60)
    b += {'return': b'', 'trap': op('unreachable')}.get(end) if isinstance(end, str) else i32c(end) + call(imp['proc_exit'])
    m.func([], [], body=b, export='_start')
    m.data_active(i32c(768), b'id')
    m.data_active(i32c(780), struct.pack('<III', 99, 770, 3))
    m.data_active(i32c(770), b'err')
    m.data_active(i32c(VECS), b''.join(struct.pack('<II', IDS + 64 * i, 64) for i, f in enumerate(PREOPENS)))
    m.data_active(i32c(840), struct.pack('<IIII', STDIN, 100, 0, SIZE))
    return m.build()


def strings(mem, nc, ptrs, buf):
    n, size = struct.unpack_from('<II', mem, nc)
    ps = struct.unpack_from('<%dI' % n, mem, ptrs)
    out = []
    at = buf
    for p in ps:
        if p != at:
            raise ValueError('string at %d, expected %d' % (p, at))
        e = mem.index(b'\0', p)
        out.append(mem[p:e])
        at = e + 1
    if at - buf != size:
        raise ValueError('size %d of %r' % (size, out))
    return out


def parse(mem):
    if len(mem) != SIZE:
        raise ValueError('output of %d bytes: %r' % (len(mem), mem[:100]))
    args, envs = strings(mem, 0, ARGV, ARGB), strings(mem, 8, ENVV, ENVB)
    errs = struct.unpack_from('<%dI' % (4 + 4 * len(PREOPENS) + 1), mem, ERR)
    if any(errs[:4]):
        raise ValueError('codes %r' % (errs,))
    dirs = []
    for i, f in enumerate(PREOPENS):
        e = errs[4 + 4 * i:8 + 4 * i]
        if e[0]:
            continue
        n = struct.unpack_from('<I', mem, PRE + 8 * i + 4)[0]
        k = struct.unpack_from('<I', mem, NREAD + 4 * i)[0]
        dirs.append((mem[NAMES + 512 * i:NAMES + 512 * i + n], mem[IDS + 64 * i:IDS + 64 * i + k] if not any(e) else e))
    k = struct.unpack_from('<I', mem, NREAD + 4 * len(PREOPENS))[0]
    return args, sorted(envs), sorted(dirs), mem[STDIN:STDIN + k]


def shown(ctx, label, argv, res, want, code):
    """want: what the program is to see; None if the request is to be refused without running it."""
    got, out, err = res
    ctx.ev(want is not None)
    ctx.transitions += 1
    ctx.outcome('%s: %s' % (label, 'refused' if want is None else 'runs'))
    if want is None:
        if got == 0 or out:
            ctx.viol(label, '%r is to be refused: status %d, %r' % (argv, got, out[:50]))
        return
    if got != code:
        ctx.viol(label + ' status', '%r: status %d, expected %d (%r)' % (argv, got, code, err[-300:]))
        return
    try:
        seen = parse(out)
    except Exception as e:
        ctx.viol(label, '%r: %s (%r)' % (argv, e, err[-300:]))
        return
    if seen != want:
        ctx.viol(label, '%r: the program sees %r, expected %r' % (argv, seen, want))
    if err[:3] != b'err' or code != 1 and err != b'err':
        ctx.viol(label + ' error output', '%r: %r' % (argv, err[-300:]))


ARGS = [b'a', b'', b'x y', b'--wasi', b'-v', 'é☃'.encode(), b'\xff\xfe', b'a=b:c', b'--', b'a', b'"q\'\\n']
ENVS = [b'A=1', b'A=2', b'B=', b'C=x=y:z', b'D=\xff', 'Ä=ü'.encode(), b'E= ', b'LONG=' + b'v' * 300, b'NO', b'']
DIRS = ['a:a', 'b:b', '.:b', '/:a', 'c d:c:d', 'a:b', 'é:é', '/x/y:./a', b'\xff:a', ':a', 'link:la', 'none', 'm:missing', 'f:plain', '']


def names(box):
    for d in ('a', 'b', 'c:d', 'é'):
        os.mkdir(box + '/' + d)
        with open(box + '/' + d + '/id', 'wb') as f:
            f.write(b'in ' + d.encode())
    os.symlink('a', box + '/la')
    with open(box + '/plain', 'wb') as f:
        f.write(b'plain')


def model(box, args, envs, dirs, stdin):
    e, d = {}, {}
    for x in envs:
        if b'=' not in x:
            return None
        k, v = x.split(b'=', 1)
        e[k] = v
    for x in dirs:
        x = os.fsencode(x)
        if b':' not in x:
            return None
        k, v = x.split(b':', 1)
        d[os.path.normpath(k)] = v
    out = []
    for k, v in d.items():
        try:
            with open(box.encode() + b'/' + v + b'/id', 'rb') as f:
                out.append((k, f.read()))
        except OSError:
            return None
    return [b'p.wasm', *args], sorted(k + b'=' + v for k, v in e.items()), sorted(out), stdin


def line(args, envs, dirs, place, apart):
    out = []
    for k, vs in (('args', args), ('envs', envs), ('dirs', dirs)):
        for v in vs:
            v = os.fsencode(v)
            out += [[b'--wasi-' + k.encode(), v]] if apart else [[b'--wasi-' + k.encode() + b'=' + v]]
    out.insert(0, [b'--wasi', b'preview1'])
    out.insert(min(place, len(out)), [b'p.wasm'])
    return [y for x in out for y in x]


def combine(ctx, sizes, part, of, real, code):
    start(ctx, _combine, sizes, part, of, real, code)


def _combine(ctx, box, sizes, part, of, real, code):
    run = Runner(box)
    names(box)
    with open(box + '/p.wasm', 'wb') as f:
        f.write(dumper(code))
    go = run.real if real else run.fork
    n = 0
    for args in itertools.product(ARGS, repeat=sizes[0]):
        for envs in itertools.product(ENVS, repeat=sizes[1]):
            for dirs in itertools.product(DIRS if sizes[2] < 3 or ctx.tier != 'quick' else DIRS[:7] + DIRS[-6:-3:2], repeat=sizes[2]):
                n += 1
                if n % of != part:
                    continue
                stdin = [b'', b'in', b'\0\xff\n'][n % 3]
                places = range(sum(sizes) + 2) if sum(sizes) <= 1 or n % 7 == 0 else [n % (sum(sizes) + 2)]
                raw = {os.fsencode(x).partition(b':')[0] for x in dirs}
                if len({os.path.normpath(x) for x in raw}) < len(raw):
                    continue        # two spellings of one name
                want = model(box, args, envs, dirs, stdin)
                if sizes[0] and want is not None and any(len(x) > 512 for x, _ in want[2]):
                    continue
                for p in places:
                    argv = line(args, envs, dirs, p, False)
                    shown(ctx, 'wasi %d %d %d' % sizes, argv, go(argv, stdin), want, code & 0xff)
                if not any(os.fsencode(x).startswith(b'-') for x in (*args, *envs, *dirs)) and (n % 7 == 1 or sum(sizes) == 1):
                    argv = line(args, envs, dirs, n % (sum(sizes) + 2), True)
                    shown(ctx, 'wasi apart', argv, go(argv, stdin), want, code & 0xff)
                if ctx.full:
                    return
    ctx.sample({'sizes': sizes, 'line': [os.fsdecode(x) for x in line(ARGS[:sizes[0]], ENVS[:sizes[1]], DIRS[:sizes[2]], 0, False)]})


CODES = [0, 1, 2, 3, 42, 77, 100, 120, 125, 126, 127, 128, 129, 130, 137, 139, 143, 200, 254, 255, 256, 257, 511, 512, 65536, 0x7fffffff,
         0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 'return', 'trap']


def many(ctx, real):
    start(ctx, _many, real)


def _many(ctx, box, real):
    """Many options of a kind, and long ones; names and values in an order which is not that of the alphabet."""
    globals().update(BIG)
    run = Runner(box)
    for i in range(60):
        os.mkdir('%s/h%d' % (box, i))
        with open('%s/h%d/id' % (box, i), 'wb') as f:
            f.write(b'in %d' % i)
    with open(box + '/p.wasm', 'wb') as f:
        f.write(dumper(9))
    go = run.real if real else run.fork
    x = lambda i: i * 37 % 101
    counts = [(0, 0, 0), (4, 4, 4), (9, 9, 6), (10, 10, 10), (11, 11, 11), (17, 17, 17), (33, 33, 33), (57, 57, 57), (300, 0, 0), (0, 300, 0), (1, 1, 57),
              (256, 256, 3), (800, 2, 2), (2, 800, 2)]
    for na, ne, nd in counts:
        for form in range(3):
            args = [b'a%d' % x(i) if form == 0 else b'%d' % i * (20 if form == 1 else i % 120) for i in range(na)]
            envs = [b'K%d=%d' % ((x(i) if i < 101 else i, i) if form == 0 else (i, i) if form == 1 else (i // 2, i)) for i in range(ne)]
            dirs = ['g%d:h%d' % ((x(i), i) if form == 0 else (i, nd - 1 - i) if form == 1 else (i, i // 2)) for i in range(nd)]
            want = model(box, args, envs, dirs, b'in')
            argv = line(args, envs, dirs, (0, 1, 10 ** 6)[form], False)
            if sum(len(a) + 1 for a in args) < 60000 and sum(len(a) + 10 for a in argv) < 100000:
                shown(ctx, 'many', argv, go(argv, b'in'), want, 9)
    for n in (127, 128, 255, 256, 257, 4096, 32767, 65536):
        for k in range(3):
            opts = [[], [], []]
            opts[k] = [[b'v' * n], [b'K=' + b'v' * n], ['g' * min(n, 500) + ':h1']][k]
            argv = line(*opts, 1, False)
            shown(ctx, 'long', argv, go(argv, b'in'), model(box, *opts, b'in'), 9)


def codes(ctx, part, of):
    start(ctx, _codes, part, of)


def _codes(ctx, box, part, of):
    run = Runner(box)
    names(box)
    todo = CODES + [x for x in range(256) if x not in CODES]
    for i, c in enumerate(todo):
        if i % of != part:
            continue
        with open(box + '/p.wasm', 'wb') as f:
            f.write(dumper(c if c == 'trap' or c == 'return' else c - (1 << 32) if c >> 31 else c))
        want = model(box, [b'x'], [b'K=V'], ['a:a'], b'i')
        for go in (run.real, run.fork) if c in CODES else (run.fork,):
            shown(ctx, 'exit %s' % c, [c], go(line([b'x'], [b'K=V'], ['a:a'], 0, False), b'i'), want, {'return': 0, 'trap': 1}.get(c, c if isinstance(c, int) and c < 256 else c & 0xff if isinstance(c, int) else None))


def files(ctx):
    start(ctx, _files)


def _files(ctx, box):
    """The file, however it is named, and what the program finds as its own name."""
    run = Runner(box)
    names(box)
    os.makedirs(box + '/d/.e')
    spell = [b'p.wasm', b'./p.wasm', b'.//./p.wasm', b'd/../p.wasm', b'd/.e/../../p.wasm', b'../' + os.path.basename(box).encode() + b'/p.wasm', os.fsencode(box) + b'/p.wasm',
             b'd/.e/q', b'.hidden', b'..x', b' ', b'two words.wasm', b'p', b'P.WASM', 'é☃.wasm'.encode(), b'\xff.wasm', b'a=b', b'c:x', b'0', b'la.wasm', b"q'\"\\n",
             b'~', b'$HOME', b'*', b'%s', b'@p.wasm']
    for k in spell:
        f = os.path.join(os.fsencode(box), k)
        if not os.path.exists(f):
            with open(f, 'wb') as g:
                g.write(dumper(7))
    for k in spell:
        for place in (0, 2, 10):
            argv = [k if x == b'p.wasm' else x for x in line([b'one', k], [b'A=1'], ['a:a'], place, False)]
            want = model(box, [b'one', k], [b'A=1'], ['a:a'], b'')
            want = ([k] + want[0][1:],) + want[1:]
            for go in (run.real, run.fork):
                shown(ctx, 'file', argv, go(argv), want, 7)


def broken(ctx):
    start(ctx, _broken)


def _broken(ctx, box):
    """Programs which cannot start."""
    run = Runner(box)
    names(box)
    good = dumper(0)
    m = asm.Mod()
    m.import_func(NS, 'nosuch', [], [])
    m.func([], [], export='_start')
    s = asm.Mod()
    s.mem(1, export='memory')
    s.func([], [], export='start')
    g = asm.Mod()
    g.mem(1, export='_start')
    p = asm.Mod()
    p.mem(1, export='memory')
    p.func([I32], [], export='_start')
    st = asm.Mod()
    st.mem(1, export='memory')
    x = st.func([], [], body=op('unreachable'))
    st.func([], [], export='_start')
    st.start(x)
    for k, b in {'import': m.build(), 'nostart': s.build(), 'memory': g.build(), 'params': p.build(), 'starttrap': st.build(), 'cut': good[:-3],
                 'empty': b''}.items():
        with open(box + '/p.wasm', 'wb') as f:
            f.write(b)
        for go in (run.real, run.fork):
            shown(ctx, 'broken %s' % k, [k], go(line([], [], [], 0, False)), None, None)
    os.unlink(box + '/p.wasm')
    for go in (run.real, run.fork):
        shown(ctx, 'broken missing', [], go(line([], [], [], 0, False)), None, None)


def jobs(tier):
    q = tier == 'quick'
    out = [('requests', ()), ('broken', ()), ('files', ()), ('many', (False,)), ('many', (True,))]
    out += [('codes', (i, 8)) for i in range(8)]
    out += [('signature', ((), 0, 1, True)), ('signature', ((), 0, 1, False))]
    for t in TYPES + [FUNCREF, EXTERNREF]:
        out += [('signature', ((t,), i, 2, True)) for i in range(2)]
        out += [('signature', ((t,), 0, 1, False))]
    for a in TYPES:
        for b in TYPES:
            out += [('signature', ((a, b), 0, 1, False))]
    out += [('signature', ((a, b), 0, 1, False)) for a, b in ((I32, FUNCREF), (EXTERNREF, I32))]
    if not q:
        out += [('signature', (s, 0, 1, False)) for s in itertools.product(TYPES, repeat=3)]
    for i, k in enumerate([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]):
        out += [('combine', (k, j, 4, True, 10 + i)) for j in range(4)]
    for i, k in enumerate([(2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (1, 0, 1), (0, 1, 1)]):
        out += [('combine', (k, 0, 1, False, 20 + i))]
    for i, k in enumerate([(3, 0, 0), (0, 3, 0), (0, 0, 3), (1, 1, 1)] + ([] if q else [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 0), (2, 0, 2), (0, 2, 2)])):
        of = 8 if q else 16
        out += [('combine', (k, j, of, False, 30 + i)) for j in range(of)]
    return out
