"""C16: tracing (pywasm.log.lvl) shows what is executed and changes nothing."""
import contextlib
import io
import itertools
import math
import re
import struct

import pywasm

from .. import asm, mods, rt, wasi
from ..asm import op, lget, lset, i32c, i64c, I32, I64, F32, F64, V128, FUNCREF, EXTERNREF
from . import C15

LEVEL = 'model_checking'
RULE = ('every program is decoded, instantiated and run with tracing off and with tracing on and must give the same results, errors, '
        'memory, host calls and WASI output; the trace must hold the mnemonics of the instructions executed, in the order of execution (which '
        'host calls placed in the program record independently). Every pattern of switching tracing on and off between the steps of a '
        'history. With tracing off nothing is printed. Non-trivial: tracing on at some point.')
ASSUMPTIONS = ['the standard output that a trace goes to accepts it']
BOUNDS = {'quick': 'every instruction; with every combination of boundary operands; modules with up to 257 of everything; every nesting of up to 3 block kinds with every branch depth and 3 arguments; all value types with '
          'boundary values; all truncations of 6 modules; 17 programs; every on-off pattern of 5 steps',
          'thorough': 'nestings of up to 4'}
ONCE = {'call', 'call_indirect', 'br', 'br_if', 'br_table', 'return', 'unreachable', 'nop', 'drop', 'select', 'select_type', 'block', 'loop', 'if', 'else'}
MNEMONIC = {n: 'select' if n == 'select_type' else n if n in ONCE else n.replace('_', '.', 1) for n in asm.OPS}
WORD = re.compile(r'pywasm:\s+(\S+)(.*)')


class Out(io.StringIO):
    name = '<stdout>'

    def fileno(self):
        return 1


@contextlib.contextmanager
def tracing(level):
    out = Out()
    was = pywasm.log.lvl
    pywasm.log.lvl = level
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        pywasm.log.lvl = was


def traced(out):
    """(mnemonic, rest) of every line that shows an instruction."""
    names = set(MNEMONIC.values())
    return [(m.group(1), m.group(2).strip()) for m in map(WORD.search, out.getvalue().splitlines()) if m and m.group(1) in names]


def both(ctx, name, f):
    """Runs f with tracing off and on; returns the trace if nothing differs."""
    with tracing(0) as out:
        a = outcome(f)
    if out.getvalue():
        ctx.viol('%s: quiet' % name, 'with tracing off this is printed: %.300r' % out.getvalue())
    with tracing(1) as out:
        b = outcome(f)
    ctx.ev()
    ctx.transitions += 1
    ctx.outcome('refused' if a.startswith('refused') else 'runs')
    if a != b:
        ctx.viol(name, 'with tracing off %.300s, with tracing on %.300s' % (a, b))
    return out


def outcome(f):
    try:
        return repr(f())
    except Exception as e:
        return 'refused: %s' % type(e).__name__


def run(b, calls):
    """Decodes, instantiates and calls."""
    r = pywasm.core.Runtime()
    log = mods.env(r)
    inst = r.instance(rt.decode(b))
    out = []
    for f, args in calls:
        x = rt.call(r, inst, f, args)
        out.append('trap' if isinstance(x, rt.Trap) else x)
    return out, log, [bytes(m.data[:64]) for m in r.machine.store.mems]


# ---- instructions

def body(o, ps, im):
    return b''.join(lget(i) for i in range(len(ps))) + op(o) + im


def plain():
    """name -> (parameters, results, immediate, arguments)"""
    out = {o: (ps, [r], im, [C15.VAL[t][i & 1] for i, t in enumerate(ps)]) for o, (ps, r, im) in C15.instructions().items()}
    car = {'i32': I32, 'i64': I64, 'f32': F32, 'f64': F64, 'v128': V128}
    for o in asm.OPS:
        t = car.get(o.split('_')[0])
        lane = b'\1' if o.endswith('_lane') else b''
        if '_load' in o:
            ps = [I32, V128] if lane else [I32]
            out[o] = (ps, [t], b'\0\x08' + lane, [8, C15.VAL[V128][0]][:len(ps)])
        elif '_store' in o:
            out[o] = ([I32, t], [] , b'\0\x08' + lane, [16, C15.VAL[t][0]])
    out.update({
        'memory_size': ([], [I32], b'\0', []), 'memory_grow': ([I32], [I32], b'\0', [1]), 'memory_fill': ([I32] * 3, [], b'\0', [1, 2, 3]),
        'memory_copy': ([I32] * 3, [], b'\0\0', [1, 2, 3]), 'memory_init': ([I32] * 3, [], b'\0\0', [1, 2, 3]), 'data_drop': ([], [], b'\0', []),
        'table_get': ([I32], [EXTERNREF], b'\0', [1]), 'table_set': ([I32, EXTERNREF], [], b'\0', [1, 7]), 'table_size': ([], [I32], b'\0', []),
        'table_grow': ([EXTERNREF, I32], [I32], b'\0', [7, 1]), 'table_fill': ([I32, EXTERNREF, I32], [], b'\0', [1, 7, 2]),
        'table_copy': ([I32] * 3, [], b'\0\0', [0, 1, 1]), 'table_init': ([I32] * 3, [], b'\0\0', [0, 0, 1]), 'elem_drop': ([], [], b'\0', []),
        'ref_null': ([], [EXTERNREF], bytes([EXTERNREF]), []), 'ref_is_null': ([EXTERNREF], [I32], b'', [None]), 'ref_func': ([], [FUNCREF], b'\0', []),
        'global_get': ([], [I64], b'\0', []), 'global_set': ([I64], [], b'\0', [-5]), 'i32_const': ([], [I32], asm.s(-7), []),
        'i64_const': ([], [I64], asm.s(-1 << 50), []), 'f32_const': ([], [F32], bytes(4), []), 'f64_const': ([], [F64], bytes(8), []),
        'v128_const': ([], [V128], bytes(range(16)), []), 'drop': ([I32], [], b'', [1]), 'nop': ([], [], b'', []), 'select': ([I32] * 3, [I32], b'', [1, 2, 3]),
        'select_type': ([I64, I64, I32], [I64], b'\1' + bytes([I64]), [1, 2, 0]), 'local_get': ([F32], [F32, F32], b'\0', [2.5]),
        'local_set': ([I32], [], b'\0', [1]), 'local_tee': ([I32], [I32], b'\0', [1]), 'call': ([I32], [I32], b'\0', [4]), 'unreachable': ([], [], b'', []),
        'return': ([I32], [I32], b'', [4]), 'call_indirect': ([I32], [], b'\0\1', [0]), 'br': ([I32], [I32], b'\0', [9]), 'br_if': ([I32], [], b'\0', [1]),
        'br_table': ([I32], [], asm.vec([asm.u(0), asm.u(0)]) + b'\0', [1]), 'block': ([], [I32], bytes([I32]) + i32c(5) + op('end'), []),
        'loop': ([], [I32], bytes([I32]) + i32c(5) + op('end'), []), 'if': ([I32], [I32], bytes([I32]) + i32c(5) + op('else') + i32c(6) + op('end'), [0]),
    })
    return out


def holder(ps, rs, im, o):
    m = asm.Mod()
    h = m.import_func('e', 'h', [I32], [I32])
    m.mem(1, 3)
    m.data_passive(b'0123456789')
    m.table(EXTERNREF, 3, 9)
    m.table(FUNCREF, 3, 9)
    m.elem_passive_expr(EXTERNREF, [op('ref_null', bytes([EXTERNREF]))]) if o in ('table_init', 'elem_drop') else None
    m.glob(I64, 1, i64c(3))
    m.func(ps, rs, body=body(o, ps, im), export='f')
    return m.build()


EDGE = {I32: [0, 1, -1, 31, 65535, -(1 << 31), (1 << 31) - 1], I64: [0, 1, -1, 63, -(1 << 63), (1 << 63) - 1],
        F32: [0.0, -0.0, 1.5, -1e30, 2.0 ** 31, math.inf, -math.inf, math.nan], F64: [0.0, -0.0, 1.5, -1e300, 2.0 ** 63, math.inf, -math.inf, math.nan],
        V128: [bytearray(16), bytearray(b'\xff' * 16), bytearray(b'\0\0\xc0\x7f' * 4), bytearray(b'\0\0\x80\xff\0\0\xf0\x7f' * 2),
               bytearray(b'\x80' * 16), bytearray(range(16))],
        FUNCREF: [None, 0], EXTERNREF: [None, 0, 7]}


def edges(ctx, part, of):
    """Every instruction with every combination of boundary values of its operands."""
    for n, (o, (ps, rs, im, args)) in enumerate(plain().items()):
        if n % of != part or not ps:
            continue
        b = holder(ps, rs, im, o)
        few = 3 if len(ps) > 2 else 99
        for vals in itertools.product(*(EDGE[t][:1] + EDGE[t][1 - few:] if few < 99 else EDGE[t] for t in ps)):
            vals = [1 if o == 'memory_grow' and v in (65535, (1 << 31) - 1) else v for v in vals]
            if o == 'table_grow' and vals[1] > 31:
                continue
            both(ctx, '%s%r' % (o, vals), lambda: run(b, [('f', [bytearray(v) if isinstance(v, bytearray) else v for v in vals])]))
            ctx.states += 1
            if ctx.full:
                return


def large(ctx):
    """Many of everything, long runs, and long names and segments."""
    cases = {}
    for n in (9, 17, 65, 129, 257):
        m = asm.Mod()
        h = m.import_func('e', 'h', [I32], [I32])
        m.mem(1, 3)
        m.table(FUNCREF, n, n)
        m.elem_active(i32c(0), [1 + i for i in range(n)])
        for i in range(n):
            m.glob(I64, 1, i64c(i))
            m.data_active(i32c(i), bytes([i & 255]) * 3)
        t = m.type([I32], [I32])
        for i in range(n):
            m.func([I32], [I32], export='f%d' % i, body=lget(0) + i32c(i) + op('i32_add') + (asm.call(i) if i else b''))
        m.func([I32], [I32], export='table', body=lget(0) + lget(0) + op('call_indirect', t, 0))
        m.func([I32] * n, [I32] * n, export='wide', locals=[I64, F64] * n, body=b''.join(lget(n - 1 - i) for i in range(n)))
        m.func([I32], [I32], export='br', body=op('block', b'\x40') * n + lget(0) + op('br_table', asm.vec([asm.u(i) for i in range(n)]) + asm.u(n - 1)) +
               b''.join(op('end') + i32c(i) + op('return') for i in range(n)) if n < 100 else lget(0))
        m.func([I32], [I32], export='loop', locals=[I32], body=op('loop', b'\x40') + asm.lget(1) + i32c(1) + op('i32_add') + asm.ltee(1) + lget(0) +
               op('i32_lt_s') + op('br_if', 0) + op('end') + lget(1))
        m.func([I32], [I32], export='rec', body=lget(0) + op('if', bytes([I32])) + lget(0) + i32c(1) + op('i32_sub') + asm.call(n + 5) + op('else') + i32c(n) +
               op('end'))
        b = m.build() + asm.sect(0, asm.name('note' * n) + b'x' * 300)
        calls = [('f%d' % (n - 1), [5]), ('wide', list(range(n))), ('loop', [n * 3]), ('rec', [n]), ('rec', [n * 9])]
        calls += [('table', [i]) for i in (0, 1, n // 2, n - 1, n, -1)] + [('br', [i]) for i in (0, 1, n - 2, n - 1, n, -1)]
        cases[n] = b, calls
    for n, (b, calls) in cases.items():
        out = both(ctx, 'large %d' % n, lambda: run(b, calls))
        with tracing(0):
            got = run(b, calls)[0]
        if got[1] != list(range(n))[::-1] or got[2] != [n * 3] or got[3] != [n]:
            ctx.viol('large %d' % n, 'the calls give %.300r' % (got,))
        ctx.states += 1


def instructions(ctx):
    todo = plain()
    missing = set(asm.OPS) - set(todo) - {'end', 'else'}
    assert not missing, missing
    for o, (ps, rs, im, args) in todo.items():
        b = holder(ps, rs, im, o)
        out = both(ctx, o, lambda: run(b, [('f', args)]))
        ctx.states += 1
        got = [n for n, _ in traced(out)]
        want = ['local.get'] * len(ps) + [MNEMONIC[o]]
        # Decoding lists the code once, execution shows it again.
        tail = got[-len(want):] if o not in ('block', 'loop', 'if', 'local_get') else want if MNEMONIC[o] in got else got
        if tail != want or got.count(MNEMONIC[o]) < 2:
            ctx.viol('%s: trace' % o, 'shows %r, executed was %r' % (got[-8:], want))
        ctx.outcome('instruction shown')


# ---- the order of execution

KINDS = ('block', 'loop', 'if', 'ifelse')


def nest(kinds, depth, n, mark, h):
    """Code of nested blocks: marks around everything, a conditional branch to every depth in the middle; local 0 counts down."""
    if not kinds:
        out = mark() + lget(0) + i32c(1) + op('i32_sub') + asm.ltee(0) + lget(1) + op('i32_and') + op('br_if', n) + mark()
        return out
    k, rest = kinds[0], kinds[1:]
    inner = nest(rest, depth + 1, n, mark, h)
    if k == 'block':
        code = op('block', b'\x40') + mark() + inner + mark() + op('end')
    elif k == 'loop':
        code = op('loop', b'\x40') + mark() + inner + mark() + op('end')
    else:
        code = lget(0) + op('if', b'\x40') + mark() + inner + mark() + (op('else') + mark() if k == 'ifelse' else b'') + op('end')
    return mark() + code + mark()


def order(ctx, depth):
    for d in range(depth + 1):
        for kinds in itertools.product(KINDS, repeat=d):
            for n in range(d + 1):
                count = itertools.count(1000)
                m = asm.Mod()
                h = m.import_func('e', 'h', [I32], [I32])
                mark = lambda: i32c(next(count)) + asm.call(h) + op('drop')
                m.func([I32, I32], [], body=nest(kinds, 0, n, mark, h) + mark(), export='f')
                b = m.build()
                marks = next(count) - 1000
                for a in ((0, 0), (1, 1), (3, 3)):
                    name = '%s, branch to %d, %s' % ('/'.join(kinds) or 'plain', n, a)
                    log = []

                    def go():
                        r = pywasm.core.Runtime()
                        log[:] = mods.env(r)
                        seen = mods.env(r)
                        inst = r.instance(rt.decode(b))
                        x = rt.call(r, inst, 'f', list(a))
                        log[:] = seen
                        return x, seen
                    out = both(ctx, name, go)
                    ctx.states += 1
                    ctx.outcome('order of execution')
                    shown = [int(w[1].split()[-1]) for w in traced(out) if w[0] == 'i32.const' and int(w[1].split()[-1]) >= 1000]
                    done = [x[0] for x in log]
                    # Decoding may list the code first.
                    if shown[-len(done):] != done or sorted(shown[:-len(done)]) not in ([], list(range(1000, 1000 + marks))):
                        ctx.viol('%s: order' % name, 'trace shows %r, executed was %r' % (shown, done))


# ---- values, malformed modules, programs, histories

VALUES = {
    I32: [0, 1, -1, -(1 << 31), (1 << 31) - 1], I64: [0, 1, -1, -(1 << 63), (1 << 63) - 1],
    F32: [0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1e-45], F64: [0.0, -0.0, 1e308, float('inf'), float('-inf'), float('nan'), 5e-324],
    V128: [bytearray(16), bytearray(b'\xff' * 16), bytearray(range(16))], EXTERNREF: [None, 0, 1, (1 << 31) - 1], FUNCREF: [None, 0],
}


def values(ctx):
    for t, u in itertools.product(VALUES, repeat=2):
        m = asm.Mod()
        h = m.import_func('e', 'any', [t, u], [u, t])
        m.glob(t, 1, op('ref_null', bytes([t])) if t in (FUNCREF, EXTERNREF) else
               {I32: i32c(5), I64: i64c(-5), F32: asm.f32c(0x7f800001), F64: asm.f64c(0xfff0000000000001), V128: asm.v128c(bytes(range(16)))}[t])
        m.func([t, u], [u, t], [(2, t), (1, u)], lget(0) + op('global_set', 0) + lget(0) + lget(1) + asm.call(h), export='f')
        b = m.build()
        for x, y in itertools.product(VALUES[t], VALUES[u]):
            def go():
                r = pywasm.core.Runtime()
                r.imports['e'] = {'any': rt.host(r, [t, u], [u, t], lambda m, a: [a[1], a[0]])}
                return rt.call(r, r.instance(rt.decode(b)), 'f', [x, y])
            both(ctx, '%s %r, %s %r' % (asm.NAMES.get(t, t), x, asm.NAMES.get(u, u), y), go)
            ctx.states += 1


def malformed(ctx, name):
    b = mods.ALL[name]()[0].build() if name != 'links' else C15.links_module()
    for n in range(len(b)):
        both(ctx, '%s cut at %d' % (name, n), lambda: rt.decode(b[:n]) and None)
        ctx.states += 1
    for n in range(8, len(b)):
        for x in (0, 0x0b, 0x40, 0x7f, 0x80, 0xff):
            c = bytearray(b)
            c[n] = x
            both(ctx, '%s with %02x at %d' % (name, x, n), lambda: rt.decode(bytes(c)) and None)


def strange(ctx):
    for s in ('', 'é', '\u0000', '\n', '\U0001f600', '%s', '{}', '\x1b[1m', 'a' * 1000, '\ufffe'):
        m = asm.Mod()
        m.glob(I32, 0, i32c(1), export=s + 'g')
        m.func([], [I32], body=i32c(4), export=s)
        b = m.build() + asm.sect(0, asm.name(s) + b'xyz\xff\0')
        both(ctx, 'name %.20r' % s, lambda: run(b, [(s, [])]))
        ctx.states += 1


def programs(ctx):
    wasi.unprivileged(ctx, _programs)


def _programs(ctx, box):
    for name, make in list(C15.PROGS.items()) + [(n, C15.program(f, pre)) for n, (pre, f) in C15.OPS.items()]:
        for v in (0, 1):
            def go():
                f = make(v, box)
                try:
                    return f()
                finally:
                    C15.close(f)
            both(ctx, 'program %s' % name, go)
            ctx.states += 1
    for name, f in mods.ALL.items():
        m, tests = f()
        b = m.build()
        both(ctx, 'module %s' % name, lambda: mods.behaves(b, tests))
        ctx.states += 1


def histories(ctx):
    """Tracing is switched between the steps, and by a host function in the middle of an execution."""
    for name, f in mods.ALL.items():
        m, tests = f()
        b = m.build()
        want = None
        for pattern in itertools.product((0, 1), repeat=5):
            steps = iter(pattern)
            out = Out()
            with tracing(0), contextlib.redirect_stdout(out):
                pywasm.log.lvl = next(steps)
                desc = rt.decode(b)
                r = pywasm.core.Runtime()
                log = mods.env(r)
                pywasm.log.lvl = next(steps)
                inst = r.instance(desc)
                got = []
                k = 0
                for g, a, _ in tests:
                    pywasm.log.lvl = pattern[2 + k % 3]
                    k += 1
                    x = rt.call(r, inst, g, a)
                    got.append('trap' if isinstance(x, rt.Trap) else repr(x))
            got.append(repr(log))
            ctx.ev(any(pattern))
            ctx.states += 1
            ctx.transitions += len(tests) + 2
            ctx.outcome('history')
            if not any(pattern) and out.getvalue():
                ctx.viol('%s quiet' % name, 'prints %.200r' % out.getvalue())
            if want is None:
                want = got
            elif got != want:
                ctx.viol('%s with tracing %s' % (name, pattern), 'gives %.300r, without %.300r' % (got, want))
    m = asm.Mod()
    h = m.import_func('e', 'set', [I32], [])
    m.func([I32, I32], [I32], body=lget(0) + asm.call(h) + i32c(5) + lget(1) + asm.call(h) + i32c(6) + op('i32_add'), export='f')
    b = m.build()
    for start, x, y in itertools.product((0, 1), repeat=3):
        with tracing(start) as out:
            r = pywasm.core.Runtime()
            r.imports['e'] = {'set': rt.host(r, [I32], [], lambda m, a: setattr(pywasm.log, 'lvl', a[0]) or [])}
            got = rt.call(r, r.instance(rt.decode(b)), 'f', [x, y])
        t = traced(out)
        n = len([1 for w in t if w == ('i32.const', '5')]), len([1 for w in t if w == ('i32.const', '6')])
        ctx.ev()
        ctx.transitions += 1
        if got != [11] or n != (start + x, start + y):
            ctx.viol('tracing %d, then %d, then %d' % (start, x, y), 'gives %r; constants shown %r times, expected %r' % (got, n, (start + x, start + y)))


def jobs(tier):
    return [('edges', (i, 6)) for i in range(6)] + [('large', ())] + [('order', (3 if tier == 'quick' else 4,)), ('values', ()), ('programs', ()), ('histories', ()), ('instructions', ()), ('strange', ())] + \
        [('malformed', (n,)) for n in list(mods.ALL) + ['links']]
