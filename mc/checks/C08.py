"""C08: structured control flow."""
import functools
import itertools
from .. import asm, rt, ctl
from ..asm import I32

LEVEL = 'model_checking'
RULE = ('every well-typed program over a small control alphabet up to a size bound (blocks, loops, if/else with and '
        'without parameters and results, br, br_if, br_table, return, locals, a side-effecting host call), and every '
        'nest of up to three typed constructs with operands left underneath and a branch of every kind to every label; '
        'each program is run for three inputs, directly and from a caller that checks its own stack and locals. States '
        'are distinct programs, transitions are executions compared with a big-step reference evaluator. Non-trivial: '
        'the program branches, loops or leaves a construct early, or logs a side effect.')
ASSUMPTIONS = ['operands are i32 (the control instructions do not look at value types)',
               'programs for which the reference needs more than 400 steps are skipped and counted',
               'dead code after an unconditional branch is not generated']
BOUNDS = {'quick': 'all programs of size <= 5 in the small alphabet; nests of depth 2 in full and depth 3 thinned',
          'thorough': 'all programs of size <= 6; nests of depth 3 in full'}

BTS = [(0, 0), (0, 1), (1, 1), (1, 0)]
MAXH = 3


@functools.lru_cache(None)
def seqs(size, h, labels, want):
    """Every body of exactly `size` that starts at height h and ends at height `want` or with a transfer of control.
    labels: arities of the enclosing labels, innermost last; the outermost is the function's."""
    if size == 0:
        return ((),) if h == want else ()
    out = []

    def rest(ins, cost, nh):
        if nh > MAXH:
            return
        for r in seqs(size - cost, nh, labels, want):
            out.append((ins,) + r)
    rest(('const', None), 1, h + 1)
    rest(('get', 0), 1, h + 1)
    rest(('get', 1), 1, h + 1)
    if h >= 1:
        rest(('set', 1), 1, h - 1)
        rest(('log',), 1, h - 1)
    if h >= 2:
        rest(('sub',), 1, h - 1)
    n = len(labels)
    for k in range(n):
        a = labels[n - 1 - k]
        if h >= a and size == 1:
            out.append((('br', k),))
        if h - 1 >= a:
            rest(('br_if', k), 1, h - 1)
    if size == 1 and h >= 1:
        out.append((('return',),))
    if size == 1:
        for k in range(n):
            for d in range(n):
                if k != d and labels[n - 1 - k] == labels[n - 1 - d] and h - 1 >= labels[n - 1 - k]:
                    out.append((('br_table', (k,), d),))
    for inner in range(0, size):
        for t in BTS:
            if h >= t[0]:
                for b in seqs(inner, t[0], labels + (t[1],), t[1]):
                    rest(('block', t, b), 1 + inner, h - t[0] + t[1])
                for b in seqs(inner, t[0], labels + (t[0],), t[1]):
                    if uses(b):
                        rest(('loop', t, b), 1 + inner, h - t[0] + t[1])
            if h - 1 >= t[0]:
                for x in range(0, inner + 1):
                    if x < inner or inner == 0:
                        continue
                    for a in seqs(inner, t[0], labels + (t[1],), t[1]):
                        if t[0] == t[1]:
                            rest(('if', t, a, ()), 1 + inner, h - 1 - t[0] + t[1])
                for x in range(1, inner):
                    for a in seqs(x, t[0], labels + (t[1],), t[1]):
                        for b in seqs(inner - x, t[0], labels + (t[1],), t[1]):
                            rest(('if', t, a, b), 1 + inner, h - 1 - t[0] + t[1])
    return tuple(out)


def uses(body, d=0):
    """Does the body branch to its own label (otherwise a loop behaves as a block)?"""
    for ins in body:
        if ins[0] in ('br', 'br_if') and ins[1] == d:
            return True
        if ins[0] == 'br_table' and (d in ins[1] or ins[2] == d):
            return True
        if ins[0] in ('block', 'loop') and uses(ins[2], d + 1):
            return True
        if ins[0] == 'if' and (uses(ins[2], d + 1) or uses(ins[3], d + 1)):
            return True
    return False


def interesting(body):
    return any(ins[0] in ('br', 'br_if', 'br_table', 'return', 'loop', 'log') or
               (ins[0] == 'block' and interesting(ins[2])) or
               (ins[0] == 'if' and (interesting(ins[2]) or interesting(ins[3]))) for ins in body)


def batch(ctx, bodies, rets=1, inputs=(0, 1, 2), fuel=400):
    """Compile the bodies into one module, run them, compare."""
    m = asm.Mod()
    m.import_func('env', 'log', [I32], [])
    funcs = []
    for i, b in enumerate(bodies):
        funcs.append((1, rets, 2, b))
        m.func([I32], [I32] * rets, [(2, I32)], ctl.encode(m, b), export='f%d' % i)
        # the caller leaves an operand and a local value in place across the call
        c = (('const', 77), ('set', 1), ('const', 500), ('get', 0), ('call', 2 * i + 1), ('get', 1))
        funcs.append((1, rets + 2, 1, c))
        m.func([I32], [I32] * (rets + 2), [I32], ctl.encode(m, c), export='c%d' % i)
    log = []
    r = rt.pywasm.core.Runtime()
    r.imports['env'] = {'log': rt.host(r, [I32], [], lambda machine, a: log.append(a[0]) or [])}
    b = m.build()
    inst = r.instance(rt.decode(b))
    for i, body in enumerate(bodies):
        ctx.states += 1
        nt = interesting(body)
        for x in inputs:
            for who in ('f', 'c'):
                ref = ctl.Ref(funcs, fuel)
                try:
                    want = [ctl.sx(v, 32) for v in ref.call(1 + 2 * i + (who == 'c'), [x & ctl.M32])]
                except ctl.Fuel:
                    ctx.note('skipped_nonterminating')
                    break
                except ctl.RTrap:
                    want = rt.TRAP
                del log[:]
                got = rt.call(r, inst, '%s%d' % (who, i), [x])
                ctx.ev(nt)
                ctx.transitions += 1
                ctx.traces += 1
                if got != want or log != ref.log:
                    ctx.viol('%s(%d) %s' % (who, x, ctl.show(body)), 'got %r log %r, expected %r log %r' % (
                        got, log, want, ref.log), {'program': ctl.show(body), 'input': x, 'module': b.hex()
                                                   if len(bodies) < 4 else None})
                    if ctx.full:
                        return
                    # start over with a clean runtime
                    r2 = rt.pywasm.core.Runtime()
                    r2.imports['env'] = {'log': rt.host(r2, [I32], [], lambda machine, a: log.append(a[0]) or [])}
                    r, inst = r2, r2.instance(rt.decode(b))
                elif ctx.transitions % 5003 == 1:
                    ctx.sample({'program': ctl.show(body), 'input': x, 'via': who, 'result': repr(got), 'log': list(log)})
                ctx.outcome('%s/%d logs' % ('trap' if isinstance(got, rt.Trap) else 'value', len(log)))


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def programs(ctx, size, part, parts):
    allp = seqs(size, 0, (1,), 1)
    for c in chunks((ctl.number(b) for i, b in enumerate(allp) if i % parts == part), 200):
        batch(ctx, c)
        if ctx.full:
            return


# ------------------------------------------------------------------------------------------------------- nests
KINDS = ('block', 'loop', 'then', 'else')
TYPES = ((0, 0), (0, 1), (1, 1), (2, 1), (1, 2), (0, 2))


def ends(depth):
    """How the innermost code leaves: every transfer of control to every label (depth = the function's)."""
    for k in range(depth + 1):
        yield ('br', k)
        yield ('br_if', k, 1)
        yield ('br_if', k, 0)
    for i in (0, 1, 2):
        yield ('table', i)
    yield ('return',)
    yield ('fall',)
    yield ('trap',)


def nest(levels, end, ctr=None):
    """levels: outermost first, (kind, type, junk). Leaves one value. Branches to a loop are taken once (local 1)."""
    ctr = [1000]

    def c():
        ctr[0] += 1
        return ('const', ctr[0])

    arity = [1] + [(t[0] if kind == 'loop' else t[1]) for kind, t, _ in levels]      # outermost = function

    def inner():
        out = [('get', 1), ('const', 1), ('add',), ('set', 1)]
        once = (('get', 1), ('const', 1), ('eq',))
        e = end[0]
        n = len(levels)
        if e in ('br', 'br_if'):
            a = arity[n - end[1]]
            # first time only, so that loops terminate
            if e == 'br':
                body = tuple(c() for _ in range(a + 1)) + (('br', end[1] + 1),)
                out += list(once) + [('if', (0, 0), body, ())]
            else:
                out += [c() for _ in range(a + 1)]
                out += [('get', 1), ('const', 1 if end[2] else 7), ('eq',), ('br_if', end[1])]
                out += [('log',)] * (a + 1)
        elif e == 'table':
            a = arity[n]
            ks = [k for k in range(n + 1) if arity[n - k] == a]
            if len(ks) < 1:
                return None
            body = tuple(c() for _ in range(a)) + (('const', end[1]), ('br_table', tuple(k + 1 for k in ks), 1))
            out += list(once) + [('if', (0, 0), body, ())]
        elif e == 'return':
            out += list(once) + [('if', (0, 0), (c(), c(), ('return',)), ())]
        elif e == 'trap':
            out += list(once) + [('if', (0, 0), (('get', 0), ('if', (0, 0), (('unreachable',),), ())), ())]
        return out

    def level(i):
        if i == len(levels):
            return inner()
        kind, t, junk = levels[i]
        sub = level(i + 1)
        if sub is None:
            return None
        body = [('log',)] * t[0] + sub + [c() for _ in range(t[1])]
        out = [c() for _ in range(junk)] + [c() for _ in range(t[0])]
        if kind in ('block', 'loop'):
            out.append((kind, t, tuple(body)))
        else:
            other = tuple([('log',)] * t[0] + [c() for _ in range(t[1])])
            out += [('const', 5 if kind == 'then' else 0)]
            out.append(('if', t, tuple(body), other) if kind == 'then' else ('if', t, other, tuple(body)))
        out += [('log',)] * (t[1] + junk)
        return out

    b = level(0)
    return None if b is None else tuple(b + [c()])


def nests(ctx, depth, first, thin):
    if depth == 1:
        lv = [[(k, t, j)] for k in KINDS for t in TYPES for j in (0, 1, 2)]
    else:
        rest = [(k, t, j) for k in KINDS for t in TYPES for j in (0, 1)]
        if thin:
            rest = [(k, t, j) for k, t, j in rest if (KINDS.index(k) + TYPES.index(t)) % 2 == j and k != 'else' and
                    t in ((0, 0), (0, 1), (2, 1), (1, 2))]
        lv = [[tuple(first)] + list(x) for x in itertools.product(rest, repeat=depth - 1)]
    progs = (p for levels in lv for e in ends(depth) for p in [nest([(a, tuple(b), d) for a, b, d in levels], e)] if p)
    for c in chunks(progs, 100):
        batch(ctx, c, inputs=(0, 1))
        if ctx.full:
            return


def rets2(ctx):
    """Functions with no result and with several results, left by a branch to the function label, return, or the end."""
    for rets in (0, 2, 3):
        v = tuple(('const', 40 + i) for i in range(rets))
        j = (('const', 9), ('const', 8))
        bodies = [v, j + v + (('return',),), j + v + (('br', 0),),
                  (('block', (0, 0), j + v + (('br', 1),)),) + tuple(('const', 1) for _ in range(rets)),
                  (('loop', (0, 0), j + v + (('br', 1),)),) + tuple(('const', 1) for _ in range(rets)),
                  j + v + (('get', 0), ('br_if', 0)) + v[::-1] + (('return',),),
                  j + v + (('get', 0), ('br_table', (0, 0), 0)),
                  (('block', (0, rets), j + v + (('get', 0), ('br_table', (0, 1), 0))),)]
        batch(ctx, [tuple(b) for b in bodies], rets=rets)


# ------------------------------------------------------------------------------------------------------- scale
def deep(depth, k, junk, arity, kind, loop):
    """`depth` nested blocks giving `arity` values each, one operand left underneath every one of them; in the innermost, `junk`
    operands, then a branch to label k. Loops (entered with `arity` parameters) are gone round once."""
    vals = tuple(('const', 100 + i) for i in range(arity))
    end = {'br': (('br', k),), 'br_if': (('const', -1), ('br_if', k)), 'table': (('const', 1), ('br_table', (0, k, 0), 0)),
           'default': (('const', -1), ('br_table', (0,), k)), 'return': (('return',),)}[kind]
    if loop:
        # the first time only, otherwise fall out at the end
        vals = (('const', 7),) * arity
    body = tuple(('const', 9000 + i) for i in range(junk)) + vals + end
    if kind == 'br_if':
        body += (('drop',),) * junk if not arity else (('drop',),) * (junk + arity) + vals
    if loop:
        body = (('drop',),) * arity + (('get', 1), ('const', 1), ('add',), ('set', 1), ('get', 1), ('const', 1), ('eq',),
                                       ('if', (0, 0), shift(body[:-1] if kind == 'br_if' and not arity and junk else body), ())) + vals
    for i in range(depth):
        lead = (('const', 50 + i),) + (vals if loop else ())
        body = lead + (('loop' if loop else 'block', (arity if loop else 0, arity), body),)
        # what was left underneath is still there
        body += (('log',),) * arity + (('log',),) + (vals if i < depth - 1 else ())
        if i < depth - 1 and loop:
            body = (('drop',),) * arity + body
    return body + (('get', 1),)


def shift(body):
    """The same code inside one more construct."""
    out = []
    for ins in body:
        if ins[0] in ('br', 'br_if'):
            ins = (ins[0], ins[1] + 1)
        elif ins[0] == 'br_table':
            ins = ('br_table', tuple(x + 1 for x in ins[1]), ins[2] + 1)
        out.append(ins)
    return tuple(out)


def scale(ctx, depth, tier):
    """Sizes far beyond those of the exhaustive part: every combination of nesting, label, operands left over and carried."""
    ks = sorted({0, 1, 2, depth // 2, depth - 2, depth - 1} & set(range(depth)))
    junks = (0, 1, 8, 17, 40) if tier == 'quick' else (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130)
    ars = (0, 1, 9, 17) if tier == 'quick' else (0, 1, 2, 3, 8, 9, 16, 17, 33, 64, 65)
    progs = []
    for k, junk, ar, kind in itertools.product(ks, junks, ars, ('br', 'br_if', 'table', 'default')):
        progs.append(deep(depth, k, junk, ar, kind, False))
        if kind == 'br':
            progs.append(deep(depth, k, junk, ar, kind, True))
    for junk in junks:
        progs.append(deep(depth, 0, junk, 1, 'return', False))
    for c in chunks(progs, 60):
        batch(ctx, c, inputs=(0,), fuel=100000)
        if ctx.full:
            return


def tables(ctx, n):
    """br_table with n entries, which go round four labels, at indices around its bounds."""
    at = sorted({0, 1, 2, n - 2, n - 1, n, n + 1, 127, 128, 255, 256, 257, 65536, 0x7fffffff, 0x80000000, 0xffffffff} - {-1, -2})
    body = (('get', 0), ('br_table', tuple(i % 4 for i in range(n)), 4))
    for i in range(5):
        body = (('block', (0, 0), body), ('const', 10 + i), ('log',))
    batch(ctx, [body + (('get', 0),)], inputs=[ctl.sx(i, 32) for i in at], fuel=10000)


def types(ctx):
    """Blocks, loops and conditionals of 160 different types, by index."""
    import pywasm
    m = asm.Mod()
    sigs = [[asm.I64 if n >> i & 1 else I32 for i in range(n.bit_length() - 1)] for n in range(1, 160)]
    for p in sigs:
        m.type(p, p)
    for i, p in enumerate(sigs):
        push = b''.join(asm.i32c(i + j) if t == I32 else asm.i64c(i + j) for j, t in enumerate(p))
        for o in ('block', 'loop', 'if'):
            m.func([], p, body=push + (asm.i32c(1) if o == 'if' else b'') + asm.op(o) + asm.s(i) + b'\x0b', export='%s%d' % (o, i))
    r = pywasm.core.Runtime()
    q = r.instance(rt.decode(m.build()))
    for i, p in enumerate(sigs):
        for o in ('block', 'loop', 'if'):
            ctx.ev()
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            got = rt.call(r, q, '%s%d' % (o, i), [])
            if got != [i + j for j in range(len(p))]:
                ctx.viol('type:%s:%d' % (o, i), '%s of type %d gave %r' % (o, i, got))


def rounds(ctx, arity, junk):
    """A loop gone round 3000 times with operands left over each time, with an inner block left early each time."""
    vals = tuple(('get', 1) for _ in range(arity))
    body = (('log',),) * max(0, arity - 1) + (('set', 2),) * min(1, arity) + \
        (('get', 1), ('const', 1), ('add',), ('set', 1),
         ('block', (0, 0), tuple(('const', 3) for _ in range(junk)) + (('br', 0),))) + \
        tuple(('const', 4) for _ in range(junk)) + vals + \
        (('get', 1), ('const', 3000), ('lt_u',), ('br_if', 0)) + (('drop',),) * arity + \
        (('drop',),) * junk + vals
    prog = (('const', 5),) + (('get', 0),) * arity + (('loop', (arity, arity), body),) + (('drop',),) * arity + (('get', 1), ('add',))
    batch(ctx, [prog], inputs=(0,), fuel=1000000)


def jobs(tier):
    out = [('scale', [d, tier]) for d in ((1, 2, 3, 5, 7, 9, 17, 33) if tier == 'quick' else (*range(1, 20), 32, 33, 40, 64))]
    out += [('tables', [n]) for n in (0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 300, 16384, 16385)]
    out += [('types', [])] + [('rounds', [a, j]) for a in (0, 1, 2, 9) for j in (0, 1, 9)]
    out += [('rets2', []), ('nests', [1, None, False])]
    for k in KINDS:
        for t in TYPES:
            for j in (0, 1):
                out.append(('nests', [2, [k, t, j], False]))
                if tier != 'quick':
                    out.append(('nests', [3, [k, t, j], False]))
                elif k in ('block', 'loop', 'then') and j == 1 and t in ((0, 0), (0, 1), (2, 1)):
                    out.append(('nests', [3, [k, t, j], True]))
    top = 6 if tier == 'quick' else 6
    for s in range(1, top + 1):
        parts = {4: 2, 5: 8, 6: 16, 7: 256}.get(s, 1)
        for p in range(parts):
            out.append(('programs', [s, p, parts]))
    return out[::-1]
