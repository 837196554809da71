"""Structured control flow: a tiny typed AST over i32, its encoder, and a reference evaluator written as plain recursive
big-step semantics (blocks are Python calls, branches are exceptions)."""
from . import asm
from .asm import op, I32
from .ref import sx


class Fuel(Exception):
    pass


class RTrap(Exception):
    pass


class Br(Exception):
    def __init__(self, k, vals):
        self.k, self.vals = k, vals


class Ret(Exception):
    def __init__(self, vals):
        self.vals = vals


M32 = 0xffffffff


class Ref:
    """funcs: list of (nparams, nresults, nlocals, body) after the single import 0 = log(i32)."""

    def __init__(self, funcs, fuel=400, depth=60):
        self.funcs, self.fuel, self.depth = funcs, fuel, depth
        self.log = []

    def call(self, i, args):
        if i == 0:
            self.log.append(sx(args[0], 32))
            return []
        p, r, n, body = self.funcs[i - 1]
        if self.depth == 0:
            raise Fuel()
        self.depth -= 1
        loc = list(args) + [0] * n
        try:
            res = self.block((0, r), body, [], loc, r)
        except Ret as e:
            res = e.vals
        self.depth += 1
        return res

    def block(self, bt, body, params, loc, fr):
        """Execute body as a block: result values on fallthrough or on a branch to its own label."""
        st = list(params)
        try:
            self.seq(body, st, loc, fr, bt[1])
        except Br as b:
            if b.k:
                raise Br(b.k - 1, b.vals)
            return b.vals[len(b.vals) - bt[1]:]
        assert len(st) == bt[1], (bt, body, st)
        return st

    def loop(self, bt, body, params, loc, fr):
        while True:
            st = list(params)
            try:
                self.seq(body, st, loc, fr, bt[0])
            except Br as b:
                if b.k:
                    raise Br(b.k - 1, b.vals)
                params = b.vals[len(b.vals) - bt[0]:] if bt[0] else []
                continue
            assert len(st) == bt[1]
            return st

    def seq(self, body, st, loc, fr, _):
        for ins in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel()
            o = ins[0]
            if o == 'const':
                st.append(ins[1] & M32)
            elif o == 'get':
                st.append(loc[ins[1]])
            elif o == 'set':
                loc[ins[1]] = st.pop()
            elif o == 'tee':
                loc[ins[1]] = st[-1]
            elif o == 'drop':
                st.pop()
            elif o == 'sub':
                b = st.pop()
                st.append((st.pop() - b) & M32)
            elif o == 'add':
                b = st.pop()
                st.append((st.pop() + b) & M32)
            elif o == 'eq':
                b = st.pop()
                st.append(int(st.pop() == b))
            elif o == 'eqz':
                st.append(int(st.pop() == 0))
            elif o == 'lt_u':
                b = st.pop()
                st.append(int(st.pop() < b))
            elif o == 'select':
                c, b, a = st.pop(), st.pop(), st.pop()
                st.append(a if c else b)
            elif o == 'nop':
                pass
            elif o == 'log':
                self.log.append(sx(st.pop(), 32))
            elif o == 'unreachable':
                raise RTrap()
            elif o == 'block':
                p = ins[1][0]
                args = st[len(st) - p:] if p else []
                del st[len(st) - p:]
                st += self.block(ins[1], ins[2], args, loc, fr)
            elif o == 'loop':
                p = ins[1][0]
                args = st[len(st) - p:] if p else []
                del st[len(st) - p:]
                st += self.loop(ins[1], ins[2], args, loc, fr)
            elif o == 'if':
                c = st.pop()
                p = ins[1][0]
                args = st[len(st) - p:] if p else []
                del st[len(st) - p:]
                st += self.block(ins[1], ins[2] if c else ins[3], args, loc, fr)
            elif o == 'br':
                raise Br(ins[1], list(st))
            elif o == 'br_if':
                if st.pop():
                    raise Br(ins[1], list(st))
            elif o == 'br_table':
                i = st.pop()
                raise Br(ins[1][i] if i < len(ins[1]) else ins[2], list(st))
            elif o == 'return':
                raise Ret(st[len(st) - fr:] if fr else [])
            elif o == 'call':
                p = 1 if ins[1] == 0 else self.funcs[ins[1] - 1][0]
                args = st[len(st) - p:] if p else []
                del st[len(st) - p:]
                st += self.call(ins[1], args)
            else:
                raise KeyError(o)


SIMPLE = {'drop': 'drop', 'sub': 'i32_sub', 'add': 'i32_add', 'eq': 'i32_eq', 'eqz': 'i32_eqz', 'lt_u': 'i32_lt_u',
          'select': 'select', 'nop': 'nop', 'unreachable': 'unreachable', 'return': 'return'}


def bt(m, t):
    if t == (0, 0):
        return b'\x40'
    if t == (0, 1):
        return bytes([I32])
    return asm.s(m.type([I32] * t[0], [I32] * t[1]))


def encode(m, body):
    out = b''
    for ins in body:
        o = ins[0]
        if o in SIMPLE:
            out += op(SIMPLE[o])
        elif o == 'const':
            out += asm.i32c(ins[1])
        elif o in ('get', 'set', 'tee'):
            out += op('local_' + o, ins[1])
        elif o == 'log':
            out += op('call', 0)
        elif o == 'call':
            out += op('call', ins[1])
        elif o in ('block', 'loop'):
            out += op(o) + bt(m, ins[1]) + encode(m, ins[2]) + b'\x0b'
        elif o == 'if':
            out += op('if') + bt(m, ins[1]) + encode(m, ins[2])
            if ins[3]:
                out += op('else') + encode(m, ins[3])
            out += b'\x0b'
        elif o in ('br', 'br_if'):
            out += op(o, ins[1])
        elif o == 'br_table':
            out += op('br_table') + asm.vec(asm.u(k) for k in ins[1]) + asm.u(ins[2])
        else:
            raise KeyError(o)
    return out


def number(body, ctr=None):
    """Give every placeholder constant its own value, in program order."""
    if ctr is None:
        ctr = [100]
    out = []
    for ins in body:
        if ins == ('const', None):
            ctr[0] += 7
            out.append(('const', ctr[0]))
        elif ins[0] in ('block', 'loop'):
            out.append((ins[0], ins[1], number(ins[2], ctr)))
        elif ins[0] == 'if':
            a = number(ins[2], ctr)
            out.append(('if', ins[1], a, number(ins[3], ctr)))
        else:
            out.append(ins)
    return tuple(out)


def show(body):
    out = []
    for ins in body:
        if ins[0] in ('block', 'loop'):
            out.append('%s%s{ %s }' % (ins[0], ins[1], show(ins[2])))
        elif ins[0] == 'if':
            out.append('if%s{ %s }{ %s }' % (ins[1], show(ins[2]), show(ins[3])))
        else:
            out.append(' '.join(str(x) for x in ins))
    return '; '.join(out)
