"""Explicit-state search over the real transition function.

A state is the operation history that reaches it; it is rebuilt by replaying the history on a fresh real object and a
fresh reference model. Two histories are merged only when the reference model's state and a complete structural dump of
the implementation's state are both equal, so merged states have the same futures."""
import hashlib

_ATOMS = (int, float, str, type(None), bool)


def dump(o, skip=(), _seen=None, _out=None):
    """A canonical, hashable dump of everything reachable from o."""
    top = _out is None
    if top:
        _seen, _out = {}, []
    if isinstance(o, _ATOMS):
        _out.append(repr(o))
    elif isinstance(o, (bytes, bytearray)):
        _out.append(hashlib.md5(o).hexdigest() + str(len(o)) if len(o) > 64 else bytes(o).hex())
    elif id(o) in _seen:
        _out.append('#%d' % _seen[id(o)])
    else:
        _seen[id(o)] = len(_seen)
        if isinstance(o, (list, tuple)):
            _out.append('[')
            for e in o:
                dump(e, skip, _seen, _out)
            _out.append(']')
        elif isinstance(o, dict):
            _out.append('{')
            for k in o:
                dump(k, skip, _seen, _out)
                dump(o[k], skip, _seen, _out)
            _out.append('}')
        elif isinstance(o, (set, frozenset)):
            _out.append('<' + ','.join(sorted(map(repr, o))) + '>')
        elif hasattr(o, '__dict__') and not callable(o):
            if type(o).__name__ in skip:
                _out.append(type(o).__name__)
            else:
                _out.append(type(o).__name__ + '(')
                for k, v in o.__dict__.items():
                    _out.append(k)
                    dump(v, skip, _seen, _out)
                _out.append(')')
        else:
            _out.append(type(o).__name__)
    if top:
        return hashlib.md5('|'.join(_out).encode()).digest()


class Mismatch(Exception):
    pass


def search(ctx, make, ops, depth, prefix=(), label='', maxstates=None):
    """make() -> object with .step(op) (raises Mismatch), .key() and optional .close().
    Explores every history prefix + up to `depth` further operations, merging equal states."""
    def build(hist):
        s = make()
        for o in hist:
            s.step(o)
        ctx.traces += 1
        return s

    def done(s):
        if s is not None and hasattr(s, 'close'):
            s.close()

    def bad(h, e):
        ctx.viol('%s:%s' % (label, ' ; '.join(map(str, h))), str(e), {'label': label, 'history': list(h)})

    hist = ()
    s = None
    try:
        s = build(tuple(prefix))
        k = s.key()
    except Mismatch as e:
        bad(prefix, e)
        return
    finally:
        done(s)
    seen = {k}
    frontier = [(tuple(prefix), k)]
    for d in range(depth):
        nxt = []
        for hist, hk in frontier:
            s = None
            for o in ops:
                try:
                    if s is None:
                        s = build(hist)
                    ctx.ev()
                    ctx.transitions += 1
                    r = s.step(o)
                    if r is not None:
                        ctx.outcome(r)
                    k = s.key()
                except Mismatch as e:
                    bad(hist + (o,), e)
                    done(s)
                    s = None
                    if ctx.full:
                        return
                    continue
                if k == hk:
                    continue            # nothing changed: the same object serves the next operation
                done(s)
                s = None
                if k in seen:
                    continue
                if maxstates and len(seen) >= maxstates:
                    ctx.cap('%s: %d states, depth %d not completed' % (label, maxstates, d + 1))
                    ctx.states += len(seen)
                    return
                seen.add(k)
                if len(ctx.samples) < 2 and len(hist) == depth - 1:
                    ctx.sample({'label': label, 'history': [str(x) for x in hist + (o,)]})
                nxt.append((hist + (o,), k))
            done(s)
        frontier = nxt
    ctx.states += len(seen)
    ctx.note('bfs_roots')


def firsts(ctx, make, ops, label=''):
    """One operation for each distinct state, other than the initial one, that one operation reaches."""
    seen, out = set(), []
    s = None
    for o in ops:
        try:
            if s is None:
                s = make()
                seen.add(s.key())
                ctx.traces += 1
            ctx.ev()
            ctx.transitions += 1
            s.step(o)
            k = s.key()
        except Mismatch as e:
            ctx.viol('%s:%s' % (label, o), str(e), {'label': label, 'history': [o]})
            s = None
            if ctx.full:
                return []
            continue
        if k not in seen:
            seen.add(k)
            out.append(o)
            if hasattr(s, 'close'):
                s.close()
            s = None
    if s is not None and hasattr(s, 'close'):
        s.close()
    return out
