"""Deciding step: compare the value numbers of a quantity of the program with those of its specification."""
import itertools

from . import graph as G
from .arrays import Arr
from .graph import Ix, Node, ix
from .values import DictV, ListV, PhiV, SeqV, StrV, Top, conc, is_num, to_arr, value_nodes


class Verdict:
    """status: ok | violated | undecided"""

    def __init__(self, status, why='', site=None, points=0):
        self.status = status
        self.why = why
        self.site = site
        self.points = points


def probe_points(shape, rich=False):
    """sample positions of an index space (corners, edges, interior)"""
    dims = []
    for s in shape:
        n = G.ixeval(s, {})
        c = [0, n - 1, 1, n // 2]
        seen = []
        for x in c:
            if 0 <= x < n and x not in seen:
                seen.append(x)
        dims.append(seen or [0])
    pts = []
    for j in range(4):
        pts.append(tuple(d[j % len(d)] for d in dims))
    for r in range(1, 2):
        pts.append(tuple(d[(r + i) % len(d)] for i, d in enumerate(dims)))
        pts.append(tuple(d[(r * i) % len(d)] for i, d in enumerate(dims)))
    if rich:
        pts += list(itertools.islice(itertools.product(*dims), 64))
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out


def fp_at(a, p):
    n = a.at(tuple(G.ixv(f'p{j}') for j in range(len(a.shape))))
    env = {f'p{j}': i for j, i in enumerate(p)}
    return n, G.fp(n, {v: env[v] for v in n.fv})


def is_bad(v):
    if isinstance(v, Top):
        return v if v.bad else None
    if isinstance(v, PhiV):
        return is_bad(v.a) or is_bad(v.b)
    return None


_retries = [40]


def compare(code, spec, rich=False, broadcast=False):
    """code, spec: abstract values.

    Roots of sums are only defined up to a sign in the numbering field, so a difference is confirmed with further
    numberings; equality under any one numbering is equality (up to the collision probability)."""
    v = _compare(code, spec, rich, broadcast)
    if v.status != 'violated' or not v.points or _retries[0] <= 0:
        return v
    _retries[0] -= 1
    seed = G.SEED
    memo = dict(G._fp_memo)
    try:
        for k in range(1, 5):
            G.SEED = seed + k
            G._fp_memo.clear()
            w = _compare(code, spec, rich, broadcast)
            if w.status == 'ok':
                return w
    finally:
        G.SEED = seed
        G._fp_memo.clear()
        G._fp_memo.update(memo)
    return v


def _compare(code, spec, rich=False, broadcast=False):
    b = is_bad(code)
    if b is not None:
        return Verdict('violated', f'the program is ill-formed here: {b.why}', b.site)
    if isinstance(code, Top):
        return Verdict('undecided', code.why, code.site)
    if isinstance(spec, Top):
        raise AssertionError(f'specification not interpretable: {spec}')
    if spec is None or code is None:
        if spec is None and code is None:
            return Verdict('ok', points=1)
        return Verdict('violated', f'value is {"None" if code is None else "not None"} where {"None" if spec is None else "a value"} is specified')
    if isinstance(code, (Arr, int, Ix, Node)) or is_num(code):
        try:
            x = to_arr(code)
            y = to_arr(spec)
        except Exception as e:
            return Verdict('undecided', repr(e))
        if len(x.shape) != len(y.shape) or any(G.ixkey(a) != G.ixkey(b) for a, b in zip(x.shape, y.shape)):
            if broadcast and len(x.shape) == len(y.shape) and all(a is c or a.const == 1 for a, c in zip(x.shape, y.shape)):
                pass
            else:
                return Verdict('violated', f'shape {list(x.shape)} where {list(y.shape)} is specified')
        n = 0
        for p in probe_points(y.shape, rich):
            px = tuple(0 if s.const == 1 else i for s, i in zip(x.shape, p))
            a, fa = fp_at(x, px)
            c, fc = fp_at(y, p)
            n += 1
            if a.opaque:
                return Verdict('undecided', 'depends on a construct outside the modelled language', a.site, n)
            if fa != fc:
                site, txt = localise(a, c, p)
                return Verdict('violated', f'element {list(p)} differs from the specification: {txt}', site, n)
        return Verdict('ok', points=n)
    # general values: compare flattened node lists
    try:
        xs, ys = value_nodes(code), value_nodes(spec)
    except Exception as e:
        return Verdict('undecided', repr(e))
    if any(n.opaque for n in xs):
        return Verdict('undecided', 'opaque value')
    if len(xs) != len(ys) or any(G.fp(a, {}) != G.fp(c, {}) for a, c in zip(xs, ys)):
        return Verdict('violated', f'{code!r:.160} where {spec!r:.160} is specified')
    return Verdict('ok', points=len(xs))


def same_number(a, b, p):
    """do two array values agree at sample point p"""
    n1, f1 = fp_at(a, p)
    n2, f2 = fp_at(b, p)
    return f1 == f2, n1


# --------------------------------------------------------------- localisation


def _kids(n, env):
    """(child, env) pairs; binders are opened at their first position"""
    o, a = n.op, n.args
    if o == 'sum':
        yield a[2], {**env, a[0]: 0}
        return
    if o == 'lam':
        e = dict(env)
        for v, s in a[0]:
            e[v] = 10**9 + 7 if s == 'real' else 0
        yield a[1], e
        return
    if o == 'mul':
        for b, _ in a[1]:
            yield b, env
        return
    if o == 'loopstore':
        yield a[0], env
        return

    def rec(x):
        if isinstance(x, Node):
            yield x, env
        elif isinstance(x, tuple):
            for y in x:
                yield from rec(y)

    for x in a:
        yield from rec(x)


def _num(n, env):
    try:
        return G.fp(n, {v: env[v] for v in n.fv})
    except Exception:
        return None


def closure(n, env, limit=20000):
    out = set()
    seen = set()
    st = [(n, env)]
    while st and len(seen) < limit:
        x, e = st.pop()
        k = (x.id, tuple(sorted((v, e[v]) for v in x.fv if v in e)))
        if k in seen:
            continue
        seen.add(k)
        out.add(_num(x, e))
        st += list(_kids(x, e))
    return out


def localise(code, spec, p):
    """deepest construct of the program that has no counterpart in the specification"""
    env = {f'p{j}': i for j, i in enumerate(p)}
    known = closure(spec, env)
    cur = code
    for _ in range(200):
        nxt = None
        for c, e in _kids(cur, env):
            if c.op in ('const', 'bool') and nxt is not None:
                continue
            if _num(c, e) not in known:
                nxt = (c, e)
                break
        if nxt is None:
            break
        cur, env = nxt
    # prefer a node that carries a source position
    return cur.site or code.site, f'{G.show(cur, 3)[:200]} has no counterpart (expected {G.show(spec, 2)[:120]})'
