"""Which named inputs a value depends on (leaves reachable in the value graph)."""
from . import graph as G
from .arrays import Arr
from .graph import Ix, Node
from .values import DictV, ExtObj, ListV, ObjV, PhiV, SeqV, Top

_memo = {}


def node_syms(n):
    """names of the symbols a node is computed from"""
    if n.id in _memo:
        return _memo[n.id]
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x.id in _memo:
            continue
        kids, out = [], set()
        collect(x.args, kids, out, x)
        if not done:
            stack.append((x, True))
            stack += [(k, False) for k in kids if k.id not in _memo]
        else:
            for k in kids:
                out |= _memo.get(k.id, frozenset())
            _memo[x.id] = frozenset(out)
    return _memo[n.id]


def collect(a, kids, out, owner):
    if owner.op == 'sym':
        out.add(a[0])
        for y in a[1:]:
            walk(y, kids)
        return
    for y in a:
        walk(y, kids)


def walk(y, kids):
    if isinstance(y, Node):
        kids.append(y)
    elif isinstance(y, Ix):
        for t, _ in y.terms:
            walk(t, kids)
    elif isinstance(y, tuple):
        for z in y:
            walk(z, kids)


def syms(v, seen=None):
    """names of the symbols any part of a value is computed from"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return set()
    if isinstance(v, Arr):
        n = v.at(tuple(G.ixv(f'q{j}') for j in range(len(v.shape))))
        return set(node_syms(n))
    if isinstance(v, Node):
        return set(node_syms(v))
    if isinstance(v, (tuple, list)):
        r = set()
        for x in v:
            r |= syms(x, seen)
        return r
    if isinstance(v, ListV):
        return syms(v.items, seen)
    if isinstance(v, DictV):
        return syms(tuple(v.d.values()), seen)
    if isinstance(v, SeqV):
        return syms(v.fn(G.ixv('q0')), seen)
    if isinstance(v, PhiV):
        r = syms(v.a, seen) | syms(v.b, seen)
        return r | (set(node_syms(v.cond)) if isinstance(v.cond, Node) else set())
    if isinstance(v, (ObjV, ExtObj)):
        seen.add(id(v))
        return syms(tuple(v.f.values()), seen)
    return set()
