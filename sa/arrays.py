"""Abstract arrays: symbolic shape plus an element function in index notation."""
from fractions import Fraction

from . import graph as G
from .graph import Ix, Node, ix, ixadd, ixmul, ixv


class ShapeError(Exception):
    """two array dimensions that can never agree are combined"""


class Unknown(Exception):
    """construct outside the modelled language"""


class Arr:
    """shape: tuple of Ix; at(tuple of Ix) -> Node; alias: tags of the storage it may share"""

    __slots__ = ('shape', '_at', 'alias', 'base', 'isarr', '_memo', 'boolean', 'root')

    def __init__(self, shape, at, alias=frozenset(), base=None, isarr=True, boolean=False):
        self.shape = tuple(ix(s) for s in shape)
        self._at = at
        self.alias = frozenset(alias)
        self.base = base
        self.isarr = isarr
        self.boolean = boolean
        self._memo = {}
        self.root = None       # (array, leading indices) when this is array[i, j, ...]

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, ixs):
        ixs = tuple(ixs)
        r = self._memo.get(ixs)
        if r is None:
            r = self._at(ixs)
            self._memo[ixs] = r
        return r

    def node(self):
        assert not self.shape
        return self.at(())

    def __repr__(self):
        vs = tuple(ixv(f'i{k}') for k in range(self.ndim))
        try:
            return f'Arr{list(self.shape)}<{G.show(self.at(vs), 5)}>'
        except Exception as e:  # pragma: no cover - debugging aid
            return f'Arr{list(self.shape)}<{e!r}>'


def scalar(n, isarr=False):
    return Arr((), lambda i: n, isarr=isarr)


def symarr(name, sizes, alias=()):
    sizes = [G.ixn(s) if isinstance(s, str) else ix(s) for s in sizes]
    return Arr(sizes, lambda ii: G.sym(name, *ii), alias=alias)


def same(a, b):
    """sizes: True equal / False certainly different / None unknown"""
    if a is b:
        return True
    d = ixadd(a, b, -1)
    if d.const is not None:
        return d.const == 0
    # two different plain grid symbols: independent grids, never interchangeable
    pa, pb = plain(a), plain(b)
    if pa and pb and pa != pb:
        return False
    if (pa and b.const is not None) or (pb and a.const is not None):
        return False
    if any(t[0][0] == 'node' for t in d.terms):
        try:
            if G.ixkey(a) == G.ixkey(b):
                return True
        except (G.Opaque, KeyError):
            pass
    return None


def plain(a):
    if a.c == 0 and len(a.terms) == 1 and a.terms[0][0][0] == 'n' and a.terms[0][1] == 1:
        return a.terms[0][0][1]
    return None


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = ix(1)
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            sz = s[k]
            if sz.const == 1:
                continue
            if cur.const == 1:
                cur = sz
            else:
                r = same(cur, sz)
                if r is False:
                    raise ShapeError(f'dimension {d - n}: {cur} against {sz} in {" x ".join(str(list(x)) for x in shapes)}')
                if r is None:
                    raise Unknown(f'cannot compare sizes {cur} and {sz}')
        out.append(cur)
    return tuple(out)


def bcast_ix(shape, ixs):
    off = len(ixs) - len(shape)
    return tuple(ix(0) if s.const == 1 else ixs[off + k] for k, s in enumerate(shape))


def emap(f, *arrs, boolean=False):
    sh = bshape(*[a.shape for a in arrs])
    if not sh:
        n = f(*[a.node() for a in arrs])
        return Arr((), lambda i: n, isarr=any(a.isarr for a in arrs), boolean=boolean)
    site = G.CUR_SITE[0]

    def at(ii):
        s0 = G.CUR_SITE[0]
        args = [a.at(bcast_ix(a.shape, ii)) for a in arrs]
        G.CUR_SITE[0] = site
        r = f(*args)
        G.CUR_SITE[0] = s0
        return r

    return Arr(sh, at, boolean=boolean)


class Acc:
    """value stored by an accumulating store, and what it adds"""

    def __init__(self, val, delta):
        self.val = val
        self.delta = delta


def const_arr(shape, c):
    n = G.const(c)
    return Arr(shape, lambda ii: n)


def view(a, shape, remap):
    """a view sharing storage with a"""
    return Arr(shape, lambda ii: a.at(remap(ii)), alias=a.alias, base=a.base or a, boolean=a.boolean)


def subst_arr(a, m):
    """substitute index/real variables inside an array's elements and shape"""
    shape = tuple(G.ixsubst(s, {k: v for k, v in m.items() if isinstance(v, Ix)}) for s in a.shape)

    def at(ii):
        # protect the query indices from the substitution
        ren = {}
        q = []
        for i in ii:
            nv = G.fresh('q')
            ren[nv] = i
            q.append(ixv(nv))
        body = a.at(tuple(q))
        return G.subst(G.subst(body, m), ren)

    return Arr(shape, at, alias=a.alias, isarr=a.isarr, boolean=a.boolean)


def norm_axis(axis, nd):
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise ShapeError(f'axis {axis} out of range for {nd}-d array')
    return axis


def slice_size(n, start, stop, step):
    """start/stop Ix or None, step int or Ix.  returns (size, first index Ix, step)"""
    if isinstance(step, int):
        step = ix(step)
    sc = step.const
    if sc is not None and sc > 0 or sc is None:
        lo = ix(0) if start is None else fixend(start, n)
        hi = n if stop is None else fixend(stop, n)
        # clip constant bounds on constant sizes
        if n.const is not None and hi.const is not None and hi.const > n.const:
            hi = n
        span = ixadd(hi, lo, -1)
        if span.const is not None and span.const < 0:
            span = ix(0)
        if sc == 1:
            return span, lo, step
        if span.const is not None and sc is not None:
            return ix(-(-span.const // sc)), lo, step
        return G.ixfloordiv(ixadd(ixadd(span, step), ix(-1)), step), lo, step
    if sc == -1:
        lo = ixadd(n, ix(-1)) if start is None else fixend(start, n)
        if stop is None:
            span = ixadd(lo, ix(1))
        else:
            span = ixadd(lo, fixend(stop, n), -1)
        return span, lo, step
    raise Unknown('slice step')


def fixend(i, n):
    i = ix(i)
    if i.const is not None and i.const < 0:
        return ixadd(n, i)
    return i


def index(a, key, is_index_array=None):
    """basic indexing. key: list of None | Ellipsis | ('slice',start,stop,step) | Ix | Arr(index array)"""
    nd = a.ndim
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if not isinstance(k, Arr)]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + [('slice', None, None, 1)] * (nd - nreal) + key[p + 1:]
    else:
        key = key + [('slice', None, None, 1)] * (nd - nreal)
    if sum(1 for k in key if k is not None) != nd:
        raise ShapeError(f'too many indices for {nd}-d array')
    fancy = [k for k in key if isinstance(k, Arr)]
    shape = []
    plan = []  # per source dim: function(out ixs)->Ix
    fshape = bshape(*[f.shape for f in fancy]) if fancy else None
    fpos = None
    src = 0
    for k in key:
        if k is None:
            shape.append(ix(1))
            continue
        n = a.shape[src]
        if isinstance(k, tuple):
            sz, lo, step = slice_size(n, k[1], k[2], k[3])
            d = len(shape)
            shape.append(sz)
            if sz is n and lo.const == 0 and step.const == 1:
                plan.append(('id', d))
            else:
                plan.append(('aff', d, lo, step))
        elif isinstance(k, Arr):
            if fpos is None:
                fpos = len(shape)
                shape.extend(fshape)
            plan.append(('fancy', k))
        else:
            c = fixend(k, n)
            if n.const is not None and c.const is not None and not 0 <= c.const < n.const:
                raise ShapeError(f'index {c.const} out of range for size {n}')
            if G.exceeds(c, n):
                raise ShapeError(f'index out of range: a loop over {G.BOUND[c.terms[0][0][1]]} items indexes a dimension of size {n}')
            plan.append(('const', c))
        src += 1

    def remap(ii):
        out = []
        for s, p in zip(a.shape, plan):
            if p[0] == 'id':
                out.append(ii[p[1]])
            elif p[0] == 'aff':
                out.append(ixadd(p[2], ixmul(ii[p[1]], p[3])))
            elif p[0] == 'const':
                out.append(p[1])
            else:
                f = p[1]
                sub = ii[fpos:fpos + len(fshape)]
                out.append(G.ixnode(f.at(bcast_ix(f.shape, sub))))
        return tuple(out)

    if fancy:
        return Arr(shape, lambda ii: a.at(remap(ii)), boolean=a.boolean)
    if not shape:
        n = a.at(remap(()))
        return Arr((), lambda i: n, isarr=False, boolean=a.boolean)
    out = view(a, shape, remap)
    lead = [p[1] for p in plan if p[0] == 'const']
    if [p[0] for p in plan] == ['const'] * len(lead) + ['id'] * (len(plan) - len(lead)) and None not in key:
        out.root = (a, tuple(lead)) if a.root is None else (a.root[0], a.root[1] + tuple(lead))
    return out


def expand_dims(a, axis):
    axes = axis if isinstance(axis, (list, tuple)) else [axis]
    nd = a.ndim + len(axes)
    axes = sorted(norm_axis(x, nd) for x in axes)
    key = []
    for d in range(nd):
        key.append(None if d in axes else ('slice', None, None, 1))
    return index(a, key)


def squeeze(a, axis=None):
    if axis is None:
        axes = [d for d, s in enumerate(a.shape) if s.const == 1]
    else:
        axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
        for d in axes:
            if a.shape[d].const != 1:
                if same(a.shape[d], ix(1)) is False:
                    raise ShapeError(f'squeeze of axis {d} of size {a.shape[d]}')
                raise Unknown('squeeze')
    return index(a, [ix(0) if d in axes else ('slice', None, None, 1) for d in range(a.ndim)])


def transpose(a, perm=None):
    perm = list(range(a.ndim))[::-1] if perm is None else [norm_axis(p, a.ndim) for p in perm]
    if sorted(perm) != list(range(a.ndim)):
        raise ShapeError(f'axes {perm} do not match a {a.ndim}-d array')
    sh = [a.shape[p] for p in perm]

    def remap(ii):
        out = [None] * a.ndim
        for d, p in enumerate(perm):
            out[p] = ii[d]
        return tuple(out)

    return view(a, sh, remap)


def moveaxis(a, s, d):
    s, d = norm_axis(s, a.ndim), norm_axis(d, a.ndim)
    order = [k for k in range(a.ndim) if k != s]
    order.insert(d, s)
    return transpose(a, order)


def reduce_sum(a, axis):
    """sum over one axis"""
    axis = norm_axis(axis, a.ndim)
    n = a.shape[axis]
    sh = a.shape[:axis] + a.shape[axis + 1:]

    def at(ii):
        if n.const is not None and n.const <= 24:
            return G.add(*[a.at(ii[:axis] + (ix(k),) + ii[axis:]) for k in range(n.const)])
        v = G.fresh('s')
        return G.summ(v, n, a.at(ii[:axis] + (ixv(v),) + ii[axis:]))

    return Arr(sh, at)


def lam_axis(a, axis, ii, v):
    """node of a with `axis` bound to index variable v, other axes at ii"""
    return a.at(ii[:axis] + (ixv(v),) + ii[axis:])


def stack(elems, axis=0):
    """stack a python list of equally shaped arrays along a new axis"""
    sh = bshape(*[e.shape for e in elems])
    for e in elems:
        if len(e.shape) != len(sh):
            raise Unknown('ragged stack')
    axis = norm_axis(axis, len(sh) + 1)

    def at(ii):
        rest = ii[:axis] + ii[axis + 1:]
        return G.pick(ii[axis], [e.at(bcast_ix(e.shape, rest)) for e in elems])

    return Arr(sh[:axis] + (ix(len(elems)),) + sh[axis:], at)


def concat(elems, axis=0):
    nd = elems[0].ndim
    axis = norm_axis(axis, nd)
    total = ix(0)
    offs = []
    for e in elems:
        offs.append(total)
        total = ixadd(total, e.shape[axis])
    others = bshape(*[e.shape[:axis] + e.shape[axis + 1:] for e in elems])

    def at(ii):
        k = ii[axis]
        node = None
        for e, o in reversed(list(zip(elems, offs))):
            loc = ii[:axis] + (ixadd(k, o, -1),) + ii[axis + 1:]
            n = e.at(loc)
            if node is None:
                node = n
            else:
                c = G.cmp('lt', G.ixval(k), G.ixval(ixadd(o, e.shape[axis])))
                node = G.ite(c, n, node)
        return node

    return Arr(others[:axis] + (total,) + others[axis:], at)


def transpose_last(a):
    return transpose(a)


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' not in spec:
        ins = spec.split(',')
        letters = ''.join(ins)
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    else:
        lhs, out = spec.split('->')
        ins = lhs.split(',')
    if '...' in spec:
        # expand ellipsis to capital letters
        nel = max(o.ndim - (len(s) - 3) for s, o in zip(ins, ops) if '...' in s)
        caps = 'ABCDEFGH'[:nel]
        ins = [s.replace('...', caps[nel - (o.ndim - len(s) + 3):]) for s, o in zip(ins, ops)]
        out = out.replace('...', caps)
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ShapeError(f'einsum operand {s} for {o.ndim}-d array')
        for c, n in zip(s, o.shape):
            if c not in size or size[c].const == 1:
                size[c] = n
            elif n.const != 1:
                r = same(size[c], n)
                if r is False:
                    raise ShapeError(f'einsum index {c}: {size[c]} against {n}')
                if r is None:
                    raise Unknown('einsum sizes')
    summed = [c for c in size if c not in out]

    def at(ii):
        m = dict(zip(out, ii))
        bound = []
        for c in summed:
            v = G.fresh('s')
            m[c] = ixv(v)
            bound.append((v, size[c]))
        n = G.mul(*[o.at(tuple(ix(0) if d.const == 1 else m[c] for c, d in zip(s, o.shape))) for s, o in zip(ins, ops)])
        for v, s in reversed(bound):
            if s.const is not None and s.const <= 24:
                n = G.add(*[G.subst(n, {v: ix(k)}) for k in range(s.const)])
            else:
                n = G.summ(v, s, n)
        return n

    return Arr([size[c] for c in out], at)


def tile(a, reps):
    nd = max(a.ndim, len(reps))
    reps = [ix(1)] * (nd - len(reps)) + [ix(r) for r in reps]
    while a.ndim < nd:
        a = expand_dims(a, 0)
    sh = [ixmul(s, r) for s, r in zip(a.shape, reps)]

    def at(ii):
        out = []
        for s, r, i in zip(a.shape, reps, ii):
            if s.const == 1:
                out.append(ix(0))
            elif r.const == 1:
                out.append(i)
            else:
                out.append(G.ixmod(i, s))
        return a.at(tuple(out))

    return Arr(sh, at)


def repeat(a, n, axis=None):
    n = ix(n)
    if axis is None:
        if a.ndim == 0:
            return Arr((n,), lambda ii: a.node())
        if a.ndim > 1:
            raise Unknown('repeat of n-d array')
        axis = 0
    axis = norm_axis(axis, a.ndim)
    s = a.shape[axis]
    sh = a.shape[:axis] + (ixmul(s, n),) + a.shape[axis + 1:]

    def at(ii):
        k = ix(0) if s.const == 1 else G.ixfloordiv(ii[axis], n)
        return a.at(ii[:axis] + (k,) + ii[axis + 1:])

    return Arr(sh, at)


def as_fraction(n):
    if isinstance(n, Node) and n.op == 'const':
        return n.args[0]
    return None
