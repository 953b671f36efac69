"""Models of the libraries the analysed code calls (numpy, scipy, hmf, halomod, astropy, cosmosis ...).

Each model gives the meaning of one library call in index notation.  A call
that is not modelled yields an unknown value: anything computed from it is
reported as undecided, never as a violation.
"""
from fractions import Fraction

from . import arrays as A
from . import graph as G
from .arrays import Arr, ShapeError, Unknown, bcast_ix, emap, index, norm_axis, same, scalar
from .graph import Ix, Node, ix, ixadd, ixmul, ixv
from .values import (UNBOUND, BoundV, BuiltinV, ClassV, DictV, ExtObj, ExtV, FuncV, GridV, ListV, Masked, ModV, ObjV, PhiV,
                     SeqV, SliceV, StrV, SuperV, Top, Unbound, conc, is_num, pack, phi, subst_value, to_arr,
                     value_nodes)

NP = {}       # numpy function name -> model(interp, args, kw)
FN = {}       # full path -> model


def np_(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def ext(*paths):
    def deco(f):
        for p in paths:
            FN[p] = f
        return f
    return deco


_NO = object()


def bind(args, kw, spec, **defaults):
    """bind to parameter names; raises Unknown on unexpected keywords"""
    names = spec.split()
    out = dict(defaults)
    kw = dict(kw)
    if len(args) > len(names):
        raise Unknown('too many arguments for a library call')
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        if k not in names:
            raise Unknown(f'keyword {k} of a library call')
        out[k] = v
    r = []
    for n in names:
        if n not in out:
            out[n] = None
        r.append(out[n])
    return r


def static_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, Ix) and v.const is not None:
        return v.const
    if isinstance(v, Arr) and not v.shape and v.node().op == 'const' and v.node().args[0].denominator == 1:
        return int(v.node().args[0])
    raise Unknown('a static integer is needed')


def to_ix(v):
    if isinstance(v, Ix):
        return v
    if isinstance(v, Arr) and not v.shape:
        return G.ixnode(v.node())
    return ix(static_int(v))


def axes_of(v):
    if v is None:
        return None
    if isinstance(v, (tuple, ListV)):
        items = v.items if isinstance(v, ListV) else v
        return [static_int(x) for x in items]
    return [static_int(v)]


def shape_of(v):
    if isinstance(v, (tuple, ListV)):
        items = v.items if isinstance(v, ListV) else v
        return tuple(to_ix(x) for x in items)
    return (to_ix(v),)


def from_ix(i):
    return i.const if i.const is not None else i


def arr(v):
    return to_arr(v)


def lamof(a):
    """closed lambda node of an array"""
    return value_nodes(a)[0]


def ufunc(f):
    def g(interp, args, kw):
        if kw and set(kw) - {'dtype'}:
            raise Unknown('ufunc keyword')
        return emap(f, *[arr(x) for x in args])
    return g


# ---------------------------------------------------------------- numpy ufuncs
for _n, _f in {
    'exp': G.exp, 'log': G.log, 'log10': G.log10, 'sqrt': G.sqrt, 'power': G.power, 'float_power': G.power,
    'add': G.add, 'subtract': G.sub, 'multiply': G.mul, 'divide': G.div, 'true_divide': G.div, 'negative': G.neg,
    'square': lambda x: G.powr(x, 2), 'reciprocal': lambda x: G.powr(x, -1), 'cbrt': lambda x: G.powr(x, Fraction(1, 3)),
    'log2': lambda x: G.div(G.log(x), G.log(G.const(2))), 'log1p': lambda x: G.log(G.add(G.ONE, x)),
    'expm1': lambda x: G.sub(G.exp(x), G.ONE), 'exp2': lambda x: G.power(G.const(2), x),
    'sin': lambda x: G.fn('sin', x), 'cos': lambda x: G.fn('cos', x), 'tan': lambda x: G.fn('tan', x),
    'arctan': lambda x: G.fn('arctan', x), 'arctan2': lambda x, y: G.fn('arctan2', x, y), 'tanh': lambda x: G.fn('tanh', x),
    'abs': lambda x: G.fn('abs', x), 'absolute': lambda x: G.fn('abs', x), 'fabs': lambda x: G.fn('abs', x),
    'sign': lambda x: G.fn('sign', x), 'floor': lambda x: G.fn('floor', x), 'ceil': lambda x: G.fn('ceil', x),
    'fmin': lambda x, y: G.fn('fmin', x, y), 'fmax': lambda x, y: G.fn('fmax', x, y), 'real': lambda x: G.fn('real', x),
    'imag': lambda x: G.fn('imag', x), 'conj': lambda x: G.fn('conj', x),
    'minimum': lambda x, y: G.fn('minimum', x, y), 'maximum': lambda x, y: G.fn('maximum', x, y),
    'deg2rad': lambda x: G.mul(x, G.PI, G.const(Fraction(1, 180))), 'radians': lambda x: G.mul(x, G.PI, G.const(Fraction(1, 180))),
    'rad2deg': lambda x: G.mul(x, G.const(180), G.powr(G.PI, -1)), 'degrees': lambda x: G.mul(x, G.const(180), G.powr(G.PI, -1)),
    'sinh': lambda x: G.mul(G.const(Fraction(1, 2)), G.sub(G.exp(x), G.exp(G.neg(x)))),
    'cosh': lambda x: G.mul(G.const(Fraction(1, 2)), G.add(G.exp(x), G.exp(G.neg(x)))),
    'arcsin': lambda x: G.fn('arcsin', x), 'arccos': lambda x: G.fn('arccos', x), 'rint': lambda x: G.fn('rint', x),
    'trunc': lambda x: G.fn('trunc', x), 'positive': lambda x: x, 'mod': lambda x, y: G.fn('mod', x, y),
    'remainder': lambda x, y: G.fn('mod', x, y), 'fmod': lambda x, y: G.fn('fmod', x, y),
    'floor_divide': lambda x, y: G.fn('floor', G.div(x, y)),
    'logaddexp': lambda x, y: G.log(G.add(G.exp(x), G.exp(y))),
    'hypot': lambda x, y: G.sqrt(G.add(G.powr(x, 2), G.powr(y, 2))), 'i0': lambda x: G.fn('i0', x),
    'sinc': lambda x: G.fn('sinc', x), 'nan_to_num': lambda x: G.fn('nan_to_num', x),
}.items():
    NP[_n] = ufunc(_f)
UFUNCS = {n for n in NP if n not in ('real', 'imag', 'sinc', 'nan_to_num')}

for _n, _f in {'greater': 'gt', 'less': 'lt', 'greater_equal': 'ge', 'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne'}.items():
    NP[_n] = (lambda op: lambda interp, args, kw: emap(lambda x, y: G.cmp(op, x, y), arr(args[0]), arr(args[1]), boolean=True))(_f)


@np_('logical_and')
def _land(interp, args, kw):
    return emap(G.and_, *[arr(x) for x in args], boolean=True)


@np_('logical_or')
def _lor(interp, args, kw):
    return emap(G.or_, *[arr(x) for x in args], boolean=True)


@np_('logical_not', 'invert')
def _lnot(interp, args, kw):
    return emap(G.not_, arr(args[0]), boolean=True)


@np_('heaviside')
def _heavi(interp, args, kw):
    x, h0 = arr(args[0]), arr(args[1])
    return emap(lambda x, h: G.ite(G.cmp('lt', x, G.ZERO), G.ZERO,
                                   G.ONE if h is G.ONE else G.ite(G.cmp('eq', x, G.ZERO), h, G.ONE)), x, h0)


@np_('where')
def _where(interp, args, kw):
    if len(args) == 1:
        return (nonzero(arr(args[0])),)
    c, a, b = args
    if isinstance(c, bool):
        r = emap(lambda x, y: x if c else y, arr(a), arr(b))
        return r
    return emap(G.ite, boolish(arr(c)), arr(a), arr(b))


def boolish(c):
    if c.boolean:
        return c
    return emap(lambda x: x if x.op in ('bool', 'cmp', 'not', 'and') else G.cmp('ne', x, G.ZERO), c, boolean=True)


@np_('clip')
def _clip(interp, args, kw):
    a, lo, hi = bind(args, {('lo' if k in ('a_min', 'min') else 'hi' if k in ('a_max', 'max') else k): v for k, v in kw.items()}, 'a lo hi')
    r = arr(a)
    if lo is not None:
        r = emap(lambda x, y: G.fn('maximum', x, y), r, arr(lo))
    if hi is not None:
        r = emap(lambda x, y: G.fn('minimum', x, y), r, arr(hi))
    return r


# ---------------------------------------------------------------- construction
@np_('array', 'asarray', 'ascontiguousarray', 'copy', 'asfarray', 'asanyarray', 'require')
def _array(interp, args, kw, name='array'):
    v = args[0]
    kw = {k: x for k, x in kw.items() if k not in ('dtype', 'copy', 'order')}
    if kw:
        raise Unknown('np.array keyword')
    if isinstance(v, ExtObj) and v.kind == 'column':
        return v.f['arr']
    t = find_top(v)
    if t is not None:
        return t
    if isinstance(v, (ListV, tuple)) and not (isinstance(v, ListV) and v.items and v.items[0] == '__seq__'):
        items = v.items if isinstance(v, ListV) else v
        if items and all(isinstance(x, str) or isinstance(x, ListV) and x.items and all(isinstance(y, str) for y in x.items) for x in items):
            return ListV(list(items))   # an array of names behaves as a list
        if items and not all(isinstance(x, (Arr, int, Fraction, Ix, bool, ListV, tuple, SeqV)) for x in items):
            raise Unknown('array of objects')
    if isinstance(v, ListV) and v.items and v.items[0] == '__seq__':
        v = v.items[1]
    a = arr(v)
    r = Arr(a.shape, a.at, alias=a.alias if name in ('asarray', 'ascontiguousarray', 'asanyarray') and isinstance(v, Arr) else frozenset(), base=None, boolean=a.boolean)
    return r


for _n in ('asarray', 'ascontiguousarray', 'asanyarray'):
    NP[_n] = (lambda n: lambda interp, args, kw: _array(interp, args, kw, n))(_n)


def find_top(v, depth=0):
    if isinstance(v, Top):
        return v
    if depth > 4:
        return None
    if isinstance(v, ListV):
        if v.items and isinstance(v.items[0], str) and v.items[0] == '__seq__':
            return find_top(v.items[1], depth + 1)
        for x in v.items:
            t = find_top(x, depth + 1)
            if t is not None:
                return t
    if isinstance(v, tuple):
        for x in v:
            t = find_top(x, depth + 1)
            if t is not None:
                return t
    if isinstance(v, SeqV):
        try:
            return find_top(v.fn(ixv(G.fresh('t'))), depth + 1)
        except (Unknown, ShapeError):
            return None
    return None


def filled(shape, node):
    return Arr(shape, lambda ii: node)


@np_('ones')
def _ones(interp, args, kw):
    return filled(shape_of(args[0] if args else kw['shape']), G.ONE)


@np_('zeros')
def _zeros(interp, args, kw):
    return filled(shape_of(args[0] if args else kw['shape']), G.ZERO)


UNINIT = G.sym('!uninitialised')


@np_('empty')
def _empty(interp, args, kw):
    dt = kw.get('dtype')
    if isinstance(dt, ExtV) and dt.path == 'builtins.object':
        n = shape_of(args[0])
        if len(n) == 1:
            return ExtObj('objarray', {'n': n[0], 'seq': None})
    return filled(shape_of(args[0] if args else kw['shape']), UNINIT)


@np_('full')
def _full(interp, args, kw):
    sh, v = bind(args, {k: x for k, x in kw.items() if k != 'dtype'}, 'shape fill_value')
    v = arr(v)
    sh = shape_of(sh)
    return Arr(sh, lambda ii: v.at(bcast_ix(v.shape, ii)))


def _like(node):
    def f(interp, args, kw):
        a = arr(args[0])
        if not a.shape:
            return scalar(node, isarr=True)
        return filled(a.shape, node)
    return f


NP['ones_like'] = _like(G.ONE)
NP['zeros_like'] = _like(G.ZERO)
NP['empty_like'] = _like(UNINIT)


@np_('full_like')
def _full_like(interp, args, kw):
    a, v = bind(args, {k: x for k, x in kw.items() if k != 'dtype'}, 'a fill_value')
    a, v = arr(a), arr(v)
    return Arr(a.shape, lambda ii: v.at(bcast_ix(v.shape, ii)))


@np_('eye', 'identity')
def _eye(interp, args, kw):
    n = to_ix(args[0])
    return Arr((n, n), lambda ii: G.ite(G.cmp('eq', G.ixval(ii[0]), G.ixval(ii[1])), G.ONE, G.ZERO))


def lin(a, b, n, endpoint=True):
    a, b = arr(a), arr(b)
    d = ixadd(n, ix(-1)) if endpoint else n
    if a.shape or b.shape:
        raise Unknown('linspace of arrays')
    x, y = a.node(), b.node()
    step = G.div(G.sub(y, x), G.ixval(d))
    return lambda i: G.add(x, G.mul(G.ixval(i), step))


@np_('linspace')
def _linspace(interp, args, kw):
    a, b, n, ep, axis = bind(args, {k: v for k, v in kw.items() if k != 'dtype'}, 'start stop num endpoint axis', num=50, endpoint=True, axis=0)
    n = to_ix(n)
    a, b = arr(a), arr(b)
    if a.shape or b.shape:
        d = emap(G.sub, b, a)
        at = static_int(axis) % (d.ndim + 1)
        a = emap(lambda x, y: x, a, d)
        return Arr(d.shape[:at] + (n,) + d.shape[at:], lambda ii: lin(scalar(a.at(ii[:at] + ii[at + 1:])), scalar(b_at(b, d, ii[:at] + ii[at + 1:])), n, ep)(ii[at]))
    f = lin(a, b, n, ep)
    return Arr((n,), lambda ii: f(ii[0]))


def b_at(b, d, ii):
    return emap(lambda x, y: x, b, d).at(ii)


@np_('logspace')
def _logspace(interp, args, kw):
    a, b, n, ep, base = bind(args, {k: v for k, v in kw.items() if k != 'dtype'}, 'start stop num endpoint base', num=50, endpoint=True, base=10)
    n = to_ix(n)
    f = lin(a, b, n, ep)
    bb = arr(base).node()
    return Arr((n,), lambda ii: G.power(bb, f(ii[0])))


@np_('geomspace')
def _geomspace(interp, args, kw):
    a, b, n, ep = bind(args, kw, 'start stop num endpoint', num=50, endpoint=True)
    n = to_ix(n)
    x, y = arr(a).node(), arr(b).node()
    f = lin(scalar(G.log(x)), scalar(G.log(y)), n, ep)
    return Arr((n,), lambda ii: G.exp(f(ii[0])))


@np_('arange')
def _arange(interp, args, kw):
    kw = {k: v for k, v in kw.items() if k != 'dtype'}
    if kw:
        raise Unknown('arange keyword')
    a = list(args)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
    isint = all(isinstance(x, (int, Ix)) or isinstance(x, Arr) and not x.shape and x.node().op == 'const' and x.node().args[0].denominator == 1 for x in (lo, hi, st))
    if isint:
        l, h, s = to_ix(lo), to_ix(hi), to_ix(st)
        span = ixadd(h, l, -1)
        if s.const == 1:
            n = span
        elif span.const is not None and s.const:
            n = ix(-(-span.const // s.const))
        else:
            raise Unknown('arange')
        return Arr((n,), lambda ii: G.ixval(ixadd(l, ixmul(ii[0], s))))
    l, h, s = arr(lo).node(), arr(hi).node(), arr(st).node()
    n = Ix(((('node', G.app('nceil', (), G.div(G.sub(h, l), s))), 1),), 0)
    return Arr((n,), lambda ii: G.add(l, G.mul(G.ixval(ii[0]), s)))


@np_('meshgrid')
def _meshgrid(interp, args, kw):
    sp = kw.get('sparse', False)
    ind = kw.get('indexing', 'xy')
    xs = [arr(x) for x in args]
    nd = len(xs)
    sizes = [x.shape[0] for x in xs]
    pos = list(range(nd))
    if ind == 'xy' and nd >= 2:
        pos[0], pos[1] = 1, 0
    full = [None] * nd
    for k in range(nd):
        full[pos[k]] = sizes[k]
    out = []
    for k, x in enumerate(xs):
        p = pos[k]
        sh = [full[d] if (d == p or not sp) else ix(1) for d in range(nd)]
        out.append(Arr(sh, (lambda x, p: lambda ii: x.at((ii[p],)))(x, p)))
    return ListV(out)


# ------------------------------------------------------------------ reshaping
@np_('atleast_1d')
def _at1(interp, args, kw):
    a = arr(args[0])
    return a if a.shape else Arr((ix(1),), lambda ii: a.node())


@np_('atleast_2d')
def _at2(interp, args, kw):
    a = arr(args[0])
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return A.expand_dims(a, 0)
    return Arr((ix(1), ix(1)), lambda ii: a.node())


@np_('atleast_3d')
def _at3(interp, args, kw):
    a = arr(args[0])
    if a.ndim >= 3:
        return a
    if a.ndim == 2:
        return A.expand_dims(a, 2)
    if a.ndim == 1:
        return A.expand_dims(A.expand_dims(a, 0), 2)
    return Arr((ix(1),) * 3, lambda ii: a.node())


@np_('expand_dims')
def _expd(interp, args, kw):
    a, axis = bind(args, kw, 'a axis')
    ax = axes_of(axis)
    return A.expand_dims(arr(a), ax)


@np_('squeeze')
def _sq(interp, args, kw):
    a, axis = bind(args, kw, 'a axis')
    return A.squeeze(arr(a), axes_of(axis))


@np_('transpose', 'permute_dims')
def _tr(interp, args, kw):
    a, axes = bind(args, kw, 'a axes')
    return A.transpose(arr(a), axes_of(axes))


@np_('swapaxes')
def _swap(interp, args, kw):
    a = arr(args[0])
    i, j = norm_axis(static_int(args[1]), a.ndim), norm_axis(static_int(args[2]), a.ndim)
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return A.transpose(a, p)


@np_('moveaxis')
def _mv(interp, args, kw):
    a, s, d = bind(args, kw, 'a source destination')
    return A.moveaxis(arr(a), static_int(s), static_int(d))


def prod_ix(sizes):
    r = ix(1)
    for s in sizes:
        r = ixmul(r, s)
    return r


def reshape(a, shape):
    if any(s.const == -1 for s in shape):
        known = prod_ix([s for s in shape if s.const != -1])
        total = prod_ix(a.shape)
        if known.const == 1:
            missing = total
        elif known.const is not None and total.const is not None:
            missing = ix(total.const // known.const)
        else:
            # try to cancel matching dims
            rem = list(a.shape)
            for s in shape:
                if s.const == -1:
                    continue
                if s in rem:
                    rem.remove(s)
                elif s.const != 1:
                    raise Unknown('reshape')
            missing = prod_ix(rem)
        shape = tuple(missing if s.const == -1 else s for s in shape)
    src = [s for s in a.shape if s.const != 1]
    dst = [s for s in shape if s.const != 1]
    if src == dst:
        # only unit dimensions added/removed
        key_src = [d for d, s in enumerate(a.shape) if s.const != 1]
        pos = [d for d, s in enumerate(shape) if s.const != 1]

        def remap(ii):
            out = [ix(0)] * a.ndim
            for d, p in zip(key_src, pos):
                out[d] = ii[p]
            return tuple(out)

        return A.view(a, shape, remap)
    tot_a, tot_b = prod_ix(a.shape), prod_ix(shape)
    r = same(tot_a, tot_b)
    if r is False or (tot_a.const is not None and tot_b.const is not None and tot_a.const != tot_b.const):
        raise ShapeError(f'cannot reshape {list(a.shape)} into {list(shape)}')
    if tot_a is not tot_b:
        raise Unknown('reshape')

    def remap2(ii):
        flat = ix(0)
        for s, i in zip(shape, ii):
            flat = ixadd(ixmul(flat, s), i)
        out = []
        for s in reversed(a.shape[1:]):
            out.append(G.ixmod(flat, s))
            flat = G.ixfloordiv(flat, s)
        out.append(flat)
        return tuple(reversed(out))

    return A.view(a, shape, remap2)


@np_('reshape')
def _resh(interp, args, kw):
    return reshape(arr(args[0]), shape_of(args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape'))))


@np_('ravel')
def _ravel(interp, args, kw):
    a = arr(args[0])
    return reshape(a, (ix(-1),)) if a.ndim != 1 else a


@np_('broadcast_to')
def _bto(interp, args, kw):
    a, sh = arr(args[0]), shape_of(args[1])
    if A.bshape(a.shape, sh) != tuple(sh):
        raise ShapeError('broadcast_to')
    return Arr(sh, lambda ii: a.at(bcast_ix(a.shape, ii)), alias=a.alias)


@np_('tile')
def _tile(interp, args, kw):
    a, reps = bind(args, kw, 'A reps')
    return A.tile(arr(a), shape_of(reps))


@np_('repeat')
def _repeat(interp, args, kw):
    a, n, axis = bind(args, kw, 'a repeats axis')
    return A.repeat(arr(a), to_ix(n), None if axis is None else static_int(axis))


@np_('flip')
def _flip(interp, args, kw):
    a, axis = bind(args, kw, 'a axis')
    a = arr(a)
    ax = range(a.ndim) if axis is None else [norm_axis(x, a.ndim) for x in axes_of(axis)]
    return index(a, [('slice', None, None, -1) if d in ax else ('slice', None, None, 1) for d in range(a.ndim)])


@np_('flipud')
def _flipud(interp, args, kw):
    return _flip(interp, [args[0], 0], {})


@np_('fliplr')
def _fliplr(interp, args, kw):
    return _flip(interp, [args[0], 1], {})


@np_('roll')
def _roll(interp, args, kw):
    a, shift, axis = bind(args, kw, 'a shift axis')
    a, shift = arr(a), static_int(shift)
    if axis is None:
        if a.ndim != 1:
            raise Unknown('roll of a flattened array')
        axis = 0
    d = norm_axis(static_int(axis), a.ndim)
    n = a.shape[d]
    if n.const == 1 or shift == 0:
        return a
    if n.const is not None:
        shift %= n.const
    full = lambda lo, hi: index(a, [('slice', lo, hi, 1) if j == d else ('slice', None, None, 1) for j in range(a.ndim)])
    return A.concat([full(-shift, None), full(None, -shift)], d)


@np_('round', 'around', 'round_')
def _round(interp, args, kw):
    a, dec = bind(args, kw, 'a decimals', decimals=0)
    return emap(lambda x: G.mk('app', 'round', (repr(dec),), x), arr(a))


@np_('select')
def _select(interp, args, kw):
    cs, vs, dflt = bind(args, kw, 'condlist choicelist default', default=0)
    out = dflt
    for c, v in list(zip(interp.iter_items(cs), interp.iter_items(vs)))[::-1]:
        out = NP['where'](interp, [c, v, out], {})
    return out


@np_('argsort')
def _argsort(interp, args, kw):
    if len(args) != 1 or kw:
        raise Unknown('argsort')
    return sorted_axis(arr(args[0]), 'argsort')


@np_('percentile', 'quantile')
def _quantile(interp, args, kw):
    a, q, axis = bind(args, kw, 'a q axis')
    f = red_app('quantile:' + repr(arr(q).node().id))
    return f(interp, [a], {} if axis is None else {'axis': axis})


@np_('append')
def _append(interp, args, kw):
    a, b, axis = bind(args, kw, 'arr values axis')
    a, b = arr(a), arr(b)
    if axis is None:
        a = a if a.ndim == 1 else reshape(a, (ix(-1),))
        b = b if b.ndim == 1 else (Arr((ix(1),), lambda ii, b0=b: b0.node()) if not b.shape else reshape(b, (ix(-1),)))
        return A.concat([a, b], 0)
    return A.concat([a, b], static_int(axis))


@np_('concatenate')
def _concat(interp, args, kw):
    xs, axis = bind(args, kw, 'arrays axis', axis=0)
    it = interp.iter_items(xs)
    if isinstance(it, SeqV):
        a = arr(it)
        if a.ndim > 1 and a.shape[1].const == 1 and static_int(axis) == 0:
            return A.index(a, [('slice', None, None, 1), ix(0)])
        raise Unknown('joining a sequence of arrays')
    return A.concat([arr(x) for x in it], static_int(axis))


@np_('ndindex')
def _ndindex(interp, args, kw):
    if len(args) == 1 and not is_num(args[0]) and not isinstance(args[0], Ix):
        args = interp.iter_items(args[0])
    return GridV([interp.call_builtin_range(n) for n in args])


@np_('ndenumerate')
def _ndenum(interp, args, kw):
    a = arr(args[0])
    return GridV([interp.call_builtin_range(from_ix(n)) for n in a.shape], a)


@np_('hstack')
def _hst(interp, args, kw):
    if isinstance(interp.iter_items(args[0]), SeqV):
        raise Unknown('joining a sequence of arrays')
    xs = [arr(x) for x in interp.iter_items(args[0])]
    return A.concat(xs, 0 if xs[0].ndim == 1 else 1)


@np_('vstack')
def _vst(interp, args, kw):
    if isinstance(interp.iter_items(args[0]), SeqV):
        a = arr(interp.iter_items(args[0]))
        if a.ndim == 2:
            return a
        return _concat(interp, [args[0]], {})
    xs = [arr(x) for x in interp.iter_items(args[0])]
    if xs[0].ndim == 1:
        return A.stack(xs, 0)
    return A.concat(xs, 0)


@np_('stack')
def _stack(interp, args, kw):
    xs, axis = bind(args, kw, 'arrays axis', axis=0)
    items = interp.iter_items(xs)
    if isinstance(items, SeqV):
        a = arr(items)
        return A.moveaxis(a, 0, static_int(axis))
    return A.stack([arr(x) for x in items], static_int(axis))


@np_('column_stack')
def _cst(interp, args, kw):
    xs = [arr(x) for x in interp.iter_items(args[0])]
    if all(x.ndim == 1 for x in xs):
        return A.stack(xs, 1)
    raise Unknown('column_stack')


# ------------------------------------------------------------------ reductions
def weighted_sum(n, f):
    """sum_v f(v) over an axis of size n"""
    if n.const is not None and n.const <= 8:
        return G.add(*[f(ix(k)) for k in range(n.const)])
    v = G.fresh('s')
    return G.summ(v, n, f(ixv(v)))


def reduce_axes(a, axes, keepdims, f1):
    axes = list(range(a.ndim)) if axes is None else sorted(norm_axis(x, a.ndim) for x in axes)
    for d in reversed(axes):
        a = f1(a, d)
    if keepdims:
        a = A.expand_dims(a, axes) if axes else a
    return a


def sum_axis(a, d):
    n = a.shape[d]
    sh = a.shape[:d] + a.shape[d + 1:]
    r = Arr(sh, lambda ii: weighted_sum(n, lambda i: a.at(ii[:d] + (i,) + ii[d:])))
    if not sh:
        return scalar(r.node())
    return r


@np_('sum', 'nansum')
def _sum(interp, args, kw):
    a, axis, keep = bind(args, {k: v for k, v in kw.items() if k != 'dtype'}, 'a axis keepdims', keepdims=False)
    a = arr(a)
    if a.boolean:
        a = emap(lambda c: G.ite(c, G.ONE, G.ZERO), a)
    return reduce_axes(a, axes_of(axis), keep, sum_axis)


@np_('mean', 'average')
def _mean(interp, args, kw):
    a, axis, keep = bind(args, kw, 'a axis keepdims', keepdims=False)
    a = arr(a)
    ax = axes_of(axis)
    n = prod_ix(a.shape if ax is None else [a.shape[norm_axis(x, a.ndim)] for x in ax])
    s = reduce_axes(a, ax, keep, sum_axis)
    return emap(lambda x: G.div(x, G.ixval(n)), s)


@np_('cumsum')
def _cumsum(interp, args, kw):
    a, axis = bind(args, kw, 'a axis')
    a = arr(a)
    d = norm_axis(static_int(axis), a.ndim) if axis is not None else 0

    def at(ii):
        v = G.fresh('s')
        return G.summ(v, ixadd(ii[d], ix(1)), a.at(ii[:d] + (ixv(v),) + ii[d + 1:]))
    return Arr(a.shape, at)


def red_app(name):
    def f(interp, args, kw):
        a, axis, keep = bind(args, kw, 'a axis keepdims', keepdims=False)
        a = arr(a)

        def f1(a, d):
            n = a.shape[d]
            if n.const == 1:
                return index(a, [ix(0) if k == d else ('slice', None, None, 1) for k in range(a.ndim)])
            sh = a.shape[:d] + a.shape[d + 1:]

            def at(ii):
                v = G.fresh('l')
                body = a.at(ii[:d] + (ixv(v),) + ii[d:])
                if name in ('any', 'all') and body.op == 'bool':
                    return body
                return G.app(name, (), G.lam([(v, n)], body))
            r = Arr(sh, at, boolean=name in ('any', 'all'))
            return r if sh else Arr((), r._at, isarr=False, boolean=r.boolean)
        return reduce_axes(a, axes_of(axis), keep, f1)
    return f


for _n, _m in {'max': 'amax', 'amax': 'amax', 'min': 'amin', 'amin': 'amin', 'any': 'any', 'all': 'all', 'prod': 'prod',
               'std': 'std', 'var': 'var', 'median': 'median', 'nanmax': 'amax', 'nanmin': 'amin', 'ptp': 'ptp'}.items():
    NP[_n] = red_app(_m)


def arg_app(name):
    def f(interp, args, kw):
        a, axis = bind(args, kw, 'a axis')
        a = arr(a)
        if a.ndim == 1:
            if a.shape[0].const == 1:
                return 0
            return scalar(G.app(name, (), lamof(a)))
        raise Unknown(name)
    return f


NP['argmin'] = arg_app('argmin')
NP['argmax'] = arg_app('argmax')


@np_('unique')
def _unique(interp, args, kw):
    if len(args) == 1 and not kw:
        a = arr(args[0])
        vs = [G.fresh() for _ in a.shape]
        n = a.at(tuple(G.ixv(v) for v in vs))
        if not set(vs) & set(n.fv):
            return Arr((ix(1),), lambda ii: n)   # one value throughout
    raise Unknown('unique')


@np_('sort')
def _sort(interp, args, kw, name='sort'):
    if len(args) != 1 or kw:
        raise Unknown('sort')
    return sorted_axis(arr(args[0]))


def sorted_axis(a, name='sort'):
    """the n-th smallest along the last axis, as an opaque function of the whole axis"""
    if not a.shape:
        raise Unknown('sort')
    n = a.shape[-1]
    if n.const == 1:
        return a
    v = G.fresh()
    return Arr(a.shape, lambda ii: G.app(name, (), G.lam([(v, n)], a.at(ii[:-1] + (ixv(v),))), G.ixval(ii[-1])))


@np_('diff')
def _diff(interp, args, kw):
    a, n, axis = bind(args, kw, 'a n axis', n=1, axis=-1)
    a = arr(a)
    if n != 1:
        raise Unknown('diff n')
    d = norm_axis(static_int(axis), a.ndim)
    sh = a.shape[:d] + (ixadd(a.shape[d], ix(-1)),) + a.shape[d + 1:]
    return Arr(sh, lambda ii: G.sub(a.at(ii[:d] + (ixadd(ii[d], ix(1)),) + ii[d + 1:]), a.at(ii)))


@np_('gradient')
def _gradient(interp, args, kw):
    xs = [arr(x) for x in args]
    if len(xs) > 2 or kw or xs[0].ndim != 1:
        raise Unknown('gradient')
    ls = [lamof(x) for x in xs]
    return Arr(xs[0].shape, lambda ii: G.app('gradient', (), G.ixval(ii[0]), *ls))


def nonzero(a):
    a = boolish(a)
    if a.ndim != 1:
        raise Unknown('nonzero of n-d array')
    l = lamof(a)
    n = Ix(((('node', G.app('nnz', (), l)), 1),), 0)
    return Arr((n,), lambda ii: G.app('nonzero_idx', (), l, G.ixval(ii[0])))


@np_('nonzero', 'flatnonzero', 'argwhere')
def _nonzero(interp, args, kw):
    return (nonzero(arr(args[0])),)


@np_('isclose')
def _isclose(interp, args, kw):
    return emap(lambda x, y: G.app('isclose', (), G.fn('abs', G.sub(x, y))), as_float(arr(args[0])), as_float(arr(args[1])), boolean=True)


def as_float(a):
    if a.boolean:
        return emap(lambda c: G.ite(c, G.ONE, G.ZERO), a)
    return a


@np_('allclose')
def _allclose(interp, args, kw):
    return NP['all'](interp, [_isclose(interp, args[:2], {})], {})


@np_('array_equal')
def _arreq(interp, args, kw):
    a, b = arr(args[0]), arr(args[1])
    if a.ndim != b.ndim:
        return False
    eq = True
    for s, t in zip(a.shape, b.shape):
        r = same(s, t)
        if r is False:
            return False
        if r is None:
            raise Unknown('array_equal')
    vs = [(G.fresh('l'), s) for s in a.shape]
    ii = tuple(ixv(v) for v, _ in vs)
    d = G.sub(a.at(ii), b.at(ii))
    if d is G.ZERO:
        return True
    return Arr((), lambda i: G.app('allzero', (), G.lam(vs, G.powr(d, 2))), isarr=False, boolean=True)


@np_('outer')
def _outer(interp, args, kw):
    a, b = arr(args[0]), arr(args[1])
    a = a if a.ndim == 1 else reshape(a, (ix(-1),))
    b = b if b.ndim == 1 else reshape(b, (ix(-1),))
    return Arr((a.shape[0], b.shape[0]), lambda ii: G.mul(a.at((ii[0],)), b.at((ii[1],))))


def need_same(s, t):
    r = same(s, t)
    if r is False:
        raise ShapeError(f'contracted dimensions differ: {s} against {t}')
    if r is None:
        raise Unknown('contracted dimensions')


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return emap(G.mul, a, b)
    av = a.ndim == 1
    bv = b.ndim == 1
    if av:
        a = A.expand_dims(a, 0)
    if bv:
        b = A.expand_dims(b, 1)
    need_same(a.shape[-1], b.shape[-2])
    lead = A.bshape(a.shape[:-2], b.shape[:-2]) if a.ndim > 2 or b.ndim > 2 else ()
    n = a.shape[-1]
    sh = lead + (a.shape[-2], b.shape[-1])

    def at(ii):
        l, i, j = ii[:-2], ii[-2], ii[-1]
        return weighted_sum(n, lambda k: G.mul(a.at(bcast_ix(a.shape[:-2], l) + (ix(0) if a.shape[-2].const == 1 else i, k)),
                                               b.at(bcast_ix(b.shape[:-2], l) + (k, ix(0) if b.shape[-1].const == 1 else j))))
    r = Arr(sh, at)
    if bv:
        r = index(r, [Ellipsis, ix(0)])
    if av:
        r = index(r, [Ellipsis, ix(0)] if bv else [Ellipsis, ix(0), ('slice', None, None, 1)])
    return r


@np_('matmul')
def _matmul(interp, args, kw):
    return matmul(arr(args[0]), arr(args[1]))


@np_('dot')
def _dot(interp, args, kw):
    a, b = arr(args[0]), arr(args[1])
    if a.ndim <= 2 and b.ndim <= 2 or b.ndim == 1:
        return matmul(a, b)
    raise Unknown('dot')


@np_('tensordot')
def _tensordot(interp, args, kw):
    a, b, axes = bind(args, kw, 'a b axes', axes=2)
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        x, y = interp.iter_items(axes)
        aa = [norm_axis(d, a.ndim) for d in axes_of(x)]
        bb = [norm_axis(d, b.ndim) for d in axes_of(y)]
    for p, q in zip(aa, bb):
        need_same(a.shape[p], b.shape[q])
    fa = [d for d in range(a.ndim) if d not in aa]
    fb = [d for d in range(b.ndim) if d not in bb]
    sh = [a.shape[d] for d in fa] + [b.shape[d] for d in fb]

    def at(ii):
        def rec(k, ia, ib):
            if k == len(aa):
                return G.mul(a.at(tuple(ia)), b.at(tuple(ib)))

            def f(v):
                ia2, ib2 = list(ia), list(ib)
                ia2[aa[k]] = v
                ib2[bb[k]] = v
                return rec(k + 1, ia2, ib2)
            return weighted_sum(a.shape[aa[k]], f)
        ia = [None] * a.ndim
        ib = [None] * b.ndim
        for d, v in zip(fa, ii):
            ia[d] = v
        for d, v in zip(fb, ii[len(fa):]):
            ib[d] = v
        return rec(0, ia, ib)
    r = Arr(sh, at)
    return r if sh else scalar(r.node())


@np_('einsum')
def _einsum(interp, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ('optimize',)}
    if kw or not isinstance(args[0], str):
        raise Unknown('einsum')
    r = A.einsum(args[0], [arr(x) for x in args[1:]])
    return r if r.shape else scalar(r.at(()))


# ------------------------------------------------------------------ integration
def simpson_(interp, args, kw, name='w_simpson'):
    y, x, dx, axis = bind(args, {k: v for k, v in kw.items() if k != 'even'}, 'y x dx axis', dx=1, axis=-1)
    y = arr(y)
    d = norm_axis(static_int(axis), y.ndim)
    n = y.shape[d]
    sh = y.shape[:d] + y.shape[d + 1:]
    if x is None:
        dx = arr(dx)
        if dx.shape:
            raise Unknown('array dx')

        def at(ii):
            return G.mul(dx.node(), weighted_sum(n, lambda v: G.mul(G.app(name + '_dx', (), G.ixval(v), G.ixval(n)), y.at(ii[:d] + (v,) + ii[d:]))))
    else:
        x = arr(x)
        if x.ndim == 1:
            xi = lambda ii, v: x.at((v,))
            xn = x.shape[0]
        else:
            if x.ndim != y.ndim:
                raise ShapeError(f'integration abscissa of shape {list(x.shape)} for integrand of shape {list(y.shape)}')
            xn = x.shape[d]
            rest = x.shape[:d] + x.shape[d + 1:]
            for s, t in zip(rest, sh):
                if s.const != 1:
                    need_same(s, t)
            xi = lambda ii, v: (lambda r: x.at(r[:d] + (v,) + r[d:]))(bcast_ix(rest, ii))
        if n.const == 1 and xn.const != 1:
            # integrand broadcast along the integration axis
            raise ShapeError(f'integrand has a single point along the integration axis of size {xn}')
        need_same(xn, n)

        def at(ii):
            l = G.fresh('l')
            lx = G.lam([(l, n)], xi(ii, ixv(l)))
            return weighted_sum(n, lambda v: G.mul(G.app(name, (), G.ixval(v), lx), y.at(ii[:d] + (v,) + ii[d:])))
    r = Arr(sh, at)
    return r if sh else scalar(r.node())


FN['scipy.integrate.simpson'] = simpson_
FN['scipy.integrate.simps'] = simpson_


def trapz_(interp, args, kw):
    y, x, dx, axis = bind(args, kw, 'y x dx axis', dx=1, axis=-1)
    y = arr(y)
    d = norm_axis(static_int(axis), y.ndim)
    n = y.shape[d]
    sh = y.shape[:d] + y.shape[d + 1:]
    half = G.const(Fraction(1, 2))
    n1 = ixadd(n, ix(-1))
    x_ = arr(x) if x is not None else None
    dx_ = arr(dx)
    if x_ is not None:
        if x_.ndim not in (1, y.ndim):
            raise Unknown('trapezoid x')
        need_same(x_.shape[0] if x_.ndim == 1 else x_.shape[d], n)

    def xat(ii, v):
        if x_ is None:
            return G.mul(G.ixval(v), dx_.node())
        if x_.ndim == 1:
            return x_.at((v,))
        rest = x_.shape[:d] + x_.shape[d + 1:]
        r = bcast_ix(rest, ii)
        return x_.at(r[:d] + (v,) + r[d:])

    def at(ii):
        def f(v):
            w = ixadd(v, ix(1))
            return G.mul(half, G.sub(xat(ii, w), xat(ii, v)), G.add(y.at(ii[:d] + (w,) + ii[d:]), y.at(ii[:d] + (v,) + ii[d:])))
        return weighted_sum(n1, f)
    r = Arr(sh, at)
    return r if sh else scalar(r.node())


FN['scipy.integrate.trapezoid'] = trapz_
NP['trapz'] = trapz_
NP['trapezoid'] = trapz_


def real_fn(interp, f, n=1):
    vs = [G.fresh('r') for _ in range(n)]
    r = interp.call(f, [scalar(G.rvar(v)) for v in vs], {})
    return vs, r


@ext('scipy.integrate.quad')
def _quad(interp, args, kw):
    if len(args) < 3:
        raise Unknown('quad')
    f, a, b = args[:3]
    vs, r = real_fn(interp, f)
    if isinstance(r, Top):
        return r
    r = arr(r)
    if r.shape:
        raise Unknown('quad of array')
    body = r.node()
    node = G.app('quad', (), G.lam([(vs[0], 'real')], body), arr(a).node(), arr(b).node())
    return (scalar(node), scalar(G.app('quad_err', (), node)))


@ext('scipy.integrate.solve_ivp')
def _ivp(interp, args, kw):
    fun, span, y0, method, t_eval = bind(args, kw, 'fun t_span y0 method t_eval', method='RK45')
    y0s = [arr(x).node() for x in interp.iter_items(y0)]
    t = G.fresh('r')
    ys = [G.fresh('r') for _ in y0s]
    out = interp.call(fun, [scalar(G.rvar(t)), ListV([scalar(G.rvar(y)) for y in ys])], {})
    if isinstance(out, Top):
        return out
    outs = [arr(x).node() for x in interp.iter_items(out)]
    rhs = G.lam([(t, 'real')] + [(y, 'real') for y in ys], G.mk('app', 'tup', (), *outs))
    sp = [arr(x).node() for x in interp.iter_items(span)]
    te = arr(t_eval)
    lt = lamof(te)
    y = Arr((ix(len(y0s)),) + te.shape, lambda ii: G.app('ivp', (), rhs, G.mk('app', 'tup', (), *sp), G.mk('app', 'tup', (), *y0s), lt, G.ixval(ii[0]), G.ixval(ii[1])))
    return ExtObj('ivpresult', {'y': y, 't': te})


@ext('scipy.optimize.root_scalar')
def _root(interp, args, kw):
    f = args[0]
    vs, r = real_fn(interp, f)
    node = G.app('root', (), G.lam([(vs[0], 'real')], arr(r).node()))
    return ExtObj('rootresult', {'root': scalar(node)})


# ------------------------------------------------------------------ interpolation
@ext('scipy.interpolate.interp1d')
def _interp1d(interp, args, kw):
    x, y, kind, axis, copy, be, fill, srt = bind(args, kw, 'x y kind axis copy bounds_error fill_value assume_sorted', kind='linear', axis=-1)
    if not isinstance(kind, (str, int)):
        raise Unknown('interpolation kind')
    x, y = arr(x), arr(y)
    d = norm_axis(static_int(axis), y.ndim)
    if x.ndim != 1:
        raise ShapeError(f'interpolation abscissa must be 1-d, has shape {list(x.shape)}')
    r = same(x.shape[0], y.shape[d])
    if r is False:
        raise ShapeError(f'interpolation abscissa of size {x.shape[0]} against axis of size {y.shape[d]}')
    if r is None:
        raise Unknown('interpolation sizes')
    if isinstance(fill, str):
        if fill != 'extrapolate':
            raise Unknown('fill value')
        mode, fv = 'extrap', None
    elif fill is None:
        mode, fv = ('nan', None) if be is False else ('raise', None)
    elif isinstance(fill, tuple):
        mode, fv = 'fill2', tuple(arr(f).node() for f in fill)
    elif isinstance(fill, StrV):
        mode, fv = 'sym', (fill.node,)
    else:
        f = arr(fill)
        if f.shape:
            raise Unknown('array fill value')
        mode, fv = 'fill', (f.node(),)
    if kind == 'slinear':
        kind = 'linear'
    return ExtObj('interp1d', {'x': x, 'y': y, 'axis': d, 'kind': kind, 'mode': mode, '_fv': fv})


def interp_call(interp, o, args, kw):
    xq = arr(args[0])
    x, y, d, kind, mode, fv = (o.f[k] for k in ('x', 'y', 'axis', 'kind', 'mode', '_fv'))
    n = x.shape[0]
    nq = xq.ndim
    sh = y.shape[:d] + xq.shape + y.shape[d + 1:]
    lx = lamof(x)

    def at(ii):
        q = xq.at(ii[d:d + nq])
        yat = lambda v: y.at(ii[:d] + (v,) + ii[d + nq:])
        if n.const is not None and n.const > 32:
            v = G.fresh('l')
            base = G.app('interp', (str(kind), mode), lx, G.lam([(v, n)], yat(ixv(v))), q)
            if mode in ('fill', 'fill2', 'sym'):
                base = G.app('interpfill', (mode,), base, *fv)
            return base
        s = weighted_sum(n, lambda v: G.mul(G.app('w_interp', (str(kind), mode), G.ixval(v), lx, q), yat(v)))
        if mode == 'fill' and fv[0] is not G.ZERO:
            s = G.add(s, G.mul(fv[0], G.app('outside', (), lx, q)))
        elif mode == 'fill2':
            s = G.add(s, G.mul(fv[0], G.app('below', (), lx, q)), G.mul(fv[1], G.app('above', (), lx, q)))
        elif mode == 'sym':
            s = G.add(s, G.app('fillsym', (), fv[0], lx, q))
        return s
    r = Arr(sh, at)
    return r if sh else Arr((), r._at, isarr=True)


@np_('interp')
def _npinterp(interp, args, kw):
    xq, x, y, left, right = bind(args, kw, 'x xp fp left right')
    xq, x, y = arr(xq), arr(x), arr(y)
    if x.ndim != 1 or y.ndim != 1:
        raise Unknown('np.interp')
    lx = lamof(x)
    n = x.shape[0]
    need_same(n, y.shape[0])
    if left is not None or right is not None:
        raise Unknown('np.interp fill')
    return emap(lambda q: weighted_sum(n, lambda v: G.mul(G.app('w_interp', ('linear', 'clamp'), G.ixval(v), lx, q), y.at((v,)))), xq)


@ext('scipy.interpolate.RegularGridInterpolator')
def _rgi(interp, args, kw):
    pts, vals, method, be, fill = bind(args, kw, 'points values method bounds_error fill_value', method='linear', bounds_error=True)
    pts = [arr(p) for p in interp.iter_items(pts)]
    vals = arr(vals)
    for k, p in enumerate(pts):
        if p.ndim != 1:
            raise ShapeError('grid axis must be 1-d')
        need_same(p.shape[0], vals.shape[k])
    return ExtObj('rgi', {'pts': tuple(pts), 'vals': vals, 'method': method, 'be': be, 'fill': fill})


def rgi_call(interp, o, args, kw):
    q = args[0]
    method = kw.get('method', o.f['method'])
    lams = [lamof(p) for p in o.f['pts']]
    lv = lamof(o.f['vals'])
    nd = len(lams)
    ext_ = (method, 'extrap' if o.f['fill'] is None and o.f['be'] is False else repr(o.f['be']) + repr(o.f['fill']))
    if isinstance(q, tuple) or isinstance(q, ListV):
        qs = [arr(x) for x in interp.iter_items(q)]
        if len(qs) != nd:
            raise Unknown('rgi points')
        return emap(lambda *n: G.app('rgi', ext_, lv, *lams, *n), *qs)
    q = arr(q)
    if q.shape[-1].const != nd:
        raise ShapeError(f'interpolation points of dimension {q.shape[-1]} on a {nd}-d grid')
    return Arr(q.shape[:-1], lambda ii: G.app('rgi', ext_, lv, *lams, *[q.at(ii + (ix(k),)) for k in range(nd)]))


@ext('scipy.ndimage.gaussian_filter1d')
def _gf1(interp, args, kw):
    y, sigma, axis = bind(args, kw, 'input sigma axis', axis=-1)
    y = arr(y)
    d = norm_axis(static_int(axis), y.ndim)
    n = y.shape[d]
    s = arr(sigma).node()
    return Arr(y.shape, lambda ii: weighted_sum(n, lambda v: G.mul(G.app('w_gauss', (), G.ixval(v), G.ixval(ii[d]), G.ixval(n), s), y.at(ii[:d] + (v,) + ii[d + 1:]))))


@ext('scipy.fft.fhtoffset')
def _fhtoffset(interp, args, kw):
    dln, mu, ini, bias = bind(args, kw, 'dln mu initial bias', initial=0, bias=0)
    return scalar(G.app('fhtoffset', (), *[arr(x).node() for x in (dln, mu, ini, bias)]))


def fht_(name):
    def f(interp, args, kw):
        a, dln, mu, off, bias = bind(args, kw, 'a dln mu offset bias', offset=0, bias=0)
        a = arr(a)
        n = a.shape[-1]
        ns = [arr(x).node() for x in (dln, mu, off, bias)]

        def at(ii):
            v = G.fresh('l')
            return G.app(name, (), G.lam([(v, n)], a.at(ii[:-1] + (ixv(v),))), *ns, G.ixval(ii[-1]))
        return Arr(a.shape, at)
    return f


FN['scipy.fft.fht'] = fht_('fht')
FN['scipy.fft.ifht'] = fht_('ifht')


@ext('hankel.HankelTransform')
def _hankel(interp, args, kw):
    nu, N, h = bind(args, kw, 'nu N h')
    return ExtObj('hankel', {'nu': arr(nu), 'N': arr(N), 'h': arr(h)})


@ext('scipy.special.erf')
def _erf(interp, args, kw):
    return emap(lambda x: G.fn('erf', x), arr(args[0]))


@ext('scipy.special.erfc')
def _erfc(interp, args, kw):
    return emap(lambda x: G.sub(G.ONE, G.fn('erf', x)), arr(args[0]))


@ext('scipy.special.gamma')
def _gamma(interp, args, kw):
    def f(x):
        if x.op == 'const' and x.args[0].denominator == 1 and 0 < x.args[0] < 100:
            r = 1
            for k in range(2, int(x.args[0])):
                r *= k
            return G.const(r)
        if x.op == 'const' and x.args[0].denominator == 2 and abs(x.args[0]) < 60:
            v = x.args[0]
            c = Fraction(1)
            while v > Fraction(1, 2):
                v -= 1
                c *= v
            while v < Fraction(1, 2):
                c /= v
                v += 1
            return G.mul(G.const(c), G.sqrt(G.PI))
        return G.fn('gamma', x)
    return emap(f, arr(args[0]))


@ext('scipy.special.binom', 'scipy.special.comb')
def _binom(interp, args, kw):
    def f(n, k):
        if k.op == 'const' and k.args[0].denominator == 1 and 0 <= k.args[0] < 60 and n.op == 'const':
            r = Fraction(1)
            for j in range(int(k.args[0])):
                r *= (n.args[0] - j) / Fraction(j + 1)
            return G.const(r)
        return G.fn('binom', n, k)
    return emap(f, arr(args[0]), arr(args[1]))


for _n in ('j0', 'j1', 'jv', 'jn', 'loggamma', 'gammaln', 'sici', 'spherical_jn', 'expit', 'exp1', 'hyp2f1', 'poch', 'lambertw'):
    FN['scipy.special.' + _n] = (lambda n: lambda interp, args, kw: emap(lambda *x: G.fn(n, *x), *[arr(a) for a in args]))(_n)


@np_('histogram')
def _hist(interp, args, kw):
    a, bins, rng, density, weights = bind(args, kw, 'a bins range density weights', bins=10, density=False)
    if rng is not None or weights is not None:
        raise Unknown('histogram options')
    a = arr(a)
    l = lamof(a)
    nb = to_ix(bins)
    h = Arr((nb,), lambda ii: G.app('hist', (bool(density),), l, G.ixval(nb), G.ixval(ii[0])))
    e = Arr((ixadd(nb, ix(1)),), lambda ii: G.app('histedge', (), l, G.ixval(nb), G.ixval(ii[0])))
    return (h, e)


@np_('loadtxt', 'genfromtxt')
def _loadtxt(interp, args, kw):
    name = pack(args[0])
    cols = kw.get('usecols')
    if kw.get('unpack') is not True:
        raise Unknown('loadtxt')
    cs = axes_of(cols)
    n = G.ixn('F')
    return tuple(Arr((n,), (lambda c: lambda ii: G.app('filecol', (c,), name, G.ixval(ii[0])))(c)) for c in cs)


@np_('savetxt', 'seterr', 'errstate')
def _noop(interp, args, kw):
    return None


@np_('ndim')
def _ndim(interp, args, kw):
    return arr(args[0]).ndim


@np_('size')
def _size(interp, args, kw):
    return from_ix(prod_ix(arr(args[0]).shape))


@np_('shape')
def _shape(interp, args, kw):
    return tuple(from_ix(s) for s in arr(args[0]).shape)


@np_('isscalar')
def _isscalar(interp, args, kw):
    return not (isinstance(args[0], Arr) and (args[0].shape or args[0].isarr)) and not isinstance(args[0], (ListV, tuple, DictV))


@np_('float64', 'float32', 'int64', 'int32', 'int_', 'float_', 'double', 'complex128')
def _cast(interp, args, kw):
    return args[0]


@np_('isnan', 'isfinite', 'isinf')
def _isnan(interp, args, kw):
    return emap(lambda x: G.app('isnan', (), x), arr(args[0]), boolean=True)


@np_('vectorize')
def _vect(interp, args, kw):
    return ExtObj('vectorized', {'_f': args[0]})


@np_('take')
def _take(interp, args, kw):
    a, i, axis = bind(args, kw, 'a indices axis')
    a = arr(a)
    k = interp.ixkey(i)
    if axis is None and a.ndim == 1:
        return index(a, [k])
    d = norm_axis(static_int(axis), a.ndim)
    return index(a, [('slice', None, None, 1)] * d + [k])


@np_('searchsorted')
def _ss(interp, args, kw):
    a, v, side = bind(args, kw, 'a v side', side='left')
    l = lamof(arr(a))
    return emap(lambda x: G.app('searchsorted', (side,), l, x), arr(v))


NPCONST = {'pi': lambda: scalar(G.PI), 'newaxis': lambda: None, 'inf': lambda: scalar(G.const(float('inf'))),
           'nan': lambda: scalar(G.const(float('nan'))), 'e': lambda: scalar(G.exp(G.ONE))}


# ------------------------------------------------------------------ dispatch
def ext_attr(interp, path, name):
    full = path + '.' + name
    if path in ('numpy', 'math', 'scipy.constants') and name in NPCONST:
        return NPCONST[name]()
    if path.startswith('cosmosis'):
        if name == 'option_section':
            return 'module_options'
        if path.endswith('.names'):
            return name
    return ExtV(full)


ALIASES = {'numpy.absolute': 'numpy.abs', 'scipy.integrate.simps': 'scipy.integrate.simpson'}


def into(interp, old, new, what):
    """new content of the storage of an array"""
    interp.note_mut(old.alias, what)
    if old.root is not None:
        interp.store_into(*old.root, new)
        return
    interp.replace_identity(old, new)
    if old.base is not None:
        interp.replace_identity(old.base, Top('modified through a view'))


def call(interp, path, args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top):
            return v
    if not path.startswith('builtins.'):
        for k, v in enumerate(args):
            if isinstance(v, PhiV):
                return phi(v.cond, call(interp, path, args[:k] + [v.a] + args[k + 1:], kw), call(interp, path, args[:k] + [v.b] + args[k + 1:], kw))
        for k, v in kw.items():
            if isinstance(v, PhiV):
                return phi(v.cond, call(interp, path, args, {**kw, k: v.a}), call(interp, path, args, {**kw, k: v.b}))
    if path in FN:
        return FN[path](interp, list(args), kw)
    if path.startswith('numpy.'):
        n = path.split('.')[-1]
        if path.count('.') == 1 and n == 'copyto':
            dst, src = args[0], arr(args[1])
            m = arr(kw['where']) if 'where' in kw else None
            new = Arr(dst.shape, lambda ii: src.at(bcast_ix(src.shape, ii)) if m is None else
                      G.ite(m.at(bcast_ix(m.shape, ii)), src.at(bcast_ix(src.shape, ii)), dst.at(ii)), boolean=dst.boolean)
            into(interp, dst, new, 'np.copyto')
            return None
        if path.count('.') == 1 and n in ('put', 'place', 'putmask', 'fill_diagonal') and isinstance(args[0], Arr):
            into(interp, args[0], Top(f'np.{n}'), f'np.{n}')
            return None
        if path.count('.') == 1 and n in NP:
            out = kw.get('out')
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
            if n in UFUNCS and (isinstance(out, Arr) or 'where' in kw):
                k2 = {k: v for k, v in kw.items() if k not in ('out', 'where')}
                r = NP[n](interp, list(args), k2)
                m = arr(kw['where']) if isinstance(kw.get('where'), Arr) else None
                if isinstance(r, Arr):
                    sh = out.shape if isinstance(out, Arr) else r.shape
                    r0 = r
                    r = Arr(sh, lambda ii: r0.at(bcast_ix(r0.shape, ii)) if m is None else
                            G.ite(m.at(bcast_ix(m.shape, ii)), r0.at(bcast_ix(r0.shape, ii)), out.at(ii) if isinstance(out, Arr) else UNINIT), boolean=r0.boolean)
                if isinstance(out, Arr):
                    into(interp, out, r, f'np.{n}(out=)')
                return r
            if isinstance(out, Arr):
                r = NP[n](interp, list(args), {k: v for k, v in kw.items() if k != 'out'})
                into(interp, out, r, f'np.{n}(out=)')
                return r
            if n == 'nan_to_num' and kw.get('copy') is False and isinstance(args[0], Arr):
                r = NP[n](interp, list(args), {k: v for k, v in kw.items() if k != 'copy'})
                into(interp, args[0], r, 'np.nan_to_num(copy=False)')
                return r
            return NP[n](interp, list(args), kw)
    if path == 'itertools.product' and not kw:
        return GridV([interp.seq_of(x) for x in args])
    if path.startswith('math.'):
        n = path[5:]
        if n in NP:
            return NP[n](interp, list(args), kw)
    if path.startswith('builtins.'):
        n = path[9:]
        f = BI.get(n)
        if f is not None:
            return f(interp, list(args), kw)
        if n in ('Exception',) or n.endswith('Error') or n.endswith('Warning'):
            return Top('exception object')
    if path.startswith('warnings.') or path.startswith('logging.'):
        return None
    interp.opaque_calls[path] = interp.opaque_calls.get(path, 0) + 1
    raise Unknown(f'library call {path}')


BI = {}


def bi(name):
    def d(f):
        BI[name] = f
        return f
    return d


@bi('len')
def _len(interp, args, kw):
    v = args[0]
    if isinstance(v, PhiV):
        return phi(v.cond, _len(interp, [v.a], kw), _len(interp, [v.b], kw))
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, ListV):
        if v.items and isinstance(v.items[0], str) and v.items[0] == '__seq__':
            return from_ix(v.items[1].size)
        return len(v.items)
    if isinstance(v, DictV):
        return len(v.d)
    if isinstance(v, SeqV):
        return from_ix(v.size)
    if isinstance(v, Arr):
        if not v.shape:
            raise Unknown('len of scalar')
        return from_ix(v.shape[0])
    raise Unknown('len')


@bi('range')
def _range(interp, args, kw):
    a = [to_ix(x) for x in args]
    lo, hi, st = (ix(0), a[0], ix(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ix(1))
    span = ixadd(hi, lo, -1)
    if span.const is not None and lo.const is not None and st.const:
        return ListV(range(lo.const, hi.const, st.const))
    if st.const == 1:
        n = span
    else:
        n = G.ixfloordiv(ixadd(ixadd(span, st), ix(-1)), st)
    if n.const is not None:
        return ListV([from_ix(ixadd(lo, ixmul(ix(k), st))) for k in range(max(0, n.const))])
    return SeqV(n, lambda i: from_ix(ixadd(lo, ixmul(i, st))))


def seqs(interp, vs):
    items = [interp.iter_items(v) for v in vs]
    syms = [s for s in items if isinstance(s, SeqV)]
    if not syms:
        return items, None
    n = syms[0].size
    for s in syms[1:]:
        r = same(s.size, n)
        if r is False:
            raise Unknown('zip of sequences over different grids')
        if r is None:
            raise Unknown('zip of sequences')
    fs = []
    for s in items:
        if isinstance(s, SeqV):
            fs.append(s.fn)
        else:
            raise Unknown('zip of a symbolic and a concrete sequence')
    return fs, n


@bi('zip')
def _zip(interp, args, kw):
    t = find_top(tuple(args))
    if t is not None:
        return t
    items, n = seqs(interp, args)
    if n is None:
        return ListV([tuple(x) for x in zip(*items)])
    return SeqV(n, lambda i: tuple(f(i) for f in items))


@bi('enumerate')
def _enum(interp, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else 0)
    items, n = seqs(interp, args[:1])
    if n is None:
        return ListV([(k + start, x) for k, x in enumerate(items[0])])
    return SeqV(n, lambda i: (from_ix(ixadd(i, to_ix(start))), items[0](i)))


@bi('sum')
def _bsum(interp, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    v = args[0]
    if isinstance(v, Arr):
        r = sum_axis(v, 0)
        return interp.binop('Add', r, start) if start != 0 else r
    items = interp.iter_items(v)
    if isinstance(items, SeqV):
        a = arr(items)
        r = sum_axis(a, 0)
        return interp.binop('Add', r, start) if start != 0 else r
    acc = start
    for x in items:
        acc = interp.binop('Add', acc, x)
    return acc


def minmax(name):
    def f(interp, args, kw):
        items = list(args) if len(args) > 1 else interp.iter_items(args[0])
        if isinstance(items, SeqV):
            return NP[name](interp, [arr(items)], {})
        if all(is_num(x) for x in items):
            return (max if name == 'max' else min)(items)
        acc = arr(items[0])
        for x in items[1:]:
            acc = emap(lambda p, q: G.fn('maximum' if name == 'max' else 'minimum', p, q), acc, arr(x))
        return acc
    return f


BI['max'] = minmax('max')
BI['min'] = minmax('min')


@bi('abs')
def _abs(interp, args, kw):
    if is_num(args[0]):
        return abs(args[0])
    return NP['abs'](interp, args, {})


@bi('isinstance')
def _isinst(interp, args, kw):
    v, t = args
    if isinstance(v, PhiV):
        return phi(v.cond, _isinst(interp, [v.a, t], {}), _isinst(interp, [v.b, t], {}))
    ts = list(t) if isinstance(t, tuple) else [t]
    for x in ts:
        if isinstance(x, ClassV):
            if isinstance(v, ObjV) and x in v.cls.mro():
                return True
            continue
        p = x.path if isinstance(x, ExtV) else ''
        n = p.split('.')[-1]
        if n == 'str' and isinstance(v, (str, StrV)):
            return True
        if n == 'dict' and isinstance(v, DictV):
            return True
        if n == 'list' and isinstance(v, (ListV, SeqV)):
            return True
        if n == 'tuple' and isinstance(v, tuple):
            return True
        if n == 'bool' and isinstance(v, bool):
            return True
        if n == 'int' and (isinstance(v, (int, Ix))):
            return True
        if n == 'float' and (isinstance(v, Fraction) or isinstance(v, Arr) and not v.shape and not v.isarr):
            return True
        if n in ('Number', 'Real') and (is_num(v) or isinstance(v, Ix) or isinstance(v, Arr) and not v.shape):
            return True
        if n == 'ndarray' and isinstance(v, Arr) and (v.shape or v.isarr):
            return True
        if n in ('Iterable', 'Sequence', 'Sized') and (isinstance(v, (ListV, tuple, SeqV)) or isinstance(v, Arr) and v.shape):
            return True
        if isinstance(v, ExtObj) and v.kind in ('blockval',):
            raise Unknown('type of a datablock value')
    return False


@bi('hasattr')
def _hasattr(interp, args, kw):
    if isinstance(args[0], ExtV) and args[0].path == 'halomod.concentration' and isinstance(args[1], str):
        return args[1] in CONC_CLASSES
    v, n = args
    if isinstance(v, ObjV):
        c, m = v.cls.lookup(n)
        return m is not None or n in v.f
    if isinstance(v, ClassV) and isinstance(n, str) and not (n.startswith('__') and n.endswith('__')):
        from .interp import FRAMEWORK_MEMBERS
        return v.lookup(n)[1] is not None or n in FRAMEWORK_MEMBERS
    if isinstance(v, ModV) and isinstance(n, str):
        return n in v.frame.f
    if n in ('__len__', '__iter__', '__getitem__'):
        if isinstance(v, (ListV, tuple, SeqV, DictV, str)):
            return True
        if isinstance(v, Arr):
            return bool(v.shape) or v.isarr
        return False
    if isinstance(v, PhiV):
        return phi(v.cond, _hasattr(interp, [v.a, n], {}), _hasattr(interp, [v.b, n], {}))
    raise Unknown('hasattr')


CONC_CLASSES = {'CMRelation', 'Bullock01', 'Bullock01Power', 'Maccio07', 'Duffy08', 'Zehavi11', 'Ludlow16', 'Ludlow16Empirical',
                'Ludlow2016', 'Ludlow2016Empirical', 'interp_concentration', 'make_colossus_cm'}


@bi('getattr')
def _getattr(interp, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        if isinstance(o, ExtV):
            return ExtObj('dynattr', {'path': o.path, 'name': n})
        raise Unknown('dynamic attribute name')
    if isinstance(o, ExtV) and o.path == 'halomod.concentration' and n not in CONC_CLASSES:
        if len(args) > 2:
            return args[2]
        raise interp.raise_sig('AttributeError')
    if len(args) > 2:
        if isinstance(o, ObjV):
            return interp.obj_getattr(o, n, args[2])
        if isinstance(o, ExtObj) and n in o.f:
            return o.f[n]
    return interp.getattr(o, n)


@bi('setattr')
def _setattr(interp, args, kw):
    if not isinstance(args[1], str):
        raise Unknown('dynamic attribute name')
    interp.setattr(*args)


@bi('print')
def _print(interp, args, kw):
    return None


@bi('int')
def _int(interp, args, kw):
    v = args[0] if args else 0
    if isinstance(v, (int, Ix)):
        return int(v) if isinstance(v, bool) else v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        return int(v)
    a = arr(v)
    if not a.shape and a.node().op == 'const':
        return int(a.node().args[0])
    if not a.shape and a.node().op == 'ixval':
        return a.node().args[0]
    return emap(lambda x: G.fn('int', x), a)


@bi('float')
def _float(interp, args, kw):
    v = args[0] if args else 0
    if is_num(v):
        return Fraction(v)
    if isinstance(v, str):
        try:
            return Fraction(v)
        except ValueError:
            return scalar(G.const(float(v)))
    if isinstance(v, Arr) and v.shape and all(s.const == 1 for s in v.shape):
        return scalar(v.at(tuple(ix(0) for _ in v.shape)))
    return v


@bi('str')
def _str(interp, args, kw):
    v = args[0]
    if isinstance(v, str):
        return v
    if isinstance(v, (int, bool)) or v is None:
        return str(v)
    if isinstance(v, StrV):
        return v
    return StrV(G.mk('app', 'fstr', ('\0',), pack(v)))


@bi('repr')
def _repr(interp, args, kw):
    return StrV(G.mk('app', 'repr', (), pack(args[0])))


@bi('bool')
def _bool(interp, args, kw):
    t = interp.truth(args[0])
    return t if isinstance(t, bool) else Arr((), lambda i: t, isarr=False, boolean=True)


@bi('list')
def _list(interp, args, kw):
    if not args:
        return ListV()
    it = interp.iter_items(args[0])
    return it if isinstance(it, SeqV) else ListV(it)


@bi('tuple')
def _tuple(interp, args, kw):
    if not args:
        return ()
    it = interp.iter_items(args[0])
    return it if isinstance(it, SeqV) else tuple(it)


@bi('dict')
def _dict(interp, args, kw):
    kw = dict(kw)
    rest = kw.pop('**rest', None)
    d = {}
    if args:
        v = args[0]
        if isinstance(v, DictV):
            d.update(v.d)
            rest = rest or v.rest
        else:
            for p in interp.iter_items(v):
                k, x = interp.iter_items(p)
                d[interp.hashable(k)] = x
    d.update(kw)
    return DictV(d, rest=rest)


FN['collections.OrderedDict'] = _dict


@bi('set')
def _set(interp, args, kw):
    return ListV(interp.iter_items(args[0]) if args else [])


@bi('sorted')
def _sorted(interp, args, kw):
    it = interp.iter_items(args[0])
    if isinstance(it, SeqV) and not kw and isinstance(args[0], Arr) and len(args[0].shape) == 1:
        return sorted_axis(args[0])
    if isinstance(it, SeqV) or kw:
        raise Unknown('sorted')
    if not all(conc(x) for x in it):
        if len(it) == 1:
            return ListV(list(it))
        if all(isinstance(x, Arr) and not x.shape for x in it):
            ns = [x.node() for x in it]
            return ListV([Arr((), lambda i, k=k: G.mk('app', 'sortlist', (k,), *ns), isarr=False) for k in range(len(ns))])
        raise Unknown('sorted')
    return ListV(sorted(it))


@bi('reversed')
def _reversed(interp, args, kw):
    it = interp.iter_items(args[0])
    if isinstance(it, SeqV):
        return SeqV(it.size, lambda i: it.fn(ixadd(ixadd(it.size, ix(-1)), i, -1)))
    return ListV(it[::-1])


@bi('map')
def _map(interp, args, kw):
    f = args[0]
    items, n = seqs(interp, args[1:])
    if n is None:
        return ListV([interp.call(f, list(x), {}) for x in zip(*items)])
    v = G.fresh('c')
    val = interp.call(f, [g(ixv(v)) for g in items], {})
    return SeqV(n, lambda i: subst_value(val, {v: i}))


@bi('any')
def _bany(interp, args, kw):
    if isinstance(args[0], Arr):
        return NP['any'](interp, args, {})
    acc = False
    for x in listof(interp, args[0]):
        acc = interp._or(acc, interp.truth(x))
    return acc if isinstance(acc, bool) else Arr((), lambda i: acc, isarr=False, boolean=True)


@bi('all')
def _ball(interp, args, kw):
    if isinstance(args[0], Arr):
        return NP['all'](interp, args, {})
    acc = True
    for x in listof(interp, args[0]):
        acc = interp._and(acc, interp.truth(x))
    return acc if isinstance(acc, bool) else Arr((), lambda i: acc, isarr=False, boolean=True)


def listof(interp, v):
    it = interp.iter_items(v)
    if isinstance(it, SeqV):
        raise Unknown('symbolic sequence')
    return it


@bi('round')
def _round(interp, args, kw):
    if is_num(args[0]):
        return round(args[0], *args[1:])
    return emap(lambda x: G.fn('round', x), arr(args[0]))


@bi('type')
def _type(interp, args, kw):
    if isinstance(args[0], ObjV):
        return args[0].cls
    raise Unknown('type()')


@bi('pow')
def _pow(interp, args, kw):
    return interp.binop('Pow', args[0], args[1])


@bi('slice')
def _slice(interp, args, kw):
    a = list(args)
    return SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@bi('callable')
def _callable(interp, args, kw):
    return isinstance(args[0], (FuncV, BoundV, BuiltinV, ClassV, ExtV))


@bi('object')
def _object(interp, args, kw):
    return ExtObj('object')


@bi('issubclass')
def _issub(interp, args, kw):
    a, b = args
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return b in a.mro()
    raise Unknown('issubclass')


@ext('copy.copy', 'copy.deepcopy')
def _copy(interp, args, kw):
    v = args[0]
    if isinstance(v, DictV):
        return DictV(dict(v.d), rest=v.rest)
    if isinstance(v, ListV):
        return ListV(v.items)
    if isinstance(v, Arr):
        return Arr(v.shape, v.at, boolean=v.boolean)
    if isinstance(v, ObjV):
        return clone(interp, v)
    if isinstance(v, ExtObj):
        return ext_clone(v)
    return v


# ------------------------------------------------------------------ hmf / halomod
@ext('hmf._internals._framework.get_mdl', 'hmf._internals.get_mdl', 'hmf.get_mdl')
def _get_mdl(interp, args, kw):
    name, kind = args[0], args[1] if len(args) > 1 else kw.get('kind')
    if isinstance(name, (ClassV, ExtV)):
        return name
    if isinstance(kind, ClassV):
        kind = kind.name
    if isinstance(name, str) and isinstance(kind, str):
        base = None
        for m in list(interp.modules.values()):
            v = m.frame.f.get(kind) if m.frame is not None else None
            if isinstance(v, ClassV):
                base = v
        if base is None:
            return ExtObj('extmodel', {'name': name, 'kind': kind})
        for c in interp.subclasses(base):
            if c.name == name:
                return c
        interp.finding('lookup', f'no {kind} model is called {name!r}')
        from .interp import RaiseSig
        raise RaiseSig('ValueError', G.CUR_SITE[0])
    if name is None:
        from .interp import RaiseSig
        raise RaiseSig('ValueError', G.CUR_SITE[0])
    return ExtObj('extmodel', {'name': name, 'kind': kind})


@ext('hmf._internals._framework.pluggable')
def _plug(interp, args, kw):
    return args[0]


@ext('halomod.concentration.interp_concentration')
def _interpconc(interp, args, kw):
    return ExtObj('conc', {'of': args[0]})


@ext('halomod.concentration.make_colossus_cm')
def _colossus(interp, args, kw):
    return ExtObj('colossus', {'of': args[0]})


@ext('astropy.cosmology.Flatw0waCDM')
def _cosmo(interp, args, kw):
    H0, Om0, w0, wa, T, N, mnu, Ob0 = bind(args, kw, 'H0 Om0 w0 wa Tcmb0 Neff m_nu Ob0', w0=-1, wa=0, Tcmb0=0, Neff=Fraction('3.04'), m_nu=0, Ob0=None)
    return ExtObj('cosmo', {'H0': H0, 'Om0': Om0, 'w0': w0, 'wa': wa, 'Tcmb0': T, 'Neff': N, 'm_nu': mnu, 'Ob0': Ob0})


@ext('astropy.cosmology.FlatLambdaCDM')
def _cosmo2(interp, args, kw):
    return _cosmo(interp, args, {**kw, 'w0': -1, 'wa': 0})


@ext('astropy.cosmology.LambdaCDM')
def _cosmo3(interp, args, kw):
    H0, Om0, Ode0, T, N, mnu, Ob0 = bind(args, kw, 'H0 Om0 Ode0 Tcmb0 Neff m_nu Ob0', Tcmb0=0, Neff=Fraction('3.04'), m_nu=0, Ob0=None)
    return ExtObj('cosmo', {'H0': H0, 'Om0': Om0, 'Ode0': Ode0, 'w0': -1, 'wa': 0, 'Tcmb0': T, 'Neff': N, 'm_nu': mnu, 'Ob0': Ob0})


def _fhti(interp, args, kw):
    n, mu, d, q, kr, opt = bind(args, kw, 'n mu dlnr q kr kropt', q=0, kr=1, kropt=0)
    x = G.app('fhti', (), G.ixval(to_ix(n)), *[arr(v).node() for v in (mu, d, q, kr, opt)])
    return (scalar(G.app('fht.kr', (), x)), ExtObj('xsave', {'x': x}))


def _fht(name):
    def f(interp, args, kw):
        a, xs, tdir = bind(args, kw, 'a xsave tdir', tdir=1)
        if not isinstance(xs, ExtObj) or xs.kind != 'xsave':
            raise Unknown('fht without its initialisation')
        a = arr(a)
        l, t = lamof(a), arr(tdir).node()
        return Arr(a.shape, lambda ii: G.app(name, (), xs.f['x'], t, l, G.ixval(ii[0])))
    return f


# the transform library: pyfftlog, a copy of which the repository carries
FFTLOG = {'fhti': _fhti, 'fht': _fht('fht'), 'fhtq': _fht('fhtq')}
for _n, _f in FFTLOG.items():
    FN['fftlog.' + _n] = FN['pyfftlog.' + _n] = _f


ANGLES = {'rad': (1, 0), 'radian': (1, 0), 'deg': (Fraction(1, 180), 1), 'degree': (Fraction(1, 180), 1), 'arcmin': (Fraction(1, 10800), 1),
          'arcminute': (Fraction(1, 10800), 1), 'arcsec': (Fraction(1, 648000), 1), 'arcsecond': (Fraction(1, 648000), 1)}


@ext('astropy.units.Quantity')
def _quantity(interp, args, kw):
    v, u = bind(args, kw, 'value unit')
    if isinstance(u, ExtV) and u.path.startswith('astropy.units'):
        u = u.path.split('.')[-1]
    if not isinstance(u, str):
        raise Unknown('unit')
    return ExtObj('quantity', {'value': v, 'unit': u})


@ext('ast.literal_eval')
def _literal(interp, args, kw):
    import ast
    try:
        node = ast.parse(args[0].strip(), mode='eval').body
    except (SyntaxError, AttributeError):
        raise Unknown('literal_eval')

    def conv(n):
        if isinstance(n, ast.Dict):
            return DictV({conv(k): conv(v) for k, v in zip(n.keys, n.values)})
        if isinstance(n, ast.List):
            return ListV([conv(x) for x in n.elts])
        if isinstance(n, ast.Tuple):
            return tuple(conv(x) for x in n.elts)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -conv(n.operand)
        if isinstance(n, ast.Constant):
            return Fraction(str(n.value)) if isinstance(n.value, float) else n.value
        raise Unknown('literal_eval')
    return conv(node)


HM_DEFAULTS = {'z': 0}


@ext('halomod.halo_model.DMHaloModel', 'halomod.DMHaloModel')
def _dmhm(interp, args, kw):
    if args:
        raise Unknown('positional DMHaloModel arguments')
    p = dict(HM_DEFAULTS)
    p.update(kw)
    for k, v in list(p.items()):
        if isinstance(v, DictV):
            p[k] = DictV(dict(v.d), rest=v.rest)
    return ExtObj('DMHaloModel', {'p': DictV(p)})


def ext_clone(o):
    return ExtObj(o.kind, {k: (DictV({kk: (DictV(dict(x.d), rest=x.rest) if isinstance(x, DictV) else x) for kk, x in v.d.items()}) if isinstance(v, DictV) else v) for k, v in o.f.items()})


MASSG = ('Mmin', 'Mmax', 'dlog10m')
KG = ('lnk_min', 'lnk_max', 'dlnk')
COS = ('cosmo_model', 'cosmo_params')
POW = COS + KG + ('z', 'n', 'sigma_8', 'transfer_model', 'transfer_params', 'growth_model', 'growth_params', 'takahashi', 'use_splined_growth')
MDEF = ('mdef_model', 'mdef_params', 'disable_mass_conversion')
HMFP = POW + MASSG + MDEF + ('hmf_model', 'hmf_params', 'delta_c', 'filter_model', 'filter_params', 'delta_wrt', 'delta_h')
HM_ATTR = {
    # attribute: (shape, parameters it depends on)
    'm': (('M',), MASSG),
    'k': (('Q',), KG),
    'power': (('Q',), POW),
    'nonlinear_power': (('Q',), POW),
    'delta_k': (('Q',), POW),
    'mean_density0': ((), COS),
    'mean_density': ((), COS + ('z',)),
    'halo_overdensity_mean': ((), COS + MDEF + ('z',)),
    'halo_overdensity_crit': ((), COS + MDEF + ('z',)),
    'nu': (('M',), HMFP),
    'sigma': (('M',), HMFP),
    'dndlnm': (('M',), HMFP),
    'dndm': (('M',), HMFP),
    'dndlog10m': (('M',), HMFP),
    'fsigma': (('M',), HMFP),
    'halo_bias': (('M',), HMFP + ('bias_model', 'bias_params')),
    'n_eff': (('M',), HMFP),
    'n_eff_at_collapse': ((), HMFP),
    'sigma8_z': ((1,), POW),
    'cmz_relation': (('M',), None),
    'radii': (('M',), None),
}


def hm_params(o, names):
    d = o.f['p'].d
    out = {}
    for k, v in d.items():
        if names is not None and k not in names:
            continue
        if isinstance(v, DictV) and not v.d and not v.rest:
            continue
        if v is None:
            continue
        out[k] = v
    return G.mk('app', 'hmpars', (), *value_nodes(DictV(out)))


def hm_update(interp, o, kw):
    p = dict(o.f['p'].d)
    for k, v in kw.items():
        if isinstance(v, DictV) and v.d and isinstance(p.get(k), DictV):
            p[k] = DictV({**p[k].d, **v.d}, rest=v.rest or p[k].rest)
        else:
            p[k] = v
    interp.put(o, 'p', DictV(p))


def hm_shape(sh):
    return tuple(G.ixn(s) if isinstance(s, str) else ix(s) for s in sh)


def grid_size(o, s):
    """grid sizes are tied to the grid parameters of the object"""
    return s


def extobj_attr(interp, o, name):
    k = o.kind
    if k == 'DMHaloModel':
        if name in ('update', 'clone'):
            return BuiltinV(o, name)
        if name in HM_ATTR:
            sh, names = HM_ATTR[name]
            pn = hm_params(o, names)
            r = Arr(hm_shape(sh), lambda ii: G.app('hm.' + name, (), pn, *[G.ixval(i) for i in ii]))
            return r if sh else Arr((), r._at, isarr=False)
        if name in ('halo_profile', 'growth', 'halo_concentration', 'filter', 'normalised_filter', 'mdef', 'cosmo', 'transfer', 'bias', 'hmf'):
            return ExtObj('hm.' + name, {'hm': ext_clone(o)})
        if name in o.f['p'].d:
            return o.f['p'].d[name]
        raise Unknown(f'halo model attribute {name}')
    if k.startswith('hm.') or k in ('hankel', 'darkemu', 'darkemu.cosmo', 'interp1d', 'file', 'logger', 'block'):
        if k == 'darkemu' and name == 'cosmo':
            return ExtObj('darkemu.cosmo', {'emu': ext_clone(o)})
        if k == 'interp1d' and name in ('x', 'y'):
            return o.f[name]
        return BuiltinV(o, name)
    if k == 'cosmo':
        f = o.f
        if name in ('H0', 'Om0', 'w0', 'wa', 'Tcmb0', 'Neff', 'Ob0', 'm_nu'):
            if name == 'H0' or name == 'Tcmb0':
                return ExtObj('quantity', {'value': f[name], 'unit': name})
            return f[name]
        if name == 'h':
            return interp.binop('Div', f['H0'], 100)
        if name in ('Ode0', 'Ok0') and 'Ode0' in f:
            if name == 'Ode0':
                return f[name]
            raise Unknown('curvature')
        if name in ('Onu0', 'Ok0', 'Ode0', 'Ogamma0', 'Odm0', 'Otot0', 'Tnu0'):
            if name == 'Odm0':
                return interp.binop('Sub', f['Om0'], f['Ob0'])
            if name == 'Ok0':
                return 0  # the cosmology is flat by construction
            if name == 'Otot0':
                return 1
            ns = [pack(f[x]) for x in ('H0', 'Om0', 'Tcmb0', 'Neff', 'm_nu')]
            return scalar(G.app('cosmo.' + name, (), *ns))
        if name == 'scale_factor' or name in ('Om', 'Onu', 'Ode', 'Ob', 'Odm', 'w', 'de_density_scale', 'efunc', 'H', 'critical_density', 'critical_density0', 'comoving_distance', 'inv_efunc', 'angular_diameter_distance', 'angular_diameter_distance_z1z2',
                                             'luminosity_distance', 'comoving_transverse_distance'):
            return BuiltinV(o, name)
        raise Unknown(f'cosmology attribute {name}')
    if k == 'quantity':
        if name == 'value':
            return o.f['value']
        if name in ('to', 'to_value'):
            return BuiltinV(o, name)
        if name == 'unit':
            return o.f['unit']
        raise Unknown('quantity attribute')
    if k == 'fits':
        raise Unknown('fits attribute')
    if k == 'fitshdu' and name == 'data':
        return ExtObj('fitsdata', o.f)
    if k == 'nowiggle' and name == 'lnt':
        return BuiltinV(o, name)
    if name in o.f:
        return o.f[name]
    if k in ('objarray',):
        if name == 'size':
            return from_ix(o.f['n'])
    return None


@ext('hmf.density_field.transfer_models.EH_NoBAO')
def _ehnobao(interp, args, kw):
    return ExtObj('nowiggle', {'cosmo': args[0]})


@ext('astropy.io.fits.open')
def _fitsopen(interp, args, kw):
    return ExtObj('fits', {'name': args[0]})


@ext('dark_emulator.darkemu.base_class')
def _darkemu(interp, args, kw):
    return ExtObj('darkemu', {'cparam': None})


def call_obj(interp, o, args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top):
            return v
    if o.kind == 'interp1d':
        if len(args) == 1 and isinstance(args[0], PhiV):
            p = args[0]
            return phi(p.cond, call_obj(interp, o, [p.a], kw), call_obj(interp, o, [p.b], kw))
        return interp_call(interp, o, args, kw)
    if o.kind == 'rgi':
        return rgi_call(interp, o, args, kw)
    if o.kind == 'vectorized':
        xs = [arr(a) for a in args]
        sh = A.bshape(*[x.shape for x in xs])

        def at(ii):
            r = interp.call(o.f['_f'], [scalar(x.at(bcast_ix(x.shape, ii))) for x in xs], {})
            return arr(r).node()
        return Arr(sh, at)
    if o.kind == 'extmodel':
        raise Unknown('external model class')
    if o.kind == 'dynattr':
        raise Unknown('dynamic attribute call')
    raise Unknown(f'call of {o.kind}')


def clone(interp, o):
    n = ObjV(o.cls)
    for k, v in o.f.items():
        if isinstance(v, DictV):
            v = DictV(dict(v.d), rest=v.rest)
        elif isinstance(v, ListV):
            v = ListV(v.items)
        elif isinstance(v, Arr):
            v = Arr(v.shape, v.at, boolean=v.boolean, isarr=v.isarr)
        n.f[k] = v
    n.fixed = dict(o.fixed)
    n.qval = dict(o.qval)
    n.recalc = dict(o.recalc)
    n.prpa = {k: set(v) for k, v in o.prpa.items()}
    n.papr = {k: set(v) for k, v in o.papr.items()}
    return n


def method(interp, o, name, args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top) and not isinstance(o, (ListV, DictV, ExtObj)):
            return v
    if isinstance(o, SuperV):
        return super_method(interp, o, name, args, kw)
    if isinstance(o, ObjV):
        return obj_method(interp, o, name, args, kw)
    if isinstance(o, ListV):
        return list_method(interp, o, name, args, kw)
    if isinstance(o, DictV):
        return dict_method(interp, o, name, args, kw)
    if isinstance(o, (str, StrV)):
        return str_method(interp, o, name, args, kw)
    if isinstance(o, Arr):
        return arr_method(interp, o, name, args, kw)
    if isinstance(o, ExtObj):
        return ext_method(interp, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index':
            return list(o).index(args[0])
        if name == 'count':
            return list(o).count(args[0])
    if isinstance(o, SeqV):
        return list_method(interp, o, name, args, kw)
    if is_num(o):
        a = to_arr(o)
        return arr_method(interp, a, name, args, kw)
    raise Unknown(f'method {name}')


def super_method(interp, s, name, args, kw):
    o = s.obj
    if name == '__init__':
        ext_init(interp, o, args, kw)
        return None
    if name == 'validate':
        return None
    if name in ('update', 'clone'):
        return obj_method(interp, o, name, args, kw)
    raise Unknown(f'super().{name}')


def ext_init(interp, o, args, kw):
    if o.cls.is_sub('Component') or o.cls.is_sub('SphericalOverdensity'):
        kw = dict(kw)
        rest = kw.pop('**rest', None)
        c, m = o.cls.lookup('_defaults')
        d = m.value if m is not None else DictV()
        for k in kw:
            if k not in d.d:
                interp.finding('component', f'{o.cls.name} has no parameter {k!r}')
                from .interp import RaiseSig
                raise RaiseSig('ValueError', G.CUR_SITE[0])
        interp.put(o, 'params', DictV({**d.d, **kw}, rest=rest))
        return
    return


def obj_method(interp, o, name, args, kw):
    if o.cls.is_sub('SphericalOverdensity') and name in ('mean_density', 'critical_density'):
        z, cosmo = bind(args, kw, 'z cosmo', z=0, cosmo='Planck15')
        za = arr(z)
        cn = value_nodes(cosmo)
        return emap(lambda x: G.app('mdef.' + name, (), x, *cn), za)
    if name == 'update':
        kw = dict(kw)
        rest = kw.pop('**rest', None)
        if rest:
            raise Unknown('update with unknown keywords')
        for k, v in kw.items():
            c, m = o.cls.lookup(k)
            if m is None and k not in o.f:
                interp.finding('update', f'{o.cls.name} has no attribute {k!r} to update')
                from .interp import RaiseSig
                raise RaiseSig('ValueError', G.CUR_SITE[0])
            interp.setattr(o, k, v)
        c, m = o.cls.lookup('validate')
        if m is not None:
            interp.call(m.value, [o], {})
        return None
    if name == 'clone':
        n = clone(interp, o)
        if kw:
            obj_method(interp, n, 'update', [], kw)
        return n
    if name == 'validate':
        return None
    if name == 'parameter_values':
        raise Unknown('parameter_values')
    interp.finding('attr', f'{o.cls.name} has no attribute {name!r}')
    return Top(f'no attribute {name}', bad=True)


def list_method(interp, o, name, args, kw):
    if isinstance(o, SeqV):
        if name == 'copy':
            return o
        raise Unknown(f'list method {name}')
    if o.items and isinstance(o.items[0], str) and o.items[0] == '__seq__' and name != 'copy':
        raise Unknown('list method on symbolic list')
    if name in ('flatten', 'ravel', 'tolist') and o.items and not args:
        out = [y for x in o.items for y in (x.items if isinstance(x, ListV) and name != 'tolist' else [x])]
        if all(isinstance(x, (str, ListV)) for x in out):
            return ListV(out)
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        interp.note_mut(o.alias, f'.{name}()')
    if name == 'append':
        interp.put(o, 'items', o.items + (args[0],))
        return None
    if name == 'extend':
        it = interp.iter_items(args[0])
        if isinstance(it, SeqV):
            if not o.items:
                interp.put(o, 'items', ('__seq__', it))
                return None
            raise Unknown('extend with symbolic list')
        interp.put(o, 'items', o.items + tuple(it))
        return None
    if name == 'insert':
        l = list(o.items)
        l.insert(static_int(args[0]), args[1])
        interp.put(o, 'items', tuple(l))
        return None
    if name == 'pop':
        l = list(o.items)
        v = l.pop(*[static_int(a) for a in args])
        interp.put(o, 'items', tuple(l))
        return v
    if name == 'copy':
        return ListV(o.items)
    if name == 'index':
        for k, x in enumerate(o.items):
            if interp.equal(x, args[0]) is True:
                return k
        raise Unknown('list.index')
    if name == 'count':
        return sum(1 for x in o.items if interp.equal(x, args[0]) is True)
    if name == 'reverse':
        interp.put(o, 'items', o.items[::-1])
        return None
    raise Unknown(f'list method {name}')


def dict_method(interp, o, name, args, kw):
    if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
        interp.note_mut(o.alias, f'.{name}()')
    if name == 'update':
        d = dict(o.d)
        if args:
            v = args[0]
            if isinstance(v, PhiV):
                raise Unknown('dict.update of a joined value')
            if not isinstance(v, DictV):
                v = _dict(interp, [v], {})
            d.update(v.d)
        d.update(kw)
        interp.put(o, 'd', d)
        return None
    if name == 'get':
        k = interp.hashable(args[0])
        if k in o.d:
            return o.d[k]
        if o.rest:
            raise Unknown('dict.get')
        return args[1] if len(args) > 1 else kw.get('default')
    if name == 'setdefault':
        k = interp.hashable(args[0])
        if k not in o.d:
            interp.put(o, 'd', {**o.d, k: args[1] if len(args) > 1 else None})
        return o.d[k]
    if name == 'pop':
        k = interp.hashable(args[0])
        if k in o.d:
            v = o.d[k]
            interp.put(o, 'd', {kk: x for kk, x in o.d.items() if kk != k})
            return v
        if len(args) > 1:
            return args[1]
        from .interp import RaiseSig
        raise RaiseSig('KeyError', G.CUR_SITE[0])
    if name == 'keys':
        return ListV(o.d.keys())
    if name == 'values':
        return ListV(o.d.values())
    if name == 'items':
        return ListV(list(o.d.items()))
    if name == 'copy':
        return DictV(dict(o.d), rest=o.rest)
    if name == 'clear':
        interp.put(o, 'd', {})
        return None
    raise Unknown(f'dict method {name}')


def str_method(interp, o, name, args, kw):
    if isinstance(o, str) and all(isinstance(a, (str, int, tuple)) for a in args):
        if name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'lstrip', 'rstrip', 'capitalize', 'title', 'removeprefix', 'removesuffix', 'find', 'count', 'isdigit'):
            r = getattr(o, name)(*args)
            return ListV(r) if isinstance(r, list) else r
    if name == 'join':
        it = interp.iter_items(args[0])
        if all(isinstance(x, str) for x in it):
            return o.join(it)
    if name == 'format':
        if all(conc(a) and not isinstance(a, Fraction) for a in list(args) + list(kw.values())):
            return o.format(*args, **kw)
        return StrV(G.mk('app', 'strformat', (str(o),), *[pack(a) for a in args]))
    if isinstance(o, StrV) and name in ('lower', 'upper', 'strip'):
        return StrV(G.mk('app', 'str.' + name, (), o.node))
    raise Unknown(f'str method {name}')


def arr_method(interp, o, name, args, kw):
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'std', 'var', 'argmin', 'argmax', 'squeeze', 'cumsum', 'repeat', 'clip', 'take', 'swapaxes', 'dot'):
        return NP[name](interp, [o] + list(args), kw)
    if name in ('copy', 'flatten'):
        a = Arr(o.shape, o.at, boolean=o.boolean)
        if name == 'flatten' and a.ndim != 1:
            a = reshape(a, (ix(-1),)) if a.shape else Arr((ix(1),), lambda ii: o.node())
        return Arr(a.shape, a.at, boolean=a.boolean)
    if name == 'ravel':
        return NP['ravel'](interp, [o], {})
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else tuple(args)
        return reshape(o, shape_of(sh))
    if name == 'transpose':
        if not args:
            return A.transpose(o)
        ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListV)) else tuple(args)
        return A.transpose(o, axes_of(ax))
    if name == 'astype':
        return Arr(o.shape, o.at, boolean=o.boolean)
    if name == 'nonzero':
        return (nonzero(o),)
    if name == 'tolist':
        return ListV(interp.iter_items(o)) if not isinstance(interp.iter_items(o), SeqV) else interp.iter_items(o)
    if name == 'item':
        if not o.shape:
            return scalar(o.node())
        return scalar(o.at(tuple(ix(0) for _ in o.shape)))
    if name in ('sort', 'partition', 'resize', 'put', 'itemset', 'byteswap', 'setfield'):
        into(interp, o, Top(f'array .{name}()'), f'.{name}()')
        return None
    if name == 'fill':
        interp.note_mut(o.alias, '.fill()')
        v = arr(args[0])
        interp.replace_identity(o, Arr(o.shape, lambda ii: v.node()))
        return None
    if name == 'conj':
        return emap(lambda x: G.fn('conj', x), o)
    raise Unknown(f'array method {name}')


def value_attr(interp, o, name):
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(from_ix(s) for s in o.shape)
        if name == 'size':
            return from_ix(prod_ix(o.shape))
        if name == 'ndim':
            return o.ndim
        if name == 'T':
            return A.transpose(o)
        if name == 'real':
            return emap(lambda x: G.fn('real', x), o)
        if name == 'imag':
            return emap(lambda x: G.fn('imag', x), o)
        if name == 'dtype':
            raise Unknown('dtype')
        if name == 'value':
            return o
        return BuiltinV(o, name)
    if isinstance(o, (ListV, DictV, str, StrV, tuple, SeqV)):
        return BuiltinV(o, name)
    if is_num(o):
        if name in ('real', 'value'):
            return o
        if name == 'size':
            return 1
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        return BuiltinV(o, name)
    if o is None:
        interp.finding('attr', f'attribute {name!r} of None')
        return Top(f'attribute {name!r} of None', bad=True)
    if isinstance(o, SliceV):
        return getattr(o, name)
    if isinstance(o, BoundV) and name == '__name__':
        return o.func.name
    raise Unknown(f'attribute {name} of {type(o).__name__}')


def hm_elem(o, fname, extra, x, shape):
    pn = hm_params(o.f['hm'], None)
    return pn


def ext_method(interp, o, name, args, kw):
    k = o.kind
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top) and k != 'block':
            return v
    if k == 'DMHaloModel':
        if name == 'update':
            if args:
                raise Unknown('positional update')
            hm_update(interp, o, kw)
            return None
        if name == 'clone':
            c = ext_clone(o)
            if kw:
                hm_update(interp, c, kw)
            return c
    if k == 'hm.halo_profile':
        pn = hm_params(o.f['hm'], None)
        if name == 'u':
            kk, mm = arr(args[0]), arr(args[1])
            st = tuple(sorted((a, repr(b)) for a, b in kw.items() if not (a == 'norm' and b == 'm') and not (a == 'c' and b is None) and not (a == 'coord' and b == 'k')))
            if len(args) > 2 or any(not conc(v) for v in kw.values()):
                raise Unknown('profile arguments')
            if kk.ndim > 1 or mm.ndim > 1:
                raise Unknown('profile arguments')
            sh = kk.shape + mm.shape

            def at(ii):
                return G.app('hm.u', st, pn, kk.at(ii[:kk.ndim]), mm.at(ii[kk.ndim:]))
            return Arr(sh, at)
        if name in ('_rs_from_m', 'halo_mass_to_radius', 'scale_radius', 'virial_velocity') and len(args) == 1 and not kw:
            m = arr(args[0])
            return emap(lambda x: G.app('hm.' + name, (), pn, x), m)
        raise Unknown(f'profile method {name}')
    if k == 'hm.growth':
        pn = hm_params(o.f['hm'], COS + ('growth_model', 'growth_params'))
        if len(args) == 1 and not kw:
            return emap(lambda x: G.app('hm.growth.' + name, (), pn, x), arr(args[0]))
    if k.startswith('hm.'):
        pn = hm_params(o.f['hm'], None)
        xs = [arr(a) for a in args]
        return emap(lambda *x: G.app(k + '.' + name, (), pn, *x), *xs)
    if k == 'cosmo':
        f = o.f
        if name in ('w', 'de_density_scale'):
            ns = [arr(f[x]).node() for x in ('w0', 'wa')]
            if name == 'w':
                return emap(lambda z: G.add(ns[0], G.div(G.mul(ns[1], z), G.add(G.ONE, z))), arr(args[0]))
            return emap(lambda z: G.app('cosmo.' + name, (), *ns, z), arr(args[0]))
        if name == 'scale_factor':
            return emap(lambda z: G.powr(G.add(G.ONE, z), -1), arr(args[0]))
        ns = [pack(f[x]) for x in sorted(f) if x not in (() if name in ('Ob', 'Odm') else ('Ob0',))]
        return emap(lambda *z: G.app('cosmo.' + name, (), *ns, *z), *[arr(x) for x in (args or [0])])
    if k == 'quantity' and name in ('to', 'to_value'):
        u = args[0]
        if isinstance(u, ExtV) and u.path.startswith('astropy.units'):
            u = u.path.split('.')[-1]
        if u not in ANGLES or o.f['unit'] not in ANGLES:
            raise Unknown('unit conversion')
        (a, p), (b, q) = ANGLES[o.f['unit']], ANGLES[u]
        r = emap(lambda x: G.mul(x, G.const(Fraction(a) / b), G.powr(G.PI, p - q)), arr(o.f['value']))
        return ExtObj('quantity', {'value': r, 'unit': u}) if name == 'to' else r
    if k == 'hankel':
        if name == 'transform':
            fn_, kk = args[:2]
            vs, r = real_fn(interp, fn_)
            if isinstance(r, Top):
                return r
            r = arr(r)
            if r.shape:
                raise Unknown('hankel integrand')
            l = G.lam([(vs[0], 'real')], r.node())
            st = tuple(sorted((a, repr(b)) for a, b in kw.items() if a not in ('ret_err', 'ret_cumsum')))
            ps = [o.f[x].node() for x in ('nu', 'N', 'h')]
            res = emap(lambda q: G.app('hankel', st, *ps, l, q), arr(kk))
            if kw.get('ret_err') is False:
                return res
            return (res, emap(lambda q: G.app('hankel_err', st, *ps, l, q), arr(kk)))
    if k == 'darkemu':
        if name == 'set_cosmology':
            interp.put(o, 'cparam', arr(args[0]))
            return None
        if o.f['cparam'] is None:
            interp.finding('emulator', 'emulator queried before a cosmology was set')
            return Top('emulator without a cosmology', bad=True)
        c = lamof(o.f['cparam'])
        if name == 'get_sigma8':
            return scalar(G.app('emu.sigma8', (), c))
        if name == 'get_pklin_from_z':
            kk, z = arr(args[0]), arr(args[1])
            return emap(lambda a, b: G.app('emu.pklin', (), c, a, b), kk, z)
        if name == 'get_phh_mass':
            kk, m1, m2, z = [arr(a) for a in args]
            if m1.shape or m2.shape or z.shape:
                raise Unknown('emulator arguments')
            return emap(lambda a, b, d, e: G.app('emu.phh_mass', (), c, a, G.add(b, d), G.mul(b, d), e), kk, m1, m2, z)
        xs = [arr(a) for a in args]
        return emap(lambda *x: G.app('emu.' + name, (), c, *x), *xs) if xs else scalar(G.app('emu.' + name, (), c))
    if k == 'darkemu.cosmo':
        if o.f['emu'].f['cparam'] is None:
            return Top('emulator without a cosmology', bad=True)
        return scalar(G.app('emu.cosmo.' + name, (), lamof(o.f['emu'].f['cparam'])))
    if k == 'nowiggle' and name == 'lnt':
        ns = value_nodes(o.f['cosmo'])
        return emap(lambda x: G.app('nowiggle.lnt', (), *ns, x), arr(args[0]))
    if k == 'block':
        from . import blockmodel
        return blockmodel.method(interp, o, name, args, kw)
    raise Unknown(f'{k}.{name}')


def ext_setitem(interp, o, key, v):
    if o.kind == 'objarray':
        kx = interp.ixkey(key)
        if interp.loopctx and isinstance(kx, Ix) and len(kx.terms) == 1 and kx.c == 0:
            # element assignment x[i] = f(i) for every i of the enclosing loop
            var = kx.terms[0][0][1]
            interp.put(o, 'seq', SeqV(o.f['n'], lambda i: subst_value(v, {var: i})))
            return
        raise Unknown('object array store')
    if o.kind == 'block':
        from . import blockmodel
        return blockmodel.setitem(interp, o, key, v)
    raise Unknown(f'item assignment on {o.kind}')


def ext_getitem(interp, o, key):
    if o.kind == 'objarray':
        if o.f['seq'] is None:
            return Top('uninitialised object array', bad=True)
        return o.f['seq'].fn(interp.ixkey(key))
    if o.kind == 'fits':
        return ExtObj('fitshdu', {'name': o.f['name'], 'hdu': key})
    if o.kind == 'fitsdata':
        nm = pack(o.f['name'])
        hd = pack(o.f['hdu'])
        n = Ix(((('node', G.app('nnz', (), nm, hd)), 1),), 0)
        return Arr((n,), lambda ii: G.app('fitscol', (str(key),), nm, hd, G.ixval(ii[0])))
    if o.kind == 'block':
        from . import blockmodel
        return blockmodel.getitem(interp, o, key)
    if o.kind == 'ivpresult':
        return o.f[key]
    raise Unknown(f'subscript of {o.kind}')


def ext_iter(interp, o, hint=None):
    if o.kind == 'objarray' and o.f['seq'] is not None:
        return o.f['seq']
    return None


def ext_contains(interp, a, o):
    return None


def ext_truth(interp, o):
    return None


def ext_binop(interp, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, ExtV) and y.path.startswith('astropy.units') and op == 'Mult':
            return ExtObj('quantity', {'value': x, 'unit': y.path.split('.')[-1]})
    for x in (a, b):
        if isinstance(x, ExtObj) and x.kind == 'quantity':
            raise Unknown('quantity arithmetic')
    return None


def rest_item(interp, d, k):
    raise Unknown('unknown dictionary key')
