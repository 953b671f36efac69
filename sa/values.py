"""Abstract values of the interpreter (everything that is not an array)."""
from fractions import Fraction

from . import graph as G
from .arrays import Arr, Unknown, scalar, subst_arr
from .graph import Ix, Node


class Top:
    """value the analysis does not know. bad=True: the program itself is definitely wrong here"""

    def __init__(self, why, site=None, bad=False):
        self.why = why
        self.site = site or G.CUR_SITE[0]
        self.bad = bad

    def __repr__(self):
        return f'Top({self.why} @ {self.site}{" BAD" if self.bad else ""})'


class Unbound:
    def __repr__(self):
        return 'Unbound'


UNBOUND = Unbound()


class Box:
    """mutable container, all writes go through Interp.put (trailed)"""

    made = 0

    def __init__(self):
        self.f = {}
        Box.made += 1
        self.serial = Box.made


class ListV(Box):
    def __init__(self, items=(), alias=frozenset()):
        super().__init__()
        self.f['items'] = tuple(items)
        self.alias = frozenset(alias)

    @property
    def items(self):
        return self.f['items']

    def __repr__(self):
        return f'ListV{list(self.items)}'


class DictV(Box):
    """concrete keys -> values; `rest`: symbolic remainder (unknown other keys) name or None"""

    def __init__(self, d=None, alias=frozenset(), rest=None):
        super().__init__()
        self.f['d'] = dict(d or {})
        self.alias = frozenset(alias)
        self.rest = rest

    @property
    def d(self):
        return self.f['d']

    def __repr__(self):
        return f'DictV{self.d}'


class SeqV:
    """sequence of symbolic length"""

    def __init__(self, size, fn, alias=frozenset()):
        self.size = size
        self.fn = fn
        self.alias = frozenset(alias)

    def __repr__(self):
        return f'SeqV[{self.size}]'


class GridV:
    """product of sequences; with an array, each position comes with its element"""

    def __init__(self, seqs, arr=None):
        self.seqs = list(seqs)
        self.arr = arr


class ObjV(Box):
    _n = 0

    def __init__(self, cls):
        super().__init__()
        ObjV._n += 1
        self.oid = ObjV._n
        self.cls = cls
        self.cache = {}     # plain properties (recomputed after any write)
        self.fixed = {}     # functools.cached_property: never recomputed
        self.qval = {}      # hmf.cached_quantity: value, needs-recalculation flag, index both ways
        self.recalc = {}
        self.prpa = {}
        self.papr = {}
        self.activeq = set()

    def __repr__(self):
        return f'<{self.cls.name} #{self.oid}>'


class ExtObj(Box):
    """instance of a class outside the repository, with a modelled state"""

    def __init__(self, kind, state=None, alias=frozenset()):
        super().__init__()
        self.kind = kind
        self.f.update(state or {})
        self.alias = frozenset(alias)

    def __repr__(self):
        return f'Ext<{self.kind}>'


class ExtV:
    """module / function / class outside the repository"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'ext:{self.path}'

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ModV:
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.frame = None

    def __repr__(self):
        return f'mod:{self.name}'


class ClassV:
    def __init__(self, name, module, bases, node):
        self.name = name
        self.module = module
        self.bases = bases
        self.node = node
        self.members = {}  # name -> Member

    def __repr__(self):
        return f'class:{self.name}'

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, ExtV)]
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.members:
                return c, c.members[name]
        return None, None

    def is_sub(self, path_suffix):
        return any(b.path.endswith(path_suffix) for b in self.ext_bases())


class Member:
    def __init__(self, kind, value, extra=None):
        self.kind = kind  # method static classm prop cached fcached param value
        self.value = value
        self.extra = extra
        self.setter = None


class FuncV:
    def __init__(self, name, node, frame, module, cls=None, defaults=None, kwdefaults=None):
        self.name = name
        self.node = node
        self.frame = frame
        self.module = module
        self.cls = cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.subst = None
        self.wraps = None
        self.memo = None

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return f'func:{self.qualname}'


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return f'bound:{self.func}'


class BuiltinV:
    """method of a modelled value: (owner value, method name)"""

    def __init__(self, owner, name):
        self.owner = owner
        self.name = name

    def __repr__(self):
        return f'builtin:{self.name}'


class SuperV:
    def __init__(self, obj, cls):
        self.obj = obj
        self.cls = cls


class PhiV:
    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return f'Phi({self.cond}, {self.a}, {self.b})'


class SliceV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class StrV:
    """symbolic string"""

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f'Str<{G.show(self.node)}>'


class Masked:
    """array selected by a boolean mask (length unknown)"""

    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask


class ExcV:
    def __init__(self, name):
        self.name = name


NUM = (int, Fraction)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def conc(v):
    return v is None or isinstance(v, (bool, int, Fraction, str)) or v is Ellipsis


def subst_value(v, m, memo=None):
    """substitute index variables in any value"""
    if conc(v) or isinstance(v, (ExtV, ClassV, ModV, Top, Unbound)):
        return v
    if isinstance(v, Arr):
        return subst_arr(v, m)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, ListV):
        return ListV([subst_value(x, m) for x in v.items], v.alias)
    if isinstance(v, DictV):
        return DictV({k: subst_value(x, m) for k, x in v.d.items()}, v.alias, v.rest)
    if isinstance(v, SeqV):
        return SeqV(G.ixsubst(v.size, m), lambda i: _subst_protect(v, i, m), v.alias)
    if isinstance(v, ExtObj):
        return ExtObj(v.kind, {k: subst_value(x, m) for k, x in v.f.items()}, v.alias)
    if isinstance(v, PhiV):
        return PhiV(G.subst(v.cond, m), subst_value(v.a, m), subst_value(v.b, m))
    if isinstance(v, StrV):
        return StrV(G.subst(v.node, m))
    if isinstance(v, FuncV):
        f = FuncV(v.name, v.node, v.frame, v.module, v.cls, v.defaults, v.kwdefaults)
        f.subst = dict(m) if v.subst is None else {**v.subst, **m}
        return f
    if isinstance(v, BoundV):
        return BoundV(v.func, subst_value(v.self_, m))
    if isinstance(v, BuiltinV):
        return BuiltinV(subst_value(v.owner, m), v.name)
    if isinstance(v, Masked):
        return Masked(subst_value(v.arr, m), subst_value(v.mask, m))
    if isinstance(v, ObjV):
        return v
    if isinstance(v, SliceV):
        return v
    if isinstance(v, Node):
        return G.subst(v, m)
    if isinstance(v, Ix):
        return G.ixsubst(v, m)
    raise Unknown(f'subst {type(v).__name__}')


def _subst_protect(seq, i, m):
    nv = G.fresh('q')
    r = seq.fn(G.ixv(nv))
    r = subst_value(r, m)
    return subst_value(r, {nv: i})


def value_nodes(v, seen=None, env=None):
    """flatten a value into a list of closed nodes used for hashing/comparison"""
    if v is None:
        return [G.mk('fn', 'None')]
    if isinstance(v, bool):
        return [G.mk('bool', v)]
    if is_num(v):
        return [G.const(v)]
    if isinstance(v, str):
        return [G.mk('fn', 'str', v)]
    if v is Ellipsis:
        return [G.mk('fn', '...')]
    if isinstance(v, Arr):
        vs = [(G.fresh('l'), s) for s in v.shape]
        body = v.at(tuple(G.ixv(x) for x, _ in vs))
        return [G.lam(vs, body) if vs else body]
    if isinstance(v, tuple):
        out = [G.mk('fn', 'tuple', len(v))]
        for x in v:
            out += value_nodes(x)
        return out
    if isinstance(v, ListV):
        out = [G.mk('fn', 'list', len(v.items))]
        for x in v.items:
            out += value_nodes(x)
        return out
    if isinstance(v, DictV):
        out = [G.mk('fn', 'dict', str(v.rest))]
        for k in sorted(v.d, key=repr):
            out.append(G.mk('fn', 'key', repr(k)))
            out += value_nodes(v.d[k])
        return out
    if isinstance(v, SeqV):
        nv = G.fresh('l')
        ns = value_nodes(v.fn(G.ixv(nv)))
        return [G.lam([(nv, v.size)], G.mk('app', 'tup', (), *ns))]
    if isinstance(v, ExtV):
        return [G.mk('fn', 'ext', v.path)]
    if isinstance(v, ClassV):
        return [G.mk('fn', 'class', v.name)]
    if isinstance(v, ExtObj):
        out = [G.mk('fn', 'extobj', v.kind)]
        for k in sorted(v.f):
            if k.startswith('_'):
                continue
            out.append(G.mk('fn', 'key', k))
            out += value_nodes(v.f[k])
        return out
    if isinstance(v, StrV):
        return [v.node]
    if isinstance(v, PhiV):
        return [G.mk('app', 'phi', (), v.cond, G.mk('app', 'tup', (), *value_nodes(v.a)), G.mk('app', 'tup', (), *value_nodes(v.b)))]
    if isinstance(v, Top):
        return [G.mk('app', '?top', (v.why,))]
    if isinstance(v, Masked):
        return [G.mk('fn', 'masked')] + value_nodes(v.arr) + value_nodes(v.mask)
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return [G.mk('app', '?func', (repr(v),))]
    if isinstance(v, ObjV):
        return [G.mk('fn', 'obj', v.cls.name, v.oid)]
    if isinstance(v, SliceV):
        return value_nodes((v.start, v.stop, v.step))
    if isinstance(v, Ix):
        return [G.ixval(v)]
    if isinstance(v, Node):
        return [v]
    raise Unknown(f'value_nodes {type(v).__name__}')


def pack(v):
    ns = value_nodes(v)
    return ns[0] if len(ns) == 1 else G.mk('app', 'tup', (), *ns)


def to_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        n = G.mk('bool', v)
        return Arr((), lambda i: n, isarr=False, boolean=True)
    if is_num(v):
        return scalar(G.const(v))
    if isinstance(v, Ix):
        return scalar(G.ixval(v))
    if isinstance(v, Node):
        return scalar(v)
    if isinstance(v, (ListV, tuple)):
        items = v.items if isinstance(v, ListV) else v
        if items and isinstance(items[0], str) and items[0] == '__seq__':
            return to_arr(items[1])
        from .arrays import stack
        if not items:
            return Arr((0,), lambda i: G.ZERO)
        return stack([to_arr(x) for x in items])
    if isinstance(v, SeqV):
        nv = G.fresh('e')
        probe = to_arr(v.fn(G.ixv(nv)))
        n = G.fresh('x')

        def at(ii):
            return to_arr(v.fn(ii[0])).at(ii[1:])

        for s in probe.shape:
            if nv in s.vars():
                raise Unknown('ragged sequence')
        return Arr((v.size,) + probe.shape, at)
    if v is None:
        raise Unknown('None used as array')
    if isinstance(v, StrV):
        raise Unknown('string used as array')
    raise Unknown(f'{type(v).__name__} used as array')


def phi(cond, a, b):
    if a is b:
        return a
    if cond.op == 'bool':
        return a if cond.args[0] else b
    if conc(a) and conc(b) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, (Arr, int, Fraction)) and isinstance(b, (Arr, int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
        x, y = to_arr(a), to_arr(b)
        if x.shape == y.shape:
            r = Arr(x.shape, lambda ii: G.ite(cond, x.at(ii), y.at(ii)), alias=x.alias | y.alias, boolean=x.boolean and y.boolean, isarr=x.isarr or y.isarr)
            return r
        return PhiV(cond, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(phi(cond, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, Arr)) and isinstance(b, (bool, Arr)):
        x, y = to_arr(a), to_arr(b)
        if x.shape == y.shape:
            return Arr(x.shape, lambda ii: G.ite(cond, x.at(ii), y.at(ii)), boolean=True)
    return PhiV(cond, a, b)
