"""Abstract interpreter: python source (ast) -> value graph.

The analysed program is never imported or executed.  Every function body is
walked over its syntax tree; straight-line code is turned into value-graph
nodes, undecided branches are joined with gated (ite) nodes, loops over grids
of symbolic length are summarised in index notation, and only branches on the
mode switches fixed by the current partition (e.g. nonlinear_mode) are folded.
"""
import ast
import os
from fractions import Fraction

from . import graph as G
from .arrays import (Acc, Arr, ShapeError, Unknown, bcast_ix, const_arr, emap, fixend, index, same, scalar, slice_size,
                     symarr)
from .graph import Ix, Node, ix, ixadd, ixmul, ixv
from .values import (NUM, UNBOUND, BoundV, Box, BuiltinV, ClassV, DictV, ExcV, ExtObj, ExtV, FuncV, GridV, ListV, Masked,
                     Member, ModV, ObjV, PhiV, SeqV, SliceV, StrV, SuperV, Top, Unbound, conc, is_num, pack, phi,
                     subst_value, to_arr, value_nodes)


def plainly_equal(a, b):
    """options (strings, flags, None, classes) that certainly have not changed"""
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return isinstance(a, (ClassV, ExtV)) and a == b


class RaiseSig(Exception):
    def __init__(self, name, site):
        super().__init__(name)
        self.name = name
        self.site = site


class AnalysisError(Exception):
    """the source could not be located / parsed: analysis broken, not a verdict"""


def implied(c, val, facts):
    """the simple conditions that hold when c has this value besides the facts"""
    if c.op == 'not':
        return implied(c.args[0], not val, facts)
    out = {c: val}
    if c.op == 'and':
        if val:
            for x in c.args[0]:
                out.update(implied(x, True, facts))
        else:
            open_ = [x for x in c.args[0] if known(x, facts) is not True]
            if len(open_) == 1:
                out.update(implied(open_[0], False, facts))
    return out


def known(c, facts):
    """c, decided by the facts where they suffice"""
    if not isinstance(c, G.Node) or not facts:
        return c
    if c in facts:
        return facts[c]
    if c.op == 'not':
        r = known(c.args[0], facts)
        return (not r) if isinstance(r, bool) else c
    if c.op == 'and':
        rs = [known(x, facts) for x in c.args[0]]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    return c


class Frame(Box):
    def __init__(self, module, func=None, parent=None):
        super().__init__()
        self.module = module
        self.func = func
        self.parent = parent
        self.pending = ()
        self.facts = {}       # conditions decided by the branches this point lies in
        self.globals_ = set()
        self.nonlocals = set()


BUILTINS = {
    'len', 'range', 'zip', 'enumerate', 'sum', 'min', 'max', 'abs', 'isinstance', 'hasattr', 'getattr', 'setattr',
    'print', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'map', 'filter',
    'any', 'all', 'round', 'type', 'super', 'repr', 'callable', 'open', 'complex', 'slice', 'frozenset', 'pow', 'vars',
    'iter', 'next', 'object', 'divmod', 'id', 'property', 'staticmethod', 'classmethod', 'issubclass', 'delattr', 'locals', 'globals',
}
EXCEPTIONS = {'Exception', 'ValueError', 'KeyError', 'ImportError', 'AttributeError', 'TypeError', 'RuntimeError',
              'NotImplementedError', 'RuntimeWarning', 'UserWarning', 'StopIteration', 'IndexError', 'OSError',
              'FileNotFoundError', 'ZeroDivisionError', 'DeprecationWarning', 'AssertionError', 'BaseException',
              'ModuleNotFoundError', 'NameError', 'Warning', 'FutureWarning', 'ArithmeticError', 'LookupError'}

PARAM_DECOS = {'hmf._internals._cache.parameter', 'hmf._internals.parameter'}
CACHED_DECOS = {'hmf._internals._cache.cached_quantity', 'hmf._internals.cached_quantity'}
FCACHED_DECOS = {'functools.cached_property', 'functools.lru_cache', 'functools.cache'}


# everything the base classes of hmf offer (hmf 3.6.3)
FRAMEWORK_MEMBERS = {'_get_all_parameters', '_validate', 'clone', 'get_all_parameter_defaults', 'get_all_parameter_names', 'get_dependencies',
                     'parameter_info', 'parameter_values', 'quantities_available', 'update', 'validate', '_defaults', 'get_models'}


class Interp:
    def __init__(self, root, stubs=None):
        self.root = root
        self.modules = {}
        self.trail = []
        self.findings = []
        self.effects = []
        self.assumptions = []
        self.stack = []
        self.frames = []
        self.active = []       # active cached quantities [(obj, name)]
        self.param_reads = {}
        self.fn_seen = set()   # functions analysed
        self.call_sites = 0
        self.loopctx = []
        self.cuts = {}         # qualname -> model
        self.stores = []       # recorded array stores (before, after, writes)
        self.setitem_log = []
        self.opaque_calls = {}
        self.raise_guards = []
        self.path = [{}]       # facts of the branches being interpreted, callers included
        self.block_reads = {}
        self.block_missing = {}
        self.block_writes = []
        self.try_depth = 0
        self.lost = []         # places where writes may have been missed
        self.created = None    # list of instances made, when watched
        from . import models
        self.models = models

    # ------------------------------------------------------------- trail
    def put(self, box, key, val):
        self.trail.append((box, key, box.f.get(key, UNBOUND)))
        if isinstance(val, Unbound):
            box.f.pop(key, None)
        else:
            box.f[key] = val

    def rollback(self, mark, born=None):
        """undo the writes since the mark; what was made after it is kept as it is, for only caches can still refer to it"""
        while len(self.trail) > mark:
            box, key, old = self.trail.pop()
            if born is not None and box.serial > born:
                continue
            if key == '__pending__':
                box.pending = old
            elif isinstance(old, Unbound):
                box.f.pop(key, None)
            else:
                box.f[key] = old

    def writes_since(self, mark):
        out = {}
        for box, key, _ in self.trail[mark:]:
            if key == '__pending__':
                out[(id(box), key)] = (box, key, box.pending)
            else:
                out[(id(box), key)] = (box, key, box.f.get(key, UNBOUND))
        return out

    def set_pending(self, fr, val):
        self.trail.append((fr, '__pending__', fr.pending))
        fr.pending = val

    def raise_sig(self, name):
        return RaiseSig(name, G.CUR_SITE[0])

    def finding(self, kind, msg, site=None):
        site = site or G.CUR_SITE[0]
        f = (kind, site, msg)
        if f not in self.findings:
            self.findings.append(f)

    # ----------------------------------------------------------- modules
    def load(self, name):
        """name: dotted module relative to the analysis root, e.g. src.onepower.pk"""
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/')
        # like Python, packages are initialised before their modules
        parts = name.split('.')
        for i in range(1, len(parts)):
            up = '.'.join(parts[:i])
            if up not in self.modules and os.path.exists(os.path.join(self.root, *parts[:i], '__init__.py')):
                self.load(up)
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, rel + '.py')
        pkg = False
        if not os.path.exists(path):
            p2 = os.path.join(self.root, rel, '__init__.py')
            if os.path.exists(p2):
                path = p2
                pkg = True
            else:
                raise AnalysisError(f'module {name} not found under {self.root}')
        try:
            tree = ast.parse(open(path).read(), path)
        except SyntaxError as e:
            raise AnalysisError(f'{path}: {e}')
        m = ModV(name, path, os.path.relpath(path, self.root))
        m.pkg = pkg
        self.modules[name] = m
        m.frame = Frame(m)
        site = G.CUR_SITE[0]
        self.frames.append(m.frame)
        try:
            self.exec_block(tree.body, m.frame)
        finally:
            self.frames.pop()
            G.CUR_SITE[0] = site
        return m

    def get(self, modname, attr):
        m = self.load(modname)
        if attr not in m.frame.f:
            raise AnalysisError(f'{modname}.{attr} has vanished')
        return m.frame.f[attr]

    def import_(self, modname, fr, level):
        """-> value for module path"""
        if level:
            base = fr.module.name.split('.')
            if not fr.module.pkg:
                base = base[:-1]
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([modname] if modname else []))
            return self.repo_or_ext(full)
        if modname.split('.')[0] == 'onepower':
            return self.repo_or_ext('src.' + modname)
        # sibling import in a script directory
        sib = os.path.join(os.path.dirname(fr.module.path), modname.split('.')[0] + '.py')
        if os.path.exists(sib):
            return self.repo_or_ext('.'.join(fr.module.name.split('.')[:-1] + [modname]))
        return ExtV(modname)

    def repo_or_ext(self, full):
        try:
            return self.load(full)
        except AnalysisError:
            return ExtV(full)

    # -------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            sig = self.exec_stmt(s, fr)
            if sig is not None:
                return sig
        return None

    def at(self, node, fr):
        G.CUR_SITE[0] = (fr.module.relpath, fr.func.qualname if fr.func else '<module>', getattr(node, 'lineno', 0))

    def exec_stmt(self, s, fr):
        self.at(s, fr)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return ('unknown', f'statement {type(s).__name__}')
        try:
            return m(s, fr)
        except RaiseSig as r:
            return ('raise', r.name, r.site)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value, fr)
            return None
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        return None

    def st_Return(self, s, fr):
        return ('ret', self.ev(s.value, fr) if s.value else None)

    def st_Raise(self, s, fr):
        name = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        return ('raise', name, G.CUR_SITE[0])

    def st_Assert(self, s, fr):
        c = known(self.truth(self.ev(s.test, fr)), fr.facts)
        if c is False:
            return ('raise', 'AssertionError', G.CUR_SITE[0])
        if c is not True:
            self.guarded(G.CUR_SITE[0], G.not_(c))
        return None

    def st_Global(self, s, fr):
        fr.globals_ |= set(s.names)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def st_Break(self, s, fr):
        return ('break',)

    def st_Continue(self, s, fr):
        return ('cont',)

    def st_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.put(fr, a.asname, self.import_(a.name, fr, 0))
            else:
                top = a.name.split('.')[0]
                self.put(fr, top, self.import_(top, fr, 0))

    def st_ImportFrom(self, s, fr):
        mod = self.import_(s.module or '', fr, s.level) if (s.module or s.level) else None
        for a in s.names:
            nm = a.asname or a.name
            if isinstance(mod, ModV):
                if a.name in mod.frame.f:
                    v = mod.frame.f[a.name]
                else:
                    v = self.repo_or_ext(mod.name + '.' + a.name)
            else:
                v = self.ext_attr(mod.path, a.name)
            self.put(fr, nm, v)

    def ext_attr(self, path, name):
        if path.startswith('src.'):
            # namespace package of the repository
            return self.repo_or_ext(path + '.' + name)
        return self.models.ext_attr(self, path, name)

    def st_FunctionDef(self, s, fr):
        self.put(fr, s.name, self.decorate(s, self.mkfunc(s, fr), fr))

    def decorate(self, s, f, fr):
        for d in reversed(s.decorator_list):
            dn = self.ev(d.func, fr) if isinstance(d, ast.Call) else None
            if isinstance(dn, ExtV) and dn.path in FCACHED_DECOS:
                dv = dn
            else:
                dv = self.ev(d, fr)
            if isinstance(dv, ExtV) and dv.path in FCACHED_DECOS:
                if isinstance(f, FuncV):
                    f.memo = {}
                continue
            if isinstance(dv, ExtV) and dv.path in ('functools.wraps',):
                continue
            if isinstance(dv, (FuncV, BoundV)):
                f = self.call(dv, [f], {})
        return f

    def mkfunc(self, s, fr, cls=None):
        f = FuncV(s.name, s, fr, fr.module, cls)
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return f

    def st_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, (ClassV, ExtV)):
                bases.append(v)
        c = ClassV(s.name, fr.module, bases, s)
        cf = Frame(fr.module, parent=fr)
        for st in s.body:
            self.at(st, fr)
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind, extra, memo = 'method', None, False
                skip = False
                for d in st.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        if st.name in c.members:
                            c.members[st.name].setter = self.mkfunc(st, cf, c)
                            skip = True
                        continue
                    dn = d.func if isinstance(d, ast.Call) else d
                    dv = self.ev(dn, cf)
                    p = dv.path if isinstance(dv, ExtV) else None
                    if p == 'builtins.property':
                        kind = 'prop'
                    elif p == 'builtins.staticmethod':
                        kind = 'static'
                    elif p == 'builtins.classmethod':
                        kind = 'classm'
                    elif p in CACHED_DECOS:
                        kind = 'cached'
                    elif p in PARAM_DECOS:
                        kind = 'param'
                        if isinstance(d, ast.Call) and d.args:
                            extra = self.ev(d.args[0], cf)
                    elif p in FCACHED_DECOS:
                        if p == 'functools.cached_property':
                            kind = 'fcached'
                        else:
                            memo = True
                    elif p and p.endswith('abstractmethod'):
                        pass
                if skip:
                    continue
                f = self.mkfunc(st, cf, c)
                f.memo = {} if memo else None
                c.members[st.name] = Member(kind, f, extra)
                cf.f[st.name] = f
            elif isinstance(st, ast.Assign):
                v = self.ev(st.value, cf)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = Member('value', v)
                        cf.f[t.id] = v
                        if isinstance(v, FuncV):
                            c.members[t.id] = Member('method', v)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                v = self.ev(st.value, cf)
                c.members[st.target.id] = Member('value', v)
                cf.f[st.target.id] = v
        if not isinstance(fr.f.get(s.name), ClassV) or True:
            self.put(fr, s.name, c)

    def st_Assign(self, s, fr):
        if self.loopctx and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)):
            # x[i] = x[i] + d inside a loop accumulates like x[i] += d
            me = ast.dump(self._load(s.targets[0]))
            for own, other in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
                if ast.dump(own) == me and (own is s.value.left or isinstance(s.value.op, ast.Add)):
                    return self.st_AugAssign(ast.copy_location(ast.AugAssign(target=s.targets[0], op=s.value.op, value=other), s), fr)
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        cur = self.ev(self._load(s.target), fr)
        rhs = self.ev(s.value, fr)
        op = type(s.op).__name__
        if isinstance(cur, ListV) and op == 'Add':
            self.note_mut(cur.alias, 'list +=')
            extra = self.iter_items(rhs)
            if isinstance(extra, SeqV):
                self.put(cur, 'items', None) if False else None
                new = self.binop(op, cur, rhs)
                self.assign(s.target, new, fr)
                return None
            self.put(cur, 'items', cur.items + tuple(extra))
            return None
        if isinstance(cur, DictV) and op == 'BitOr':
            self.note_mut(cur.alias, 'dict |=')
            self.put(cur, 'd', {**cur.d, **rhs.d})
            return None
        new = self.binop(op, cur, rhs)
        if isinstance(cur, Arr) and cur.isarr and isinstance(new, Arr):
            # in-place update of shared storage
            self.note_mut(cur.alias, f'in-place {op}')
            if new.shape != cur.shape:
                self.finding('shape', f'in-place {op} changes shape {list(cur.shape)} -> {list(new.shape)}')
                new = Top(f'in-place result of shape {list(new.shape)} does not fit {list(cur.shape)}', bad=True)
            else:
                if isinstance(s.target, ast.Name):
                    new = Arr(new.shape, new._at, boolean=new.boolean)
                if isinstance(s.target, ast.Name):
                    if cur.root is not None:
                        self.store_into(*cur.root, new, self.delta_of(op, rhs, new))
                        return None
                    self.replace_identity(cur, new)
                    if cur.base is not None:
                        self.replace_identity(cur.base, Top('modified through a view'))
                elif isinstance(s.target, ast.Attribute):
                    self.replace_identity(cur, new)
        self.assign(s.target, new, fr, aug=self.delta_of(op, rhs, new))

    def delta_of(self, op, rhs, new):
        """what an in-place += or -= adds, or None"""
        if op not in ('Add', 'Sub') or not (is_num(rhs) or isinstance(rhs, Arr)):
            return None
        d = to_arr(rhs)
        return d if op == 'Add' else emap(G.neg, d)

    def _load(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        for n in ast.walk(t2):
            if hasattr(n, 'lineno'):
                n.lineno = t.lineno
        return t2

    def replace_identity(self, old, new):
        for fr in self.frames:
            for k, v in list(fr.f.items()):
                if v is old:
                    self.put(fr, k, new)
                elif isinstance(v, Arr) and v.root is not None and v.root[0] is old:
                    self.put(fr, k, index(new, list(v.root[1])) if isinstance(new, Arr) else new)
                elif isinstance(v, (ListV,)) and any(x is old for x in v.items):
                    self.put(v, 'items', tuple(new if x is old else x for x in v.items))
                elif isinstance(v, DictV) and any(x is old for x in v.d.values()):
                    self.put(v, 'd', {kk: (new if x is old else x) for kk, x in v.d.items()})
                elif isinstance(v, ObjV):
                    for kk, x in list(v.f.items()):
                        if x is old:
                            self.put(v, kk, new)

    def note_mut(self, alias, what):
        tags = [a for a in alias]
        if tags:
            self.effects.append((tuple(sorted(tags)), G.CUR_SITE[0], what))

    def assign(self, t, v, fr, aug=None):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.put(fr.module.frame, t.id, v)
            elif t.id in fr.nonlocals:
                p = fr.parent
                while p is not None and t.id not in p.f:
                    p = p.parent
                self.put(p or fr, t.id, v)
            else:
                self.put(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            key = self.ev_index(t.slice, fr)
            self.setitem(base, key, v, t, fr, aug)
        else:
            raise Unknown('assignment target')

    def unpack(self, elts, v, fr):
        if isinstance(v, Top):
            for e in elts:
                self.assign(e, v, fr)
            return
        if isinstance(v, PhiV):
            n = len(elts)
            a = self.unpack_list(v.a, elts)
            b = self.unpack_list(v.b, elts)
            for e, x, y in zip(elts, a, b):
                self.assign(e, phi(v.cond, x, y), fr)
            return
        for e, x in zip(elts, self.unpack_list(v, elts)):
            self.assign(e, x, fr)

    def unpack_list(self, v, elts):
        n = len(elts)
        if isinstance(v, Top):
            return [v] * n
        items = self.iter_items(v, n)
        if isinstance(items, SeqV):
            raise Unknown('unpack of symbolic sequence')
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            after = n - k - 1
            items = list(items)
            return items[:k] + [ListV(items[k:len(items) - after])] + (items[len(items) - after:] if after else [])
        if len(items) != n:
            raise RaiseSig('ValueError', G.CUR_SITE[0])
        return list(items)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.put(fr, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if isinstance(b, DictV):
                    self.note_mut(b.alias, 'del item')
                    self.put(b, 'd', {kk: x for kk, x in b.d.items() if kk != k})
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, ObjV):
                    self.put(o, t.attr, UNBOUND)

    def st_If(self, s, fr):
        c = known(self.truth(self.ev(s.test, fr)), fr.facts)
        if c is True:
            return self.exec_block(s.body, fr)
        if c is False:
            return self.exec_block(s.orelse, fr)
        return self.branch(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr), fr)

    def guarded(self, site, c):
        """this place raises when c holds"""
        if known(c, self.path[-1]) is not False:
            self.raise_guards.append((site, c))

    def branch(self, c, f1, f2, fr):
        site = G.CUR_SITE[0]
        mark, born = len(self.trail), Box.made
        facts = fr.facts
        try:
            path = self.path[-1]
            fr.facts = {**facts, **implied(c, True, facts)}
            self.path.append({**path, **implied(c, True, path)})
            s1 = f1()
            self.path[-1] = path
            w1 = self.writes_since(mark)
            self.rollback(mark, born)
            G.CUR_SITE[0] = site
            fr.facts = {**facts, **implied(c, False, facts)}
            self.path[-1] = {**path, **implied(c, False, path)}
            s2 = f2()
        finally:
            fr.facts = facts
            self.path.pop()
        w2 = self.writes_since(mark)
        self.rollback(mark, born)
        G.CUR_SITE[0] = site
        k1 = s1[0] if s1 else None
        k2 = s2[0] if s2 else None
        if k1 == 'raise' and k2 == 'raise':
            return s1
        if k1 == 'raise':
            self.guarded(site, c)
            self.apply(w2)
            return s2
        if k2 == 'raise':
            self.guarded(site, G.not_(c))
            self.apply(w1)
            return s1
        if k1 is None and k2 is None:
            self.merge(c, w1, w2)
            return None
        if k1 == 'ret' and k2 == 'ret':
            self.merge(c, w1, w2, skip=fr)
            return ('ret', phi(c, s1[1], s2[1]))
        if k1 == 'ret' and k2 is None:
            self.set_pending_after(fr, w2, c, s1[1], w1)
            return None
        if k2 == 'ret' and k1 is None:
            self.set_pending_after(fr, w1, G.not_(c), s2[1], w2)
            return None
        if k1 == k2 and k1 in ('break', 'cont'):
            self.merge(c, w1, w2)
            return s1
        if {k1, k2} <= {None, 'cont'} and self.loopctx:
            # 'continue' on one side: the rest of the body runs under the other condition
            ctx = self.loopctx[-1]
            if k1 == 'cont':
                return ('guard', G.not_(c), w2, w1)
            return ('guard', c, w1, w2)
        return ('unknown', f'control flow at {site}')

    def apply(self, w):
        for box, key, v in w.values():
            if key == '__pending__':
                self.set_pending(box, v)
            else:
                self.put(box, key, v)

    def merge(self, c, w1, w2, skip=None):
        keys = list(w1)
        keys += [k for k in w2 if k not in w1]
        for k in keys:
            box, key, _ = (w1.get(k) or w2.get(k))
            if key == '__pending__':
                old = box.pending
                p1 = w1[k][2] if k in w1 else old
                p2 = w2[k][2] if k in w2 else old
                n = len(old)
                new = old + tuple((G.and_(c, cc), v) for cc, v in p1[n:]) + tuple((G.and_(G.not_(c), cc), v) for cc, v in p2[n:])
                self.set_pending(box, new)
                continue
            if skip is not None and box is skip:
                continue
            old = box.f.get(key, UNBOUND)
            v1 = w1[k][2] if k in w1 else old
            v2 = w2[k][2] if k in w2 else old
            self.put(box, key, self.merge_val(c, v1, v2, old))

    def merge_val(self, c, v1, v2, old):
        if v1 is v2:
            return v1
        if isinstance(v1, Unbound) or isinstance(v2, Unbound):
            return PhiV(c, v1, v2)
        if isinstance(v1, Arr) and isinstance(v2, Arr):
            # conditional store: keep the write list explicit
            for a, b, cc in ((v1, v2, c), (v2, v1, G.not_(c))):
                ws = self.store_chain(b, a)
                if ws:
                    r = phi(c, v1, v2)
                    if isinstance(r, Arr):
                        self.stores.append((b, r, [(d, G.and_(cc, x) if x is not None else cc, p, val) for d, x, p, val in ws]))
                    return r
            if isinstance(old, Arr):
                w1, w2 = self.store_chain(old, v1), self.store_chain(old, v2)
                r = phi(c, v1, v2) if w1 and w2 else None
                if isinstance(r, Arr):
                    self.stores.append((old, r, [(d, G.and_(cc, x) if x is not None else cc, p, val)
                                                 for cc, ws in ((c, w1), (G.not_(c), w2)) for d, x, p, val in ws]))
                    return r
        if isinstance(v1, dict) and isinstance(v2, dict):
            out = {}
            for k in list(v1) + [k for k in v2 if k not in v1]:
                out[k] = self.merge_val(c, v1.get(k, UNBOUND), v2.get(k, UNBOUND), None)
            return out
        if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) != len(v2):
            return PhiV(c, v1, v2)
        return phi(c, v1, v2)

    def set_pending_after(self, fr, wfall, c, val, wret):
        self.apply(wfall)
        # heap effects of the returning side are joined under its guard
        for k, (box, key, v) in wret.items():
            if box is fr or isinstance(box, Frame):
                continue
            old = box.f.get(key, UNBOUND)
            self.put(box, key, self.merge_val(c, v, old, old))
        self.set_pending(fr, fr.pending + ((c, val),))

    def st_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    def st_Try(self, s, fr):
        mark = len(self.trail)
        catches = any(h.type is None or any(isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr)
                                            in ('AttributeError', 'Exception', 'BaseException') for n in ast.walk(h.type)) for h in s.handlers)
        self.try_depth += catches
        try:
            sig = self.exec_block(s.body, fr)
        finally:
            self.try_depth -= catches
        if sig and sig[0] == 'raise':
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = None
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
                if names is None or sig[1] in names or 'Exception' in names or 'BaseException' in names or \
                        'LookupError' in names and sig[1] in ('KeyError', 'IndexError') or 'ArithmeticError' in names and sig[1] == 'ZeroDivisionError' or \
                        'OSError' in names and sig[1] in ('FileNotFoundError', 'IOError'):
                    if h.name:
                        self.put(fr, h.name, ExcV(sig[1]))
                    sig = self.exec_block(h.body, fr)
                    break
        elif sig is None:
            sig = self.exec_block(s.orelse, fr)
        fin = self.exec_block(s.finalbody, fr)
        return fin or sig

    def _counted(self, s, fr):
        """while i < n: ...; i += 1 as a for loop"""
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.value, ast.Constant) and last.value.value == 1) or s.orelse:
            return None
        for st in s.body[:-1]:
            for n in ast.walk(st):
                if isinstance(n, (ast.Break, ast.Continue, ast.Return)) or isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store):
                    return None
        stop = t.comparators[0]
        loop = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), stop], []), list(s.body[:-1]), [])
        out = [loop, ast.Assign([ast.Name(i, ast.Store())], stop)]
        for st in out:
            ast.copy_location(st, s)
            for n in ast.walk(st):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, s)
        return out

    def st_While(self, s, fr):
        f = self._counted(s, fr)
        if f is not None and not conc(self.ev(s.test.comparators[0], fr)):
            return self.exec_block(f, fr)
        for _ in range(200):
            c = self.truth(self.ev(s.test, fr))
            if c is False:
                return self.exec_block(s.orelse, fr)
            if c is not True:
                f = self._counted(s, fr)
                if f is not None:
                    return self.exec_block(f, fr)
                return ('unknown', 'while with undecided condition')
            sig = self.exec_block(s.body, fr)
            if sig:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'cont':
                    continue
                return sig
        return ('unknown', 'while bound')

    def st_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        return self._match(subj, s.cases, fr)

    def _match(self, subj, cases, fr):
        if not cases:
            return None
        case = cases[0]
        c = self._pat(case.pattern, subj, fr)
        if case.guard is not None and c is not False:
            g = self.truth(self.ev(case.guard, fr))
            c = self._and(c, g)
        if c is True:
            return self.exec_block(case.body, fr)
        if c is False:
            return self._match(subj, cases[1:], fr)
        return self.branch(c, lambda: self.exec_block(case.body, fr), lambda: self._match(subj, cases[1:], fr), fr)

    def _and(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return G.and_(a, b)

    def _or(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return G.or_(a, b)

    def _pat(self, p, subj, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', subj, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', subj, p.value))
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = self._or(c, self._pat(q, subj, fr))
            return c
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self._pat(p.pattern, subj, fr)
            else:
                c = True
            if p.name:
                self.put(fr, p.name, subj)
            return c
        if isinstance(p, ast.MatchSequence):
            if not isinstance(subj, (tuple, ListV)):
                return False
            it = self.iter_items(subj)
            if len(it) != len(p.patterns):
                return False
            c = True
            for q, x in zip(p.patterns, it):
                c = self._and(c, self._pat(q, x, fr))
            return c
        raise Unknown('match pattern')

    # --------------------------------------------------------------- loops
    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, Top):
            return self._havoc_loop(s, fr, it)
        if isinstance(it, GridV):
            return self.grid_loop(s, fr, it)
        items = self.iter_items(it)
        if not isinstance(items, SeqV):
            for x in items:
                self.at(s, fr)
                self.assign(s.target, x, fr)
                sig = self.exec_block(s.body, fr)
                if sig:
                    if sig[0] == 'break':
                        return None
                    if sig[0] == 'cont':
                        continue
                    if sig[0] == 'guard':
                        return ('unknown', 'conditional continue')
                    return sig
            return self.exec_block(s.orelse, fr)
        return self.sym_loop(s, fr, items)

    def grid_loop(self, s, fr, grid):
        """a loop over a product of sequences is a nest of loops"""
        if any(isinstance(n, (ast.Break, ast.Return)) for st in s.body for n in ast.walk(st)) or s.orelse:
            return self._havoc_loop(s, fr, Top('leaving a loop over a product'))
        tag = f'@{s.lineno}.{s.col_offset}.'
        names = []
        for n, seq in enumerate(grid.seqs):
            self.put(fr, f'{tag}s{n}', seq)
            names.append(f'{tag}v{n}')

        def name(x, ctx=ast.Load):
            return ast.copy_location(ast.Name(x, ctx()), s)

        here = ast.Tuple([name(x) for x in names], ast.Load())
        if grid.arr is not None:
            self.put(fr, f'{tag}a', grid.arr)
            here = ast.Tuple([here, ast.Subscript(name(f'{tag}a'), here, ast.Load())], ast.Load())
        body = [ast.Assign([s.target], here)] + list(s.body)
        for n in reversed(range(len(names))):
            body = [ast.For(name(names[n], ast.Store), name(f'{tag}s{n}'), body, [])]
        for st in body:
            for n in ast.walk(st):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, s)
        return self.exec_block(body, fr)

    def _havoc_loop(self, s, fr, top):
        self.lost.append(G.CUR_SITE[0])
        for n in ast.walk(ast.Module(body=s.body + [ast.Assign(targets=[s.target], value=ast.Constant(0))], type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.put(fr, n.id, top)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                if isinstance(fr.f.get(n.func.value.id), (ListV, DictV, ExtObj)):
                    self.put(fr, n.func.value.id, top)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                self.put(fr, n.value.id, top)
        return None

    def sym_loop(self, s, fr, seq):
        v = G.fresh('n')
        G.BOUND[v] = seq.size
        assigned = set()
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
        mark = len(self.trail)
        pre = {}
        ph = {}
        for name in assigned:
            if name in fr.f:
                pv = fr.f[name]
                pre[name] = pv
                if is_num(pv) or isinstance(pv, Arr) and self._aug_in(s.body, name):
                    a = to_arr(pv)
                    nm = G.fresh('PH')
                    ph[name] = nm
                    self.put(fr, name, symarr(nm, a.shape) if a.shape else scalar(G.sym(nm)))
        lists = {}
        self.loopctx.append(v)
        nst = len(self.stores)
        m1, born = len(self.trail), Box.made
        self.assign(s.target, seq.fn(ixv(v)), fr)
        sig = self.exec_body_guarded(s.body, fr)
        self.loopctx.pop()
        if sig is not None:
            if sig[0] == 'raise':
                return sig
            return ('unknown', f'{sig[0]} inside a loop over a symbolic range')
        w = self.writes_since(m1)
        # stability: a second iteration started from the state after the first
        v2 = G.fresh('n')
        m2, born2 = len(self.trail), Box.made
        heap_boxes = [(b, k, x) for b, k, x in w.values() if isinstance(b, (ExtObj, ListV, DictV, ObjV)) and b.serial <= born]
        pre_heap = {}
        for b, k, old in self.trail[m1:m2]:
            pre_heap.setdefault((id(b), k), old)
        if heap_boxes:
            self.loopctx.append(v2)
            self.assign(s.target, seq.fn(ixv(v2)), fr)
            sig2 = self.exec_body_guarded(s.body, fr)
            self.loopctx.pop()
            w2 = self.writes_since(m2)
            self.rollback(m2, born2)
        else:
            w2 = {}
        size = seq.size
        last = {v: ixadd(size, ix(-1))}
        for b, k, x in heap_boxes:
            old = pre_heap[(id(b), k)]
            second = w2.get((id(b), k), (None, None, x))[2]
            if isinstance(b, ListV):
                n0 = len(old)
                app1 = x[n0:]
                app2 = second[len(x):]
                if n0 or len(app1) != 1 or len(app2) != 1:
                    self.put(b, k, (Top('list built in a loop'),))
                    continue
                e1, e2 = app1[0], app2[0]
                if not self.equal_mod(e1, e2, v, v2):
                    site = G.CUR_SITE[0]
                    self.finding('loop-carried', f'elements appended in the loop at line {s.lineno} depend on earlier iterations', site)
                    self.put(b, k, (Top('loop-carried state', bad=True),))
                    continue
                self.put(b, k, ('__seq__', SeqV(size, (lambda e1: lambda i: subst_value(e1, {v: i}))(e1))))
            elif isinstance(b, DictV):
                # keys written with loop dependent values only if key constant
                self.put(b, k, {kk: subst_value(xx, last) for kk, xx in x.items()})
            else:
                self.put(b, k, subst_value(x, last) if not conc(x) else x)
        # locals
        for name in assigned:
            cur = fr.f.get(name, UNBOUND)
            if isinstance(cur, Unbound):
                continue
            if name in ph:
                PHn = ph[name]
                cur_a = cur if isinstance(cur, (Arr,)) or is_num(cur) else None
                if cur_a is None:
                    self.put(fr, name, Top('loop variable'))
                    continue
                cur_a = to_arr(cur_a)
                qs = tuple(ixv(G.fresh('q')) for _ in cur_a.shape)
                node = cur_a.at(qs)
                if not mentions(node, PHn):
                    self.put(fr, name, subst_value(cur, last))
                    continue
                pv = to_arr(pre[name])

                def delta_at(ii, cur_a=cur_a, pv=pv, PHn=PHn):
                    phn = G.sym(PHn, *bcast_ix(pv.shape, ii)) if pv.shape else G.sym(PHn)
                    return G.sub(cur_a.at(ii), phn)

                d0 = delta_at(qs)
                if mentions(d0, PHn):
                    self.put(fr, name, Top('loop-carried value'))
                    continue

                def at(ii, cur_a=cur_a, pv=pv, delta_at=delta_at):
                    nv = G.fresh('s')
                    body = G.subst(delta_at(ii), {v: ixv(nv)})
                    return G.add(pv.at(bcast_ix(pv.shape, ii)), G.summ(nv, size, body))

                self.put(fr, name, Arr(cur_a.shape, at))
            elif isinstance(cur, Arr) and isinstance(pre.get(name), Arr):
                pass
            else:
                try:
                    self.put(fr, name, subst_value(cur, last))
                except Unknown as e:
                    self.put(fr, name, Top(str(e)))
        # arrays written element by element (locals and attributes)
        carried = self._carried(s.body, assigned)
        grown = {}
        for b, k, x in list(w.values()):
            cur = b.f.get(k, UNBOUND)
            if not isinstance(cur, Arr) or (b is fr and k in ph):
                continue
            old = None
            for bb, kk, oo in self.trail[m1:m2]:
                if bb is b and kk == k:
                    old = oo
                    break
            if not isinstance(old, Arr):
                continue
            ws = self.store_chain(old, x if isinstance(x, Arr) else cur)
            if ws is None:
                if b is fr and k in pre and not ws:
                    self.put(b, k, subst_value(x, last) if isinstance(x, Arr) else x)
                continue
            dom = (v, ix(0), size)
            writes = [((dom,) + d, c, p, val) for d, c, p, val in ws]
            new = self.apply_writes(old, writes) if (b is not fr or k not in carried) else None
            if new is None:
                new = Top('values carried from one pass of the loop to the next')
                self.put(b, k, new)
                grown[id(x)] = new
                continue
            self.put(b, k, new)
            grown[id(x)] = new
            self.stores.append((old, new, writes))
        for b, k, x in list(w.values()):
            if isinstance(x, Arr) and x.root is not None and id(x.root[0]) in grown and not (b is fr and k in assigned):
                new = grown[id(x.root[0])]
                self.put(b, k, index(new, list(x.root[1])) if isinstance(new, Arr) else new)
        return self.exec_block(s.orelse, fr)

    def exec_body_guarded(self, body, fr):
        for k, st in enumerate(body):
            sig = self.exec_stmt(st, fr)
            if sig is not None:
                if sig[0] == 'cont':
                    return None
                if sig[0] == 'guard':
                    # rest of the body executes only under the guard
                    _, c, wfall, wcont = sig
                    rest = body[k + 1:]

                    def go():
                        self.apply(wfall)
                        return self.exec_body_guarded(rest, fr)

                    def cont():
                        self.apply(wcont)
                        return None
                    return self.branch(c, go, cont, fr)
                return sig
        return None

    def _carried(self, body, assigned):
        """arrays stored to in the loop body and read there at other places than those stored"""
        stored = {}
        chain = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        stored.setdefault(b.id, set()).add(ast.dump(self._load(n)))
                        chain.add(id(b))
        out = set()
        for name, places in stored.items():
            if name in assigned:
                continue
            fine = set()
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.dump(n) in places:
                        fine |= {id(x) for x in ast.walk(n)}
                    if isinstance(n, ast.Attribute) and n.attr in ('shape', 'size', 'ndim', 'dtype'):
                        fine.add(id(n.value))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'range', 'enumerate'):
                        fine |= {id(x) for x in n.args}
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in chain and id(n) not in fine:
                        out.add(name)
        return out

    def _aug_in(self, body, name):
        """is the name read before it is written in the loop body (accumulator)?"""
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return True
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(n.value)):
                        return True
        return False

    def equal_mod(self, a, b, v1, v2):
        try:
            na = value_nodes(subst_value(a, {v1: ixv('@0')}))
            nb = value_nodes(subst_value(b, {v2: ixv('@0')}))
        except Unknown:
            return False
        if len(na) != len(nb):
            return False
        for x, y in zip(na, nb):
            free = (x.fv | y.fv)
            env = {f: 1 for f in free}
            if G.fp(x, {k: env[k] for k in x.fv}) != G.fp(y, {k: env[k] for k in y.fv}):
                return False
        return True

    # ------------------------------------------------------- array stores
    def store_chain(self, old, new):
        """writes leading from array `old` to array `new`, or None"""
        out = []
        cur = new
        for _ in range(200):
            if cur is old:
                return out
            nxt = None
            for b, a, ws in reversed(self.stores):
                if a is cur:
                    nxt = (b, ws)
                    break
            if nxt is None:
                return None
            out = list(nxt[1]) + out
            cur = nxt[0]
        return None

    def apply_writes(self, old, writes):
        """the array after element stores repeated over loop variables

        Where every loop variable fixes one index of the store (or only adds to
        the element, or is overwritten by its last iteration) each element is
        written in one iteration only and its value is known in closed form."""
        plan = self.write_plan(old, writes)
        if plan is not None:
            return Arr(old.shape, lambda ii: self.write_value(old, plan, ii), boolean=old.boolean)
        if any(isinstance(w[3], Acc) or callable(w[3]) and not isinstance(w[3], Arr) for w in writes):
            return None

        def at(ii):
            ws = []
            for dom, cond, pats, val in writes:
                free = [d for d, p in enumerate(pats) if p is None]
                vi = tuple(ii[d] for d in free)
                ws.append((dom, cond, tuple(pats), val.at(bcast_ix(val.shape, vi))))
            return G.mk('loopstore', old.at(ii), tuple(ws), tuple(ii))

        return Arr(old.shape, at)

    @staticmethod
    def write_plan(old, writes):
        place = {}
        plan = []
        users = {}
        for n, (dom, cond, pats, val) in enumerate(writes):
            for v, lo, hi in dom:
                users.setdefault(v, []).append(n)
        for n, (dom, cond, pats, val) in enumerate(writes):
            names = {v for v, _, _ in dom}
            if any(lo.vars() & names or hi.vars() & names for _, lo, hi in dom):
                return None
            solved, missing = [], []
            for v, lo, hi in dom:
                here = [d for d, p in enumerate(pats) if p is not None and v in p.vars()]
                if not here:
                    if len(users[v]) > 1 or not isinstance(val, Acc) and cond is not None and v in cond.fv:
                        return None
                    missing.append((v, lo, hi))
                    continue
                if len(here) != 1:
                    return None
                d = here[0]
                p = pats[d]
                k = dict((a[1], q) for a, q in p.terms if a[0] == 'v')
                if k.get(v) not in (1, -1) or p.vars() & names != {v} or place.setdefault(v, (d, p)) != (d, p):
                    return None
                solved.append((v, lo, hi, d, p, k[v]))
            rest = [(d, p) for d, p in enumerate(pats) if p is not None and not (p.vars() & names)]
            if len(missing) > 1 and not isinstance(val, Acc):
                return None
            plan.append((solved, missing, rest, cond, pats, val))
        return plan

    @staticmethod
    def write_value(old, plan, ii):
        cur = old.at(ii)

        def node(val, pats):
            if callable(val) and not isinstance(val, Arr):
                return val(ii)
            return val.at(bcast_ix(val.shape, tuple(ii[d] for d, p in enumerate(pats) if p is None)))

        for solved, missing, rest, cond, pats, val in plan:
            m, cs = {}, []
            for v, lo, hi, d, p, k in solved:
                off = ixadd(p, ixv(v), -k)
                at = ixadd(ii[d], off, -1) if k == 1 else ixadd(off, ii[d], -1)
                m[v] = at
                if not (off.const == 0 and k == 1 and lo.const == 0 and hi is old.shape[d]):
                    cs.append(G.cmp('ge', G.ixval(at), G.ixval(lo)))
                    cs.append(G.cmp('lt', G.ixval(at), G.ixval(hi)))
            for d, p in rest:
                cs.append(G.cmp('eq', G.ixval(ii[d]), G.ixval(p)))
            if missing and isinstance(val, Acc):
                x = node(val.delta, pats)
                if cond is not None:
                    x = G.ite(cond, x, G.const(0))
                x = G.subst(x, m)
                for v, lo, hi in missing:
                    nv = G.fresh('s')
                    x = G.summ(nv, ixadd(hi, lo, -1), G.subst(x, {v: ixadd(ixv(nv), lo)}))
                new = G.add(cur, x)
            else:
                if isinstance(val, Acc):
                    new = G.add(cur, G.subst(node(val.delta, pats), m))
                else:
                    m = {**m, **{v: ixadd(hi, ix(-1)) for v, lo, hi in missing}}
                    new = G.subst(node(val, pats), m)
                if cond is not None:
                    cs.append(G.subst(cond, m))
            c = G.and_(*cs)
            cur = new if c.op == 'bool' and c.args[0] else G.ite(c, new, cur)
        return cur

    def store_into(self, a, key, v, delta=None):
        """element store a[key] = v; every holder of the array sees it"""
        if a.root is not None:
            k = self.ixkeys(key)
            if not any(x is None for x in k):
                return self.store_into(a.root[0], tuple(a.root[1]) + tuple(k), v, delta)
        if isinstance(v, Top):
            self.replace_identity(a, v)
            return v
        try:
            new, writes = self.arr_store(a, key, v)
            if delta is not None and writes:
                _, dw = self.arr_store(const_arr(a.shape, 0), key, delta)
                writes = [(d, c, p, Acc(x, y)) for (d, c, p, x), (_, _, _, y) in zip(writes, dw)]
            if new is None:
                raise Unknown('store in a loop')
        except Unknown as e:
            new = Top(str(e))
            self.replace_identity(a, new)
            return new
        except ShapeError as e:
            self.finding('shape', str(e))
            new = Top(str(e), bad=True)
            self.replace_identity(a, new)
            return new
        self.stores.append((a, new, writes))
        self.replace_identity(a, new)
        if a.base is not None:
            self.replace_identity(a.base, Top('modified through a view'))
        return new

    def ixkeys(self, key):
        return [k if isinstance(k, (Ix, Arr)) or isinstance(k, tuple) and k and k[0] == 'slice' else self.ixkey(k)
                for k in (key if isinstance(key, (tuple, list)) and not (key and key[0] == 'slice') else [key])]

    def setitem(self, base, key, v, t, fr, aug=None):
        if isinstance(base, Top):
            return
        if isinstance(base, PhiV):
            raise Unknown('store into a joined value')
        if isinstance(base, DictV):
            self.note_mut(base.alias, 'item assignment')
            k = self.hashable(key)
            self.put(base, 'd', {**base.d, k: v})
            return
        if isinstance(base, ListV):
            self.note_mut(base.alias, 'item assignment')
            if isinstance(key, int):
                it = list(base.items)
                it[key] = v
                self.put(base, 'items', tuple(it))
                return
            raise Unknown('list store')
        if isinstance(base, ExtObj):
            self.models.ext_setitem(self, base, key, v)
            return
        if isinstance(base, Arr):
            self.note_mut(base.alias, 'element assignment')
            new = self.store_into(base, key, v, aug)
            if isinstance(t.value, ast.Attribute) and isinstance(new, Arr):
                self.assign(t.value, new, fr)
            return
        raise Unknown(f'item assignment on {type(base).__name__}')

    def arr_store(self, a, key, v):
        keys = self.ixkeys(key)
        if any(isinstance(k, Arr) and k.boolean for k in keys):
            # masked store, possibly below leading indices
            lead, mask = [fixend(k, n) if isinstance(k, Ix) else None for k, n in zip(keys[:-1], a.shape)], keys[-1]
            if None in lead or not (isinstance(mask, Arr) and mask.boolean) or mask.shape != a.shape[len(lead):]:
                raise Unknown('masked store')
            val = to_arr(v)
            if val.shape:
                raise Unknown('masked store of an array')

            def put(ii):
                return G.ite(mask.at(ii[len(lead):]), val.node(), a.at(ii))

            pats = tuple(lead) + (None,) * mask.ndim
            w = [((), None, pats, put)]
            return self.apply_writes(a, w), w
        nreal = sum(1 for k in keys if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in keys):
            p = [i for i, k in enumerate(keys) if k is Ellipsis][0]
            keys = keys[:p] + [('slice', None, None, 1)] * (a.ndim - nreal) + keys[p + 1:]
        else:
            keys += [('slice', None, None, 1)] * (a.ndim - nreal)
        if any(k is None for k in keys):
            raise Unknown('store with newaxis')
        if len(keys) != a.ndim:
            raise ShapeError('too many indices in store')
        val = to_arr(v)
        if any(isinstance(k, Arr) for k in keys):
            fk = [k for k in keys if isinstance(k, Arr)]
            if fk[0].ndim != 1 or any(k.ndim != 1 for k in fk):
                raise Unknown('fancy store')
            fv = G.fresh('f')
            size = fk[0].shape[0]
            pats = []
            for k, n in zip(keys, a.shape):
                if isinstance(k, Arr):
                    pats.append(G.ixnode(k.at((ixv(fv),))))
                elif isinstance(k, tuple):
                    if k[1:] != (None, None, 1):
                        raise Unknown('fancy store with slice')
                    pats.append(None)
                else:
                    pats.append(fixend(k, n))
            if val.ndim > 1:
                raise Unknown('fancy store of n-d value')
            node = val.at((ixv(fv),) if val.ndim and val.shape[0].const != 1 else ((ix(0),) if val.ndim else ()))
            w = [(((fv, ix(0), size),), None, tuple(pats), scalar(node))]
            return self.apply_writes(a, w), w
        # basic store
        shape = []
        regions = []
        for k, n in zip(keys, a.shape):
            if isinstance(k, tuple):
                sz, lo, st = slice_size(n, k[1], k[2], k[3])
                if st.const != 1:
                    raise Unknown('strided store')
                regions.append(('s', lo, sz, sz is n and lo.const == 0, len(shape)))
                shape.append(sz)
            else:
                regions.append(('c', fixend(k, n)))
        from .arrays import bshape
        tgt = tuple(shape)
        if val.ndim > len(tgt):
            # leading ones are allowed
            extra = val.ndim - len(tgt)
            if any(s.const != 1 for s in val.shape[:extra]):
                raise ShapeError(f'cannot store shape {list(val.shape)} into {list(tgt)}')
            val = index(val, [ix(0)] * extra)
        sh = bshape(tgt, val.shape)
        if sh != tgt:
            for x, y in zip(sh, tgt):
                r = same(x, y)
                if r is False:
                    raise ShapeError(f'cannot store shape {list(val.shape)} into {list(tgt)}')
                if r is None:
                    raise Unknown('store shapes')

        def at(ii):
            cond = []
            loc = [None] * len(tgt)
            for r, i in zip(regions, ii):
                if r[0] == 'c':
                    cond.append(G.cmp('eq', G.ixval(i), G.ixval(r[1])))
                else:
                    loc[r[4]] = ixadd(i, r[1], -1)
                    if not r[3]:
                        if r[1].const != 0:
                            cond.append(G.cmp('ge', G.ixval(i), G.ixval(r[1])))
                        cond.append(G.cmp('lt', G.ixval(i), G.ixval(ixadd(r[1], r[2]))))
            c = G.and_(*cond)
            if c.op == 'bool' and not c.args[0]:
                return a.at(ii)
            return G.ite(c, val.at(bcast_ix(val.shape, tuple(loc))), a.at(ii))

        new = Arr(a.shape, at)
        pats = []
        simple = True
        for r in regions:
            if r[0] == 'c':
                pats.append(r[1])
            elif r[3]:
                pats.append(None)
            else:
                simple = False
        if simple:
            return new, [((), None, tuple(pats), val)]

        # non-full slices: value as a function of the query index, old value outside
        def valfn(ii):
            loc = [None] * len(tgt)
            cond = []
            for r, i in zip(regions, ii):
                if r[0] == 's':
                    loc[r[4]] = ixadd(i, r[1], -1)
                    if not r[3]:
                        cond.append(G.cmp('ge', G.ixval(i), G.ixval(r[1])))
                        cond.append(G.cmp('lt', G.ixval(i), G.ixval(ixadd(r[1], r[2]))))
            return G.ite(G.and_(*cond), val.at(bcast_ix(val.shape, tuple(loc))), a.at(ii))

        return new, [((), None, tuple(r[1] if r[0] == 'c' else None for r in regions), valfn)]

    # ------------------------------------------------------------ iteration
    def seq_of(self, v):
        it = self.iter_items(v)
        return it if isinstance(it, SeqV) else ListV(it)

    def call_builtin_range(self, n):
        return self.models.call(self, 'builtins.range', [n], {})

    def iter_items(self, v, hint=None):
        """list of values or SeqV"""
        if isinstance(v, ListV):
            if v.items and v.items[0] == '__seq__':
                return v.items[1]
            return list(v.items)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SeqV):
            return v
        if isinstance(v, DictV):
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, Arr):
            if not v.shape:
                raise Unknown('iteration over a scalar')
            n = v.shape[0]
            if n.const is not None:
                return [index(v, [ix(k)]) for k in range(n.const)]
            if hint is not None and plain_unknown(n):
                return [index(v, [ix(k)]) for k in range(hint)]
            return SeqV(n, lambda i: index(v, [i]))
        if isinstance(v, PhiV):
            a, b = self.iter_items(v.a), self.iter_items(v.b)
            if isinstance(a, SeqV) or isinstance(b, SeqV) or len(a) != len(b):
                raise Unknown('iteration over a joined value')
            return [phi(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, ExtObj):
            r = self.models.ext_iter(self, v, hint)
            if r is not None:
                return r
        raise Unknown(f'iteration over {type(v).__name__}')

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        site = G.CUR_SITE[0]
        if hasattr(e, 'lineno'):
            self.at(e, fr)
        try:
            m = getattr(self, 'ex_' + type(e).__name__, None)
            if m is None:
                raise Unknown(f'expression {type(e).__name__}')
            return m(e, fr)
        except Unknown as u:
            return Top(str(u))
        except ShapeError as u:
            self.finding('shape', str(u))
            return Top(str(u), bad=True)
        finally:
            G.CUR_SITE[0] = site

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return scalar(G.const(v))
            return Fraction(repr(v))
        if isinstance(v, complex):
            return scalar(G.mul(G.const(v.imag), G.IMAGN))
        if isinstance(v, bytes):
            return v.decode('latin1')
        return v

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.f and not (f is not fr and getattr(f, 'is_class', False)):
                v = f.f[name]
                if isinstance(v, PhiV) and (isinstance(v.a, Unbound) or isinstance(v.b, Unbound)):
                    self.finding('unbound', f'variable {name!r} may be unassigned here')
                    return v.b if isinstance(v.a, Unbound) else v.a
                return v
            f = f.parent
        mf = fr.module.frame
        if mf is not None and name in mf.f:
            return mf.f[name]
        if name in BUILTINS:
            return ExtV('builtins.' + name)
        if name in EXCEPTIONS:
            return ExtV('builtins.' + name)
        if name == '__name__':
            return fr.module.name
        if name == '__file__':
            return fr.module.path
        if fr.func is not None and self._assigned_somewhere(fr.func, name):
            self.finding('unbound', f'variable {name!r} is not assigned on this path')
            return Top(f'unassigned variable {name}', bad=True)
        raise Unknown(f'name {name}')

    def _assigned_somewhere(self, func, name):
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return True
        return False

    def ex_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ex_List(self, e, fr):
        r = self.elts(e.elts, fr)
        return ListV(r)

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iter_items(self.ev(x.value, fr))
                if isinstance(it, SeqV):
                    raise Unknown('star of symbolic sequence')
                out += list(it)
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Set(self, e, fr):
        vals = self.elts(e.elts, fr)
        return ListV(vals)

    def ex_Dict(self, e, fr):
        d = {}
        rest = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, fr)
                if isinstance(x, Top):
                    return x
                if not isinstance(x, DictV):
                    raise Unknown('** of a non-dict')
                d.update(x.d)
                rest = x.rest or rest
            else:
                d[self.hashable(self.ev(k, fr))] = self.ev(v, fr)
        return DictV(d, rest=rest)

    def hashable(self, k):
        if isinstance(k, (str, int, Fraction, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, Arr) and not k.shape and k.node().op == 'const':
            f = k.node().args[0]
            return int(f) if f.denominator == 1 else f
        if isinstance(k, (ExtV, ClassV)):
            return k
        raise Unknown('dictionary key')

    def ex_JoinedStr(self, e, fr):
        out = ''
        nodes = None
        for p in e.values:
            if isinstance(p, ast.Constant):
                s = p.value
            else:
                v = self.ev(p.value, fr)
                if isinstance(v, str):
                    s = v
                elif isinstance(v, (int, bool)) or v is None:
                    s = format(v, self.ev(p.format_spec, fr)) if p.format_spec else str(v)
                elif isinstance(v, Fraction):
                    s = str(float(v))
                else:
                    s = None
                    nodes = nodes or []
                    nodes.append(pack(v))
            out += s if s is not None else '\0'
        if nodes is not None:
            return StrV(G.mk('app', 'fstr', (out,), *nodes))
        return out

    def ex_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(v, Top):
            return v
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return scalar_bool(G.not_(t))
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, PhiV):
            return phi(v.cond, self.unop(op, v.a), self.unop(op, v.b))
        if op == 'USub':
            if is_num(v):
                return -v
            if isinstance(v, Ix):
                return ixmul(v, ix(-1))
            return emap(G.neg, to_arr(v))
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, int):
                return ~v
            return emap(G.not_, to_arr(v), boolean=True)
        raise Unknown(op)

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, PhiV):
            return phi(a.cond, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, PhiV):
            return phi(b.cond, self.binop(op, a, b.a), self.binop(op, a, b.b))
        if a is None or b is None:
            raise ShapeError('None used in arithmetic')
        if is_num(a) and is_num(b):
            r = self.numop(op, a, b)
            if r is not None:
                return r
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool) and op in ('BitAnd', 'BitOr'):
                return (a and b) if op == 'BitAnd' else (a or b)
            if op not in ('BitAnd', 'BitOr'):
                a = int(a) if isinstance(a, bool) else a
                b = int(b) if isinstance(b, bool) else b
                return self.binop(op, a, b)
        if isinstance(a, Ix) or isinstance(b, Ix):
            if isinstance(a, (Ix, int)) and isinstance(b, (Ix, int)):
                x, y = ix(a), ix(b)
                r = {'Add': lambda: ixadd(x, y), 'Sub': lambda: ixadd(x, y, -1), 'Mult': lambda: ixmul(x, y),
                     'FloorDiv': lambda: G.ixfloordiv(x, y), 'Mod': lambda: G.ixmod(x, y)}.get(op)
                if r is not None:
                    r = r()
                    return r.const if r.const is not None else r
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and op == 'Add':
                return a + b
            if op == 'Mod' and isinstance(a, str):
                if conc(b) or (isinstance(b, tuple) and all(conc(x) for x in b)):
                    try:
                        return a % b
                    except Exception:
                        pass
                return StrV(G.mk('app', 'strmod', (a,), pack(b)))
            if op == 'Mult' and isinstance(b, int):
                return a * b
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and op == 'Add':
                return StrV(G.mk('app', 'fstr', ((a if isinstance(a, str) else '\0') + (b if isinstance(b, str) else '\0'),), *[x.node for x in (a, b) if isinstance(x, StrV)]))
            raise Unknown('string operation')
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, ListV) and op in ('Add', 'Mult') and not isinstance(b, Arr) and not isinstance(b, ExtV):
            if op == 'Add' and isinstance(b, ListV):
                return ListV(tuple(self.iter_items(a)) + tuple(self.iter_items(b)))
            if op == 'Mult' and isinstance(b, int):
                return ListV(a.items * b)
            if op == 'Mult' and isinstance(b, Ix) and len(a.items) == 1:
                x = a.items[0]
                return SeqV(b, lambda i: x)
        if isinstance(b, ListV) and op == 'Mult' and isinstance(a, (int, Ix)):
            return self.binop(op, b, a)
        if isinstance(a, SeqV) and op == 'Add' and isinstance(b, (SeqV, ListV)):
            raise Unknown('concatenation of symbolic lists')
        if isinstance(a, DictV) and isinstance(b, DictV) and op == 'BitOr':
            return DictV({**a.d, **b.d}, rest=a.rest or b.rest)
        if isinstance(a, (ExtV, ExtObj)) or isinstance(b, (ExtV, ExtObj)):
            r = self.models.ext_binop(self, op, a, b)
            if r is not None:
                return r
        x, y = to_arr(a), to_arr(b)
        return self.arrop(op, x, y)

    def numop(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if b == 0:
                raise Unknown('division by zero')
            r = Fraction(a) / b
            return r
        if op == 'FloorDiv' and b:
            return a // b
        if op == 'Mod' and b:
            return a % b
        if op == 'Pow':
            if Fraction(b).denominator == 1 and abs(b) < 400:
                if a == 0 and b < 0:
                    raise Unknown('0**-n')
                r = Fraction(a) ** int(b)
                return int(r) if isinstance(a, int) and isinstance(b, int) and r.denominator == 1 else r
            return None
        if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}.get(op)
        return None

    def arrop(self, op, x, y):
        if op == 'Add':
            return emap(G.add, x, y)
        if op == 'Sub':
            return emap(G.sub, x, y)
        if op == 'Mult':
            return emap(G.mul, x, y)
        if op == 'Div':
            return emap(G.div, x, y)
        if op == 'Pow':
            return emap(G.power, x, y)
        if op == 'BitAnd':
            return emap(G.and_, x, y, boolean=True)
        if op == 'BitOr':
            return emap(G.or_, x, y, boolean=True)
        if op == 'MatMult':
            return self.models.matmul(x, y)
        if op == 'FloorDiv':
            return emap(lambda p, q: G.fn('floordiv', p, q), x, y)
        if op == 'Mod':
            return emap(lambda p, q: G.fn('mod', p, q), x, y)
        raise Unknown(op)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if isinstance(v, Top):
                if acc is None and k == len(e.values) - 1:
                    return v
                return v
            t = self.truth(v)
            lastv = k == len(e.values) - 1
            if isinstance(t, bool):
                if isand and not t:
                    return v if acc is None else False
                if not isand and t:
                    return v if acc is None else True if not isinstance(acc, PhiV) else v
                if lastv:
                    if acc is None:
                        return v
                    return scalar_bool(acc)
                continue
            # undecided
            if isinstance(v, Arr) and v.boolean or isinstance(v, PhiV) or True:
                acc = t if acc is None else (G.and_(acc, t) if isand else G.or_(acc, t))
        return scalar_bool(acc)

    def ex_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if c is True:
            return self.ev(e.body, fr)
        if c is False:
            return self.ev(e.orelse, fr)
        raised = []

        def side(x):
            try:
                return self.ev(x, fr)
            except RaiseSig as r:
                raised.append(r)
                return r
        a, b = side(e.body), side(e.orelse)
        if len(raised) == 2:
            raise raised[0]
        if isinstance(a, RaiseSig):
            return b
        if isinstance(b, RaiseSig):
            return a
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        return phi(c, a, b)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = True
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if isinstance(v, Top):
                return v
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            acc = self._and(acc, t)
            left = right
        return acc if isinstance(acc, bool) else scalar_bool(acc)

    def compare(self, op, a, b):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, PhiV) and not (op in ('In', 'NotIn') and False):
            return phi(a.cond, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, PhiV):
            return phi(b.cond, self.compare(op, a, b.a), self.compare(op, a, b.b))
        if op in ('Is', 'IsNot'):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, Arr) and a.boolean and isinstance(b, bool) and not a.shape:
                    n = a.node()
                    return scalar_bool(n if b == (op == 'Is') else G.not_(n))
                r = a is b
            elif isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
                r = a is b or a == b
            else:
                r = a is b
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            if isinstance(r, bool):
                return r if op == 'In' else not r
            return scalar_bool(r if op == 'In' else G.not_(r))
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return r if op == 'Eq' else not r
            if isinstance(r, Arr):
                return r if op == 'Eq' else emap(G.not_, r, boolean=True)
            return scalar_bool(r if op == 'Eq' else G.not_(r))
        m = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]
        if is_num(a) and is_num(b):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[m]
        if isinstance(a, (Ix, int)) and isinstance(b, (Ix, int)):
            d = ixadd(ix(a), ix(b), -1)
            if d.const is not None:
                return {'lt': d.const < 0, 'le': d.const <= 0, 'gt': d.const > 0, 'ge': d.const >= 0}[m]
            if not d.vars():
                # grids are assumed to have more than one point
                lo = d.c + sum(2 * k for _, k in d.terms if k > 0)
                if all(k > 0 for _, k in d.terms) and lo > 0:
                    return m in ('gt', 'ge')
                hi = d.c + sum(2 * k for _, k in d.terms if k < 0)
                if all(k < 0 for _, k in d.terms) and hi < 0:
                    return m in ('lt', 'le')
        if isinstance(a, str) and isinstance(b, str):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[m]
        r = emap(lambda x, y: G.cmp(m, x, y), to_arr(a), to_arr(b), boolean=True)
        if not r.shape and r.node().op == 'bool':
            return r.node().args[0]
        return r

    def equal(self, a, b):
        """True/False/Node/Arr"""
        if a is b and not isinstance(a, Arr):
            return True
        if conc(a) and conc(b):
            if isinstance(a, str) != isinstance(b, str):
                return False
            return a == b
        if a is None or b is None:
            return False
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            x, y = self.iter_items(a), self.iter_items(b)
            if isinstance(x, SeqV) or isinstance(y, SeqV):
                raise Unknown('comparison of symbolic sequences')
            if len(x) != len(y):
                return False
            acc = True
            for p, q in zip(x, y):
                r = self.equal(p, q)
                if isinstance(r, Arr):
                    raise Unknown('array comparison inside a sequence')
                acc = self._and(acc, r)
            return acc
        if isinstance(a, Ix) or isinstance(b, Ix):
            if isinstance(a, (Ix, int)) and isinstance(b, (Ix, int)):
                r = same(ix(a), ix(b))
                if r is not None:
                    return r
                return G.cmp('eq', G.ixval(ix(a)), G.ixval(ix(b)))
        if isinstance(a, StrV) or isinstance(b, StrV):
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                ns = sorted([pack(a), pack(b)], key=lambda n: n.id)
                return G.mk('app', 'streq', (), *ns)
            return False
        if isinstance(a, (ClassV, ExtV, FuncV)) or isinstance(b, (ClassV, ExtV, FuncV)):
            if isinstance(a, (Arr,)) or isinstance(b, Arr):
                return False
            return a == b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, ExtObj) or isinstance(b, ExtObj):
                return G.mk('app', 'streq', (), *sorted([pack(a), pack(b)], key=lambda n: n.id))
            return False
        if isinstance(a, DictV) and isinstance(b, DictV):
            if not a.d and not b.d and not a.rest and not b.rest:
                return True
            raise Unknown('dict comparison')
        if isinstance(a, (ObjV, DictV)) or isinstance(b, (ObjV, DictV)):
            return a is b
        r = emap(lambda x, y: G.cmp('eq', x, y), to_arr(a), to_arr(b), boolean=True)
        if not r.shape and not (to_arr(a).shape or to_arr(b).shape):
            n = r.node()
            return n.args[0] if n.op == 'bool' else n
        return r

    def contains(self, a, b):
        if isinstance(b, DictV):
            k = self.hashable(a)
            if k in b.d:
                v = b.d[k]
                if isinstance(v, PhiV) and (isinstance(v.a, Unbound) or isinstance(v.b, Unbound)):
                    return v.cond if isinstance(v.b, Unbound) else G.not_(v.cond)
                return True
            if b.rest:
                return G.mk('app', 'haskey', (b.rest, str(k)))
            return False
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            raise Unknown('substring test')
        if isinstance(b, ExtObj):
            r = self.models.ext_contains(self, a, b)
            if r is not None:
                return r
        items = self.iter_items(b)
        if isinstance(items, SeqV):
            raise Unknown('membership in symbolic sequence')
        acc = False
        for x in items:
            r = self.equal(a, x)
            if isinstance(r, Arr):
                raise Unknown('membership of array')
            acc = self._or(acc, r)
            if acc is True:
                return True
        return acc

    def truth(self, v):
        """True / False / Node"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_num(v):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, ListV):
            return bool(v.items)
        if isinstance(v, DictV):
            if v.d:
                return True
            if v.rest:
                return G.mk('app', 'nonempty', (v.rest,))
            return False
        if isinstance(v, Ix):
            if any(a[0] == 'node' for a, _ in v.terms):
                return G.cmp('ne', G.ixval(v), G.ZERO)
            return True
        if isinstance(v, Arr):
            if v.shape:
                if all(s.const == 1 for s in v.shape):
                    n = v.at(tuple(ix(0) for _ in v.shape))
                else:
                    raise ShapeError('truth value of an array with more than one element')
            else:
                n = v.node()
            if n.op == 'bool':
                return n.args[0]
            if n.op == 'const':
                return n.args[0] != 0
            if v.boolean:
                return n
            return G.cmp('ne', n, G.ZERO)
        if isinstance(v, PhiV):
            a, b = self.truth(v.a), self.truth(v.b)
            x = G.mk('bool', a) if isinstance(a, bool) else a
            y = G.mk('bool', b) if isinstance(b, bool) else b
            if x is y:
                return a
            if isinstance(a, bool) and isinstance(b, bool):
                return v.cond if a else G.not_(v.cond)
            return G.or_(G.and_(v.cond, x), G.and_(G.not_(v.cond), y))
        if isinstance(v, StrV):
            return G.mk('app', 'nonempty', (), v.node)
        if isinstance(v, Top):
            return G.mk('app', '?cond', (v.why, str(v.site)))
        if isinstance(v, ExtObj):
            r = self.models.ext_truth(self, v)
            return True if r is None else r
        if isinstance(v, SeqV):
            return True
        if isinstance(v, Node):
            return v.args[0] if v.op == 'bool' else v
        return True

    # comprehension ---------------------------------------------------------
    def ex_ListComp(self, e, fr):
        r = self.comp(e.generators, lambda f: self.ev(e.elt, f), fr)
        return r if isinstance(r, SeqV) else ListV(r)

    def ex_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, lambda f: self.ev(e.elt, f), fr)
        return r if isinstance(r, SeqV) else ListV(r)

    def ex_SetComp(self, e, fr):
        return self.ex_ListComp(e, fr)

    def ex_DictComp(self, e, fr):
        r = self.comp(e.generators, lambda f: (self.ev(e.key, f), self.ev(e.value, f)), fr)
        if isinstance(r, SeqV):
            raise Unknown('dict comprehension over a symbolic range')
        return DictV({self.hashable(k): v for k, v in r})

    def comp(self, gens, elt, fr):
        f = Frame(fr.module, fr.func, fr)
        self.frames.append(f)
        try:
            return self._comp(gens, elt, f)
        finally:
            self.frames.pop()

    def _comp(self, gens, elt, f):
        g = gens[0]
        itv = self.ev(g.iter, f)
        if isinstance(itv, Top):
            if itv.bad:
                return [itv]
            raise Unknown(itv.why)
        items = self.iter_items(itv)
        if isinstance(items, SeqV):
            v = G.fresh('c')
            G.BOUND[v] = items.size
            self.assign(g.target, items.fn(ixv(v)), f)
            for c in g.ifs:
                t = self.truth(self.ev(c, f))
                if t is False:
                    return []
                if t is not True:
                    raise Unknown('filtered comprehension over a symbolic range')
            if len(gens) > 1:
                raise Unknown('nested symbolic comprehension')
            val = elt(f)
            if isinstance(val, Top):
                return SeqV(items.size, lambda i: val)
            return SeqV(items.size, lambda i: subst_value(val, {v: i}))
        out = []
        for x in items:
            self.assign(g.target, x, f)
            ok = True
            for c in g.ifs:
                t = self.truth(self.ev(c, f))
                if t is False:
                    ok = False
                    break
                if t is not True:
                    raise Unknown('filtered comprehension')
            if not ok:
                continue
            if len(gens) > 1:
                r = self._comp(gens[1:], elt, f)
                if isinstance(r, SeqV):
                    raise Unknown('nested symbolic comprehension')
                out += r
            else:
                out.append(elt(f))
        return out

    def ex_Lambda(self, e, fr):
        fd = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)], decorator_list=[], lineno=e.lineno, col_offset=0)
        f = FuncV('<lambda>', fd, fr, fr.module)
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        return f

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        self.assign(e.target, v, f)
        return v

    def ex_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        lst = fr.f.get('__yield__')
        self.put(lst, 'items', lst.items + (v,))
        return None

    def ex_YieldFrom(self, e, fr):
        it = self.iter_items(self.ev(e.value, fr))
        lst = fr.f.get('__yield__')
        if isinstance(it, SeqV):
            raise Unknown('yield from symbolic')
        self.put(lst, 'items', lst.items + tuple(it))
        return None

    # subscripts ----------------------------------------------------------------
    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.iter_items(self.ev(x.value, fr)))
                else:
                    out.append(self.ev_index(x, fr))
            return tuple(out)
        if isinstance(s, ast.Slice):
            return SliceV(self.ev(s.lower, fr) if s.lower else None, self.ev(s.upper, fr) if s.upper else None, self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def ex_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def ex_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        key = self.ev_index(e.slice, fr)
        return self.getitem(base, key)

    def ixkey(self, k):
        """normalise one index to None | Ellipsis | ('slice',..) | Ix | Arr"""
        if k is None or k is Ellipsis:
            return k
        if isinstance(k, SliceV):
            def c(x):
                if x is None:
                    return None
                r = self.ixkey(x)
                if not isinstance(r, Ix):
                    raise Unknown('slice bound')
                return r
            st = 1 if k.step is None else self.ixkey(k.step)
            if isinstance(st, Ix) and st.const is not None:
                st = st.const
            return ('slice', c(k.start), c(k.stop), st)
        if isinstance(k, bool):
            raise Unknown('boolean index')
        if isinstance(k, int):
            return ix(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            return ix(int(k))
        if isinstance(k, Ix):
            return k
        if isinstance(k, Arr):
            if not k.shape:
                return G.ixnode(k.node())
            return k
        if isinstance(k, (ListV, SeqV)):
            return to_arr(k)
        if isinstance(k, Top):
            raise Unknown(k.why)
        raise Unknown(f'index of type {type(k).__name__}')

    def getitem(self, base, key):
        if isinstance(base, Top):
            return base
        if isinstance(key, Top):
            return key
        if isinstance(base, PhiV):
            return phi(base.cond, self.getitem(base.a, key), self.getitem(base.b, key))
        if isinstance(key, PhiV):
            return phi(key.cond, self.getitem(base, key.a), self.getitem(base, key.b))
        if isinstance(base, DictV):
            k = self.hashable(key) if not isinstance(key, StrV) else None
            if k is None and isinstance(key, StrV):
                raise Unknown('symbolic key')
            if k in base.d:
                v = base.d[k]
                if isinstance(v, PhiV) and (isinstance(v.a, Unbound) or isinstance(v.b, Unbound)):
                    self.finding('keyerror', f'key {k!r} may be missing here')
                    return v.b if isinstance(v.a, Unbound) else v.a
                return v
            if base.rest:
                return self.models.rest_item(self, base, k)
            raise RaiseSig('KeyError', G.CUR_SITE[0])
        if isinstance(base, SeqV) or isinstance(base, ListV) and base.items and base.items[0] == '__seq__':
            seq = base if isinstance(base, SeqV) else base.items[1]
            if isinstance(key, SliceV):
                from .arrays import slice_size
                k = self.ixkey(key)
                sz, lo, st = slice_size(seq.size, k[1], k[2], k[3])
                return SeqV(sz, lambda i: seq.fn(ixadd(lo, ixmul(i, st))))
            k = self.ixkey(key)
            if isinstance(k, Ix):
                if k.const is not None and k.const < 0:
                    k = ixadd(seq.size, k)
                return seq.fn(k)
            raise Unknown('sequence index')
        if isinstance(base, (ListV, tuple)):
            items = base.items if isinstance(base, ListV) else base
            if isinstance(key, Arr) and not key.shape and key.node().op == 'const':
                key = int(key.node().args[0])
            if isinstance(key, int) and not isinstance(key, bool):
                if not -len(items) <= key < len(items):
                    raise RaiseSig('IndexError', G.CUR_SITE[0])
                return items[key]
            if isinstance(key, bool):
                return items[int(key)]
            if isinstance(key, SliceV):
                f = lambda x: int(x) if x is not None else None
                r = items[slice(f(key.start), f(key.stop), f(key.step))]
                return ListV(r) if isinstance(base, ListV) else r
            if isinstance(key, (Ix, Arr)):
                k = self.ixkey(key)
                if isinstance(k, Ix):
                    arrs = [to_arr(x) for x in items]
                    return index(to_arr(ListV(arrs)), [k])
            if isinstance(key, tuple) and items and all(isinstance(x, (int, Fraction, Arr, Ix)) for x in items):
                raise ShapeError('a list is indexed with a tuple')
            raise Unknown('list index')
        if isinstance(base, str):
            if isinstance(key, int):
                return base[key]
            if isinstance(key, SliceV):
                f = lambda x: int(x) if x is not None else None
                return base[slice(f(key.start), f(key.stop), f(key.step))]
            raise Unknown('string index')
        if isinstance(base, Arr):
            keys = list(key) if isinstance(key, tuple) else [key]
            keys = [self.ixkey(k) for k in keys]
            if any(isinstance(k, Arr) and k.boolean for k in keys):
                if len(keys) == 1 and keys[0].ndim > 1:
                    return Masked(base, keys[0])
                keys = [self.models.nonzero(k) if isinstance(k, Arr) and k.boolean else k for k in keys]
            return index(base, keys)
        if isinstance(base, ExtObj):
            return self.models.ext_getitem(self, base, key)
        if isinstance(base, ExtV) or isinstance(base, ClassV):
            return base
        if isinstance(base, Masked):
            raise Unknown('index of masked array')
        raise Unknown(f'subscript of {type(base).__name__}')

    # attributes ------------------------------------------------------------
    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, name, default=Unbound):
        if isinstance(o, Top):
            return o
        if isinstance(o, PhiV):
            return phi(o.cond, self.getattr(o.a, name), self.getattr(o.b, name))
        if isinstance(o, ObjV):
            return self.obj_getattr(o, name, default)
        if isinstance(o, SuperV):
            c, m = o.obj.cls.lookup(name, after=o.cls)
            if m is None:
                return BuiltinV(o, name)
            return self.bind(o.obj, c, m, name)
        if isinstance(o, ClassV):
            c, m = o.lookup(name)
            if m is not None:
                if m.kind == 'value':
                    return m.value
                if m.kind == 'classm':
                    return BoundV(m.value, o)
                return m.value
            if name == '__name__':
                return o.name
            if name in ('_plugins',):
                return DictV({k.name: k for k in self.subclasses(o)})
            if name == '__class__':
                return ExtV('builtins.type')
            raise Unknown(f'class attribute {o.name}.{name}')
        if isinstance(o, ModV):
            if name in o.frame.f:
                return o.frame.f[name]
            return self.repo_or_ext(o.name + '.' + name)
        if isinstance(o, ExtV):
            return self.ext_attr(o.path, name)
        if isinstance(o, ExtObj):
            r = self.models.extobj_attr(self, o, name)
            if r is not None:
                return r
            raise Unknown(f'attribute {o.kind}.{name}')
        if isinstance(o, FuncV):
            if name == '__name__':
                return o.name
            raise Unknown(f'function attribute {name}')
        return self.models.value_attr(self, o, name)

    def subclasses(self, c):
        out = []
        for m in list(self.modules.values()):
            if m.frame is None:
                continue
            for v in m.frame.f.values():
                if isinstance(v, ClassV) and v is not c and c in v.mro() and v not in out:
                    out.append(v)
        return out

    def obj_getattr(self, o, name, default=Unbound):
        c, m = o.cls.lookup(name)
        if m is not None and m.kind in ('param', 'prop', 'cached', 'fcached'):
            if m.kind == 'param':
                self.read_param(o, name)
                if name not in o.f:
                    self.finding('unset', f'parameter {o.cls.name}.{name} is read but never set')
                    return Top(f'parameter {name} never set', bad=True)
                return o.f[name]
            return self.quantity(o, c, m, name)
        if name in o.f:
            v = o.f[name]
            if isinstance(v, PhiV) and (isinstance(v.a, Unbound) or isinstance(v.b, Unbound)):
                return v.b if isinstance(v.a, Unbound) else v.a
            self.read_attr(o, name)
            return v
        if m is not None:
            if m.kind == 'value':
                return m.value
            return self.bind(o, c, m, name)
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return DictV(o.f)
        if o.cls.ext_bases() and not (all(b.path.split('.')[-1] in ('Framework', 'Component', 'ABC', 'object') for b in o.cls.ext_bases())
                                      and name not in FRAMEWORK_MEMBERS and not name.startswith('__')):
            return BuiltinV(o, name)
        if default is not Unbound:
            return default
        if self.try_depth:
            raise RaiseSig('AttributeError', G.CUR_SITE[0])
        self.finding('attr', f'{o.cls.name} has no attribute {name!r}')
        return Top(f'no attribute {name}', bad=True)

    def bind(self, o, c, m, name):
        if m.kind in ('prop', 'cached', 'fcached'):
            return self.call(m.value, [o], {})
        if m.kind == 'static':
            return m.value
        if m.kind == 'classm':
            return BoundV(m.value, o.cls)
        if m.kind == 'param':
            return o.f[name]
        if m.kind == 'value':
            return m.value
        return BoundV(m.value, o)

    def read_param(self, o, name):
        for pr in o.activeq:
            o.prpa[pr].add(name)
        for (obj, q, deps) in self.active:
            if obj is o:
                deps.add(('param', name))

    def read_attr(self, o, name):
        for (obj, q, deps) in self.active:
            if obj is o:
                deps.add(('attr', name))

    def note_deps(self, o, deps, kind, name):
        for (obj, q, d) in self.active:
            if obj is o:
                d |= deps
                if kind in ('cached', 'fcached'):
                    d.add((kind, name))

    def evaluate(self, o, m, name):
        """run the defining function of a quantity, collecting what it reads of its object"""
        if any(obj is o and q == name for obj, q, _ in self.active):
            self.finding('cycle', f'quantity {name} depends on itself')
            return Top('cyclic quantity', bad=True), set()
        deps = set()
        self.active.append((o, name, deps))
        try:
            val = self.call(m.value, [o], {})
        finally:
            self.active.pop()
        self.note_deps(o, deps, m.kind, name)
        if m.kind in ('cached', 'fcached'):
            val = tag(val, f'cached:{o.cls.name}.{name}')
        return val, deps

    def quantity(self, o, c, m, name):
        if m.kind == 'prop':
            if name in o.cache:
                val, deps = o.cache[name]
                self.note_deps(o, deps, m.kind, name)
                for pr in o.activeq:
                    o.prpa[pr] |= {x for k, x in deps if k == 'param'}
                return val
            val, deps = self.evaluate(o, m, name)
            o.cache[name] = (val, deps)
            return val
        if m.kind == 'fcached':
            # functools.cached_property: computed once for the life of the object
            if name in o.fixed:
                val, deps = o.fixed[name]
                self.note_deps(o, deps, m.kind, name)
                return val
            val, deps = self.evaluate(o, m, name)
            o.fixed[name] = (val, deps)
            return val
        # hmf.cached_quantity
        if name in o.recalc:
            for pr in o.activeq:
                if name not in o.prpa or pr not in o.prpa:
                    self.finding('cache', f'{o.cls.name}.{name} was flagged for recalculation without an index')
                    raise RaiseSig('KeyError', G.CUR_SITE[0])
                o.prpa[pr] |= o.prpa[name]
        if not o.recalc.get(name, True):
            val, deps = o.qval[name]
            self.note_deps(o, deps, m.kind, name)
            return val
        if name in o.recalc:
            val, deps = self.evaluate(o, m, name)
            o.qval[name] = (val, deps)
            o.recalc[name] = False
            return val
        o.prpa[name] = set()
        o.activeq.add(name)
        try:
            val, deps = self.evaluate(o, m, name)
        except BaseException:
            o.activeq.discard(name)
            o.prpa.pop(name, None)
            raise
        o.qval[name] = (val, deps)
        for par in o.prpa[name]:
            o.papr.setdefault(par, set()).add(name)
        o.prpa[name] = set(o.prpa[name])
        o.activeq.discard(name)
        o.recalc[name] = False
        return val

    def setattr(self, o, name, v):
        if isinstance(o, Top):
            return
        if isinstance(o, ObjV):
            c, m = o.cls.lookup(name)
            if m is not None and m.kind == 'param':
                val = self.call(m.value, [o, v], {})
                val = tag(val, f'input:{o.cls.name}.{name}')
                old, seen = o.f.get(name), name in o.f
                if seen and plainly_equal(old, val):
                    return          # the setter of hmf leaves the index alone when the value is the old one
                if isinstance(val, DictV) and val.d and seen and old is None:
                    raise RaiseSig('AttributeError', G.CUR_SITE[0])      # hmf merges into the old table, which is None
                if isinstance(val, DictV) and isinstance(old, DictV) and val.d:
                    merged = DictV({**old.d, **val.d}, alias=old.alias, rest=val.rest or old.rest)
                    self.put(o, name, merged)
                else:
                    self.put(o, name, val)
                self.invalidate(o, name, m.extra == 'switch' and seen)
                return
            if m is not None and m.kind == 'prop':
                if m.setter is not None:
                    self.call(m.setter, [o, v], {})
                    return
                self.finding('attr', f'assignment to read-only {o.cls.name}.{name}')
                raise RaiseSig('AttributeError', G.CUR_SITE[0])
            if self.active and any(obj is o for obj, _, _ in self.active):
                self.effects.append(((f'state:{o.cls.name}.{name}',), G.CUR_SITE[0], 'attribute written while a quantity is being computed'))
            o.cache.clear()
            if m is not None and m.kind == 'fcached':
                o.fixed[name] = (v, set())
                return
            self.put(o, name, v)
            return
        if isinstance(o, ExtObj):
            self.put(o, name, v)
            return
        if isinstance(o, ExtV):
            return
        if isinstance(o, ClassV):
            o.members[name] = Member('value', v)
            return
        if isinstance(o, ModV):
            self.put(o.frame, name, v)
            return
        raise Unknown(f'attribute assignment on {type(o).__name__}')

    def invalidate(self, o, name, switch=False):
        """a tracked parameter was set: flag (or, for switches, forget) the quantities indexed under it"""
        o.cache.clear()
        for q in o.papr.get(name, ()):
            if switch:
                o.qval.pop(q, None)
                o.recalc.pop(q, None)
                o.prpa.pop(q, None)
            else:
                o.recalc[q] = True

    # ----------------------------------------------------------------- calls
    def ex_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if isinstance(f, Top):
            return f
        if isinstance(f, ExtV) and f.path == 'builtins.super' and not e.args:
            fx = fr
            while fx.func is None or fx.func.cls is None:
                fx = fx.parent
            return SuperV(fx.f[fx.func.node.args.args[0].arg], fx.func.cls)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iter_items(self.ev(a.value, fr))
                if isinstance(it, SeqV):
                    args.append(StarSeq(it))
                else:
                    args += list(it)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Top):
                    return v
                if isinstance(v, DictV):
                    for kk, vv in v.d.items():
                        kw[kk] = vv
                    if v.rest:
                        kw['**rest'] = v.rest
                else:
                    raise Unknown('** argument')
            else:
                kw[k.arg] = v
        self.call_sites += 1
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Top):
            self.lost.append(G.CUR_SITE[0])
            return f
        if isinstance(f, PhiV):
            return phi(f.cond, self.call(f.a, args, kw), self.call(f.b, args, kw))
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, BuiltinV):
            return self.models.method(self, f.owner, f.name, args, kw)
        if isinstance(f, ExtV):
            return self.models.call(self, f.path, args, kw)
        if isinstance(f, ExtObj):
            return self.models.call_obj(self, f, args, kw)
        if isinstance(f, ObjV):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw)
        raise Unknown(f'call of {type(f).__name__}')

    def memo_key(self, v):
        if isinstance(v, ObjV):
            return ('obj', v.oid)
        if isinstance(v, tuple):
            return tuple(self.memo_key(x) for x in v)
        if isinstance(v, Arr):
            if v.isarr and v.shape:
                self.finding('memo', 'an array is passed to a memoised function')
                raise RaiseSig('TypeError', G.CUR_SITE[0])
            n = v.node()
            return ('num', G.fp(n, {x: 0 for x in n.fv}))
        if v is None or isinstance(v, (str, int, float, Fraction, bool)):
            return v
        raise Unknown('argument of a memoised function')

    def call_func(self, f, args, kw):
        if f.memo is not None:
            key = (tuple(self.memo_key(a) for a in args), tuple(sorted((k, self.memo_key(a)) for k, a in kw.items())))
            if key not in f.memo:
                m, f.memo = f.memo, None
                try:
                    m[key] = self.call_func(f, args, kw)
                finally:
                    f.memo = m
            return f.memo[key]
        cut = self.cuts.get(f.qualname)
        if cut is not None:
            r = cut(self, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 60 or sum(1 for x in self.stack if x is f.node) > 8:
            raise Unknown('recursion')
        fr = Frame(f.module, f, f.frame)
        self.bind_args(f, args, kw, fr)
        self.fn_seen.add((f.module.relpath, f.qualname))
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if isgen:
            fr.f['__yield__'] = ListV()
        self.stack.append(f.node)
        self.frames.append(fr)
        site = G.CUR_SITE[0]
        try:
            sig = self.exec_block(f.node.body, fr)
        finally:
            self.stack.pop()
            self.frames.pop()
            G.CUR_SITE[0] = site
        if sig is not None and sig[0] == 'raise':
            if fr.pending:
                # raising only when no earlier return was taken: assume it was
                val = None
                for c, v in reversed(fr.pending):
                    val = v if val is None else phi(c, v, val)
                return val
            raise RaiseSig(sig[1], sig[2])
        if sig is not None and sig[0] == 'unknown':
            self.lost.append(G.CUR_SITE[0])
            return Top(sig[1])
        if sig is not None and sig[0] in ('guard', 'break', 'cont'):
            self.lost.append(G.CUR_SITE[0])
            return Top('control flow')
        if isgen:
            return fr.f['__yield__']
        ret = sig[1] if sig else None
        for c, v in reversed(fr.pending):
            ret = phi(c, v, ret)
        if f.subst:
            ret = subst_value(ret, f.subst)
        return ret

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        rest = kw.pop('**rest', None)
        args = list(args)
        if any(isinstance(x, StarSeq) for x in args):
            raise Unknown('symbolic *args')
        for n, v in zip(names, args):
            fr.f[n] = v
        extra = args[len(names):]
        if extra:
            if a.vararg:
                fr.f[a.vararg.arg] = tuple(extra)
            else:
                self.finding('call', f'too many positional arguments for {f.qualname}')
                raise RaiseSig('TypeError', G.CUR_SITE[0])
        elif a.vararg:
            fr.f[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra_kw = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in fr.f:
                    self.finding('call', f'argument {k} given twice to {f.qualname}')
                    raise RaiseSig('TypeError', G.CUR_SITE[0])
                fr.f[k] = v
            elif a.kwarg:
                extra_kw[k] = v
            else:
                self.finding('call', f'unexpected keyword {k!r} for {f.qualname}')
                raise RaiseSig('TypeError', G.CUR_SITE[0])
        if a.kwarg:
            fr.f[a.kwarg.arg] = DictV(extra_kw, rest=rest)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in fr.f:
                fr.f[n] = d
        for n in kwonly:
            if n not in fr.f and n in f.kwdefaults:
                fr.f[n] = f.kwdefaults[n]
        for n in names + kwonly:
            if n not in fr.f:
                self.finding('call', f'missing argument {n!r} for {f.qualname}')
                raise RaiseSig('TypeError', G.CUR_SITE[0])

    def instantiate(self, c, args, kw):
        cut = self.cuts.get('new:' + c.name)
        if cut is not None:
            r = cut(self, c, args, kw)
            if r is not NotImplemented:
                return r
        o = ObjV(c)
        if self.created is not None:
            self.created.append(o)
        cc, m = c.lookup('__init__')
        if m is not None:
            saved = self.active
            self.active = []
            try:
                self.call(m.value, [o] + list(args), kw)
            finally:
                self.active = saved
        else:
            self.models.ext_init(self, o, args, kw)
        if c.is_sub('_framework.Framework'):
            cc, m = c.lookup('validate')
            if m is not None:
                self.call(m.value, [o], {})
        return o


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


def scalar_bool(n):
    if isinstance(n, bool):
        return n
    if n.op == 'bool':
        return n.args[0]
    return Arr((), lambda i: n, isarr=False, boolean=True)


def tag(v, t):
    if isinstance(v, Arr) and v.isarr:
        return Arr(v.shape, v._at, alias=v.alias | {t}, base=v.base, boolean=v.boolean)
    if isinstance(v, ListV):
        v.alias = v.alias | {t}
        return v
    if isinstance(v, DictV):
        v.alias = v.alias | {t}
        return v
    if isinstance(v, tuple):
        return tuple(tag(x, t) for x in v)
    return v


def plain_unknown(n):
    return n.terms and n.terms[0][0][0] == 'n' and str(n.terms[0][0][1]).startswith('?')


_ment = {}


def mentions(n, symname):
    """does node n mention symbol symname"""
    key = (n.id, symname)
    r = _ment.get(key)
    if r is None:
        r = n.op == 'sym' and n.args[0] == symname
        if not r:
            r = any(_m(a, symname) for a in n.args)
        _ment[key] = r
    return r


def _m(a, s):
    if isinstance(a, Node):
        return mentions(a, s)
    if isinstance(a, Ix):
        return any(t[0] == 'node' and mentions(t[1], s) for t, _ in a.terms)
    if isinstance(a, tuple):
        return any(_m(x, s) for x in a)
    return False
