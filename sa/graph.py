"""Value graph: hash-consed scalar nodes in index notation, and value numbering.

Every array-valued expression of the analysed program is represented as a
scalar node that mentions symbolic index variables (index notation), so a
statement about the node is a statement about every element of the array and
every grid size.  Two nodes get the same value number when they are equal
modulo the axioms of a commutative field, the power laws of exp/log/pow and
linearity of sums; the value number is an algebraic fingerprint (polynomial
hash) in GF(P).  Equal expressions always get equal numbers, so the numbering
cannot raise an alarm on an algebraically equivalent rewrite; two different
expressions collide with probability ~ deg/P (P ~ 2**61).
"""
import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

# P = 2*Q + 1 with P and Q prime and every prime up to 61 a quadratic residue: on the
# squares x -> x**r is a homomorphism for every rational r.  Positive atoms (symbols,
# function values, small constants) are numbered by squares, so that the power laws hold.
Q = 647227276872027539
P = 1294454553744055079
SEED = 20250101


def H(*parts):
    h = hashlib.blake2b(digest_size=16)
    h.update(repr((SEED,) + parts).encode())
    r = int.from_bytes(h.digest(), 'little') % P
    return r * r % P


def inv(x):
    return pow(x, -1, P) if x else 0


IMAG = H('imaginary unit')  # i**2 = -1 is applied when products are built

# ---------------------------------------------------------------- sizes/index


class Ix:
    """Integer index/size expression, affine in atoms.

    atoms: ('v', name) loop/index variable, ('n', sym) size symbol,
    ('*', Ix, Ix), ('//', Ix, Ix), ('%', Ix, Ix), ('node', Node)
    """

    __slots__ = ('terms', 'c', '_h')
    _cache = {}

    def __new__(cls, terms, c):
        key = (terms, c)
        r = cls._cache.get(key)
        if r is None:
            r = object.__new__(cls)
            r.terms = terms
            r.c = c
            r._h = hash(key)
            cls._cache[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        parts = []
        for a, k in self.terms:
            s = a[1] if a[0] in ('v', 'n') else repr(a)
            parts.append(s if k == 1 else f'{k}*{s}')
        if self.c or not parts:
            parts.append(str(self.c))
        return '+'.join(str(x) for x in parts)

    @property
    def const(self):
        return self.c if not self.terms else None

    def vars(self):
        out = set()
        for a, _ in self.terms:
            if a[0] == 'v':
                out.add(a[1])
            elif a[0] in ('*', '//', '%'):
                out |= a[1].vars() | a[2].vars()
            elif a[0] == 'node':
                out |= a[1].fv
        return out


def ix(c):
    if isinstance(c, Ix):
        return c
    return Ix((), int(c))


def ixv(name):
    return Ix(((('v', name), 1),), 0)


def ixn(sym):
    return Ix(((('n', sym), 1),), 0)


def ixnode(node):
    if node.op == 'const' and node.args[0].denominator == 1:
        return ix(int(node.args[0]))
    if node.op == 'ixval':
        return node.args[0]
    return Ix(((('node', node), 1),), 0)


def _akey(a):
    return repr([x.id if isinstance(x, Node) else x for x in a])


def ixadd(a, b, k=1):
    d = dict(a.terms)
    for t, c in b.terms:
        d[t] = d.get(t, 0) + k * c
        if d[t] == 0:
            del d[t]
    return Ix(tuple(sorted(d.items(), key=lambda t: _akey(t[0]))), a.c + k * b.c)


def ixmul(a, b):
    if a.const is not None:
        a, b = b, a
    if b.const is not None:
        if b.const == 0:
            return ix(0)
        return Ix(tuple((t, c * b.const) for t, c in a.terms), a.c * b.const)
    # distribute over terms
    out = ix(0)

    def mono(t, s):
        fs = []
        for x in (t, s):
            if x[0] == '*':
                fs += list(x[1])
            else:
                fs.append(x)
        return ('*', tuple(sorted(fs, key=_akey)), ())

    items_a = list(a.terms) + ([(None, a.c)] if a.c else [])
    items_b = list(b.terms) + ([(None, b.c)] if b.c else [])
    for t, c in items_a:
        for s, e in items_b:
            if t is None and s is None:
                out = ixadd(out, ix(c * e))
            elif t is None or s is None:
                out = ixadd(out, Ix(((t or s, c * e),), 0))
            else:
                out = ixadd(out, Ix(((mono(t, s), c * e),), 0))
    return out


def ixfloordiv(a, b):
    if b.const == 1:
        return a
    if a.const is not None and b.const:
        return ix(a.const // b.const)
    return Ix(((('//', a, b), 1),), 0)


def ixmod(a, b):
    if b.const == 1:
        return ix(0)
    if a.const is not None and b.const:
        return ix(a.const % b.const)
    return Ix(((('%', a, b), 1),), 0)


SAMPLE = {'B': 2, 'Z': 3, 'K': 4, 'M': 5, 'O': 3, 'H': 3, 'Q': 3, 'Hm': 3, 'Om': 3, 'Bo': 2, 'Ho': 3, 'Oo': 3}


def sample_size(sym):
    if sym not in SAMPLE:
        SAMPLE[sym] = 4 + H('size', sym) % 3
    return SAMPLE[sym]


def srange(n):
    """sampled positions of a range: every position of a symbolic grid's sample, a fixed subset of long constant grids"""
    if n <= 24:
        return range(n)
    return sorted({0, 1, 2, 3, n // 3, n // 2, n - 3, n - 2, n - 1})


BOUND = {}  # loop variable -> trip count


def exceeds(i, n):
    """does index i, a loop variable, run beyond a dimension of constant size n"""
    if n.const is None or len(i.terms) != 1 or i.terms[0][0][0] != 'v' or i.terms[0][1] != 1:
        return False
    ub = BOUND.get(i.terms[0][0][1])
    if ub is None:
        return False
    if ub.const is not None:
        return ub.const + i.c > n.const
    return sample_size(ub.terms[0][0][1]) > n.const if len(ub.terms) == 1 and ub.terms[0][0][0] == 'n' and ub.c == 0 else False


class Opaque(Exception):
    pass


def ixeval(i, env):
    """Evaluate an index expression on a sample point -> int."""
    t = i.c
    for a, c in i.terms:
        t += c * _aeval(a, env)
    return t


def ixkey(i):
    """identity of a closed index expression up to the naming of bound variables"""
    def k(a):
        if a[0] == 'node':
            return ('node', fp(a[1], {v: 0 for v in a[1].fv}))
        if a[0] == '*':
            return ('*', tuple(sorted(map(repr, map(k, a[1])))))
        if a[0] in ('//', '%'):
            return (a[0], ixkey(a[1]), ixkey(a[2]))
        return a
    return (i.c, tuple(sorted((repr(k(a)), c) for a, c in i.terms)))


def _aeval(a, env):
    if a[0] == 'v':
        return env[a[1]]
    if a[0] == 'n':
        return sample_size(a[1])
    if a[0] == '*':
        r = 1
        for x in a[1]:
            r *= _aeval(x, env)
        return r
    if a[0] == '//':
        return ixeval(a[1], env) // ixeval(a[2], env)
    if a[0] == '%':
        return ixeval(a[1], env) % ixeval(a[2], env)
    if a[0] == 'node':
        # a data dependent index: a large opaque integer determined by value
        if a[1].op == 'app' and a[1].args[0] in ('nnz', 'nceil'):
            return 3
        return 10**6 + fp(a[1], {v: env[v] for v in a[1].fv})
    raise AssertionError(a)


def ixsubst(i, m):
    """m: var name -> Ix"""
    out = ix(i.c)
    for a, c in i.terms:
        out = ixadd(out, ixmul(_asubst(a, m), ix(c)))
    return out


def _asubst(a, m):
    if a[0] == 'v':
        return m.get(a[1]) or Ix(((a, 1),), 0)
    if a[0] == 'n':
        return Ix(((a, 1),), 0)
    if a[0] == '*':
        r = ix(1)
        for x in a[1]:
            r = ixmul(r, _asubst(x, m))
        return r
    if a[0] == '//':
        return ixfloordiv(ixsubst(a[1], m), ixsubst(a[2], m))
    if a[0] == '%':
        return ixmod(ixsubst(a[1], m), ixsubst(a[2], m))
    if a[0] == 'node':
        return ixnode(subst(a[1], m))
    raise AssertionError(a)


def _ixvars(i):
    out = set()
    for a, _ in i.terms:
        out |= _avars(a)
    return out


def _avars(a):
    if a[0] == 'v':
        return {a[1]}
    if a[0] == 'n':
        return set()
    if a[0] == '*':
        r = set()
        for x in a[1]:
            r |= _avars(x)
        return r
    if a[0] in ('//', '%'):
        return _ixvars(a[1]) | _ixvars(a[2])
    if a[0] == 'node':
        return set(a[1].fv)
    raise AssertionError(a)


Ix.vars = lambda self: _ixvars(self)

# ---------------------------------------------------------------------- nodes

CUR_SITE = [None]  # (file, function, line) currently being interpreted


class Node:
    __slots__ = ('op', 'args', 'id', 'fv', 'fvs', 'site', 'opaque', 'aux')

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op,) + tuple(('N', a.id) if isinstance(a, Node) else _keyof(a) for a in args)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = len(_table)
    n.site = CUR_SITE[0]
    fv = set()
    opaque = False
    for a in args:
        f, o = _fvof(a)
        fv |= f
        opaque |= o
    if op == 'lam':
        fv -= {v for v, _ in args[0]}
        for _, s in args[0]:
            if isinstance(s, Ix):
                fv |= s.vars()
    elif op == 'sum':
        fv -= {args[0]}
    elif op == 'loopstore':
        for w in args[1]:
            for v, lo, hi in w[0]:
                fv -= {v}
    elif op == 'rvar':
        fv |= {args[0]}
    n.fv = frozenset(fv)
    n.fvs = tuple(sorted(fv))
    n.aux = None
    n.opaque = opaque or (op == 'app' and args[0].startswith('?'))
    _table[key] = n
    return n


def _keyof(a):
    if isinstance(a, Node):
        return ('N', a.id)
    if isinstance(a, tuple):
        return tuple(_keyof(x) for x in a)
    if isinstance(a, (bool, int, float, Fraction)):
        return (type(a).__name__, a)
    return a


def _fvof(a):
    if isinstance(a, Node):
        return a.fv, a.opaque
    if isinstance(a, Ix):
        return a.vars(), False
    if isinstance(a, tuple):
        fv, o = set(), False
        for x in a:
            f, oo = _fvof(x)
            fv |= f
            o |= oo
        return fv, o
    return frozenset(), False


def const(c):
    if isinstance(c, bool):
        return mk('bool', c)
    if isinstance(c, complex):
        r = const(c.real)
        i = mul(const(c.imag), IMAGN)
        return add(r, i)
    if isinstance(c, float):
        if c != c:
            return mk('fn', 'nan')
        if c in (float('inf'), float('-inf')):
            return mk('fn', 'inf' if c > 0 else '-inf')
        c = Fraction(repr(c))
    return mk('const', Fraction(c))


def sym(name, *ixs):
    return mk('sym', name, tuple(ixs))


PI = mk('sym', 'pi', ())
IMAGN = mk('sym', '1j', ())
ZERO = const(0)
ONE = const(1)


def is_const(n):
    return n.op == 'const'


def add(*ns):
    terms = {}
    order = []
    c = Fraction(0)

    def put(n, k):
        nonlocal c
        if n.op == 'const':
            c += k * n.args[0]
        elif n.op == 'add':
            for t in n.args[0]:
                put(t, k)
        else:
            co, mono = _split(n)
            co *= k
            if mono.id not in terms:
                terms[mono.id] = [mono, Fraction(0)]
                order.append(mono.id)
            terms[mono.id][1] += co

    for n in ns:
        put(n, Fraction(1))
    out = []
    for i in sorted(order):
        mono, co = terms[i]
        if co != 0:
            out.append(_scale(mono, co))
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('add', tuple(out))


def _split(n):
    """n = coef * mono"""
    if n.op == 'mul':
        if n.args[0] == 1:
            return Fraction(1), n
        return n.args[0], _mkmul(Fraction(1), n.args[1])
    return Fraction(1), n


def _scale(n, co):
    if co == 1:
        return n
    if n.op == 'mul':
        return _mkmul(n.args[0] * co, n.args[1])
    if n.op == 'const':
        return const(n.args[0] * co)
    return _mkmul(Fraction(co), ((n, Fraction(1)),))


def _mkmul(co, facs):
    if co == 0:
        return ZERO
    if not facs:
        return const(co)
    if co == 1 and len(facs) == 1 and facs[0][1] == 1:
        return facs[0][0]
    return mk('mul', Fraction(co), tuple(facs))


def mul(*ns):
    co = Fraction(1)
    facs = {}

    def put(n, e):
        nonlocal co
        if n.op == 'const':
            v = n.args[0]
            if e.denominator == 1:
                if v == 0 and e < 0:
                    facs.setdefault(n.id, [n, Fraction(0)])[1] += e
                    return
                co *= v ** int(e)
                return
        if n.op == 'mul' and e.denominator == 1:
            if n.args[0] == 0 and e < 0:
                pass
            else:
                co *= n.args[0] ** int(e)
                for b, be in n.args[1]:
                    put(b, be * e)
                return
        if n.op == 'sym' and n.args[0] == '1j' and e.denominator == 1:
            k = int(e) % 4
            if k in (2, 3):
                co = -co
            if k in (1, 3):
                facs.setdefault(n.id, [n, Fraction(0)])[1] += 1
                if facs[n.id][1] == 2:
                    del facs[n.id]
                    co = -co
            return
        f = facs.setdefault(n.id, [n, Fraction(0)])
        f[1] += e
        # constants to fractional powers may become integral
        if n.op == 'const' and f[1].denominator == 1:
            v = f[1]
            del facs[n.id]
            co *= n.args[0] ** int(v)

    for n in ns:
        put(n, Fraction(1))
    out = [(b, e) for b, e in (facs[i] for i in sorted(facs)) if e != 0]
    return _mkmul(co, tuple(out))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, powr(b, Fraction(-1)))


def _factor_const(v):
    """positive rational -> {basis: exponent}, basis 10, 2, primes (5 = 10/2)"""
    out = {}

    def fac(n, s):
        p = 2
        while p * p <= n and p < 100000:
            while n % p == 0:
                out[p] = out.get(p, 0) + s
                n //= p
            p += 1
        if n > 1:
            out[n] = out.get(n, 0) + s

    fac(v.numerator, 1)
    fac(v.denominator, -1)
    if 5 in out:
        e5 = out.pop(5)
        out[10] = out.get(10, 0) + e5
        out[2] = out.get(2, 0) - e5
    return {k: e for k, e in out.items() if e}


def powr(n, r):
    """n ** r for rational constant r"""
    r = Fraction(r)
    if r == 0:
        return ONE
    if r == 1:
        return n
    if n.op == 'const':
        v = n.args[0]
        if r.denominator == 1:
            if v == 0:
                if r > 0:
                    return ZERO
                return mk('mul', Fraction(1), ((n, r),))
            if abs(r) <= 400:
                return const(v ** int(r))
        if v == 1:
            return ONE
        if v == 0:
            return ZERO if r > 0 else mk('mul', Fraction(1), ((n, r),))
        if v > 0:
            parts = []
            for b, e in _factor_const(v).items():
                ex = e * r
                if ex.denominator == 1:
                    parts.append(const(Fraction(b) ** int(ex)))
                else:
                    # integral part out, fractional part as an atom in [0,1)
                    fl = ex.numerator // ex.denominator
                    parts.append(const(Fraction(b) ** fl))
                    parts.append(mk('mul', Fraction(1), ((const(b), ex - fl),)))
            return mul(*parts) if parts else ONE
        return mk('mul', Fraction(1), ((n, r),))
    if n.op == 'mul':
        co, facs = n.args
        parts = []
        if r.denominator == 1:
            if co != 0:
                parts.append(const(co ** int(r)))
            for b, e in facs:
                parts.append(_pw(b, e * r))
        else:
            if co > 0:
                parts.append(powr(const(co), r))
            else:
                # keep the sign inside one atom
                parts.append(powr(const(-co), r))
                b0, e0 = facs[0]
                rest = facs[1:]
                atom = _mkmul(Fraction(-1), ((b0, e0),))
                parts.append(mk('mul', Fraction(1), ((atom, r),)))
                facs = rest
            for b, e in facs:
                parts.append(_pw(b, e * r))
        return mul(*parts) if parts else ONE
    return _pw(n, r)


def _pw(b, e):
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op in ('const', 'mul') and not (b.op == 'mul' and b.args[0] < 0 and e.denominator != 1):
        return powr(b, e)
    return mk('mul', Fraction(1), ((b, Fraction(e)),))


TEN = const(10)


def expand(n, limit=48):
    """n -> list of (coef, mono Node or None)"""
    acc = {}

    def out(ts):
        for c, m in ts:
            k = -1 if m is None else m.id
            if k in acc:
                acc[k][0] += c
            else:
                acc[k] = [c, m]

    out(_expand(n, limit))
    return [(c, m) for c, m in acc.values() if c != 0]


def _ixsum(n):
    """the value of a compound integer index as a sum, or None"""
    i = n.args[0]
    if n.op != 'ixval' or not isinstance(i, Ix) or i.const is not None or (i.c == 0 and len(i.terms) == 1):
        return None
    return [(Fraction(c), ixval(Ix(((a, 1),), 0))) for a, c in i.terms] + ([(Fraction(i.c), None)] if i.c else [])


def _expand(n, limit):
    return [u for c, m in _expand1(n, limit) for u in _quot(c, m)]


def _quot(c, m):
    """N/(N+k) = 1 - k/(N+k) for sizes N"""
    if m is not None and m.op == 'mul':
        for b, e in m.args[1]:
            if e == 1 and b.op == 'ixval' and isinstance(b.args[0], Ix) and len(b.args[0].terms) == 1 and b.args[0].c == 0:
                for d, f in m.args[1]:
                    if f == -1 and d.op == 'ixval' and isinstance(d.args[0], Ix) and d.args[0].terms == b.args[0].terms and d.args[0].c:
                        rest = mul(m, powr(b, -1))            # m / N
                        whole = mul(rest, d)                  # m (N+k)/N
                        out = []
                        for k, x in ((Fraction(1), whole), (Fraction(-d.args[0].c), rest)):
                            k2, x = (x.args[0], None) if x.op == 'const' else _split(x)
                            out += _quot(c * k * k2, x)
                        return out
    return [(c, m)]


def _expand1(n, limit):
    if n.op == 'const':
        return [(n.args[0], None)]
    if n.op == 'ixval':
        return _ixsum(n) or [(Fraction(1), n)]
    if n.op == 'add':
        r = []
        for t in n.args[0]:
            r += _expand(t, limit)
        return r
    if n.op == 'mul':
        co, facs = n.args
        if any((b.op == 'add' or b.op == 'ixval' and _ixsum(b)) and e.denominator == 1 and 0 < e <= 3 for b, e in facs):
            cur = [(co, None)]
            for b, e in facs:
                if b.op in ('add', 'ixval') and e.denominator == 1 and 0 < e <= 3:
                    bt = _expand(b, limit)
                    reps = int(e)
                else:
                    bt = [(Fraction(1), _pw(b, e))]
                    reps = 1
                for _ in range(reps):
                    if len(cur) * len(bt) > limit:
                        return [_split(n)]
                    nxt = []
                    for c1, m1 in cur:
                        for c2, m2 in bt:
                            m = m1 if m2 is None else m2 if m1 is None else mul(m1, m2)
                            if m is not None and m.op == 'const':
                                nxt.append((c1 * c2 * m.args[0], None))
                            elif m is not None:
                                cc, mm = _split(m)
                                nxt.append((c1 * c2 * cc, mm))
                            else:
                                nxt.append((c1 * c2, None))
                    cur = nxt
            return cur
        return [_split(n)]
    return [(Fraction(1), n)]


def power(b, e):
    if e.op == 'const':
        return powr(b, e.args[0])
    if b is ONE:
        return ONE
    out = []
    for c, m in expand(e):
        if m is None:
            out.append(powr(b, c))
        else:
            out.append(_powterm(b, c, m))
    return mul(*out)


def _powterm(b, c, m):
    """b ** (c*m)"""
    if b.op == 'const':
        v = b.args[0]
        if v == 1:
            return ONE
        if v > 0:
            parts = []
            for bb, e in _factor_const(v).items():
                parts.append(_powbase(const(bb), c * e, m))
            return mul(*parts)
        return _powbase(b, c, m)
    if b.op == 'mul' and b.args[0] > 0:
        parts = []
        if b.args[0] != 1:
            parts.append(_powterm(const(b.args[0]), c, m))
        for bb, e in b.args[1]:
            parts.append(_powbase(bb, c * e, m))
        return mul(*parts)
    return _powbase(b, c, m)


def _powbase(b, c, m):
    if b.op == 'expx':
        return exp(mul(const(c), m, b.args[0]))
    if b.op == 'powx':
        return power(b.args[0], mul(const(c), m, b.args[1]))
    if b.op == 'const':
        lb = log(b)
        # b ** (x / log b) == exp(x)
        if m.op == 'mul' and any(x is lb and e == -1 for x, e in m.args[1]):
            return exp(mul(const(c), m, lb))
    return powr(mk('powx', b, m), c)


def exp(x):
    out = []
    for c, m in expand(x):
        if m is None:
            out.append(_pw(mk('expx', ONE), c))
            continue
        # exp(c * log(b) * rest) -> b ** (c*rest)
        lg = None
        if m.op == 'log':
            lg, rest = m, ONE
        elif m.op == 'mul':
            for b, e in m.args[1]:
                if b.op == 'log' and e == 1:
                    lg = b
                    rest = mul(m, powr(b, -1))
                    break
        if lg is not None:
            out.append(power(lg.args[0], mul(const(c), rest)))
        else:
            out.append(_pw(mk('expx', m), c))
    return mul(*out) if out else ONE


def log(x):
    if x.op == 'const':
        v = x.args[0]
        if v == 1:
            return ZERO
        if v > 0:
            fc = _factor_const(v)
            if len(fc) == 1 and list(fc.values()) == [1]:
                return mk('log', x)
            return add(*[mul(const(e), mk('log', const(b))) for b, e in fc.items()])
        return mk('log', x)
    if x.op == 'mul' and x.args[0] > 0:
        parts = []
        if x.args[0] != 1:
            parts.append(log(const(x.args[0])))
        for b, e in x.args[1]:
            parts.append(mul(const(e), log(b)))
        return add(*parts)
    if x.op == 'expx':
        return x.args[0]
    if x.op == 'powx':
        return mul(x.args[1], log(x.args[0]))
    return mk('log', x)


def log10(x):
    return div(log(x), log(TEN))


def sqrt(x):
    return powr(x, Fraction(1, 2))


def fn(name, *args):
    if name in ('floordiv', 'mod') and all(a.op == 'const' for a in args) and args[1].args[0] != 0:
        p, q = args[0].args[0], args[1].args[0]
        return const(Fraction(p // q) if name == 'floordiv' else Fraction(p % q))
    if name == 'abs' and args[0].op == 'const':
        return const(abs(args[0].args[0]))
    if name == 'abs' and args[0].op == 'mul' and args[0].args[0] < 0:
        return fn('abs', neg(args[0]))
    if name in ('sin', 'cos', 'tan'):
        a = args[0]
        if a is ZERO:
            return ONE if name == 'cos' else ZERO
        r = a.args[0] if a.op == 'mul' and a.args[1] == ((PI, Fraction(1)),) else (Fraction(1) if a is PI else None)
        if r is not None and (2 * r).denominator == 1:
            q = int(2 * r) % 4
            if name == 'sin':
                return const([0, 1, 0, -1][q])
            if name == 'cos':
                return const([1, 0, -1, 0][q])
    if name in ('fmin', 'minimum', 'fmax', 'maximum'):
        nm = {'fmin': 'min', 'minimum': 'min', 'fmax': 'max', 'maximum': 'max'}[name]
        args = tuple(sorted(args, key=lambda a: a.id))
        name = nm
    if name in ('min', 'max') and len(args) == 2:
        if args[0] is args[1]:
            return args[0]
        if args[0].op == 'const' and args[1].op == 'const':
            return const((min if name == 'min' else max)(args[0].args[0], args[1].args[0]))
        args = tuple(sorted(args, key=lambda a: a.id))
        for p, q in (args, args[::-1]):
            # min(hi, max(x, lo)) = max(lo, min(x, hi)) for lo <= hi: one normal form
            if name == 'max' and p.op == 'const' and q.op == 'fn' and q.args[0] == 'min':
                cs = [x for x in q.args[1:] if x.op == 'const']
                xs = [x for x in q.args[1:] if x.op != 'const']
                if len(cs) == 1 and len(xs) == 1 and p.args[0] <= cs[0].args[0]:
                    return fn('min', cs[0], fn('max', xs[0], p))
    return mk('fn', name, *args)


_CONDS = {}
_NOCONDS = frozenset()


def conds(n):
    """the conditions that select inside a node (none for very large graphs)"""
    r = _CONDS.get(n)
    if r is not None:
        return r
    todo = [n]
    while todo:
        x = todo[-1]
        if x in _CONDS:
            todo.pop()
            continue
        kids = [y for y in _kids(x.args) if y not in _CONDS]
        if kids:
            todo.extend(kids)
            continue
        out = _NOCONDS
        for y in _kids(x.args):
            k = _CONDS[y]
            if k and not k <= out:
                out = out | k
        if x.op == 'ite':
            out = out | _parts(x.args[0])
        _CONDS[x] = out if len(out) <= 64 else _NOCONDS
        todo.pop()
    return _CONDS[n]


def _parts(c):
    if c.op == 'not':
        return _parts(c.args[0])
    if c.op == 'and':
        return frozenset((c,)).union(*map(_parts, c.args[0]))
    return frozenset((c,))


def _kids(a):
    for x in a:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


def assume(n, c, val, memo):
    """n where condition c is known to be val"""
    if n is c:
        return mk('bool', val)
    if c not in conds(n) and not (n.op in ('not', 'and') and c in _parts(n)):
        return n
    r = memo.get(n)
    if r is None:
        if n.op == 'ite' and n.args[0] is c:
            r = assume(n.args[1 if val else 2], c, val, memo)
        else:
            try:
                r = _rebuild(n, lambda x: assume(x, c, val, memo))
            except RecursionError:
                r = n
        memo[n] = r
    return r


def _rebuild(n, f):
    o, a = n.op, n.args
    if o == 'add':
        return add(*[f(x) for x in a[0]])
    if o == 'mul':
        return mul(const(a[0]), *[powr(f(b), e) for b, e in a[1]])
    if o == 'powx':
        return power(f(a[0]), f(a[1]))
    if o == 'expx':
        return exp(f(a[0]))
    if o == 'log':
        return log(f(a[0]))
    if o == 'fn':
        return fn(a[0], *[f(x) for x in a[1:]])
    if o == 'ite':
        return ite(*[f(x) for x in a])
    if o == 'not':
        return not_(f(a[0]))
    if o == 'and':
        return and_(*[f(x) for x in a[0]])
    if o == 'lam':
        return lam(a[0], f(a[1]))
    if o == 'sum':
        return summ(a[0], a[1], f(a[2]))
    if o == 'pick':
        return pick(a[0], [f(x) for x in a[1]])

    def g(x):
        return f(x) if isinstance(x, Node) else tuple(g(y) for y in x) if isinstance(x, tuple) else x
    return mk(o, *[g(x) for x in a])


def ite(c, a, b):
    if c.op == 'bool':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    for x, yes in ((a, 1), (b, 2)):
        # an inner selection on the same condition is already decided
        if x.op == 'ite' and (x.args[0] is c or x.args[0] is not_(c)):
            y = x.args[yes if x.args[0] is c else 3 - yes]
            return ite(c, y, b) if x is a else ite(c, a, y)
    if a.op == 'bool':
        return or_(c, b) if a.args[0] else and_(not_(c), b)
    if b.op == 'bool':
        return or_(not_(c), a) if b.args[0] else and_(c, a)
    if c.op == 'app' and c in conds(a):
        return ite(c, assume(a, c, True, {}), b)
    if c.op == 'app' and c in conds(b):
        return ite(c, a, assume(b, c, False, {}))
    if c.op == 'cmp' and c.args[0] == 'lt':
        # selections that are a minimum or maximum of their arms (both are continuous at the boundary)
        d = c.args[1]
        if sub(a, b) is d:
            return fn('min', a, b)
        if sub(b, a) is d:
            return fn('max', a, b)
        for p, q, outer in ((a, b, 0), (b, a, 1)):
            # ite(x > hi, hi, max(x, lo)) with lo <= hi, and its mirror images
            if p.op == 'const' and q.op == 'fn' and q.args[0] in ('min', 'max'):
                cs = [x for x in q.args[1:] if x.op == 'const']
                xs = [x for x in q.args[1:] if x.op != 'const']
                if len(cs) != 1 or len(xs) != 1:
                    continue
                x, lim = xs[0], cs[0].args[0]
                gt, lt = sub(p, x) is d, sub(x, p) is d
                if outer:
                    gt, lt = lt, gt
                if q.args[0] == 'max' and gt and lim <= p.args[0]:
                    return fn('min', p, q)
                if q.args[0] == 'min' and lt and lim >= p.args[0]:
                    return fn('max', p, q)
    return mk('ite', c, a, b)


def _lt(d):
    """d < 0; whether there is anything selected is one condition however it is asked"""
    seen = d
    while seen.op in ('mul', 'add'):
        inner = [x for x in flat_nodes(seen.args) if x.op in ('ixval', 'mul')]
        if len(inner) != 1:
            break
        seen = inner[0]
    if seen.op == 'ixval':
        t = seen.args[0].terms
        if len(t) == 1 and t[0][0][0] == 'node' and t[0][0][1].op == 'app' and t[0][0][1].args[0] == 'nnz':
            x = ixval(Ix(((t[0][0], 1),), 0))
            if d is neg(x):
                return not_(cmp('eq', x, ZERO))
            if d is sub(x, ONE):
                return cmp('eq', x, ZERO)
    return mk('cmp', 'lt', d)


def flat_nodes(args):
    for x in args:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from flat_nodes(x)


def cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        return mk('bool', {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op])
    if a is b:
        return mk('bool', op in ('le', 'ge', 'eq'))
    if op == 'gt':
        return _lt(sub(b, a))
    if op == 'ge':
        return not_(_lt(sub(a, b)))
    if op == 'lt':
        return _lt(sub(a, b))
    if op == 'le':
        return not_(_lt(sub(b, a)))
    d = sub(a, b)
    if d.op == 'add':
        lead = d.args[0][0]
        if _split(lead)[0] < 0:
            d = neg(d)
    elif d.op == 'mul' and d.args[0] < 0:
        d = neg(d)
    e = mk('cmp', 'eq', d)
    return not_(e) if op == 'ne' else e


def not_(c):
    if c.op == 'bool':
        return mk('bool', not c.args[0])
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == 'bool':
            if not c.args[0]:
                return c
            continue
        out.append(c)
    if not out:
        return mk('bool', True)
    out = sorted(set(out), key=lambda n: n.id)
    return out[0] if len(out) == 1 else mk('and', tuple(out))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def lam(vars_, body):
    """vars_: list of (name, Ix size | 'real')"""
    return mk('lam', tuple(vars_), body)


def summ(v, size, body):
    if v not in body.fv:
        return mul(ixval(size), body)
    if body.op == 'mul':
        # pull loop-invariant factors out (pure normalisation, keeps graph small)
        inn = [(b, e) for b, e in body.args[1] if v in b.fv]
        outp = [(b, e) for b, e in body.args[1] if v not in b.fv]
        if outp or body.args[0] != 1:
            return mul(_mkmul(body.args[0], tuple(outp)), mk('sum', v, size, _mkmul(Fraction(1), tuple(inn))))
    return mk('sum', v, size, body)


def ixval(i):
    i = ix(i)
    if i.const is not None:
        return const(i.const)
    return mk('ixval', i)


def app(name, static, *args):
    return mk('app', name, static, *args)


_gv = [0]


def fresh(prefix='i'):
    _gv[0] += 1
    return f'{prefix}${_gv[0]}'


def rvar(name):
    return mk('rvar', name)


# --------------------------------------------------------------- substitution

_subst_memo = {}


def subst(n, m):
    """substitute index vars (name -> Ix) and real vars (name -> Node)"""
    m = {k: v for k, v in m.items() if k in n.fv}
    if not m:
        return n
    key = (n.id, tuple(sorted((k, v.id if isinstance(v, Node) else repr(v)) for k, v in m.items())))
    r = _subst_memo.get(key)
    if r is None:
        site = CUR_SITE[0]
        CUR_SITE[0] = n.site
        r = _subst(n, m)
        CUR_SITE[0] = site
        _subst_memo[key] = r
    return r


def _sub_any(a, m):
    if isinstance(a, Node):
        return subst(a, m)
    if isinstance(a, Ix):
        im = {k: v for k, v in m.items() if isinstance(v, Ix)}
        nm = {k: v for k, v in m.items() if isinstance(v, Node)}
        if nm and (a.vars() & set(nm)):
            im = dict(im)
            for k, v in nm.items():
                im[k] = ixnode(v)
        return ixsubst(a, im) if (a.vars() & set(im)) else a
    if isinstance(a, tuple):
        return tuple(_sub_any(x, m) for x in a)
    return a


def _subst(n, m):
    o = n.op
    a = n.args
    if o == 'add':
        return add(*[subst(x, m) for x in a[0]])
    if o == 'mul':
        return mul(const(a[0]), *[powr(subst(b, m), e) for b, e in a[1]])
    if o == 'powx':
        return power(subst(a[0], m), subst(a[1], m))
    if o == 'expx':
        return exp(subst(a[0], m))
    if o == 'log':
        return log(subst(a[0], m))
    if o == 'fn':
        return fn(a[0], *[subst(x, m) for x in a[1:]])
    if o == 'ite':
        return ite(*[subst(x, m) for x in a])
    if o == 'not':
        return not_(subst(a[0], m))
    if o == 'and':
        return and_(*[subst(x, m) for x in a[0]])
    if o == 'ixval':
        return ixval(_sub_any(a[0], m))
    if o == 'rvar':
        v = m[a[0]]
        return v if isinstance(v, Node) else ixval(v)
    if o == 'lam':
        inner = {k: v for k, v in m.items() if k not in {v for v, _ in a[0]}}
        vs = []
        ren = {}
        for v, s in a[0]:
            nv = fresh('l')
            ren[v] = rvar(nv) if s == 'real' else ixv(nv)
            vs.append((nv, _sub_any(s, inner)))
        body = subst(a[1], {**inner, **ren})
        return lam(vs, body)
    if o == 'sum':
        inner = {k: v for k, v in m.items() if k != a[0]}
        nv = fresh('s')
        return summ(nv, _sub_any(a[1], inner), subst(a[2], {**inner, a[0]: ixv(nv)}))
    if o == 'loopstore':
        base, writes, q = a
        ws = []
        for w in writes:
            ren = {}
            dom = []
            for v, lo, hi in w[0]:
                mm = {**m, **ren}
                nv = fresh('w')
                dom.append((nv, _sub_any(lo, mm), _sub_any(hi, mm)))
                ren[v] = ixv(nv)
            mm = {**m, **ren}
            ws.append((tuple(dom),) + tuple(_sub_any(x, mm) for x in w[1:]))
        return mk('loopstore', subst(base, m), tuple(ws), _sub_any(q, m))
    if o == 'pick':
        return pick(_sub_any(a[0], m), [subst(x, m) for x in a[1]])
    return mk(o, *[_sub_any(x, m) for x in a])


def pick(i, elems):
    """element i (Ix) of a constant-length sequence of nodes"""
    if i.const is not None:
        c = i.const
        return elems[c]
    if all(e is elems[0] for e in elems):
        return elems[0]
    return mk('pick', i, tuple(elems))


# ------------------------------------------------------------ value numbering

_fp_memo = {}


def fp(n, env):
    fv = n.fvs
    key = (n.id, *[env[v] for v in fv]) if fv else n.id
    r = _fp_memo.get(key)
    if r is None:
        if len(fv) != len(env):
            env = {v: env[v] for v in fv}
        r = _fp(n, env)
        _fp_memo[key] = r
    return r


def _fpa(a, env):
    if isinstance(a, Node):
        return fp(a, env)
    if isinstance(a, Ix):
        return ('i', ixeval(a, env))
    if isinstance(a, tuple):
        return tuple(_fpa(x, env) for x in a)
    if isinstance(a, Fraction):
        return (a.numerator, a.denominator)
    return a


def _root(x, b, e):
    """x = fp(base) ; value of base ** e for rational e"""
    if e.denominator == 1:
        k = int(e)
        if k >= 0:
            return pow(x, k, P)
        if x == 0:
            return H('inv0')
        return pow(inv(x), -k, P)
    if x == 0:
        return 0 if e > 0 else H('inv0')
    r = e.numerator * pow(e.denominator, -1, Q) % Q
    return pow(x, r if r % 2 == 0 else r + Q, P)


def _fp(n, env):
    o = n.op
    a = n.args
    if o == 'const':
        f = a[0]
        r = f.numerator % P * inv(f.denominator % P) % P
        CONSTFP[r] = f
        return r
    if o == 'bool':
        return H('bool', a[0])
    if o == 'sym':
        if a[0] == '1j':
            return IMAG
        return H('sym', a[0], tuple(ixeval(i, env) for i in a[1]))
    if o == 'rvar':
        return env[a[0]]
    if o == 'add':
        s = 0
        for x in a[0]:
            s += fp(x, env)
        return s % P
    if o == 'mul':
        s = n.aux
        if s is None:
            f = a[0]
            s = n.aux = f.numerator % P * inv(f.denominator % P) % P
        for b, e in a[1]:
            x = fp(b, env)
            s = s * (x if e == 1 else _root(x, b, e)) % P
        return s
    if o == 'ixval':
        return ixeval(a[0], env) % P
    if o == 'pick':
        i = ixeval(a[0], env)
        if 0 <= i < len(a[1]):
            return _fpa(a[1][i], env)
        return H('pick', i, _fpa(a[1], env))
    if o == 'sum':
        v, size, body = a
        cnt = ixeval(size, env)
        s = 0
        e = dict(env)
        for i in srange(cnt):
            e[v] = i
            s += fp(body, e)
        return s % P
    if o == 'lam':
        vs, body = a
        depth = sum(1 for v in n.fv if env[v] is not None and isinstance(env[v], int) and env[v] > 10**9)

        def rec(k, e):
            if k == len(vs):
                return _fpa(body, {x: e[x] for x in body.fv})
            v, s = vs[k]
            if s == 'real':
                ee = dict(e)
                ee[v] = 10**9 + 1 + H('real', depth, k) // 2
                return ('r', rec(k + 1, ee))
            out = []
            for i in srange(ixeval(s, e)):
                ee = dict(e)
                ee[v] = i
                out.append(rec(k + 1, ee))
            return tuple(out)

        return H('lam', rec(0, dict(env)))
    if o == 'loopstore':
        base, writes, q = a
        qi = tuple(ixeval(i, env) for i in q)
        best = None
        hits = []

        # enumerate writes in iteration order; all writes in one tuple share
        # program order inside the body
        def rec(w, k, e, order):
            dom, cond, idx, val = w
            if k == len(dom):
                for pat, x in zip(idx, qi):
                    if pat is not None and ixeval(pat, e) != x:
                        return
                if cond is not None:
                    c = _condval(cond, e)
                    if c is False:
                        return
                    if c is not True:
                        hits.append((order, c, w, dict(e)))
                        return
                hits.append((order, True, w, dict(e)))
                return
            v, lo, hi = dom[k]
            for i in range(ixeval(lo, e), ixeval(hi, e)):
                e2 = dict(e)
                e2[v] = i
                rec(w, k + 1, e2, order[:k] + (i,) + order[k:])

        for j, w in enumerate(writes):
            rec(w, 0, dict(env), (j,))
        hits.sort(key=lambda h: (h[0][:-1], h[0][-1]))
        val = _fpa(base, env)
        for order, c, w, e in hits:
            # the value is expressed at the queried position through slot vars
            v = w[3]
            new = fp(v, {x: e[x] for x in v.fv})
            if c is True:
                val = new
            else:
                val = H('ite', c, new, val)
        return val
    if o == 'cmp':
        d = _fpa(a[1], env)
        if a[0] == 'eq':
            d2 = (P - d) % P
            d = min(d, d2)
        c = _condval(n, env)
        if c is True or c is False:
            return H('bool', c)
        return H('cmp', a[0], d)
    if o == 'not':
        x = _fpa(a[0], env)
        return H('not', x)
    if o == 'and':
        return H('and', tuple(sorted(_fpa(x, env) for x in a[0])))
    if o == 'ite':
        c = _condval(a[0], env)
        if c is True:
            return _fpa(a[1], env)
        if c is False:
            return _fpa(a[2], env)
        x, y = _fpa(a[1], env), _fpa(a[2], env)
        if x == y:
            return x
        if a[0].op == 'cmp' and a[0].args[0] == 'lt' and isinstance(x, int) and isinstance(y, int):
            return _fpsel(_fpa(a[0].args[1], env), x, y, c)
        return H('ite', c, x, y)
    if o == 'powx':
        # multiplicative in the base: (x*y)**m == x**m * y**m
        b = fp(a[0], env)
        if b == 0:
            return H('powx', 0, fp(a[1], env))
        return pow(b, 2 * H('powx', fp(a[1], env)), P)
    if o == 'log':
        return H('log', _fpa(a[0], env))
    if o == 'fn' and a[0] in ('min', 'max') and len(a) == 3:
        return _fpmm(a[0], _fpa(a[1], env), _fpa(a[2], env))
    if o == 'fn' and a[0] in ('min', 'max'):
        return H('fn', a[0], tuple(sorted(_fpa(x, env) for x in a[1:])))
    return H(o, tuple(_fpa(x, env) for x in a))


CONSTFP = {}
MMFP = {}


def _fpmm(kind, x, y):
    """number of min/max of two numbered values; clamping between two constants has one normal form"""
    if x == y:
        return x
    if x in CONSTFP and y in CONSTFP:
        return x if (CONSTFP[x] < CONSTFP[y]) == (kind == 'min') else y
    if kind == 'max':
        for p, q in ((x, y), (y, x)):
            if p in CONSTFP and q in MMFP and MMFP[q][0] == 'min':
                u, v = MMFP[q][1:]
                if v in CONSTFP and u not in CONSTFP and CONSTFP[p] <= CONSTFP[v]:
                    return _fpmm('min', _fpmm('max', u, p), v)
    r = H('fn', kind, tuple(sorted((x, y))))
    MMFP[r] = (kind, y, x) if x in CONSTFP else (kind, x, y)
    return r


def _fpsel(d, x, y, c):
    """x if d < 0 else y, on numbers"""
    if (x - y - d) % P == 0:
        return _fpmm('min', x, y)
    if (y - x - d) % P == 0:
        return _fpmm('max', x, y)
    for p, q, outer in ((x, y, 0), (y, x, 1)):
        if p in CONSTFP and q in MMFP:
            kind, u, v = MMFP[q]
            if v not in CONSTFP or u in CONSTFP:
                continue
            gt, lt = (p - u - d) % P == 0, (u - p - d) % P == 0
            if outer:
                gt, lt = lt, gt
            if kind == 'max' and gt and CONSTFP[v] <= CONSTFP[p]:
                return _fpmm('min', p, q)
            if kind == 'min' and lt and CONSTFP[v] >= CONSTFP[p]:
                return _fpmm('max', p, q)
    return H('ite', c, x, y)


def _int_only(n):
    """value computed from index variables and constants only -> exact Fraction evaluator"""
    o = n.op
    if o == 'const':
        return lambda e: n.args[0]
    if o == 'ixval':
        if any(t[0] == 'node' for t, _ in n.args[0].terms):
            return None
        return lambda e: Fraction(ixeval(n.args[0], e))
    if o == 'add':
        fs = [_int_only(x) for x in n.args[0]]
        if any(f is None for f in fs):
            return None
        return lambda e: sum(f(e) for f in fs)
    if o == 'mul':
        fs = [(_int_only(b), x) for b, x in n.args[1]]
        if any(f is None or x.denominator != 1 or x < 0 for f, x in fs):
            return None

        def g(e):
            r = n.args[0]
            for f, x in fs:
                r *= f(e) ** int(x)
            return r

        return g
    return None


def _condval(c, env):
    """truth value of a condition on a sample point if it only concerns indices, else its number"""
    if c.op == 'bool':
        return c.args[0]
    if c.op == 'cmp':
        f = _int_only(c.args[1])
        if f is not None:
            d = f(env)
            return d < 0 if c.args[0] == 'lt' else d == 0
        d = _fpa(c.args[1], env)
        if c.args[0] == 'eq':
            d = min(d, (P - d) % P)
        return H('cmp', c.args[0], d)
    if c.op == 'not':
        x = _condval(c.args[0], env)
        if x is True or x is False:
            return not x
        return H('not', x)
    if c.op == 'and':
        out = []
        for x in c.args[0]:
            v = _condval(x, env)
            if v is False:
                return False
            if v is not True:
                out.append(v)
        if not out:
            return True
        if len(out) == 1:
            return out[0]
        return H('and', tuple(sorted(out)))
    return _fpa(c, env)


# ---------------------------------------------------------------------- print


def show(n, depth=4):
    if not isinstance(n, Node):
        return str(n)
    o, a = n.op, n.args
    if o == 'const':
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else (f'{float(f):.6g}')
    if o == 'bool':
        return str(a[0])
    if o == 'sym':
        return a[0] + (f'[{",".join(map(str, a[1]))}]' if a[1] else '')
    if o == 'rvar':
        return a[0]
    if o == 'ixval':
        return str(a[0])
    if depth <= 0:
        return '…'
    d = depth - 1
    if o == 'add':
        return '(' + ' + '.join(show(x, d) for x in a[0]) + ')'
    if o == 'mul':
        ps = [] if a[0] == 1 else [show(const(a[0]))]
        for b, e in a[1]:
            ps.append(show(b, d) + ('' if e == 1 else f'^{e}'))
        return '*'.join(ps)
    if o == 'sum':
        return f'Σ_{a[0]}<{a[1]}[{show(a[2], d)}]'
    if o == 'lam':
        return f'λ{",".join(v for v, _ in a[0])}.{show(a[1], d)}'
    if o == 'app':
        return f'{a[0]}{list(a[1]) if a[1] else ""}({", ".join(show(x, d) for x in a[2:] if isinstance(x, Node))})'
    if o == 'fn':
        return f'{a[0]}({", ".join(show(x, d) for x in a[1:])})'
    return f'{o}({", ".join(show(x, d) if isinstance(x, Node) else str(x)[:40] for x in a)})'
