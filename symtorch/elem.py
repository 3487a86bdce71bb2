"""Element domain: exact real expressions in normal form.

An element of a float tensor is a fractions.Fraction (a constant) or a Poly: a
Laurent polynomial with rational coefficients over *atoms*.  An atom is an input
variable, an application of an uninterpreted function (UF), or a non-polynomial
operation (sqrt, abs, max, inverse, exp, ...) whose meaning is given to the solver
by a definitional constraint the first time it is lowered.
"""
import sys
from fractions import Fraction
import math

try:
    import z3
except ImportError:  # the tooling venv carries z3; appended so it never shadows the interpreter's own packages
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3


class Unsupported(BaseException):
    """The encoder does not cover something the code did: no verdict is possible."""


F0, F1 = Fraction(0), Fraction(1)


class _Inf:
    """+-infinity as a comparison bound only."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __neg__(self):
        return _NINF if self.s > 0 else INF

    def __float__(self):
        return self.s * math.inf

    def _bad(self, *a):
        raise Unsupported('arithmetic with an infinite constant')

    def _shift(self, o):
        if isinstance(o, _Inf):
            return self._bad() if o.s != self.s else self
        return self
    __add__ = __radd__ = __sub__ = _shift

    def __rsub__(self, o):
        return -self

    def __mul__(self, o):
        o = num(o)
        if isinstance(o, Fraction) and o:
            return self if o > 0 else -self
        if isinstance(o, Poly) and sign_known(o):
            need_nonzero(o)
            return self if sign_known(o) > 0 else -self
        self._bad()
    __rmul__ = __mul__
    __truediv__ = __mul__

    def __lt__(self, o): return cmp('<', self, o)
    def __le__(self, o): return cmp('<=', self, o)
    def __gt__(self, o): return cmp('<', o, self)
    def __ge__(self, o): return cmp('<=', o, self)
    def __eq__(self, o): return isinstance(o, _Inf) and o.s == self.s
    def __ne__(self, o): return not self == o
    __hash__ = None


INF = _Inf(1)
_NINF = _Inf(-1)
_snap_cache = {}


def snap(x, eps=2.220446049250313e-16, maxden=100000):
    """A float constant of the code, read as the simplest rational within one ulp of it."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    key = (x, eps)
    r = _snap_cache.get(key)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            if math.isinf(x):
                return INF if x > 0 else -INF
            raise Unsupported('NaN constant')
        fr = Fraction(x)
        r = fr
        if fr.denominator != 1:
            # walk the continued fraction: first convergent within eps relative
            tol = abs(fr) * Fraction(eps)
            md = maxden if eps < 1e-12 else 2000
            c = _simplest(fr - tol, fr + tol)
            if c.denominator <= md:
                r = c
        _snap_cache[key] = r
    return r


def _simplest(lo, hi):
    """Simplest rational in [lo, hi] (Stern-Brocot)."""
    if lo > 0:
        n = math.floor(lo)
        if n == lo:
            return Fraction(n)
        if n + 1 <= hi:
            return Fraction(n + 1)
        return n + 1 / _simplest(1 / (hi - n), 1 / (lo - n))
    if hi < 0:
        return -_simplest(-hi, -lo)
    return F0


class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'z', 'defined', 'lo', 'hi', 'key')

    def __init__(self, id, name, kind, args=(), lo=None, hi=None):
        self.id, self.name, self.kind, self.args = id, name, kind, args
        self.z = z3.Real(name)
        self.defined = False
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return self.name


class Ctx:
    """Everything belonging to one symbolic run (one path)."""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.ufapps = {}      # uf name -> [Atom]
        self.pending = []     # definitional constraints to assert
        self.fresh_n = 0
        self.assumed = []     # textual record of implicit definedness assumptions
        self.engine = None    # explorer; provides decide() / assume()
        self.sign_cache = {}
        self.ninv = 0

    def atom(self, kind, key, name, args=(), lo=None, hi=None):
        k = (kind, key)
        a = self.table.get(k)
        if a is None:
            a = Atom(len(self.atoms), f'{name}', kind, args, lo, hi)
            a.key = key
            self.atoms.append(a)
            self.table[k] = a
        return a

    def var(self, name, lo=None, hi=None):
        a = self.atom('var', name, name, (), lo, hi)
        return Poly({((a.id, 1),): F1})

    def fresh(self, hint='fresh', lo=None, hi=None):
        self.fresh_n += 1
        return self.var(f'{hint}#{self.fresh_n}', lo, hi)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def key_of(p):
    """Canonical hashable key of an element."""
    if isinstance(p, Poly):
        k = p._key
        if k is None:
            k = p._key = tuple(sorted(p.t.items()))
        return k
    return p if isinstance(p, Fraction) else Fraction(p)


def _mono_mul(m1, m2):
    """Merge two sorted monomials. Returns (monomial, needs_norm)."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _rewrite(mono):
    """If the monomial contains a power reducible by an atom's defining equation,
    return (rest_monomial, replacement Poly) else None."""
    atoms = CTX.atoms
    for i, (aid, e) in enumerate(mono):
        if e >= 2 or e <= -2:
            a = atoms[aid]
            k = a.kind
            if k == 'abs' or k == 'sqrt':
                q, r = divmod(abs(e), 2)
                base = a.args[0]
                rest = mono[:i] + (((aid, (r if e > 0 else -r)),) if r else ()) + mono[i + 1:]
                rep = (base * base if k == 'abs' else base)
                rep = ipow(rep, q)
                if e < 0:
                    rep = div(F1, rep)
                return rest, rep
            if k == 'ind' and e > 0:
                return mono[:i] + ((aid, 1),) + mono[i + 1:], F1
            if k == 'sin' and e > 0:
                c = fn('cos', a.args[0])
                rest = mono[:i] + (((aid, e - 2),) if e > 2 else ()) + mono[i + 1:]
                return rest, 1 - c * c
            if k == 'pow' and e > 0:
                r = a.args[1]
                if e % r.denominator == 0:
                    rest = mono[:i] + mono[i + 1:]
                    return rest, ipow(a.args[0], r.numerator * (e // r.denominator))
        if atoms[aid].kind == 'inv' and e < 0:
            rest = mono[:i] + mono[i + 1:]
            return rest, ipow(atoms[aid].args[0], -e)
    return None


class Poly:
    __slots__ = ('t', '_key')
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._key = None

    # -- arithmetic ---------------------------------------------------
    def __add__(self, o):
        if isinstance(o, Poly):
            t = dict(self.t)
            for m, c in o.t.items():
                n = t.get(m)
                if n is None:
                    t[m] = c
                else:
                    n = n + c
                    if n:
                        t[m] = n
                    else:
                        del t[m]
            return _wrap(t)
        o = _num(o)
        if o is NotImplemented:
            return o
        if not o:
            return self
        t = dict(self.t)
        n = t.get((), F0) + o
        if n:
            t[()] = n
        else:
            t.pop((), None)
        return _wrap(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, Poly):
            return self + (-o)
        o = _num(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Poly):
            if CTX.ninv:
                for a, b in ((self, o), (o, self)):
                    r = _cancel_inv(a, b)
                    if r is not None:
                        return r
            t = {}
            extra = None
            atoms = CTX.atoms
            for m1, c1 in self.t.items():
                for m2, c2 in o.t.items():
                    m = _mono_mul(m1, m2)
                    c = c1 * c2
                    rw = _rewrite(m) if m else None
                    if rw is not None:
                        rest, rep = rw
                        p = Poly({rest: c}) * rep if not isinstance(rep, Fraction) else (Poly({rest: c * rep}) if rest else c * rep)
                        # the rest may still be reducible
                        p = _renorm(p)
                        extra = p if extra is None else extra + p
                        continue
                    n = t.get(m)
                    if n is None:
                        t[m] = c
                    else:
                        n = n + c
                        if n:
                            t[m] = n
                        else:
                            del t[m]
            r = _wrap(t)
            return r if extra is None else r + extra
        o = _num(o)
        if o is NotImplemented:
            return o
        if not o:
            return F0
        if o == 1:
            return self
        return Poly({m: c * o for m, c in self.t.items()})
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(_num(o), self)

    def __pow__(self, n):
        return power(self, n)

    # -- comparisons (return bool or SB) -----------------------------------
    def __lt__(self, o): return cmp('<', self, o)
    def __le__(self, o): return cmp('<=', self, o)
    def __gt__(self, o): return cmp('<', o, self)
    def __ge__(self, o): return cmp('<=', o, self)
    def __eq__(self, o): return cmp('==', self, o)
    def __ne__(self, o): return bnot(cmp('==', self, o))
    __hash__ = None

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise Unsupported('truth value of a symbolic real')

    def __float__(self):
        raise Unsupported('float() of a symbolic real')


def _wrap(t):
    if not t:
        return F0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def _renorm(p):
    if not isinstance(p, Poly):
        return p
    out = None
    t = {}
    for m, c in p.t.items():
        rw = _rewrite(m) if m else None
        if rw is None:
            t[m] = t.get(m, F0) + c
            if not t[m]:
                del t[m]
        else:
            rest, rep = rw
            q = (Poly({rest: c}) if rest else c) * rep
            q = _renorm(q)
            out = q if out is None else out + q
    r = _wrap(t)
    return r if out is None else r + out


def _num(o):
    if isinstance(o, Fraction):
        return o
    if isinstance(o, bool):
        return Fraction(int(o))
    if isinstance(o, int):
        return Fraction(o)
    if isinstance(o, float):
        return snap(o)
    if isinstance(o, SB):
        return ind(o)
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return _num(o.item())
    except ImportError:
        pass
    return NotImplemented


def num(o):
    """Coerce to a real element."""
    if isinstance(o, (Poly, _Inf)):
        return o
    r = _num(o)
    if r is NotImplemented:
        raise Unsupported(f'not a real element: {type(o)}')
    return r


def is_const(p):
    return not isinstance(p, (Poly, SB))


def ipow(p, n):
    """p ** n for a non-negative integer n."""
    if isinstance(p, Fraction):
        return p ** n
    r = F1
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def clear_denoms(p, limit=20000):
    """p times the denominators of its inverse atoms (all non-zero on the path): zero iff p is. None if too large."""
    atoms = CTX.atoms
    while isinstance(p, Poly):
        ids = {a for m in p.t for a, e in m if atoms[a].kind == 'inv'}
        if not ids:
            return p
        top = max(ids)
        base = atoms[top].args[0]
        groups = {}
        k = 0
        for m, c in p.t.items():
            e = 0
            rest = m
            for i, (a, x) in enumerate(m):
                if a == top:
                    e, rest = x, m[:i] + m[i + 1:]
            k = max(k, e)
            groups.setdefault(e, {})[rest] = c
        out = F0
        for e, t in groups.items():
            if (len(base.t) ** (k - e)) * len(t) > limit * 5:
                return None
            out = out + _wrap(t) * ipow(base, k - e)
        p = out
        if isinstance(p, Poly) and len(p.t) > limit:
            return None
    return p


def reduced(x, y):
    """(x / g, y / g) for the common monomial factor g of two different polynomials, None if there is none."""
    if not (isinstance(x, Poly) and isinstance(y, Poly)) or key_of(x) == key_of(y):
        return None
    g = None
    for p in (x, y):
        for m in p.t:
            d = {i: e for i, e in m if e > 0}
            g = d if g is None else {i: min(e, d[i]) for i, e in g.items() if i in d}
            if not g:
                return None
    im = tuple(sorted((i, -e) for i, e in g.items()))
    return tuple(_wrap({_mono_mul(m, im): c for m, c in p.t.items()}) for p in (x, y))


_CONG = {'inv', 'pow', 'sqrt', 'abs', 'max', 'min', 'uf', 'exp', 'tanh', 'sin', 'cos', 'log', 'sigmoid', 'softplus', 'erf', 'atan'}


def similar(x, y, depth=5, budget=None):
    """x and y are equal once applications of the same function to provably equal arguments are identified (sufficient test)."""
    budget = budget if budget is not None else [300]
    d = x - y
    if not isinstance(d, Poly):
        return d == 0
    c = clear_denoms(d, 3000) if CTX.ninv else d
    if c is not None and not isinstance(c, Poly) and c == 0:
        return True
    if depth == 0:
        return False
    atoms = CTX.atoms
    ids = sorted({i for m in d.t for i, _ in m if atoms[i].kind in _CONG})
    if len(ids) > 24:
        return False
    changed = False
    for k, i in enumerate(ids):
        for j in ids[:k]:
            a, b = atoms[i], atoms[j]
            if a.kind != b.kind or len(a.args) != len(b.args) or (a.kind == 'uf' and a.name.rsplit('(', 1)[0] != b.name.rsplit('(', 1)[0]):
                continue
            if a.kind == 'pow' and a.args[1] != b.args[1]:
                continue
            budget[0] -= 1
            if budget[0] < 0:
                return False
            pa, pb = (a.args[:1], b.args[:1]) if a.kind == 'pow' else (a.args, b.args)
            if all(similar(num(u), num(v), depth - 1, budget) for u, v in zip(pa, pb)) or (
                    a.kind in ('min', 'max') and all(similar(num(u), num(v), depth - 1, budget) for u, v in zip(pa, pb[::-1]))):
                nd = F0
                for m, cc in d.t.items():
                    t = cc
                    for q, e in m:
                        v = Poly({((j if q == i else q, 1),): F1})
                        t = t * (ipow(v, e) if e > 0 else Poly({((j if q == i else q, e),): F1}))
                    nd = nd + t
                d, changed = nd, True
                if not isinstance(d, Poly):
                    return d == 0
                break
    if not changed:
        return False
    c = clear_denoms(d, 3000) if CTX.ninv else d
    return c is not None and not isinstance(c, Poly) and c == 0


def _cancel_inv(a, b):
    """a * b when every term of a has a factor inv(q) and q divides b; else None."""
    atoms = CTX.atoms
    common = None
    for m in a.t:
        s = {x for x, e in m if e > 0 and atoms[x].kind == 'inv'}
        common = s if common is None else common & s
        if not common:
            return None
    for x in common:
        q = _exact_div(b, atoms[x].args[0])
        if q is not None:
            im = ((x, -1),)
            r = Poly({_mono_mul(m, im): c for m, c in a.t.items()})
            return _wrap(r.t) * q
    return None


def _content(p):
    """(c, q) with p = c*q and q having leading (key-smallest monomial) coefficient 1."""
    m = min(p.t)
    c = p.t[m]
    if c == 1:
        return F1, p
    return c, Poly({k: v / c for k, v in p.t.items()})


def div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, _Inf):
        return a * b
    if isinstance(b, Fraction):
        if b == 0:
            raise Unsupported('division by the constant zero')
        if b == 1:
            return a
        if isinstance(a, Fraction):
            return a / b
        return Poly({m: c / b for m, c in a.t.items()})
    if isinstance(a, Fraction) and a == 0:
        return F0
    need_nonzero(b)
    if len(b.t) == 1:
        (m, c), = b.t.items()
        im = Poly({tuple((x, -e) for x, e in m): 1 / c})
        return _renorm(im * a)
    if isinstance(a, Poly):
        # proportional / exactly divisible
        q = _exact_div(a, b)
        if q is not None:
            return q
    # pull out a common monomial factor of b
    c, q = _content(b)
    common = None
    for m in q.t:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            common = {k: min(common.get(k, 0), d.get(k, 0)) for k in set(common) | set(d)}
            common = {k: e for k, e in common.items() if e}
    fac = F1
    if common:
        cm = tuple(sorted((k, -e) for k, e in common.items()))
        q = Poly({_mono_mul(m, cm): v for m, v in q.t.items()})
        fac = Poly({cm: F1})
    sg = sign_known(q)
    at = CTX.atom('inv', key_of(q), f'inv{len(CTX.atoms)}', (q,), F0 if sg > 0 else None, F0 if sg < 0 else None)
    CTX.ninv += 1
    inv = Poly({((at.id, 1),): F1})
    return (a / c if c != 1 else a) * inv * fac


def need_nonzero(b):
    k = key_of(b)
    c = CTX.sign_cache
    if ('nz', k) in c:
        return
    c[('nz', k)] = True
    e = CTX.engine
    if e is not None:
        e.definedness(bnot(cmp('==', b, F0)), 'nonzero', b)


def _exact_div(a, b):
    """Multivariate exact division a/b (lex order); None if not exact or too large."""
    if len(a.t) > 60 or len(b.t) > 60:
        return None
    if len(a.t) == len(b.t):
        m = min(b.t)
        if m in a.t:
            r = a.t[m] / b.t[m]
            if all(mm in a.t and a.t[mm] == r * c for mm, c in b.t.items()):
                return r
    # need ordinary (non-negative) exponents to have a term order
    def neg(p):
        return any(e < 0 for m in p.t for _, e in m)
    if neg(a) or neg(b):
        return None
    names = sorted({x for m in a.t for x, _ in m} | {x for m in b.t for x, _ in m})
    if len(names) > 12:
        return None
    idx = {n: i for i, n in enumerate(names)}

    def vec(m):
        v = [0] * len(names)
        for x, e in m:
            v[idx[x]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.t.items()}
    B = {vec(m): c for m, c in b.t.items()}
    lb = max(B)
    cb = B[lb]
    Q = {}
    n = 0
    while A:
        n += 1
        if n > 200:
            return None
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d) < 0:
            return None
        q = A[la] / cb
        Q[d] = q
        for mb, c in B.items():
            k = tuple(x + y for x, y in zip(mb, d))
            v = A.get(k, F0) - q * c
            if v:
                A[k] = v
            else:
                A.pop(k, None)
    t = {}
    for v, c in Q.items():
        t[tuple((names[i], e) for i, e in enumerate(v) if e)] = c
    return _wrap(t)


def power(p, n):
    p = num(p)
    if not isinstance(n, Poly):
        n = num(n)
    if isinstance(n, Poly):
        # p ** n = exp(n log p)
        if isinstance(p, Fraction) and p == 1:
            return F1
        if isinstance(p, Fraction) and abs(float(p) - math.e) < 1e-13:
            return fn('exp', n)
        return fn2('powf', p, n)
    if n.denominator == 1:
        k = n.numerator
        if k >= 0:
            return ipow(p, k)
        return div(F1, ipow(p, -k))
    if isinstance(p, Fraction):
        if p == 1 or p == 0:
            if p == 0 and n < 0:
                raise Unsupported('0 ** negative')
            return p
        return snap(float(p) ** float(n))
    if n == Fraction(1, 2):
        return sqrt(p)
    if n == Fraction(-1, 2):
        return div(F1, sqrt(p))
    if n < 0:
        return div(F1, power(p, -n))
    a = CTX.atom('pow', (key_of(p), n), f'pow{len(CTX.atoms)}', (p, n), lo=F0)
    return Poly({((a.id, 1),): F1})


def sqrt(p):
    p = num(p)
    if isinstance(p, Fraction):
        if p < 0:
            raise Unsupported('sqrt of a negative constant')
        a, b = math.isqrt(p.numerator), math.isqrt(p.denominator)
        if a * a == p.numerator and b * b == p.denominator:
            return Fraction(a, b)
        return _alg_sqrt(p)
    # perfect square monomials: sqrt(c * m^2) = sqrt(c) * |m|
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            r = absval(Poly({tuple((x, e // 2) for x, e in m): F1}))
            return r * sqrt(c)
    c, q = _content(p)
    if c > 0 and c != 1:
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Fraction(a, b) * sqrt(q)
    r = _poly_root(p)
    if r is not None:
        return absval(r)
    a = CTX.atom('sqrt', key_of(p), f'sqrt{len(CTX.atoms)}', (p,), lo=F0)
    return Poly({((a.id, 1),): F1})


def _poly_root(p, limit=40):
    """A polynomial (with negative exponents allowed) whose square is p, or None."""
    if not 1 < len(p.t) <= limit * 3:
        return None
    ids = sorted({i for m in p.t for i, _ in m})
    pos = {i: k for k, i in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)

    def lead(q):
        try:
            return max((vec(m), m, c) for m, c in q.t.items())
        except KeyError:        # a product introduced another atom
            return None
    l = lead(p)
    v, m, c = l
    a, b = (math.isqrt(c.numerator), math.isqrt(c.denominator)) if c > 0 else (0, 1)
    if a * a * c.denominator != b * b * c.numerator or any(e % 2 for e in v):
        return None
    low = min(vec(mm) for mm in p.t)
    if any(e % 2 for e in low):
        return None
    low = tuple(e // 2 for e in low)
    top = Poly({tuple((i, e // 2) for i, e in m): Fraction(a, b)})
    half = tuple(e // 2 for e in v)
    q, last = top, half
    for _ in range(limit):
        r = p - q * q
        if not isinstance(r, Poly):
            return q if r == 0 else None
        l = lead(r)
        if l is None:
            return None
        w = tuple(x - y for x, y in zip(l[0], half))
        if not low <= w < last:
            return None
        q = q + Poly({tuple((i, e) for i, e in zip(ids, w) if e): l[2] / (2 * Fraction(a, b))})
        last = w
    return None


def _alg_sqrt(p):
    a = CTX.atom('sqrt', p, f'sqrtc{len(CTX.atoms)}', (p,), lo=F0)
    return Poly({((a.id, 1),): F1})


def sign_known(p):
    """+1/-1 if the atoms' static ranges settle the sign of p (weakly), else 0."""
    if isinstance(p, Fraction):
        return 1 if p >= 0 else -1
    s = None
    for m, c in p.t.items():
        g = 1 if c > 0 else -1
        for a, e in m:
            if e % 2 == 0:
                continue
            at = CTX.atoms[a]
            if at.lo is not None and at.lo >= 0:
                continue
            if at.hi is not None and at.hi <= 0:
                g = -g
                continue
            return 0
        if s is None:
            s = g
        elif s != g:
            return 0
    return s or 0


def absval(p):
    p = num(p)
    if isinstance(p, Fraction):
        return abs(p)
    s = sign_known(p)
    if s:
        return p if s > 0 else -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) > 1 or m[0][1] != 1:
            r = abs(c)
            for a, e in m:
                v = Poly({((a, 1),): F1})
                av = v if e % 2 == 0 else absval(v)
                r = r * (ipow(av, e) if e > 0 else div(F1, ipow(av, -e)))
            return r
        if c != 1:
            return abs(c) * absval(Poly({m: F1}))
    c, q = _content(p)
    if c != 1:
        return abs(c) * absval(q)
    a = CTX.atom('abs', key_of(q), f'abs{len(CTX.atoms)}', (q,), lo=F0)
    return Poly({((a.id, 1),): F1})


def fmax(a, b):
    a, b = num(a), num(b)
    if isinstance(a, _Inf):
        return b if a.s < 0 else a
    if isinstance(b, _Inf):
        return a if b.s < 0 else b
    if is_const(a) and is_const(b):
        return max(a, b)
    if key_of(a) == key_of(b):
        return a
    c = cmp('<=', a, b)
    if c is True:
        return b
    if c is False:
        return a
    k = frozenset((key_of(a), key_of(b)))
    lo = None
    for v in (a, b):
        if isinstance(v, Fraction) and v >= 0:
            lo = F0
        elif isinstance(v, Poly) and sign_known(v) > 0:
            lo = F0
    at = CTX.atom('max', k, f'max{len(CTX.atoms)}', (a, b), lo=lo)
    return Poly({((at.id, 1),): F1})


def fmin(a, b):
    a, b = num(a), num(b)
    if isinstance(a, _Inf):
        return b if a.s > 0 else a
    if isinstance(b, _Inf):
        return a if b.s > 0 else b
    return -fmax(-a, -b) if not (sign_known(a) > 0 and sign_known(b) > 0) else _minpos(a, b)


def _minpos(a, b):
    if is_const(a) and is_const(b):
        return min(a, b)
    if key_of(a) == key_of(b):
        return a
    c = cmp('<=', a, b)
    if c is True:
        return a
    if c is False:
        return b
    k = frozenset((key_of(a), key_of(b)))
    at = CTX.atom('min', k, f'min{len(CTX.atoms)}', (a, b), lo=F0)
    return Poly({((at.id, 1),): F1})


_RANGE = {'exp': (F0, None), 'sigmoid': (F0, F1), 'tanh': (-F1, F1), 'softplus': (F0, None),
          'sin': (-F1, F1), 'cos': (-F1, F1), 'log': (None, None), 'erf': (-F1, F1),
          'atan': (None, None)}
_ODD = {'tanh', 'sin', 'erf', 'atan'}
_EVEN = {'cos'}
_AT0 = {'exp': F1, 'tanh': F0, 'sin': F0, 'cos': F1, 'sigmoid': Fraction(1, 2), 'erf': F0, 'atan': F0}
_MATH = {'exp': math.exp, 'tanh': math.tanh, 'sin': math.sin, 'cos': math.cos, 'log': math.log,
         'sigmoid': lambda x: 1 / (1 + math.exp(-x)), 'softplus': lambda x: math.log1p(math.exp(x)),
         'erf': math.erf, 'atan': math.atan}


def fn(name, p):
    """A transcendental function as an atom."""
    p = num(p)
    if isinstance(p, Fraction):
        if p == 0 and name in _AT0:
            return _AT0[name]
        if name == 'log' and p == 1:
            return F0
        if name in ('exp', 'log', 'softplus', 'sigmoid', 'tanh', 'sin', 'cos', 'erf', 'atan'):
            return snap(_MATH[name](float(p)))
        raise Unsupported(f'{name} of constant')
    c, q = _content(p)
    sgn = 1
    if c < 0 and (name in _ODD or name in _EVEN):
        p = -p
        if name in _ODD:
            sgn = -1
    if name == 'sigmoid' and c < 0:
        return 1 - fn('sigmoid', -p)
    if name == 'exp':
        # exp(sum) is canonicalised as a product of exp(single term with leading coefficient)
        if len(p.t) > 1:
            r = F1
            for m, cc in p.t.items():
                r = r * fn('exp', _wrap({m: cc}))
            return r
        (m, cc), = p.t.items()
        if cc.denominator == 1 and abs(cc.numerator) > 1 and abs(cc.numerator) <= 8:
            b = fn('exp', Poly({m: F1 if cc > 0 else -F1}))
            return ipow(b, abs(cc.numerator))
        if cc < 0:
            return div(F1, fn('exp', -p))
    a = CTX.atom(name, key_of(p), f'{name}{len(CTX.atoms)}', (p,), *_RANGE[name])
    r = Poly({((a.id, 1),): F1})
    return r if sgn == 1 else -r


def fn2(name, *args):
    a = CTX.atom(name, tuple(key_of(x) for x in args), f'{name}{len(CTX.atoms)}', tuple(args),
                 lo=F0 if name == 'powf' else None)
    return Poly({((a.id, 1),): F1})


def uf(name, args, lo=None, hi=None):
    """Application of an uninterpreted function."""
    args = tuple(num(a) for a in args)
    k = tuple(key_of(a) for a in args)
    a = CTX.table.get(('uf', (name, k)))
    if a is None:
        apps = CTX.ufapps.setdefault(name, [])
        for b in apps:
            if all(_close(x, y) for x, y in zip(b.args, args)):
                return Poly({((b.id, 1),): F1})
        a = CTX.atom('uf', (name, k), f'{name}({len(apps)})', args, lo, hi)
        apps.append(a)
    return Poly({((a.id, 1),): F1})


def _close(p, q, tol=Fraction(1, 10 ** 11)):
    """Same normal form up to coefficient noise (constants given as rounded decimals)."""
    tp = p.t if isinstance(p, Poly) else {(): p}
    tq = q.t if isinstance(q, Poly) else {(): q}
    if len(tp) == len(tq) and all(m in tq and (c == tq[m] or abs(c - tq[m]) <= tol * (1 + abs(c))) for m, c in tp.items()):
        return True
    for m in set(tp) | set(tq):
        c, d = tp.get(m, F0), tq.get(m, F0)
        if c != d and abs(c - d) > tol * (1 + abs(c)):
            return False
    return True


# ---------------------------------------------------------------- booleans
class SB:
    """A symbolic boolean (a z3 formula)."""
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
    def __invert__(self): return bnot(self)
    def __xor__(self, o):
        return band(bor(self, o), bnot(band(self, o)))
    __rxor__ = __xor__

    def __bool__(self):
        return CTX.engine.decide(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return bnot(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SB)):
            return self ^ o
        return NotImplemented
    __hash__ = None

    # arithmetic use of a truth value resolves it
    def __int__(self): return int(bool(self))
    def __add__(self, o): return num(self) + o
    __radd__ = __add__
    def __mul__(self, o): return num(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)
    def __neg__(self): return -num(self)

    def __repr__(self):
        return f'SB({self.z})'


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SB(z3.And(a.z, b.z))


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SB(z3.Or(a.z, b.z))


def bnot(a):
    if isinstance(a, SB):
        return SB(z3.Not(a.z))
    return not a


def zb(a):
    return a.z if isinstance(a, SB) else z3.BoolVal(bool(a))


def ind(b):
    """0/1 value of a boolean, as an atom."""
    if not isinstance(b, SB):
        return F1 if b else F0
    k = b.z.get_id()
    a = CTX.atom('ind', k, f'ind{len(CTX.atoms)}', (b,), F0, F1)
    return Poly({((a.id, 1),): F1})


def ite(b, x, y):
    if b is True:
        return x
    if b is False:
        return y
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return bor(band(b, x), band(bnot(b), y))
    x, y = num(x), num(y)
    if key_of(x) == key_of(y):
        return x
    i = ind(b)
    return i * x + (1 - i) * y


def cmp(op, a, b):
    if isinstance(a, _Inf) or isinstance(b, _Inf):
        sa, sb = (a.s if isinstance(a, _Inf) else 0), (b.s if isinstance(b, _Inf) else 0)
        return sa < sb if op == '<' else sa <= sb if op == '<=' else sa == sb
    a, b = num(a), num(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b if op == '<' else a <= b if op == '<=' else a == b
    d = a - b
    if isinstance(d, Fraction):
        return d < 0 if op == '<' else d <= 0 if op == '<=' else d == 0
    # sqrt/abs/pow atom (single, positive coefficient) against a constant: compare the arguments
    if len(d.t) <= 2:
        ms = [m for m in d.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            at = CTX.atoms[ms[0][0][0]]
            c = d.t[ms[0]]
            k = -d.t.get((), F0) / c     # atom ? k
            if at.kind in ('sqrt', 'pow'):
                if at.kind == 'sqrt':
                    arg, kk = at.args[0], k * k
                else:
                    r = at.args[1]
                    if r.numerator == 1:
                        arg, kk = at.args[0], k ** r.denominator
                    else:
                        arg = None
                if arg is not None:
                    if op == '==':
                        return False if k < 0 else cmp('==', arg, kk)
                    if c > 0:   # atom < k
                        if k < 0 or (k == 0 and op == '<'):
                            return False
                        return cmp(op, arg, kk)
                    else:       # atom > k
                        if k < 0 or (k == 0 and op == '<='):
                            return True
                        return cmp(op, kk, arg)
        if len(ms) == 1 and len(ms[0]) > 1:
            # a product of non-negative factors with roots or absolute values against a constant: compare the squares
            m, ats = ms[0], [(CTX.atoms[i], e) for i, e in ms[0]]
            if any(e % 2 and a.kind in ('abs', 'sqrt') for a, e in ats) and all(e % 2 == 0 or (a.lo is not None and a.lo >= 0) for a, e in ats):
                c = d.t[m]
                k = -d.t.get((), F0) / c
                mono = Poly({m: F1})
                sq = mono * mono
                if isinstance(sq, Fraction) or not any(CTX.atoms[i].kind in ('abs', 'sqrt') and e % 2 for mm in sq.t for i, e in mm):
                    if op == '==':
                        return False if k < 0 else cmp('==', sq, k * k)
                    if c > 0:
                        return False if k < 0 or (k == 0 and op == '<') else cmp(op, sq, k * k)
                    return True if k < 0 or (k == 0 and op == '<=') else cmp(op, k * k, sq)
    # static sign
    if op == '<':
        if sign_known(d) > 0:
            return False
    elif op == '<=':
        if sign_known(d) < 0:
            return True
    lhs = lower(d)
    z = lhs < 0 if op == '<' else lhs <= 0 if op == '<=' else lhs == 0
    return SB(z)


# ---------------------------------------------------------------- lowering to z3
def zq(fr):
    return z3.RatVal(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def zatom(aid):
    a = CTX.atoms[aid]
    if not a.defined:
        a.defined = True
        _define(a)
    return a.z


def lower(p):
    """The element as a z3 real term."""
    if not isinstance(p, Poly):
        return zq(num(p))
    terms = []
    for m, c in sorted(p.t.items()):
        fs = [] if c == 1 and m else [zq(c)]
        for aid, e in m:
            if e < 0:
                iv = CTX.atom('recip', aid, f'recip_{CTX.atoms[aid].name}', (aid,))
                z = zatom(iv.id)
                e = -e
            else:
                z = zatom(aid)
            fs.extend([z] * e)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def _define(a):
    P = CTX.pending
    v, k = a.z, a.kind
    if a.lo is not None:
        P.append(v >= zq(a.lo))
    if a.hi is not None:
        P.append(v <= zq(a.hi))
    if k in ('var', 'uf'):
        return
    if k == 'recip':
        b = zatom(a.args[0])
        P.append(v * b == 1)
        P.append((v > 0) == (b > 0))
        P.append((v >= 1) == z3.And(b > 0, b <= 1))
        return
    if k == 'ind':
        b = a.args[0].z
        P.append(v == z3.If(b, z3.RealVal(1), z3.RealVal(0)))
        return
    if k == 'max':
        x, y = lower(a.args[0]), lower(a.args[1])
        P.extend([v >= x, v >= y, z3.Or(v == x, v == y)])
        return
    if k == 'min':
        x, y = lower(a.args[0]), lower(a.args[1])
        P.extend([v <= x, v <= y, z3.Or(v == x, v == y)])
        return
    x = lower(a.args[0])
    if k == 'abs':
        P.extend([v >= x, v >= -x, z3.Or(v == x, v == -x)])
    elif k == 'sqrt':
        P.extend([v * v == x, x >= 0, (v == 0) == (x == 0)])
    elif k == 'inv':
        P.extend([v * x == 1, (v > 0) == (x > 0)])
    elif k == 'pow':
        r = a.args[1]
        vv, xx = v, x
        for _ in range(r.denominator - 1):
            vv = vv * v
        for _ in range(r.numerator - 1):
            xx = xx * x
        P.extend([vv == xx, x >= 0, (v <= 1) == (x <= 1), (v == 0) == (x == 0), (v < 1) == (x < 1)])
    elif k == 'exp':
        P.extend([v > 0, v >= 1 + x, (v > 1) == (x > 0), (v == 1) == (x == 0)])
    elif k == 'log':
        P.extend([x > 0, v <= x - 1, (v > 0) == (x > 1)])
    elif k == 'tanh':
        P.extend([v < 1, v > -1, (v > 0) == (x > 0), (v < 0) == (x < 0)])
    elif k == 'sigmoid':
        P.extend([v < 1, v > 0, (2 * v > 1) == (x > 0)])
    elif k == 'softplus':
        P.extend([v > 0, v > x])
    elif k == 'sin':
        c = fn('cos', a.args[0])
        P.append(v * v + lower(c) * lower(c) == 1)
    elif k == 'cos':
        pass
    elif k in ('powf', 'erf', 'atan'):
        pass
    else:
        raise Unsupported(f'no definition for atom kind {k}')


def show(p, limit=6):
    if not isinstance(p, Poly):
        return str(p) if not isinstance(p, Fraction) or p.denominator < 10 ** 6 else f'{float(p):.6g}'
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items())):
        if i >= limit:
            out.append(f'... ({len(p.t)} terms)')
            break
        cs = str(c) if c.denominator < 10 ** 6 else f'{float(c):.6g}'
        ms = '*'.join(CTX.atoms[a].name + (f'^{e}' if e != 1 else '') for a, e in m) if CTX else str(m)
        out.append(f'{cs}*{ms}' if ms else cs)
    return ' + '.join(out)
