"""Path-exhaustive symbolic execution of a harness, with z3 deciding branches and assertions."""
import builtins
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
import torch
from . import elem as E
from . import tensor as T
from .elem import Poly, SB, F0, F1, Unsupported, num, z3


class Skipped(BaseException):
    """This path belongs to another shard."""


class Infeasible(BaseException):
    """The path condition became unsatisfiable (assumption contradicts the path)."""


class Truncated(BaseException):
    """The stated bound on this dimension was reached on this path."""


class Expected(Exception):
    pass


class Violation(BaseException):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


class Inconclusive(BaseException):
    pass


class Stats:
    def __init__(self):
        self.paths = self.decisions = self.forks = self.queries = self.unsat = self.sat = self.unknown = 0
        self.assertions = self.eqs = self.truncated = self.infeasible = 0
        self.solver_s = 0.0
        self.replays = self.replay_diverged = 0
        self.functions = set()
        self.samples = []
        self.assumptions = set()
        self.exact = self.approx = 0
        self.reached = {}


SLOW = bool(os.environ.get('VERIF_SLOW'))


class Engine:
    """One path: answers decisions, keeps the solver."""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = list(prefix)
        self.pos = 0
        self.stack = []        # (choice, had_alternative)
        self.ctx = E.Ctx()
        self.ctx.engine = self
        self.solver = z3.SimpleSolver() if explorer.simple else z3.Solver()
        self.solver.set('timeout', explorer.branch_ms)
        self.pc = []
        self.log = []          # human-readable trace of the harness
        self.names = {}        # harness variables: name -> (shape, [atom names])
        self.rng_n = 0
        self.fps = {}          # floating-point inputs: name -> z3 constant
        self.ufs = {}
        self.nonzero = []
        self.fpsolver = None
        self.model = None      # a model of everything asserted so far, if known
        self.bits = []         # outcomes of the two-sided decisions

    def flush(self):
        p = self.ctx.pending
        while p:
            c = p.pop()
            self.solver.add(c)
            self.refute(c)

    def refute(self, c):
        if self.model is not None and not self.holds(c):
            self.model = None

    def holds(self, c):
        return z3.is_true(self.model.eval(c, model_completion=True))

    def replaying(self):
        """Still inside the part of the path shared with the path it was forked from, whose assertions
        have been decided there under the same path condition."""
        return self.pos < len(self.prefix)

    def check(self, *zs, ms=None):
        self.flush()
        s = self.x.stats
        s.queries += 1
        if ms:
            self.solver.set('timeout', ms)
        t0 = time.time()
        if self.fps and not self.ctx.atoms:
            # bit-blasting of the whole query is far faster than the incremental theory solver
            self.fpsolver = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'simplify', 'sat').solver()
            self.fpsolver.set('timeout', 20 * (ms or self.x.branch_ms))
            self.fpsolver.add(*self.solver.assertions(), *zs)
            r = self.fpsolver.check()
        else:
            self.fpsolver = None
            r = self.solver.check(*zs)
        s.solver_s += time.time() - t0
        if ms:
            self.solver.set('timeout', self.x.branch_ms)
        if r == z3.unsat:
            s.unsat += 1
        elif r == z3.sat:
            s.sat += 1
        else:
            s.unknown += 1
        dt = time.time() - t0
        if dt > 0.5 and SLOW:
            print(f'slow query {dt:.2f}s {r}', [str(z)[:300] for z in zs], file=sys.stderr)
        return r

    def query(self, z):
        r = self.check(z)
        if r == z3.sat:
            self.model = self.last_model()
        return r

    def last_model(self):
        return (self.fpsolver or self.solver).model()

    def add(self, zexpr):
        self.flush()
        self.solver.add(zexpr)
        self.refute(zexpr)
        self.pc.append(zexpr)

    def decide(self, sb):
        """Resolve a symbolic truth value, forking if both outcomes are possible."""
        if not isinstance(sb, SB):
            return bool(sb)
        self.x.stats.decisions += 1
        z = sb.z
        if self.pos < len(self.prefix):
            c, alt = self.prefix[self.pos]
            self.pos += 1
            self.stack.append((c, alt))
            self.add(z if c else z3.Not(z))
            if alt:
                self.fork(c)
            return c
        self.pos += 1
        if time.time() > self.x.deadline:
            raise Inconclusive('time budget exhausted')
        self.flush()
        known = None
        if self.model is not None:
            v = self.model.eval(z, model_completion=True)
            known = True if z3.is_true(v) else False if z3.is_false(v) else None
        rt = z3.sat if known is True else self.query(z)
        if rt == z3.unsat:
            c, alt = False, False
        else:
            rf = z3.sat if known is False else self.query(z3.Not(z))
            if rf == z3.unsat:
                c, alt = True, False
            else:
                c, alt = self.x.first(self), True
                self.x.stats.forks += 1
        self.stack.append((c, alt))
        self.add(z if c else z3.Not(z))
        if alt:
            self.fork(c)
        return c

    def fork(self, c):
        self.bits.append(c)
        sh = self.x.shard
        if sh is not None and len(self.bits) == self.x.SHARD_DEPTH and not self.mine():
            raise Skipped()

    def mine(self):
        sh = self.x.shard
        if sh is None:
            return True
        n = 0
        for b in self.bits[:self.x.SHARD_DEPTH]:
            n = (n * 2654435761 + (2 if b else 1)) % 1000003
        return n % sh[1] == sh[0]

    def assume(self, b, why=None):
        if isinstance(b, SB):
            self.add(b.z)
            if self.pos >= len(self.prefix):
                if self.check() == z3.unsat:
                    raise Infeasible()
        elif not b:
            raise Infeasible()
        if why:
            self.x.stats.assumptions.add(why)

    NVALUES = 2
    CANDIDATES = [Fraction(3, 4), Fraction(3, 8), Fraction(3, 2), Fraction(-3, 4), Fraction(5, 2), Fraction(-5, 2), Fraction(1, 16)]

    def concretise(self, v, nvalues=None):
        """A symbolic number leaves the tensors (`float(t)`, `math.sqrt(t)`, ..): continue with up to NVALUES of its
        values, recorded as a bound."""
        nvalues = nvalues or self.NVALUES
        self.x.stats.assumptions.add(f'values that the code reads out of tensors as Python numbers, or gives to operators without symbolic semantics: {nvalues} chosen value(s) each, not all')
        fp = hasattr(v, '_fp')
        for n in range(nvalues):
            key = tuple(c for c, _ in self.stack)
            c = self.x.picked.get(key)
            if c is None:
                c = self.x.picked[key] = self._pick(v, fp)
            if self.decide(v == c if fp else E.cmp('==', v, c)):
                return float(c)
        self.x.stats.truncated += 1
        raise Truncated('other values of a number read out of a tensor')

    INTEGERS = [0, 1, -1, 2, -2, 3, -3, 4, -4]

    def floor(self, v):
        """The integer part of a symbolic real, by cases."""
        self.x.stats.assumptions.add(f'symbolic reals that the code rounds to integers: within {min(self.INTEGERS)}..{max(self.INTEGERS) + 1}')
        for n in self.INTEGERS:
            if self.decide(E.band(E.cmp('<=', Fraction(n), v), E.cmp('<', v, Fraction(n + 1)))):
                return Fraction(n)
        self.x.stats.truncated += 1
        raise Truncated('rounding of a large value')

    def _pick(self, v, fp):
        from . import fp as P
        if time.time() > self.x.deadline:
            raise Inconclusive('time budget exhausted')
        if not fp:
            z = E.lower(v)
            for c in self.CANDIDATES:
                if self.check(z == E.lower(c)) == z3.sat:
                    return c
        if self.check() != z3.sat:
            raise Unsupported('a symbolic real was read out as a Python number')
        m = self.last_model()
        if fp:
            return P.value(m, v.z)
        r = m.eval(z, model_completion=True)
        if not z3.is_rational_value(r):
            raise Unsupported('a symbolic real was read out as a Python number')
        r = Fraction(r.numerator_as_long(), r.denominator_as_long())
        c = Fraction(float(r))
        return c if c == r or self.check(z == E.lower(c)) == z3.sat else r

    def definedness(self, b, kind, p):
        """The code divides by p: continue with p != 0 (recorded)."""
        if b is True:
            return
        self.add(E.zb(b))
        self.nonzero.append(E.show(p, 3))
        self.x.stats.assumptions.add('divisors occurring in the executed code are non-zero (a zero divisor yields inf/nan, outside the real model)')


class H:
    """The harness API, in symbolic mode.  ConcreteH below is the replay twin."""
    symbolic = True

    def __init__(self, eng, stats):
        self.e, self.stats = eng, stats
        self.dtype = torch.float64
        self.patches = []
        self.prefs = []

    def exact32(self):
        """Read single-precision constants at their exact value (by default: the simplest decimal within rounding)."""
        T.EXACT32[0] = True

    def margin(self, a, b, eps=None):
        """Counterexamples should stay away from a == b, where floats do not decide what reals do."""
        self.prefs.append((a, b))

    # -- inputs
    def tensor(self, name, shape, lo=None, hi=None, requires_grad=False):
        shape = tuple(shape)
        a = np.empty(shape, dtype=object)
        lo = E.F0 + Fraction(lo).limit_denominator(10 ** 6) if lo is not None else None
        hi = E.F0 + Fraction(hi).limit_denominator(10 ** 6) if hi is not None else None
        for i in np.ndindex(*shape):
            a[i] = self.e.ctx.var(name + (str(list(i)).replace(' ', '') if shape else ''), lo, hi)
        self.e.names[name] = shape
        return T.make(a, self.dtype, requires_grad)

    def scalar(self, name, lo=None, hi=None):
        return self.tensor(name, (), lo, hi)

    def fp(self, name, shape=(), lo=None, hi=None, dtype=torch.float32):
        """Finite floating-point inputs, bit-precise."""
        from . import fp as P
        a = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*a.shape):
            nm = name + (str(list(i)).replace(' ', '') if a.shape else '')
            z = z3.FP('fp:' + nm, P.SORTS[dtype]())
            a[i] = v = P.FP(z, dtype)
            if nm not in self.e.fps:
                self.e.fps[nm] = z
                self.e.add(z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))))
                if lo is not None:
                    self.e.add(z3.fpGEQ(z, P.FP.const(lo, dtype).z))
                if hi is not None:
                    self.e.add(z3.fpLEQ(z, P.FP.const(hi, dtype).z))
        self.stats.assumptions.add('floating-point arithmetic is IEEE with rounding to nearest even')
        return T.make(a, dtype)

    def choose(self, name, n):
        """A nondeterministic choice in range(n), explored exhaustively."""
        for i in range(n - 1):
            if self.e.fps:      # keep the query within the theory of floating-point numbers
                nm = f'choice:{name}:{i}'
                z = self.e.fps[nm] = z3.Bool(nm)
                if self.e.decide(SB(z)):
                    return i
                continue
            b = self.e.ctx.var(f'choice:{name}:{i}', F0, F1)
            if self.e.decide(E.cmp('<=', b, Fraction(1, 2))):
                return i
        return n - 1

    def flag(self, name):
        return self.choose(name, 2) == 1

    def const(self, v):
        """A Python number / nested list as a tensor of exact rationals."""
        return T.make(T.cast(T._nest(_fracs(v)), self.dtype), self.dtype)

    def uf(self, name, nout, rowwise=True, time=True, order=1, lo=None, hi=None):
        return UField(self, name, nout, rowwise, time, lo, hi)

    def call_uf(self, name, elems, lo=None, hi=None):
        return E.uf(name, elems, lo, hi)

    def ufs(self, name, args, lo=None, hi=None):
        """Application of an uninterpreted function to 0-dim tensors, as a 0-dim tensor."""
        args = [T.arr(a).reshape(-1)[0] if isinstance(a, torch.Tensor) else T.sc(a) for a in args]
        return T.make(T.o(E.uf(name, args, lo, hi)), self.dtype)

    # -- facts
    def assume(self, c, why=None):
        self.e.assume(self.truth(c), why)

    def truth(self, c):
        if isinstance(c, torch.Tensor):
            r = True
            for v in T.arr(c).reshape(-1):
                r = E.band(r, T.cast1(v, torch.bool))
            return r
        return c

    def decide(self, c):
        return self.e.decide(self.truth(c))

    def log(self, *a):
        self.e.log.append(' '.join(str(x) for x in a))

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def truncate(self, why):
        self.stats.truncated += 1
        raise Truncated(why)

    # -- assertions
    def check(self, c, msg):
        c = self.truth(c)
        if self.e.replaying():
            return
        self.stats.assertions += 1
        if not isinstance(c, SB):
            if not c:
                self.fail(msg)
            # still a verdict over all values: the condition normalised to a constant
            return
        r = self.e.check(z3.Not(c.z), ms=self.e.x.assert_ms)
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = self._congruent_model([z3.Not(c.z)])
            if m is not None:
                raise Violation(msg, {'model': m})
            return
        raise Inconclusive(f'assertion not decided: {msg}')

    def fail(self, msg):
        """Reaching this point is itself the violation: the path condition must be satisfiable."""
        r = self.e.check(ms=self.e.x.assert_ms)
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Inconclusive(f'reachability of a failing state not decided: {msg}')
        m = self._congruent_model([])
        if m is None:
            raise Infeasible()
        raise Violation(msg, {'model': m})

    def check_shape(self, t, shape, msg):
        self.check(tuple(t.shape) == tuple(shape), f'{msg}: shape {tuple(t.shape)}, expected {tuple(shape)}')

    def check_eq(self, a, b, msg, tol=1e-7, box=8, inv_box=100):
        """a == b for all values; exact, or within tol for atoms inside the box when the code's
        constants are rounded decimals."""
        if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
            ta = a if isinstance(a, torch.Tensor) else None
            A_, B_ = (T.arr(v) if isinstance(v, torch.Tensor) else T.A(v) for v in (a, b))
            if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and tuple(a.shape) != tuple(b.shape):
                self.fail(f'{msg}: shape {tuple(a.shape)} vs {tuple(b.shape)}')
            A_, B_ = np.broadcast_arrays(A_, B_)
            pairs = list(zip(A_.reshape(-1), B_.reshape(-1)))
        else:
            pairs = [(T.sc(a), T.sc(b))]
        if self.e.replaying():
            return
        self.stats.assertions += 1
        self.stats.eqs += len(pairs)
        if not pairs:
            return
        pairs = [(num(x), num(y)) for x, y in pairs]
        if self.e.ctx.ninv:
            pairs = [(x, x) if self._cleared(x, y) else (x, y) for x, y in pairs]
        pairs = [(x, x) if E.key_of(x) != E.key_of(y) and E.similar(x, y) else (x, y) for x, y in pairs]
        red = [E.reduced(x, y) for x, y in pairs]
        if any(r is not None for r in red):
            # equal cofactors of a common factor suffice
            zs = [E.lower(u) != E.lower(v) for u, v in (r or p for r, p in zip(red, pairs))]
            if self.e.check(z3.Or(zs), ms=self.e.x.eq_ms) == z3.unsat:
                self.stats.exact += 1
                return
        bad = []
        for x, y in pairs:
            lx, ly = E.lower(x), E.lower(y)
            bad.append(lx != ly)
        q = z3.Or(bad) if len(bad) > 1 else bad[0]
        same = all(E.key_of(x) == E.key_of(y) for x, y in pairs)
        r = self.e.check(q, ms=None if same else self.e.x.eq_ms)
        if r == z3.unsat:
            self.stats.exact += 1
            return
        sub = self._equal_on_path(pairs)
        if sub is not None:
            pairs = sub
            bad = [E.lower(x) != E.lower(y) for x, y in pairs]
            if self.e.check(z3.Or(bad), ms=self.e.x.eq_ms) == z3.unsat:
                self.stats.exact += 1
                return
        # tolerance query: |x - y| <= tol for every point of the box (monomials abstracted to free
        # reals bounded by the box: linear arithmetic, sound over-approximation)
        bad = [(x, y) for x, y in pairs if not (self._linear_close(x - y, tol, box, inv_box) or self._coef_close(x, y))]
        if not bad:
            self.stats.approx += 1
            return
        tq = E.zq(Fraction(tol).limit_denominator(10 ** 12))
        zs = []
        for x, y in bad:
            d = E.lower(x - y)
            zs.append(z3.Or(d > tq, d < -tq))
        q = z3.Or(zs) if len(zs) > 1 else zs[0]
        bx = self._boxes(bad, box)
        r = self.e.check(q, *bx, ms=self.e.x.assert_ms)
        if r == z3.unsat:
            self.stats.approx += 1
            return
        if r == z3.sat:
            m = self._congruent_model([q] + bx)
            if m is None:
                return
            x, y = bad[0]
            raise Violation(f'{msg}: {E.show(x, 4)}  vs  {E.show(y, 4)}', {'model': m})
        m = self._pinned_model(bad, tol, box)
        if m is not None:
            x, y = bad[0]
            raise Violation(f'{msg}: {E.show(x, 4)}  vs  {E.show(y, 4)}', {'model': m})
        # last resort for unknown: propose concrete points (the replay decides)
        raise Violation(f'{msg} (solver undecided; concretisation by search): {E.show(bad[0][0], 4)} vs {E.show(bad[0][1], 4)}',
                        {'model': None, 'unknown': True})

    def _pinned_model(self, pairs, tol, box, rounds=8):
        """The solver could not decide the general query: ask it for models of the path with some of the
        inputs pinned to values, in which the two sides differ."""
        import random
        sv, lim = self.e.solver, time.time() + 25
        ids = set()
        for x, y in pairs:
            for p in (x, y):
                if isinstance(p, Poly):
                    for mo in p.t:
                        ids.update(a for a, _ in mo)
        ids = sorted(i for i in ids if self.e.ctx.atoms[i].kind in ('var', 'uf'))
        for k in range(rounds):
            r = random.Random(k)
            order = list(ids)
            r.shuffle(order)
            depth = 0
            try:
                sv.push()
                depth += 1
                for z in self._boxes(pairs, box):
                    sv.add(z)
                for i in order:
                    if time.time() > lim:
                        return None
                    at = self.e.ctx.atoms[i]
                    lo, hi = (max(at.lo, -2) if at.lo is not None else -2), (min(at.hi, 2) if at.hi is not None else 2)
                    if lo > hi:
                        lo, hi = at.lo, at.hi
                    v = lo + (hi - lo) * Fraction(r.randint(1, 63), 64)
                    sv.push()
                    sv.add(E.zatom(i) == E.zq(Fraction(v)))
                    if self.e.check(ms=400) == z3.sat:
                        depth += 1
                    else:
                        sv.pop()
                if self.e.check(ms=2000) != z3.sat:
                    continue
                m = ModelView(self.e, self.e.last_model())
                if m.incongruent():
                    continue
                for x, y in pairs:
                    try:
                        d = m.val(x - y) if isinstance(x - y, Poly) else x - y
                        if abs(d) > max(tol, 1e-5):
                            return m.extract()
                    except Exception:
                        continue
            finally:
                for _ in range(depth):
                    sv.pop()
        return None

    def _cleared(self, x, y):
        """x - y vanishes identically once multiplied by its (non-zero) denominators."""
        d = x - y
        if not isinstance(d, Poly):
            return False
        d = E.clear_denoms(d)
        return d is not None and not isinstance(d, Poly) and d == 0

    def _coef_close(self, x, y, rel=Fraction(1, 10 ** 9)):
        """As rational functions (over their common denominators), x and y have the same coefficients up to rounding."""
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return False
        tag = self.e.ctx.fresh('tag')
        (tid, _), = next(iter(tag.t))
        d = E.clear_denoms(x + tag * y)
        if not isinstance(d, Poly):
            return False
        a, b = {}, {}
        for m, c in d.t.items():
            if any(i == tid for i, _ in m):
                b[tuple(t for t in m if t[0] != tid)] = c
            else:
                a[m] = c
        lim = rel * max((abs(c) for c in a.values()), default=F0)
        return all(abs(a.get(m, F0) - b.get(m, F0)) <= lim for m in set(a) | set(b))

    def _boxes(self, pairs, box):
        ids = set()
        for x, y in pairs:
            for p in (x, y):
                if isinstance(p, Poly):
                    for m in p.t:
                        ids.update(a for a, _ in m)
        out = []
        for i in ids:
            a = self.e.ctx.atoms[i]
            if a.kind in ('var', 'uf'):
                z = E.zatom(i)
                out += [z <= box, z >= -box]
        return out

    def _equal_on_path(self, pairs):
        """The pairs rewritten with variables the path condition makes equal identified (and with them
        the applications of uninterpreted functions), or None when there is nothing to identify."""
        if not any(_has_eq(c) for c in self.e.pc):
            return None
        atoms = self.e.ctx.atoms
        seen, todo = set(), [aid for p in pairs for v in p if isinstance(v, Poly) for m in v.t for aid, _ in m]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo += [b for v in atoms[a].args if isinstance(v, Poly) for m in v.t for b, _ in m]
        vs = sorted(a for a in seen if atoms[a].kind == 'var')
        sv = self.e.solver
        sv.push()
        try:
            r = self.e.check(ms=1000)
            if r != z3.sat:
                return None
            m = ModelView(self.e, self.e.last_model())
        finally:
            sv.pop()
        groups = {}
        for a in vs:
            groups.setdefault(m.atomval(a), []).append(a)
        rep, budget = {}, 60
        for g in groups.values():
            heads = []
            for a in g:
                for h in heads:
                    if budget <= 0:
                        break
                    budget -= 1
                    if self.e.check(atoms[a].z != atoms[h].z, ms=300) == z3.unsat:
                        rep[a] = h
                        break
                else:
                    heads.append(a)
        if not rep:
            return None
        memo = {}
        try:
            return [tuple(_rename(v, rep, memo, self.e.ctx) for v in p) for p in pairs]
        except Unsupported:
            return None

    def _linear_close(self, d, tol, box, inv_box):
        if not isinstance(d, Poly):
            return abs(d) <= Fraction(tol)
        s = z3.Solver()
        terms = []
        for m, c in d.t.items():
            if not m:
                terms.append(E.zq(c))
                continue
            b = F1
            for aid, e in m:
                at = self.e.ctx.atoms[aid]
                mag = max(abs(at.lo), abs(at.hi)) if at.lo is not None and at.hi is not None else Fraction(box)
                b *= (Fraction(max(mag, 1)) ** e if e > 0 else Fraction(inv_box) ** (-e))
            v = z3.Real('mono' + str(len(terms)))
            s.add(v <= E.zq(b), v >= -E.zq(b))
            terms.append(E.zq(c) * v)
        t = z3.Sum(terms)
        tq = E.zq(Fraction(tol))
        s.add(z3.Or(t > tq, t < -tq))
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
        return r == z3.unsat

    def _congruent_model(self, extra):
        """A model of path + extra in which UF applications with equal arguments agree.
        Returns None if none exists (the assertion holds)."""
        sv = self.e.solver
        for q in self._interior(extra):
            # prefer a model well inside the path condition
            sv.push()
            try:
                sv.add(*q)
                if self.e.check(ms=3000) == z3.sat:
                    m = ModelView(self.e, self.e.last_model())
                    if not m.incongruent():
                        return m.extract()
            finally:
                sv.pop()
        sv.push()
        try:
            for z in extra:
                sv.add(z)
            for _ in range(40):
                r = self.e.check(ms=self.e.x.assert_ms)
                if r == z3.unsat:
                    return None
                if r != z3.sat:
                    raise Inconclusive('model search undecided')
                m = ModelView(self.e, self.e.last_model())
                bad = m.incongruent()
                if not bad:
                    return m.extract()
                for a, b in bad:
                    sv.add(z3.Implies(z3.And([E.lower(x) == E.lower(y) for x, y in zip(a.args, b.args)]), a.z == b.z))
                    self.e.flush()
            raise Inconclusive('congruence refinement did not converge')
        finally:
            sv.pop()

    def _interior(self, extra):
        if self.e.fps:
            return
        st = lambda c: _strengthen(c) if _strengthen(c) is not None else c
        pc = [m for m in map(_strengthen, self.e.pc) if m is not None]
        prefs = []
        for a, b in self.prefs:
            xs, ys = ([num(v) for v in np.asarray(T.arr(T.lift(w)) if isinstance(w, torch.Tensor) else [w], dtype=object).reshape(-1)] for w in (a, b))
            if len(xs) != len(ys):
                continue
            for x, y in zip(xs, ys):
                try:
                    d = E.lower(x) - E.lower(y)
                except (Unsupported, TypeError, AttributeError):
                    continue
                prefs.append(z3.Or(d >= E.zq(Fraction(1, 1000)), d <= E.zq(Fraction(-1, 1000))))
        self.e.flush()
        yield list(map(st, extra)) + pc + prefs
        if prefs:
            yield extra + prefs

    def witness(self):
        """A model of this path (for concrete replay / vacuity check), preferring the interior."""
        sv = self.e.solver
        strict = []
        for c in self.e.pc:
            m = _strengthen(c)
            if m is not None:
                strict.append(m)
        sv.push()
        try:
            for s in strict:
                sv.add(s)
            r = self.e.check(ms=1500)
            if r == z3.sat:
                m = ModelView(self.e, self.e.last_model())
                if not m.incongruent():
                    return m.extract()
        finally:
            sv.pop()
        r = self.e.check(ms=1500)
        if r == z3.sat:
            m = ModelView(self.e, self.e.last_model())
            if not m.incongruent():
                return m.extract()
        if r == z3.unsat:
            raise Infeasible()
        return None


def _has_eq(c):
    if z3.is_and(c):
        return any(_has_eq(x) for x in c.children())
    return z3.is_eq(c) and c.num_args() == 2 and z3.is_arith(c.arg(0))


def _rename(p, rep, memo, ctx):
    """p with the variables of `rep` replaced, applications rebuilt over the renamed arguments."""
    if not isinstance(p, Poly):
        return p
    r = None
    for m, c in p.t.items():
        t = c
        for aid, e in m:
            v = memo.get(aid)
            if v is None:
                a = ctx.atoms[aid]
                if a.kind == 'var':
                    v = Poly({((rep.get(aid, aid), 1),): F1})
                else:
                    args = [_rename(x, rep, memo, ctx) for x in a.args]
                    if all(E.key_of(x) == E.key_of(y) for x, y in zip(a.args, args)):
                        v = Poly({((aid, 1),): F1})
                    elif a.kind == 'uf':
                        v = E.uf(a.key[0], args, a.lo, a.hi)
                    elif len(args) == 1 and a.kind in E._RANGE:
                        v = E.fn(a.kind, args[0])
                    else:
                        raise Unsupported('rename ' + a.kind)
                memo[aid] = v
            if e > 0:
                for _ in range(e):
                    t = v * t
            else:
                for _ in range(-e):
                    t = E.div(t, v)
        r = t if r is None else r + t
    return num(0) if r is None else r


def _strengthen(c, neg=False):
    """Move the inequalities of a condition away from their boundaries (None where there are none)."""
    s = E.zq(Fraction(1, 1000))
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if z3.is_and(c) or z3.is_or(c):
        parts = [_strengthen(a, neg) for a in c.children()]
        if all(p is None for p in parts):
            return None
        parts = [p if p is not None else (z3.Not(a) if neg else a) for p, a in zip(parts, c.children())]
        return z3.And(parts) if z3.is_and(c) != neg else z3.Or(parts)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    lt = {z3.Z3_OP_LT: 1, z3.Z3_OP_LE: 1, z3.Z3_OP_GT: -1, z3.Z3_OP_GE: -1}.get(k)
    if lt is None or not z3.is_arith(a):
        return None
    if neg:
        lt = -lt
    return a + s <= b if lt == 1 else a >= b + s


def _fracs(v):
    if isinstance(v, (list, tuple)):
        return [_fracs(x) for x in v]
    return v if isinstance(v, (Fraction, int, bool)) else E.snap(v)


def zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return F0


class ModelView:
    def __init__(self, eng, m):
        self.eng, self.m = eng, m
        self.cache = {}

    def atomval(self, aid):
        v = self.cache.get(aid)
        if v is None:
            v = self.cache[aid] = zval(self.m, self.eng.ctx.atoms[aid].z)
        return v

    def val(self, p):
        if not isinstance(p, Poly):
            return num(p)
        r = F0
        for m, c in p.t.items():
            for a, e in m:
                x = self.atomval(a)
                if e < 0 and x == 0:
                    return F0
                c = c * x ** e
            r += c
        return r

    def incongruent(self):
        out = []
        for name, apps in self.eng.ctx.ufapps.items():
            seen = {}
            for a in apps:
                k = tuple(self.val(x) for x in a.args)
                b = seen.get(k)
                if b is None:
                    seen[k] = a
                elif self.atomval(a.id) != self.atomval(b.id):
                    out.append((a, b))
        return out

    def extract(self):
        vals = {a.name: float(self.atomval(a.id)) for a in self.eng.ctx.atoms if a.kind == 'var'}
        ufs = {}
        for name, apps in self.eng.ctx.ufapps.items():
            ufs[name] = [([float(self.val(x)) for x in a.args], float(self.atomval(a.id))) for a in apps if a.defined]
        if self.eng.fps:
            from . import fp as P
            vals.update({n: P.value(self.m, z) for n, z in self.eng.fps.items()})
        return {'vars': vals, 'ufs': ufs}


# ----------------------------------------------------------------- UF vector fields
class UField:
    """f(t, x) with every output coordinate an uninterpreted function of (t, x-row), differentiable:
    partial derivatives are further uninterpreted functions, so autograd runs through it."""

    def __init__(self, h, name, nout, rowwise, time, lo, hi):
        self.h, self.name, self.nout, self.rowwise, self.time = h, name, nout, rowwise, time
        self.lo, self.hi = lo, hi
        self.calls = []

    def __call__(self, t, x=None, args=None):
        if x is None:
            t, x = None, t
        tt = t if isinstance(t, torch.Tensor) else (torch.tensor(float(t), dtype=torch.float64) if t is not None else None)
        if not self.time or tt is None:
            tt = torch.zeros((), dtype=torch.float64)
        if tt.ndim > 0 and tt.numel() == 1:
            tt = tt.reshape(())
        return _UFn.apply(self, self.name, tt, x)

    def app(self, name, targ, row):
        args = ([targ] if self.time else []) + list(row)
        return self.h.call_uf(name, args, self.lo, self.hi)


class _UFn(torch.autograd.Function):
    @staticmethod
    def forward(ctx, field, name, t, x):
        ctx.field, ctx.name = field, name
        ctx.save_for_backward(t, x)
        return _uf_eval(field, name, t, x, None)

    @staticmethod
    def backward(ctx, g):
        t, x = ctx.saved_tensors
        f = ctx.field
        if f.rowwise:
            x2 = x.reshape(-1, x.shape[-1])
            n = x2.shape[-1]
            rows = [(slice(r, r + 1)) for r in range(x2.shape[0])]
        else:
            x2 = x.reshape(1, -1)
            n = x2.shape[-1]
        g2 = g.reshape(x2.shape[0], -1)
        cols = []
        for j in range(n):
            dj = _UDeriv.apply(f, f'{ctx.name}.d{j}', t, x2, g2.shape[1])
            cols.append((g2 * dj).sum(-1))
        gx = torch.stack(cols, -1).reshape(x.shape)
        gt = None
        if f.time:
            dt = _UDeriv.apply(f, f'{ctx.name}.dt', t, x2, g2.shape[1])
            gt = (g2 * dt).sum().reshape(t.shape)
        return None, None, gt, gx


class _UDeriv(torch.autograd.Function):
    @staticmethod
    def forward(ctx, field, name, t, x2, nout):
        ctx.field, ctx.name, ctx.nout = field, name, nout
        ctx.save_for_backward(t, x2)
        return _uf_eval2(field, name, t, x2, nout)

    @staticmethod
    def backward(ctx, g):
        t, x2 = ctx.saved_tensors
        f = ctx.field
        cols = []
        for j in range(x2.shape[1]):
            dj = _UDeriv.apply(f, f'{_norm(ctx.name, j)}', t, x2, ctx.nout)
            cols.append((g * dj).sum(-1))
        gx = torch.stack(cols, -1)
        gt = None
        if f.time:
            gt = (g * _UDeriv.apply(f, _norm(ctx.name, 't'), t, x2, ctx.nout)).sum().reshape(t.shape)
        return None, None, gt, gx, None


def _norm(name, j):
    """Mixed partials commute: keep the derivative indices sorted."""
    base, *ds = name.split('.d')
    ds = sorted(ds + [str(j)])
    return base + ''.join('.d' + d for d in ds)


def _uf_eval(field, name, t, x, _):
    shape = x.shape
    x2 = x.reshape(-1, shape[-1]) if field.rowwise else x.reshape(1, -1)
    nout = field.nout if field.rowwise else (field.nout or x.numel())
    r = _uf_eval2(field, name, t, x2, nout)
    if field.rowwise:
        return r.reshape(tuple(shape[:-1]) + (nout,))
    return r.reshape(shape) if nout == x.numel() else r.reshape(nout)


def _uf_eval2(field, name, t, x2, nout):
    h = field.h
    if h.symbolic:
        ta = T.arr(t).reshape(-1)[0]
        xa = T.arr(x2)
        out = np.empty((xa.shape[0], nout), dtype=object)
        base, *ds = name.split('.d')
        suf = ''.join('.d' + d for d in ds)
        for r in range(xa.shape[0]):
            for i in range(nout):
                out[r, i] = field.app(f'{base}_{i}{suf}', ta, xa[r])
        return T.make(out, x2.dtype)
    out = np.empty((x2.shape[0], nout))
    base, *ds = name.split('.d')
    suf = ''.join('.d' + d for d in ds)
    tv, xv = float(t.reshape(-1)[0]), x2.detach().double().numpy()
    for r in range(xv.shape[0]):
        for i in range(nout):
            out[r, i] = field.app(f'{base}_{i}{suf}', tv, list(xv[r]))
    return torch.tensor(out).to(x2.dtype)


# ----------------------------------------------------------------- concrete twin
class ReplayFailure(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class ConcreteH:
    """The same harness on real float64 tensors, with the inputs of a solver model."""
    symbolic = False

    def __init__(self, model, tolscale=1.0, seed=0):
        self.m = model
        self.dtype = torch.float64
        self.tolscale = tolscale
        self.trace = []
        self.rng = random.Random(seed)
        self.rng_n = 0
        self.fallback = {}
        self.nchecks = 0
        self.seed = seed
        self.fuzzy = 0

    def exact32(self):
        pass

    def margin(self, a, b, eps=1e-7):
        """Real semantics decides a <= b; floats that are closer than rounding do not."""
        if abs(float(a) - float(b)) <= eps * (1 + abs(float(b))):
            raise Infeasible('boundary of a real comparison')

    def _get(self, name, lo, hi):
        v = self.m['vars'].get(name)
        if v is None:
            v = self.fallback.get(name)
        if v is None:
            a, b = (-1 if lo is None else float(lo)), (1 if hi is None else float(hi))
            v = self.fallback[name] = a + (b - a) * self.rng.random()
        return v

    def tensor(self, name, shape, lo=None, hi=None, requires_grad=False):
        shape = tuple(shape)
        a = np.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = self._get(name + (str(list(i)).replace(' ', '') if shape else ''), lo, hi)
        return torch.tensor(a, dtype=self.dtype, requires_grad=requires_grad)

    def scalar(self, name, lo=None, hi=None):
        return self.tensor(name, (), lo, hi)

    def fp(self, name, shape=(), lo=None, hi=None, dtype=torch.float32):
        t = torch.zeros(tuple(shape), dtype=dtype)
        for i in np.ndindex(*t.shape):
            t[i] = self._get(name + (str(list(i)).replace(' ', '') if t.shape else ''), lo, hi)
        return t

    def choose(self, name, n):
        for i in range(n - 1):
            if self._get(f'choice:{name}:{i}', 0, 1) <= 0.5:
                return i
        return n - 1

    def flag(self, name):
        return self.choose(name, 2) == 1

    def const(self, v):
        def f(x):
            return [f(y) for y in x] if isinstance(x, (list, tuple)) else float(x)
        return torch.tensor(f(v), dtype=self.dtype)

    def uf(self, name, nout, rowwise=True, time=True, order=1, lo=None, hi=None):
        return UField(self, name, nout, rowwise, time, lo, hi)

    def call_uf(self, name, args, lo=None, hi=None):
        args = [float(a) for a in args]
        best, bd = None, None
        for a, v in self.m['ufs'].get(name, ()):
            d = max((abs(x - y) / (1 + abs(x)) for x, y in zip(a, args)), default=0)
            if bd is None or d < bd:
                best, bd = v, d
        if bd is not None and bd < 1e-9:
            return best
        # a fixed smooth function for arguments the model says nothing about
        import zlib
        r = random.Random(zlib.crc32(name.encode()) ^ self.seed)
        s = r.uniform(-1, 1)
        for a in args:
            s += math.sin(r.uniform(0.5, 1.5) * a + r.uniform(-1, 1)) * r.uniform(0.3, 1)
        v = s * 0.5
        if lo is not None or hi is not None:
            l, hh = (float(lo) if lo is not None else -4.0), (float(hi) if hi is not None else 4.0)
            v = l + (hh - l) * (0.5 + 0.5 * math.tanh(v))
        return v

    def ufs(self, name, args, lo=None, hi=None):
        return torch.tensor(self.call_uf(name, [float(a) for a in args], lo, hi), dtype=self.dtype)

    def draw(self, kind, shape, lo, hi):
        out = np.zeros(shape)
        for i in np.ndindex(*shape):
            self.rng_n += 1
            out[i] = self._get(f'rng{self.rng_n}', -1 if lo is None else lo, 1 if hi is None else hi)
            if kind in ('bernoulli',):
                out[i] = float(out[i] > 0.5)
        return out

    def assume(self, c, why=None):
        if not self.truth(c):
            raise Infeasible()

    def truth(self, c):
        return bool(c.all()) if isinstance(c, torch.Tensor) else bool(c)

    def decide(self, c):
        return self.truth(c)

    def log(self, *a):
        self.trace.append(' '.join(str(x) for x in a))

    def reach(self, label):
        pass

    def truncate(self, why):
        raise Truncated(why)

    def check(self, c, msg):
        self.nchecks += 1
        if not self.truth(c):
            raise ReplayFailure(msg)

    def fail(self, msg):
        raise ReplayFailure(msg)

    def check_shape(self, t, shape, msg):
        self.check(tuple(t.shape) == tuple(shape), f'{msg}: shape {tuple(t.shape)}, expected {tuple(shape)}')

    def check_eq(self, a, b, msg, tol=1e-7, box=None, inv_box=None):
        self.nchecks += 1
        a = torch.as_tensor(a, dtype=torch.float64).detach()
        b = torch.as_tensor(b, dtype=torch.float64).detach()
        if a.ndim and b.ndim and a.shape != b.shape:
            raise ReplayFailure(f'{msg}: shape {tuple(a.shape)} vs {tuple(b.shape)}')
        d = (a - b).abs()
        lim = max(tol, 1e-9) * self.tolscale * (1 + torch.maximum(a.abs(), b.abs()))
        if not bool((d <= lim).all()):
            i = int(torch.nan_to_num(d / lim, nan=float('inf')).reshape(-1).argmax()) if d.numel() else 0
            aa, bb = torch.broadcast_tensors(a, b)
            raise ReplayFailure(f'{msg}: got {float(aa.reshape(-1)[i]):.9g}, expected {float(bb.reshape(-1)[i]):.9g}')


class _ReplayRNG(T.TorchDispatchMode):
    """Feeds the model's values to random draws during a concrete replay."""

    def __init__(self, h):
        super().__init__()
        self.h = h

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm = func._overloadpacket.__name__
        h = self.h
        if nm in ('randn', 'rand'):
            dt = kwargs.get('dtype') or torch.get_default_dtype()
            return torch.tensor(h.draw(nm, tuple(args[0]), None if nm == 'randn' else 0, None if nm == 'randn' else 1)).to(dt)
        if nm in ('randn_like', 'rand_like'):
            return torch.tensor(h.draw(nm, tuple(args[0].shape), None if nm == 'randn_like' else 0, None if nm == 'randn_like' else 1)).to(kwargs.get('dtype') or args[0].dtype)
        if nm == 'normal_':
            m = args[1] if len(args) > 1 else kwargs.get('mean', 0)
            s = args[2] if len(args) > 2 else kwargs.get('std', 1)
            args[0].copy_(m + s * torch.tensor(h.draw('normal', tuple(args[0].shape), None, None)))
            return args[0]
        if nm == 'uniform_':
            lo = args[1] if len(args) > 1 else kwargs.get('from', 0)
            hi = args[2] if len(args) > 2 else kwargs.get('to', 1)
            args[0].copy_(lo + (hi - lo) * torch.tensor(h.draw('uniform', tuple(args[0].shape), 0, 1)))
            return args[0]
        if nm == 'exponential_':
            args[0].copy_(torch.tensor(h.draw('exponential', tuple(args[0].shape), 0, 4)))
            return args[0]
        if nm == 'normal':
            m, s = args[0], args[1]
            ref = m if isinstance(m, torch.Tensor) else s
            if isinstance(ref, torch.Tensor):
                sh = torch.broadcast_shapes(*[v.shape for v in (m, s) if isinstance(v, torch.Tensor)])
                return (m + s * torch.tensor(h.draw('normal', tuple(sh), None, None))).to(ref.dtype)
            return (m + s * torch.tensor(h.draw('normal', tuple(args[2]), None, None))).to(kwargs.get('dtype') or torch.get_default_dtype())
        if nm == 'bernoulli_':
            args[0].copy_(torch.tensor(h.draw('bernoulli', tuple(args[0].shape), 0, 1)))
            return args[0]
        if nm == 'bernoulli':
            return torch.tensor(h.draw('bernoulli', tuple(args[0].shape), 0, 1)).to(args[0].dtype)
        if nm == 'randint':
            hi, lo, size = (args[0], 0, args[1]) if len(args) == 2 else (args[1], args[0], args[2])
            d = h.draw('randint', tuple(size), 0, 1)
            return torch.tensor(np.floor(lo + d * (hi - lo - 1e-9))).to(kwargs.get('dtype') or torch.int64)
        if nm == 'randperm':
            return torch.arange(args[0])
        return func(*args, **kwargs)


# ----------------------------------------------------------------- the explorer
class Result:
    def __init__(self):
        self.violations = []     # dicts
        self.inconclusive = []
        self.stats = Stats()


REPO_PREFIX = None


def _profiler(stats):
    import os
    from . import runner
    root = os.path.join(runner.REPO, 'torchdyn') + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(root):
                stats.functions.add(f[len(root):] + ':' + frame.f_code.co_qualname)
    return prof


class Explorer:
    def __init__(self, case, budget_s, stats=None, branch_ms=1500, assert_ms=20000, eq_ms=4000, max_paths=4000, seed=0, simple=False, shard=None):
        self.case = case
        self.shard = shard          # (index, count) or None
        self.stats = stats or Stats()
        self.deadline = time.time() + budget_s
        self.branch_ms, self.assert_ms, self.eq_ms = branch_ms, assert_ms, eq_ms
        self.max_paths = max_paths
        self.seed = seed
        self.simple = simple
        self.picked = {}

    def first(self, eng):
        return True

    def explore(self):
        """Run the harness over every feasible path. Yields outcome tuples."""
        todo = [[]]
        self.npaths = 0
        while todo:
            prefix = todo.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                yield ('inconclusive', f'more than {self.max_paths} paths', None, None)
                return
            if time.time() > self.deadline:
                yield ('inconclusive', 'time budget exhausted', None, None)
                return
            out = self.run_path(prefix)
            kind, eng = out[0], out[2]
            if eng is not None and kind != 'skipped' and not eng.mine():
                kind = 'skipped'
                if out[0] in ('ok', 'truncated', 'violation'):
                    self.stats.paths -= 1
            # schedule the alternatives opened on this path
            if eng is not None:
                for i in range(len(prefix), len(eng.stack)):
                    c, alt = eng.stack[i]
                    if alt:
                        todo.append(eng.stack[:i] + [(not c, True)])
            if kind != 'skipped':
                yield out

    SHARD_DEPTH = 7

    def run_path(self, prefix):
        eng = Engine(self, prefix)
        E.set_ctx(eng.ctx)
        T.EXACT32[0] = False
        h = H(eng, self.stats)
        T.RNG[0] = lambda kind, shape, lo, hi: _sym_draw(eng, kind, shape, lo, hi)
        old_prof = sys.getprofile()
        res = None
        try:
            with warnings.catch_warnings(), T.SymMode(), T.SymFnMode(), _quiet():
                warnings.simplefilter('ignore')
                if self.npaths <= 3 or self.npaths % 64 == 0:
                    sys.setprofile(_profiler(self.stats))
                try:
                    self.case.fn(h)
                finally:
                    sys.setprofile(old_prof)
            self.stats.paths += 1
            res = ('ok', None, eng, h)
        except Skipped:
            res = ('skipped', None, eng, h)
        except Infeasible:
            self.stats.infeasible += 1
            res = ('infeasible', None, eng, h)
        except Truncated as e:
            self.stats.paths += 1
            res = ('truncated', str(e), eng, h)
        except Violation as v:
            self.stats.paths += 1
            res = ('violation', v, eng, h)
        except Inconclusive as e:
            res = ('inconclusive', str(e), eng, h)
        except Unsupported as e:
            res = ('inconclusive', 'unsupported: ' + str(e) + '\n' + _tb(e), eng, h)
        except RecursionError as e:
            res = ('inconclusive', 'recursion: ' + _tb(e), eng, h)
        except Exception as e:
            # the code under test raised on this path
            try:
                if not _from_repo(e):
                    raise Inconclusive('the harness itself failed')
                h.fail(f'exception {type(e).__name__}: {e}')
            except Violation as v:
                v.detail['exception'] = _tb(e)
                v.detail['exc_type'] = type(e).__name__
                self.stats.paths += 1
                res = ('violation', v, eng, h)
            except Infeasible:
                self.stats.infeasible += 1
                res = ('infeasible', None, eng, h)
            except Inconclusive as ee:
                res = ('inconclusive', str(ee) + '\n' + _tb(e), eng, h)
        finally:
            sys.setprofile(old_prof)
            T.RNG[0] = None
        return res


def _from_repo(e):
    from . import runner
    root = os.path.join(runner.REPO, '')
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-7:])


class _quiet:
    """Swallow prints of the code under test (informational messages)."""

    def __enter__(self):
        import io
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


def _sym_draw(eng, kind, shape, lo, hi):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        eng.rng_n += 1
        if kind == 'bernoulli':
            v = eng.ctx.var(f'rng{eng.rng_n}', F0, F1)
            out[i] = F1 if eng.decide(E.cmp('<', Fraction(1, 2), v)) else F0
        elif kind == 'randint':
            raise Unsupported('symbolic randint')
        else:
            out[i] = eng.ctx.var(f'rng{eng.rng_n}', lo, hi)
    return out


def replay(case, model, seed=0, tolscale=10.0, timeout=60):
    """Run the harness concretely. Returns ('ok'|'fail'|'skip', message, trace)."""
    import signal
    h = ConcreteH(model or {'vars': {}, 'ufs': {}}, seed=seed, tolscale=tolscale)
    old = E.CTX
    E.set_ctx(None)

    def onalarm(*a):
        raise ReplayFailure(f'no result within {timeout} s (non-termination)')
    prev = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings(), _quiet(), _ReplayRNG(h):
            warnings.simplefilter('ignore')
            case.fn(h)
        return 'ok', None, h
    except ReplayFailure as e:
        return 'fail', e.msg, h
    except Truncated as e:
        # the path ends at a bound: everything asserted before it held
        return ('ok' if h.nchecks else 'skip'), str(e), h
    except Infeasible as e:
        return 'skip', str(e), h
    except Exception as e:
        if not _from_repo(e):
            return 'skip', f'harness error {type(e).__name__}: {e}' + _tb(e), h
        return 'fail', f'exception {type(e).__name__}: {e}', h
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, prev)
        E.set_ctx(old)
