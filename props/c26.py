"""C26: synthetic datasets have the documented geometry, sizes and labels."""
import math
import numpy as np
from symtorch import tensor as T, elem as E
from symtorch.runner import Suite
import torchdyn.datasets.static_datasets as sd
from .common import *

SUITE = Suite('C26', assumptions=['random draws are independent standard normal / uniform variables; the geometry is decided for every value of the draws',
                                  'single-precision constants (angles) are read to within 1e-5'])
PI = math.pi


class Draws:
    """Random draws that can be replayed: the same symbolic values for a second call of a generator."""
    def __init__(self, H):
        self.H = H
        self.c = H.e if H.symbolic else H
        self.n0 = self.c.rng_n
        self.last = 0

    def __call__(self, fn):
        self.c.rng_n = self.n0
        with Numpy(self.H):
            r = fn()
        self.last = max(self.last, self.c.rng_n)
        return r

    def values(self):
        """Every draw made, as scalars."""
        if self.H.symbolic:
            return [self.c.ctx.var(f'rng{k}') for k in range(self.n0 + 1, self.last + 1)]
        return [self.c._get(f'rng{k}', -1, 1) for k in range(self.n0 + 1, self.last + 1)]


class Numpy:
    """numpy of the module on symbolic arrays: draws, sin, cos, sqrt and the conversion to tensors."""
    def __init__(self, H):
        self.H = H

    def __enter__(self):
        H = self.H

        def draw(kind, shape, lo, hi):
            if H.symbolic:
                return T._draw(kind, tuple(shape), lo, hi)
            return H.draw(kind, tuple(shape), lo, hi)

        class Random:
            rand = staticmethod(lambda *s: draw('uniform', s, E.F0, E.F1))
            randn = staticmethod(lambda *s: draw('normal', s, None, None))
            random_sample = random = staticmethod(lambda size=(): draw('uniform', size if isinstance(size, tuple) else (size,), E.F0, E.F1))

            @staticmethod
            def uniform(low=0., high=1., size=()):
                return low + (high - low) * draw('uniform', size if isinstance(size, tuple) else (size,), E.F0, E.F1)

            @staticmethod
            def normal(loc=0., scale=1., size=()):
                return loc + scale * draw('normal', size if isinstance(size, tuple) else (size,), None, None)

            def __getattr__(self, k):
                raise T.Unsupported(f'np.random.{k}')

        def el(name, f):
            def g(x):
                x = np.asarray(x)
                if x.dtype != object:
                    return f(x)
                out = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    out[i] = E.sqrt(x[i]) if name == 'sqrt' else E.fn(name, x[i])
                return out
            return g

        def obj(x):
            return x.astype(object) if H.symbolic else x

        class Np:
            random = Random()
            vstack, hstack, append, concatenate, stack = (staticmethod((lambda f: lambda *a, **k: obj(f(*a, **k)))(getattr(np, k))) for k in ('vstack', 'hstack', 'append', 'concatenate', 'stack'))
            sin, cos, sqrt = staticmethod(el('sin', np.sin)), staticmethod(el('cos', np.cos)), staticmethod(el('sqrt', np.sqrt))

            def __getattr__(self, k):
                return getattr(np, k)

        def tensor(data, *a, **k):
            if isinstance(data, torch.Tensor):
                return data
            if isinstance(data, np.ndarray) and data.dtype == object:
                return T.make(T.cast(_lift(data), torch.float32), torch.float32)
            if isinstance(data, (list, tuple)) and any(isinstance(v, T.SymTensor) for v in data):
                return torch.stack([torch.as_tensor(v).reshape(()) for v in data]).float()
            return torch.Tensor(data)

        class Torch:
            Tensor = staticmethod(tensor)
            FloatTensor = staticmethod(tensor)
            from_numpy = staticmethod(lambda x: tensor(x).double())

            def __getattr__(self, k):
                return getattr(torch, k)
        self.saved = {k: getattr(sd, k) for k in ('np', 'torch', 'Tensor') if hasattr(sd, k)}
        if H.symbolic:
            sd.np, sd.torch, sd.Tensor = Np(), Torch(), tensor
        else:
            n = Np()
            n.__class__.sin, n.__class__.cos, n.__class__.sqrt = map(staticmethod, (np.sin, np.cos, np.sqrt))
            sd.np = n
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(sd, k, v)


def _lift(a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = a[i] if isinstance(a[i], E.Poly) else T.sc(float(a[i]))
    return out


def raw(H, s):
    """The scalar as numpy code sees it."""
    return np.array(T.arr(s).reshape(-1)[0], dtype=object) if H.symbolic else float(s)


def const(H, rows):
    return torch.tensor(rows, dtype=torch.float64)


def fresh(H, draws, w, clean, msg, rows=True):
    """Every entry of w is a draw of its own, and the clean data does not depend on it."""
    vals = draws.values()
    used = []
    flat = list(w.reshape(-1))
    for v in flat:
        if H.symbolic:
            p = T.arr(v).reshape(-1)[0]
            k = [j for j, r in enumerate(vals) if _same(p, r)]
        else:
            k = [j for j, r in enumerate(vals) if abs(float(v) - float(r)) < 1e-3]
        H.check(len(k) >= 1, f'{msg}: not a random draw')
        used.append(k[0] if H.symbolic else k)
    if H.symbolic:
        H.check(len(set(used)) == len(used), f'{msg}: entries share a draw')
        for c in clean.reshape(-1):
            H.check(not ({i for i in _atoms(T.arr(c).reshape(-1)[0])} & {list(vals[u].t)[0][0][0] for u in used}), f'{msg}: noise depends on the clean data')


def _same(p, r):
    """p is the draw r, up to rounded coefficients."""
    if not isinstance(p, E.Poly):
        return False
    (m, _), = r.t.items()
    return abs(p.t.get(m, 0) - 1) < 1e-6 and all(abs(c) < 1e-6 for k, c in p.t.items() if k != m)


def _atoms(p, seen=None):
    out = set()
    if isinstance(p, E.Poly):
        for m in p.t:
            for aid, _ in m:
                out.add(aid)
                for a in E.CTX.atoms[aid].args:
                    out |= _atoms(a)
    return out


def labels(H, y, want):
    H.check_shape(y, (len(want),), 'labels')
    H.check_eq(y.double(), const(H, [float(v) for v in want]), 'labels')


# ---------------------------------------------------------------- spheres
def spheres(H, n, dim, default_radii=False):
    kw = {} if default_radii else dict(inner_radius=H.scalar('ri', 0.1, 3), outer_radius=H.scalar('ro', 0.1, 3))
    ri, ro = kw.get('inner_radius', 0.5), kw.get('outer_radius', 1)
    s = 0.25
    dr = Draws(H)
    X, y = dr(lambda: sd.generate_concentric_spheres(n, 0., dim, **kw))
    H.check_shape(X, (n, dim), 'points')
    labels(H, y, [1] * (n // 2) + [0] * (n - n // 2))
    r2 = (X.double() ** 2).sum(1)
    for i in range(n):
        H.check_eq(r2[i], (ri if i < n // 2 else ro) ** 2 + 0 * r2[i], 'point off its sphere', tol=1e-5)
    Xn, yn = dr(lambda: sd.generate_concentric_spheres(n, s, dim, **kw))
    labels(H, yn, [1] * (n // 2) + [0] * (n - n // 2))
    fresh(H, dr, (Xn - X) / s, X, 'noise')


for n in (2, 3, 4, 5):
    for dim in (1, 2, 3, 4):
        SUITE.case(f'spheres-{n}-{dim}', bounds=f'{n} points in {dim} dimensions, any radii, noise and draws')(lambda H, a=(n, dim): spheres(H, *a))
for n, dim in ((7, 2), (9, 3), (12, 5)):
    SUITE.case(f'spheres-{n}-{dim}', bounds=f'{n} points in {dim} dimensions, any radii, noise and draws', tier='thorough')(lambda H, a=(n, dim): spheres(H, *a))
SUITE.case('spheres-default', bounds='default radii')(lambda H: spheres(H, 4, 3, True))


@SUITE.case('randnsphere', bounds='dimensions 1 to 4, any radius and draws')
def _(H):
    d = H.choose('dim', 4) + 1
    r = H.scalar('r', 0.1, 3)
    v = Draws(H)(lambda: sd.randnsphere(d, r))
    H.check_shape(v, (d,), 'point')
    H.check_eq((v.double() ** 2).sum(), r ** 2, 'point off the sphere', tol=1e-5)


# ---------------------------------------------------------------- moons
def moons(H, n, none=False):
    s = H.scalar('noise', 0.01, 1)
    dr = Draws(H)
    X, y = dr(lambda: sd.generate_moons(n, None if none else 0.))
    X = X.double()
    no = n // 2
    H.check_shape(X, (n, 2), 'points')
    labels(H, y, [0] * no + [1] * (n - no))
    for i in range(n):
        m, k = (no, i) if i < no else (n - no, i - no)
        a = PI * k / (m - 1) if m > 1 else 0.
        want = (math.cos(a), math.sin(a)) if i < no else (1 - math.cos(a), .5 - math.sin(a))
        H.check_eq(X[i] + 0 * s, const(H, want), 'point off its half moon', tol=1e-6)
    if not none:
        Xn, yn = dr(lambda: sd.generate_moons(n, raw(H, s)))
        D = Xn.double() - X
        H.check_eq(D[:, 0], D[:, 1], 'noise moves along the diagonal', tol=1e-5)
        H.check((D >= -1e-5).all() & (D <= s + 1e-5).all(), 'noise exceeds its bound')
        fresh(H, dr, D[:, 0] / s, X, 'noise')


for n in range(1, 9):
    SUITE.case(f'moons-{n}', bounds=f'{n} points, any noise and draws')(lambda H, n=n: moons(H, n))
SUITE.case('moons-none', bounds='no noise')(lambda H: moons(H, 7, True))


# ---------------------------------------------------------------- spirals
def spirals(H, n):
    s = H.scalar('noise', 0.01, 1)
    dr = Draws(H)
    X, y = dr(lambda: sd.generate_spirals(n, 0.))
    H.check_shape(X, (2 * n, 2), 'points')
    labels(H, y, [0] * n + [1] * n)
    X = X.double()
    c = 780 * 2 * PI / 360
    vals = dr.values()[:n]
    for i in range(n):
        if H.symbolic:
            p = E.sqrt(vals[i]) * T.sc(780.) * T.sc(2 * np.pi) / T.sc(360.)
            want = np.array([-E.fn('cos', p) * p, E.fn('sin', p) * p], dtype=object)
            want = T.make(want, torch.float64)
        else:
            p = math.sqrt(vals[i]) * c
            want = const(H, [-math.cos(p) * p, math.sin(p) * p])
        H.check_eq(X[i], want, 'point off its arm', tol=1e-5)
    H.check_eq(X[n:], -X[:n], 'second arm is not the reflection of the first', tol=1e-5)
    Xn, yn = dr(lambda: sd.generate_spirals(n, raw(H, s)))
    Xn = Xn.double()
    D = Xn - X
    H.check_eq(Xn[n:], -Xn[:n], 'second arm is not the reflection of the first', tol=1e-5)
    H.check((D[:n] >= -1e-5).all() & (D[:n] <= s + 1e-5).all(), 'noise exceeds its bound')
    fresh(H, dr, D[:n] / s, X, 'noise')


for n in (1, 2, 3):
    SUITE.case(f'spirals-{n}', bounds=f'{n} points an arm, any noise and draws')(lambda H, n=n: spirals(H, n))


# ---------------------------------------------------------------- Gaussians
def gaussians(H, n, k, dim):
    r, s, e = H.scalar('radius', 0.1, 3), H.scalar('std', 0.01, 1), H.scalar('noise', 0.01, 1)
    dr = Draws(H)
    gen = lambda std, noise: dr(lambda: sd.generate_gaussians(n, k, dim, r, std, noise))
    ring(H, n, k, dim, gen, s, e, dr, [r] * k, [s] * k, k)


def ring(H, n, k, dim, gen, s, e, dr, radii, stds, loop):
    X1, y = gen(s, 0 * e)
    H.check_shape(X1, (n * k, dim), 'points')
    labels(H, y, [i for i in range(k) for _ in range(n)])
    X2, _ = gen(2 * s, 0 * e)
    X1, X2 = X1.double(), X2.double()
    C = 2 * X1 - X2                                 # centres
    for i in range(k):
        for j in range(n):
            a = 2 * PI * (i + 1) / loop             # up to the choice of the first direction
            want = torch.stack([radii[i] * math.cos(a), radii[i] * math.sin(a)] + [0 * s] * (dim - 2))
            H.check_eq(C[i * n + j], want, f'centre of Gaussian {i}', tol=1e-5)
    W = X2 - X1
    W = torch.stack([W[i * n + j] / stds[i] for i in range(k) for j in range(n)])
    fresh(H, dr, W, C, 'deviations from the centre')
    X3, _ = gen(s, e)
    D = (X3.double() - X1) / e
    fresh(H, dr, D[::n], torch.cat([C, X1]), 'noise')
    for i in range(k):
        for j in range(1, n):
            H.check_eq(D[i * n + j], D[i * n], 'noise differs in scale within a Gaussian', tol=1e-4)


for n, k, dim in ((1, 1, 2), (2, 3, 2), (1, 5, 2), (2, 2, 3), (1, 3, 4), (3, 2, 2), (1, 7, 2)):
    SUITE.case(f'gaussians-{n}-{k}-{dim}', bounds=f'{k} Gaussians of {n} points in {dim} dimensions, any radius, spread, noise and draws')(lambda H, a=(n, k, dim): gaussians(H, *a))


def gspiral(H, n, k, loop, dim, r0=1., r1=.2, f=3.):
    s, e = H.scalar('std', 0.01, 1), H.scalar('noise', 0.01, 1)
    dr = Draws(H)
    lin = lambda a, b, i: a + (b - a) * (i / (k - 1) if k > 1 else 0.)
    gen = lambda std, noise: dr(lambda: sd.generate_gaussians_spiral(n, k, loop, dim, r0, r1, std, std * f, noise))
    ring(H, n, k, dim, gen, s, e, dr, [torch.as_tensor(lin(r0, r1, i)) + 0 * s for i in range(k)], [s * lin(1., f, i) for i in range(k)], loop)


for n, k, loop, dim in ((1, 1, 1, 2), (2, 3, 2, 2), (1, 5, 4, 2), (2, 2, 3, 3), (1, 4, 2, 4), (1, 7, 4, 2)):
    SUITE.case(f'gspiral-{n}-{k}-{loop}-{dim}', bounds=f'{k} Gaussians of {n} points in {dim} dimensions, {loop} a loop, radii 1 to 0.2, any spread, noise and draws')(lambda H, a=(n, k, loop, dim): gspiral(H, *a))
SUITE.case('gspiral-out', bounds='growing radii and shrinking spread')(lambda H: gspiral(H, 1, 4, 3, 2, 0.5, 2., 0.25))


# ---------------------------------------------------------------- dispatcher
def toy(H, kind, direct, n, kw):
    dr = Draws(H)
    a, b = dr(lambda: sd.ToyDataset().generate(n, kind, **kw)), dr(lambda: direct(n_samples=n, **kw))
    H.check_shape(a[0], tuple(b[0].shape), 'points')
    H.check_eq(a[0].double(), b[0].double(), f'{kind} points')
    H.check_eq(a[1].double(), b[1].double(), f'{kind} labels')


for kind, fn, n, kw in (('moons', 'generate_moons', 5, dict(noise=0.1)), ('spirals', 'generate_spirals', 2, dict(noise=0.1)),
                        ('spheres', 'generate_concentric_spheres', 4, dict(noise=0.1, dim=2, inner_radius=0.3, outer_radius=2)),
                        ('gaussians', 'generate_gaussians', 2, dict(n_gaussians=3, dim=3, radius=2., std_gaussians=0.2, noise=0.1)),
                        ('gaussians_spiral', 'generate_gaussians_spiral', 2, dict(n_gaussians=3, n_gaussians_per_loop=2, dim=2, noise=0.1))):
    SUITE.case(f'toy-{kind}', bounds='any draws')(lambda H, a=(kind, fn, n, kw): toy(H, a[0], getattr(sd, a[1]), *a[2:]))


# larger structures
SUITE.case('moons-23', bounds='23 points, any noise and draws')(lambda H: moons(H, 23))
SUITE.case('moons-24', bounds='24 points, any noise and draws')(lambda H: moons(H, 24))
SUITE.case('spirals-12', bounds='12 points an arm, any noise and draws')(lambda H: spirals(H, 12))
for a in ((9, 2, 2), (1, 12, 2), (2, 2, 9)):
    SUITE.case('gaussians-' + '-'.join(map(str, a)), bounds=f'{a[1]} Gaussians of {a[0]} points in {a[2]} dimensions, any radius, spread, noise and draws')(lambda H, a=a: gaussians(H, *a))
for a in ((5, 2, 2, 2), (1, 12, 5, 2)):
    SUITE.case('gspiral-' + '-'.join(map(str, a)), bounds=f'{a[1]} Gaussians of {a[0]} points in {a[3]} dimensions, {a[2]} a loop')(lambda H, a=a: gspiral(H, *a))
SUITE.case('spheres-12-2', bounds='12 points in 2 dimensions, any radii, noise and draws')(lambda H: spheres(H, 12, 2))
SUITE.case('spheres-3-9', bounds='3 points in 9 dimensions, any radii, noise and draws')(lambda H: spheres(H, 3, 9))

contexts(SUITE, r'spheres-3-2|moons-[56]|spirals-2|gaussians-2-3-2|gspiral-2-3-2-2|toy-.*')
