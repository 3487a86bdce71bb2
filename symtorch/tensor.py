"""SymTensor: a torch.Tensor whose elements are symbolic, and the aten kernels over it.

Geometry (shape, strides, aliasing, dtype promotion) is computed by PyTorch itself on
meta tensors; only element values are computed here.  Autograd runs unmodified on top.
"""
import builtins
import math
from fractions import Fraction
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.overrides import TorchFunctionMode
from torch.utils import _pytree as pytree
from . import elem as E
from .elem import Poly, SB, F0, F1, Unsupported, num

aten = torch.ops.aten
FLOATS = (torch.float64, torch.float32, torch.float16, torch.bfloat16)
INTS = (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8)


class Sto:
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data


def _cstride(shape):
    s, out = 1, []
    for d in reversed(shape):
        out.append(s)
        s *= max(d, 1)
    return tuple(reversed(out))


class SymTensor(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, sto, size, stride, offset, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, tuple(size), strides=tuple(stride), storage_offset=offset, dtype=dtype,
            layout=torch.strided, device=torch.device('cpu'), requires_grad=requires_grad)
        r._sto = sto
        return r

    def __repr__(self):
        try:
            return f'Sym({arr(self).tolist()}, {self.dtype})'
        except Exception:
            return f'Sym(<{tuple(self.shape)}>)'

    @property
    def data(self):
        return self.detach()

    @data.setter
    def data(self, v):
        if tuple(v.shape) != tuple(self.shape) or not self.is_contiguous():
            raise Unsupported('assignment to .data of another shape')
        new = make(arr(v).copy(), self.dtype)
        # the new storage starts where this tensor's view starts
        if self.storage_offset():
            raise Unsupported('assignment to .data of a view')
        self._sto = new._sto

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def arr(t):
    """Object-array view of a tensor's elements (writes go to its storage)."""
    if isinstance(t, SymTensor):
        shape, stride, off = tuple(t.shape), t.stride(), t.storage_offset()
        d = t._sto.data
        if 0 in shape:
            return np.empty(shape, dtype=object)
        return np.lib.stride_tricks.as_strided(d[off:], shape, tuple(s * 8 for s in stride))
    return lift_np(t)


_EPS = {torch.float64: 2.220446049250313e-16, torch.float32: 1.1920929e-07, torch.float16: 1e-3, torch.bfloat16: 8e-3}
EXACT32 = [False]
FP_LIFT = [None]    # set by the FP domain: function(float value, dtype) -> element


def lift_np(t):
    with torch._C._DisableTorchDispatch():
        a = t.detach()
        if a.dtype == torch.bfloat16:
            a = a.float()
        a = a.numpy()
    out = np.empty(a.shape, dtype=object)
    if t.dtype in FLOATS:
        eps = _EPS[t.dtype]
        if EXACT32[0] and t.dtype != torch.float64:
            eps = 2.3e-16
        fl = FP_LIFT[0]
        for i, v in np.ndenumerate(a):
            out[i] = fl(float(v), t.dtype) if fl else E.snap(float(v), eps)
    elif t.dtype == torch.bool:
        for i, v in np.ndenumerate(a):
            out[i] = bool(v)
    elif t.dtype in INTS:
        for i, v in np.ndenumerate(a):
            out[i] = int(v)
    else:
        raise Unsupported(f'dtype {t.dtype}')
    return out


def make(a, dtype, requires_grad=False):
    """A fresh contiguous SymTensor holding the elements of the object array a."""
    a = np.asarray(a, dtype=object)
    d = np.empty(builtins.max(a.size, 1), dtype=object)
    if a.size:
        d[:] = a.reshape(-1)
    else:
        d[0] = F0
    return SymTensor(Sto(d), a.shape, _cstride(a.shape), 0, dtype, requires_grad)


def lift(t):
    return t if isinstance(t, SymTensor) else make(lift_np(t), t.dtype)


def cast1(v, dtype):
    if dtype in FLOATS:
        if isinstance(v, (Poly, Fraction, E._Inf)):
            return v
        if hasattr(v, '_fp'):
            return v.to_dtype(dtype)
        if FP_LIFT[0] is not None:
            if isinstance(v, SB):
                v = bool(v)
            return FP_LIFT[0](float(v), dtype)
        if isinstance(v, float) and dtype in _EPS:
            return E.snap(v)
        return num(v)
    if dtype == torch.bool:
        if isinstance(v, (bool, SB)):
            return v
        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, int):
            return v != 0
        return E.bnot(E.cmp('==', v, F0))
    if dtype in INTS:
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return math.trunc(v)
        if isinstance(v, SB):
            return int(v)
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, Poly):
            return int(_round(math.trunc, v))
        raise Unsupported('integer cast of a symbolic float')
    raise Unsupported(f'dtype {dtype}')


def cast(a, dtype):
    if a.size == 0:
        return a
    return _ufn(lambda v: cast1(v, dtype), a)


def _ufn(f, *arrs):
    r = np.frompyfunc(f, len(arrs), 1)(*[np.asarray(x, dtype=object) for x in arrs])
    if not isinstance(r, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = r
        return o
    return r


# ----------------------------------------------------------------------- kernels
K = {}          # packet name -> kernel(np args) -> np / tuple of np
SPECIAL = {}    # packet name -> handler(func, args, kwargs) on tensors


def kern(*names):
    def d(f):
        for n in names:
            K[n] = f
        return f
    return d


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return d


def sc(v):
    """Python scalar operand -> element."""
    if isinstance(v, float):
        return FP_LIFT[0](v, torch.float64) if FP_LIFT[0] else E.snap(v)
    return v


def o(v):
    a = np.empty((), dtype=object)
    a[()] = sc(v)
    return a


def A(v):
    return v if isinstance(v, np.ndarray) else o(v)


def _n(v):
    return int(v) if isinstance(v, bool) else (num(v) if isinstance(v, SB) else v)


def _truediv(a, b):
    a, b = _n(a), _n(b)
    if hasattr(a, '_fp') or hasattr(b, '_fp'):
        return a / b
    return E.div(a, b)


def _mulf(a, b):
    if isinstance(a, SB) and isinstance(b, (bool, SB)) or isinstance(b, SB) and isinstance(a, bool):
        return E.band(a, b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return _n(a) * _n(b)


@kern('add')
def _(a, b, alpha=1):
    b = A(b)
    if alpha != 1:
        b = _ufn(lambda y: _n(y) * sc(alpha), b)
    return _ufn(lambda x, y: _n(x) + _n(y), A(a), b)


@kern('sub', 'subtract')
def _(a, b, alpha=1):
    b = A(b)
    if alpha != 1:
        b = _ufn(lambda y: _n(y) * sc(alpha), b)
    return _ufn(lambda x, y: _n(x) - _n(y), A(a), b)


@kern('rsub')
def _(a, b, alpha=1):
    return _ufn(lambda x, y: _n(y) - _n(x) * sc(alpha), A(a), A(b))


@kern('mul', 'multiply')
def _(a, b):
    return _ufn(_mulf, A(a), A(b))


@kern('div', 'true_divide', 'divide')
def _(a, b, rounding_mode=None):
    if rounding_mode is None:
        return _ufn(_truediv, A(a), A(b))
    f = math.floor if rounding_mode == 'floor' else math.trunc
    return _ufn(lambda x, y: _quotient(f, x, y), A(a), A(b))


def _quotient(f, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return f(Fraction(x, y))
    if hasattr(x, '_fp') or hasattr(y, '_fp'):
        raise Unsupported('integer quotient of a floating-point value')
    return _round(f, E.num(x) / E.num(y))


@kern('floor_divide')
def _(a, b):
    return _ufn(lambda x, y: _quotient(math.floor, x, y), A(a), A(b))


@kern('remainder')
def _(a, b):
    return _ufn(lambda x, y: x - y * _quotient(math.floor, x, y), A(a), A(b))


@kern('fmod')
def _(a, b):
    return _ufn(lambda x, y: x - y * _quotient(math.trunc, x, y), A(a), A(b))


def e_abs(x):
    return x.abs() if hasattr(x, '_fp') else (abs(x) if isinstance(x, int) else E.absval(x))


def e_sqrt(x):
    return x.sqrt() if hasattr(x, '_fp') else E.sqrt(x)


def e_pow(x, y):
    if hasattr(x, '_fp') or hasattr(y, '_fp'):
        return x ** y if hasattr(x, '_fp') else y.rpow(x)
    if isinstance(x, int) and isinstance(y, int) and y >= 0:
        return x ** y
    return E.power(x, y)


def e_max(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return builtins.max(x, y)
    if hasattr(x, '_fp') or hasattr(y, '_fp'):
        return x.max(y) if hasattr(x, '_fp') else y.max(x)
    return E.fmax(x, y)


def e_min(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return builtins.min(x, y)
    if hasattr(x, '_fp') or hasattr(y, '_fp'):
        return x.min(y) if hasattr(x, '_fp') else y.min(x)
    return E.fmin(x, y)


def e_lt(x, y): return _n(x) < _n(y)
def e_le(x, y): return _n(x) <= _n(y)
def e_eq(x, y): return _n(x) == _n(y)


def _un(name, f):
    K[name] = lambda a: _ufn(f, A(a))


def _transc(name):
    def f(x):
        if hasattr(x, '_fp'):
            return x.opaque(name)
        return E.fn(name, x)
    _un(name, f)


_un('neg', lambda x: -_n(x))
K['negative'] = K['neg']
_un('positive', lambda x: x)
_un('abs', e_abs)
_un('sqrt', e_sqrt)
_un('rsqrt', lambda x: _truediv(F1, e_sqrt(x)))
_un('reciprocal', lambda x: _truediv(F1, x))
_un('square', lambda x: x * x)
_un('relu', lambda x: e_max(x, F0 if not isinstance(x, int) else 0))
for _nm in ('exp', 'log', 'sin', 'cos', 'tanh', 'sigmoid', 'erf', 'atan'):
    _transc(_nm)
_un('tan', lambda x: _truediv(E.fn('sin', x), E.fn('cos', x)))
_un('expm1', lambda x: E.fn('exp', x) - 1)
_un('log1p', lambda x: E.fn('log', x + 1))
_un('log2', lambda x: E.fn('log', x) / E.snap(math.log(2)))
_un('sinh', lambda x: (E.fn('exp', x) - E.fn('exp', -x)) / 2)
_un('cosh', lambda x: (E.fn('exp', x) + E.fn('exp', -x)) / 2)
_un('floor', lambda x: _round(math.floor, x))
_un('ceil', lambda x: _round(math.ceil, x))
_un('trunc', lambda x: _round(math.trunc, x))
_un('round', lambda x: _round(round, x))
_un('isnan', lambda x: x.isnan() if hasattr(x, '_fp') else False)
_un('isinf', lambda x: x.isinf() if hasattr(x, '_fp') else False)
_un('isfinite', lambda x: E.bnot(E.bor(x.isinf(), x.isnan())) if hasattr(x, '_fp') else True)
_un('logical_not', lambda x: E.bnot(cast1(x, torch.bool)))
_un('bitwise_not', lambda x: E.bnot(x) if isinstance(x, (bool, SB)) else ~x)
_un('signbit', lambda x: e_lt(x, 0))


def _round(f, x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return Fraction(f(x))
    if hasattr(x, '_fp'):
        return x.round(f)
    g = E.ctx().engine.floor
    if f is math.floor:
        return g(x)
    if f is math.ceil:
        return -g(-x)
    if f is math.trunc:
        return g(x) if E.ctx().engine.decide(e_le(F0, x)) else -g(-x)
    n = g(x + Fraction(1, 2))
    return n - 1 if n % 2 and E.ctx().engine.decide(E.cmp('==', x + Fraction(1, 2), n)) else n


@kern('sign', 'sgn')
def _(a):
    def f(x):
        if isinstance(x, Fraction) or isinstance(x, int):
            return (x > 0) - (x < 0)
        return E.ite(E.cmp('<', F0, x), F1, E.ite(E.cmp('<', x, F0), -F1, F0))
    return _ufn(f, A(a))


@kern('softplus')
def _(a, beta=1, threshold=20):
    b = sc(beta)
    return _ufn(lambda x: E.fn('softplus', x * b) / b, A(a))


@kern('softplus_backward')
def _(g, a, beta, threshold):
    b = sc(beta)
    return _ufn(lambda gg, x: gg * E.fn('sigmoid', x * b), A(g), A(a))


@kern('silu')
def _(a):
    return _ufn(lambda x: x * E.fn('sigmoid', x), A(a))


@kern('tanh_backward')
def _(g, y):
    return _ufn(lambda gg, yy: gg * (1 - yy * yy), A(g), A(y))


@kern('sigmoid_backward')
def _(g, y):
    return _ufn(lambda gg, yy: gg * yy * (1 - yy), A(g), A(y))


@kern('threshold_backward')
def _(g, x, th):
    return _ufn(lambda gg, v: E.ite(E.cmp('<=', v, sc(th)), F0, gg), A(g), A(x))


@kern('pow')
def _(a, b):
    return _ufn(e_pow, A(a), A(b))


K['float_power'] = K['pow']


@kern('maximum', 'fmax')
def _(a, b):
    return _ufn(e_max, A(a), A(b))


@kern('minimum', 'fmin')
def _(a, b):
    return _ufn(e_min, A(a), A(b))


@kern('clamp', 'clip')
def _(a, min=None, max=None):
    r = A(a)
    if min is not None:
        r = _ufn(e_max, r, A(min))
    if max is not None:
        r = _ufn(e_min, r, A(max))
    return r


@kern('clamp_min')
def _(a, m):
    return _ufn(e_max, A(a), A(m))


@kern('clamp_max')
def _(a, m):
    return _ufn(e_min, A(a), A(m))


@kern('lt', 'less')
def _(a, b): return _ufn(e_lt, A(a), A(b))


@kern('le', 'less_equal')
def _(a, b): return _ufn(e_le, A(a), A(b))


@kern('gt', 'greater')
def _(a, b): return _ufn(e_lt, A(b), A(a))


@kern('ge', 'greater_equal')
def _(a, b): return _ufn(e_le, A(b), A(a))


@kern('eq')
def _(a, b): return _ufn(e_eq, A(a), A(b))


@kern('ne', 'not_equal')
def _(a, b): return _ufn(lambda x, y: E.bnot(e_eq(x, y)), A(a), A(b))


@kern('isclose')
def _(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r, t = sc(rtol), sc(atol)
    return _ufn(lambda x, y: e_le(e_abs(x - y), t + r * e_abs(y)), A(a), A(b))


@kern('logical_and')
def _(a, b): return _ufn(lambda x, y: E.band(cast1(x, torch.bool), cast1(y, torch.bool)), A(a), A(b))


@kern('logical_or')
def _(a, b): return _ufn(lambda x, y: E.bor(cast1(x, torch.bool), cast1(y, torch.bool)), A(a), A(b))


def _xor(x, y):
    x, y = cast1(x, torch.bool), cast1(y, torch.bool)
    return E.bor(E.band(x, E.bnot(y)), E.band(E.bnot(x), y))


@kern('logical_xor')
def _(a, b): return _ufn(_xor, A(a), A(b))


@kern('bitwise_and', '__and__')
def _(a, b): return _ufn(lambda x, y: E.band(x, y) if isinstance(x, (bool, SB)) else x & y, A(a), A(b))


@kern('bitwise_or', '__or__')
def _(a, b): return _ufn(lambda x, y: E.bor(x, y) if isinstance(x, (bool, SB)) else x | y, A(a), A(b))


@kern('bitwise_xor', '__xor__')
def _(a, b): return _ufn(lambda x, y: _xor(x, y) if isinstance(x, (bool, SB)) else x ^ y, A(a), A(b))


@kern('hypot')
def _(a, b): return _ufn(lambda x, y: e_sqrt(x * x + y * y), A(a), A(b))


@kern('copysign')
def _(a, b):
    def f(x, y):
        m = e_abs(_n(x))
        neg = e_lt(y, 0)
        return E.ite(neg, -m, m) if isinstance(neg, SB) else (-m if neg else m)
    return _ufn(f, A(a), A(b))


@kern('heaviside')
def _(a, b):
    def f(x, y):
        p, z = e_lt(F0, x), e_eq(x, F0)
        r = E.ite(z, _n(y), F0) if isinstance(z, SB) else (_n(y) if z else F0)
        return E.ite(p, F1, r) if isinstance(p, SB) else (F1 if p else r)
    return _ufn(f, A(a), A(b))


@kern('scatter')
def _(a, dim, idx, src, reduce=None):
    if reduce is not None:
        raise Unsupported('scatter with a reduction')
    r = A(a).copy()
    ix, sv = _idx(idx), np.broadcast_to(A(src), idx.shape) if np.ndim(src) == 0 else src
    for j in np.ndindex(*ix.shape):
        k = list(j)
        k[dim] = int(ix[j])
        r[tuple(k)] = sv[j]
    return r


@kern('masked_scatter')
def _(a, m, src):
    r = np.array(np.broadcast_to(a, np.broadcast_shapes(a.shape, m.shape)), dtype=object)
    m = np.broadcast_to(m, r.shape)
    it = iter(src.reshape(-1))
    for j in np.ndindex(*r.shape):
        if bool(m[j]):
            r[j] = next(it)
    return r


@kern('_cdist_forward')
def _(a, b, p, mode=None):
    if p != 2:
        raise Unsupported('cdist of this order')
    d = a[..., :, None, :] - b[..., None, :, :]
    return _ufn(e_sqrt, (d * d).sum(-1))


@kern('where')
def _(c, a=None, b=None):
    if a is None:
        raise Unsupported('where(cond)')
    return _ufn(lambda k, x, y: E.ite(k, _n(x), _n(y)) if isinstance(k, SB) else (x if k else y), A(c), A(a), A(b))


@kern('masked_fill')
def _(a, m, v):
    return _ufn(lambda x, k, y: E.ite(k, _n(y), _n(x)) if isinstance(k, SB) else (y if k else x), A(a), A(m), A(v))


@kern('lerp')
def _(a, b, w):
    return _ufn(lambda x, y, z: x + z * (y - x), A(a), A(b), A(w))


@kern('addcmul')
def _(a, b, c, value=1):
    return _ufn(lambda x, y, z: x + sc(value) * y * z, A(a), A(b), A(c))


@kern('addcdiv')
def _(a, b, c, value=1):
    return _ufn(lambda x, y, z: x + sc(value) * _truediv(y, z), A(a), A(b), A(c))


# -- reductions
def _axes(a, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(a.ndim))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(d % builtins.max(a.ndim, 1) for d in dim) if a.ndim else ()


def _reduce(a, dim, keepdim, f):
    a = A(a)
    ax = _axes(a, dim)
    keep = [i for i in range(a.ndim) if i not in ax]
    b = np.transpose(a, keep + list(ax)).reshape([a.shape[i] for i in keep] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(b[i]))
    if keepdim:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return out


def _sum(xs):
    r = None
    for x in xs:
        x = int(x) if isinstance(x, SB) else _n(x)     # counting truth values resolves them
        r = x if r is None else r + x
    return 0 if r is None else r


@kern('sum')
def _(a, dim=None, keepdim=False, dtype=None): return _reduce(a, dim, keepdim, _sum)


@kern('mean')
def _(a, dim=None, keepdim=False, dtype=None):
    return _reduce(a, dim, keepdim, lambda xs: _truediv(_sum(xs), _cnum(len(xs), xs)))


def _cnum(n, xs):
    return xs[0].like(n) if xs and hasattr(xs[0], '_fp') else Fraction(n)


@kern('prod')
def _(a, dim=None, keepdim=False, dtype=None):
    def f(xs):
        r = 1
        for x in xs:
            r = _n(x) * r
        return r
    return _reduce(a, dim, keepdim, f)


@kern('any')
def _(a, dim=None, keepdim=False):
    def f(xs):
        r = False
        for x in xs:
            r = E.bor(r, cast1(x, torch.bool))
        return r
    return _reduce(a, dim, keepdim, f)


@kern('all')
def _(a, dim=None, keepdim=False):
    def f(xs):
        r = True
        for x in xs:
            r = E.band(r, cast1(x, torch.bool))
        return r
    return _reduce(a, dim, keepdim, f)


def _fold(f):
    def g(xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


@kern('amax')
def _(a, dim=(), keepdim=False): return _reduce(a, dim, keepdim, _fold(e_max))


@kern('amin')
def _(a, dim=(), keepdim=False): return _reduce(a, dim, keepdim, _fold(e_min))


def _argbest(xs, less):
    """Index of the extreme element; ties and order resolved by forking."""
    k = 0
    for i in range(1, len(xs)):
        if bool(less(xs[k], xs[i])):
            k = i
    return k


@kern('argmax')
def _(a, dim=None, keepdim=False): return _reduce(a, dim, keepdim, lambda xs: _argbest(xs, e_lt))


@kern('argmin')
def _(a, dim=None, keepdim=False): return _reduce(a, dim, keepdim, lambda xs: _argbest(xs, lambda x, y: e_lt(y, x)))


@kern('max')
def _(a, dim=None, keepdim=False):
    if isinstance(dim, np.ndarray):
        return K['maximum'](a, dim)
    if dim is None:
        return _reduce(a, None, False, _fold(e_max))
    idx = _reduce(a, dim, keepdim, lambda xs: _argbest(xs, e_lt))
    return _take(a, dim, keepdim, idx), idx


@kern('min')
def _(a, dim=None, keepdim=False):
    if isinstance(dim, np.ndarray):
        return K['minimum'](a, dim)
    if dim is None:
        return _reduce(a, None, False, _fold(e_min))
    idx = _reduce(a, dim, keepdim, lambda xs: _argbest(xs, lambda x, y: e_lt(y, x)))
    return _take(a, dim, keepdim, idx), idx


def _take(a, dim, keepdim, idx):
    i = idx if keepdim else np.expand_dims(idx, dim)
    r = np.take_along_axis(a, i.astype(np.int64), dim)
    return r if keepdim else np.squeeze(r, dim)


@kern('linalg_vector_norm')
def _(a, ord=2, dim=None, keepdim=False, dtype=None): return _norm(a, ord, dim, keepdim)


def _norm(a, p, dim, keepdim):
    if p is None:
        p = 2
    if p == 2:
        return _reduce(a, dim, keepdim, lambda xs: e_sqrt(_sum([x * x for x in xs])))
    if p == 1:
        return _reduce(a, dim, keepdim, lambda xs: _sum([e_abs(x) for x in xs]))
    if p == float('inf'):
        return _reduce(a, dim, keepdim, lambda xs: _fold(e_max)([e_abs(x) for x in xs]))
    if isinstance(p, (int, float)) and p == int(p) and p > 0:
        return _reduce(a, dim, keepdim, lambda xs: E.power(_sum([E.ipow(e_abs(x), int(p)) for x in xs]), Fraction(1, int(p))))
    raise Unsupported(f'norm {p}')


@kern('norm')
def _(a, p=2, dim=None, keepdim=False, dtype=None): return _norm(a, p, dim, keepdim)


@kern('var')
def _(a, dim=None, unbiased=True, keepdim=False, correction=None):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    c = (1 if unbiased else 0) if correction is None else correction

    def f(xs):
        m = _sum(xs) / Fraction(len(xs))
        return _truediv(_sum([(x - m) * (x - m) for x in xs]), Fraction(len(xs) - c))
    return _reduce(a, dim, keepdim, f)


@kern('std')
def _(*a, **k): return _ufn(e_sqrt, K['var'](*a, **k))


@kern('cumsum')
def _(a, dim, dtype=None):
    a = A(a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        return a.copy()
    x, y = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(*x.shape[:-1]):
        r = None
        for j in range(x.shape[-1]):
            r = _n(x[i][j]) if r is None else r + _n(x[i][j])
            y[i + (j,)] = r
    return out


@kern('cumprod')
def _(a, dim, dtype=None):
    a = A(a)
    out = np.empty(a.shape, dtype=object)
    x, y = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(*x.shape[:-1]):
        r = None
        for j in range(x.shape[-1]):
            r = x[i][j] if r is None else r * x[i][j]
            y[i + (j,)] = r
    return out


# -- linear algebra
def _dot(x, y):
    r = None
    for p, q in zip(x, y):
        if isinstance(p, Fraction) and not p or isinstance(q, Fraction) and not q:
            continue
        v = p * q
        r = v if r is None else r + v
    if r is None:
        return x[0].like(0) if len(x) and hasattr(x[0], '_fp') else F0
    return r


def _mm(a, b):
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = _dot(a[i], b[:, j])
    return out


@kern('mm')
def _(a, b): return _mm(a, b)


@kern('mv')
def _(a, b): return _mm(a, b[:, None])[:, 0]


@kern('dot', 'vdot')
def _(a, b): return o(_dot(a, b))


@kern('bmm')
def _(a, b):
    return np.stack([_mm(x, y) for x, y in zip(a, b)]) if len(a) else np.empty((0, a.shape[1], b.shape[2]), dtype=object)


@kern('addmm')
def _(c, a, b, beta=1, alpha=1):
    r = _mm(a, b)
    if alpha != 1:
        r = r * sc(alpha)
    return _ufn(lambda x, y: sc(beta) * x + y if beta != 1 else x + y, c, r)


@kern('addmv')
def _(c, a, b, beta=1, alpha=1):
    r = _mm(a, b[:, None])[:, 0] * sc(alpha)
    return _ufn(lambda x, y: sc(beta) * x + y, c, r)


@kern('baddbmm')
def _(c, a, b, beta=1, alpha=1):
    r = K['bmm'](a, b) * sc(alpha)
    return _ufn(lambda x, y: sc(beta) * x + y, c, r)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return F1
    if n == 1:
        return a[0, 0]
    r = F0
    for j in range(n):
        if isinstance(a[0, j], Fraction) and a[0, j] == 0:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (-1) ** j * a[0, j] * _det(minor)
    return r


def _inv(a):
    n = a.shape[0]
    if n > 4:
        raise Unsupported('inverse of a matrix larger than 4x4')
    d = _det(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = _det(np.delete(np.delete(a, j, 0), i, 1))
            out[i, j] = E.div((-1) ** (i + j) * num(c), d)
    return out


def _batched(f, a, *rest):
    lead = a.shape[:-2]
    if not lead:
        return f(a, *rest)
    out = None
    for i in np.ndindex(*lead):
        r = f(a[i], *[x[i] for x in rest])
        if out is None:
            out = np.empty(lead + r.shape, dtype=object)
        out[i] = r
    return out


@special('linalg_inv_ex', 'linalg_inv', 'inverse', 'linalg_pinv', 'pinverse')
def _(func, args, kwargs):
    a = args[0]
    if a.shape[-1] != a.shape[-2]:
        raise Unsupported('pseudo-inverse of a non-square matrix')
    r = make(_batched(_inv, arr(a)), a.dtype)
    if func._overloadpacket._qualified_op_name.endswith('inv_ex'):
        return r, make(np.full(a.shape[:-2], 0, dtype=object), torch.int32)
    return r


@special('_linalg_det')
def _(func, args, kwargs):
    a = args[0]
    v = arr(a)
    lead = v.shape[:-2]
    out = np.empty(lead, dtype=object)
    for i in np.ndindex(*lead):
        out[i] = _det(v[i])
    return make(out, a.dtype), make(v.copy(), a.dtype), make(np.zeros(v.shape[:-1], dtype=object), torch.int32)


def _solve(a, b):
    return _mm(_inv(a), b if b.ndim == 2 else b[:, None]) if b.ndim == 2 else _mm(_inv(a), b[:, None])[:, 0]


@kern('convolution')
def _(x, w, b, stride, padding, dilation, transposed, output_padding, groups):
    if transposed or groups != 1:
        raise Unsupported('transposed/grouped convolution')
    nd = x.ndim - 2
    stride = list(stride) * (nd if len(stride) == 1 else 1)
    padding = list(padding) * (nd if len(padding) == 1 else 1)
    dilation = list(dilation) * (nd if len(dilation) == 1 else 1)
    N, C = x.shape[:2]
    O = w.shape[0]
    xp = np.full((N, C) + tuple(x.shape[2 + i] + 2 * padding[i] for i in range(nd)), F0, dtype=object)
    xp[(slice(None), slice(None)) + tuple(slice(p, p + s) for p, s in zip(padding, x.shape[2:]))] = x
    osz = tuple((xp.shape[2 + i] - dilation[i] * (w.shape[2 + i] - 1) - 1) // stride[i] + 1 for i in range(nd))
    out = np.empty((N, O) + osz, dtype=object)
    for n in range(N):
        for oc in range(O):
            for p in np.ndindex(*osz):
                r = F0
                for c in range(C):
                    for q in np.ndindex(*w.shape[2:]):
                        pos = tuple(p[i] * stride[i] + q[i] * dilation[i] for i in range(nd))
                        r = r + xp[(n, c) + pos] * w[(oc, c) + q]
                if b is not None:
                    r = r + b[oc]
                out[(n, oc) + p] = r
    return out


# -- shape / data movement with new storage
@kern('cat', 'concat', 'concatenate')
def _(ts, dim=0):
    ts = [t for t in ts if not (t.ndim == 1 and t.shape[0] == 0)] or ts[:1]
    return np.concatenate(ts, axis=dim)


@kern('stack')
def _(ts, dim=0):
    return np.stack(ts, axis=dim)


@kern('clone', 'contiguous', 'lift_fresh_copy', 'lift')
def _(a, memory_format=None):
    return a.copy()


@kern('_to_copy')
def _(a, dtype=None, **kw):
    if EXACT32[0] and dtype in (torch.float32, torch.float16):
        # constants are rounded to the narrower type
        to = np.float32 if dtype == torch.float32 else np.float16
        r = a.copy()
        for i, v in np.ndenumerate(a):
            if isinstance(v, Fraction):
                r[i] = E.snap(float(to(float(v))), 2.3e-16)
        return r
    return a.copy()


@kern('flip')
def _(a, dims): return np.flip(a, tuple(dims)).copy()


@kern('roll')
def _(a, shifts, dims=()):
    if not dims:
        return np.roll(a, shifts[0] if isinstance(shifts, (list, tuple)) else shifts)
    r = a
    for s, d in zip(shifts, dims):
        r = np.roll(r, s, d)
    return r


@kern('repeat')
def _(a, reps): return np.tile(a, tuple(reps))


@kern('repeat_interleave')
def _(a, reps=None, dim=None, output_size=None):
    if isinstance(reps, np.ndarray):
        reps = reps.astype(int)
    return np.repeat(a, reps, axis=dim)


@kern('index_select')
def _(a, dim, idx): return np.take(a, np.atleast_1d(_idx(idx)), axis=dim)


@kern('gather')
def _(a, dim, idx, sparse_grad=False): return np.take_along_axis(a, _idx(idx), dim)


def _idx(i):
    def f(v):
        if isinstance(v, (Poly, SB)):
            raise Unsupported('symbolic index')
        return int(v)
    return np.frompyfunc(f, 1, 1)(i).astype(np.int64) if i.ndim else np.asarray(int(i[()]), dtype=np.int64)


def _nidx(indices):
    """aten index list -> numpy index tuple following torch rules (adjacent advanced indices)."""
    out = []
    for i in indices:
        if i is None:
            out.append(slice(None))
        elif i.size and isinstance(i.reshape(-1)[0], (bool, SB)):
            m = np.frompyfunc(bool, 1, 1)(i).astype(bool)     # symbolic masks are resolved by forking
            out.append(m)
        else:
            out.append(_idx(i) if i.size else i.astype(np.int64))
    return tuple(out)


@special('index', '_unsafe_index')
def _(func, args, kwargs):
    x, ind = args
    return make(arr(x)[_nidx([None if i is None else arr(i) for i in ind])], x.dtype)


def _index_put(x, ind, v, accumulate=False):
    a = arr(x).copy()
    n = _nidx([None if i is None else arr(i) for i in ind])
    va = cast(arr(v), x.dtype)
    if not accumulate:
        a[n] = va
    else:
        tgt = np.arange(a.size).reshape(a.shape)[n]
        flat = a.reshape(-1)
        for k, val in zip(tgt.reshape(-1), np.broadcast_to(va, tgt.shape).reshape(-1)):
            flat[k] = flat[k] + val
    return a


@special('index_put', '_index_put_impl')
def _(func, args, kwargs):
    return make(_index_put(*args[:3], *(args[3:4] or (kwargs.get('accumulate', False),))), args[0].dtype)


@special('index_put_', '_index_put_impl_')
def _(func, args, kwargs):
    r = _index_put(*args[:3], *(args[3:4] or (kwargs.get('accumulate', False),)))
    write(args[0], r)
    return args[0]


@special('masked_select')
def _(func, args, kwargs):
    x, m = args
    a, b = np.broadcast_arrays(arr(x), arr(m))
    return make(a[np.frompyfunc(bool, 1, 1)(b).astype(bool)], x.dtype)


@special('nonzero')
def _(func, args, kwargs):
    m = cast(arr(args[0]), torch.bool)
    m = np.frompyfunc(bool, 1, 1)(m)
    m = np.asarray(m).astype(bool)
    r = np.argwhere(m)
    return make(_ufn(int, r) if r.size else r.astype(object), torch.int64)


@kern('slice_scatter')
def _(a, src, dim=0, start=None, end=None, step=1):
    r = a.copy()
    ix = [slice(None)] * a.ndim
    ix[dim] = slice(start, None if end is None or end >= a.shape[dim] else end, step)
    r[tuple(ix)] = src
    return r


@kern('select_scatter')
def _(a, src, dim, index):
    r = a.copy()
    ix = [slice(None)] * a.ndim
    ix[dim] = index
    r[tuple(ix)] = _cell(src)
    return r


def _cell(v):
    return v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v


@kern('select_backward')
def _(g, sizes, dim, index):
    r = np.full(tuple(sizes), F0, dtype=object)
    ix = [slice(None)] * r.ndim
    ix[dim] = index
    r[tuple(ix)] = _cell(g)
    return r


@kern('slice_backward')
def _(g, sizes, dim, start, end, step):
    r = np.full(tuple(sizes), F0, dtype=object)
    ix = [slice(None)] * r.ndim
    ix[dim] = slice(start, builtins.min(end, sizes[dim]), step)
    r[tuple(ix)] = g
    return r


@kern('diag_embed')
def _(a, offset=0, dim1=-2, dim2=-1):
    if offset or (dim1, dim2) != (-2, -1):
        raise Unsupported('diag_embed offset')
    r = np.full(a.shape + (a.shape[-1],), F0, dtype=object)
    for i in range(a.shape[-1]):
        r[..., i, i] = a[..., i]
    return r


@kern('diagonal_backward')
def _(g, sizes, offset, dim1, dim2):
    r = np.full(tuple(sizes), F0, dtype=object)
    np.einsum  # noqa
    rr = np.moveaxis(r, (dim1, dim2), (-2, -1))
    for i in range(g.shape[-1]):
        rr[..., i if offset >= 0 else i - offset, i + offset if offset >= 0 else i] = g[..., i]
    return r


@kern('tril')
def _(a, diagonal=0):
    r = a.copy()
    for i in np.ndindex(*a.shape):
        if i[-1] - i[-2] > diagonal:
            r[i] = _zero_like(a[i])
    return r


@kern('triu')
def _(a, diagonal=0):
    r = a.copy()
    for i in np.ndindex(*a.shape):
        if i[-1] - i[-2] < diagonal:
            r[i] = _zero_like(a[i])
    return r


def _zero_like(v):
    return v.like(0) if hasattr(v, '_fp') else (0 if isinstance(v, int) else F0)


@kern('constant_pad_nd')
def _(a, pad, value=0):
    shape, sl = list(a.shape), [slice(None)] * a.ndim
    for i in range(len(pad) // 2):
        d = a.ndim - 1 - i
        shape[d] += pad[2 * i] + pad[2 * i + 1]
        sl[d] = slice(pad[2 * i], pad[2 * i] + a.shape[d])
    r = np.full(shape, sc(value), dtype=object)
    r[tuple(sl)] = a
    return r


@kern('sort')
def _(a, dim=-1, descending=False, stable=None):
    a = A(a)
    if isinstance(dim, bool):
        dim, descending = -1, dim
    if a.ndim == 0:
        return a.copy(), o(0)
    x = np.moveaxis(a, dim, -1)
    v, k = np.empty(x.shape, dtype=object), np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        order = []
        for j in range(x.shape[-1]):
            p = len(order)
            while p > 0 and bool(e_lt(x[i][order[p - 1]], x[i][j]) if descending else e_lt(x[i][j], x[i][order[p - 1]])):
                p -= 1
            order.insert(p, j)
        for n, j in enumerate(order):
            v[i + (n,)], k[i + (n,)] = x[i][j], j
    return np.moveaxis(v, -1, dim), np.moveaxis(k, -1, dim)


@kern('topk')
def _(a, k, dim=-1, largest=True, sorted=True):
    v, i = K['sort'](a, dim, largest)
    return np.take(v, range(k), axis=dim), np.take(i, range(k), axis=dim)


@kern('median')
def _(a, dim=None, keepdim=False):
    if dim is None:
        x = A(a).reshape(-1)
        return K['sort'](x)[0][(x.size - 1) // 2]
    n = (a.shape[dim] - 1) // 2
    return tuple(np.take(r, [n], axis=dim) if keepdim else np.take(r, n, axis=dim) for r in K['sort'](a, dim))


K['argsort'] = lambda a, dim=-1, descending=False, stable=None: K['sort'](a, dim, descending)[1]


@kern('searchsorted')
def _(seq, vals, out_int32=False, right=False, side=None, sorter=None):
    if side == 'right':
        right = True
    vals = A(vals)

    def f(v):
        n = 0
        for s in seq:
            if bool(e_le(s, v) if right else e_lt(s, v)):
                n += 1
            else:
                break
        return n
    return _ufn(f, vals)


@kern('bucketize')
def _(vals, bounds, out_int32=False, right=False):
    return K['searchsorted'](bounds, vals, right=right)


@kern('count_nonzero')
def _(a, dim=None):
    return _reduce(a, dim, False, lambda xs: sum(1 for x in xs if bool(cast1(x, torch.bool))))


# -- factories: element values
def _factory(name, f):
    def h(func, args, kwargs):
        m = func(*args, **{**kwargs, 'device': 'meta', 'pin_memory': None} if 'pin_memory' in kwargs else {**kwargs, 'device': 'meta'})
        return make(cast(f(tuple(m.shape), args, kwargs), m.dtype), m.dtype)
    SPECIAL[name] = h


def _full(shape, v):
    r = np.empty(shape, dtype=object)
    r[...] = sc(v)
    return r


_factory('zeros', lambda s, a, k: _full(s, 0))
_factory('ones', lambda s, a, k: _full(s, 1))
_factory('empty', lambda s, a, k: _full(s, 0))
_factory('empty_strided', lambda s, a, k: _full(s, 0))
_factory('empty_permuted', lambda s, a, k: _full(s, 0))
_factory('full', lambda s, a, k: _full(s, a[1]))
_factory('scalar_tensor', lambda s, a, k: _full(s, a[0]))


@special('arange')
def _(func, args, kwargs):
    m = func(*args, **{**kwargs, 'device': 'meta'})
    start, end, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    return make(cast(np.array([Fraction(sc(start)) + i * Fraction(sc(step)) for i in range(m.shape[0])] or [], dtype=object)
                     if m.shape[0] else np.empty((0,), dtype=object), m.dtype), m.dtype)


@special('linspace')
def _(func, args, kwargs):
    s, e, n = args[0], args[1], args[2]
    dt = kwargs.get('dtype') or torch.get_default_dtype()
    s, e = [arr(v)[()] if isinstance(v, torch.Tensor) else sc(v) for v in (s, e)]
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = s if i == 0 else (e if i == n - 1 else s + _truediv(e - s, Fraction(n - 1)) * i)
    return make(cast(out, dt), dt)


@special('eye')
def _(func, args, kwargs):
    m = func(*args, **{**kwargs, 'device': 'meta'})
    r = _full(tuple(m.shape), 0)
    for i in range(builtins.min(m.shape)):
        r[i, i] = 1
    return make(cast(r, m.dtype), m.dtype)


def _like(name, f):
    def h(func, args, kwargs):
        x = args[0]
        dt = kwargs.get('dtype') or x.dtype
        return make(cast(f(tuple(x.shape), args, kwargs), dt), dt)
    SPECIAL[name] = h


_like('zeros_like', lambda s, a, k: _full(s, 0))
_like('ones_like', lambda s, a, k: _full(s, 1))
_like('empty_like', lambda s, a, k: _full(s, 0))
_like('full_like', lambda s, a, k: _full(s, a[1]))
_like('new_zeros', lambda s, a, k: _full(tuple(a[1]), 0))
_like('new_ones', lambda s, a, k: _full(tuple(a[1]), 1))
_like('new_empty', lambda s, a, k: _full(tuple(a[1]), 0))
_like('new_empty_strided', lambda s, a, k: _full(tuple(a[1]), 0))
_like('new_full', lambda s, a, k: _full(tuple(a[1]), a[2]))


# -- random numbers: every draw is a fresh symbolic input (in replay: the model's value)
RNG = [None]    # function(kind, shape, low, high) -> object array


def _draw(kind, shape, lo=None, hi=None):
    if RNG[0] is None:
        raise Unsupported('random draw outside a harness')
    return RNG[0](kind, tuple(shape), lo, hi)


def _rngfac(name, kind, like=False, lo=None, hi=None):
    def h(func, args, kwargs):
        if like:
            x = args[0]
            dt, shape = kwargs.get('dtype') or x.dtype, tuple(x.shape)
        else:
            dt, shape = kwargs.get('dtype') or torch.get_default_dtype(), tuple(args[0])
        return make(_draw(kind, shape, lo, hi), dt)
    SPECIAL[name] = h


_rngfac('randn', 'normal')
_rngfac('rand', 'uniform', lo=F0, hi=F1)
_rngfac('randn_like', 'normal', like=True)
_rngfac('rand_like', 'uniform', like=True, lo=F0, hi=F1)


@special('normal_')
def _(func, args, kwargs):
    x = args[0]
    mean = args[1] if len(args) > 1 else kwargs.get('mean', 0)
    std = args[2] if len(args) > 2 else kwargs.get('std', 1)
    z = _draw('normal', x.shape)
    write(x, _ufn(lambda v: sc(mean) + sc(std) * v, z))
    return x


@special('uniform_')
def _(func, args, kwargs):
    x = args[0]
    lo = args[1] if len(args) > 1 else kwargs.get('from', 0)
    hi = args[2] if len(args) > 2 else kwargs.get('to', 1)
    z = _draw('uniform', x.shape, F0, F1)
    lo, hi = sc(lo), sc(hi)
    write(x, _ufn(lambda v: lo + (hi - lo) * v, z))
    return x


@special('exponential_')
def _(func, args, kwargs):
    x = args[0]
    write(x, _draw('exponential', x.shape, F0, None))
    return x


@special('normal')
def _(func, args, kwargs):
    m, s = args[0], args[1]
    ref = m if isinstance(m, torch.Tensor) else s
    if isinstance(ref, torch.Tensor):
        sh = torch.broadcast_shapes(*[v.shape for v in (m, s) if isinstance(v, torch.Tensor)])
        z = _draw('normal', sh)
        return make(_ufn(lambda a, b, v: a + b * v, A(arr(m) if isinstance(m, torch.Tensor) else m),
                         A(arr(s) if isinstance(s, torch.Tensor) else s), z), ref.dtype)
    z = _draw('normal', tuple(args[2]))
    return make(_ufn(lambda v: sc(m) + sc(s) * v, z), kwargs.get('dtype') or torch.get_default_dtype())


@special('bernoulli_')
def _(func, args, kwargs):
    x = args[0]
    write(x, cast(_draw('bernoulli', x.shape, F0, F1), x.dtype))
    return x


@special('bernoulli')
def _(func, args, kwargs):
    x = args[0]
    return make(_draw('bernoulli', x.shape, F0, F1), x.dtype)


@special('randint')
def _(func, args, kwargs):
    hi, lo, size = (args[0], 0, args[1]) if len(args) == 2 else (args[1], args[0], args[2])
    return make(cast(_draw('randint', tuple(size), lo, hi), torch.int64), kwargs.get('dtype') or torch.int64)


@special('randperm')
def _(func, args, kwargs):
    return make(np.array(list(range(args[0])), dtype=object), torch.int64)


# -- aliasing, writes
def write(t, a):
    """t[...] = a, elementwise, through the storage."""
    if not isinstance(t, SymTensor):
        if all(E.is_const(v) for v in np.asarray(a, dtype=object).reshape(-1)):
            with torch._C._DisableTorchDispatch():
                t.detach().copy_(torch.tensor(_ufn(float, a).astype(float)))
            return
        raise Unsupported('in-place write of symbolic data into a tensor created outside the symbolic run')
    v = arr(t)
    if v.size:
        v[...] = cast(np.asarray(a, dtype=object), t.dtype)


@special('copy_')
def _(func, args, kwargs):
    write(args[0], arr(args[1]))
    return args[0]


@special('fill_')
def _(func, args, kwargs):
    v = args[1]
    write(args[0], arr(v) if isinstance(v, torch.Tensor) else o(v))
    return args[0]


@special('zero_')
def _(func, args, kwargs):
    write(args[0], o(0))
    return args[0]


@special('set_')
def _(func, args, kwargs):
    raise Unsupported('set_')


@special('_local_scalar_dense')
def _(func, args, kwargs):
    v = arr(args[0]).reshape(-1)[0]
    if isinstance(v, SB):
        return E.ctx().engine.decide(v)
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, Poly):
        return E.ctx().engine.concretise(v)
    if hasattr(v, '_fp'):
        c = v.const()
        if c is None:
            return E.ctx().engine.concretise(v)
        return c
    raise Unsupported(f'_local_scalar_dense {type(v)}')


@special('is_nonzero')
def _(func, args, kwargs):
    v = cast1(arr(args[0]).reshape(-1)[0], torch.bool)
    return v if isinstance(v, bool) else E.ctx().engine.decide(v)


@special('equal')
def _(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    return bool(K['all'](K['eq'](arr(a), arr(b)))[()])


@special('allclose')
def _(func, args, kwargs):
    a, b = args[:2]
    return bool(K['all'](K['isclose'](arr(a), arr(b), *args[2:], **kwargs))[()])


@special('linalg_solve', '_linalg_solve_ex')
def _(func, args, kwargs):
    if kwargs.get('left', True) is not True:
        raise Unsupported('linalg.solve from the right')
    a, b = args[:2]
    A_, B_ = arr(a), arr(b)
    vec = B_.ndim == A_.ndim - 1
    lead = A_.shape[:-2]
    if B_.shape[:len(lead)] != lead:
        raise Unsupported('linalg.solve with broadcasting')
    out = np.empty(B_.shape, dtype=object)
    for i in np.ndindex(*lead):
        out[i] = _mm(_inv(A_[i]), B_[i][:, None])[:, 0] if vec else _mm(_inv(A_[i]), B_[i])
    r = make(out, b.dtype)
    if func._overloadpacket._qualified_op_name.endswith('_ex'):
        z = np.zeros(A_.shape[:-1], dtype=object)
        return r, make(A_.copy(), a.dtype), make(z, torch.int32), make(np.zeros(lead, dtype=object), torch.int32)
    return r


@special('_has_same_storage_numel')
def _(func, args, kwargs):
    return True


@special('_assert_async')
def _(func, args, kwargs):
    return None


# -------------------------------------------------------------------- dispatcher
_schema_cache = {}
META_FIX = {'linspace'}


def _info(func):
    r = _schema_cache.get(func)
    if r is None:
        s = func._schema
        name = func._overloadpacket._qualified_op_name
        ns, nm = name.split('::')
        mut0 = bool(s.arguments) and s.arguments[0].alias_info is not None and s.arguments[0].alias_info.is_write
        outs = [a.name for a in s.arguments if a.alias_info is not None and a.alias_info.is_write and a.kwarg_only]
        view = (not s.is_mutable) and any(rt.alias_info is not None for rt in s.returns)
        r = _schema_cache[func] = (ns, nm, mut0, outs, view, [a.name for a in s.arguments], s)
    return r


def _meta(t):
    with torch._C._DisableTorchDispatch():
        return torch.empty_strided(tuple(t.shape), t.stride(), dtype=t.dtype, device='meta')


STATS = {'ops': 0}


def _tree_meta(x):
    if isinstance(x, torch.Tensor):
        return _meta(x) if x.numel() or True else x
    if isinstance(x, (list, tuple)):
        return type(x)(_tree_meta(v) for v in x) if not hasattr(x, '_fields') else x
    if isinstance(x, torch.device):
        return torch.device('meta')
    return x


def _tree_arr(x):
    if isinstance(x, torch.Tensor):
        return arr(x)
    if isinstance(x, (list, tuple)):
        return [_tree_arr(v) for v in x]
    return x


def _wrapout(meta, val):
    if isinstance(meta, torch.Tensor):
        try:
            a = cast(np.asarray(val, dtype=object), meta.dtype)
        except E.Unsupported as e:
            raise E.Unsupported(f"{e} [{meta.shape}: {str(val)[:120]}]")
        if tuple(a.shape) != tuple(meta.shape):
            a = np.broadcast_to(a, tuple(meta.shape)) if a.size != meta.numel() else a.reshape(tuple(meta.shape))
        return make(a, meta.dtype)
    if isinstance(meta, (list, tuple)):
        return type(meta)(_wrapout(m, v) for m, v in zip(meta, val)) if not hasattr(meta, '_fields') else tuple(_wrapout(m, v) for m, v in zip(meta, val))
    return val


def _any_tensor(args, kwargs):
    return any(isinstance(v, torch.Tensor) for v in pytree.tree_leaves((args, kwargs)))


def dispatch(func, args, kwargs):
    try:
        return _dispatch(func, args, dict(kwargs))
    except Unsupported:
        # kernels without a symbolic meaning for these operands: fix the operands (recorded as a bound)
        schema = func._schema
        if schema.is_mutable or any(r.alias_info is not None for r in schema.returns) or not _has_sym_leaf(args, kwargs):
            raise
        return _dispatch(func, *pytree.tree_map(lambda v: fixed(v) if isinstance(v, SymTensor) else v, (args, dict(kwargs))))


def _has_sym_leaf(args, kwargs):
    return any(isinstance(v, SymTensor) and any(isinstance(e, (Poly, SB)) or hasattr(e, '_fp') for e in arr(v).reshape(-1))
               for v in pytree.tree_leaves((args, kwargs)))


def _dispatch(func, args, kwargs):
    STATS['ops'] += 1
    ns, nm, mut0, outs, view, names, schema = _info(func)
    if ns in ('prim', 'profiler') or nm in ('sym_size', 'size', 'stride'):
        return func(*args, **kwargs)
    if nm == 'detach' or nm == 'alias' or nm == 'lift_fresh':
        x = args[0]
        if not isinstance(x, SymTensor):
            return lift(x) if nm == 'lift_fresh' else make_alias_plain(func, x)
        return SymTensor(x._sto, tuple(x.shape), x.stride(), x.storage_offset(), x.dtype)
    h = SPECIAL.get(nm)
    if h is not None and not outs:
        return h(func, args, kwargs)
    if outs:
        out = kwargs.pop(outs[0])
        base = getattr(aten, nm)
        r = dispatch(_functional(base, args, kwargs), args, kwargs)
        if tuple(out.shape) != tuple(r.shape):
            raise Unsupported('out= with resize')
        write(out, arr(r))
        return out
    if view:
        x = args[0]
        if not isinstance(x, SymTensor):
            if any(isinstance(v, SymTensor) for v in pytree.tree_leaves((args[1:], kwargs))):
                raise Unsupported(f'view {nm} of plain tensor with symbolic args')
            return func(*args, **kwargs)
        m = func(*_tree_meta(args), **_tree_meta_kw(kwargs))
        off = x.storage_offset()

        def w(v):
            return SymTensor(x._sto, tuple(v.shape), v.stride(), off + v.storage_offset(), v.dtype)
        if isinstance(m, torch.Tensor):
            return w(m)
        return type(m)(w(v) for v in m) if isinstance(m, list) else tuple(w(v) for v in m)
    if mut0 and nm.endswith('_'):
        base = nm[:-1]
        x = args[0]
        if not isinstance(x, SymTensor) and not any(isinstance(v, SymTensor) for v in pytree.tree_leaves((args[1:], kwargs))):
            return func(*args, **kwargs)
        if base in ('squeeze', 'unsqueeze', 'transpose', 't', 'swapaxes', 'swapdims', 'resize', 'resize_as', 'as_strided', 'set'):
            raise Unsupported(f'in-place view {nm}')
        if base in K:
            r = K[base](*_tree_arr(args), **{k: _tree_arr(v) for k, v in kwargs.items()})
            write(x, r)
            return x
        if hasattr(aten, base):
            r = dispatch(_functional(getattr(aten, base), args, kwargs), args, kwargs)
            write(x, arr(r))
            return x
        raise Unsupported(f'in-place op {func}')
    k = K.get(nm)
    if k is not None:
        m = func(*_tree_meta(args), **_tree_meta_kw(kwargs))
        r = k(*_tree_arr(args), **{a: _tree_arr(v) for a, v in kwargs.items()})
        return _wrapout(m, r)
    # operators with a registered decomposition into other operators
    from torch._decomp import decomposition_table
    d = decomposition_table.get(func)
    if d is not None:
        with MODE_ON():
            r = d(*args, **kwargs)
        if r is not NotImplemented:
            return r
    if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), 'CompositeImplicitAutograd'):
        with MODE_ON():
            r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    # all operands constant: evaluate concretely (symbolic ones are fixed first, which is recorded as a bound)
    if not schema.is_mutable:
        args, kwargs = pytree.tree_map(lambda v: fixed(v) if isinstance(v, SymTensor) else v, (args, kwargs))
    leaves = [v for v in pytree.tree_leaves((args, kwargs)) if isinstance(v, torch.Tensor)]
    if all(not isinstance(v, SymTensor) or all(not isinstance(e, (Poly, SB)) and not hasattr(e, '_fp') for e in arr(v).reshape(-1)) for v in leaves):
        cargs, ckw = pytree.tree_map(lambda v: concrete(v) if isinstance(v, torch.Tensor) else v, (args, kwargs))
        r = func(*cargs, **ckw)
        return pytree.tree_map(lambda v: lift(v) if isinstance(v, torch.Tensor) else v, r)
    raise Unsupported(f'operator {func} has no symbolic semantics')


def make_alias_plain(func, x):
    return func(x)


def concrete(t):
    if not isinstance(t, SymTensor):
        return t
    a = arr(t)
    if t.dtype in FLOATS:
        v = _ufn(float, a).astype(float)
    else:
        v = a.astype(np.int64 if t.dtype in INTS else bool)
    return torch.tensor(v).to(t.dtype)


def fixed(t):
    """A symbolic tensor with its elements fixed to one value each."""
    t = make(arr(t).copy(), t.dtype)
    a = arr(t)
    for i in np.ndindex(*a.shape):
        if isinstance(a[i], Poly) or hasattr(a[i], '_fp'):
            a[i] = Fraction(E.ctx().engine.concretise(a[i], 1))
        elif isinstance(a[i], SB):
            a[i] = bool(a[i])
    return t


def _numpy(t):
    ty = {torch.float64: 'f8', torch.float32: 'f4', torch.float16: 'f2', torch.bool: '?'}.get(t.dtype, 'i8')
    return _ufn(float, arr(t)).astype(ty)


def _functional(packet, args, kwargs):
    for ov in packet.overloads():
        f = getattr(packet, ov)
        if f._schema.is_mutable:
            continue
        sa = f._schema.arguments
        if len(args) > len([a for a in sa if not a.kwarg_only]):
            continue
        try:
            ok = all(_fits(a.type, v) for a, v in zip(sa, args))
        except Exception:
            ok = False
        if ok:
            return f
    raise Unsupported(f'no functional overload of {packet}')


def _fits(ty, v):
    s = str(ty)
    if isinstance(v, torch.Tensor):
        return 'Tensor' in s and 'List' not in s
    if isinstance(v, (list, tuple)):
        return 'List' in s
    if v is None:
        return 'Optional' in s or s == 'NoneType'
    return 'Tensor' not in s


def _tree_meta_kw(kw):
    r = {k: _tree_meta(v) for k, v in kw.items()}
    return r


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def MODE_ON():
    return SymMode()


def _nest(x):
    """Nested python data possibly holding elements / tensors -> (object array, kind)."""
    if isinstance(x, torch.Tensor):
        return arr(x) if isinstance(x, SymTensor) else lift_np(x)
    if isinstance(x, (list, tuple)):
        parts = [_nest(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        return np.stack([np.asarray(p, dtype=object) for p in parts])
    return o(x)


def _has_sym(x):
    if isinstance(x, SymTensor):
        return True
    if isinstance(x, (Poly, SB)) or hasattr(x, '_fp'):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


_MATMUL = (torch.matmul, torch.Tensor.matmul, torch.Tensor.__matmul__, torch.Tensor.__rmatmul__)


def _item(t):
    if t.numel() != 1:
        raise RuntimeError(f'a Tensor with {t.numel()} elements cannot be converted to Scalar')
    v = arr(t).reshape(-1)[0]
    if isinstance(v, (Poly,)) or hasattr(v, '_fp') or isinstance(v, Fraction):
        return t.detach().reshape(())
    if isinstance(v, SB):
        return bool(v)
    return v


def _tolist(t):
    return _item(t) if t.ndim == 0 else [_tolist(x) for x in t]


class SymFnMode(TorchFunctionMode):
    """The few torch entry points that leave the dispatcher (Python scalars in and out)."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.tensor, torch.as_tensor, torch.Tensor.new_tensor) and args:
            data = args[1] if func is torch.Tensor.new_tensor else args[0]
            if _has_sym(data):
                a = _nest(data)
                dt = kwargs.get('dtype')
                if func is torch.as_tensor and isinstance(data, torch.Tensor):
                    return data.to(dt) if dt else data
                if dt is None:
                    ts = [v for v in pytree.tree_leaves(data) if isinstance(v, torch.Tensor)]
                    dt = ts[0].dtype if isinstance(data, torch.Tensor) else None
                    if dt is None:
                        kinds = {type(v) for v in a.reshape(-1)}
                        if kinds <= {bool, SB}:
                            dt = torch.bool
                        elif kinds <= {int, bool}:
                            dt = torch.int64
                        else:
                            dt = torch.get_default_dtype()
                        if ts:
                            dt = torch.get_default_dtype() if dt.is_floating_point else dt
                r = make(cast(a, dt), dt)
                if kwargs.get('requires_grad'):
                    r.requires_grad_(True)
                return r
        if func in _MATMUL and len(args) == 2 and not kwargs and all(isinstance(a, torch.Tensor) for a in args) \
                and any(isinstance(a, SymTensor) for a in args):
            # the native composite ends in an in-place squeeze_, which a wrapper tensor cannot follow
            a, b = args if func is not torch.Tensor.__rmatmul__ else args[::-1]
            if a.ndim == 1 and b.ndim == 2:
                return torch.mv(b.t(), a)
        if func is torch.Tensor.item and isinstance(args[0], SymTensor):
            return _item(args[0])
        if func is torch.Tensor.tolist and isinstance(args[0], SymTensor):
            return _tolist(args[0])
        if func is torch.Tensor.numpy and isinstance(args[0], SymTensor):
            if all(not isinstance(e, (Poly, SB)) and not hasattr(e, '_fp') for e in arr(args[0]).reshape(-1)):
                return _numpy(args[0])
            return _numpy(fixed(args[0]))
        return func(*args, **kwargs)
