"""numpy and scipy.signal as seen by the symbolic back end: arrays of arbitrary
size over exact reals.  The functions are the assumed contracts of the library."""
import math as _math
import types
from fractions import Fraction
from . import expr as X
from . import tensor as TT
from .expr import P, Unsupported, Undecided, ZERO, UNIT, new_idx, msum
from .tensor import T, SV, wrap, as_t, _isnum, SymBool, SymList

np = types.ModuleType('numpy')
scipy = types.ModuleType('scipy')
scipy.signal = types.ModuleType('scipy.signal')


def importer(name, fromlist):
    m = {'numpy': np, 'scipy': scipy, 'scipy.signal': scipy.signal, 'scipy.io': scipy.io,
         'scipy.io.wavfile': scipy.io.wavfile}.get(name)
    if m is None:
        raise ImportError(name)
    return m if fromlist or '.' not in name else scipy


class NDType:
    def __init__(self, name, itemsize, fl=True):
        self.name, self.itemsize, self.is_floating_point = name, itemsize, fl

    def __repr__(self):
        return self.name

    def __call__(self, x):
        return x


np.float32 = NDType('float32', 4)
np.float64 = np.double = NDType('float64', 8)
np.int64 = np.int_ = NDType('int64', 8, False)
np.int32 = NDType('int32', 4, False)
np.int16 = NDType('int16', 2, False)
np.pi = SV(X.PI)
np.inf = float('inf')
np.newaxis = None


def dtype_of(d):
    if isinstance(d, NDType):
        return d
    if d is None or getattr(d, '__name__', '') in ('float', 'sfloat'):
        return np.float64
    if getattr(d, '__name__', '') in ('int', 'sint'):
        return np.int64
    n = getattr(np, d, None) if isinstance(d, str) else None
    if isinstance(n, NDType):
        return n
    raise Unsupported(f'dtype {d!r}')


def wide(a, b):
    'type of the result of an operation between the types of two arrays'
    if a.is_floating_point != b.is_floating_point:
        f, i = (a, b) if a.is_floating_point else (b, a)
        return np.float64 if i.itemsize > 2 else f
    return a if a.itemsize >= b.itemsize else b


class NA(T):
    'numpy array'

    def __init__(self, shape, content, dtype=None, *a, **k):
        if not isinstance(dtype, NDType):
            dtype = np.float64
        super().__init__(shape, content, dtype, *a, **k)
        self.rng = None      # (first value): consecutive integers
        self.mask = None     # (source, lo, hi): true exactly on positions lo <= i < hi

    def __getattribute__(self, name):
        if name in TORCH_ONLY:
            raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")
        return object.__getattribute__(self, name)

    # -- types ----------------------------------------------------------
    def astype(self, d, copy=True):
        d = dtype_of(d)
        if self.dtype.is_floating_point and not d.is_floating_point:
            r = self.map(lambda a: a if X.is_int(a) else trunc(a))
        else:
            r = self.map(lambda a: a)
        r.dtype = d
        return r

    def _bin(self, o, f, isbool=False):
        if isinstance(o, (list, tuple)):
            o = np.array(o)
        r = TT.binop(self, o, f, isbool)
        if r is NotImplemented:
            return r
        if isinstance(o, NA):
            r.dtype = wide(self.dtype, o.dtype)
        elif not self.dtype.is_floating_point and not X.is_int(P(o)):
            r.dtype = np.float64
        return r

    def __truediv__(self, o):
        r = T.__truediv__(self, o)
        if r is not NotImplemented and not r.dtype.is_floating_point:
            r.dtype = np.float64
        return r

    def __rtruediv__(self, o):
        r = T.__rtruediv__(self, o)
        if r is not NotImplemented and not r.dtype.is_floating_point:
            r.dtype = np.float64
        return r

    def _inplace(self, o, f):
        if not self.dtype.is_floating_point and not (
                not o.dtype.is_floating_point if isinstance(o, NA) else X.is_int(P(o))):
            raise TypeError(f'Cannot cast ufunc output to {self.dtype}')
        return T._inplace(self, o, f)

    def __itruediv__(self, o):
        if not self.dtype.is_floating_point:
            raise TypeError(f'Cannot cast ufunc output to {self.dtype}')
        return T._inplace(self, o, lambda a, b: a / b)

    def __imatmul__(self, o):
        raise Unsupported('@=')

    # -- consecutive integers compared with a number -------------------------
    def _cmp(self, o, f, lo=None, hi=None):
        r = T._bin(self, o, f, True)
        if self.rng is not None and _isnum(o) or isinstance(o, NA) and o.ndim == 0 \
                and self.rng is not None:
            v = P(o) if _isnum(o) else o.item_poly()
            n = self._shape[0]
            l, h = ZERO, n
            if lo is not None:
                l = clip(lo(v) - self.rng, n)
            if hi is not None:
                h = clip(hi(v) - self.rng, n)
            r.mask = (l, h)
        return r

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: TT.cond_ind(X.c_not(X.c_lt0(a - b))), lo=ceil_)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: TT.cond_ind(X.c_lt0(b - a)), lo=lambda v: floor_(v) + 1)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: TT.cond_ind(X.c_not(X.c_lt0(b - a))),
                         hi=lambda v: floor_(v) + 1)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: TT.cond_ind(X.c_lt0(a - b)), hi=ceil_)

    def __and__(self, o):
        r = T.__and__(self, o)
        if isinstance(o, NA) and self.mask and o.mask:
            r.mask = (greater(self.mask[0], o.mask[0]), lesser(self.mask[1], o.mask[1]))
        return r

    # -- indexing -------------------------------------------------------
    def _mask(self, key):
        if isinstance(key, NA) and key.isbool and key.ndim == 1:
            if key.mask is None:
                raise Unsupported('indexing with a mask')
            if X.c_eq0(key._shape[0] - self._shape[0]) is not True:
                raise IndexError('boolean index did not match indexed array')
            l, h = key.mask
            if X.prove_nonneg(h - l) or not R().decide(X.c_lt0(h - l)):
                return slice(wrap(l), wrap(h))
            return slice(0, 0)
        return key

    def __getitem__(self, key):
        k = self._mask(key)
        r = TT.getitem(self, k)
        return r if k is key else r.copy()

    def __setitem__(self, key, val):
        if not self.dtype.is_floating_point and not (
                not val.dtype.is_floating_point if isinstance(val, NA) else X.is_int(P(val))):
            raise Unsupported('floating point values written to an array of integers')
        if isinstance(key, NA) and key.isbool and key.mask is None and not (
                isinstance(val, T) and val.ndim):
            return self._assign(where(key, val, self))
        k = self._mask(key)
        if k is not key and isinstance(val, T) and val.ndim:
            n = P(k.stop) - P(k.start)
            if X.c_eq0(val._shape[-1] - n) is not True and val._shape[-1] != UNIT:
                raise ValueError(f'cannot assign {val._shape[-1]} input values to the {n} '
                                 'output values where the mask is true')
        TT.setitem(self, k, val)

    # -- methods ------------------------------------------------------------
    def copy(self, order='C'):
        r = self.map(lambda a: a)
        r.isbool, r.dtype = self.isbool, self.dtype
        return r

    def sum(self, axis=None, keepdims=False, dtype=None):
        return T.sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        r = T.mean(self, axis, keepdims)
        if not r.dtype.is_floating_point:
            r.dtype = np.float64
        return r

    def dot(self, o):
        return self @ o

    def repeat(self, n, axis=None):
        if axis is None:
            if self.ndim != 1:
                raise Unsupported('repeat of a flattened array')
            axis = 0
        d = TT.dimidx(axis, self.ndim)
        n = P(n)
        s = self.snap()
        sh = list(self._shape)
        one = sh[d] == UNIT
        sh[d] = sh[d] * n
        return self.new(sh, lambda idx: s(idx[:d] + ((ZERO if one else X.idiv(idx[d], n)),)
                                          + idx[d + 1:]))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return self.permute(*(axes or range(self.ndim)[::-1]))

    @property
    def T(self):
        return self.transpose()

    @property
    def strides(self):
        raise Unsupported('strides')

    @property
    def size(self):
        return self.numel()

    def max(self, axis=None):
        raise Unsupported('max')

    def min(self, axis=None):
        raise Unsupported('min')

    def ravel(self):
        return self.reshape(-1)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported('ufunc')


NA.cls = NA
TORCH_ONLY = frozenset({'exp', 'log', 'sqrt', 'sigmoid', 'tanh', 'unsqueeze', 'expand', 'detach',
                        'clone', 'matmul', 'digamma', 'double', 'float', 'abs', 'numpy',
                        'logsumexp', 'view_as', 'diag', 'inverse', 'add_', 'sub_', 'cat'})
TORCH_ONLY -= {'diag'}


def R():
    from . import runtime
    return runtime


def trunc(a):
    if X.is_nonneg(a):
        return X.fn('floor', a)
    raise Unsupported('conversion to integers')


def floor_(v):
    return v if X.is_int(v) else X.fn('floor', v)


def ceil_(v):
    return v if X.is_int(v) else -X.fn('floor', -v)


def greater(a, b):
    if X.prove_nonneg(a - b):
        return a
    if X.prove_nonneg(b - a):
        return b
    return b if R().decide(X.c_lt0(a - b)) else a


def lesser(a, b):
    return a if greater(a, b) is b else b


def clip(v, n):
    return lesser(greater(v, ZERO), n)


def array_(x):
    'python numbers and nested lists -> array'
    if isinstance(x, NA):
        return x
    if isinstance(x, T):
        return NA(x._shape, x.snap(), np.float64, isbool=x.isbool)
    if _isnum(x):
        p = P(x)
        return NA((), lambda idx: p, np.int64 if isinstance(x, int) else np.float64)
    if isinstance(x, (list, tuple)) and x and all(_isnum(i) for i in x):
        ps = [P(i) for i in x]
        return NA((P(len(ps)),), lambda idx: P(TT.pick([wrap(p) for p in ps], idx[0])),
                  np.int64 if all(isinstance(i, int) for i in x) else np.float64)
    if isinstance(x, (list, tuple)) and x and all(isinstance(i, T) for i in x):
        return stack_([array_(i) for i in x])
    raise Unsupported(f'array of {type(x)}')


def stack_(xs):
    return TT.cat([x[None] for x in xs], 0)


def pub(f):
    setattr(np, f.__name__.rstrip('_'), f)
    return f


@pub
def array(x, dtype=None, copy=True, **k):
    a = array_(x)
    r = a.copy()
    r.dtype = dtype_of(dtype) if dtype is not None else a.dtype
    if a.dtype.is_floating_point and not r.dtype.is_floating_point:
        raise Unsupported('conversion to integers')
    return r


@pub
def asarray(x, dtype=None):
    a = array_(x)
    return a if dtype is None or dtype_of(dtype) is a.dtype else array(a, dtype)


np.ascontiguousarray = np.asarray


def shape_(s):
    return tuple(P(i) for i in s) if isinstance(s, (tuple, list)) else (P(s),)


def const(shape, v, d):
    v = P(v)
    return NA(shape, lambda idx: v, d)


@pub
def zeros(shape, dtype=None):
    return const(shape_(shape), 0, dtype_of(dtype))


@pub
def ones(shape, dtype=None):
    return const(shape_(shape), 1, dtype_of(dtype))


@pub
def empty(shape, dtype=None):
    nm = TT.fresh_name('uninit')
    sh = shape_(shape)
    X.TENSORS[nm] = X.TensorInfo(nm, len(sh))
    return NA(sh, lambda idx: X.elem(nm, idx), dtype_of(dtype))


@pub
def full(shape, v, dtype=None):
    return const(shape_(shape), v, dtype_of(dtype) if dtype is not None else
                 np.int64 if isinstance(v, int) else np.float64)


@pub
def zeros_like(a, dtype=None):
    a = array_(a)
    return const(a._shape, 0, dtype_of(dtype) if dtype is not None else a.dtype)


@pub
def ones_like(a, dtype=None):
    a = array_(a)
    return const(a._shape, 1, dtype_of(dtype) if dtype is not None else a.dtype)


@pub
def arange(*a, dtype=None):
    a = [P(x) for x in a]
    if len(a) > 2 or not all(X.is_int(x) for x in a):
        raise Unsupported('arange')
    lo, hi = (ZERO, a[0]) if len(a) == 1 else a
    n = hi - lo
    if not X.prove_nonneg(n) and R().decide(X.c_lt0(n)):
        n = ZERO
    r = NA((n,), lambda idx: idx[0] + lo, np.int64 if dtype is None else dtype_of(dtype))
    r.rng = lo
    return r


@pub
def linspace(start, stop, num=50):
    a, b = [x.item_poly() if isinstance(x, T) else P(x) for x in (start, stop)]
    n = P(num)
    if not n.is_const() and X.prove_nonneg(n - 1):
        # the distance is a multiple of the number of steps (none when there is one point)
        q, r = TT.exact_div(b - a, n - 1)
        if q is not None:
            return NA((n,), lambda idx: a + idx[0] * q)
    if n == UNIT or (not n.is_const() and not X.prove_nonneg(n - 2)
                     and R().decide(X.c_eq0(n - 1))):
        return NA((n,), lambda idx: a)
    if X.prove_nonneg(-n):
        return NA((n,), lambda idx: a)
    step = (b - a) / (n - 1)
    return NA((n,), lambda idx: a + idx[0] * step)


def ufunc(f):
    def g(x):
        if isinstance(x, NA):
            r = x.map(f)
            if not r.dtype.is_floating_point:
                r.dtype = np.float64
            return r
        if _isnum(x):
            return num_(f(P(x)))
        return array_(x).map(f)
    return g


def num_(p):
    'numpy scalar: a float even when it is a whole number'
    r = wrap(p)
    return float(r) if isinstance(r, int) else r


def exact(f, g):
    'numbers known at run time are computed'
    def h(x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return g(x)
        return ufunc(f)(x)
    return h


np.log = ufunc(X.logfn)
np.exp = ufunc(X.expfn)
np.sqrt = ufunc(lambda a: X.power(a, Fraction(1, 2)))
np.log2 = exact(lambda a: X.logfn(a) / X.logfn(P(2)), _math.log2)
np.floor = exact(lambda a: X.fn('floor', a), lambda x: float(_math.floor(x)))
np.ceil = exact(lambda a: -X.fn('floor', -a), lambda x: float(_math.ceil(x)))
np.cos = ufunc(lambda a: X.fn('cos', a))
np.sin = ufunc(lambda a: X.fn('sin', a))
np.square = ufunc(lambda a: a * a)
np.log1p = ufunc(lambda a: X.logfn(a + 1))
np.expm1 = ufunc(lambda a: X.expfn(a) - 1)
np.log10 = ufunc(lambda a: X.logfn(a) / X.logfn(P(10)))


def pair(f):
    def g(a, b):
        return TT.binop(array_(a), array_(b), f)
    return g


np.maximum = pair(lambda a, b: X.ite(X.c_lt0(a - b), b, a))
np.minimum = pair(lambda a, b: X.ite(X.c_lt0(a - b), a, b))
np.add = lambda a, b: array_(a) + b
np.multiply = lambda a, b: array_(a) * b
np.subtract = lambda a, b: array_(a) - b
np.divide = np.true_divide = lambda a, b: array_(a) / b
np.dot = np.matmul = lambda a, b: array_(a) @ array_(b)


@pub
def clip_(a, lo, hi):
    return np.minimum(np.maximum(a, lo), hi)


@pub
def logical_and(a, b):
    return a & b


@pub
def logical_or(a, b):
    return T.__or__(a, b)


@pub
def where(c, a, b):
    r = TT.where(c, array_(a), array_(b))
    return NA(r._shape, r.snap(), np.float64)


@pub
def mean(a, axis=None, keepdims=False):
    return a.mean(axis, keepdims)


@pub
def sum_(a, axis=None, keepdims=False):
    return a.sum(axis, keepdims)


@pub
def transpose(a):
    return a.T


@pub
def repeat(a, n, axis=None):
    return a.repeat(n, axis)


@pub
def concatenate(xs, axis=0):
    xs = [array_(x) for x in xs]
    r = TT.cat(xs, axis)
    d = xs[0].dtype
    for x in xs[1:]:
        d = wide(d, x.dtype)
    r.dtype = d
    return r


@pub
def hstack(xs):
    xs = [array_(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@pub
def vstack(xs):
    return concatenate([x[None] if x.ndim == 1 else x for x in map(array_, xs)], 0)


@pub
def stack(xs, axis=0):
    xs = [array_(x) for x in xs]
    key = tuple([slice(None)] * axis + [None])
    return concatenate([x[key] for x in xs], axis)


@pub
def pad(a, widths, mode='constant', **k):
    raise Unsupported('pad')


class _R:
    def __getitem__(self, key):
        xs = [array_(x) for x in (key if isinstance(key, tuple) else (key,))]
        return concatenate([x[None] if x.ndim == 0 else x for x in xs], 0)


class _C:
    def __getitem__(self, key):
        xs = [array_(x) for x in (key if isinstance(key, tuple) else (key,))]
        xs = [x[None] if x.ndim == 0 else x for x in xs]
        xs = [x[:, None] if x.ndim == 1 else x for x in xs]
        return concatenate(xs, -1)


np.r_, np.c_ = _R(), _C()


@pub
def hamming(m):
    m = P(m)
    return NA((m,), lambda idx: P(0.54) - P(0.46) * X.fn('cos', 2 * X.PI * idx[0] / (m - 1)))


@pub
def hanning(m):
    m = P(m)
    return NA((m,), lambda idx: P(0.5) - P(0.5) * X.fn('cos', 2 * X.PI * idx[0] / (m - 1)))


# ----------------------------------------------------------------------
# aliasing windows over a signal

def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    if x.ndim != 1 or x.views:
        raise Unsupported('as_strided of a view')
    if writeable:
        raise Unsupported('writeable strided view')
    sh = [P(s) for s in shape]
    st = [P(s) / P(x.dtype.itemsize) for s in strides]
    if not all(X.is_int(s) for s in st):
        raise Unsupported('strides are not multiples of the item size')
    for s in sh:
        if not X.prove_nonneg(s) and R().decide(X.c_lt0(s)):
            raise ValueError('negative dimensions are not allowed')
    # memory safety: the last element addressed lies in the array
    last = ZERO
    for s, t in zip(sh, st):
        TT.need(X.prove_nonneg(t), 'positive strides')
        last = last + (s - 1) * t
    if not any(X.prove_nonneg(-s) for s in sh):
        TT.need(X.prove_nonneg(x._shape[0] - 1 - last),
                f'last element {last} of the frames < {x._shape[0]}')
    s = x.snap()

    def at(idx):
        k = ZERO
        for i, t in zip(idx, st):
            k = k + i * t
        return s((k,))
    return NA(sh, at, x.dtype)


def sliding_window_view(x, window_shape, axis=None):
    if x.ndim != 1:
        raise Unsupported('sliding windows of a matrix')
    w = P(window_shape)
    n = x._shape[0] - w + 1
    TT.need(X.prove_nonneg(n - 1), 'window longer than the signal')
    s = x.snap()
    return NA((n, w), lambda idx: s((idx[0] + idx[1],)), x.dtype)


np.lib = types.SimpleNamespace(stride_tricks=types.SimpleNamespace(
    as_strided=as_strided, sliding_window_view=sliding_window_view))


# ----------------------------------------------------------------------
# real FFT: uninterpreted cosines and sines

class CNA:
    'complex array'

    def __init__(self, re, im):
        self.real, self.imag = re, im
        self.shape = re.shape

    def __getitem__(self, key):
        return CNA(self.real[key], self.imag[key])

    def __abs__(self):
        return TT.binop(self.real, self.imag, lambda a, b: X.fn('hypot', a, b))

    def conj(self):
        return CNA(self.real, -1 * self.imag)


def np_abs(x):
    if isinstance(x, CNA):
        return abs(x)
    return ufunc(lambda a: X.fn('abs', a))(x)


np.abs = np.absolute = np_abs


def rfft(x, n=None, axis=-1):
    d = TT.dimidx(axis, x.ndim)
    if d != x.ndim - 1:
        raise Unsupported('FFT axis')
    m = x._shape[-1]
    L = m if n is None else P(n)
    k = m if X.prove_nonneg(L - m) else L if X.prove_nonneg(m - L) else None
    if k is None or not L.is_const():
        raise Unsupported('FFT of arbitrary length')
    L = int(L.const())
    sh = x._shape[:-1] + (P(L // 2 + 1),)
    s = x.snap()

    def part(f, sign):
        def at(idx):
            v = new_idx(k)
            w = X.fn(f, 2 * X.PI * idx[-1] * P(v) / L)
            return sign * msum(v, s(idx[:-1] + (P(v),)) * w)
        return NA(sh, at)
    return CNA(part('cos', 1), part('sin', -1))


np.fft = types.SimpleNamespace(rfft=rfft)


# ----------------------------------------------------------------------

def lfilter(b, a, x, axis=-1):
    if not (_isnum(a) and P(a) == UNIT):
        raise Unsupported('recursive filter')
    b = array_(b)
    d = TT.dimidx(axis, x.ndim)
    s, w = x.snap(), b.snap()
    K = b._shape[0]

    def at(idx):
        q = idx[d]

        def tap(j):
            r = w((j,)) * s(idx[:d] + (q - j,) + idx[d + 1:])
            return r if X.prove_nonneg(q - j) else X.ite(X.c_lt0(q - j), ZERO, r)
        if K.is_const():
            return sum((tap(P(j)) for j in range(int(K.const()))), ZERO)
        v = new_idx(K)
        return msum(v, tap(P(v)))
    return NA(x._shape, at, np.float64)


scipy.signal.lfilter = lfilter


def _missing(m):
    def g(name):
        if name.startswith('__') or name in REMOVED:
            raise AttributeError(f"module 'numpy' has no attribute '{name}'")
        raise Unsupported(f'{m}.{name}')
    return g


REMOVED = ('float', 'int', 'bool', 'object', 'complex')
np.__getattr__ = _missing('numpy')
scipy.signal.__getattr__ = _missing('scipy.signal')


def read(*a, **k):
    'files: replaced by the contracts'
    raise Unsupported('scipy.io.wavfile.read')


scipy.io = types.ModuleType('scipy.io')
scipy.io.wavfile = types.ModuleType('scipy.io.wavfile')
scipy.io.wavfile.read = read
