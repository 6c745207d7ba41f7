"""Symbolic tensors: shape = tuple of integer terms, content = function from
index terms to a scalar term.  Views alias a storage, as in torch."""
from fractions import Fraction
from . import expr as X
from .expr import P, Poly, Unsupported, Undecided, ZERO, UNIT, new_idx, \
    msum, ite, c_lt0, c_eq0, c_and, c_or, c_not

IMPLICIT = []        # implicit (shape / index safety) obligations that failed
NIMPLICIT = [0]      # number of implicit safety obligations discharged
NOGRAD = [0]          # depth of torch.no_grad blocks
BACKWARD = []         # terms back-propagated
READONLY = {}        # storages recorded by the frame checker


class TorchError(RuntimeError):
    'A torch call the real library would reject.'


class SymSafety(Exception):
    'An implicit safety obligation (index in range, shapes agree) is refuted.'


def need(cond_true, msg):
    'Implicit obligation: cond_true is True / None.'
    if cond_true is True:
        NIMPLICIT[0] += 1
        return
    raise Undecided(f'cannot discharge safety obligation: {msg}')


# ----------------------------------------------------------------------
# symbolic python numbers / booleans

class SymBool:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if self.c is True or self.c is False:
            return self.c
        from . import runtime
        return runtime.decide(self.c)

    def __and__(self, o):
        return mkbool(c_and(self.c, condof(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(c_or(self.c, condof(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(c_not(self.c))

    def __repr__(self):
        return f'SymBool({X.cond_str(self.c)})'

    def item(self):
        return self

    def all(self):
        return self

    def any(self):
        return self


def mkbool(c):
    if c is True or c is False:
        return c
    return SymBool(c)


def condof(o):
    if isinstance(o, SymBool):
        return o.c
    if isinstance(o, bool):
        return o
    if isinstance(o, T) and not o.shape:
        return o.cond_at(())
    raise Unsupported(f'not a condition: {o!r}')


def wrap(p):
    'Poly -> python number when constant, else SV.'
    if p.is_const():
        c = p.const()
        return int(c) if c.denominator == 1 else float(c)
    return SV(p)


def wrapi(p):
    return wrap(p)


class SV:
    'A symbolic number used where python code has an int or a float.'
    __slots__ = ('poly',)

    def __init__(self, p):
        self.poly = P(p)

    def _w(self, p):
        if p.is_const() and p.const().denominator == 1:
            return int(p.const())
        return SV(p)

    def __add__(self, o):
        if isinstance(o, T) or not _isnum(o):
            return NotImplemented
        return self._w(self.poly + P(o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, T) or not _isnum(o):
            return NotImplemented
        return self._w(self.poly - P(o))

    def __rsub__(self, o):
        return self._w(P(o) - self.poly)

    def __mul__(self, o):
        if isinstance(o, T):
            return NotImplemented
        if isinstance(o, list):
            return SymList.repeat(o, self)
        if isinstance(o, tuple) or not _isnum(o):
            return NotImplemented
        return self._w(self.poly * P(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, T) or not _isnum(o):
            return NotImplemented
        return self._w(self.poly / P(o))

    def __rtruediv__(self, o):
        return self._w(P(o) / self.poly)

    def __floordiv__(self, o):
        return self._w(X.idiv(self.poly, P(o)))

    def __rfloordiv__(self, o):
        return self._w(X.idiv(P(o), self.poly))

    def __mod__(self, o):
        return self._w(X.imod(self.poly, P(o)))

    def __rmod__(self, o):
        return self._w(X.imod(P(o), self.poly))

    def __neg__(self):
        return self._w(-self.poly)

    def __pos__(self):
        return self

    def __pow__(self, e):
        if isinstance(e, SV):
            raise Unsupported('symbolic exponent')
        return self._w(X.power(self.poly, X.Fraction(str(e)) if isinstance(e, float)
                               else Fraction(e)))

    def __rpow__(self, b):
        return self._w(X.expfn(self.poly * X.logfn(P(b))))

    def __abs__(self):
        return self._w(X.fn('abs', self.poly))

    def __lt__(self, o):
        return mkbool(c_lt0(self.poly - P(o)))

    def __gt__(self, o):
        return mkbool(c_lt0(P(o) - self.poly))

    def __le__(self, o):
        return mkbool(c_not(c_lt0(P(o) - self.poly)))

    def __ge__(self, o):
        return mkbool(c_not(c_lt0(self.poly - P(o))))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (tuple, list)):
            return False
        try:
            q = P(o)
        except Unsupported:
            return NotImplemented
        return mkbool(c_eq0(self.poly - q))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(c_not(condof(r)))

    def __hash__(self):
        return hash(self.poly)

    def __bool__(self):
        return bool(mkbool(c_not(c_eq0(self.poly))))

    def __index__(self):
        if self.poly.is_const() and self.poly.const().denominator == 1:
            return int(self.poly.const())
        from . import runtime
        return runtime.concretize(self.poly)

    __int__ = __index__

    def __float__(self):
        if self.poly.is_const():
            return float(self.poly.const())
        raise Unsupported('float() of a symbolic number')

    def __repr__(self):
        return f'SV({self.poly})'

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def is_integer(self):
        return X.is_int(self.poly)


def _isnum(o):
    return isinstance(o, (int, float, Fraction, SV, Poly))


# ----------------------------------------------------------------------

class Size(tuple):
    def numel(self):
        r = UNIT
        for s in self:
            r = r * P(s)
        return wrap(r)

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)) or len(o) != len(self):
            return False
        return all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = tuple.__hash__


WRITELOG = []        # active write logs (loops, frame checks)
PRED = []            # conditions of the predicated branches being executed
INLOOP = [0]         # depth of symbolic loops being executed
_NSTORE = [0]


class Storage:
    __slots__ = ('content', 'ver', 'name', 'rank', 'shape', 'born')

    def __init__(self, content, name=None, shape=()):
        self.content = content
        self.ver = 0
        self.name = name
        self.shape = tuple(shape)
        self.rank = len(self.shape)
        _NSTORE[0] += 1
        self.born = _NSTORE[0]

    def setcontent(self, c):
        for log in WRITELOG:
            log.append((self, self.content))
        for p in PRED:
            c = (lambda p, new, old: lambda idx: ite(p, new(idx), old(idx)))(p, c, self.content)
        self.content = c
        self.ver += 1

    def rawset(self, c):
        self.content = c


def memo(f):
    cache = {}

    def g(idx):
        k = (tuple(i.key for i in idx), tuple(X._ckey(c) for c in X.FACTS),
             len(X.RFACTS))
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(idx)
        return r
    return g


class View:
    'One aliasing step: maps indices of the view to indices of the source.'
    __slots__ = ('fwd', 'inv')

    def __init__(self, fwd, inv):
        self.fwd = fwd        # view idx -> source idx
        self.inv = inv        # source idx -> (cond, view idx)


class DType:
    def __init__(self, name, fl=True):
        self.name = name
        self.is_floating_point = fl

    def __repr__(self):
        return f'torch.{self.name}'


float32 = DType('float32')
float64 = DType('float64')
int64 = DType('int64', False)
int32 = DType('int32', False)
bool_ = DType('bool', False)
uint8 = DType('uint8', False)


class Device:
    def __init__(self, name='cpu'):
        self.type = name

    def __repr__(self):
        return f"device('{self.type}')"

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


CPU = Device()


def dimidx(dim, nd):
    if isinstance(dim, SV):
        dim = int(dim)
    if dim < 0:
        dim += nd
    if dim < 0 or dim >= nd:
        raise IndexError('Dimension out of range')
    return dim


class T:
    'Symbolic tensor.'
    is_sym = True
    __array_priority__ = 1000

    def __init__(self, shape, content, dtype=None, views=(), storage=None,
                 name=None, isbool=False):
        self._shape = tuple(P(s) for s in shape)
        self.storage = storage if storage is not None else \
            Storage(memo(content), name, self._shape)
        self.views = views
        self.dtype = dtype or float32
        self._rg = False
        self.frozen = False     # detached: read without its gradient
        self.grad = None
        if NOGRAD[0] and X.LEAVES and storage is None:
            self.frozen = True
        self.isbool = isbool
        self.contig = True
        self.spec_meta = {}
        self.meta = {}

    # -- basic ----------------------------------------------------------
    @property
    def shape(self):
        return Size(wrapi(s) for s in self._shape)

    def size(self, dim=None):
        s = self.shape
        return s if dim is None else s[dim]

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    def numel(self):
        return self.shape.numel()

    nelement = numel

    @property
    def device(self):
        return CPU

    is_cuda = False
    is_leaf = True

    @property
    def requires_grad(self):
        if self._rg or not X.LEAVES:
            return self._rg
        return X.live(self.at(*[new_idx(s, 'g') for s in self._shape]))

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    @property
    def data(self):
        return self.detach() if X.LEAVES else self

    @data.setter
    def data(self, v):
        self._assign(v)

    def __len__(self):
        raise Unsupported('len() of a symbolic tensor outside the shim')

    def symlen(self):
        if not self._shape:
            raise TypeError('len() of a 0-d tensor')
        return wrapi(self._shape[0])

    def __hash__(self):
        return id(self)

    def snap(self):
        'Immutable reader of the current content.'
        c = self.storage.content
        views = self.views
        frozen = self.frozen

        def f(idx):
            idx = tuple(P(i) for i in idx)
            for v in reversed(views):
                idx = v.fwd(idx)
            return X.stopgrad(c(idx)) if frozen else c(idx)
        return f

    def at(self, *idx):
        'Scalar term at an index.'
        if len(idx) != len(self._shape):
            raise Unsupported('rank mismatch in at()')
        return self.snap()(idx)

    def cond_at(self, idx):
        if not self.isbool:
            v = self.snap()(idx)
            return c_not(c_eq0(v))
        v = self.snap()(idx)
        return ind_cond(v)

    def _assign(self, fn, cond=None):
        'Overwrite this view; fn: view idx -> term, or a tensor.'
        if isinstance(fn, T):
            t = expand_to(fn, self._shape)
            s = t.snap()
            fn = s
        elif _isnum(fn):
            p = P(fn)
            fn = lambda idx: p
        views = self.views
        old = self.storage.content
        if self.frozen or (NOGRAD[0] and X.LEAVES):
            raw = fn
            fn = lambda idx: X.stopgrad(raw(idx))

        def content(b):
            c = True
            stack = b
            for v in views:
                cc, stack = v.inv(stack)
                c = c_and(c, cc)
                if c is False:
                    return old(b)
            if c is True:
                return fn(stack)
            return ite(c, fn(stack), old(b))
        self.storage.setcontent(memo(content))

    def view_of(self, shape, fwd, inv, contig=None):
        r = self.cls(shape, None, self.dtype, self.views + (View(fwd, inv),),
                     self.storage, isbool=self.isbool)
        r.contig = self.contig if contig is None else contig
        r._rg = self._rg
        r.frozen = self.frozen
        return r

    def new(self, shape, content, dtype=None, isbool=False):
        return self.cls(shape, content, dtype or self.dtype, isbool=isbool)

    # -- elementwise ------------------------------------------------------
    def map(self, f, isbool=False):
        s = self.snap()
        return self.new(self._shape, lambda idx: f(s(idx)), isbool=isbool)

    def _bin(self, o, f, isbool=False):
        return binop(self, o, f, isbool)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self._bin(o, X.idiv)

    def __mod__(self, o):
        return self._bin(o, X.imod)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __pow__(self, e):
        if isinstance(e, T):
            return self._bin(e, lambda a, b: X.expfn(b * X.logfn(a)))
        if isinstance(e, SV):
            raise Unsupported('symbolic exponent')
        e = Fraction(repr(e)) if isinstance(e, float) else Fraction(e)
        return self.map(lambda a: X.power(a, e))

    def __rpow__(self, b):
        return self.map(lambda a: X.expfn(a * X.logfn(P(b))))

    pow = __pow__

    def __abs__(self):
        return self.map(lambda a: X.fn('abs', a))
    abs = __abs__

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_lt0(a - b)), True)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_lt0(b - a)), True)

    def __le__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_not(c_lt0(b - a))), True)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_not(c_lt0(a - b))), True)

    def __eq__(self, o):
        if o is None:
            return False
        return self._bin(o, lambda a, b: cond_ind(c_eq0(a - b)), True)

    def __ne__(self, o):
        if o is None:
            return True
        return self._bin(o, lambda a, b: cond_ind(c_not(c_eq0(a - b))), True)

    eq, ne, lt, gt, le, ge = __eq__, __ne__, __lt__, __gt__, __le__, __ge__
    add = __add__
    sub = __sub__
    mul = __mul__
    div = __truediv__
    true_divide = __truediv__

    def __and__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_and(ind_cond(a), ind_cond(b))), True)

    def __or__(self, o):
        return self._bin(o, lambda a, b: cond_ind(c_or(ind_cond(a), ind_cond(b))), True)

    def __invert__(self):
        return self.map(lambda a: cond_ind(c_not(ind_cond(a))), True)

    def __bool__(self):
        if self._shape:
            raise Unsupported('truth value of a tensor')
        return bool(mkbool(self.cond_at(())))

    def __index__(self):
        return SV(self.item_poly()).__index__()

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(SV(self.item_poly()))

    def item_poly(self):
        idx = tuple(ZERO for _ in self._shape)
        for s in self._shape:
            if s != UNIT:
                raise TorchError('item() of a tensor with several elements')
        return self.at(*idx)

    @property
    def poly(self):
        if self._shape:
            raise Unsupported('tensor used as a number')
        return self.at()

    def item(self):
        return wrap(X.stopgrad(self.item_poly()) if X.LEAVES else self.item_poly())

    def tolist(self):
        if not self._shape:
            return self.item()
        n = self._shape[0]
        if n.is_const():
            return [self[i].tolist() for i in range(int(n.const()))]
        return SymList(n, lambda i: self[SV(i)].tolist())

    def numpy(self, *, force=False):
        from . import shim_numpy, shim_torch
        if self.requires_grad and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        d = self.detach()
        return shim_torch.shared(d, shim_numpy.NA, shim_numpy.dtype_of(d.dtype.name))

    def cpu(self):
        return self

    def __array__(self, *a, **k):
        raise Unsupported('numpy conversion of a symbolic tensor')

    def __iter__(self):
        n = self._shape[0]
        if n.is_const():
            return iter([self[i] for i in range(int(n.const()))])
        from . import runtime
        return runtime.sym_iter(self)

    def __repr__(self):
        return f'T{tuple(self._shape)}'

    def __format__(self, spec):
        return repr(self)

    # -- in place -----------------------------------------------------------
    def _inplace(self, o, f):
        s = self.snap()
        if isinstance(o, T):
            o2 = expand_to(o, self._shape).snap()
        else:
            p = P(o)
            o2 = lambda idx: p
        self._assign(lambda idx: f(s(idx), o2(idx)))
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__

    def _inmap(self, f):
        s = self.snap()
        self._assign(lambda idx: f(s(idx)))
        return self

    def exp_(self):
        return self._inmap(X.expfn)

    def log_(self):
        return self._inmap(X.logfn)

    def neg_(self):
        return self._inmap(lambda a: -a)

    def zero_(self):
        self._assign(lambda idx: ZERO)
        return self

    def fill_(self, v):
        self._assign(v)
        return self

    def copy_(self, o):
        self._assign(o)
        return self

    def requires_grad_(self, f=True):
        self._rg = f
        return self

    # -- functions ------------------------------------------------------------
    def exp(self):
        return self.map(X.expfn)

    def log(self):
        return self.map(X.logfn)

    def sqrt(self):
        return self.map(lambda a: X.power(a, Fraction(1, 2)))

    def square(self):
        return self.map(lambda a: a * a)

    def reciprocal(self):
        return self.map(lambda a: X.power(a, -1))

    def digamma(self):
        return self.map(lambda a: X.fn('digamma', a))

    def lgamma(self):
        return self.map(lambda a: X.fn('lgamma', a))

    def sigmoid(self):
        return self.map(sigmoid)

    def tanh(self):
        return self.map(lambda a: X.fn('tanh', a))

    def log1p(self):
        return self.map(lambda a: X.logfn(a + 1))

    def expm1(self):
        return self.map(lambda a: X.expfn(a) - 1)

    def neg(self):
        return -self

    def clone(self, **k):
        s = self.snap()
        return self.new(self._shape, s, isbool=self.isbool)

    def contiguous(self):
        return self if self.contig else self.clone()

    def detach(self):
        r = T(self._shape, None, self.dtype, self.views, self.storage,
              isbool=self.isbool)
        r.contig = self.contig
        r.meta = self.meta
        r.frozen = self.frozen or bool(X.LEAVES)
        return r

    def detach_(self):
        if X.LEAVES:
            self._assign(self.detach().clone())
        return self

    def to(self, *a, **k):
        return self

    def type(self, *a):
        return self

    def float(self):
        if self.dtype.is_floating_point and not self.isbool:
            return self
        r = self.clone()
        r.isbool = False
        r.dtype = float32
        return r

    def double(self):
        return self.float()

    def long(self):
        r = self.clone()
        r.isbool = False
        r.dtype = int64
        return r

    def int(self):
        return self.long()

    def bool(self):
        return self != 0

    def type_as(self, o):
        return self

    def cuda(self, *a):
        return self

    def pin_memory(self):
        return self

    def backward(self, *a, **k):
        BACKWARD.append(self.clone())

    # -- reductions ------------------------------------------------------------
    def _red(self, dim, keepdim, f):
        if dim is None:
            dims = list(range(self.ndim))
        elif isinstance(dim, (tuple, list)):
            dims = sorted(dimidx(d, self.ndim) for d in dim)
        else:
            dims = [dimidx(dim, self.ndim)]
        if keepdim and dim is None:
            keepdim = False
        s = self.snap()
        shape = self._shape
        out = [n for i, n in enumerate(shape) if i not in dims] if not keepdim \
            else [UNIT if i in dims else n for i, n in enumerate(shape)]

        def content(idx):
            full = []
            it = iter(idx)
            vs = []
            for i, n in enumerate(shape):
                if i in dims:
                    v = new_idx(n)
                    vs.append(v)
                    full.append(P(v))
                    if keepdim:
                        next(it)
                else:
                    full.append(next(it))
            return f(vs, s(tuple(full)))
        return self.new(out, content)

    def sum(self, dim=None, keepdim=False, dtype=None, keepdims=False):
        def f(vs, b):
            for v in reversed(vs):
                b = msum(v, b)
            return b
        return self._red(dim, keepdim or keepdims, f)

    def mean(self, dim=None, keepdim=False, keepdims=False):
        if dim is None:
            n = P(self.numel())
        else:
            ds = dim if isinstance(dim, (tuple, list)) else [dim]
            n = UNIT
            for d in ds:
                n = n * self._shape[dimidx(d, self.ndim)]
        return self.sum(dim, keepdim or keepdims) / SV(n)

    def prod(self, dim=None, keepdim=False):
        def f(vs, b):
            b = X.logfn(b)
            for v in reversed(vs):
                b = msum(v, b)
            return X.expfn(b)
        return self._red(dim, keepdim, f)

    def logsumexp(self, dim, keepdim=False):
        def f(vs, b):
            b = X.expfn(b)
            for v in reversed(vs):
                b = msum(v, b)
            return X.logfn(b)
        return self._red(dim, keepdim, f)

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, T):
            return self._bin(dim, lambda a, b: ite(c_lt0(a - b), b, a))
        if dim is None:
            if self.ndim == 1:
                return self._red(0, False, lambda vs, b: X.bind('max', vs[0], b))
            return self.reshape(-1).max()
        v = self._red(dim, keepdim, lambda vs, b: X.bind('max', vs[0], b))
        i = self._red(dim, keepdim, lambda vs, b: X.bind('argmax', vs[0], b))
        i.dtype = int64
        return MaxRet(v, i)

    def min(self, dim=None, keepdim=False):
        r = (-self).max(dim, keepdim)
        if isinstance(r, T):
            return -r
        return MaxRet(-r.values, r.indices)

    def argmax(self, dim=None, keepdim=False):
        if dim is None:
            if self.ndim != 1:
                return self.reshape(-1).argmax()
            dim = 0
        i = self._red(dim, keepdim, lambda vs, b: X.bind('argmax', vs[0], b))
        i.dtype = int64
        return i

    def argmin(self, dim=None, keepdim=False):
        return (-self).argmax(dim, keepdim)

    def any(self, dim=None):
        raise Unsupported('any')

    def all(self, dim=None):
        raise Unsupported('all')

    def var(self, *a, **k):
        raise Unsupported('var')

    def norm(self, p=2, dim=None, keepdim=False):
        if p != 2:
            raise Unsupported('norm')
        return (self * self).sum(dim, keepdim).sqrt()

    def cumsum(self, dim):
        d = dimidx(dim, self.ndim)
        s = self.snap()

        def content(idx):
            v = new_idx(idx[d] + 1)
            return msum(v, s(idx[:d] + (P(v),) + idx[d + 1:]))
        return self.new(self._shape, content)

    def cumprod(self, dim):
        return self.log().cumsum(dim).exp()

    def softmax(self, dim=-1):
        return (self - self.logsumexp(dim, keepdim=True)).exp()

    def log_softmax(self, dim=-1):
        return self - self.logsumexp(dim, keepdim=True)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = r.map(lambda a: ite(c_lt0(a - P(min)), P(min), a))
        if max is not None:
            r = r.map(lambda a: ite(c_lt0(P(max) - a), P(max), a))
        return r

    def trace(self):
        return self.diagonal().sum()

    def diagonal(self):
        s = self.snap()
        return self.new(self._shape[:1], lambda idx: s((idx[0], idx[0])))

    def diag(self):
        return diag(self)

    def inverse(self):
        return inverse(self)

    def logdet(self):
        return logdet(self)

    def dot(self, o):
        return (self * o).sum()

    def matmul(self, o):
        return matmul(self, o)

    mm = bmm = mv = matmul

    def tril(self, diagonal=0):
        s = self.snap()

        def content(idx):
            # keep j - i <= diagonal
            return ite(c_lt0(idx[-1] - idx[-2] - P(diagonal) - 1), s(idx), ZERO)
        r = self.new(self._shape, content)
        if self.ndim == 2 and self.dtype is int64:
            i, j = new_idx(self._shape[0], 'i'), new_idx(self._shape[1], 'j')
            if X.prove_nonneg(s((P(i), P(j))) - 1):
                r.meta['tril'] = diagonal       # nonzero exactly on that triangle
        return r

    def triu(self, diagonal=0):
        s = self.snap()

        def content(idx):
            return ite(c_lt0(P(diagonal) - 1 - idx[-1] + idx[-2]), s(idx), ZERO)
        return self.new(self._shape, content)

    def nonzero(self, as_tuple=False):
        return nonzero(self)

    def sort(self, dim=-1, descending=False, stable=False):
        return sort(self, dim, descending)

    def argsort(self, dim=-1, descending=False):
        return sort(self, dim, descending)[1]

    def flip(self, dims):
        return flip(self, dims)

    # -- shape ------------------------------------------------------------------
    def t(self):
        if self.ndim < 2:
            return self
        return self.permute(1, 0)

    @property
    def T(self):
        return self.permute(*reversed(range(self.ndim)))

    def transpose(self, a, b):
        a, b = dimidx(a, self.ndim), dimidx(b, self.ndim)
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        dims = [dimidx(d, self.ndim) for d in dims]
        if sorted(dims) != list(range(self.ndim)):
            raise TorchError('permute')
        invp = [dims.index(i) for i in range(self.ndim)]
        return self.view_of([self._shape[d] for d in dims],
                            lambda idx: tuple(idx[invp[i]] for i in range(len(invp))),
                            lambda b: (True, tuple(b[d] for d in dims)),
                            contig=dims == sorted(dims))

    def view(self, *shape):
        return self._reshape(shape, True)

    def reshape(self, *shape):
        return self._reshape(shape, self.contig)

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        a, b = dimidx(start_dim, self.ndim), dimidx(end_dim, self.ndim)
        n = UNIT
        for s in self._shape[a:b + 1]:
            n = n * s
        return self.reshape(*self._shape[:a], n, *self._shape[b + 1:])

    def _reshape(self, shape, alias):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [P(s) for s in shape]
        tot = UNIT
        for s in self._shape:
            tot = tot * s
        neg = [i for i, s in enumerate(shape) if s == P(-1)]
        if len(neg) > 1:
            raise TorchError('only one dimension can be inferred')
        if neg:
            rest = UNIT
            for i, s in enumerate(shape):
                if i != neg[0]:
                    rest = rest * s
            q, r = exact_div(tot, rest)
            if q is None:
                raise TorchError(f'shape {shape} is invalid for input of size {tot}')
            shape[neg[0]] = q
        chk = UNIT
        for s in shape:
            chk = chk * s
        if chk != tot:
            sz = c_eq0(chk - tot)
            if sz is True:
                pass
            elif sz is False:
                raise TorchError(f'shape {shape} is invalid for input of size {tot}')
            else:
                shape_mismatch(f'view: shape {shape} is invalid for input of size {tot}',
                               chk - tot)
        fwd, inv = reshape_maps(self._shape, tuple(shape))
        if alias:
            return self.view_of(shape, fwd, inv)
        s = self.snap()
        return self.new(shape, lambda idx: s(fwd(idx)), isbool=self.isbool)

    def unsqueeze(self, dim):
        n = self.ndim + 1
        d = dim + n if dim < 0 else dim
        key = tuple(None if i == d else slice(None) for i in range(n))
        return self[key]

    def squeeze(self, dim=None):
        if dim is None:
            keep = [i for i, s in enumerate(self._shape) if s != UNIT]
            return self._reshape([self._shape[i] for i in keep], self.contig)
        d = dimidx(dim, self.ndim)
        if self._shape[d] != UNIT:
            if c_eq0(self._shape[d] - 1) is False:
                return self
            # generic size: squeezing is a no-op unless the size is one
            from . import runtime
            if not runtime.decide(c_eq0(self._shape[d] - 1)):
                return self
        key = tuple(0 if i == d else slice(None) for i in range(self.ndim))
        return self[key]

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        sh = []
        off = len(shape) - self.ndim
        for i, s in enumerate(shape):
            if P(s) == P(-1):
                sh.append(self._shape[i - off])
            else:
                sh.append(P(s))
        return expand_to(self, tuple(sh))

    def expand_as(self, o):
        return expand_to(self, o._shape)

    def repeat(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        reps = [P(r) for r in reps]
        src = (UNIT,) * (len(reps) - self.ndim) + self._shape
        pad = len(reps) - self.ndim
        s = self.snap()

        def content(idx):
            out = []
            for i, (n, r) in enumerate(zip(src, reps)):
                if n == UNIT:
                    out.append(ZERO)
                elif r == UNIT:
                    out.append(idx[i])
                else:
                    out.append(X.imod(idx[i], n))
            return s(tuple(out[pad:]))
        return self.new([n * r for n, r in zip(src, reps)], content)

    def split(self, size, dim=0):
        d = dimidx(dim, self.ndim)
        out, off = [], ZERO
        if isinstance(size, (tuple, list)):
            for s in size:
                key = [slice(None)] * self.ndim
                key[d] = slice(wrap(off), wrap(off + P(s)))
                out.append(self[tuple(key)])
                off = off + P(s)
            return tuple(out)
        raise Unsupported('split')

    def chunk(self, n, dim=0):
        d = dimidx(dim, self.ndim)
        q, r = exact_div(self._shape[d], P(n))
        if q is None:
            raise Unsupported('chunk')
        return self.split([SV(q)] * n, dim)

    def index_select(self, dim, index):
        d = dimidx(dim, self.ndim)
        key = [slice(None)] * self.ndim
        key[d] = index
        return self[tuple(key)]

    def narrow(self, dim, start, length):
        d = dimidx(dim, self.ndim)
        key = [slice(None)] * self.ndim
        key[d] = slice(start, start + length)
        return self[tuple(key)]

    def select(self, dim, i):
        d = dimidx(dim, self.ndim)
        key = [slice(None)] * self.ndim
        key[d] = i
        return self[tuple(key)]

    def gather(self, dim, index):
        d = dimidx(dim, self.ndim)
        s, ix = self.snap(), index.snap()

        def content(idx):
            j = ix(idx)
            return s(idx[:d] + (j,) + idx[d + 1:])
        return self.new(index._shape, content)

    def unbind(self, dim=0):
        d = dimidx(dim, self.ndim)
        n = self._shape[d]
        if not n.is_const():
            raise Unsupported('unbind')
        return tuple(self.select(d, i) for i in range(int(n.const())))

    # -- indexing -----------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def index_add_(self, dim, index, src):
        raise Unsupported('index_add_')

    def __deepcopy__(self, memo_):
        r = self.clone()
        r._rg = self._rg
        r.frozen = bool(X.LEAVES)
        return r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'tensor method {name}')


T.cls = T


class MaxRet(tuple):
    def __new__(cls, v, i):
        r = tuple.__new__(cls, (v, i))
        r.values, r.indices = v, i
        return r


def shape_mismatch(msg, p):
    'Sizes differ generically: torch would raise for some sizes.'
    raise TorchError('size mismatch (for some sizes): ' + msg)


def cond_ind(c):
    return ite(c, UNIT, ZERO)


def ind_cond(v):
    if v == UNIT:
        return True
    if v == ZERO:
        return False
    a = v.single()
    if a is not None and a.kind == 'ite':
        c, x, y = a.args
        cx, cy = ind_cond(x), ind_cond(y)
        return c_or(c_and(c, cx), c_and(c_not(c), cy))
    # 1 - ite(...)
    return c_not(c_eq0(v))


def sigmoid(a):
    return X.power(1 + X.expfn(-a), -1)


def softplus(a):
    return X.logfn(1 + X.expfn(a))


def exact_div(p, q):
    if q == UNIT:
        return p, ZERO
    if q.is_const() and q.const():
        r = p.scale(1 / q.const())
        return (r, ZERO)
    a = X.poly_div(p, q)
    if a * q == p:
        return a, ZERO
    return None, None


def reshape_maps(src, dst):
    '''Index maps between two shapes with the same number of elements.'''
    # align groups with equal products
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        si, dj = [], []
        ps, pd = UNIT, UNIT
        if i < len(src):
            si.append(i)
            ps = src[i]
            i += 1
        if j < len(dst):
            dj.append(j)
            pd = dst[j]
            j += 1
        guard = 0
        while ps != pd:
            guard += 1
            if guard > 20:
                raise Unsupported('reshape grouping')
            # extend the side whose product divides the other
            q, _ = exact_div(pd, ps) if ps.t else (None, None)
            if (ps == UNIT or (q is not None and X.is_int(q))) and i < len(src):
                si.append(i)
                ps = ps * src[i]
                i += 1
            elif j < len(dst):
                dj.append(j)
                pd = pd * dst[j]
                j += 1
            elif i < len(src):
                si.append(i)
                ps = ps * src[i]
                i += 1
            else:
                raise Unsupported(f'reshape {src} -> {dst}')
        groups.append((si, dj))

    def conv(gfrom, gto, sfrom, sto, idx, out):
        # linear index within the group
        fr = [k for k in gfrom if sfrom[k] != UNIT]
        to = [k for k in gto if sto[k] != UNIT]
        for k in gto:
            if sto[k] == UNIT:
                out[k] = ZERO
        if len(fr) == len(to) and all(sfrom[a] == sto[b] for a, b in zip(fr, to)):
            for a, b in zip(fr, to):
                out[b] = idx[a]
            return
        lin = ZERO
        for k in fr:
            lin = lin * sfrom[k] + idx[k]
        for n, k in enumerate(to):
            stride = UNIT
            for k2 in to[n + 1:]:
                stride = stride * sto[k2]
            if n == len(to) - 1:
                out[k] = lin
            else:
                d = X.idiv(lin, stride)
                out[k] = d
                lin = lin - d * stride

    def fwd(idx):
        out = {}
        for s, d in groups:
            conv(d, s, dst, src, idx, out)
        return tuple(out[k] for k in range(len(src)))

    def inv(b):
        out = {}
        for s, d in groups:
            conv(s, d, src, dst, b, out)
        return True, tuple(out[k] for k in range(len(dst)))
    return fwd, inv


# ----------------------------------------------------------------------
# broadcasting

def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        cur = UNIT
        for s in shapes:
            k = i - (n - len(s))
            if k < 0:
                continue
            d = s[k]
            if d == UNIT or d == cur:
                continue
            if cur == UNIT:
                cur = d
                continue
            e = c_eq0(cur - d)
            if e is True:
                continue
            raise TorchError(f'The size of tensor a ({cur}) must match the size '
                             f'of tensor b ({d})')
        out.append(cur)
    return tuple(out)


def bidx(idx, shape, out):
    'Index into a tensor of shape `shape` from an index into `out`.'
    k = len(out) - len(shape)
    return tuple(ZERO if (s == UNIT and o != UNIT) else (ZERO if s == UNIT else i)
                 for i, s, o in zip(idx[k:], shape, out[k:]))


def expand_to(t, shape):
    if t._shape == tuple(shape):
        return t
    out = bshape(t._shape, tuple(shape))
    if out != tuple(shape):
        for a, b in zip(out, shape):
            if a != b and c_eq0(a - b) is not True:
                raise TorchError(f'cannot expand {t._shape} to {shape}')
    s = t.snap()
    sh = t._shape
    return t.new(shape, lambda idx: s(bidx(idx, sh, shape)))


def as_t(x, like=None):
    if isinstance(x, T):
        return x
    if _isnum(x):
        p = P(x)
        return T((), lambda idx: p)
    if isinstance(x, SymBool):
        return T((), lambda idx: cond_ind(x.c), isbool=True)
    raise Unsupported(f'not a tensor: {type(x)}')


def binop(a, b, f, isbool=False):
    if not isinstance(b, T):
        if not (_isnum(b) or isinstance(b, (bool, SymBool))):
            if isinstance(b, (list, tuple)) or b is None:
                raise TypeError(f'unsupported operand: {type(b)}')
            return NotImplemented
        if isinstance(b, SymBool):
            b = as_t(b)
        else:
            p = P(b)
            s = a.snap()
            return a.cls(a._shape, lambda idx: f(s(idx), p), a.dtype, isbool=isbool)
    out = bshape(a._shape, b._shape)
    sa, sb = a.snap(), b.snap()
    ash, bsh = a._shape, b._shape
    return a.cls(out, lambda idx: f(sa(bidx(idx, ash, out)), sb(bidx(idx, bsh, out))),
                 a.dtype if a.dtype.is_floating_point else b.dtype, isbool=isbool)


def matmul(a, b):
    a, b = as_t(a), as_t(b)
    va, vb = a.ndim == 1, b.ndim == 1
    sa, sb = a.snap(), b.snap()
    ash = (UNIT,) + a._shape if va else a._shape
    bsh = b._shape + (UNIT,) if vb else b._shape
    if not a.ndim or not b.ndim:
        raise TorchError('matmul of scalars')
    n = ash[-1]
    if n != bsh[-2] and c_eq0(n - bsh[-2]) is not True:
        raise TorchError(f'mat1 and mat2 shapes cannot be multiplied '
                         f'({ash} and {bsh})')
    batch = bshape(ash[:-2], bsh[:-2])
    out = batch + (ash[-2], bsh[-1])

    def content(idx):
        # idx over reduced output
        full = list(idx)
        if va:
            full.insert(len(batch), ZERO)
        if vb:
            full.append(ZERO)
        bi, r, c = tuple(full[:-2]), full[-2], full[-1]
        v = new_idx(n)
        ia = bidx(bi, ash[:-2], batch) + (r, P(v))
        ib = bidx(bi, bsh[:-2], batch) + (P(v), c)
        if va:
            ia = ia[:-2] + (P(v),)
        if vb:
            ib = ib[:-1]
        return msum(v, sa(ia) * sb(ib))
    res = list(out)
    if vb:
        res.pop()
    if va:
        res.pop(len(batch))
    return a.cls(res, content, a.dtype)


def inverse(t):
    if t.ndim < 2 or (t._shape[-1] != t._shape[-2]):
        if t.ndim >= 2 and c_eq0(t._shape[-1] - t._shape[-2]) is True:
            pass
        else:
            raise TorchError('inverse: batches of square matrices expected')
    s = t.snap()
    n = t._shape[-1]

    def content(idx):
        i, j = new_idx(n, 'r'), new_idx(n, 'c')
        return X.matfn('minv', n, i, j, s(idx[:-2] + (P(i), P(j))), idx[-2], idx[-1])
    return t.new(t._shape, content)


def logdet(t):
    s = t.snap()
    n = t._shape[-1]
    if t.ndim < 2 or t._shape[-1] != t._shape[-2]:
        raise TorchError('logdet')

    def content(idx):
        i, j = new_idx(n, 'r'), new_idx(n, 'c')
        return X.matfn('mlogdet', n, i, j, s(idx + (P(i), P(j))))
    return t.new(t._shape[:-2], content)


def cholesky(t, upper=False):
    s = t.snap()
    n = t._shape[-1]
    if t.ndim < 2 or t._shape[-1] != t._shape[-2]:
        raise TorchError('cholesky')

    def content(idx):
        i, j = new_idx(n, 'r'), new_idx(n, 'c')
        a, b = (idx[-1], idx[-2]) if upper else (idx[-2], idx[-1])
        return X.matfn('chol', n, i, j, s(idx[:-2] + (P(i), P(j))), a, b)
    return t.new(t._shape, content)


def diag(t):
    s = t.snap()
    if t.ndim == 1:
        n = t._shape[0]
        return t.new((n, n), lambda idx: ite(c_eq0(idx[0] - idx[1]), s((idx[0],)), ZERO))
    return t.diagonal()


def flip(t, dims):
    if not isinstance(dims, (tuple, list)):
        dims = (dims,)
    ds = [dimidx(d, t.ndim) for d in dims]
    s, sh = t.snap(), t._shape
    return t.new(sh, lambda idx: s(tuple(sh[k] - 1 - i if k in ds else i
                                         for k, i in enumerate(idx))))


def cat(ts, dim=0):
    if isinstance(ts, SymList):
        return ts.cat(dim)
    ts = [t for t in ts]
    for t in ts:
        if not isinstance(t, T):
            raise TypeError(f'expected Tensor as element of cat, got {type(t)}')
    if not ts:
        raise TorchError('cat of an empty list')
    ts = [t for t in ts if not (t.ndim == 1 and t._shape[0] == ZERO)] or ts[:1]
    nd = ts[0].ndim
    if nd == 0:
        raise TorchError('zero-dimensional tensor cannot be concatenated')
    d = dimidx(dim, nd)
    for t in ts[1:]:
        if t.ndim != nd:
            raise TorchError('Tensors must have same number of dimensions')
        for k in range(nd):
            if k != d and t._shape[k] != ts[0]._shape[k] and \
                    c_eq0(t._shape[k] - ts[0]._shape[k]) is not True:
                raise TorchError('Sizes of tensors must match except in '
                                 f'dimension {d}: {ts[0]._shape} {t._shape}')
    tot = ZERO
    segs = []
    for t in ts:
        segs.append((tot, t._shape[d], t.snap()))
        tot = tot + t._shape[d]
    shape = list(ts[0]._shape)
    shape[d] = tot

    def content(idx):
        q = idx[d]

        def rec(k):
            off, n, s = segs[k]
            v = lambda: s(idx[:d] + ((q - off) if n != UNIT else ZERO,) + idx[d + 1:])
            if k == len(segs) - 1:
                return v()
            c = c_lt0(q - off - n)
            if c is True:
                return v()
            if c is False:
                return rec(k + 1)
            with X.facts(c):
                a = v()
            with X.facts(c_not(c)):
                b = rec(k + 1)
            return ite(c, a, b)
        return rec(0)
    return ts[0].new(shape, content)


def stack(ts, dim=0):
    if isinstance(ts, SymList):
        return ts.stack(dim)
    ts = list(ts)
    nd = ts[0].ndim + 1
    d = dim + nd if dim < 0 else dim
    return cat([t.unsqueeze(d) for t in ts], d)


def where(c, a, b):
    ct = as_t(c) if not isinstance(c, T) else c
    a, b = as_t(a), as_t(b)
    out = bshape(ct._shape, a._shape, b._shape)
    sc, sa, sb = ct.snap(), a.snap(), b.snap()

    def content(idx):
        cc = ind_cond(sc(bidx(idx, ct._shape, out)))
        return ite(cc, sa(bidx(idx, a._shape, out)), sb(bidx(idx, b._shape, out)))
    return a.cls(out, content, a.dtype)


_fresh_names = [0]


def fresh_name(prefix):
    _fresh_names[0] += 1
    return f'{prefix}${_fresh_names[0]}'


def input_tensor(name, shape, **flags):
    shape = tuple(P(s) for s in shape)
    X.TENSORS[name] = X.TensorInfo(name, len(shape), shape=shape, **flags)
    t = T(shape, lambda idx: X.elem(name, idx))
    if flags.get('isint'):
        t.dtype = int64
    return t


def sort(t, dim, descending):
    if t.ndim != 1:
        raise Unsupported('sort of a matrix')
    n = t._shape[0]
    name = fresh_name('ord')
    inv = name + "'"
    # a permutation and its inverse; sortedness is recorded for the contracts
    X.TENSORS[name] = X.TensorInfo(name, 1, isint=True, nonneg=True, lo=ZERO,
                                   hi=n, perm_inv=inv, shape=(n,))
    X.TENSORS[inv] = X.TensorInfo(inv, 1, isint=True, nonneg=True, lo=ZERO,
                                  hi=n, perm_inv=name, shape=(n,))
    s = t.snap()
    sgn = -1 if descending else 1

    def perm(env):
        k = ('perm', name)
        if k not in env.cache:
            m = int(env.ev(n))
            vals = []
            v = new_idx(n, 's')
            body = s((P(v),))
            for i in range(m):
                old = env.loc.get(v)
                env.loc[v] = i
                vals.append((sgn * env.ev(body), i))
            env.cache[k] = [i for _, i in sorted(vals)]
        return env.cache[k]
    X.TENSORS[name].spec = lambda env, idx: perm(env)[idx[0]] if 0 <= idx[0] < len(perm(env)) else 0
    X.TENSORS[inv].spec = lambda env, idx: perm(env).index(idx[0]) if idx[0] in perm(env) else 0
    ix = T((n,), lambda idx: X.elem(name, idx), int64)
    X.TENSORS[name].sortkey = (s, bool(descending))
    vals = T((n,), lambda idx: s((X.elem(name, idx),)))
    return MaxRet(vals, ix)


def nonzero(t):
    k = t.meta.get('tril')
    if t.ndim == 2 and k is not None and t._shape[0] == t._shape[1]:
        D = t._shape[0]
        if P(k) == P(-1):
            # strict lower triangle in row-major order
            m = D * (D - 1) * Fraction(1, 2)
            return TrilIdx(D, m)
    raise Unsupported('nonzero')


class TrilIdx(T):
    'Row-major list of the (row, col) pairs of the strict lower triangle.'

    def __init__(self, D, m, transposed=False):
        self.D, self.m = D, m
        rname, cname = 'trilrow', 'trilcol'
        for nm in (rname, cname):
            if nm in X.TENSORS and X.TENSORS[nm].hi != D:
                raise Unsupported('triangles of two sizes')
            X.TENSORS[nm] = X.TensorInfo(nm, 1, isint=True, nonneg=True, lo=ZERO, hi=D)

        def row(env, idx):
            q, r = idx[0], 1
            while q >= r:
                q -= r
                r += 1
            return r

        def col(env, idx):
            q, r = idx[0], 1
            while q >= r:
                q -= r
                r += 1
            return q
        X.TENSORS[rname].spec = row
        X.TENSORS[cname].spec = col

        def content(idx):
            q, w = (idx[0], idx[1]) if not transposed else (idx[1], idx[0])
            return ite(c_eq0(w), X.elem(rname, (q,)), X.elem(cname, (q,)))
        shape = (m, P(2)) if not transposed else (P(2), m)
        T.__init__(self, shape, content, int64)
        self.transposed = transposed

    def t(self):
        return TrilIdx(self.D, self.m, not self.transposed)

    def _col(self, w):
        nm = ('trilrow', 'trilcol')[w]
        r = T((self.m,), lambda idx: X.elem(nm, idx), int64)
        r.meta['trilcol'] = (w, self.D)
        return r

    def __getitem__(self, key):
        if self.transposed and isinstance(key, int):
            return self._col(key)
        if not self.transposed and isinstance(key, tuple) and len(key) == 2 \
                and key[0] == slice(None) and isinstance(key[1], int):
            return self._col(key[1])
        return T.__getitem__(self, key)

    def __iter__(self):
        if self.transposed:
            return iter([self._col(0), self._col(1)])
        return T.__iter__(self)


# ----------------------------------------------------------------------
# symbolic sequences

class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = P(start), P(stop), step
        if step not in (1, -1):
            raise Unsupported('range step')
        n = (self.stop - self.start) if step == 1 else (self.start - self.stop)
        if not X.prove_nonneg(n):
            c = c_lt0(n)
            from . import runtime
            if runtime.decide(c):
                n = ZERO
        self.n = n

    def symlen(self):
        return wrap(self.n)

    def elem(self, k):
        return wrap(self.start + P(k) * self.step)

    def __iter__(self):
        if self.n.is_const():
            return iter([self.elem(i) for i in range(int(self.n.const()))])
        from . import runtime
        return runtime.sym_iter(self)

    def __reversed__(self):
        if self.step == 1:
            r = SymRange.__new__(SymRange)
            r.start, r.stop, r.step = self.stop - 1, self.start - 1, -1
            r.n = self.n
            return r
        r = SymRange.__new__(SymRange)
        r.start, r.stop, r.step = self.stop + 1, self.start + 1, 1
        r.n = self.n
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of range')
        return self.elem(P(i))


class SymList:
    'A python list of symbolic length; element i given by a function of i.'

    def __init__(self, n, f, name=None):
        self.n = P(n)
        self.f = f
        self.name = name

    def symlen(self):
        return wrap(self.n)

    def elem(self, k):
        return self.f(P(k))

    def __iter__(self):
        if self.n.is_const():
            return iter([self.f(P(i)) for i in range(int(self.n.const()))])
        from . import runtime
        return runtime.sym_iter(self)

    def __reversed__(self):
        return SymList(self.n, lambda k: self.f(self.n - 1 - k))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    return reversed(self)
                raise Unsupported('list slice step')
            lo, hi = norm_slice(i, self.n)
            return SymList(hi - lo, lambda k: self.f(k + lo))
        k = norm_index(P(i), self.n, 'list index')
        return self.f(k)

    def __setitem__(self, i, v):
        k0 = norm_index(P(i), self.n, 'list index')
        old = self.f

        def f(k):
            c = c_eq0(k - k0)
            if c is True:
                return v
            if c is False:
                return old(k)
            return merge(c, v, old(k))
        self.f = f

    def insert(self, pos, v):
        if pos != 0:
            raise Unsupported('list insert')
        old = self.f

        def f(k):
            c = c_eq0(k)
            if c is True:
                return v
            if c is False:
                return old(k - 1)
            return merge(c, v, old(k - 1))
        self.f = f
        self.n = self.n + 1

    def append(self, v):
        old, n0 = self.f, self.n

        def f(k):
            c = c_lt0(k - n0)
            if c is True:
                return old(k)
            if c is False:
                return v
            return merge(c, old(k), v)
        self.f = f
        self.n = self.n + 1

    def reverse(self):
        old, n = self.f, self.n
        self.f = lambda k: old(n - 1 - k)

    def copy(self):
        return SymList(self.n, self.f)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            r = self.copy()
            for x in o:
                r.append(x)
            return r
        if isinstance(o, SymList):
            n0 = self.n
            fa, fb = self.f, o.f

            def f(k):
                c = c_lt0(k - n0)
                if c is True:
                    return fa(k)
                if c is False:
                    return fb(k - n0)
                return merge(c, fa(k), fb(k - n0))
            return SymList(self.n + o.n, f)
        return NotImplemented

    def __radd__(self, o):
        return SymList(len(o), lambda k: pick(o, k)) + self

    @staticmethod
    def repeat(l, n):
        if len(l) != 1:
            raise Unsupported('list repeat')
        return SymList(P(n), lambda k: l[0])

    def cat(self, dim):
        raise Unsupported('cat of a symbolic list')

    def stack(self, dim=0):
        e = self.f(P(new_idx(self.n)))
        if not isinstance(e, T):
            raise Unsupported('stack of a symbolic list')
        nd = e.ndim + 1
        d = dim + nd if dim < 0 else dim
        shape = e._shape[:d] + (self.n,) + e._shape[d:]
        f = self.f
        return T(shape, lambda idx: f(idx[d]).at(*(idx[:d] + idx[d + 1:])))

    def tensor(self):
        f = self.f
        v = f(P(new_idx(self.n)))
        if isinstance(v, SymList):
            n2 = v.n
            return T((self.n, n2), lambda idx: P(f(idx[0]).f(idx[1])))
        return T((self.n,), lambda idx: P(f(idx[0])), int64 if
                 isinstance(v, (int, SV)) and X.is_int(P(v)) else None)

    def __len__(self):
        raise Unsupported('len() outside the shim')

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic list')

    def __repr__(self):
        return f'SymList[{self.n}]'

    def index(self, *a):
        raise Unsupported('list.index')

    def __eq__(self, o):
        raise Unsupported('list equality')

    __hash__ = object.__hash__


def pick(l, k):
    k = P(k)
    if k.is_const():
        return l[int(k.const())]
    r = l[-1]
    for i in reversed(range(len(l) - 1)):
        r = merge(c_eq0(k - i), l[i], r)
    return r


def merge(c, a, b):
    'if c then a else b, for python values.'
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, T) or isinstance(b, T):
        a, b = as_t(a), as_t(b)
        if len(a._shape) != len(b._shape):
            raise Unsupported('merge of tensors of different rank')
        sa, sb = a.snap(), b.snap()
        return T(a._shape, lambda idx: ite(c, sa(idx), sb(idx)), a.dtype)
    if _isnum(a) and _isnum(b):
        return wrap(ite(c, P(a), P(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a == b:
        return a
    raise Unsupported(f'merge of {type(a)} and {type(b)}')


# ----------------------------------------------------------------------
# indexing

def norm_index(k, n, what='index'):
    if X.prove_nonneg(k):
        need(X.prove_nonneg(n - 1 - k), f'{what} {k} < {n}')
        return k
    if X.prove_nonneg(-k - 1):
        need(X.prove_nonneg(n + k), f'{what} {k} >= -{n}')
        return n + k
    raise Undecided(f'sign of {what} {k}')


def norm_slice(s, n):
    lo = ZERO if s.start is None else clamp_idx(P(s.start), n)
    hi = n if s.stop is None else clamp_idx(P(s.stop), n)
    if not X.prove_nonneg(hi - lo):
        if X.prove_nonneg(lo - hi):
            hi = lo
        else:
            from . import runtime
            if runtime.decide(c_lt0(hi - lo)):
                hi = lo
    return lo, hi


def clamp_idx(k, n):
    if X.prove_nonneg(k):
        if X.prove_nonneg(n - k):
            return k
        if X.prove_nonneg(k - n):
            return n
        from . import runtime
        return n if runtime.decide(c_lt0(n - k)) else k
    if X.prove_nonneg(-k - 1):
        k = n + k
        if X.prove_nonneg(k):
            return k
        from . import runtime
        return ZERO if runtime.decide(c_lt0(k)) else k
    from . import runtime
    if runtime.decide(c_lt0(k)):
        return clamp_idx(k, n)
    return clamp_idx(k, n)


def is_adv(k):
    if isinstance(k, T):
        return k.ndim > 0
    return isinstance(k, (list, SymList, SymRange, range))


def parse_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nspec = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, T) and k.isbool and k.ndim > 1:
            nspec += k.ndim
        else:
            nspec += 1
    ell = [i for i, k in enumerate(key) if k is Ellipsis]
    fill = t.ndim - nspec
    if fill < 0:
        raise IndexError('too many indices for tensor')
    if ell:
        i = ell[0]
        key[i:i + 1] = [slice(None)] * fill
    else:
        key += [slice(None)] * fill
    return key


def basic_view(t, key):
    'key: list of None / int / slice covering all the dims.'
    src = []       # per source dim: ('int', k) / ('sl', lo, n, rev, outpos)
    out = []
    d = 0
    contig = t.contig
    lead = True
    for k in key:
        if k is None:
            out.append((UNIT, None))
            continue
        n = t._shape[d]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if isinstance(k.step, int) and k.step == -1:
                    raise ValueError('step must be greater than zero')
                st = P(k.step)
                lo, hi = norm_slice(slice(k.start, k.stop), n)
                cnt = X.idiv(hi - lo + st - 1, st)
                src.append(('st', lo, cnt, st, len(out)))
                out.append((cnt, d))
                contig = False
            else:
                lo, hi = norm_slice(k, n)
                src.append(('sl', lo, hi - lo, len(out)))
                out.append((hi - lo, d))
                if not lead and (hi - lo) != n:
                    contig = False
                if (hi - lo) != UNIT:
                    lead = False
        else:
            kk = norm_index(P(k), n)
            src.append(('int', kk))
            if not lead:
                contig = False
        d += 1
    shape = [o[0] for o in out]

    def fwd(idx):
        r = []
        for s in src:
            if s[0] == 'int':
                r.append(s[1])
            elif s[0] == 'sl':
                r.append(idx[s[3]] + s[1])
            else:
                r.append(idx[s[4]] * s[3] + s[1])
        return tuple(r)

    def inv(b):
        c = True
        o = [ZERO] * len(out)
        for s, x, n in zip(src, b, t._shape):
            if s[0] == 'int':
                c = c_and(c, c_eq0(x - s[1]))
            elif s[0] == 'sl':
                lo, cnt = s[1], s[2]
                c = c_and(c, c_not(c_lt0(x - lo)), c_lt0(x - lo - cnt))
                o[s[3]] = x - lo
            else:
                lo, cnt, st = s[1], s[2], s[3]
                c = c_and(c, c_not(c_lt0(x - lo)), c_lt0(x - lo - cnt * st),
                          c_eq0(X.imod(x - lo, st)))
                o[s[4]] = X.idiv(x - lo, st)
        return c, tuple(o)
    return t.view_of(shape, fwd, inv, contig)


def adv_reader(k, n):
    'advanced index -> (length shape, function idx tuple -> source index).'
    if isinstance(k, T):
        if k.isbool:
            raise Unsupported('boolean mask indexing')
        s = k.snap()

        def f(idx):
            v = s(idx)
            if X.prove_nonneg(v):
                return v
            if X.prove_nonneg(-v - 1):
                return n + v
            return v
        return k._shape, f
    if isinstance(k, SymRange):
        return (k.n,), lambda idx: P(k.elem(idx[0]))
    if isinstance(k, range):
        return (P(len(k)),), lambda idx: P(pick(list(k), idx[0])) \
            if not (k.start == 0 and k.step == 1) else idx[0]
    if isinstance(k, SymList):
        v = k.f(P(new_idx(k.n)))
        if isinstance(v, T) and v.ndim:
            raise Unsupported('nested symbolic index list')
        return (k.n,), lambda idx: P(k.f(idx[0]))
    if isinstance(k, list):
        if any(isinstance(x, (list, SymList)) for x in k):
            raise Unsupported('nested index list')
        if any(isinstance(x, bool) for x in k):
            raise Unsupported('boolean list index')
        ps = [P(x) for x in k]
        ps = [norm_index(p, n) for p in ps]
        return (P(len(ps)),), lambda idx: P(pick([wrap(p) for p in ps], idx[0]))
    raise Unsupported(f'index {k!r}')


def getitem(t, key):
    key = parse_key(t, key)
    key = [SV(k.item_poly()) if isinstance(k, T) and k.ndim == 0 and not k.isbool
           else k for k in key]
    if not any(is_adv(k) for k in key):
        return basic_view(t, key)
    return adv_get(t, key)


UNPROVED = []        # implicit obligations left open on this path


def _adv_bounds(k, sh, f, n):
    'implicit obligation: every index selected is in range'
    if any(X.prove_nonneg(-s) for s in sh):
        return
    try:
        v = f(tuple(P(new_idx(s, 'g')) for s in sh))
    except (Unsupported, Undecided):
        UNPROVED.append(f'index < {n}')
        return
    if X.prove_nonneg(n - 1 - v) and X.prove_nonneg(v + n):
        NIMPLICIT[0] += 1
    else:
        UNPROVED.append(f'index {v} < {n}')


def _adv_plan(t, key):
    'Common analysis of advanced indexing.'
    plan = []           # per key entry
    d = 0
    advs = []
    for k in key:
        if k is None:
            plan.append(('new',))
            continue
        n = t._shape[d]
        if is_adv(k):
            if isinstance(k, T) and k.isbool:
                raise Unsupported('boolean mask indexing')
            sh, f = adv_reader(k, n)
            _adv_bounds(k, sh, f, n)
            meta = k.meta if isinstance(k, T) else {}
            plan.append(('adv', d, len(advs)))
            advs.append((sh, f, meta, k, n))
        elif isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('mixed strided advanced index')
            lo, hi = norm_slice(k, n)
            plan.append(('sl', d, lo, hi - lo))
        else:
            plan.append(('int', d, norm_index(P(k), n)))
        d += 1
    ash = bshape(*[a[0] for a in advs])
    # in torch an int index combined with advanced ones is advanced as well
    pos = [i for i, p in enumerate(plan) if p[0] in ('adv', 'int')]
    contiguous = all(b - a == 1 for a, b in zip(pos, pos[1:]))
    return plan, advs, ash, pos, contiguous


def _adv_out(plan, ash, pos, contiguous):
    'Output layout: list of ("a", k) / ("s", plan index) / ("n",).'
    out = []
    inserted = False
    if not contiguous:
        out += [('a', k) for k in range(len(ash))]
        inserted = True
    for i, p in enumerate(plan):
        if p[0] in ('adv', 'int'):
            if not inserted:
                out += [('a', k) for k in range(len(ash))]
                inserted = True
        elif p[0] == 'sl':
            out.append(('s', i))
        else:
            out.append(('n',))
    return out


def adv_get(t, key):
    plan, advs, ash, pos, contiguous = _adv_plan(t, key)
    out = _adv_out(plan, ash, pos, contiguous)
    shape = [ash[o[1]] if o[0] == 'a' else plan[o[1]][3] if o[0] == 's' else UNIT
             for o in out]
    s = t.snap()

    def content(idx):
        ai = [None] * len(ash)
        si = {}
        for o, x in zip(out, idx):
            if o[0] == 'a':
                ai[o[1]] = x
            elif o[0] == 's':
                si[o[1]] = x
        full = []
        for i, p in enumerate(plan):
            if p[0] == 'adv':
                sh, f, _, _, _ = advs[p[2]]
                full.append(f(bidx(tuple(ai), sh, ash)))
            elif p[0] == 'int':
                full.append(p[2])
            elif p[0] == 'sl':
                full.append(si[i] + p[2])
        return s(tuple(full))
    return t.new(shape, content, isbool=t.isbool)


def setitem(t, key, val):
    key = parse_key(t, key)
    key = [SV(k.item_poly()) if isinstance(k, T) and k.ndim == 0 and not k.isbool
           else k for k in key]
    if isinstance(val, (SymBool, bool)):
        val = as_t(val) if isinstance(val, SymBool) else int(val)
    if not any(is_adv(k) for k in key):
        v = basic_view(t, key)
        if isinstance(val, T):
            val = drop_lead(val, v._shape)
        v._assign(val if isinstance(val, T) else P(val) if _isnum(val) else
                  _bad(val))
        return
    adv_set(t, key, val)


def _bad(v):
    raise Unsupported(f'assign {type(v)}')


def drop_lead(val, shape):
    while val.ndim > len(shape) and val._shape[0] == UNIT:
        val = val[0]
    return val


def adv_set(t, key, val):
    plan, advs, ash, pos, contiguous = _adv_plan(t, key)
    out = _adv_out(plan, ash, pos, contiguous)
    shape = tuple(ash[o[1]] if o[0] == 'a' else plan[o[1]][3] if o[0] == 's'
                  else UNIT for o in out)
    if isinstance(val, T):
        vs = expand_to(drop_lead(val, shape), shape).snap()
    else:
        p0 = P(val)
        vs = lambda idx: p0
    old = t.snap()
    advdims = [p for p in plan if p[0] == 'adv']

    def content(b):
        # find the (unique) advanced position mapping to b, if any
        c = True
        si = {}
        for i, p in enumerate(plan):
            if p[0] == 'int':
                c = c_and(c, c_eq0(b[p[1]] - p[2]))
            elif p[0] == 'sl':
                lo, cnt = p[2], p[3]
                c = c_and(c, c_not(c_lt0(b[p[1]] - lo)), c_lt0(b[p[1]] - lo - cnt))
                si[i] = b[p[1]] - lo
        if c is False:
            return old(b)
        for ca, ai in adv_preimage(advs, advdims, ash, b):
            cc = c_and(c, ca)
            if cc is False:
                continue
            idx = []
            for o in out:
                if o[0] == 'a':
                    idx.append(ai[o[1]])
                elif o[0] == 's':
                    idx.append(si[o[1]])
                else:
                    idx.append(ZERO)
            v = vs(tuple(idx))
            if cc is True:
                return v
            return ite(cc, v, content_rest(b, c, ca, old))
        return old(b)

    def content_rest(b, c, ca, old):
        return old(b)
    # several constant positions: handle explicitly
    if len(ash) == 1 and ash[0].is_const():
        n = int(ash[0].const())

        def content(b):      # noqa: F811
            r = old(b)
            for q in range(n):
                c = True
                si = {}
                for i, p in enumerate(plan):
                    if p[0] == 'int':
                        c = c_and(c, c_eq0(b[p[1]] - p[2]))
                    elif p[0] == 'sl':
                        lo, cnt = p[2], p[3]
                        c = c_and(c, c_not(c_lt0(b[p[1]] - lo)),
                                  c_lt0(b[p[1]] - lo - cnt))
                        si[i] = b[p[1]] - lo
                    elif p[0] == 'adv':
                        sh, f, _, _, _ = advs[p[2]]
                        c = c_and(c, c_eq0(b[p[1]] - f(bidx((P(q),), sh, ash))))
                if c is False:
                    continue
                idx = [P(q) if o[0] == 'a' else si[o[1]] if o[0] == 's' else ZERO
                       for o in out]
                r = ite(c, vs(tuple(idx)), r)
            return r
    t._assign(content)


def adv_preimage(advs, advdims, ash, b):
    '''Solve adv index functions = b coordinates.  Yields (cond, adv idx).'''
    if len(ash) != 1:
        raise Unsupported('assignment through multi-dimensional index')
    # strict lower triangle pair
    metas = [advs[p[2]][2].get('trilcol') for p in advdims]
    if len(advdims) == 2 and all(m is not None for m in metas) and \
            {m[0] for m in metas} == {0, 1}:
        r = b[advdims[[m[0] for m in metas].index(0)][1]]
        c = b[advdims[[m[0] for m in metas].index(1)][1]]
        yield c_lt0(c - r), (r * (r - 1) * Fraction(1, 2) + c,)
        return
    sols = []
    for p in advdims:
        sh, f, meta, k, n = advs[p[2]]
        if sh[0] == UNIT and ash[0] != UNIT:
            raise Unsupported('broadcast advanced assignment')
        q = new_idx(ash[0], 'q')
        fv = f((P(q),))
        lin = X._linear_in(fv, q)
        tgt = b[p[1]]
        if lin is not None and abs(lin[0]) == 1:
            cf, r = lin
            sols.append((tgt - r) if cf == 1 else (r - tgt))
            continue
        a = fv.single()
        if a is not None and a.kind == 'elem' and len(a.args) == 2 and \
                a.args[1].single() is q and X.TENSORS[a.args[0]].perm_inv:
            sols.append(X.elem(X.TENSORS[a.args[0]].perm_inv, (tgt,)))
            continue
        inj = X.TENSORS[a.args[0]].rng if a is not None and a.kind == 'elem' else None
        if inj is not None and a.args[1].single() is q:
            # injective map with partial inverse: inj = name of the inverse
            sols.append(('partial', inj, a.args[0], tgt))
            continue
        sols.append(None)
    main = next((s for s in sols if isinstance(s, Poly)), None)
    if main is None:
        part = next((s for s in sols if isinstance(s, tuple)), None)
        if part is None:
            raise Unsupported('cannot invert an index expression')
        _, inj, fname, tgt = part
        main = X.elem(inj, (tgt,))
        c = c_eq0(X.elem(fname, (main,)) - tgt)
        c = c_and(c, c_not(c_lt0(main)), c_lt0(main - ash[0]))
        others = [p for p in advdims]
        for p in others:
            sh, f, meta, k, n = advs[p[2]]
            v = f((main,))
            if isinstance(v, Poly) and v != X.elem(fname, (main,)):
                c = c_and(c, c_eq0(b[p[1]] - v))
        yield c, (main,)
        return
    c = c_and(c_not(c_lt0(main)), c_lt0(main - ash[0]))
    for p, s in zip(advdims, sols):
        if isinstance(s, Poly) and s == main:
            continue
        sh, f, meta, k, n = advs[p[2]]
        c = c_and(c, c_eq0(b[p[1]] - f((main,))))
    yield c, (main,)
