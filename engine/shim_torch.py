"""Symbolic stand-in for `torch` (assumed contracts of the torch operations:
every operation is given its mathematical meaning over the reals)."""
import copy
import sys
import types
from collections import OrderedDict
from fractions import Fraction

from . import expr as X
from . import tensor as TT
from .expr import P, Poly, Unsupported, ZERO, UNIT, new_idx
from .tensor import T, SV, SymList, SymRange, Device, DType, wrap, as_t

torch = types.ModuleType('torch')
_sub = {}


def submodules():
    return _sub


def importer(name, fromlist):
    if name == 'torch':
        return torch
    if name in _sub:
        return _sub[name] if fromlist else torch
    raise ImportError(name)


def mod(name):
    m = types.ModuleType(name)
    _sub[name] = m
    parent, _, leaf = name.rpartition('.')
    setattr(torch if parent == 'torch' else _sub[parent], leaf, m)
    return m


def pub(obj, f=None, name=None):
    def deco(g):
        setattr(obj, name or g.__name__.rstrip('_'), g)
        return g
    return deco(f) if f else deco


class _TensorMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, T)


class Tensor(metaclass=_TensorMeta):
    pass


torch.Tensor = Tensor
torch.float32 = torch.float = TT.float32
torch.float64 = torch.double = TT.float64
torch.long = torch.int64 = TT.int64
torch.int = torch.int32 = TT.int32
torch.bool = TT.bool_
torch.uint8 = TT.uint8
torch.dtype = DType
torch.device = Device
torch.inf = float('inf')
torch.pi = SV(X.PI)
torch.Size = TT.Size
torch.strided = None


class _GradMode:
    def __init__(self, off):
        self.off = off
        self.old = []

    def __enter__(self):
        self.old.append(TT.NOGRAD[0])
        TT.NOGRAD[0] = self.off
        return self

    def __exit__(self, *a):
        TT.NOGRAD[0] = self.old.pop()
        return False

    def __call__(self, f):
        def g(*a, **k):
            with self:
                return f(*a, **k)
        return g


torch.no_grad = torch.inference_mode = lambda: _GradMode(True)
torch.enable_grad = lambda: _GradMode(False)
torch.set_grad_enabled = lambda f: _GradMode(not f)
torch.is_grad_enabled = lambda: not TT.NOGRAD[0]
torch.is_tensor = lambda x: isinstance(x, T)
torch.manual_seed = lambda s: None
torch.set_default_dtype = lambda s: None
torch.get_default_dtype = lambda: TT.float32
cuda = mod('torch.cuda')
cuda.is_available = lambda: False


def _shape(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    return tuple(P(x) for x in a)


def full_(shape, v, dtype=None):
    v = P(v)
    t = T(shape, lambda idx: v, dtype or TT.float32)
    return t


@pub(torch)
def zeros(*a, dtype=None, device=None, requires_grad=False, size=None):
    return full_(_shape(a or (size,)), 0, dtype)


@pub(torch)
def ones(*a, dtype=None, device=None, requires_grad=False):
    t = full_(_shape(a), 1, dtype)
    t.meta['allpos'] = True
    return t


@pub(torch)
def empty(*a, dtype=None, device=None, **k):
    sh = _shape(a)
    nm = TT.fresh_name('uninit')
    X.TENSORS[nm] = X.TensorInfo(nm, len(sh))
    return T(sh, lambda idx: X.elem(nm, idx), dtype)


@pub(torch)
def full(shape, v, dtype=None, device=None, **k):
    return full_(_shape((shape,)), v, dtype)


@pub(torch)
def zeros_like(t, dtype=None, **k):
    return full_(t._shape, 0, dtype or t.dtype)


@pub(torch)
def ones_like(t, dtype=None, **k):
    r = full_(t._shape, 1, dtype or t.dtype)
    r.meta['allpos'] = True
    return r


@pub(torch)
def full_like(t, v, dtype=None, **k):
    return full_(t._shape, v, dtype or t.dtype)


@pub(torch)
def eye(n, m=None, dtype=None, device=None, requires_grad=False):
    m = n if m is None else m
    return T((P(n), P(m)), lambda idx: X.ite(X.c_eq0(idx[0] - idx[1]), UNIT, ZERO),
             dtype or TT.float32)


@pub(torch)
def arange(*a, dtype=None, device=None, **k):
    a = [P(x) for x in a]
    if len(a) == 1:
        lo, hi = ZERO, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('arange step')
    r = T((hi - lo,), lambda idx: idx[0] + lo, dtype or (
        TT.int64 if X.is_int(lo) else TT.float32))
    return r


@pub(torch)
def linspace(*a, **k):
    raise Unsupported('linspace')


def _nested(x):
    'nested python data -> (shape, content)'
    if isinstance(x, T):
        return x._shape, x.snap()
    if isinstance(x, (SymList, SymRange)):
        if isinstance(x, SymRange):
            return (x.n,), lambda idx: P(x.elem(idx[0]))
        t = x.tensor()
        return t._shape, t.snap()
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return (ZERO,), lambda idx: ZERO
        subs = [_nested(y) for y in x]
        n = P(len(x))

        def f(idx):
            k = idx[0]
            if k.is_const():
                return subs[int(k.const())][1](idx[1:])
            r = subs[-1][1](idx[1:])
            for i in reversed(range(len(subs) - 1)):
                r = X.ite(X.c_eq0(k - i), subs[i][1](idx[1:]), r)
            return r
        return (n,) + subs[0][0], f
    if isinstance(x, TT.SymBool):
        return (), lambda idx: TT.cond_ind(x.c)
    p = P(x)
    return (), lambda idx: p


@pub(torch)
def tensor(x, dtype=None, device=None, requires_grad=False):
    if hasattr(x, 'shape') and not isinstance(x, T):
        x = x.tolist()
    sh, f = _nested(x)
    isint = _leaf_int(x)
    t = T(sh, f, dtype or (TT.int64 if isint else TT.float32))
    t.frozen = bool(X.LEAVES)       # values are copied out of the graph
    return t.clone()


def _leaf_int(x):
    while isinstance(x, (list, tuple)) and len(x):
        x = x[0]
    if isinstance(x, SymList):
        x = x.f(P(new_idx(x.n)))
    if isinstance(x, (SymRange, range)):
        return True
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    if isinstance(x, SV):
        return X.is_int(x.poly)
    if isinstance(x, T):
        return not x.dtype.is_floating_point
    return False


@pub(torch)
def as_tensor(x, dtype=None, device=None):
    return x if isinstance(x, T) else torch.tensor(x, dtype=dtype)


@pub(torch)
def LongTensor(x=(), device=None):
    if isinstance(x, int):
        raise Unsupported('LongTensor(int)')
    t = tensor(x)
    t.dtype = TT.int64
    return t


@pub(torch)
def FloatTensor(x=(), device=None):
    t = tensor(x)
    t.dtype = TT.float32
    return t


@pub(torch)
def from_numpy(x):
    from . import shim_numpy
    if not isinstance(x, shim_numpy.NA):
        if isinstance(x, T):
            raise TypeError('expected np.ndarray (got Tensor)')
        raise Unsupported('from_numpy')
    return shared(x, T, getattr(TT, x.dtype.name))


def shared(x, cls, dtype):
    'the same memory as another kind of array'
    r = cls(x._shape, None, dtype, x.views, x.storage, isbool=x.isbool)
    r.contig, r.frozen = x.contig, x.frozen
    return r


RANDOM = []


@pub(torch)
def randn(*a, dtype=None, device=None, requires_grad=False):
    'arbitrary noise: an uninterpreted tensor (any value)'
    sh = _shape(a)
    nm = f'noise{len(RANDOM)}'
    t = TT.input_tensor(nm, sh)
    RANDOM.append(t)
    return t


@pub(torch)
def rand(*a, **k):
    return randn(*a)


@pub(torch)
def randn_like(t, **k):
    return randn(*t.shape)


torch.normal = lambda *a, **k: (_ for _ in ()).throw(Unsupported('normal'))


def unary(name, f=None):
    m = f or (lambda t, *a, **k: getattr(as_t(t), name)(*a, **k))
    setattr(torch, name, m)


for _n in ('exp', 'log', 'sqrt', 'digamma', 'lgamma', 'sigmoid', 'tanh', 'abs',
           'log1p', 'expm1', 'square', 'reciprocal', 'sum', 'mean', 'prod',
           'logsumexp', 'argmax', 'argmin', 'softmax', 'log_softmax', 'cumsum',
           'cumprod', 'clamp', 'trace', 'max', 'min', 'norm', 'reshape',
           'transpose', 'squeeze', 'unsqueeze', 'flatten', 'gather', 'split',
           'chunk', 'nonzero', 'sort', 'argsort', 'tril', 'triu', 'neg',
           'index_select', 'unbind', 'clone', 'pow', 'permute', 'narrow', 't',
           'diagonal', 'any', 'all', 'var', 'numel'):
    unary(_n)
torch.special = types.SimpleNamespace(digamma=torch.digamma, gammaln=torch.lgamma,
                                      psi=torch.digamma)
torch.mvlgamma = lambda t, p: (_ for _ in ()).throw(Unsupported('mvlgamma'))
torch.add = lambda a, b: as_t(a) + b
torch.mul = lambda a, b: as_t(a) * b
torch.sub = lambda a, b: as_t(a) - b
torch.div = lambda a, b: as_t(a) / b
torch.eq = lambda a, b: as_t(a) == b
torch.isnan = lambda t: t != t
torch.floor = lambda t: t.map(lambda a: X.fn('floor', a))
torch.cat = TT.cat
torch.concat = TT.cat
torch.stack = TT.stack
torch.where = TT.where
torch.flip = TT.flip
torch.diag = TT.diag
torch.inverse = TT.inverse
torch.logdet = TT.logdet
torch.matmul = TT.matmul
torch.mm = torch.bmm = torch.mv = TT.matmul
torch.dot = lambda a, b: (a * b).sum()
torch.logaddexp = lambda a, b: (a.exp() + b.exp()).log()


@pub(torch)
def ger(a, b):
    return a[:, None] * b[None, :]


torch.outer = ger


@pub(torch)
def isclose(*a, **k):
    raise Unsupported('isclose')


@pub(torch)
def einsum(*a):
    raise Unsupported('einsum')


def _removed(name):
    def f(*a, **k):
        raise RuntimeError(f'torch.{name} was removed from torch')
    return f


torch.cholesky = _removed('cholesky')
torch.symeig = _removed('symeig')


class finfo:
    def __init__(self, dt):
        # machine epsilon treated as zero (mathematical reals)
        self.eps = 0
        self.tiny = 0
        self.max = float('inf')
        self.min = -float('inf')


torch.finfo = finfo
linalg = mod('torch.linalg')
linalg.cholesky = TT.cholesky
linalg.inv = TT.inverse
linalg.slogdet = lambda t: (None, TT.logdet(t))
linalg.norm = lambda t, **k: t.norm(**k)
linalg.matmul = TT.matmul


# ----------------------------------------------------------------------
# torch.nn

nn = mod('torch.nn')
F = mod('torch.nn.functional')
autograd = mod('torch.autograd')


class Parameter(T):
    def __new__(cls, data=None, requires_grad=True):
        r = T.detach(data)
        r.__class__ = Parameter
        r.requires_grad = requires_grad
        if r.frozen and not data.frozen:
            a = data.at(*[X.new_idx(n, 'p') for n in data._shape]).single()
            r.frozen = not (a is not None and a.kind == 'elem')
        return r

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        return T.__getattr__(self, name)


nn.Parameter = Parameter
nn.parameter = types.SimpleNamespace(Parameter=Parameter)


class Module:
    def __init__(self, *a, **k):
        d = self.__dict__
        d.setdefault('_parameters', OrderedDict())
        d.setdefault('_buffers', OrderedDict())
        d.setdefault('_modules', OrderedDict())
        d.setdefault('training', True)

    def __setattr__(self, name, v):
        d = self.__dict__
        if isinstance(getattr(type(self), name, None), property) and \
                not isinstance(v, (Module, Parameter)):
            object.__setattr__(self, name, v)
            return
        if '_parameters' not in d:
            if isinstance(v, (Module, Parameter)):
                raise AttributeError('cannot assign before Module.__init__() call')
            object.__setattr__(self, name, v)
            return
        if isinstance(v, Parameter):
            for k in ('_buffers', '_modules'):
                d[k].pop(name, None)
            d.pop(name, None)
            d['_parameters'][name] = v
        elif name in d['_parameters']:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v)}' as parameter '{name}'")
            d['_parameters'][name] = None
        elif isinstance(v, Module):
            d['_buffers'].pop(name, None)
            d.pop(name, None)
            d['_modules'][name] = v
        elif name in d['_modules']:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v)}' as child module '{name}'")
            d['_modules'][name] = None
        elif name in d['_buffers']:
            if v is not None and not isinstance(v, T):
                raise TypeError(f"cannot assign '{type(v)}' as buffer '{name}'")
            d['_buffers'][name] = v
        else:
            object.__setattr__(self, name, v)

    def __getattr__(self, name):
        d = self.__dict__
        for k in ('_parameters', '_buffers', '_modules'):
            if k in d and name in d[k]:
                return d[k][name]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")

    def __delattr__(self, name):
        for k in ('_parameters', '_buffers', '_modules'):
            if name in self.__dict__[k]:
                del self.__dict__[k][name]
                return
        object.__delattr__(self, name)

    def register_buffer(self, name, t, persistent=True):
        if hasattr(self, name) and name not in self.__dict__['_buffers']:
            raise KeyError(f"attribute '{name}' already exists")
        self.__dict__['_buffers'][name] = t

    def register_parameter(self, name, p):
        self.__dict__['_parameters'][name] = p

    def add_module(self, name, m):
        self.__dict__['_modules'][name] = m

    register_module = add_module

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children(self):
        for _, m in self.named_children():
            yield m

    def named_children(self):
        seen = set()
        for n, m in self._modules.items():
            if m is not None and id(m) not in seen:
                seen.add(id(m))
                yield n, m

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def named_modules(self, memo=None, prefix=''):
        memo = set() if memo is None else memo
        if id(self) not in memo:
            memo.add(id(self))
            yield prefix, self
            for n, m in self._modules.items():
                if m is None:
                    continue
                yield from m.named_modules(memo, prefix + ('.' if prefix else '') + n)

    def named_parameters(self, prefix='', recurse=True):
        seen = set()
        for mn, m in (self.named_modules() if recurse else [('', self)]):
            for n, p in m._parameters.items():
                if p is not None and id(p) not in seen:
                    seen.add(id(p))
                    yield mn + ('.' if mn else '') + n, p

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def named_buffers(self):
        for mn, m in self.named_modules():
            for n, p in m._buffers.items():
                if p is not None:
                    yield mn + ('.' if mn else '') + n, p

    def buffers(self):
        for _, p in self.named_buffers():
            yield p

    def state_dict(self):
        r = OrderedDict(self.named_parameters())
        r.update(self.named_buffers())
        return r

    def to(self, *a, **k):
        return self

    def double(self):
        return self

    float = cpu = cuda = eval = double

    def train(self, mode=True):
        return self

    def zero_grad(self):
        pass

    def apply(self, fn):
        for m in self.children():
            m.apply(fn)
        fn(self)
        return self

    def extra_repr(self):
        return ''

    def __repr__(self):
        return type(self).__name__ + '()'

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


nn.Module = Module


class Sequential(Module):
    def __init__(self, *mods):
        super().__init__()
        if len(mods) == 1 and isinstance(mods[0], OrderedDict):
            for k, m in mods[0].items():
                self.add_module(k, m)
        else:
            for i, m in enumerate(mods):
                self.add_module(str(i), m)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        l = list(self._modules.values())
        if isinstance(i, slice):
            return type(self)(*l[i])
        return l[i]

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


nn.Sequential = Sequential


class ModuleList(Module):
    def __init__(self, mods=()):
        super().__init__()
        for i, m in enumerate(mods):
            self.add_module(str(i), m)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        l = list(self._modules.values())
        if isinstance(i, slice):
            return ModuleList(l[i])
        return l[i]

    def append(self, m):
        self.add_module(str(len(self)), m)
        return self


nn.ModuleList = ModuleList


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, **k):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        k = TT.fresh_name('lin')
        self.weight = Parameter(TT.input_tensor(k + 'W', (P(out_features), P(in_features))))
        if bias:
            self.bias = Parameter(TT.input_tensor(k + 'b', (P(out_features),)))
        else:
            self.register_parameter('bias', None)

    def forward(self, x):
        return F.linear(x, self.weight, self.bias)


nn.Linear = Linear


def _act(name, f):
    def fwd(self, x):
        return f(x)
    c = type(name, (Module,), {'forward': fwd})
    setattr(nn, name, c)


def softplus(x, *a):
    return x.map(TT.softplus)


_act('Tanh', lambda x: x.tanh())
_act('Sigmoid', lambda x: x.sigmoid())
_act('Softplus', softplus)
_act('ReLU', lambda x: x.map(lambda a: X.ite(X.c_lt0(a), ZERO, a)))
_act('Identity', lambda x: x)
_act('LeakyReLU', lambda x: x.map(lambda a: X.fn('leaky', a)))
_act('ELU', lambda x: x.map(lambda a: X.fn('elu', a)))


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim

    def forward(self, x):
        return x.softmax(self.dim)


nn.Softmax = Softmax


class _UnsupMod(Module):
    def forward(self, *a):
        raise Unsupported('nn module')


for _n in ('BatchNorm1d', 'Dropout', 'Conv1d', 'Conv2d', 'GRU', 'LSTM', 'LayerNorm'):
    setattr(nn, _n, type(_n, (_UnsupMod,), {}))


def linear(x, w, b=None):
    r = TT.matmul(x, w.t())
    return r if b is None else r + b


F.linear = linear
F.softplus = softplus
F.softmax = lambda x, dim=None: x.softmax(dim)
F.log_softmax = lambda x, dim=None: x.log_softmax(dim)
F.sigmoid = lambda x: x.sigmoid()
F.relu = lambda x: x.map(lambda a: X.ite(X.c_lt0(a), ZERO, a))
F.tanh = lambda x: x.tanh()


def pad(t, pads, mode='constant', value=0):
    r = t
    for i in range(len(pads) // 2):
        d = t.ndim - 1 - i
        lo, hi = pads[2 * i], pads[2 * i + 1]
        parts = []
        if lo:
            sh = list(r._shape)
            sh[d] = P(lo)
            parts.append(full_(sh, value))
        parts.append(r)
        if hi:
            sh = list(r._shape)
            sh[d] = P(hi)
            parts.append(full_(sh, value))
        r = TT.cat(parts, d)
    return r


F.pad = pad


def one_hot(x, n):
    s = x.snap()
    return T(x._shape + (P(n),), lambda idx: X.ite(X.c_eq0(s(idx[:-1]) - idx[-1]),
                                                  UNIT, ZERO), TT.int64)


F.one_hot = one_hot
init = mod('torch.nn.init')
optim = mod('torch.optim')


class _Opt:
    def __init__(self, *a, **k):
        self.calls = []

    def zero_grad(self, *a, **k):
        self.calls.append('zero_grad')

    def step(self, *a):
        self.calls.append('step')

    def state_dict(self):
        return {'calls': list(self.calls)}

    def load_state_dict(self, s):
        self.calls = list(s['calls'])


optim.Adam = optim.SGD = optim.Optimizer = _Opt
autograd.backward = lambda *a, **k: (_ for _ in ()).throw(Unsupported('autograd'))
autograd.grad = autograd.backward
autograd.Variable = lambda x, **k: x
torch.autograd = autograd
distributions = mod('torch.distributions')
utils = mod('torch.utils')
data = mod('torch.utils.data')
data.Dataset = object


@pub(torch)
def save(*a, **k):
    raise Unsupported('save')


torch.load = torch.save
_sub['torch'] = torch
