"""Concrete back end of the contract language: the same contracts executed on
the real code with the real torch (float64), all indices enumerated.  Used to
replay the verifier's counterexamples and as the bounded stand-in for the
obligations the verifier does not discharge."""
import hashlib
import itertools
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.setrecursionlimit(20000)


STYLE = 10 ** 7
MIXED = 10 ** 9


class Infeasible(Exception):
    pass


class ContractError(Exception):
    'the contract could not be executed (it reads something private that is not there)'


class Timeout(Exception):
    pass


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big') / 2 ** 48


class Conc:
    symbolic = False
    tol = None

    def __init__(self, beer, torch, seed, sizes, res):
        self.beer = beer
        self.torch = torch
        # seeds of the deep search also select a style of inputs: spread, ties, small, mixed magnitudes
        self.style = seed // STYLE % 5
        if self.style == 4:
            self.tol = 1e-4
        self.seed = seed
        self.sizes = dict(sizes)
        self.used = {}
        # from this seed on: double-precision inputs, single-precision default
        self.mixed = seed >= MIXED
        if self.mixed:
            self.tol = 1e-8
        self.res = res
        self.inf = float('inf')
        self.pi = math.pi
        self.noises = []
        self.rnd = random.Random(seed * 7919 + 13)

    # -- inputs ----------------------------------------------------------
    def size(self, name, lb=1, like=None):
        if name not in self.sizes:
            if self.seed == 0:
                n = max(lb, 2)
            elif self.seed == 1:
                n = lb
            else:
                n = lb + int(_h(self.seed, 'size', name) * (7 if self.style == 1 else 4))
            self.sizes[name] = n
        self.used[name] = self.sizes[name]
        return self.sizes[name]

    def scalar(self, name, **inf):
        u = _h(self.seed, 'scalar', name)
        if inf.get('isint'):
            lo = inf['lo'] if inf.get('lo') is not None else 0
            hi = inf['hi'] if inf.get('hi') is not None else lo + 4
            return lo + int(u * max(1, hi - lo))
        if inf.get('pos'):
            return .2 + 2 * u
        return 3 * (u - .5)

    def fraction(self, name):
        'a number strictly between 0 and 1'
        return .05 + .9 * _h(self.seed, 'scalar', name)

    def integer(self, name, lo=0, hi=None):
        return self.scalar(name, isint=True, lo=lo, hi=hi)

    def tensor(self, name, shape, pos=False, nonneg=False, isint=False, lo=None,
               hi=None, sym=None, zeros=0, lt=None, **_):
        shape = tuple(int(s) for s in shape)
        t = self.torch.zeros(shape, dtype=self.torch.int64 if isint
                             else self.torch.float64 if self.mixed
                             else self.torch.get_default_dtype())
        for idx in itertools.product(*[range(s) for s in shape]):
            k = idx
            if sym is not None:
                i, j = sym
                l = list(idx)
                if l[j] < l[i]:
                    l[i], l[j] = l[j], l[i]
                k = tuple(l)
            u = _h(self.seed, name, k)
            if sym is not None:
                v = 2. + u + .5 * 6 if k[i] == k[j] else u - .5
            elif isint:
                a = lo if lo is not None else 0
                b = hi if hi is not None else a + 5
                v = a + int(u * max(1, b - a))
            elif pos:
                v = .2 + 2 * u
            elif nonneg:
                v = u * lt if lt else 2 * u
                if zeros and self.seed % 2 and _h(self.seed, name, k, 'z') < zeros:
                    v = 0.
            else:
                v = 3 * (u - .5)
            if self.style and sym is None and not isint and not lt:
                if self.style == 1:
                    v = v * 4
                elif self.style == 4:
                    v = 10 ** (4 * _h(self.seed, name, k, 'm') - 3) if pos else v
                elif self.style == 2:
                    v = round(v * 2) / 2 if not pos else max(.5, round(v * 2) / 2)
                else:
                    v = v * .1
            t[idx] = v
        return t

    def permutation(self, name, n):
        p = sorted(range(n), key=lambda i: _h(self.seed, 'perm', name, i))
        self._perms = getattr(self, '_perms', {})
        self._perms[name] = p
        return self.torch.tensor(p, dtype=self.torch.int64)

    def perm_inv(self, name):
        return lambda i: self._perms[name].index(i)

    def noise(self, k):
        return self.noises[k]

    def length(self, x):
        return len(x)

    def symlist(self, t):
        return [t[i] for i in range(len(t))]

    def intlist(self, t):
        return [int(i) for i in t]

    def same(self, a, b):
        return int(a) == int(b)

    def assume(self, c):
        if not c:
            raise Infeasible()

    # -- readers / mathematics --------------------------------------------
    def at(self, t):
        if isinstance(t, (list, tuple)):
            t = self.torch.stack([self.torch.as_tensor(x) for x in t])
        if not isinstance(t, self.torch.Tensor):
            t = self.torch.as_tensor(t)
        nd = t.dim()
        a = t.detach().cpu().numpy().copy()

        def f(*idx):
            assert len(idx) == nd, f'{nd} indices expected, got {len(idx)}'
            assert all(0 <= int(i) < s for i, s in zip(idx, a.shape)), (idx, a.shape)
            return a[tuple(int(i) for i in idx)].item()
        return f

    def sum(self, n, f):
        return sum(f(i) for i in range(int(n)))

    def max(self, n, f):
        return max(f(i) for i in range(int(n)))

    def argmax(self, n, f):
        v = [f(i) for i in range(int(n))]
        return v.index(max(v))

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def digamma(self, x):
        return self.torch.digamma(self.torch.tensor(float(x), dtype=self.torch.float64)).item()

    def lgamma(self, x):
        return math.lgamma(x)

    def sigmoid(self, x):
        return 1 / (1 + math.exp(-x))

    def softplus(self, x):
        return math.log1p(math.exp(x))

    def tanh(self, x):
        return math.tanh(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def hypot(self, x, y):
        return math.hypot(x, y)

    @property
    def np(self):
        import numpy
        return numpy

    def array(self, *a, **k):
        'numpy array'
        return self.tensor(*a, **k).numpy()

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def all_(self, *cs):
        return all(bool(c) for c in cs)

    def any_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def idiv(self, a, b):
        return int(a) // int(b)

    def imod(self, a, b):
        return int(a) % int(b)

    def _mat(self, n, f):
        import numpy as np
        return np.array([[float(f(i, j)) for j in range(int(n))] for i in range(int(n))])

    def inv(self, n, f):
        import numpy as np
        m = np.linalg.inv(self._mat(n, f))
        return lambda a, b: float(m[int(a), int(b)])

    def logdet(self, n, f):
        import numpy as np
        s, v = np.linalg.slogdet(self._mat(n, f))
        return float(v) if s > 0 else math.nan

    def rec(self, name, n, shape, base, step, down=False, **_):
        memo = {}

        def f(t, *idx):
            k = (int(t),) + tuple(int(i) for i in idx)
            if k not in memo:
                if t == (n - 1 if down else 0):
                    memo[k] = base(*idx)
                else:
                    memo[k] = step(lambda *j: f(t + 1 if down else t - 1, *j), t, *idx)
            return memo[k]
        return f

    def candidate(self, *a, **k):
        pass

    def index(self, name, n):
        return int(_h(self.seed, 'index', name) * n)

    # -- gradients -----------------------------------------------------------
    def leaf(self, t):
        if isinstance(t, self.torch.nn.Parameter):
            if not t.requires_grad:
                self.holds('trainable', False)
                t.requires_grad_(True)
        else:
            t.requires_grad_(True)
        return t

    def _jac(self, y, x, entries):
        'one row of derivatives per entry of y'
        import numpy as np
        rows = []
        for e in entries:
            g = None
            if y.requires_grad:
                g, = self.torch.autograd.grad(y[e], x, retain_graph=True, allow_unused=True)
            rows.append(np.zeros(tuple(x.shape)) if g is None else g.detach().cpu().numpy())
        return rows

    def grad(self, y, x):
        n = y.dim()
        memo = {}

        def f(*idx):
            e = tuple(int(i) for i in idx[:n])
            if e not in memo:
                memo[e], = self._jac(y, x, [e])
            return float(memo[e][tuple(int(i) for i in idx[n:])])
        return f

    def frozen(self, t):
        return self.at(t)

    def eq_grad(self, name, y, x, f):
        ents = list(itertools.product(*[range(s) for s in y.shape]))
        rows = self._jac(y, x, ents)
        for e, r in zip(ents, rows):
            for j in itertools.product(*[range(s) for s in x.shape]):
                v, w = float(r[j]), float(f(*e, *j))
                if math.isnan(w) and not math.isnan(v):
                    raise Infeasible()      # outside the domain of the specification
                if not close(v, w):
                    self._rec(name, False, f'derivative of {e} by {j}: {v!r}, specified {w!r}')
                    return
        self._rec(name, True)

    def gradient(self, name, thunk, *xs):
        n0 = len(self.noises)
        y = thunk()
        n1 = len(self.noises)
        big = float(y.detach().abs().max()) if y.numel() else 0.
        if self.style and not big < 1e8:
            raise Infeasible()      # out of the range of floats: derivatives make no sense
        ents = list(itertools.product(*[range(s) for s in y.shape]))
        if len(ents) > 4:
            ents = sorted(random.Random(self.seed).sample(ents, 4))
        for k, x in enumerate(xs):
            rows = self._jac(y, x, ents)
            pos = list(itertools.product(*[range(s) for s in x.shape]))
            if len(pos) > 6:
                pos = random.Random(self.seed + 1).sample(pos, 6)
            bad = None
            for j in pos:
                d = []
                for eps in (1e-5, 1e-6):
                    v = []
                    for s in (eps, -eps):
                        old = x.data[j].item()
                        x.data[j] = old + s
                        del self.noises[n0:]
                        try:
                            z = thunk().detach().clone()
                        finally:
                            x.data[j] = old
                        v.append([float(z[e]) for e in ents])
                    d.append([(a - b) / (2 * eps) for a, b in zip(*v)])
                for e, r, a, b in zip(ents, rows, *d):
                    # kinks and badly conditioned points are left out
                    if not abs(a) < 1e6 or not close(a, b, 1e-4):
                        continue
                    if not close(float(r[j]), a, 1e-3):
                        bad = f'derivative of {e} by {j}: {float(r[j])!r}, differences {a!r}'
            self._rec(f'{name}.{k}', bad is None, bad)
        del self.noises[n0:]
        y = thunk()
        return y

    def severed(self, name, t):
        self._rec(name, not t.requires_grad, 'the value is attached to the graph'
                  if t.requires_grad else None)

    def backward_grad(self, thunk, x):
        x.grad = None
        thunk()
        g = x.grad
        return lambda *idx: 0. if g is None else float(g[tuple(int(i) for i in idx)])

    # -- obligations ---------------------------------------------------------
    def _rec(self, name, ok, why=None):
        self.res['obligations'].append(
            {'name': name, 'ok': bool(ok), **({'why': why} if why else {})})

    def eq(self, name, actual, shape, f, tol=None, unfold=0):
        torch = self.torch
        if isinstance(actual, (list, tuple)):
            actual = torch.tensor(actual)
        if type(actual).__module__ == 'numpy':
            actual = torch.as_tensor(actual)
        if not isinstance(actual, torch.Tensor):
            if not shape and isinstance(actual, (int, float)):
                actual = torch.tensor(actual)
            else:
                self._rec(name + '.type', False, f'not a tensor: {type(actual).__name__}')
                return
        if self.mixed and actual.is_floating_point() and actual.dtype != torch.float64:
            self._rec(name + '.dtype', False, f'{actual.dtype} for data in double precision')
            return
        want = tuple(int(s) for s in shape)
        if tuple(actual.shape) != want:
            self._rec(name + '.shape', False, f'shape {tuple(actual.shape)}, specified {want}')
            return
        a = actual.detach().cpu().numpy()
        for idx in itertools.product(*[range(s) for s in want]):
            x, y = float(a[idx]), float(f(*idx))
            if not close(x, y, tol or self.tol):
                self._rec(name, False, f'at {idx}: value {x!r}, specified {y!r}')
                return
        self._rec(name, True)

    def eq_num(self, name, a, b, tol=None, unfold=0, defs=None):
        if isinstance(a, self.torch.Tensor):
            if a.dim():
                self._rec(name, False, f'number expected, got shape {tuple(a.shape)}')
                return
            a = a.item()
        if isinstance(b, self.torch.Tensor):
            b = b.item()
        ok = close(float(a), float(b), tol or self.tol)
        self._rec(name, ok, None if ok else f'value {a!r}, specified {b!r}')

    def holds(self, name, c):
        if isinstance(c, self.torch.Tensor):
            c = bool(c.all())
        self._rec(name, bool(c), None if c else 'condition is false')

    def ge0(self, name, x, n=()):
        x = float(x)
        self._rec(name, x >= -1e-7, f'value {x!r}')

    def sorted_by(self, name, order, n, f, descending=True):
        o = [int(i) for i in order]
        v = [float(f(i)) for i in o]
        self._rec(name, sorted(o) == list(range(n)) and v == sorted(v, reverse=descending),
                  f'order {o} values {v}')

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except exc:
            self._rec(name, True)
        except Exception as e:
            self._rec(name, False, f'raised {type(e).__name__}: {e}')
        else:
            self._rec(name, False, 'no exception raised')

    def unchanged(self, name, t, old):
        self.eq(name, t, t.shape, old)

    def lemma(self, name, fn):
        pass

    def skip_symbolic(self, why):
        pass


def close(x, y, tol=None):
    tol = tol or 1e-6
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1., abs(x), abs(y))


class Noise:
    'torch.randn & co: deterministic, recorded noise'

    def __init__(self, torch):
        self.torch = torch
        self.saved = {}

    def __enter__(self):
        t = self.torch
        for k in ('randn', 'randn_like', 'rand'):
            self.saved[k] = getattr(t, k)
        self.B = None

        def make(shape, dtype, uniform=False):
            B = self.B
            name = f'noise{len(B.noises)}'
            x = B.tensor(name, shape)
            if uniform:
                x = (x / 3 + .5)
            if dtype is not None:
                x = x.to(dtype)
            B.noises.append(x)
            return x.clone()

        def randn(*a, dtype=None, device=None, requires_grad=False, **k):
            if len(a) == 1 and not isinstance(a[0], int):
                a = tuple(a[0])
            return make(a, dtype)

        def rand(*a, dtype=None, device=None, requires_grad=False, **k):
            if len(a) == 1 and not isinstance(a[0], int):
                a = tuple(a[0])
            return make(a, dtype, True)
        t.randn, t.rand = randn, rand
        t.randn_like = lambda x, **k: make(tuple(x.shape), x.dtype)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.torch, k, v)


def load():
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    sys.path.insert(0, REPO)
    import beer
    assert os.path.abspath(beer.__file__).startswith(os.path.abspath(REPO) + '/'), beer.__file__
    return beer, torch


def private(e, tb):
    'a contract read a private attribute that the code does not (or no longer) have'
    f = tb[-1].filename
    n = getattr(e, 'name', None) or ''
    if '/contracts/' not in f and not f.endswith('/torch/nn/modules/module.py'):
        return False
    if '/contracts/' not in f and not (len(tb) > 1 and '/contracts/' in tb[-2].filename):
        return False
    return isinstance(e, AttributeError) and (
        n.startswith('_') and not n.startswith('__') or "attribute '_" in str(e))


def run_once(fn, kwargs, seed, sizes, beer, torch, timeout=60):
    res = {'seed': seed, 'obligations': [], 'status': 'ok'}
    t0 = time.time()
    torch.manual_seed(seed + 1)
    random.seed(seed)
    import numpy
    numpy.random.seed(seed % 2 ** 32)
    B = Conc(beer, torch, seed, sizes or {}, res)

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    torch.set_default_dtype(torch.float32 if B.mixed else torch.float64)
    try:
        with Noise(torch) as nz:
            nz.B = B
            fn(B, **kwargs)
    except Infeasible:
        res['status'] = 'infeasible'
        res['obligations'] = []
    except Timeout:
        res['status'] = 'timeout'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if f.filename.startswith(REPO)]
        if private(e, tb):
            res['status'] = 'contract-error'
            res['why'] = str(e)[:300]
            res['obligations'] = [o for o in res['obligations'] if not o['ok']]
            res['sizes'] = B.used
            res['wall'] = round(time.time() - t0, 3)
            return res
        w = f' [at {fr[-1].filename[len(REPO)+1:]}:{fr[-1].lineno} in {fr[-1].name}]' if fr else \
            f' [{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}]'
        res['obligations'].append({'name': 'no-exception', 'ok': False,
                                   'why': f'{type(e).__name__}: {str(e)[:300]}{w}'})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        torch.set_default_dtype(torch.float64)
    res['sizes'] = B.used
    res['wall'] = round(time.time() - t0, 3)
    return res


def main():
    'stdin: {"jobs": [{id, module, contract, kwargs, runs: [[seed, sizes]..]}]}'
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    req = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    beer, torch = load()
    for j in req['jobs']:
        from contracts import by_name
        c = by_name(j['contract'])
        runs = []
        t0 = time.time()
        for seed, sizes in j['runs']:
            if time.time() - t0 > j.get('budget', 1e9):
                break
            runs.append(run_once(c.fn, j['kwargs'], seed, sizes, beer, torch))
        out.write(json.dumps({'id': j['id'], 'runs': runs}) + '\n')
        out.flush()
        if req.get('first') and any(not o['ok'] for r in runs for o in r['obligations']):
            break


if __name__ == '__main__':
    main()
