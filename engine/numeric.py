"""Numerical evaluation of terms: used to refute failed obligations and to
cross-check discharged ones (the engine's own soundness guard)."""
import math
import hashlib
import random
import numpy as np
from . import expr as X


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big') / 2 ** 48


def digamma(x):
    r = 0.
    if x <= 0 and x == int(x):
        return float('nan')
    if x < 0:
        return digamma(1 - x) - math.pi / math.tan(math.pi * x)
    while x < 12:
        r -= 1 / x
        x += 1
    f = 1 / (x * x)
    return r + math.log(x) - .5 / x - f * (1 / 12 - f * (1 / 120 - f * (
        1 / 252 - f * (1 / 240 - f * (1 / 132)))))


def lgamma(x):
    try:
        return math.lgamma(x)
    except ValueError:
        return float('inf')


class Env:
    '''A valuation: sizes and input elements are drawn deterministically from
    the seed, so the same valuation can be rebuilt as torch inputs.'''

    def __init__(self, seed, sizes):
        self.seed = seed
        self.sizes = sizes
        self.loc = {}
        self.mats = {}
        self.cache = {}

    def elem(self, name, idx):
        name = X.FROZEN.get(name, name)
        k = (name, idx)
        if k in self.cache:
            return self.cache[k]
        t = X.TENSORS[name]
        if t.spec is not None:
            v = t.spec(self, idx)
        else:
            v = self._draw(t, idx)
        self.cache[k] = v
        return v

    def _draw(self, t, idx):
        name = t.name
        if t.sym is not None:
            if t.pos == 'spd' or True:
                i, j = t.sym
                l = list(idx)
                if l[j] < l[i]:
                    l[i], l[j] = l[j], l[i]
                idx = tuple(l)
                v = _h(self.seed, name, idx) - .5
                if idx[i] == idx[j]:
                    v = 2. + _h(self.seed, name, idx) + 0.5 * 6
                return v
        u = _h(self.seed, name, idx)
        if t.isint:
            lo = int(self.ev(t.lo)) if t.lo is not None else 0
            hi = int(self.ev(t.hi)) if t.hi is not None else lo + 5
            return lo + int(u * max(1, hi - lo))
        if t.pos:
            return .2 + 2 * u
        if t.nonneg:
            return u * t.lt if t.lt else 2 * u
        return 3 * (u - .5)

    def scalar(self, name):
        inf = X.SCALARS.get(name, {})
        u = _h(self.seed, 'scalar', name)
        if inf.get('unit'):
            return .05 + .9 * u
        if 'num' in inf:
            return inf['num'](self, u)
        if inf.get('isint'):
            lo = int(self.ev(inf['lo'])) if inf.get('lo') is not None else 0
            hi = int(self.ev(inf['hi'])) if inf.get('hi') is not None else lo + 4
            return lo + int(u * max(1, hi - lo))
        if inf.get('pos'):
            return .2 + 2 * u
        return 3 * (u - .5)

    # ------------------------------------------------------------------
    def ev(self, p):
        r = 0.
        for m, c in p.t.items():
            t = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    t = t * v
                else:
                    if e.denominator == 1:
                        t = t * (v ** int(e)) if (v != 0 or e > 0) else float('nan')
                    else:
                        t = t * (v ** float(e)) if v >= 0 else float('nan')
            r = r + t
        return r

    def cond(self, c):
        if c in (True, False):
            return c
        k = c[0]
        if k == 'lt':
            return round(self.ev(c[1])) < 0
        if k == 'eq':
            return round(self.ev(c[1])) == 0
        if k == 'rlt':
            return self.ev(c[1]) < 0
        if k == 'req':
            return abs(self.ev(c[1])) < 1e-12
        if k == 'not':
            return not self.cond(c[1])
        if k == 'and':
            return all(self.cond(x) for x in c[1])
        return any(self.cond(x) for x in c[1])

    def atom(self, a):
        k = a.kind
        if k == 'size':
            return self.sizes[a.args[0]]
        if k == 'idx' or k == 'bv':
            return self.loc[a]
        if k == 'const':
            return math.pi if a.args[0] == 'pi' else float('inf')
        if k == 'prime':
            return float(a.args[0])
        if k == 'scalar':
            return self.scalar(a.args[0])
        if k == 'elem':
            return self.elem(a.args[0], tuple(int(round(self.ev(x))) for x in a.args[1:]))
        if k == 'exp':
            try:
                return math.exp(self.ev(a.args[0]))
            except OverflowError:
                return float('inf')
        if k == 'poly':
            return self.ev(a.args[0])
        if k == 'ite':
            return self.ev(a.args[1]) if self.cond(a.args[0]) else self.ev(a.args[2])
        if k == 'fn':
            return self.fn(a.args[0], [self.ev(x) for x in a.args[1:]])
        if k == 'sum':
            h = X.atom_height(a)
            return self._sum(h, a.args[0], a.args[1], 0)
        if k in ('max', 'argmax'):
            h = X.atom_height(a)
            b = int(round(self.ev(a.args[0])))
            bv = X._bv(h, 0)
            old = self.loc.get(bv)
            vals = []
            for i in range(b):
                self.loc[bv] = i
                vals.append(self.ev(a.args[1]))
            self.loc[bv] = old
            if k == 'max':
                return max(vals)
            return int(np.argmax(vals))
        if k in ('minv', 'mlogdet', 'chol'):
            n = int(round(self.ev(a.args[0])))
            rr, cc = X._mbv()
            o1, o2 = self.loc.get(rr), self.loc.get(cc)
            M = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    self.loc[rr], self.loc[cc] = i, j
                    M[i, j] = self.ev(a.args[1])
            self.loc[rr], self.loc[cc] = o1, o2
            try:
                if k == 'mlogdet':
                    s, v = np.linalg.slogdet(M)
                    return v if s > 0 else float('nan')
                R = np.linalg.inv(M) if k == 'minv' else np.linalg.cholesky(M)
            except np.linalg.LinAlgError:
                return float('nan')
            i, j = [int(round(self.ev(x))) for x in a.args[2:]]
            return R[i, j]
        raise X.Unsupported(f'evaluate {k}')

    def _sum(self, h, bounds, body, i):
        if i == len(bounds):
            return self.ev(body)
        b = int(round(self.ev(bounds[i])))
        bv = X._bv(h, i)
        old = self.loc.get(bv)
        r = 0.
        for k in range(b):
            self.loc[bv] = k
            r += self._sum(h, bounds, body, i + 1)
        self.loc[bv] = old
        return r

    def fn(self, name, args):
        x = args[0]
        try:
            if name in ('log', 'log_'):
                return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            if name == 'digamma':
                return digamma(x)
            if name == 'lgamma':
                return lgamma(x)
            if name == 'abs':
                return abs(x)
            if name == 'sign':
                return (x > 0) - (x < 0)
            if name == 'tanh':
                return math.tanh(x)
            if name == 'erf':
                return math.erf(x)
            if name == 'floor':
                return math.floor(x + 1e-9)
            if name == 'idiv':
                return math.floor((x + 1e-9) / args[1])
            if name == 'pow':
                return x ** args[1]
            if name == 'sin':
                return math.sin(x)
            if name == 'cos':
                return math.cos(x)
            if name == 'hypot':
                return math.hypot(*args)
            if name == 'max2':
                return max(args)
            if name == 'min2':
                return min(args)
        except (OverflowError, ValueError, ZeroDivisionError):
            return math.nan
        # uninterpreted function: deterministic smooth pseudo-random function
        s = _h(self.seed, 'fn', name)
        return math.sin(1.3 * sum((i + 1) * a for i, a in enumerate(args)) + 6 * s)


def perm_spec(name, n, inverse):
    def spec(env, idx):
        m = int(env.ev(n))
        pr = perm_of(env.seed, name, m)
        if not 0 <= idx[0] < m:
            return 0
        return pr.index(idx[0]) if inverse else pr[idx[0]]
    return spec


def perm_of(seed, name, m):
    return sorted(range(m), key=lambda i: _h(seed, 'perm', name, i))


def pick_sizes(s, maxsize=4, rnd=None):
    'sizes satisfying the integer facts of the current path'
    rnd = rnd or random.Random(100 + s)
    ok = None
    for t in range(60):
        sizes = {n: max(lb, 1) + rnd.randrange(0, maxsize) if (s or t) else max(lb, 2)
                 for n, lb in X.SIZES.items()}
        env = Env(s, sizes)
        if _facts_ok(env):
            return sizes
    try:
        import z3
    except ImportError:
        return None
    # ask z3 for a model of the facts that only mention sizes
    sol = z3.Solver()
    sol.set('timeout', 2000)
    vs = {n: z3.Int('s_' + n) for n in X.SIZES}
    for n, lb in X.SIZES.items():
        sol.add(vs[n] >= lb, vs[n] < 400)

    def conv(p):
        den = 1
        for c in p.t.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        r = z3.IntVal(0)
        for m, c in p.t.items():
            t = z3.IntVal(int(c * den))
            for a, e in m:
                if a.kind != 'size' or e < 0:
                    raise ValueError
                for _ in range(int(e)):
                    t = t * vs[a.args[0]]
            r = r + t
        return r

    def convc(c):
        k = c[0]
        if k == 'lt':
            return conv(c[1]) < 0
        if k == 'eq':
            return conv(c[1]) == 0
        if k == 'not':
            return z3.Not(convc(c[1]))
        f = z3.And if k == 'and' else z3.Or
        return f(*[convc(x) for x in c[1]])
    for f in X.FACTS:
        try:
            sol.add(convc(f))
        except ValueError:
            pass
    if sol.check() != z3.sat:
        return None
    m = sol.model()
    return {n: m.eval(v, model_completion=True).as_long() for n, v in vs.items()}


def _facts_ok(env):
    for f in X.FACTS:
        try:
            if not env.cond(f):
                return False
        except KeyError:
            pass          # mentions a local index
    return True


def refute(p, seeds=6, free_sizes=None, extra_check=None, maxsize=4):
    '''Search small valuations at which the term p (claimed zero) is nonzero.
    Returns a dict describing the counterexample or None.'''
    rnd = random.Random(12345)
    for s in range(seeds):
        sizes = pick_sizes(s, maxsize, rnd)
        if sizes is None:
            return None
        env = Env(s, sizes)
        free = sorted(p.free(), key=lambda a: a.id)
        try:
            bad = _try(env, p, free, {}, rnd)
        except X.Unsupported:
            return None
        if bad is not None:
            return {'sizes': sizes, 'seed': s, **bad}
    return None


def _try(env, p, free, loc, rnd):
    # order free index variables by dependency (bounds)
    order = []
    todo = set(free)
    seen = set()

    def add(a):
        if a in seen:
            return
        seen.add(a)
        for b in a.args[1].free():
            add(b)
        order.append(a)
    for a in sorted(todo, key=lambda x: x.id):
        add(a)
    # enumerate (bounded) the free indices
    import itertools
    combos = [{}]
    for a in order:
        new = []
        for cm in combos:
            env.loc.update(cm)
            b = int(round(env.ev(a.args[1])))
            for i in range(b):
                new.append({**cm, a: i})
        rnd.shuffle(new)
        combos = new[:200]
    for cm in combos[:60]:
        env.loc = dict(cm)
        ok = True
        for f in X.FACTS + X.RFACTS:
            if not env.cond(f):
                ok = False
                break
        if not ok:
            continue
        v = env.ev(p)
        mag = sum(abs(_mono(env, m, c)) for m, c in p.t.items())
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            continue
        if abs(v) > 1e-6 * max(1., mag):
            return {'difference': v, 'indices': {str(a): i for a, i in cm.items()}}
    return None


def _mono(env, m, c):
    try:
        return env.ev(X.Poly({m: c}))
    except Exception:
        return 0.
