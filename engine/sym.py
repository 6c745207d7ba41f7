"""Symbolic back end of the contract language: every B.eq / B.holds / ... is a
proof obligation over all sizes and all values."""
import itertools
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import expr as X
from . import tensor as TT
from . import runtime as R
from . import numeric
from .expr import P, Poly, Unsupported, Undecided, ZERO, UNIT, new_idx
from .tensor import T, SV, wrap, SymList, SymBool

SYMBOLIC = True


class ContractTimeout(BaseException):
    pass


class Rejected(Exception):
    'a B.require could not be established: contract error'


def num(x):
    if isinstance(x, T):
        return P(x.item())
    return P(x)


def unfrozen(f, x):
    'torch.tensor of a list read by a contract, gradients kept'
    saved = dict(X.LEAVES)
    X.LEAVES.clear()
    try:
        return f(x)
    finally:
        X.LEAVES.update(saved)


class Sym:
    symbolic = True

    def __init__(self, beer, res):
        from . import shim_torch
        self.beer = beer
        self.torch = shim_torch.torch
        self.res = res
        self.inf = float('inf')
        self.pi = SV(X.PI)

    # -- inputs ----------------------------------------------------------
    def size(self, name, lb=1, like=None):
        return SV(X.size(name, lb))

    def scalar(self, name, **flags):
        return SV(X.scalar(name, **flags))

    def fraction(self, name):
        'a number strictly between 0 and 1'
        return SV(X.scalar(name, pos=True, unit=True))

    def integer(self, name, lo=0, hi=None):
        return SV(X.scalar(name, isint=True, nonneg=True, lo=P(lo),
                           hi=None if hi is None else P(hi)))

    def tensor(self, name, shape, pos=False, nonneg=False, isint=False, lo=None,
               hi=None, sym=None, zeros=0, lt=None, gt=None):
        return TT.input_tensor(name, shape, pos=pos, nonneg=nonneg, isint=isint,
                               sym=sym, lo=None if lo is None else P(lo),
                               hi=None if hi is None else P(hi))

    def permutation(self, name, n):
        inv = name + "'"
        for a, b in ((name, inv), (inv, name)):
            X.TENSORS[a] = X.TensorInfo(a, 1, isint=True, nonneg=True, lo=ZERO,
                                        hi=P(n), perm_inv=b, shape=(P(n),))
        from .numeric import perm_spec
        X.TENSORS[name].spec = perm_spec(name, P(n), False)
        X.TENSORS[inv].spec = perm_spec(name, P(n), True)
        t = T((P(n),), lambda idx: X.elem(name, idx), TT.int64)
        return t

    def noise(self, k):
        'the k-th tensor drawn by torch.randn & co'
        from . import shim_torch
        return shim_torch.RANDOM[k]

    def perm_inv(self, name):
        return lambda i: SV(X.elem(name + "'", (P(i),)))

    def length(self, x):
        return R.slen(x)

    def symlist(self, t):
        'python list with the rows of a tensor'
        return R.slist(t)

    def intlist(self, t):
        'python list of integers'
        s = t.clone()
        return SymList(t._shape[0], lambda k: wrap(s.at(P(k))))

    def same(self, a, b):
        'a == b for integers'
        return SymBool(X.c_eq0(P(a) - P(b)))

    def zeros_list(self, t):
        return R.slist(t)

    def assume(self, c):
        c = TT.condof(c)
        if c is True:
            return
        if c is False:
            raise R.Infeasible()
        R._assume(c)

    # -- readers / mathematics ----------------------------------------------
    def at(self, t):
        if isinstance(t, (SymList, list)):
            t = unfrozen(self.torch.tensor, t)
        s = t.snap()
        nd = t.ndim

        def f(*idx):
            if len(idx) != nd:
                raise Rejected(f'{nd} indices expected, got {len(idx)}')
            return SV(s(tuple(P(i) for i in idx)))
        return f

    def sum(self, n, f):
        v = new_idx(P(n), 's')
        return SV(X.msum(v, num(f(SV(P(v))))))

    def max(self, n, f):
        v = new_idx(P(n), 's')
        return SV(X.bind('max', v, num(f(SV(P(v))))))

    def argmax(self, n, f):
        v = new_idx(P(n), 's')
        return SV(X.bind('argmax', v, num(f(SV(P(v))))))

    def log(self, x):
        return SV(X.logfn(num(x)))

    def exp(self, x):
        return SV(X.expfn(num(x)))

    def sqrt(self, x):
        return SV(X.power(num(x), Fraction(1, 2)))

    def digamma(self, x):
        return SV(X.fn('digamma', num(x)))

    def lgamma(self, x):
        return SV(X.fn('lgamma', num(x)))

    def sigmoid(self, x):
        return SV(TT.sigmoid(num(x)))

    def softplus(self, x):
        return SV(TT.softplus(num(x)))

    def tanh(self, x):
        return SV(X.fn('tanh', num(x)))

    def cos(self, x):
        return SV(X.fn('cos', num(x)))

    def sin(self, x):
        return SV(X.fn('sin', num(x)))

    def hypot(self, x, y):
        return SV(X.fn('hypot', num(x), num(y)))

    @property
    def np(self):
        from . import shim_numpy
        return shim_numpy.np

    def array(self, *a, **k):
        'numpy array'
        from .shim_numpy import NA, np
        t = self.tensor(*a, **k)
        return NA(t._shape, t.snap(), np.int64 if k.get('isint') else np.float64)

    def ite(self, c, a, b):
        c = TT.condof(c)
        if c is True:
            return a() if callable(a) else a
        if c is False:
            return b() if callable(b) else b
        with X.facts(c):
            x = num(a() if callable(a) else a)
        with X.facts(X.c_not_raw(c)):
            y = num(b() if callable(b) else b)
        return SV(X.ite(c, x, y))

    def all_(self, *cs):
        return SymBool(X.c_and(*[TT.condof(c) for c in cs]))

    def any_(self, *cs):
        return SymBool(X.c_or(*[TT.condof(c) for c in cs]))

    def not_(self, c):
        return SymBool(X.c_not(TT.condof(c)))

    def idiv(self, a, b):
        return SV(X.idiv(P(a), P(b)))

    def imod(self, a, b):
        return SV(X.imod(P(a), P(b)))

    def inv(self, n, f):
        def g(a, b):
            i, j = new_idx(P(n), 'r'), new_idx(P(n), 'c')
            return SV(X.matfn('minv', P(n), i, j, num(f(SV(P(i)), SV(P(j)))), P(a), P(b)))
        return g

    def logdet(self, n, f):
        i, j = new_idx(P(n), 'r'), new_idx(P(n), 'c')
        return SV(X.matfn('mlogdet', P(n), i, j, num(f(SV(P(i)), SV(P(j))))))

    def rec(self, name, n, shape, base, step, down=False, pos=False,
            nonneg=False, isint=False, lo=None, hi=None):
        '''Recursive specification f(t, *idx), 0 <= t < n: base at t = 0 (n-1 if
        down), step(prev, t, *idx) elsewhere with prev(*idx) = f(t-1, *idx).'''
        n = P(n)
        X.TENSORS[name] = X.TensorInfo(name, 1 + len(shape), pos=pos, nonneg=nonneg,
                                       isint=isint, lo=None if lo is None else P(lo),
                                       hi=None if hi is None else P(hi))

        def unf(idx):
            t, rest = P(idx[0]), tuple(SV(P(i)) for i in idx[1:])
            first = (n - 1 - t) if down else t

            def prev(*j):
                return SV(X.elem(name, ((t + 1) if down else (t - 1),) + tuple(P(x) for x in j)))
            c = X.c_eq0(first)
            if c is True or X.int_unsat(X.c_not_raw(c)):
                return num(base(*rest))
            if X.prove_nonneg(first - 1):
                return num(step(prev, SV(t), *rest))
            with X.facts(c):
                b = num(base(*rest))
            with X.facts(X.c_not_raw(c)):
                s = num(step(prev, SV(t), *rest))
            return X.ite(c, b, s)
        R.UNFOLD[name] = unf
        X.DEFS[name] = lambda: unf(tuple(P(new_idx(b, 'd')) for b in (n,) + tuple(P(x) for x in shape)))

        def spec(env, idx):
            m = int(env.ev(n))
            if not 0 <= idx[0] < m:
                return 0.
            t, rest = idx[0], tuple(SV(P(i)) for i in idx[1:])
            if t == (m - 1 if down else 0):
                return env.ev(num(base(*rest)))

            def prev(*j):
                return SV(X.elem(name, (P(t + 1 if down else t - 1),) + tuple(P(x) for x in j)))
            return env.ev(num(step(prev, SV(P(t)), *rest)))
        X.TENSORS[name].spec = spec
        return lambda *idx: SV(X.elem(name, tuple(P(i) for i in idx)))

    def candidate(self, nd, f, name='inv'):
        R.CANDIDATES.append((name, nd, lambda *idx: num(f(*[SV(P(i)) for i in idx]))))

    def index(self, name, n):
        'an arbitrary index 0 <= i < n'
        return SV(P(new_idx(P(n), name)))

    # -- gradients -------------------------------------------------------------
    def leaf(self, t):
        'declare an input or a parameter gradients are taken with respect to'
        if not isinstance(t, self.torch.nn.Parameter):
            t._rg = True
        elif not t._rg:
            self.holds('trainable', False)
        X.add_leaf(self._leafname(t))
        return t

    def _leafname(self, t):
        ix = [new_idx(s, 'l') for s in t._shape]
        a = t.at(*ix).single()
        if a is None or a.kind != 'elem' or [P(i) for i in ix] != list(a.args[1:]):
            raise Rejected('not an input tensor')
        return a.args[0]

    def grad(self, y, x):
        '''reader of the derivatives of y (indices of y, then of x) by the leaf x; what the
        code cut off the graph appears as values of the frozen leaves (B.frozen)'''
        s = y.snap()
        n = y.ndim
        name = self._leafname(x)

        def f(*idx):
            p = s(tuple(P(i) for i in idx[:n]))
            return SV(X.diff(p, name, [P(i) for i in idx[n:]]))
        return f

    def frozen(self, t):
        'reader of the values of t, off the graph'
        return self.at(t.detach())

    def eq_grad(self, name, y, x, f):
        'the derivative of y[i..] by x[j..] is f(i.., j..)'
        g = self.grad(y, x)
        u = (lambda p: p) if X.DEFS else X.unstop
        t = T(y._shape + x._shape, lambda idx: u(P(g(*idx))))
        self.eq(name, t, t._shape, lambda *i: SV(u(num(f(*i)))))

    def gradient(self, name, thunk, *xs):
        '''what autograd computes for the result of thunk is the derivative of that
        result by each of the leaves'''
        y = thunk()
        p = y.at(*[new_idx(s, 'y') for s in y._shape])
        q = X.unstop(p)
        for k, x in enumerate(xs):
            t0 = time.time()
            if p == q:
                self._rec(f'{name}.{k}', 'proved', t0)
                continue
            leaf = self._leafname(x)
            j = [P(new_idx(s, 'j')) for s in x._shape]
            self._close(f'{name}.{k}', X.unstop(X.diff(p, leaf, j)), X.diff(q, leaf, j), t0)
        return y

    def severed(self, name, t):
        'no gradient flows through this value'
        p = t.at(*[new_idx(s, 'y') for s in t._shape])
        self._rec(name, 'refuted' if X.live(p) else 'proved', time.time(),
                  why='the value is attached to the graph' if X.live(p) else None)

    def backward_grad(self, thunk, x):
        'reader of the gradient that the backward calls of thunk leave on the leaf x'
        n = len(TT.BACKWARD)
        thunk()
        name = self._leafname(x)

        def f(*idx):
            r = ZERO
            for y in TT.BACKWARD[n:]:
                r = r + X.unstop(X.diff(y.at(), name, [P(i) for i in idx]))
            return SV(r)
        return f

    # -- obligations -----------------------------------------------------------
    def _rec(self, name, status, t0, **kw):
        self.res['obligations'].append(
            dict(name=name, status=status, time=round(time.time() - t0, 4),
                 path=list(R.PATH.taken) if R.PATH else [], **kw))

    def eq(self, name, actual, shape, f, tol=None, unfold=0):
        t0 = time.time()
        if isinstance(actual, (SymList, list)):
            actual = unfrozen(self.torch.tensor, actual)
        if not isinstance(actual, T):
            if not shape and TT._isnum(actual):
                p = P(actual)
                actual = T((), lambda idx: p)
            else:
                self._rec(name + '.type', 'refuted', t0, why=f'not a tensor: {type(actual).__name__}')
                return
        want = tuple(P(s) for s in shape)
        if actual._shape != want and (
                len(actual._shape) != len(want) or
                any(a != b and X.c_eq0(a - b) is not True
                    for a, b in zip(actual._shape, want))):
            self._rec(name + '.shape', 'refuted', t0,
                      why=f'shape {actual._shape}, specified {want}',
                      cex=self._sizes_cex(actual._shape, want))
            return
        if any(X.prove_nonneg(-n) or (X.FACTS and X.int_unsat(('ge0', n - 1))) for n in want
               if not n.is_const() or n.const() <= 0):
            self._rec(name, 'proved', t0, why='empty')
            return
        # constant dimensions up to 4 are enumerated, the others are arbitrary
        axes = []
        for s in want:
            if s.is_const() and s.const() <= 4:
                axes.append([P(i) for i in range(int(s.const()))])
            else:
                axes.append([P(new_idx(s, 'x'))])
        pairs = []
        for idx in itertools.product(*axes):
            a = actual.at(*idx)
            s = num(f(*[wrap(i) for i in idx]))
            if not self._close(name, a, s, t0, unfold, quiet=True):
                self._close(name, a, s, t0, unfold)
                return
        self._rec(name, 'proved', t0)

    def _sizes_cex(self, a, b):
        r = None
        try:
            if len(a) == len(b):
                for x, y in zip(a, b):
                    r = r or numeric.refute(x - y)
            return r
        except Exception:
            return None

    def _close(self, name, a, s, t0, unfold=0, quiet=False):
        if X.FACTS:
            try:
                a, s = X.pin_sizes(a, s)
            except Unsupported:
                pass
        d = a - s
        ok = X.is_zero(d)
        u = 0
        while not ok and u < 3 + unfold:
            u += 1
            s2 = R.unfold(s)
            a2 = R.unfold(a)
            if s2 is None and a2 is None:
                break
            for x, y in ((a, s2), (a2, s), (a2, s2)):
                if x is not None and y is not None and X.is_zero(x - y):
                    ok = True
                    break
            if os.environ.get('DBGU'):
                print('UNFOLDED', s2, '\n   ', a2)
            s = s2 if s2 is not None else s
            a = a2 if a2 is not None else a
        if not ok:
            a2, s2 = X.guarded(a), X.guarded(s)
            if a2 is not None or s2 is not None:
                ok = X.is_zero((a if a2 is None else a2) - (s if s2 is None else s2))
        if quiet:
            return ok
        if ok:
            self._rec(name, 'proved', t0)
            return
        try:
            cex = numeric.refute(d)
        except (Unsupported, KeyError, IndexError, OverflowError, ZeroDivisionError,
                ValueError, TypeError, RecursionError) as e:
            cex = None
        if cex is not None:
            self._rec(name, 'refuted', t0, cex=cex, why=f'difference {str(d)[:400]}')
        else:
            self._rec(name, 'undecided', t0, why=f'residual {str(d)[:400]}')

    def eq_num(self, name, a, b, tol=None, unfold=0, defs=None):
        '''defs: unfold the recursive specifications at these (name, index) only'''
        t0 = time.time()
        if isinstance(a, T) and a.ndim:
            self._rec(name, 'refuted', t0, why=f'number expected, got shape {a._shape}')
            return
        a, b = num(a), num(b)
        if defs:
            only = [(n, P(i)) for n, i in defs]
            a2, b2 = R.unfold(a, only), R.unfold(b, only)
            a, b = a if a2 is None else a2, b if b2 is None else b2
        self._close(name, a, b, t0, unfold)

    def holds(self, name, c):
        t0 = time.time()
        c = TT.condof(c) if not isinstance(c, bool) else c
        if c is True:
            self._rec(name, 'proved', t0)
        elif c is False:
            self._rec(name, 'refuted', t0, why='condition is false')
        elif X.int_cond(c) and X.int_unsat(X.c_not_raw(c)):
            self._rec(name, 'proved', t0)
        else:
            self._rec(name, 'undecided', t0, why=X.cond_str(c)[:300])

    def ge0(self, name, x, n=()):
        'x >= 0 (sign rules or z3 over the reals)'
        t0 = time.time()
        p = num(x)
        if X.is_nonneg(p) or (X.is_int(p) and X.prove_nonneg(p)):
            self._rec(name, 'proved', t0)
        elif X.real_nonneg(p):
            self._rec(name, 'proved', t0)
        else:
            self._rec(name, 'undecided', t0, why=str(p)[:300])

    def sorted_by(self, name, order, n, f, descending=True):
        'order[0], order[1], ... sort the values f'
        t0 = time.time()
        a = order.at(P(new_idx(P(n), 'i'))).single()
        v = P(new_idx(P(n), 'v'))
        if a is not None and a.kind == 'elem' and X.TENSORS[a.args[0]].sortkey:
            key, d = X.TENSORS[a.args[0]].sortkey
            if d == descending and X.is_zero(key((v,)) - num(f(wrap(v)))):
                self._rec(name, 'proved', t0)
                return
        self._rec(name, 'undecided', t0, why='not a known sorted order')

    def raises(self, name, exc, thunk):
        t0 = time.time()
        try:
            thunk()
        except exc:
            self._rec(name, 'proved', t0)
        except (Unsupported, Undecided):
            raise
        except Exception as e:
            self._rec(name, 'refuted', t0, why=f'raised {type(e).__name__}: {e}')
        else:
            self._rec(name, 'refuted', t0, why='no exception raised')

    def unchanged(self, name, t, old):
        self.eq(name, t, t._shape, old)

    def lemma(self, name, assumptions, goal):
        '''A z3 lemma over fresh real variables: lists of python lambdas are not
        used; assumptions / goal are z3 expressions built by the contract.'''
        import z3
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        for a in assumptions:
            s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        X.Z3STATS['queries'] += 1
        X.Z3STATS['time'] += time.time() - t0
        self._rec(name, 'proved' if r == z3.unsat else 'undecided', t0, backend='z3')

    def concrete_only(self):
        return False

    def skip_symbolic(self, why):
        raise Unsupported(why)


# ----------------------------------------------------------------------

def fresh_state():
    X.reset()
    X._consts()
    R._Math.pi = SV(X.PI)
    R.SMATH.pi = SV(X.PI)
    from . import shim_torch
    shim_torch.torch.pi = SV(X.PI)
    del shim_torch.RANDOM[:]
    TT._fresh_names[0] = 0
    del R.CANDIDATES[:]
    R.UNFOLD.clear()
    del TT.WRITELOG[:], TT.PRED[:], TT.BACKWARD[:]
    TT.NOGRAD[0] = False
    TT.INLOOP[0] = 0
    del TT.UNPROVED[:]


_BEER = None
FUNCS = set()


def _prof(frame, ev, arg):
    if ev == 'call':
        co = frame.f_code
        if co.co_filename.startswith(R.REPO + '/beer') and co.co_name != '<module>':
            FUNCS.add((co.co_filename[len(R.REPO) + 1:], getattr(co, 'co_qualname', co.co_name)))


def run_contract(fn, kwargs, timeout=120):
    global _BEER
    res = {'obligations': [], 'paths': 0, 'status': 'ok', 'why': None,
           'pruned': 0}
    t0 = time.time()
    FUNCS.clear()
    z0 = dict(X.Z3STATS)
    l0 = dict(R.LOOPSTATS)
    n0 = TT.NIMPLICIT[0]

    def onalarm(*a):
        raise ContractTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 5)
    todo = [[]]
    try:
        while todo:
            prefix = todo.pop()
            if res['paths'] >= R.MAXPATHS:
                res['status'], res['why'] = 'undecided', 'too many paths'
                break
            fresh_state()
            if _BEER is None:
                _BEER = R.load_beer()
            R.PATH = R.Path(prefix)
            B = Sym(_BEER, res)
            sys.setprofile(_prof)
            try:
                fn(B, **kwargs)
                res['paths'] += 1
                if X.FACTS and X.int_unsat(True):
                    res['vacuous'] = True
            except R.Infeasible:
                res['pruned'] += 1
            except (Unsupported, Undecided) as e:
                sys.setprofile(None)
                res['paths'] += 1
                res['status'] = 'undecided'
                res['why'] = f'{type(e).__name__}: {str(e)[:300]}' + _where(e)
            except (ContractTimeout, MemoryError):
                raise
            except RecursionError as e:
                sys.setprofile(None)
                res['status'], res['why'] = 'undecided', 'recursion'
            except Exception as e:
                sys.setprofile(None)
                res['paths'] += 1
                res['obligations'].append(dict(
                    name='no-exception', status='refuted',
                    time=0., path=list(R.PATH.taken),
                    why=f'{type(e).__name__}: {str(e)[:300]}' + _where(e),
                    cex=_path_cex()))
            finally:
                sys.setprofile(None)
            for w in dict.fromkeys(TT.UNPROVED):
                res['obligations'].append(dict(name='index-range', status='undecided', time=0.,
                                               path=list(R.PATH.taken), why=w))
            todo += R.PATH.pending
    except ContractTimeout:
        sys.setprofile(None)
        res['status'], res['why'] = 'undecided', f'timeout after {timeout} s'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        R.PATH = None
    res['wall'] = round(time.time() - t0, 3)
    res['functions'] = sorted(FUNCS)
    res['z3'] = {k: X.Z3STATS[k] - z0[k] for k in z0}
    res['loops'] = {k: R.LOOPSTATS[k] - l0[k] for k in l0}
    res['implicit'] = TT.NIMPLICIT[0] - n0
    return res


def _path_cex():
    try:
        s = numeric.pick_sizes(0)
        return None if s is None else {'sizes': s, 'seed': 0}
    except Exception:
        return None


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(R.REPO)]
    if fr:
        f = fr[-1]
        return f' [at {f.filename[len(R.REPO)+1:]}:{f.lineno} in {f.name}]'
    fr = [f for f in tb if '/contracts/' in f.filename]
    if fr:
        f = fr[-1]
        g = tb[-1]
        return f' [at contract {os.path.basename(f.filename)}:{f.lineno}; {os.path.basename(g.filename)}:{g.lineno}]'
    g = tb[-1]
    return f' [{os.path.basename(g.filename)}:{g.lineno}]'
