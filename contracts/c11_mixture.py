"""P11: mixtures. P12: routing through sets of models."""
from . import contract
from .families import dirichlet, build
from .stubs import modelset, Param, history


def weights(B, K, lead=()):
    'a categorical (set) with arbitrary Dirichlet prior and posterior over K classes'
    P, F = dirichlet(B, lead, '_prior', K=K), dirichlet(B, lead, '', K=K)
    prm = B.beer.ConjugateBayesianParameter(build(P), build(F))
    a = F.par['concentrations'][2]
    E = lambda *x: B.digamma(a(*x)) - B.digamma(B.sum(K, lambda j: a(*x[:-1], j)))
    cls = B.beer.CategoricalSet if lead else B.beer.Categorical
    return cls(prm), prm, E, P, F


AFTER = ['new', 'call', 'labels', 'update']


class Mix:
    def __init__(self, B, after='new'):
        self.N, self.K, self.D = B.size('N'), B.size('K', 2), B.size('D')
        self.x = B.tensor('x', (self.N, self.D))
        self.llh = B.tensor('llh', (self.N, self.K))
        self.L = B.at(self.llh)
        self.ms = modelset(B, self.llh)
        self.cat, self.prm, self.E, self.P, self.F = weights(B, self.K)
        self.mix = B.beer.Mixture(self.cat, self.ms)
        if after != 'new':
            history(B, self.ms, self.llh, lambda: self.before(B, after))
        self.w = lambda n, k: self.L(n, k) + self.E(k)
        self.norm = lambda n: B.log(B.sum(self.K, lambda k: B.exp(self.w(n, k))))
        self.r = lambda n, k: B.exp(self.w(n, k) - self.norm(n))

    def before(self, B, after):
        'an earlier evaluation on other data, maybe with labels, maybe followed by an update'
        x = B.tensor('x_before', (self.N, self.D))
        kw = dict(labels=B.tensor('labels_before', (self.N,), isint=True, lo=0, hi=self.K)) \
            if after == 'labels' else {}
        self.mix.expected_log_likelihood(x, **kw)
        self.mix.accumulate(x)
        self.mix.posteriors(x)
        if after == 'update':
            n = B.tensor('counts_before', (1, self.K), nonneg=True)
            self.prm.store_stats(self.cat.sufficient_statistics(n)[0])
            self.prm.natural_grad_update(1.)
            a = B.at(self.prm.posterior.params.concentrations)
            self.E = lambda k: B.digamma(a(k)) - B.digamma(B.sum(self.K, a))


def check_acc(B, s, r, N=None):
    acc = s.mix.accumulate(s.x)
    p = s.ms.params[0][0]
    B.holds('parameters', set(acc) == {s.prm, p})
    B.eq('components', s.ms.calls[0][1], (s.N, s.K), r)
    B.eq('stats', s.ms.calls[0][0], (s.N, s.D), B.at(s.x))
    B.eq('components.acc', acc[p], (s.K, s.D), lambda k, d: B.sum(
        s.N, lambda n: r(n, k) * B.at(s.x)(n, d)))
    # sufficient statistics of the Dirichlet: counts, and their total last
    cnt = lambda k: B.sum(s.N, lambda n: r(n, k))
    B.eq('weights', acc[s.prm], (s.K,), lambda k: B.ite(
        k < s.K - 1, lambda: cnt(k), lambda: B.sum(s.K, cnt)))


@contract('P11', after=AFTER)
def responsibilities(B, after):
    'responsibilities are the exact posteriors, the value is the log-marginal'
    s = Mix(B, after)
    r = s.mix.expected_log_likelihood(s.x)
    B.eq('llh', r, (s.N,), s.norm)
    check_acc(B, s, s.r)
    B.eq('frame.llh', s.llh, (s.N, s.K), s.L)
    n = B.index('n', s.N)
    B.eq_num('normalised', s.mix.posteriors(s.x)[n].sum(), 1)


@contract('P11', after=AFTER)
def labels(B, after):
    'with labels given, the statistics are those of the labelled components'
    s = Mix(B, after)
    y = B.tensor('labels', (s.N,), isint=True, lo=0, hi=s.K)
    Y = B.at(y)
    r = s.mix.expected_log_likelihood(s.x, labels=y)
    B.eq('llh', r, (s.N,), lambda n: s.L(n, Y(n)))
    check_acc(B, s, lambda n, k: B.ite(B.same(Y(n), k), 1, 0))


@contract('P11', after=AFTER)
def posteriors(B, after):
    'posteriors() are the responsibilities used for training'
    s = Mix(B, after)
    B.eq('posteriors', s.mix.posteriors(s.x), (s.N, s.K), s.r)
    B.eq('frame.llh', s.llh, (s.N, s.K), s.L)


@contract('P11')
def groups(B):
    'every parameter of the components and of the weights belongs to one group'
    s = Mix(B)
    a, b, c = Param('a'), Param('b'), Param('c')
    for params in ([[a]], [[a, b]], [[a], [b, c]]):
        s.ms.params = params
        g = s.mix.mean_field_factorization()
        flat = [p for x in g for p in x]
        B.holds('each once', len(flat) == len(set(map(id, flat))) == 1 + sum(map(len, params)))
        for x in params:
            B.holds('kept', sum(all(p in y for p in x) for y in g) == 1)
        B.holds('weights', sum(s.prm in y for y in g) == 1)


# ----------------------------------------------------------------------

class MixSet:
    def __init__(self, B, after='new'):
        self.N, self.M, self.D = B.size('N'), B.size('M'), B.size('D')
        self.C = B.size('C', 2)
        self.x = B.tensor('x', (self.N, self.D))
        self.llh = B.tensor('llh', (self.N, self.M * self.C))
        self.L = B.at(self.llh)
        self.ms = modelset(B, self.llh)
        self.cat, self.prm, self.E, _, _ = weights(B, self.C, (self.M,))
        self.set = B.beer.MixtureSet(self.cat, self.ms)
        if after != 'new':
            history(B, self.ms, self.llh, lambda: self.before(B, after))
        C = self.C
        self.w = lambda n, m, c: self.L(n, m * C + c) + self.E(m, c)
        self.norm = lambda n, m: B.log(B.sum(C, lambda c: B.exp(self.w(n, m, c))))
        self.r = lambda n, m, c: B.exp(self.w(n, m, c) - self.norm(n, m))

    def before(self, B, after):
        x = B.tensor('x_before', (self.N, self.D))
        self.set.expected_log_likelihood(x)
        self.set.accumulate(x, B.tensor('resps_before', (self.N, self.M), nonneg=True))
        if after == 'update':
            n = B.tensor('counts_before', (self.M, self.C), nonneg=True)
            self.prm.store_stats(self.cat.sufficient_statistics(n))
            self.prm.natural_grad_update(1.)
            a = B.at(self.prm.posterior.params.concentrations)
            self.E = lambda m, k: B.digamma(a(m, k)) - B.digamma(B.sum(
                self.C, lambda j: a(m, j)))


@contract('P12', after=['new', 'call', 'update'])
def mixture_set(B, after):
    'mixture m owns the components m C .. (m + 1) C - 1'
    s = MixSet(B, after)
    B.eq_num('len', B.length(s.set), s.M)
    B.eq_num('ncomp', s.set.n_comp_per_mixture, s.C)
    r = s.set.expected_log_likelihood(s.x)
    B.eq('llh', r, (s.N, s.M), s.norm)
    u = B.tensor('resps', (s.N, s.M), nonneg=True)
    U = B.at(u)
    acc = s.set.accumulate(s.x, u)
    p = s.ms.params[0][0]
    B.holds('parameters', set(acc) == {s.prm, p})
    j = lambda n, m, c: U(n, m) * s.r(n, m, c)
    B.eq('components', s.ms.calls[0][1].reshape(-1, s.M, s.C), (s.N, s.M, s.C), j)
    B.eq('stats', s.ms.calls[0][0], (s.N, s.D), B.at(s.x))
    cnt = lambda m, c: B.sum(s.N, lambda n: j(n, m, c))
    B.eq('weights', acc[s.prm], (s.M, s.C), lambda m, c: B.ite(
        c < s.C - 1, lambda: cnt(m, c), lambda: B.sum(s.C, lambda q: cnt(m, q))))
    B.eq('frame.resps', u, (s.N, s.M), U)
    B.eq('frame.llh', s.llh, (s.N, s.M * s.C), s.L)


@contract('P12')
def mixture_set_items(B):
    'item m and slices of a set of mixtures are the mixtures they name'
    s = MixSet(B)
    m = B.index('m', s.M)
    x = s.set[m]
    B.holds('type', type(x) is B.beer.Mixture and type(x.categorical) is B.beer.Categorical)
    one = B.torch.eye(s.C, dtype=B.torch.float64)
    a = s.cat.expected_log_likelihood(s.cat.sufficient_statistics(one))
    B.eq('weights', x.categorical.expected_log_likelihood(
        x.categorical.sufficient_statistics(one)), (s.C,), lambda c: s.E(m, c))
    B.eq_num('components.start', x.modelset[1].start, m * s.C)
    B.eq_num('components.stop', x.modelset[1].stop, (m + 1) * s.C)
    B.holds('components.step', x.modelset[1].step in (None, 1))
    y = s.set[-1]
    B.eq_num('last.start', y.modelset[1].start, (s.M - 1) * s.C)
    B.eq_num('last.stop', y.modelset[1].stop, s.M * s.C)
    B.eq('last.weights', y.categorical.mean, (s.C,),
         lambda c: B.at(s.cat.mean)(s.M - 1, c))


@contract('P12', key=['all', 'tail', 'head', 'mid', 'step1'])
def mixture_set_slices(B, key):
    s = MixSet(B)
    m = B.index('m', s.M)
    n = B.index('n', s.M)
    k, a, b = dict(all=(slice(None), 0, s.M), tail=(slice(m, None), m, s.M),
                   head=(slice(None, m + 1), 0, m + 1),
                   mid=(slice(m, s.M), m, s.M), step1=(slice(0, n + 1, 1), 0, n + 1))[key]
    x = s.set[k]
    B.holds('type', type(x) is B.beer.MixtureSet)
    B.eq('weights', x.categoricalset.mean, (b - a, s.C), lambda i, c: B.at(s.cat.mean)(a + i, c))
    sl = x.modelset[1]
    B.eq_num('components.start', 0 if sl.start is None else sl.start, a * s.C)
    B.eq_num('components.stop', s.M * s.C if sl.stop is None else sl.stop, b * s.C)
    B.holds('components.step', sl.step in (None, 1))


@contract('P12')
def joint(B):
    'components of a joint set are those of its parts, in order'
    N, D = B.size('N'), B.size('D')
    K = [B.size(f'K{i}') for i in range(3)]
    x = B.tensor('x', (N, D))
    llh = [B.tensor(f'llh{i}', (N, k)) for i, k in enumerate(K)]
    ms = [modelset(B, l, name=f'm{i}') for i, l in enumerate(llh)]
    j = B.beer.JointModelSet(ms)
    off = [0, K[0], K[0] + K[1]]
    n = sum(K[1:], K[0])
    B.eq_num('len', B.length(j), n)
    r = j.expected_log_likelihood(j.sufficient_statistics(x))
    w = B.tensor('resps', (N, n), nonneg=True)
    W = B.at(w)
    acc = j.accumulate(x, w)
    t = B.index('t', N)
    B.holds('parameters', set(acc) == {m.params[0][0] for m in ms})
    for i in range(3):
        L = B.at(llh[i])
        c = B.index(f'c{i}', K[i])
        B.eq_num(f'llh{i}', r[t][off[i] + c], L(t, c))
        B.eq(f'resps{i}', ms[i].calls[0][1], (N, K[i]), lambda n, k: W(n, off[i] + k))
        B.eq(f'stats{i}', ms[i].calls[0][0], (N, D), B.at(x))
        got = j[off[i] + c]
        B.holds(f'item{i}', got[0] == f'm{i}')
        B.eq_num(f'item{i}.index', got[1], c)
    g = j.mean_field_factorization()
    B.holds('groups', len(g) == 1 and g[0] == [m.params[0][0] for m in ms])
    B.raises('out of range', IndexError, lambda: j[n])
    B.raises('negative', ValueError, lambda: j[-1])


@contract('P12')
def ordered(B):
    'a set reordered for a call: component of rank s is the one order[s], stats routed back'
    N, D, K, S = B.size('N'), B.size('D'), B.size('K'), B.size('S')
    x = B.tensor('x', (N, D))
    llh = B.tensor('llh', (N, K))
    ms = modelset(B, llh)
    L = B.at(llh)
    o = B.tensor('order', (S,), isint=True, lo=0, hi=K)
    O = B.at(o)
    d = B.beer.models.modelset.DynamicallyOrderedModelSet(ms)
    B.eq_num('len', B.length(d), K)
    r = d.expected_log_likelihood(d.sufficient_statistics(x), B.intlist(o))
    B.eq('llh', r, (N, S), lambda n, s: L(n, O(s)))
    w = B.tensor('resps', (N, S))
    W = B.at(w)
    d.accumulate(x, w)
    B.eq('resps', ms.calls[0][1], (N, K), lambda n, k: B.sum(
        S, lambda s: B.ite(B.same(O(s), k), lambda: W(n, s), 0)))
    B.eq('frame.resps', w, (N, S), W)
    # without an order: the original one
    r = d.expected_log_likelihood(x)
    B.eq('llh.default', r, (N, K), L)
    v = B.tensor('resps2', (N, K))
    d.accumulate(x, v)
    B.eq('resps.default', ms.calls[1][1], (N, K), B.at(v))
    c = B.index('c', K)
    B.eq_num('item', d[c][1], c)
    B.holds('groups', d.mean_field_factorization() == ms.params)


@contract('P12')
def repeated(B):
    'component r K + k of a set repeated is the component k; its statistics add up'
    N, D, K, R = B.size('N'), B.size('D'), B.size('K'), B.size('R')
    x = B.tensor('x', (N, D))
    llh = B.tensor('llh', (N, K))
    ms = modelset(B, llh)
    L = B.at(llh)
    d = B.beer.RepeatedModelSet(ms, R)
    B.eq_num('len', B.length(d), R * K)
    l = d.expected_log_likelihood(d.sufficient_statistics(x))
    B.eq('llh', l.reshape(N, R, K), (N, R, K), lambda n, r, k: L(n, k))
    B.eq_num('width', l.shape[1], R * K)
    w = B.tensor('resps', (N, R * K))
    W = B.at(w)
    d.accumulate(x, w)
    B.eq('resps', ms.calls[0][1], (N, K), lambda n, k: B.sum(R, lambda r: W(n, r * K + k)))
    c, r = B.index('c', K), B.index('r', R)
    B.eq_num('item', d[r * K + c][1], c)
    B.holds('groups', d.mean_field_factorization() == ms.params)
