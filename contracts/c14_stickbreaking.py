"""P14: truncated stick-breaking categoricals (Dirichlet process and HDP)."""
from . import contract
from .families import dirichlet, gamma, build


def sticks(B, n, tag):
    F = dirichlet(B, (n,), tag, K=2)
    return build(F), F.par['concentrations'][2]


class SB:
    'stick-breaking categorical in an arbitrary state: any posterior, any order of the sticks'

    def __init__(self, B, cls=None):
        self.K = B.size('K')
        self.prior, self.a = sticks(B, self.K, '_prior')
        self.post, self.c = sticks(B, self.K, '')
        self.prm = B.beer.ConjugateBayesianParameter(self.prior, self.post)
        self.sb = B.beer.SBCategorical(self.prm)
        o = B.permutation('order', self.K)
        self.sb.ordering = o.clone()
        self.o, self.rank = B.at(o), B.perm_inv('order')


def elog(B, c, K, o, rank):
    'E log pi_k = E log v_k + sum over the sticks broken before k of E log (1 - v)'
    dg = lambda *i: B.digamma(c(*i, 0) + c(*i, 1))
    return lambda *x: B.digamma(c(*x, 0)) - dg(*x) + B.sum(rank(x[-1]), lambda i: (
        lambda j: B.digamma(c(*j, 1)) - dg(*j))((*x[:-1], o(i))))


def mean(B, c, K, o, rank):
    tot = lambda *i: c(*i, 0) + c(*i, 1)
    return lambda *x: c(*x, 0) / tot(*x) * B.exp(B.sum(rank(x[-1]), lambda i: (
        lambda j: B.log(c(*j, 1) / tot(*j)))((*x[:-1], o(i)))))


@contract('P14')
def weights(B):
    'expected weights and expected log-weights are those of the stick-breaking construction'
    s = SB(B)
    B.eq('mean', s.sb.mean, (s.K,), mean(B, s.c, s.K, s.o, s.rank))
    N = B.size('N')
    x = B.tensor('x', (N, s.K))
    X = B.at(x)
    E = elog(B, s.c, s.K, s.o, s.rank)
    st = s.sb.sufficient_statistics(x)
    B.eq('llh', s.sb.expected_log_likelihood(st), (N,), lambda n: B.sum(
        s.K, lambda k: X(n, k) * E(k)))
    acc = s.sb.accumulate(st)
    B.holds('parameters', list(acc) == [s.prm] and s.sb.mean_field_factorization() == [[s.prm]])
    B.eq('stats', acc[s.prm], (s.K,), lambda k: B.sum(N, lambda n: X(n, k)))
    B.eq('frame.posterior', s.post.params.concentrations, (s.K, 2), s.c)
    B.eq('frame.order', s.sb.ordering, (s.K,), s.o)


@contract('P14')
def update(B):
    '''after an update the sticks are in decreasing order of counts and each one has the
    Beta posterior of its count against the counts of the sticks broken after it'''
    s = SB(B)
    n = B.tensor('n', (s.K,), nonneg=True)
    N = B.at(n)
    s.prm.store_stats(n)
    s.prm.natural_grad_update(1.)
    B.sorted_by('order', s.sb.ordering, s.K, N)
    o, r = B.at(s.sb.ordering), B.at(s.sb.reverse_ordering)
    k = B.index('k', s.K)
    B.eq_num('rank', o(r(k)), k)
    after = lambda k: B.sum(s.K, lambda i: B.ite(i > r(k), lambda: N(o(i)), 0))
    B.eq('posterior', s.prm.posterior.params.concentrations, (s.K, 2),
         lambda k, i: s.a(k, i) + B.ite(i < 1, lambda: N(k), lambda: after(k)))
    B.eq('frame.prior', s.prm.prior.params.concentrations, (s.K, 2), s.a)
    B.eq('frame.counts', n, (s.K,), N)


@contract('P14')
def update_rate(B):
    'a partial update goes the given fraction of the way'
    s = SB(B)
    n = B.tensor('n', (s.K,), nonneg=True)
    N = B.at(n)
    l = B.scalar('lrate', pos=True)
    s.prm.store_stats(n)
    s.prm.natural_grad_update(l)
    o, r = B.at(s.sb.ordering), B.at(s.sb.reverse_ordering)
    after = lambda k: B.sum(s.K, lambda i: B.ite(i > r(k), lambda: N(o(i)), 0))
    B.eq('posterior', s.prm.posterior.params.concentrations, (s.K, 2), lambda k, i:
         (1 - l) * s.c(k, i) + l * (s.a(k, i) + B.ite(i < 1, lambda: N(k), lambda: after(k))))


@contract('P14', mixed=False)
def creation(B):
    'a new stick-breaking process: Beta(1, concentration) sticks in the natural order'
    sizes = [1, 2, 4]
    g = B.scalar('concentration', pos=True)
    for K in sizes:
        sb = B.beer.SBCategorical.create(K, prior_strength=g)
        w = lambda k, i: B.ite(i < 1, 1, lambda: g)
        B.eq('prior', sb.stickbreaking.prior.params.concentrations, (K, 2), w)
        B.eq('posterior', sb.stickbreaking.posterior.params.concentrations, (K, 2), w)
        B.eq('order', sb.ordering, (K,), lambda k: k)
        B.eq('mean', sb.mean, (K,), lambda k: 1 / (1 + g) * (g / (1 + g)) ** k if not B.symbolic
             else 1 / (1 + g) * B.exp(k * B.log(g / (1 + g))))


@contract('P14')
def hyper(B):
    '''Gamma hyper-prior on the concentration: the sticks' prior is Beta(1, E[concentration]),
    every update of the sticks gives the concentration its exact conjugate posterior'''
    K = B.size('K')
    prior, a = sticks(B, K, '_prior')
    post, c = sticks(B, K, '')
    G, H = gamma(B, (), '_cprior', D=1), gamma(B, (), '_cpost', D=1)
    prm = B.beer.ConjugateBayesianParameter(prior, post)
    cp = B.beer.ConjugateBayesianParameter(build(G), build(H))
    sb = B.beer.SBCategoricalHyperPrior(prm, cp)
    sh, rt = H.par['shape'][2], H.par['rate'][2]
    B.eq('prior', prior.params.concentrations, (K, 2), lambda k, i: B.ite(
        i < 1, lambda: a(k, 0), lambda: sh(0) / rt(0)))
    n = B.tensor('n', (K,), nonneg=True)
    prm.store_stats(n)
    prm.natural_grad_update(1.)
    p = B.at(prm.posterior.params.concentrations)
    o = B.at(sb.ordering)
    s1 = B.sum(K, lambda i: B.digamma(p(o(i), 1)) - B.digamma(p(o(i), 0) + p(o(i), 1)))
    sh0, rt0 = G.par['shape'][2], G.par['rate'][2]
    B.eq('shape', cp.posterior.params.shape, (1,), lambda i: sh0(0) + K)
    B.eq('rate', cp.posterior.params.rate, (1,), lambda i: rt0(0) - s1)
    B.eq('new prior', prm.prior.params.concentrations, (K, 2), lambda k, i: B.ite(
        i < 1, lambda: a(k, 0), lambda: (sh0(0) + K) / (rt0(0) - s1)))
    B.eq('frame.shape', cp.prior.params.shape, (1,), sh0)
    B.eq('frame.rate', cp.prior.params.rate, (1,), rt0)


class HDP:
    def __init__(self, B):
        self.M = B.size('M')
        self.root = SB(B)
        K = self.K = self.root.K
        self.o, self.rank = self.root.o, self.root.rank
        self.g = B.scalar('concentration', pos=True)
        self.set = B.beer.SBCategoricalSet.create(self.M, self.root.sb, prior_strength=self.g)
        self.prm = self.set.mean_field_factorization()[0][0]


@contract('P14')
def hdp_creation(B):
    '''sticks of a member of the HDP: Beta(c pi_k, c (1 - sum of the weights of the root up to k
    in the order of its sticks))'''
    s = HDP(B)
    w = mean(B, s.root.c, s.K, s.o, s.rank)
    m, k = B.index('m', s.M), B.index('k', s.K)
    pr = B.at(s.prm.prior.params.concentrations.reshape(-1, s.K, 2))
    B.eq_num('prior.0', pr(m, k, 0), s.g * w(k))
    B.eq_num('prior.1', pr(m, k, 1), s.g * (1 - B.sum(s.rank(k) + 1, lambda i: w(s.o(i)))))
    po = B.at(s.prm.posterior.params.concentrations.reshape(-1, s.K, 2))
    i = B.index('i', 2)
    B.eq_num('posterior', po(m, k, i), s.root.c(k, i))
    B.eq('frame.root', s.root.post.params.concentrations, (s.K, 2), s.root.c)


@contract('P14')
def hdp(B):
    'members of the HDP: expected weights, likelihoods and updates, member by member'
    s = HDP(B)
    prior, a0 = sticks(B, s.M * s.K, '_sp')
    post, c0 = sticks(B, s.M * s.K, '_s')
    prm = B.beer.ConjugateBayesianParameter(prior, post)
    st = B.beer.SBCategoricalSet(s.M, prm, s.root.sb, s.g, None, None, 0)
    c = lambda m, k, i: c0(m * s.K + k, i)
    B.eq('mean', st.mean, (s.M, s.K), mean(B, c, s.K, s.o, s.rank))
    N = B.size('N')
    x = B.tensor('x', (N, s.K))
    X = B.at(x)
    E = elog(B, c, s.K, s.o, s.rank)
    B.eq('llh', st.expected_log_likelihood(st.sufficient_statistics(x)), (N, s.M),
         lambda n, m: B.sum(s.K, lambda k: X(n, k) * E(m, k)))
    j = B.tensor('joint', (N, s.M, s.K), nonneg=True)
    J = B.at(j)
    acc = st.accumulate_from_jointresps(j)
    B.holds('parameters', list(acc) == [prm] and st.mean_field_factorization() == [[prm]])
    cnt = lambda m, k: B.sum(N, lambda n: J(n, m, k))
    B.eq('stats', acc[prm], (s.M, s.K), cnt)
    n = B.tensor('n', (s.M, s.K), nonneg=True)
    C = B.at(n)
    prm.store_stats(n)
    prm.natural_grad_update(1.)
    new = prm.posterior.params.concentrations.reshape(-1, s.K, 2)
    B.eq('posterior', new, (s.M, s.K, 2), lambda m, k, i: a0(m * s.K + k, i) + B.ite(
        i < 1, lambda: C(m, k), lambda: B.sum(s.K, lambda i: B.ite(
            i > s.rank(k), lambda: C(m, s.o(i)), 0))))
    B.eq('frame.prior', prior.params.concentrations, (s.M * s.K, 2), a0)
    B.eq('frame.root', s.root.post.params.concentrations, (s.K, 2), s.root.c)
