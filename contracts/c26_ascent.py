'''P26: an update never decreases the bound.

The theorems of lemmas/ascent.lean derive it from the form of the bound, of the divergence, of the
statistics and of the step; their hypotheses are the obligations below.'''
from . import contract, lemma
from .families import build, cat, width
from .c04_likelihood import MODELS, parameter, dim, log2pi
from .c05_learning import CONJ
from .stubs import modelset

lemma('P26', 'ascent.lean', 'gain', 'ascent', 'linear_tangent', 'mixture_tangent')


def kl(B, p, q):
    return B.beer.dists.kl_div(p, q).sum()


def data(B, family, N, D, name='x'):
    return B.tensor(name, (N, D), **({'nonneg': True} if family == 'dirichlet' else {}))


def single(B, family):
    P, F, prm = parameter(B, family, ())
    model = (B.beer.Categorical if family == 'dirichlet' else B.beer.Normal)(prm)
    return F, prm, model


@contract('P26', family=MODELS)
def gain(B, family):
    'one parameter, unit rate: the gain of the step is the divergence of the old to the new posterior'
    F, prm, model = single(B, family)
    x = data(B, family, B.size('N'), dim(F, family))
    old = build(F)
    opt = B.beer.VBConjugateOptimizer(model.mean_field_factorization(), 1.)
    before = B.beer.evidence_lower_bound(model, x)
    opt.init_step()
    before.backward()
    opt.step()
    after = B.beer.evidence_lower_bound(model, x)
    B.eq_num('gain', after.value - before.value, kl(B, old, prm.posterior))


@contract('P26', family=CONJ)
def divergence(B, family):
    'KL of ascent.lean: A the log-normaliser, e the expected statistics, both of the code'
    P, F, prm = parameter(B, family, (B.size('M'),))
    p, q = prm.prior, prm.posterior
    dot = ((p.natural_parameters() - q.natural_parameters()) * prm.natural_form()).sum()
    B.eq_num('KL', kl(B, q, p), p.log_norm().sum() - q.log_norm().sum() - dot)
    B.eq_num('kl_div_posterior_prior', prm.kl_div_posterior_prior().sum(), kl(B, q, p))


@contract('P26', family=MODELS)
def single_bound(B, family):
    '''bound = c + <S, e> - KL, S the statistics the update receives and e the expected statistics
    (linear_tangent); b = a + r (p + S - a)'''
    F, prm, model = single(B, family)
    w, N = width(*F.nat), B.size('N')
    T, r = B.integer('datasize', lo=1), B.fraction('rate')
    x = data(B, family, N, dim(F, family))
    a, p, e = (B.at(t) for t in (prm.posterior.natural_parameters(), prm.prior.natural_parameters(),
                                 prm.natural_form()))
    opt = B.beer.VBConjugateOptimizer(model.mean_field_factorization(), r)
    opt.init_step()
    elbo = B.beer.evidence_lower_bound(model, x, datasize=T)
    elbo.backward()
    S = B.at(prm.stats)
    c = 0 if family == 'dirichlet' else -.5 * T * dim(F, family) * log2pi(B)
    B.eq_num('bound', elbo.value + kl(B, prm.posterior, prm.prior),
             c + B.sum(w, lambda j: S(j) * e(j)))
    opt.step()
    B.eq('step', prm.posterior.natural_parameters(), (w,),
         lambda j: a(j) + r * (p(j) + S(j) - a(j)))


class Members:
    'a set of K components of a family with its parameter'

    def __init__(self, B, family, K, tag=''):
        self.P, self.F, self.prm = parameter(B, family, (K,), tag)
        self.w = width(*self.F.nat)
        self.set = (B.beer.CategoricalSet if family == 'dirichlet' else B.beer.NormalSet)(self.prm)
        self.D = dim(self.F, family)
        self.c = 0 if family == 'dirichlet' else -.5 * self.D * log2pi(B)


def weight_parameter(B, K, lead, tag):
    from .families import dirichlet
    P, F = dirichlet(B, lead, tag + '_prior', K=K), dirichlet(B, lead, tag, K=K)
    return B.beer.ConjugateBayesianParameter(build(P), build(F))


def one(B, K, k, j):
    'statistics of the class k'
    return B.ite(j < K - 1, lambda: B.ite(B.same(j, k), 1, 0), 1)


def dot(B, n, f, g):
    return B.sum(n, lambda j: f(j) * g(j))


def logsumexp(B, n, f):
    if B.symbolic:
        return B.log(B.sum(n, lambda k: B.exp(f(k))))
    top = max(f(k) for k in range(n))
    return top + B.log(B.sum(n, lambda k: B.exp(f(k) - top)))


def natural(B, prms):
    return [(B.at(p.posterior.natural_parameters()), B.at(p.prior.natural_parameters()))
            for p in prms]


@contract('P26', family=MODELS)
def mixture_bound(B, family):
    '''log-probabilities of the components affine in the expected statistics; S: their slopes times
    the responsibilities (mixture_tangent)'''
    N, K, r = B.size('N'), B.size('K', 2), B.fraction('rate')
    T = B.integer('datasize', lo=1)
    m = Members(B, family, K)
    wp = weight_parameter(B, K, (), '_weights')
    mix = B.beer.Mixture(B.beer.Categorical(wp), m.set)
    x = data(B, family, N, m.D)
    t = B.at(mix.sufficient_statistics(x))
    e, ew = B.at(m.prm.natural_form()), B.at(wp.natural_form())
    nat = natural(B, (m.prm, wp))
    lp = lambda n, k: m.c + dot(B, m.w, lambda j: t(n, j), lambda j: e(k, j)) + dot(
        B, K, lambda j: one(B, K, k, j), ew)
    lse = lambda n: logsumexp(B, K, lambda k: lp(n, k))
    resp = lambda n, k: B.exp(lp(n, k) - lse(n))
    groups = mix.mean_field_factorization()
    opt = B.beer.VBConjugateOptimizer(groups, r)
    opt.init_step()
    elbo = B.beer.evidence_lower_bound(mix, x, datasize=T)
    B.eq_num('bound', elbo.value + kl(B, m.prm.posterior, m.prm.prior) + kl(
        B, wp.posterior, wp.prior), T / N * B.sum(N, lse))
    elbo.backward()
    S = lambda k, j: T / N * B.sum(N, lambda n: resp(n, k) * t(n, j))
    Sw = lambda j: T / N * B.sum(K, lambda k: one(B, K, k, j) * B.sum(N, lambda n: resp(n, k)))
    B.eq('components.S', m.prm.stats, (K, m.w), S)
    B.eq('weights.S', wp.stats, (K,), Sw)
    step(B, opt, groups, [(m.prm, (K, m.w), *nat[0]), (wp, (K,), *nat[1])], r)


def step(B, opt, groups, prms, r):
    '''the parameters of the group of the step move by the rate towards prior + statistics (any
    that were stored), the others stay'''
    st = []
    for k, (p, shape, *_) in enumerate(prms):
        t = p.stats if not B.symbolic else B.tensor(f'stored{k}', shape)
        st.append(B.at(t))
        p.store_stats(t)
    opt.step()
    updated = 0
    for (p, shape, a, q), S in zip(prms, st):
        new = p.posterior.natural_parameters()
        if p in groups[0]:
            updated += 1
            B.eq('step', new, shape, lambda *i: a(*i) + r * (q(*i) + S(*i) - a(*i)))
        else:
            B.eq('no step', new, shape, a)
    B.holds('updated', updated > 0)


@contract('P26')
def nested_bound(B):
    '''a mixture of mixtures of arbitrary components: those of the bound are the pairs (mixture,
    component), their log-probability is affine in the expected statistics'''
    N, K, C, D = B.size('N'), B.size('K', 2), B.size('C', 2), B.size('D')
    llh = B.tensor('llh', (N, K * C))
    L = B.at(llh)
    ms = modelset(B, llh)
    wp, ws = weight_parameter(B, K, (), '_weights'), weight_parameter(B, C, (K,), '_set')
    mix = B.beer.Mixture(B.beer.Categorical(wp), B.beer.MixtureSet(B.beer.CategoricalSet(ws), ms))
    x = B.tensor('x', (N, D))
    ew, es = B.at(wp.natural_form()), B.at(ws.natural_form())
    # the log-weight of a class: product of the statistics of the class and the expected ones
    lw = lambda k: dot(B, K, lambda j: one(B, K, k, j), ew)
    lc = lambda n, k, c: L(n, k * C + c) + dot(B, C, lambda j: one(B, C, c, j), lambda j: es(k, j))
    sub = lambda n, k: logsumexp(B, C, lambda c: lc(n, k, c))
    lse = lambda n: logsumexp(B, K, lambda k: sub(n, k) + lw(k))
    rk = lambda n, k: B.exp(sub(n, k) + lw(k) - lse(n))
    resp = lambda n, k, c: rk(n, k) * B.exp(lc(n, k, c) - sub(n, k))
    B.eq('bound', mix.expected_log_likelihood(mix.sufficient_statistics(x)), (N,), lse)
    acc = mix.accumulate(x)
    B.eq('components.S', ms.calls[0][1].reshape(-1, K, C), (N, K, C), resp)
    B.eq('components.stats', ms.calls[0][0], (N, D), B.at(x))
    total = lambda k: B.sum(N, lambda n: rk(n, k))
    B.eq('weights.S', acc[wp], (K,), lambda k: B.ite(
        k < K - 1, lambda: total(k), lambda: B.sum(N, lambda n: B.sum(K, lambda k: rk(n, k)))))
    count = lambda k, c: B.sum(N, lambda n: resp(n, k, c))
    B.eq('set.S', acc[ws], (K, C), lambda k, c: B.ite(
        c < C - 1, lambda: count(k, c), lambda: B.sum(C, lambda d: count(k, d))))


KINDS = ['categorical', 'normal', 'mixture', 'nested', 'joint']


@contract('P26', symbolic=False, seeds=4, kind=KINDS, cov_type=['isotropic', 'diagonal', 'full'],
          batches=[1, 3],
          note='up to seven steps on 30 frames of 2 dimensions, 3 or 4 components, rates 1 and 0.4')
def training(B, kind, cov_type, batches):
    'the bound of real models never decreases, be it computed batch by batch'
    import torch
    N, D = 30, 2
    x = 2 * B.tensor('x', (N, D)) + 4 * B.tensor('side', (N, 1))
    if kind == 'categorical':
        x = torch.softmax(3 * x, dim=-1)
        model = B.beer.Categorical.create(torch.tensor([.3, .7]), prior_strength=2.)
    elif kind == 'normal':
        model = B.beer.Normal.create(x.mean(dim=0) + 1, torch.eye(D), .5, cov_type)
    else:
        sets = lambda n: B.beer.NormalSet.create(x.mean(dim=0), torch.eye(D) * 3., n, 1., 1., cov_type)
        ms = {'mixture': lambda: sets(3), 'nested': lambda: B.beer.MixtureSet.create(2, sets(4)),
              'joint': lambda: B.beer.JointModelSet([sets(2), sets(1)])}[kind]()
        model = B.beer.Mixture.create(ms)
    model = model.double()
    for rate in (1., .4):
        opt = B.beer.VBOptimizer(B.beer.VBConjugateOptimizer(
            model.mean_field_factorization(), rate), None)
        value = -float('inf')
        for epoch in range(2 * len(model.mean_field_factorization()) + 3):
            opt.init_step()
            if batches == 1:
                elbo = B.beer.evidence_lower_bound(model, x)
            else:
                elbo = B.beer.evidence_lower_bound(datasize=N)
                for part in x.chunk(batches):
                    elbo = elbo + B.beer.evidence_lower_bound(model, part, datasize=N)
            new = float(elbo) / batches
            B.holds('ascent', new >= value - 1e-6 * abs(new))
            value = new
            elbo.backward()
            opt.step()
