"""P16: subspace models: affine transforms, layout of the super-vectors, objective."""
from . import contract
from .families import cat, width
from .c04_likelihood import lik
from .stubs import Param


def gsm(B):
    return __import__('sys').modules[B.beer.GSM.__module__] if not B.symbolic \
        else B.beer.models.gsm


def fix(B, d, s):
    'make a distribution draw the given samples (s[..., k, :] is the k-th), as many as asked for'
    def sample(n):
        B.eq_num('number of samples', n, s.shape[-2])
        return s
    d.sample = sample
    return d


def transform(B, I, O, n, tag='', linear=False):
    'transform whose parameters draw n arbitrary samples; reader f(x, s, o), x a reader x(i)'
    cls = gsm(B).LinearTransform if linear else B.beer.AffineTransform
    t = cls.create(I, O)
    w = B.tensor(f'W{tag}', (n, I * O))
    W = B.at(w)
    fix(B, t.weights.posterior, w)
    b = lambda s, o: 0
    if not linear:
        bt = B.tensor(f'b{tag}', (n, O))
        b = B.at(bt)
        fix(B, t.bias.posterior, bt)
    return t, lambda x, s, o: b(s, o) + B.sum(I, lambda i: x(i) * W(s, i * O + o))


@contract('P16', linear=[False, True], mixed=False)
def created(B, linear):
    'prior: zero mean, variance 1 / strength; posterior: zero mean, unit variance'
    I, O = B.size('I'), B.size('O')
    k = B.scalar('strength', pos=True)
    cls = gsm(B).LinearTransform if linear else B.beer.AffineTransform
    t = cls.create(I, O, prior_strength=k)
    for name, n in [('weights', I * O)] + ([] if linear else [('bias', O)]):
        p = getattr(t, name)
        for d, v in ((p.prior, 1 / k), (p.posterior, 1)):
            B.eq(name + '.mean', d.params.mean, (n,), lambda i: 0)
            B.eq(name + '.variance', d.params.diag_cov, (n,), lambda i: v + 1e-4)
    B.holds('dims', t.in_dim == I)
    B.holds('dims', t.out_dim == O)
    flat = [p for g in t.mean_field_factorization() for p in g]
    B.holds('parameters', set(flat) == {t.weights} | (set() if linear else {t.bias}) and
            len(flat) == 2 - linear)


@contract('P16', linear=[False, True])
def applied(B, linear):
    'every sample of the transform is an affine (linear) map of the input'
    I, O, N, S = B.size('I'), B.size('O'), B.size('N'), B.size('S')
    t, f = transform(B, I, O, S, linear=linear)
    x = B.tensor('x', (N, I))
    X = B.at(x)
    B.eq('output', t(x, S), (N, S, O), lambda n, s, o: f(lambda i: X(n, i), s, o))
    B.eq('frame.input', x, (N, I), X)


@contract('P16')
def hierarchical(B):
    'the weights and bias of the child transform are the image of the samples of its embedding'
    Q, I, O, N, S, R = (B.size(k) for k in ('Q', 'I', 'O', 'N', 'S', 'R'))
    root, f = transform(B, Q, (I + 1) * O, R)
    t = B.beer.HierarchicalAffineTransform.create(None, I, O, root)
    h = B.tensor('h', (1, S, Q))
    H = B.at(h)
    fix(B, t.latent_posterior, h)
    x = B.tensor('x', (N, I))
    X = B.at(x)
    g = lambda s, j: f(lambda i: H(0, B.idiv(s, R), i), B.imod(s, R), j)
    B.eq('output', t(x, S, R), (N, S * R, O), lambda n, s, o: g(s, I * O + o) + B.sum(
        I, lambda i: X(n, i) * g(s, i * O + o)))
    B.holds('no parameter of its own', t.mean_field_factorization() == [])


@contract('P16')
def full_posterior(B):
    'covariance of the full-covariance posteriors: L L^T, L lower triangular, positive diagonal'
    D, N = B.size('D', 2), B.size('N')
    m = B.tensor('m', (N, D))
    d = B.tensor('d', (N, D))
    l = B.tensor('l', (N, B.idiv(D * (D - 1), 2)))
    Dr, Lr = B.at(d), B.at(l)
    p = gsm(B)._MeanLogDiagLL(m, d, l)
    L = lambda n, i, j: B.ite(j < i, lambda: Lr(n, B.idiv(i * (i - 1), 2) + j), lambda: B.ite(
        B.same(i, j), lambda: 1e-3 + B.exp(Dr(n, i)), 0))
    B.eq('covariance', p.cov, (N, D, D), lambda n, i, j: B.sum(
        D, lambda k: L(n, i, k) * L(n, j, k)))


def make(B, via, tpl, t, lp=None):
    'the subspace model itself, or the set of subspace models, with transform t'
    if via == 'gsm':
        return B.beer.GSM(tpl, t, lp)
    return B.beer.GSMSet(tpl, t, None, None, lp)


@contract('P16', cov_type=['diagonal', 'full'], via=['gsm', 'set', 'hierarchical'], mixed=False)
def new_posteriors(B, cov_type, via):
    'posteriors of the embeddings: zero mean, spherical covariance, one per model'
    Q, N = B.size('Q'), B.size('N')
    t = B.beer.AffineTransform.create(Q, B.size('O'))
    if via == 'hierarchical':
        h = B.beer.HierarchicalAffineTransform.create(None, B.size('I'), B.size('J'), t, cov_type)
        p, N = h.latent_posterior, 1
        B.holds('root', h.root_transform is t and h.weights is t.weights and h.bias is t.bias)
        B.eq_num('in', h.in_dim, B.size('I'))
        B.eq_num('out', h.out_dim, B.size('J'))
        flat = [x for y in h.mean_field_factorization() for x in y]
        B.holds('parameters of the root are not its own', not flat)
    else:
        p = make(B, via, None, t).new_latent_posteriors(N, cov_type)
    B.eq('mean', p.params.mean, (N, Q), lambda n, i: 0)
    if cov_type == 'diagonal':
        B.eq('variance', p.params.diag_cov, (N, Q), lambda n, i: 1e-4 + 1 / Q)
    else:
        B.eq('covariance', p.params.cov, (N, Q, Q), lambda n, i, j: B.ite(
            B.same(i, j), lambda: (1e-3 + 1 / Q) ** 2, 0))
    B.eq_num('one per model', len(p) if not B.symbolic else B.length(p), N)


class Sub:
    '''a model with two parameters in the subspace: normals (a set of K) and a categorical'''

    def __init__(self, B, tag='', prior=None):
        self.K = B.size('K')
        self.normal, self.cat = lik(B, 'isotropic'), lik2(B)
        self.dims = [(self.K, self.normal), (1, self.cat)]
        self.rdim = self.K * self.normal.rdim + self.cat.rdim
        self.width = [width(*self.normal.stats(None)), self.cat.D]
        self.sdim = self.K * self.width[0] + self.width[1]

    def models(self, B, N, prior=None):
        'N (python int) models with arbitrary statistics'
        st = []
        out = []
        for n in range(N):
            shapes = [(self.K, self.width[0]), (self.width[1],)]
            ts = [B.tensor(f'stats{n}{k}', sh) for k, sh in enumerate(shapes)]
            st.append([B.at(t) for t in ts])
            ps = [B.beer.SubspaceBayesianParameter(prior, init_stats=t, likelihood_fn=k.lh)
                  for t, (_, k) in zip(ts, self.dims)]
            out.append(model(B, [[ps[0], Param('other')], [ps[1]]]))
        return out, st

    def svec(self, B, f):
        'super-vector from the readers of the parameters f = [(k, j), (j)]'
        w = self.width[0]
        return cat(B, (self.K * w, lambda *a: f[0](*a[:-1], B.idiv(a[-1], w), B.imod(a[-1], w))),
                   (self.width[1], lambda *a: f[1](*a)))

    def pdfvecs(self, B, r):
        'pdf vectors, parameter by parameter, of a real vector (reader r(.., i))'
        D, R, C = self.normal.D, self.normal.rdim, self.cat.D

        def normal(*a):
            *l, k, j = a
            rr = lambda i: r(*l, k * R + i)
            p = B.exp(rr(D))
            return cat(B, (D, lambda i: p * rr(i)), (1, lambda i: p),
                       (1, lambda i: p * B.sum(D, lambda d: rr(d) ** 2)),
                       (1, lambda i: rr(D)))(j)

        def categ(*a):
            *l, j = a
            rr = lambda i: r(*l, self.K * R + i)
            return B.ite(j < C - 1, lambda: rr(j),
                         lambda: -B.log(1 + B.sum(C - 1, lambda i: B.exp(rr(i)))))
        return [normal, categ]


class Simple(Sub):
    'the same with arbitrary likelihoods whose pdf vectors are exp(real vector)'

    def __init__(self, B):
        self.K = B.size('K')

        class Lik:
            def __init__(s, dim):
                s.D = s.rdim = dim
                s.lh = s

            def sufficient_statistics_dim(s, zero_stats=True):
                return s.D

            def pdfvectors_from_rvectors(s, r):
                return r.exp()
        self.normal, self.cat = Lik(B.size('D')), Lik(B.size('C'))
        self.dims = [(self.K, self.normal), (1, self.cat)]
        self.width = [self.normal.D, self.cat.D]
        self.rdim = self.sdim = self.K * self.width[0] + self.width[1]

    def pdfvecs(self, B, r):
        return [lambda *a: B.exp(r(*a[:-2], a[-2] * self.width[0] + a[-1])),
                lambda *a: B.exp(r(*a[:-1], self.K * self.width[0] + a[-1]))]


def lik2(B):
    'categorical with its own number of classes'
    class S:
        D = B.size('C', 2)
    S.lh = B.beer.dists.CategoricalLikelihood(S.D)
    S.rdim = S.D - 1
    return S


def model(B, groups):
    class Stub(B.beer.Model):
        def __init__(self):
            super().__init__()
            self.groups = groups

        def mean_field_factorization(self):
            return self.groups

        def sufficient_statistics(self, data):
            return data

        def expected_log_likelihood(self, stats, **kwargs):
            raise NotImplementedError

        def accumulate(self, stats):
            raise NotImplementedError
    return Stub()


def prior(B, Q, name='prior'):
    'a latent prior: any model linear in its statistics (x, x^2)'
    v = B.tensor(name, (2 * Q,))
    V = B.at(v)

    class Prior(B.beer.Model):
        def __init__(self):
            super().__init__()
            self.calls = []
            self.p = Param(name)

        def mean_field_factorization(self):
            return [[self.p]]

        def sufficient_statistics(self, x):
            return B.torch.cat([x, x ** 2], dim=-1)

        def expected_log_likelihood(self, stats, **kw):
            return stats @ v

        def accumulate(self, stats):
            self.calls.append(stats)
            return {self.p: stats.sum(dim=0)}
    f = lambda x: B.sum(Q, lambda i: V(i) * x(i) + V(Q + i) * x(i) ** 2)
    return Prior(), f


@contract('P16')
def dimension(B):
    'the subspace spans the real vectors of all the parameters of the model'
    s = Sub(B)
    Q = B.size('Q')
    (m,), _ = s.models(B, 1)
    g = B.beer.GSM.create(m, Q, None)
    B.eq_num('out', g.transform.out_dim, s.rdim)
    B.eq_num('in', g.transform.in_dim, Q)


@contract('P16', via=['gsm', 'set'])
def pdfvecs(B, via):
    'expected pdf vectors: average over the samples of the pdf vectors of the affine image'
    s = Sub(B)
    Q, N, S, R = (B.size(k) for k in ('Q', 'N', 'S', 'R'))
    t, f = transform(B, Q, s.rdim, R)
    (m,), _ = s.models(B, 1)
    g = make(B, via, m, t)
    h = B.tensor('h', (N, S, Q))
    H = B.at(h)
    post = fix(B, g.new_latent_posteriors(N), h)
    e = s.svec(B, s.pdfvecs(B, lambda n, u, v, i: f(lambda q: H(n, u, q), v, i)))
    B.eq('pdfvecs', g.expected_pdfvecs(post, S, R), (N, s.sdim), lambda n, i: B.sum(
        S, lambda u: B.sum(R, lambda v: e(n, u, v, i))) / (S * R))


@contract('P16', N=[1, 2], via=['gsm', 'set'])
def update(B, N, via):
    'each parameter of each model gets its own part of the pdf vectors'
    s = Sub(B)
    ms, _ = s.models(B, N)
    v = B.tensor('v', (N, s.sdim))
    V = B.at(v)
    make(B, via, None, None).update_models(ms, v)
    for n, m in enumerate(ms):
        a, b = m.groups[0][0], m.groups[1][0]
        B.eq('set', a.natural_form(), (s.K, s.width[0]), lambda k, j: V(n, k * s.width[0] + j))
        B.eq('vector', b.natural_form(), (s.width[1],), lambda j: V(n, s.K * s.width[0] + j))


@contract('P16', via=['gsm', 'set'])
def statistics(B, via):
    'statistics of the models: those of their parameters, in the order of the pdf vectors'
    s = Sub(B)
    ms, st = s.models(B, 2)
    g = make(B, via, ms[0], None)
    r = g.sufficient_statistics(ms)
    for n in range(2):
        B.eq('stats', r[n], (s.sdim,), s.svec(B, st[n]))
    B.eq_num('one row per model', r.shape[0], 2)


def logpdf(B, Q, m, v, n, x):
    'log-density of x(i) under the n-th diagonal Normal'
    return -.5 * B.sum(Q, lambda i: (x(i) - m(n, i)) ** 2 / v(n, i) + B.log(v(n, i))
                       + B.log(2) + B.log(B.pi))


def posteriors(B, N, Q, S, tag=''):
    'N diagonal posteriors drawing S arbitrary samples; readers of the samples and log-density'
    m, v = B.tensor('mean' + tag, (N, Q)), B.tensor('var' + tag, (N, Q), pos=True)
    h = B.tensor('h' + tag, (N, S, Q))
    M, V, H = B.at(m), B.at(v), B.at(h)
    d = fix(B, B.beer.dists.NormalDiagonalCovariance.from_std_parameters(m, v), h)
    return d, H, lambda n, s: logpdf(B, Q, M, V, n, lambda i: H(n, s, i))


def mean(B, n, f):
    return B.sum(n, f) / n


def earlier(B, s, g, Q, S, R, mpost=False):
    'an earlier evaluation on other models'
    ms, _ = s.models(B, 2)
    d = posteriors(B, 2, Q, S, tag='_before')[0]
    st = B.tensor('stats_before', (2, s.sdim))
    g.sufficient_statistics(ms)
    g.expected_log_likelihood(st, d, S, R)
    if mpost:
        g.accumulate(st, B.tensor('resps_before', (2, len(g) if not B.symbolic else B.length(g)),
                                  nonneg=True))
    else:
        g.accumulate(st)
    g.latent_prior.calls.clear()


@contract('P16', update=[True, False], again=[False, True])
def objective(B, update, again):
    '''expected log-likelihood of the models minus the divergence of the embeddings from their
    prior, estimated on the same samples; the models are set to the expected pdf vectors'''
    s = Simple(B)
    Q, S, R, N = B.size('Q'), B.size('S'), B.size('R'), 2
    t, f = transform(B, Q, s.rdim, R)
    lp, p = prior(B, Q)
    ms, _ = s.models(B, N)
    g = B.beer.GSM(ms[0], t, lp)
    if again:
        earlier(B, s, g, Q, S, R)
    post, H, q = posteriors(B, N, Q, S)
    g.sufficient_statistics(ms)
    st = B.tensor('stats', (N, s.sdim))
    ST = B.at(st)
    old = [[B.at(m.groups[0][0].natural_form()), B.at(m.groups[1][0].natural_form())] for m in ms]
    r = g.expected_log_likelihood(st, post, S, R, update_models=update)
    e = s.pdfvecs(B, lambda n, u, v, i: f(lambda j: H(n, u, j), v, i))
    E = lambda k: lambda n, *i: B.sum(S, lambda u: B.sum(R, lambda v: e[k](n, u, v, *i))) / (S * R)
    w = s.width[0]
    B.eq('value', r, (N,), lambda n: B.sum(s.sdim, lambda j: ST(n, j) * B.sum(S, lambda u: B.sum(
        R, lambda v: B.exp(f(lambda i: H(n, u, i), v, j)))) / (S * R))
        + mean(B, S, lambda u: p(lambda i: H(n, u, i)) - q(n, u)))
    for n, m in enumerate(ms):
        a, b = m.groups[0][0], m.groups[1][0]
        B.eq('set', a.natural_form(), (s.K, w),
             (lambda k, j: E(0)(n, k, j)) if update else old[n][0])
        B.eq('vector', b.natural_form(), (s.width[1],),
             (lambda j: E(1)(n, j)) if update else old[n][1])
    acc = g.accumulate(st)
    B.holds('prior', set(acc) == {lp.p})
    c = lp.calls[0]
    B.eq('prior.statistics', c, (N, 2 * Q), lambda n, i: B.ite(
        i < Q, lambda: mean(B, S, lambda u: H(n, u, i)),
        lambda: mean(B, S, lambda u: H(n, u, i - Q) ** 2)))
    flat = [x for y in g.mean_field_factorization() for x in y]
    B.holds('parameters', len(flat) == 3 and set(flat) == {lp.p, t.weights, t.bias})


@contract('P16', again=[False, True])
def set_objective(B, again):
    '''set of subspace models: each model is scored by each class, whose mean is added to its
    real vector; the divergence of the means is a global term'''
    s = Simple(B)
    Q, Q2, S, R, C, N = (*(B.size(k) for k in ('Q', 'Q2', 'S', 'R', 'C')), 2)
    t, f = transform(B, Q, s.rdim, R)
    t2, f2 = transform(B, Q2, s.rdim, R, tag='2', linear=True)
    lp, p = prior(B, Q)
    lp2, p2 = prior(B, Q2, name='prior2')
    post, H, q = posteriors(B, N, Q, S)
    mpost, H2, q2 = posteriors(B, C, Q2, S, tag='2')
    draw, mpost.sample = mpost.sample, lambda n: B.tensor('probe', (C, n, Q2))
    means = gsm(B).GSMSetMeansParameter(lp2, mpost)
    mpost.sample = draw
    ms, _ = s.models(B, N)
    g = B.beer.GSMSet(ms[0], t, t2, means, lp)
    if again:
        earlier(B, s, g, Q, S, R, True)
        lp2.calls.clear()
    g.sufficient_statistics(ms)
    st = B.tensor('stats', (N, s.sdim))
    ST = B.at(st)
    r = g.expected_log_likelihood(st, post, S, R)
    e = s.pdfvecs(B, lambda n, c, u, v, i: f(lambda j: H(n, u, j), v, i)
                  + f2(lambda j: H2(c, u, j), v, i))
    E = lambda k: lambda n, c, *i: B.sum(S, lambda u: B.sum(
        R, lambda v: e[k](n, c, u, v, *i))) / (S * R)
    w = s.width[0]
    B.eq('value', r, (N, C), lambda n, c: B.sum(s.sdim, lambda j: ST(n, j) * B.sum(
        S, lambda u: B.sum(R, lambda v: B.exp(f(lambda i: H(n, u, i), v, j) + f2(
            lambda i: H2(c, u, i), v, j)))) / (S * R))
        + mean(B, S, lambda u: p(lambda i: H(n, u, i)) - q(n, u)))
    B.eq('divergence of the means', means.kl_div_posterior_prior(), (), lambda: B.sum(
        C, lambda c: mean(B, S, lambda u: q2(c, u) - p2(lambda i: H2(c, u, i)))))
    resps = B.tensor('resps', (N, C), nonneg=True)
    Z = B.at(resps)
    acc = g.accumulate(st, resps)
    B.holds('priors', set(acc) == {lp.p, lp2.p})
    for n, m in enumerate(ms):
        a, b = m.groups[0][0], m.groups[1][0]
        B.eq('set', a.natural_form(), (s.K, w), lambda k, j: B.sum(
            C, lambda c: Z(n, c) * E(0)(n, c, k, j)))
        B.eq('vector', b.natural_form(), (s.width[1],), lambda j: B.sum(
            C, lambda c: Z(n, c) * E(1)(n, c, j)))
    B.eq('prior.statistics', lp.calls[0], (N, 2 * Q), lambda n, i: B.ite(
        i < Q, lambda: mean(B, S, lambda u: H(n, u, i)),
        lambda: mean(B, S, lambda u: H(n, u, i - Q) ** 2)))
    B.eq('means.statistics', lp2.calls[0], (C, 2 * Q2), lambda n, i: B.ite(
        i < Q2, lambda: mean(B, S, lambda u: H2(n, u, i)),
        lambda: mean(B, S, lambda u: H2(n, u, i - Q2) ** 2)))
    flat = [x for y in g.mean_field_factorization() for x in y]
    B.holds('parameters', len(flat) == 6 and set(flat) == {
        lp.p, lp2.p, means, t.weights, t.bias, t2.weights})


@contract('P16', mixed=False)
def set_created(B):
    s = Sub(B)
    (m,), _ = s.models(B, 1)
    Q, Q2, C = B.size('Q'), B.size('Q2'), B.size('C_')
    lp, lp2 = prior(B, Q)[0], prior(B, Q2, 'prior2')[0]
    g = B.beer.GSMSet.create(m, C, Q, Q2, lp, lp2)
    B.eq_num('length', B.length(g) if B.symbolic else len(g), C)
    for t, n in ((g.transform, Q), (g.disc_transform, Q2)):
        B.eq_num('in', t.in_dim, n)
        B.eq_num('out', t.out_dim, s.rdim)
    B.eq('mean', g.means.posterior.params.mean, (C, Q2), lambda c, i: 0)
    B.eq('variance', g.means.posterior.params.diag_cov, (C, Q2), lambda c, i: 1e-4 + 1 / Q2)


@contract('P16', view=['item', 'slice', 'nested', 'sliced slice'])
def views(B, view):
    'the parameter of a part of a set reads and writes the same part of the parameter of the set'
    K, D = B.size('K', 4), B.size('D')
    lh = B.beer.dists.IsotropicNormalLikelihood(D)
    st, pv = B.tensor('stats', (K, D + 3)), B.tensor('pdfvec', (K, D + 3))
    prm = B.beer.SubspaceBayesianParameter(None, init_stats=st, likelihood_fn=lh, pdfvec=pv)
    S, V = B.at(st), B.at(pv)
    i = B.integer('i', 1, K - 2)
    v, n, o = {'item': lambda: (prm[i], None, i), 'slice': lambda: (prm[i:i + 2], 2, i),
               'nested': lambda: (prm[i:i + 2][1], None, i + 1),
               'sliced slice': lambda: (prm[i:i + 2][1:], 1, i + 1)}[view]()
    at = lambda R: (lambda j: R(o, j)) if n is None else (lambda k, j: R(o + k, j))
    sh = (D + 3,) if n is None else (n, D + 3)
    B.eq('stats', v.stats, sh, at(S))
    B.eq('natural_form', v.natural_form(), sh, at(V))
    val = v.value()
    B.eq('value', val[1], (*sh[:-1], 1), lambda *k: V(o + (k[0] if n else 0), D))
    B.eq_num('length', B.length(v) if B.symbolic else len(v), n or 1)
    new, new2 = B.tensor('new', sh), B.tensor('new2', sh)
    N, N2 = B.at(new), B.at(new2)
    v.stats, v.pdfvec = new, new2
    back = lambda R, Old: lambda k, j: B.ite(
        B.all_(B.not_(k < o), k < o + (n or 1)),
        (lambda: R(j)) if n is None else (lambda: R(k - o, j)), lambda: Old(k, j))
    B.eq('stats written', prm.stats, (K, D + 3), back(N, S))
    B.eq('pdfvec written', prm.natural_form(), (K, D + 3), back(N2, V))
    B.eq('no divergence', v.kl_div_posterior_prior(), (), lambda: 0)
    B.eq('no divergence', prm.kl_div_posterior_prior(), (), lambda: 0)


@contract('P16')
def from_parameter(B):
    'a parameter moved to the subspace keeps its statistics and its likelihood'
    from .c04_likelihood import parameter
    P, F, prm = parameter(B, 'normalgamma', (B.size('K'),))
    w = width(*F.nat)
    st = B.tensor('stats', (B.size('K'), w))
    prm.store_stats(st)
    S = B.at(st)
    p = B.beer.SubspaceBayesianParameter.from_parameter(prm, None)
    B.eq('stats', p.stats, (B.size('K'), w), S)
    B.holds('likelihood', type(p.likelihood_fn) is type(prm.prior.conjugate()))
    p.zero_stats()
    B.eq('frame', prm.stats, (B.size('K'), w), S)
    B.eq('pdfvec', p.natural_form(), (B.size('K'), w), lambda k, j: 0)


@contract('P16', G=[1, 2], mixed=False)
def hierarchical_objective(B, G):
    '''bound of each child model minus the divergence of the embedding of its subspace from the
    prior; the prior gets the statistics of all the embeddings'''
    Q, S, N = B.size('Q'), B.size('S'), B.size('N')
    lp, p = prior(B, Q)
    root = B.beer.AffineTransform.create(Q, B.size('O'))
    g = B.beer.HierarchicalGSM(root, lp)
    kids, L, KL, q, H = [], [], [], [], []

    def child(k):
        llh = B.tensor(f'llh{k}', (N,))
        kl = B.scalar(f'kl{k}', pos=True)
        prm = Param('a')
        prm.kl_div_posterior_prior = lambda: B.torch.tensor(kl)
        L.append(B.at(llh))
        KL.append(kl)

        def expected(stats, latent_posts=None, **kw):
            m.seen = (stats, latent_posts)
            return llh
        m = model(B, [[prm]])
        m.expected_log_likelihood = expected
        m.accumulate = lambda s: {}
        d, h, lq = posteriors(B, 1, Q, S, tag=str(k))
        H.append(h)
        q.append(lq)
        m.transform = B.beer.HierarchicalAffineTransform.create(lp, 1, 1, root, latent_posterior=d)
        return m
    kids = [child(k) for k in range(G)]
    data = [B.tensor(f'data{k}', (N, 1)) for k in range(G)]
    st = g.sufficient_statistics(list(zip(kids, data)))
    r = g.expected_log_likelihood(st, [f'post{k}' for k in range(G)], S)
    for k in range(G):
        B.eq('value', r[k].reshape(-1), (1,), lambda i: B.sum(N, L[k]) - KL[k] + mean(
            B, S, lambda u: p(lambda i: H[k](0, u, i)) - q[k](0, u)))
        B.holds('data', kids[k].seen[0] is data[k] and kids[k].seen[1] == f'post{k}')
    g.accumulate(st)
    c = lp.calls[0]
    B.eq('prior.statistics', c, (1, 2 * Q), lambda n, i: B.ite(
        i < Q, lambda: sum(mean(B, S, lambda u: H[k](0, u, i)) for k in range(G)),
        lambda: sum(mean(B, S, lambda u: H[k](0, u, i - Q) ** 2) for k in range(G))))
    flat = [x for y in g.mean_field_factorization() for x in y]
    B.holds('parameters', len(flat) == 3 and set(flat) == {lp.p, root.weights, root.bias})


@contract('P16', via=['gsm', 'set'], mixed=False)
def new_models(B, via):
    '''new models: independent copies of the model, set to the expected pdf vectors of their own
    embedding'''
    s = Simple(B)
    Q, S, R, N = B.size('Q'), B.size('S'), B.size('R'), 2
    t, f = transform(B, Q, s.rdim, R)
    (tpl,), st = s.models(B, 1)
    g = make(B, via, tpl, t)
    ms, post = g.new_models(N, latent_nsamples=S, params_nsamples=R)
    B.holds('number', len(ms) == N)
    z = B.at(B.noise(0))
    h = lambda n, u: lambda i: B.sqrt(1e-4 + 1 / Q) * z(n, u, i)
    e = s.pdfvecs(B, lambda n, u, v, i: f(h(n, u), v, i))
    E = lambda k: lambda n, *i: B.sum(S, lambda u: B.sum(R, lambda v: e[k](n, u, v, *i))) / (S * R)
    w = s.width[0]
    for n, m in enumerate(ms):
        a, b = m.groups[0][0], m.groups[1][0]
        B.eq('set', a.natural_form(), (s.K, w), lambda k, j: E(0)(n, k, j))
        B.eq('vector', b.natural_form(), (s.width[1],), lambda j: E(1)(n, j))
        B.holds('posterior', a.posterior is post and b.posterior is post)
        B.holds('copies', a is not tpl.groups[0][0] and a.stats is not tpl.groups[0][0].stats)
    B.holds('copies', ms[0].groups[0][0] is not ms[1].groups[0][0])
    a, b = tpl.groups[0][0], tpl.groups[1][0]
    B.eq('frame.set', a.natural_form(), (s.K, w), lambda k, j: 0)
    B.eq('frame.vector', b.natural_form(), (s.width[1],), lambda j: 0)
    B.eq('frame.stats', a.stats, (s.K, w), st[0][0])


@contract('P16', P=[3, 4], plain=[None, 1])
def layout(B, P, plain):
    '''a model with P parameters in the subspace (and possibly an ordinary one among them): each
    owns the same segment of the statistics, of the real vectors and of the pdf vectors'''
    class Lik:
        def __init__(s, dim):
            s.D = dim

        def sufficient_statistics_dim(s, zero_stats=True):
            return s.D

        def pdfvectors_from_rvectors(s, r):
            return B.torch.cat([r.exp(), r.sum(dim=-1, keepdim=True)], dim=-1)
    K = [B.size(f'K{k}') if k % 2 == 0 else None for k in range(P)]
    D = [B.size(f'D{k}') for k in range(P)]
    num = lambda k, extra: (1 if K[k] is None else K[k]) * (D[k] + extra)
    start = lambda k, extra: sum(num(i, extra) for i in range(k))
    Q, S, R, N = B.size('Q'), B.size('S'), B.size('R'), 2
    ms, st = [], []
    for n in range(N):
        ts = [B.tensor(f'stats{n}{k}', (D[k] + 1,) if K[k] is None else (K[k], D[k] + 1))
              for k in range(P)]
        st.append([B.at(t) for t in ts])
        groups = [[B.beer.SubspaceBayesianParameter(None, init_stats=t, likelihood_fn=Lik(d))]
                  for t, d in zip(ts, D)]
        if plain:
            groups.insert(plain, [Param('ordinary')])
        ms.append(model(B, groups))
        ms[-1].subspace = [g[0] for k, g in enumerate(groups) if not plain or k != plain]
    t, f = transform(B, Q, start(P, 0), R)
    g = B.beer.GSM.create(ms[0], Q, None)
    B.eq_num('dimension', g.transform.out_dim, start(P, 0))
    g = B.beer.GSM(ms[0], t, None)
    r = g.sufficient_statistics(ms)

    def seg(read, k, n):
        s = start(k, 1)
        return (lambda j: read(n, s + j)) if K[k] is None else (
            lambda i, j: read(n, s + i * (D[k] + 1) + j))
    shape = lambda k: (D[k] + 1,) if K[k] is None else (K[k], D[k] + 1)
    for n in range(N):
        for k in range(P):
            s = start(k, 1)
            B.eq(f'stats{k}', r[n][s:s + num(k, 1)].reshape(shape(k)), shape(k), st[n][k])
    v = B.tensor('v', (N, start(P, 1)))
    V = B.at(v)
    g.update_models(ms, v)
    for n in range(N):
        for k in range(P):
            B.eq(f'pdfvec{k}', ms[n].subspace[k].natural_form(), shape(k), seg(V, k, n))
    h = B.tensor('h', (N, S, Q))
    H = B.at(h)
    post = fix(B, g.new_latent_posteriors(N), h)
    x = g.expected_pdfvecs(post, S, R)
    rv = lambda n, u, v, i: f(lambda q: H(n, u, q), v, i)
    for k in range(P):
        s, o = start(k, 1), start(k, 0)

        def e(n, i, j):
            at = lambda u, v, j: rv(n, u, v, o + (i * D[k] + j if K[k] is not None else j))
            return B.sum(S, lambda u: B.sum(R, lambda v: B.ite(
                j < D[k], lambda: B.exp(at(u, v, j)),
                lambda: B.sum(D[k], lambda d: at(u, v, d))))) / (S * R)
        if K[k] is None:
            B.eq(f'expected{k}', x[:, s:s + num(k, 1)], (N, D[k] + 1), lambda n, j: e(n, None, j))
        else:
            B.eq(f'expected{k}', x[:, s:s + num(k, 1)].reshape(N, K[k], D[k] + 1),
                 (N, K[k], D[k] + 1), e)
