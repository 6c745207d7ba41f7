"""P15: models are created as declared."""
from . import contract
from .c04_likelihood import parameter
from .c08_graph import graph
from .c11_mixture import weights
from .stubs import modelset

COV = ['number', 'scalar', 'diagonal', 'full']
TYPES = ['full', 'diagonal', 'isotropic']


class Declared:
    'a mean and a covariance given as a scalar (one element), a diagonal or a matrix'

    def __init__(self, B, cov):
        D = self.D = B.size('D', 2)
        self.mean = B.tensor('mean', (D,))
        self.m = B.at(self.mean)
        if cov in ('number', 'scalar'):
            self.cov = B.tensor('cov', (1,), pos=True)
            c = B.at(self.cov)
            if cov == 'number':
                self.cov = self.cov[0]
            self.c = lambda i, j: B.ite(B.same(i, j), lambda: c(0), 0)
        elif cov == 'diagonal':
            self.cov = B.tensor('cov', (D,), pos=True)
            c = B.at(self.cov)
            self.c = lambda i, j: B.ite(B.same(i, j), lambda: c(i), 0)
        else:
            self.cov = B.tensor('cov', (D, D), sym=(0, 1), pos='spd')
            self.c = B.at(self.cov)
        self.raw, self.rawshape = B.at(self.cov), self.cov.shape
        self.s = B.scalar('prior_strength', pos=True)

    def frame(self, B):
        B.eq('frame.mean', self.mean, (self.D,), self.m)
        B.eq('frame.cov', self.cov, self.rawshape, self.raw)


def check_params(B, tag, d, lead, p, cov_type, mean):
    'standard parameters: mean, strength pseudo-observations, expected covariance as declared'
    D, s, c = d.D, d.s, d.c
    B.eq(f'{tag}.mean', p.mean, (*lead, D), mean)
    tail = (*lead, 1)
    B.eq(f'{tag}.scale', p.scale.reshape(tail), tail, lambda *x: s)
    if cov_type == 'full':
        B.eq(f'{tag}.dof', p.dof.reshape(tail), tail, lambda *x: s + D - 1)
        P = B.inv(D, c)
        B.eq(f'{tag}.scale_matrix', p.scale_matrix, (*lead, D, D),
             lambda *x: P(x[-2], x[-1]) / (s + D - 1))
    elif cov_type == 'diagonal':
        B.eq(f'{tag}.shape', p.shape.reshape(tail), tail, lambda *x: s)
        B.eq(f'{tag}.rates', p.rates, (*lead, D), lambda *x: s * c(x[-1], x[-1]))
    else:
        B.eq(f'{tag}.shape', p.shape.reshape(tail), tail, lambda *x: s)
        B.eq(f'{tag}.rate', p.rate.reshape(tail), tail,
             lambda *x: s * B.max(D, lambda i: c(i, i)))


@contract('P15', cov=COV, cov_type=TYPES)
def normal(B, cov, cov_type):
    'Normal.create: expected mean and covariance as declared, prior = initial posterior'
    d = Declared(B, cov)
    model = B.beer.Normal.create(d.mean, d.cov, prior_strength=d.s, cov_type=cov_type)
    prm = model.mean_precision
    for tag, q in (('prior', prm.prior), ('posterior', prm.posterior)):
        check_params(B, tag, d, (), q.params, cov_type, d.m)
    B.eq('mean', model.mean, (d.D,), d.m)
    spec = {'full': d.c,
            'diagonal': lambda i, j: B.ite(B.same(i, j), lambda: d.c(i, i), 0),
            'isotropic': lambda i, j: B.ite(B.same(i, j), lambda: B.max(
                d.D, lambda k: d.c(k, k)), 0)}[cov_type]
    B.eq('cov', model.cov, (d.D, d.D), spec)
    d.frame(B)


@contract('P15', cov=COV, cov_type=TYPES)
def normal_set(B, cov, cov_type):
    'NormalSet.create: every member as declared, initial means jittered by noise_std deviations'
    d = Declared(B, cov)
    K = B.size('K')
    z = B.scalar('noise_std', pos=True)
    model = B.beer.NormalSet.create(d.mean, d.cov, K, prior_strength=d.s, noise_std=z,
                                    cov_type=cov_type)
    prm = model.means_precisions
    B.eq_num('len', B.length(model), K)
    check_params(B, 'prior', d, (K,), prm.prior.params, cov_type, lambda k, i: d.m(i))
    n = B.at(B.noise(0))
    check_params(B, 'posterior', d, (K,), prm.posterior.params, cov_type,
                 lambda k, i: d.m(i) + n(k, i) * z * B.sqrt(d.c(i, i)))
    d.frame(B)


@contract('P15', cov_type=TYPES, kind=['single', 'set'])
def training(B, cov_type, kind):
    'the first update changes neither the prior nor the tensors the model was created from'
    d = Declared(B, 'full')
    if kind == 'single':
        model = B.beer.Normal.create(d.mean, d.cov, prior_strength=d.s, cov_type=cov_type)
        lead = ()
    else:
        lead = (B.size('K'),)
        model = B.beer.NormalSet.create(d.mean, d.cov, lead[0], prior_strength=d.s,
                                        noise_std=1., cov_type=cov_type)
    prm = model.mean_field_factorization()[0][0]
    prm.store_stats(B.tensor('stats', prm.stats.shape))
    prm.natural_grad_update(1.)
    check_params(B, 'prior', d, lead, prm.prior.params, cov_type, lambda *x: d.m(x[-1]))
    d.frame(B)


@contract('P15')
def unknown_covariance(B):
    'unknown types of covariance are reported'
    d = Declared(B, 'full')
    E = B.beer.models.normal.UnknownCovarianceType
    for name in ('diag', 'spherical', '', None):
        B.raises(f'normal.{name}', E, lambda: B.beer.Normal.create(d.mean, d.cov, cov_type=name))
        B.raises(f'set.{name}', E, lambda: B.beer.NormalSet.create(d.mean, d.cov, 2, cov_type=name))


@contract('P15', batched=[False, True])
def categorical(B, batched):
    'Categorical(Set).create: expected weights as declared, strength pseudo-observations'
    K = B.size('K', 2)
    lead = (B.size('M'),) if batched else ()
    w = B.tensor('weights', (*lead, K), pos=True)
    W = B.at(w)
    s = B.scalar('prior_strength', pos=True)
    cls = B.beer.CategoricalSet if batched else B.beer.Categorical
    model = cls.create(w, s)
    prm = model.weights
    for tag, q in (('prior', prm.prior), ('posterior', prm.posterior)):
        B.eq(f'{tag}', q.params.concentrations, (*lead, K), lambda *x: s * W(*x))
    tot = lambda *x: B.sum(K, lambda j: W(*x[:-1], j))
    B.eq('mean', model.mean, (*lead, K), lambda *x: W(*x) / tot(*x))
    prm.store_stats(B.tensor('stats', prm.stats.shape))
    prm.natural_grad_update(1.)
    B.eq('prior.kept', prm.prior.params.concentrations, (*lead, K), lambda *x: s * W(*x))
    B.eq('frame.weights', w, (*lead, K), W)


# ----------------------------------------------------------------------

VIEWS = ['isonormalgamma', 'normalgamma', 'normalwishart']


@contract('P15', family=VIEWS)
def normal_views(B, family):
    'mean and cov of a Normal in any state: expected mean, inverse of the expected precision'
    P, F, prm = parameter(B, family, ())
    model = B.beer.Normal(prm)
    D = F.par['mean'][1][-1]
    B.eq('mean', model.mean, (D,), F.par['mean'][2])
    if family == 'normalwishart':
        W, v = F.par['scale_matrix'][2], F.par['dof'][2]
        inv = B.inv(D, W)
        f = lambda i, j: inv(i, j) / v(0)
    else:
        a = F.par['shape'][2]
        b = F.par['rate' if family == 'isonormalgamma' else 'rates'][2]
        k = (lambda i: 0) if family == 'isonormalgamma' else (lambda i: i)
        f = lambda i, j: B.ite(B.same(i, j), lambda: b(k(i)) / a(0), 0)
    B.eq('cov', model.cov, (D, D), f)


def uniform(B, tag, prm, shape, v):
    for n, q in (('prior', prm.prior), ('posterior', prm.posterior)):
        B.eq(f'{tag}.{n}', q.params.concentrations, shape, lambda *x: v)


@contract('P15', given=[False, True])
def mixture(B, given):
    'Mixture.create: the components as given, uniform weights unless weights are given'
    N, K = B.size('N'), B.size('K', 2)
    ms = modelset(B, B.tensor('llh', (N, K)))
    s = B.scalar('prior_strength', pos=True)
    if given:
        cat_, prm, E, P, F = weights(B, K)
        m = B.beer.Mixture.create(ms, cat_, s)
        B.holds('weights', m.categorical is cat_)
        for x, t in ((prm.prior, P), (prm.posterior, F)):
            B.eq('concentrations', x.params.concentrations, (K,), t.par['concentrations'][2])
    else:
        m = B.beer.Mixture.create(ms, prior_strength=s)
        uniform(B, 'weights', m.categorical.weights, (K,), s / K)
    B.holds('components', m.modelset is ms)


@contract('P15')
def mixture_set(B):
    'MixtureSet.create: size mixtures of len / size components each, uniform weights'
    N, M, C = B.size('N'), B.size('M'), B.size('C', 2)
    ms = modelset(B, B.tensor('llh', (N, M * C)))
    s = B.scalar('prior_strength', pos=True)
    m = B.beer.MixtureSet.create(M, ms, s)
    B.holds('components', m.modelset is ms)
    B.eq_num('len', B.length(m), M)
    B.eq_num('components per mixture', m.n_comp_per_mixture, C)
    uniform(B, 'weights', m.categoricalset.weights, (M, C), s / C)


@contract('P15', bigram=[False, True], given=[False, True])
def phone_loop(B, bigram, given):
    'PhoneLoop.create: uniform phone weights unless weights are given'
    P = 3
    S = 2 * P + B.size('X')
    g, I, F, A = graph(B, S, lt=1)
    ms = modelset(B, B.tensor('llh', (B.size('N'), S)))
    s = B.scalar('prior_strength', pos=True)
    start = {f'p{i}': 2 * i for i in range(P)}
    end = {f'p{i}': 2 * i + 1 for i in range(P)}
    cls = B.beer.BigramPhoneLoop if bigram else B.beer.PhoneLoop
    if given:
        c = weights(B, P, (P,) if bigram else ())[0]
        m = cls.create(g, start, end, ms, c, prior_strength=s)
    else:
        m = cls.create(g, start, end, ms, prior_strength=s)
    w = m.categoricalset if bigram else m.categorical
    if given:
        B.holds('weights', w is c)
    else:
        uniform(B, 'weights', w.weights, (P, P) if bigram else (P,), s / P)
    B.holds('parts', m.graph is g and m.modelset.original_modelset is ms
            and m.start_pdf == start and m.end_pdf == end)


@contract('P15')
def gamma_model(B):
    'Gamma.create: known shape, rate of expected value shape / mean'
    D = B.size('D')
    mean = B.tensor('mean', (D,), pos=True)
    shape = B.tensor('shape', (D,), pos=True)
    m, a = B.at(mean), B.at(shape)
    s = B.scalar('prior_strength', pos=True)
    model = B.beer.Gamma.create(mean, shape, prior_strength=s)
    for n, q in (('prior', model.rate.prior), ('posterior', model.rate.posterior)):
        B.eq(f'{n}.shape', q.params.shape, (D,), lambda i: s)
        B.eq(f'{n}.rate', q.params.rate, (D,), lambda i: s * m(i) / a(i))
    B.eq('mean', model.mean, (D,), m)
    B.eq('frame.mean', mean, (D,), m)


@contract('P15', mixed=False)
def hyper(B):
    'SBCategoricalHyperPrior.create: Beta(1, concentration) sticks, Gamma of the same mean'
    g, h = B.scalar('concentration', pos=True), B.scalar('hyper_strength', pos=True)
    for K in (1, 3):
        sb = B.beer.SBCategoricalHyperPrior.create(K, prior_strength=g, hyper_prior_strength=h)
        for q in (sb.stickbreaking.prior, sb.stickbreaking.posterior):
            B.eq('sticks', q.params.concentrations, (K, 2), lambda k, i: B.ite(i < 1, 1, lambda: g))
        for q in (sb.concentration.prior, sb.concentration.posterior):
            B.eq('shape', q.params.shape, (1,), lambda i: h)
            B.eq('rate', q.params.rate, (1,), lambda i: h / g)
