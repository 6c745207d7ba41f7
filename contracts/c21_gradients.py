"""P21: gradients.  `B.leaf` declares what gradients are taken with respect to; a value cut off
the graph (detach, no_grad, item, ...) is read through frozen copies of the leaves."""
from . import contract
from .c10_hmm import Setup
from .c11_mixture import Mix, MixSet
from .c16_gsm import Simple, gsm, prior
from .c20_models import World
from .families import gamma, build
from .stubs import modelset
from .c17_nnet import Auto, GAUSS, layers


@contract('P21', after=['new', 'call', 'update'])
def mixture(B, after):
    'derivative of the log-marginal by the log-likelihood of a component: its responsibility'
    s = Mix(B, after)
    B.leaf(s.llh)
    s.L = B.frozen(s.llh)
    r = s.mix.expected_log_likelihood(s.x)
    B.eq_grad('components', r, s.llh, lambda n, m, k: B.ite(
        B.same(n, m), lambda: s.r(n, k), 0))
    B.severed('responsibilities', s.mix.accumulate(s.x)[s.prm])


@contract('P21')
def mixture_labels(B):
    'with labels: the labelled component only'
    s = Mix(B)
    B.leaf(s.llh)
    y = B.tensor('labels', (s.N,), isint=True, lo=0, hi=s.K)
    r = s.mix.expected_log_likelihood(s.x, labels=y)
    B.eq_grad('components', r, s.llh, lambda n, m, k: B.ite(
        B.all_(B.same(n, m), B.same(B.at(y)(n), k)), 1, 0))


@contract('P21')
def mixture_set(B):
    'the same for each mixture of a set'
    s = MixSet(B)
    B.leaf(s.llh)
    s.L = B.frozen(s.llh)
    r = s.set.expected_log_likelihood(s.x)
    d = lambda i, j: B.ite(B.same(i, j), 1, 0)
    B.eq_grad('components', r, s.llh, lambda n, m, n2, k: d(n, n2) * B.sum(
        s.C, lambda c: d(m * s.C + c, k) * s.r(n, m, c)))
    resps = B.tensor('resps', (s.N, s.M), nonneg=True)
    B.severed('responsibilities', s.set.accumulate(s.x, resps)[s.prm])


@contract('P21', scaled=[False, True], how=['baum_welch', 'viterbi', 'path', 'external'])
def hmm(B, scaled, how):
    'derivative by the log-likelihood of an emission: scaled posterior of the states using it'
    s = Setup(B)
    B.leaf(s.llh)
    s.L = B.frozen(s.llh)
    c = B.scalar('scale', pos=True) if scaled else 1
    kw = dict(scale=c) if scaled else {}
    if how == 'path':
        path = B.tensor('path', (s.T,), isint=True, lo=0, hi=s.S)
        P = B.at(path)
        post = lambda t, q: B.ite(B.same(P(t), q), 1, 0)
        kw['state_path'] = path
    elif how == 'viterbi':
        v = s.viterbi(B, c)
        post = lambda t, q: B.ite(B.same(v.path(t), q), 1, 0)
        kw['viterbi'] = True
    else:
        post = s.fb(B, c).post
        if how == 'external':
            kw['inference_graph'] = s.g
    r = s.hmm.expected_log_likelihood(s.x, **kw)
    d = lambda i, j: B.ite(B.same(i, j), 1, 0)
    B.eq_grad('emissions', r, s.llh, lambda t, u, k: d(t, u) * B.sum(
        s.S, lambda q: d(s.O(q), k) * c * post(t, q)))


# ------------------------------------------------------- distributions and parameters

def diagonal(B, lead, D, tag=''):
    'diagonal Normal trained by gradient: its distribution and its two leaves'
    ts = [B.leaf(B.tensor(k + tag, (*lead, D))) for k in ('mean', 'logdiag')]
    p = gsm(B)._MeanLogDiagCov(*ts)
    return B.beer.dists.NormalDiagonalCovariance(p), [B.leaf(p.mean), B.leaf(p.log_diag_cov)]


def full(B, lead, D, tag=''):
    ts = [B.leaf(B.tensor(k + tag, s)) for k, s in [
        ('mean', (*lead, D)), ('logdiag', (*lead, D)),
        ('off', (*lead, B.idiv(D * (D - 1), 2)))]]
    if not B.symbolic:
        B.assume(float(ts[1].abs().max()) < 3)      # well conditioned
    p = gsm(B)._MeanLogDiagLL(*ts)
    return B.beer.dists.NormalFullCovariance(p), [
        B.leaf(p.mean), B.leaf(p.log_diag_L), B.leaf(p.L_offdiag)]


@contract('P21', lead=['one', 'set'])
def normal(B, lead):
    'densities, samples, moments and natural form of a Normal trained by gradient'
    D, S, n = B.size('D'), B.size('S'), () if lead == 'one' else (B.size('N'),)
    d, xs = diagonal(B, n, D)
    st = B.leaf(B.tensor('stats', (*(n or (1,)), 2 * D)))
    B.gradient('natural_parameters', d.natural_parameters, *xs)
    B.gradient('expected_sufficient_statistics', d.expected_sufficient_statistics, *xs)
    B.gradient('expected_value', d.expected_value, *xs)
    B.gradient('log_norm', d.log_norm, *xs)
    B.gradient('density', lambda: d(st), st, *xs)
    B.gradient('density, one by one', lambda: d(st, pdfwise=True), st, *xs)
    B.gradient('samples', lambda: d.sample(S), *xs)
    x = B.leaf(B.tensor('x', (S, D)))
    B.gradient('statistics', lambda: d.sufficient_statistics(x), x)


@contract('P21')
def full_normal(B):
    'covariance and density of a full-covariance Normal trained by gradient'
    D, N = B.size('D', 2), B.size('N')
    d, xs = full(B, (N,), D)
    B.gradient('covariance', lambda: d.params.cov, *xs)
    x = B.leaf(B.tensor('x', (N, D)))
    B.gradient('statistics', lambda: d.sufficient_statistics(x), x)
    B.gradient('natural_parameters', d.natural_parameters, *xs)
    B.gradient('expected_sufficient_statistics', d.expected_sufficient_statistics, *xs)
    B.gradient('log_norm', d.log_norm, *xs)


@contract('P21')
def divergence(B):
    'divergence of a posterior trained by gradient from its prior: value and gradient agree'
    D = B.size('D')
    q, xs = diagonal(B, (), D)
    m, v = B.tensor('pm', (D,)), B.tensor('pv', (D,), pos=True)
    p = B.beer.dists.NormalDiagonalCovariance.from_std_parameters(m, v)
    prm = B.beer.BayesianParameter(p, q)
    B.gradient('divergence', prm.kl_div_posterior_prior, *xs)
    B.gradient('divergence', lambda: B.beer.dists.kl_div(q, p), *xs)


# -------------------------------------------------- probabilistic layers, flows, networks

def params(B, *modules):
    return [B.leaf(p) for m in modules for p in m.parameters()]


@contract('P21', kind=GAUSS)
def layer(B, kind):
    'parameters, densities and samples of a Normal layer: by its weights and by its input'
    N, I, D = B.size('N'), B.size('I'), B.size('D')
    l = getattr(layers(B), f'Normal{kind}CovarianceLayer')(I, D)
    ps = params(B, l)
    B.holds('parameters', len(ps) == (2 if kind == 'Identity' else 4))
    h, x = B.leaf(B.tensor('h', (N, I))), B.leaf(B.tensor('x', (N, D)))
    if kind == 'Identity':
        B.gradient('mean', lambda: l(h), h, *ps)
    else:
        B.gradient('mean', lambda: l(h)[0], h, *ps)
        B.gradient('variance', lambda: l(h)[1], h, *ps)
    B.gradient('log_likelihood', lambda: l.log_likelihood(x, l(h)), x, h, *ps)
    for use_mean in (False, True):
        B.gradient('samples', lambda: l.samples_and_llh(l(h), use_mean=use_mean)[0], h, *ps)
        B.gradient('density of the samples', lambda: l.samples_and_llh(
            l(h), use_mean=use_mean)[1], h, *ps)


@contract('P21')
def bernoulli(B):
    N, I, D = B.size('N'), B.size('I'), B.size('D')
    l = layers(B).BernoulliLayer(I, D)
    ps = params(B, l)
    h, x = B.leaf(B.tensor('h', (N, I))), B.leaf(B.tensor('x', (N, D)))
    B.gradient('mean', lambda: l(h), h, *ps)
    B.gradient('log_likelihood', lambda: l.log_likelihood(x, l(h)), x, h, *ps)


@contract('P21', steps=[0, 1, 2], use_mean=[False, True])
def flow(B, steps, use_mean):
    'samples and densities of a flow: by its initial Normal, its steps and its context'
    N, I, C, D = B.size('N'), B.size('I'), B.size('C'), B.size('D')
    base = layers(B).NormalDiagonalCovarianceLayer(I, D)

    class Step(B.torch.nn.Module):
        'a step depending on its input and on the context'
        def __init__(self):
            super().__init__()
            self.a, self.b = B.torch.nn.Linear(D, D), B.torch.nn.Linear(C, D)

        def forward(self, z, c):
            return self.a(z) + self.b(c), (self.a(z) - self.b(c)).exp()
    st = B.torch.nn.ModuleList([Step() for _ in range(steps)])
    l = layers(B).InverseAutoRegressiveFlow(I, C, base, st)
    ps = params(B, l)
    B.holds('parameters', len(ps) == 6 + 4 * steps)
    h = B.leaf(B.tensor('h', (N, I)))
    B.gradient('samples', lambda: l.samples_and_llh(l(h), use_mean=use_mean)[0], h, *ps)
    B.gradient('densities', lambda: l.samples_and_llh(l(h), use_mean=use_mean)[1], h, *ps)


@contract('P21', net=['arnet', 'residual', 'block', 'merge'])
def network(B, net):
    'networks: by all their weights and inputs; masked connections stay cut'
    N, I, W = B.size('N'), B.size('I'), B.size('W')
    mod = B.beer.nnet.neuralnetwork
    xs = [B.leaf(B.tensor('x', (N, I)))]
    if net == 'arnet':
        C = B.size('C')
        xs.append(B.leaf(B.tensor('c', (N, C))))
        nt = B.beer.nnet.arnet.AutoRegressiveNetwork(I, C, 1, W, B.torch.nn.Tanh())
    elif net == 'residual':
        nt = B.beer.nnet.residual.ResidualFeedForwardNet(I, 2, W)
    elif net == 'block':
        nt = mod.NeuralNetworkBlock(B.torch.nn.Sequential(
            B.torch.nn.Linear(I, W), B.torch.nn.Tanh()), B.torch.nn.Linear(I, W))
    else:
        J = B.size('J')
        xs.append(B.leaf(B.tensor('y', (N, J))))
        nt = mod.MergeTransform(B.torch.nn.Linear(I, W), B.torch.nn.Linear(J, W))
    ps = params(B, nt)
    B.holds('parameters', len(ps) == dict(arnet=8, residual=8, block=4, merge=4)[net])
    for k in range(2 if net == 'arnet' else 1):
        B.gradient('output', lambda: nt(*xs)[k] if net == 'arnet' else nt(*xs), *xs, *ps)


# -------------------------------------------------------------------- auto-encoders

@contract('P21')
def coders(B):
    'posteriors and densities of an auto-encoder: by its inputs and by all its weights'
    a = Auto(B)
    N = B.size('N')
    enc = params(B, a.vae.encoder, a.vae.enc_mean_layer, a.vae.enc_var_layer)
    dec = params(B, a.vae.decoder, a.vae.dec_mean_layer, a.vae.dec_var_layer)
    own = list(a.vae.parameters())
    B.holds('trainable', len(own) == len(enc + dec) == 12 and all(
        any(p is q for q in enc + dec) for p in own))
    for f, d, ps in ((a.vae.posteriors, a.X, enc), (a.vae.pdfs, a.Z, dec)):
        x = B.leaf(B.tensor('x', (N, d)))
        B.gradient('mean', lambda: f(x).params.mean, x, *ps)
        B.gradient('variance', lambda: f(x).params.diag_cov, x, *ps)


@contract('P21', shape=['vector', 'column'], weights=['default', 'given'])
def autoencoder(B, shape, weights):
    '''the objective of an auto-encoder: by the data, the posteriors of the latent variables
    and the densities of the data given the samples (which depend on these samples)'''
    a = Auto(B, shape)
    N, S = B.size('N'), B.size('S')
    x = B.leaf(B.tensor('x', (N, a.X)))
    d = B.beer.dists.NormalDiagonalCovariance
    m, v = B.leaf(B.tensor('m', (N, a.Z))), B.leaf(B.tensor('v', (N, a.Z), pos=True))
    w, u = B.leaf(B.tensor('w', (a.Z, a.X))), B.leaf(B.tensor('u', (N * S, a.X), pos=True))
    std = d._std_params_cls
    a.vae.posteriors = lambda x: d(std(m, v))
    a.vae.pdfs = lambda z: d(std(z @ w, u))
    kw = {}
    if weights == 'given':
        kw = dict(llh_weight=B.scalar('wl', pos=True), kl_weight=B.scalar('wk', pos=True))
    B.gradient('objective', lambda: a.vae.expected_log_likelihood(x, nsamples=S, **kw),
               x, m, v, w, u)
    a.prior.calls.clear()
    B.holds('statistics', set(a.vae.accumulate(x)) == {a.prior.p})


# ------------------------------------------------------------------- subspace models

def trained(B, I, O, linear=False, tag=''):
    'transform with arbitrary posteriors; its leaves'
    d = B.beer.dists.NormalDiagonalCovariance
    one = lambda n: d(gsm(B)._MeanLogDiagCov(B.torch.zeros(n), B.torch.zeros(n)))
    w, xs = diagonal(B, (), I * O, 'W' + tag)
    if linear:
        return gsm(B).LinearTransform(one(I * O), w, O), xs
    b, ys = diagonal(B, (), O, 'b' + tag)
    return B.beer.AffineTransform(one(I * O), w, one(O), b), xs + ys


@contract('P21', linear=[False, True])
def transforms(B, linear):
    'images: by the input and by the posteriors of the weights and of the bias'
    I, O, N, S = B.size('I'), B.size('O'), B.size('N'), B.size('S')
    t, ps = trained(B, I, O, linear)
    x = B.leaf(B.tensor('x', (N, I)))
    B.gradient('image', lambda: t(x, S), x, *ps)
    own = list(t.parameters())
    B.holds('trainable', len(own) == len(ps) and all(any(p is q for q in ps) for p in own))


@contract('P21')
def hierarchical_transform(B):
    Q, I, O, N, S, R = (B.size(k) for k in ('Q', 'I', 'O', 'N', 'S', 'R'))
    root, ps = trained(B, Q, (I + 1) * O)
    post, ys = diagonal(B, (1,), Q)
    t = B.beer.HierarchicalAffineTransform.create(None, I, O, root, latent_posterior=post)
    x = B.leaf(B.tensor('x', (N, I)))
    B.gradient('image', lambda: t(x, S, R), x, *ps, *ys)


@contract('P21', update=[True, False])
def subspace(B, update):
    '''the objective of a subspace model: by the posteriors of the embeddings and of the
    transform; the statistics handed to the prior carry no gradient'''
    s = Simple(B)
    Q, S, R, N = B.size('Q'), B.size('S'), B.size('R'), 2
    t, ps = trained(B, Q, s.rdim)
    lp, _ = prior(B, Q)
    ms, _ = s.models(B, N)
    g = B.beer.GSM(ms[0], t, lp)
    post, xs = diagonal(B, (N,), Q)
    g.sufficient_statistics(ms)
    st = B.tensor('stats', (N, s.sdim))
    B.gradient('objective', lambda: g.expected_log_likelihood(
        st, post, S, R, update_models=update), *xs, *ps)
    B.gradient('pdfvecs', lambda: g.expected_pdfvecs(post, S, R), *xs, *ps)
    lp.calls.clear()
    g.accumulate(st)
    B.severed('statistics', lp.calls[0])


@contract('P21')
def subspace_set(B):
    'the same for sets of subspace models, whose class means are trained too'
    s = Simple(B)
    Q, Q2, S, R, C, N = (*(B.size(k) for k in ('Q', 'Q2', 'S', 'R', 'C')), 2)
    t, ps = trained(B, Q, s.rdim)
    t2, ps2 = trained(B, Q2, s.rdim, True, '2')
    lp, lp2 = prior(B, Q)[0], prior(B, Q2, name='prior2')[0]
    post, xs = diagonal(B, (N,), Q)
    mpost, ys = diagonal(B, (C,), Q2, '2')
    means = gsm(B).GSMSetMeansParameter(lp2, mpost)
    ms, _ = s.models(B, N)
    g = B.beer.GSMSet(ms[0], t, t2, means, lp)
    g.sufficient_statistics(ms)
    st = B.tensor('stats', (N, s.sdim))

    def run():
        return g.expected_log_likelihood(st, post, S, R)
    B.gradient('objective', run, *xs, *ys, *ps, *ps2)

    def div():
        run()
        return means.kl_div_posterior_prior()
    B.gradient('divergence of the means', div, *ys)
    resps = B.tensor('resps', (N, C), nonneg=True)
    lp.calls.clear()
    lp2.calls.clear()
    g.accumulate(st, resps)
    B.severed('statistics', lp.calls[0])
    B.severed('statistics of the means', lp2.calls[0])


@contract('P21', how=['objective', 'vectors', 'new'])
def subspace_vectors(B, how):
    '''the vectors that a subspace model leaves in the parameters of its models are values, not part
    of its graph'''
    s = Simple(B)
    Q, S, R, N = B.size('Q'), B.size('S'), B.size('R'), 2
    t, ps = trained(B, Q, s.rdim)
    lp, _ = prior(B, Q)
    ms, _ = s.models(B, N)
    g = B.beer.GSM(ms[0], t, lp)
    post, xs = diagonal(B, (N,), Q)
    if how == 'objective':
        g.sufficient_statistics(ms)
        g.expected_log_likelihood(B.tensor('stats', (N, s.sdim)), post, S, R)
    elif how == 'vectors':
        g.update_models(ms, g.expected_pdfvecs(post, S, R))
    else:
        ms, _ = g.new_models(N, latent_nsamples=S, params_nsamples=R)
    for m in ms:
        for p in (m.groups[0][0], m.groups[1][0]):
            B.severed('vectors', p.natural_form())


# --------------------------------------------------------------- bound and optimisation

class Part:
    'a minibatch: expected log-likelihood, divergence and statistics are leaves'

    def __init__(self, B, tag, prm):
        N, K = B.size('N' + tag), B.size('K')
        self.N, self.prm, self.cleared = N, prm, 0
        self.llh = B.leaf(B.tensor('llh' + tag, (N,)))
        self.kl = B.leaf(B.tensor('kl' + tag, (K,), nonneg=True))
        self.acc = B.leaf(B.tensor('acc' + tag, tuple(prm.stats.shape)))
        self.data = B.tensor('data' + tag, (N, 2))

    def sufficient_statistics(self, data):
        return data

    def expected_log_likelihood(self, stats):
        return self.llh

    def kl_div_posterior_prior(self):
        return self.kl

    def accumulate(self, stats):
        return {self.prm: self.acc}

    def clear_cache(self):
        pass

    def bayesian_parameters(self):
        return iter([self.prm])


@contract('P21', n=[1, 2, 3], start=[False, True])
def bound(B, n, start):
    '''backward: minus the gradient of the (summed) bound, unless not asked for; the statistics
    stored in the parameters carry no gradient'''
    P, F = gamma(B, (), '_prior', D=2), gamma(B, (), '', D=2)
    prm = B.beer.ConjugateBayesianParameter(build(P), build(F))
    T = B.integer('T', lo=1)
    ms = [Part(B, str(k), prm) for k in range(n)]

    def total():
        e = B.beer.evidence_lower_bound(datasize=T) if start else None
        for m in ms:
            f = B.beer.evidence_lower_bound(m, m.data, datasize=T)
            e = f if e is None else e + f
        return e
    for k, m in enumerate(ms):
        g = B.backward_grad(lambda: total().backward(), m.llh)
        i = B.index('i', m.N)
        B.eq_num(f'data{k}', g(i), -T / m.N)
        i = B.index('j', B.size('K'))
        g = B.backward_grad(lambda: total().backward(), m.kl)
        B.eq_num(f'divergence{k}', g(i), 1)
        g = B.backward_grad(lambda: total().backward(std_params=False), m.kl)
        B.eq_num(f'not asked for{k}', g(i), 0)
        g = B.backward_grad(lambda: total().backward(), m.acc)
        B.eq_num(f'statistics{k}', g(0), 0)
    accs = [B.frozen(m.acc) for m in ms]
    prm.zero_stats()
    total().backward(std_params=False)
    B.severed('stored', prm.stats)
    tot = sum(m.N for m in ms)
    B.eq('stored', prm.stats, tuple(prm.stats.shape), lambda i: T * sum(
        a(i) for a in accs) / tot)


@contract('P21', kind=['normal', 'normalset', 'mixture', 'mixtureset', 'joint', 'ordered', 'repeated',
                       'nested'])
def data(B, kind):
    'log-likelihood of a model by the data'
    w = World(B)
    m = w.make(kind, w.params(kind, ''))
    B.leaf(w.x)
    B.gradient('data', lambda: m.expected_log_likelihood(m.sufficient_statistics(w.x)), w.x)


@contract('P21', kind=['joint', 'ordered', 'repeated'])
def composed(B, kind):
    'sets of sets: by the log-likelihoods of their parts'
    N = B.size('N')
    ls = [B.leaf(B.tensor(f'llh{k}', (N, B.size(f'K{k}')))) for k in range(2)]
    parts = [modelset(B, l, name=f'm{k}') for k, l in enumerate(ls)]
    mods = B.beer.models.modelset
    joint = mods.JointModelSet(parts)
    m = {'joint': lambda: joint, 'ordered': lambda: mods.DynamicallyOrderedModelSet(joint),
         'repeated': lambda: mods.RepeatedModelSet(joint, 3)}[kind]()
    x = B.tensor('x', (N, 1))
    kw = dict(order=[1, 0, 1]) if kind == 'ordered' else {}
    B.gradient('parts', lambda: m.expected_log_likelihood(x, **kw), *ls)
