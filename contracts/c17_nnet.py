"""P17: probabilistic layers and auto-encoders. P18: auto-regressive networks and flows."""
from . import contract
from .families import cat
from .stubs import Param


def layers(B):
    return B.beer.nnet.problayers


def linear(B, layer, x):
    'reader of a linear layer applied to the reader x(n, i)'
    W, b = B.at(layer.weight), B.at(layer.bias)
    I = layer.weight.shape[1]
    return lambda n, o: b(o) + B.sum(I, lambda i: x(n, i) * W(o, i))


def gauss(B, D, x, m, v):
    'log-density of x(n, i) under Normals with means m(n, i) and variances v(n, i)'
    return lambda n: -.5 * B.sum(D, lambda i: (x(n, i) - m(n, i)) ** 2 / v(n, i) + B.log(v(n, i))
                                 + B.log(2) + B.log(B.pi))


GAUSS = ['Diagonal', 'Isotropic', 'Identity']


def normal(B, kind, I, D, h):
    'layer, readers of its mean and variance for the input h'
    l = getattr(layers(B), f'Normal{kind}CovarianceLayer')(I, D)
    H = B.at(h)
    m = linear(B, l.mean, H)
    if kind == 'Identity':
        return l, m, lambda n, i: 1
    v = linear(B, l.logvar, H)
    return l, m, lambda n, i: B.softplus(v(n, i if kind == 'Diagonal' else 0))


@contract('P17', kind=GAUSS)
def normal_parameters(B, kind):
    'mean and variance are those of the layers'
    N, I, D = B.size('N'), B.size('I'), B.size('D')
    h = B.tensor('h', (N, I))
    H = B.at(h)
    l, m, v = normal(B, kind, I, D, h)
    p = l(h)
    mean, var = (p, None) if kind == 'Identity' else p
    B.eq('mean', mean, (N, D), m)
    if var is not None:
        B.eq('variance', var, (N, D), v)
    B.eq('frame', h, (N, I), H)


def given(B, kind, N, D):
    'a layer and arbitrary parameters of its distribution'
    l = getattr(layers(B), f'Normal{kind}CovarianceLayer')(B.size('I'), D)
    m = B.tensor('m', (N, D))
    v = B.tensor('v', (N, D), pos=True)
    if kind == 'Identity':
        return l, m, B.at(m), lambda n, i: 1
    return l, (m, v), B.at(m), B.at(v)


@contract('P17', kind=GAUSS)
def normal_likelihood(B, kind):
    'log-density of the data under the layer'
    N, D = B.size('N'), B.size('D')
    l, p, m, v = given(B, kind, N, D)
    x = B.tensor('x', (N, D))
    B.eq('log_likelihood', l.log_likelihood(x, p), (N,), gauss(B, D, B.at(x), m, v))


@contract('P17', kind=GAUSS, use_mean=[False, True])
def normal_samples(B, kind, use_mean):
    'samples of the distribution (or its mean), with their log-density'
    N, D = B.size('N'), B.size('D')
    l, p, m, v = given(B, kind, N, D)
    s, llh = l.samples_and_llh(p, use_mean=use_mean)
    z = (lambda n, i: 0) if use_mean else B.at(B.noise(0))
    f = lambda n, i: m(n, i) + B.sqrt(v(n, i)) * z(n, i)
    B.eq('samples', s, (N, D), f)
    B.eq('log_likelihood', llh, (N,), gauss(B, D, f, m, v))


@contract('P17')
def bernoulli(B):
    'sigmoid means; log-probability of the data (up to the 1e-6 offsets)'
    N, I, D = B.size('N'), B.size('I'), B.size('D')
    h = B.tensor('h', (N, I))
    l = layers(B).BernoulliLayer(I, D)
    f = linear(B, l.mean, B.at(h))
    B.eq('mean', l(h), (N, D), lambda n, i: B.sigmoid(f(n, i)))
    m = B.tensor('m', (N, D), nonneg=True, lt=1)
    x = B.tensor('x', (N, D))
    M, X = B.at(m), B.at(x)
    B.eq('log_likelihood', l.log_likelihood(x, m), (N,), lambda n: B.sum(
        D, lambda i: X(n, i) * B.log(1e-6 + M(n, i)) + (1 - X(n, i)) * B.log(1e-6 + 1 - M(n, i))))


# -------------------------------------------------------------- auto-encoders

def prior(B, Z, shape='vector'):
    'a latent prior: any model linear in its statistics (z, z^2); (N,) or (N, 1) outputs'
    v = B.tensor('prior', (2 * Z,))
    V = B.at(v)

    class Prior(B.beer.Model):
        def __init__(self):
            super().__init__()
            self.calls = []
            self.p = Param('prior')

        def mean_field_factorization(self):
            return [[self.p]]

        def sufficient_statistics(self, x):
            return B.torch.cat([x, x ** 2], dim=-1)

        def expected_log_likelihood(self, stats, **kw):
            return stats @ (v if shape == 'vector' else v[:, None])

        def accumulate(self, stats):
            self.calls.append(stats)
            return {self.p: stats.sum(dim=0)}
    return Prior(), lambda x: B.sum(Z, lambda i: V(i) * x(i) + V(Z + i) * x(i) ** 2)


def net(B, i, o):
    'an arbitrary network: affine, tanh'
    class Net(B.torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.l = B.torch.nn.Linear(i, o)
            self.dim_in, self.dim_out = i, o

        def forward(self, x):
            return self.l(x).tanh()
    n = Net()

    def f(x):
        g = linear(B, n.l, x)
        return lambda *a: B.tanh(g(*a))
    return n, f


class Auto:
    def __init__(self, B, shape='vector'):
        self.X, self.H, self.Z, self.G = (B.size(k) for k in ('X', 'H', 'Z', 'G'))
        self.enc, self.fe = net(B, self.X, self.H)
        self.dec, self.fd = net(B, self.Z, self.G)
        self.prior, self.p = prior(B, self.Z, shape)
        self.vae = B.beer.VAE(self.prior, self.enc, self.dec)

    def posterior(self, B, x):
        h = self.fe(x)
        m, v = linear(B, self.vae.enc_mean_layer, h), linear(B, self.vae.enc_var_layer, h)
        return m, lambda n, i: 1e-5 + B.exp(v(n, i))

    def pdf(self, B, z):
        h = self.fd(z)
        m, v = linear(B, self.vae.dec_mean_layer, h), linear(B, self.vae.dec_var_layer, h)
        return m, lambda n, i: 1e-5 + B.exp(v(n, i))


@contract('P17')
def encoded(B):
    'posteriors of the latent variables and densities of the data: Normals given by the networks'
    a = Auto(B)
    N = B.size('N')
    x, z = B.tensor('x', (N, a.X)), B.tensor('z', (N, a.Z))
    m, v = a.posterior(B, B.at(x))
    d = a.vae.posteriors(x)
    B.eq('posterior.mean', d.params.mean, (N, a.Z), m)
    B.eq('posterior.variance', d.params.diag_cov, (N, a.Z), v)
    m, v = a.pdf(B, B.at(z))
    d = a.vae.pdfs(z)
    B.eq('pdf.mean', d.params.mean, (N, a.X), m)
    B.eq('pdf.variance', d.params.diag_cov, (N, a.X), v)


class Fixed(Auto):
    'a model whose encoder and decoder give arbitrary densities'

    def __init__(self, B, N, S, shape):
        super().__init__(B, shape)
        d = B.beer.dists.NormalDiagonalCovariance.from_std_parameters
        self.m, self.v = B.tensor('pm', (N, self.Z)), B.tensor('pv', (N, self.Z), pos=True)
        self.z = B.tensor('z', (N, S, self.Z))
        self.dm = B.tensor('dm', (N * S, self.X))
        self.dv = B.tensor('dv', (N * S, self.X), pos=True)
        post = d(self.m, self.v)
        post.sample = lambda n: self.z
        self.vae.posteriors = lambda x: self.seen.append(x) or post
        self.vae.pdfs = lambda z: self.seen.append(z) or d(self.dm, self.dv)
        self.seen = []


@contract('P17', shape=['vector', 'column'], weights=['default', 'given'])
def objective(B, shape, weights):
    '''per frame: log-density of the data minus the divergence of the posterior from the prior,
    averaged over the same samples; the prior receives the statistics of the samples'''
    N, S = B.size('N'), B.size('S')
    a = Fixed(B, N, S, shape)
    x = B.tensor('x', (N, a.X))
    X = B.at(x)
    kw, wl, wk = {}, 1, 1
    if weights == 'given':
        wl, wk = B.scalar('wl', pos=True), B.scalar('wk', pos=True)
        kw = dict(llh_weight=wl, kl_weight=wk)
    r = a.vae.expected_log_likelihood(x, nsamples=S, **kw)
    z, m, v, dm, dv = (B.at(t) for t in (a.z, a.m, a.v, a.dm, a.dv))
    B.holds('encoded', a.seen[0] is x)
    B.eq('decoded', a.seen[1], (N * S, a.Z), lambda k, i: z(B.idiv(k, S), B.imod(k, S), i))
    ll = lambda n, s: gauss(B, a.X, lambda k, i: X(n, i), dm, dv)(n * S + s)
    lq = lambda n, s: gauss(B, a.Z, lambda k, i: z(n, s, i), m, v)(n)
    B.eq('value', r, (N,), lambda n: B.sum(S, lambda s: wl * ll(n, s) - wk * (
        lq(n, s) - a.p(lambda i: z(n, s, i)))) / S)
    acc = a.vae.accumulate(x)
    B.holds('prior', set(acc) == {a.prior.p})
    B.eq('statistics', a.prior.calls[0], (N, 2 * a.Z), lambda n, i: B.sum(S, lambda s: B.ite(
        i < a.Z, lambda: z(n, s, i), lambda: z(n, s, i - a.Z) ** 2)) / S)
    B.holds('parameters', a.vae.mean_field_factorization() == [[a.prior.p]])


@contract('P17', N=[2])
def normal_prior(B, N):
    'the same with a Normal model as prior'
    Z, S = B.size('Z'), B.size('S')
    mean, cov = B.tensor('mean', (Z,)), B.tensor('cov', (Z,), pos=True)
    pr = B.beer.Normal.create(mean, cov, cov_type='diagonal')
    e, d = net(B, 1, 1)[0], net(B, Z, 1)[0]
    v = B.beer.VAE(pr, e, d)
    x = B.tensor('x', (N, 1))
    B.eq_num('one value per frame', v.expected_log_likelihood(x, nsamples=S).numel(), N)


# ------------------------------------------- auto-regressive networks and flows

def arnet(B):
    return B.beer.nnet.arnet


@contract('P18')
def masks(B):
    'masks: hidden units see the inputs up to their label, outputs the units strictly before them'
    I, O = B.size('I'), B.size('O')
    o = B.tensor('order', (I,), isint=True, lo=0, hi=I)
    m = B.tensor('conn', (O,), isint=True, lo=0, hi=I)
    Or, M = B.at(o), B.at(m)
    B.eq('hidden', arnet(B).create_mask(B.intlist(o), B.intlist(m)), (O, I),
         lambda i, j: B.ite(M(i) < Or(j), 0, 1))
    B.eq('final', arnet(B).create_final_mask(B.intlist(o), B.intlist(m)), (I, O),
         lambda i, j: B.ite(M(j) < Or(i), 1, 0))


@contract('P18')
def masked(B):
    'masked linear layer'
    N, I, O = B.size('N'), B.size('I'), B.size('O')
    lin = B.torch.nn.Linear(I, O)
    k = B.tensor('mask', (O, I))
    K, W, b = B.at(k), B.at(lin.weight), B.at(lin.bias)
    x = B.tensor('x', (N, I))
    X = B.at(x)
    B.eq('output', arnet(B).MaskedLinear(k, lin)(x), (N, O), lambda n, o: b(o) + B.sum(
        I, lambda i: X(n, i) * W(o, i) * K(o, i)))
    B.eq('frame', x, (N, I), X)


@contract('P18')
def output(B):
    'output layer: variance in [0.01, 1.01], mean scaled by 1 - variance'
    N, I, O = B.size('N'), B.size('I'), B.size('O')
    k = B.tensor('mask', (O, I))
    l = arnet(B).ARNetNormalDiagonalCovarianceLayer(k, I, O)
    x = B.tensor('x', (N, I))
    X, K = B.at(x), B.at(k)

    def lin(l):
        W, b = B.at(l._linear_transform.weight), B.at(l._linear_transform.bias)
        return lambda n, o: b(o) + B.sum(I, lambda i: X(n, i) * W(o, i) * K(o, i))
    mean, var = l(x)
    m, v = lin(l.h2mean), lin(l.h2logvar)
    B.eq('variance', var, (N, O), lambda n, o: 1e-2 + B.sigmoid(v(n, o)))
    B.eq('mean', mean, (N, O), lambda n, o: (1 - 1e-2 - B.sigmoid(v(n, o))) * m(n, o))


@contract('P18', depth=[1, 2, 3], context=[False, True], timeout=240)
def autoregressive(B, depth, context):
    'outputs of dimension d do not depend on the inputs d, d + 1, ...'
    N, D, W = B.size('N'), B.size('D'), B.size('W')
    C = B.size('C') if context else 0
    nt = arnet(B).AutoRegressiveNetwork(D, C, depth, W, B.torch.nn.Tanh())
    x, y = B.tensor('x', (N, D)), B.tensor('y', (N, D))
    ctx = (B.tensor('ctx', (N, C)),) if context else ()
    d = B.index('d', D)
    first = (B.torch.arange(D) < d).to(x.dtype)
    x2 = x * first + y * (1 - first)
    m1, v1 = nt(x, *ctx)
    m2, v2 = nt(x2, *ctx)
    M, V = B.at(m2), B.at(v2)
    B.eq('mean', m1[:, d], (N,), lambda n: M(n, d))
    B.eq('variance', v1[:, d], (N,), lambda n: V(n, d))


class Step:
    'one step of a flow: arbitrary means and variances; records its arguments'

    def __init__(self, B, k, N, D):
        self.m = B.tensor(f'm{k}', (N, D))
        self.v = B.tensor(f'v{k}', (N, D), pos=True)
        self.seen = []

    def __call__(self, z, c):
        self.seen.append((z, c))
        return self.m, self.v


@contract('P18', steps=[0, 1, 2, 3], use_mean=[False, True])
def flow(B, steps, use_mean):
    '''z <- m(z) + sqrt(v(z)) z at each step; the density is that of the initial Normal times
    the inverse of the determinants of the (triangular) Jacobians'''
    N, D, C = B.size('N'), B.size('D'), B.size('C')
    st = [Step(B, k, N, D) for k in range(steps)]
    # any Normal layer, any list of steps
    l = layers(B).InverseAutoRegressiveFlow(B.size('I'), C, B.torch.nn.Tanh(), st)
    m, v = B.tensor('m', (N, D)), B.tensor('v', (N, D), pos=True)
    ctx = B.tensor('ctx', (N, C))
    M, V = B.at(m), B.at(v)
    s, llh = l.samples_and_llh(((m, v), ctx), use_mean=use_mean)
    e = (lambda n, i: 0) if use_mean else B.at(B.noise(0))
    z = lambda n, i: M(n, i) + B.sqrt(V(n, i)) * e(n, i)
    ll = gauss(B, D, z, M, V)
    for k, t in enumerate(st):
        (seen, c), = t.seen
        B.eq(f'input of step {k}', seen, (N, D), z)
        B.holds(f'parameters of step {k}', c is ctx)
        tm, tv = B.at(t.m), B.at(t.v)
        z = (lambda z, tm, tv: lambda n, i: tm(n, i) + B.sqrt(tv(n, i)) * z(n, i))(z, tm, tv)
        ll = (lambda ll, tv: lambda n: ll(n) - .5 * B.sum(D, lambda i: B.log(tv(n, i))))(ll, tv)
    B.eq('samples', s, (N, D), z)
    B.eq('log-density', llh, (N,), ll)
    B.eq('mean untouched', m, (N, D), M)
    B.eq('variance untouched', v, (N, D), V)


@contract('P18')
def flow_parameters(B):
    'parameters of the initial Normal and of the flow, from the inputs'
    N, I, D, C = B.size('N'), B.size('I'), B.size('D'), B.size('C')
    h = B.tensor('h', (N, I))
    base, m, v = normal(B, 'Diagonal', I, D, h)
    l = layers(B).InverseAutoRegressiveFlow(I, C, base, [])
    (pm, pv), c = l(h)
    B.eq('mean', pm, (N, D), m)
    B.eq('variance', pv, (N, D), v)
    B.eq('flow parameters', c, (N, C), linear(B, l.flow_params, B.at(h)))


@contract('P18')
def flow_network(B):
    '''a flow step made of an auto-regressive network: dimension d of the sample only moves
    with the dimensions up to d of its input, by sqrt(v_d) along d'''
    N, D, W, C = B.size('N'), B.size('D'), B.size('W'), B.size('C')
    nt = arnet(B).AutoRegressiveNetwork(D, C, 1, W, B.torch.nn.Tanh())
    l = layers(B).InverseAutoRegressiveFlow(C, C, B.torch.nn.Tanh(), [nt])
    v, ctx = B.tensor('v', (N, D), pos=True), B.tensor('ctx', (N, C))
    x, y = B.tensor('x', (N, D)), B.tensor('y', (N, D))
    d = B.index('d', D)
    first = (B.torch.arange(D) < d).to(x.dtype)
    x2 = x * first + y * (1 - first)
    s1, _ = l.samples_and_llh(((x, v), ctx), use_mean=True)
    s2, _ = l.samples_and_llh(((x2, v), ctx), use_mean=True)
    _, sv = nt(x, ctx)
    X, Y, S2, SV = B.at(x), B.at(y), B.at(s2), B.at(sv)
    B.eq('moves', s1[:, d], (N,), lambda n: S2(n, d) + B.sqrt(SV(n, d)) * (X(n, d) - Y(n, d)))


@contract('P18', n=[1, 2, 3], first=['linear', 'identity'])
def merged(B, n, first):
    'sum of the transforms of the inputs, which are not modified'
    N, O = B.size('N'), B.size('O')
    dims = [O if first == 'identity' and k == 0 else B.size(f'I{k}') for k in range(n)]
    ls = [B.torch.nn.Linear(d, O) for d in dims]
    xs = [B.tensor(f'x{k}', (N, d)) for k, d in enumerate(dims)]
    Xs = [B.at(x) for x in xs]
    fs = [linear(B, l, t) for l, t in zip(ls, Xs)]
    if first == 'identity':
        ls[0] = B.beer.nnet.neuralnetwork.IdentityLayer()
        fs[0] = Xs[0]

    def tot(a, o):
        r = 0
        for f in fs:
            r = r + f(a, o)
        return r
    B.eq('sum', B.beer.nnet.neuralnetwork.MergeTransform(*ls)(*xs), (N, O), tot)
    for k, (x, t) in enumerate(zip(xs, Xs)):
        B.eq(f'input {k}', x, (N, dims[k]), t)


@contract('P18', residual=[None, 'identity', 'linear'])
def block(B, residual):
    'structure, plus the residual connection when there is one'
    N, I = B.size('N'), B.size('I')
    O = I if residual == 'identity' else B.size('O')
    mod = B.beer.nnet.neuralnetwork
    lin, res = B.torch.nn.Linear(I, O), B.torch.nn.Linear(I, O)
    conn = {None: None, 'identity': mod.IdentityLayer(), 'linear': res}[residual]
    b = mod.NeuralNetworkBlock(B.torch.nn.Sequential(lin, B.torch.nn.Tanh()), conn)
    x = B.tensor('x', (N, I))
    X = B.at(x)
    f, g = linear(B, lin, X), linear(B, res, X)
    extra = {None: lambda n, o: 0, 'identity': X, 'linear': g}[residual]
    B.eq('output', b(x), (N, O), lambda n, o: B.tanh(f(n, o)) + extra(n, o))
    B.eq('input', x, (N, I), X)


@contract('P18', nblocks=[1, 2])
def residual(B, nblocks):
    'two feed-forward layers and a skip connection per block'
    N, I, W = B.size('N'), B.size('I'), B.size('W')
    r = B.beer.nnet.residual.ResidualFeedForwardNet(I, nblocks, W)
    x = B.tensor('x', (N, I))
    f = X = B.at(x)
    for b in r.blocks:
        def step(f, b):
            h = linear(B, b.layer1, f)
            o = linear(B, b.layer2, lambda n, i: B.tanh(h(n, i)))
            return lambda n, i: B.tanh(o(n, i)) + f(n, i)
        f = step(f, b)
    B.eq('output', r(x), (N, I), f)
    B.eq('input', x, (N, I), X)
    B.holds('dimensions', r.dim_in == I and r.dim_out == I)
    B.holds('blocks', len(r.blocks) == nblocks)


@contract('P18')
def configured(B):
    'networks built from their textual configuration'
    mod = B.beer.nnet.neuralnetwork
    B.holds('element', mod.parse_nnet_element('Linear:in_features=10;out_features = 20') == (
        'Linear', {'in_features': '10', 'out_features': '20'}))
    B.holds('no argument', mod.parse_nnet_element(' Tanh ') == ('Tanh', {}))
    B.holds('values', [mod.load_value(v) for v in ('3', '.5', 'True', '(1, -1)', 7)] == [
        3, .5, True, (1, -1), 7])
    nt = mod.create({'nnet_structure': [
        {'block_structure': ['Linear:in_features=3;out_features=4', 'Tanh'], 'residual':
         'Linear:in_features=3;out_features=4'},
        {'block_structure': ['IdentityLayer', 'Linear:in_features=4;out_features=2']}]})
    N = B.size('N')
    x = B.tensor('x', (N, 3))
    X = B.at(x)
    b1, b2 = nt
    f, g = linear(B, b1.structure[0], X), linear(B, b1.residual_connection, X)
    h = lambda n, o: B.tanh(f(n, o)) + g(n, o)
    B.eq('output', nt(x), (N, 2), linear(B, b2.structure[1], h))
    B.holds('residual', b2.residual_connection is None)
    m = mod.create_nnet_element('Linear:in_features=3;out_features=2 | Linear:in_features=4;out_features=2')
    y = B.tensor('y', (N, 4))
    p, q = linear(B, m.transforms[0], X), linear(B, m.transforms[1], B.at(y))
    B.eq('merge', m(x, y), (N, 2), lambda n, o: p(n, o) + q(n, o))
    r = mod.create_nnet_element('ReshapeLayer:shape=(-1, 6)')(B.tensor('z', (4, 3)))
    B.holds('reshape', tuple(r.shape) == (2, 6))
    t = mod.TransposeLayer()(x)
    B.eq('transpose', t, (3, N), lambda i, n: X(n, i))
    try:
        mod.create_nnet_element('NoSuchElement')
        B.holds('unknown', False)
    except ValueError:
        B.holds('unknown', True)
