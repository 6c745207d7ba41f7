"""P04: conjugate likelihoods and the expected log-likelihood of the basic
models."""
from . import contract
from .families import FAMILIES, cat, width, build

LH = ['categorical', 'gamma', 'isotropic', 'diagonal', 'full', 'fixeddiag']
EPS = 1e-6


class L:
    pass


def log2pi(B):
    return B.log(2) + B.log(B.pi)


def tril(B, D, i, j):
    'rank of (i, j), j < i, among the entries below the diagonal, row by row'
    return B.idiv(i * (i - 1), 2) + j


def lik(B, kind, tag=''):
    '''likelihood, size of the real vectors, statistics and log-density of the
    observations x(n, .) under the parameters encoded by the real vectors r(m, .)'''
    d = B.beer.dists
    s = L()
    D = s.D = B.size('D', 2 if kind in ('categorical', 'full') else 1)
    s.kind = kind
    s.flags = {}
    if kind == 'categorical':
        s.lh = d.CategoricalLikelihood(D)
        s.rdim = D - 1
        s.stats = lambda x: [(D - 1, x), (1, lambda n, i: B.sum(D, lambda j: x(n, j)))]
        s.flags = {'nonneg': True}

        def logpdf(x, r, n, m):
            lse = B.log(1 + B.sum(D - 1, lambda j: B.exp(r(m, j))))
            return B.sum(D - 1, lambda i: x(n, i) * (r(m, i) - lse)) - x(n, D - 1) * lse
        s.params = lambda r: [((D,), lambda m, i: B.ite(
            i < D - 1, lambda: B.exp(r(m, i)), 1) / (1 + B.sum(D - 1, lambda j: B.exp(r(m, j)))))]
    elif kind == 'gamma':
        s.lh = d.GammaLikelihood(D)
        s.rdim = 2 * D
        s.flags = {'pos': True}
        s.stats = lambda x: [(D, x), (D, lambda n, i: B.log(x(n, i))), (1, lambda n, i: 1)]

        def logpdf(x, r, n, m):
            a = lambda i: B.exp(EPS + r(m, i))
            lb = lambda i: EPS + r(m, D + i)
            return B.sum(D, lambda i: a(i) * lb(i) - B.lgamma(a(i)) + (a(i) - 1) * B.log(x(n, i))
                         - B.exp(lb(i)) * x(n, i))
        s.params = lambda r: [((D,), lambda m, i: B.exp(EPS + r(m, i))),
                              ((D,), lambda m, i: B.exp(EPS + r(m, D + i)))]
    elif kind == 'isotropic':
        s.lh = d.IsotropicNormalLikelihood(D)
        s.rdim = D + 1
        s.stats = lambda x: [(D, x), (1, lambda n, i: -.5 * B.sum(D, lambda j: x(n, j) ** 2)),
                             (1, lambda n, i: -.5), (1, lambda n, i: .5 * D)]

        def logpdf(x, r, n, m):
            return .5 * D * (r(m, D) - log2pi(B)) - .5 * B.sum(
                D, lambda i: B.exp(r(m, D)) * (x(n, i) - r(m, i)) ** 2)
        s.params = lambda r: [((D,), lambda m, i: r(m, i)), ((1,), lambda m, i: B.exp(r(m, D)))]
    elif kind == 'diagonal':
        s.lh = d.NormalDiagonalLikelihood(D)
        s.rdim = 2 * D
        s.stats = lambda x: [(D, x), (D, lambda n, i: -.5 * x(n, i) ** 2),
                             (1, lambda n, i: -.5), (1, lambda n, i: .5)]

        def logpdf(x, r, n, m):
            return .5 * B.sum(D, lambda i: r(m, D + i)) - .5 * D * log2pi(B) - .5 * B.sum(
                D, lambda i: B.exp(r(m, D + i)) * (x(n, i) - r(m, i)) ** 2)
        s.params = lambda r: [((D,), lambda m, i: r(m, i)),
                              ((D,), lambda m, i: B.exp(r(m, D + i)))]
    elif kind == 'full':
        s.lh = d.NormalLikelihood(D)
        s.rdim = 2 * D + B.idiv(D * (D - 1), 2)
        s.stats = lambda x: [(D, x),
                             (D * D, lambda n, k: -.5 * x(n, B.idiv(k, D)) * x(n, B.imod(k, D))),
                             (1, lambda n, i: -.5), (1, lambda n, i: .5)]

        def chol(r, m, i, j):
            return B.ite(j < i, lambda: r(m, 2 * D + tril(B, D, i, j)),
                         lambda: B.ite(i < j, 0, lambda: B.exp(.5 * r(m, D + i))))

        def prec(r, m, i, j):
            return B.sum(D, lambda k: chol(r, m, i, k) * chol(r, m, j, k))

        def logpdf(x, r, n, m):
            return .5 * B.sum(D, lambda i: r(m, D + i)) - .5 * D * log2pi(B) - .5 * B.sum(
                D, lambda i: B.sum(D, lambda j: (x(n, i) - r(m, i)) * prec(r, m, i, j)
                                   * (x(n, j) - r(m, j))))
        s.params = lambda r: [((D,), lambda m, i: r(m, i)),
                              ((D, D), lambda m, i, j: prec(r, m, i, j))]
    else:
        s.lh = d.NormalFixedDiagonalCovarianceLikelihood(D)
        s.rdim = D
        s.stats = lambda x: [(D, x), (D, lambda n, i: -.5)]

        # density w.r.t. the base measure exp(-x^2/2)
        def logpdf(x, r, n, m):
            return B.sum(D, lambda i: x(n, i) * r(m, i) - .5 * r(m, i) ** 2) - .5 * D * log2pi(B)
        s.params = lambda r: [((D,), lambda m, i: r(m, i))]
    s.logpdf = logpdf
    if kind == 'full':
        s.chol, s.prec = chol, prec
    return s


# full covariance: the pdf vector is [P m, P, m' P m, log|P|] with P = L L'
# (full_pdfvector, with m' P m as |L' m|^2); the density and the parameters
# follow for an arbitrary symmetric P (full_density, full_parameters)

@contract('P04')
def full_pdfvector(B):
    s = lik(B, 'full')
    M, D = B.size('M'), s.D
    r = B.tensor('r', (M, s.rdim))
    R = B.at(r)
    pdf = s.lh.pdfvectors_from_rvectors(r)
    L = lambda m, i, j: s.chol(R, m, i, j)
    B.eq('pdfvector.precision', pdf[:, D:D + D * D].reshape(-1, D, D), (M, D, D),
         lambda m, i, j: s.prec(R, m, i, j))
    B.eq('pdfvector.precision_mean', pdf[:, :D], (M, D),
         lambda m, i: B.sum(D, lambda j: s.prec(R, m, i, j) * R(m, j)))
    B.eq('pdfvector.quadratic', pdf[:, D + D * D], (M,), lambda m: B.sum(
        D, lambda k: B.sum(D, lambda i: L(m, i, k) * R(m, i)) ** 2))
    B.eq('pdfvector.logdet', pdf[:, -1], (M,), lambda m: B.sum(D, lambda i: R(m, D + i)))
    B.eq_num('pdfvector.width', pdf.shape[-1], D + D * D + 2)
    B.eq('frame.rvectors', r, (M, s.rdim), R)


@contract('P04')
def full_quadratic(B):
    "|L' m|^2 = m' (L L') m, and L L' is symmetric, for every L"
    D = B.size('D', 2)
    L, m = B.at(B.tensor('L', (D, D))), B.at(B.tensor('m', (D,)))
    P = lambda i, j: B.sum(D, lambda k: L(i, k) * L(j, k))
    B.eq_num('lemma.quadratic', B.sum(D, lambda k: B.sum(D, lambda i: L(i, k) * m(i)) ** 2),
             B.sum(D, lambda i: B.sum(D, lambda j: m(i) * P(i, j) * m(j))))
    i, j = B.index('i', D), B.index('j', D)
    B.eq_num('lemma.symmetric', P(i, j), P(j, i))


def full_pdf(B, D, M):
    m = B.tensor('mean', (M, D))
    P = B.tensor('prec', (M, D, D), sym=(1, 2), pos='spd')
    ld = B.tensor('logdet', (M,))
    mt, Pt, lt = B.at(m), B.at(P), B.at(ld)
    pdf = B.torch.cat([(P @ m[:, :, None]).reshape(M, D), P.reshape(M, D * D),
                       (m[:, None, :] @ P @ m[:, :, None]).reshape(M, 1), ld[:, None]], dim=-1)
    return pdf, mt, Pt, lt


@contract('P04', batched=[False, True])
def full_density(B, batched):
    D, N, M = B.size('D', 2), B.size('N'), B.size('M')
    x = B.tensor('x', (N, D))
    X = B.at(x)
    lh = B.beer.dists.NormalLikelihood(D)
    pdf, m, P, ld = full_pdf(B, D, M)

    def spec(n, c):
        return .5 * (ld(c) - D * log2pi(B) - B.sum(D, lambda i: B.sum(
            D, lambda j: (X(n, i) - m(c, i)) * P(c, i, j) * (X(n, j) - m(c, j)))))
    st = lh.sufficient_statistics(x)
    if batched:
        B.eq('log_density', lh(pdf, st), (N, M), spec)
    else:
        c = B.index('c', M)
        B.eq('log_density', lh(pdf[c], st).reshape(-1), (N,), lambda n: spec(n, c))


@contract('P04', batched=[False, True])
def full_parameters(B, batched):
    D, M = B.size('D', 2), B.size('M')
    lh = B.beer.dists.NormalLikelihood(D)
    pdf, m, P, ld = full_pdf(B, D, M)
    if batched:
        mean, prec = lh.parameters_from_pdfvector(pdf)
        B.eq('mean', mean, (M, D), m)
        B.eq('precision', prec, (M, D, D), P)
    else:
        c = B.index('c', M)
        mean, prec = lh.parameters_from_pdfvector(pdf[c])
        B.eq('mean', mean, (D,), lambda i: m(c, i))
        B.eq('precision', prec, (D, D), lambda i, j: P(c, i, j))


@contract('P04', kind=LH)
def statistics(B, kind):
    s = lik(B, kind)
    N = B.size('N')
    x = B.tensor('x', (N, s.D), **s.flags)
    X = B.at(x)
    B.eq('sufficient_statistics', s.lh.sufficient_statistics(x), (N, width(*s.stats(X))),
         cat(B, *s.stats(X)))
    B.eq('frame.data', x, (N, s.D), X)
    B.eq_num('rvector_dim', s.lh.sufficient_statistics_dim(zero_stats=False), s.rdim)


NOTFULL = [k for k in LH if k != 'full']


@contract('P04', kind=NOTFULL)
def log_density(B, kind):
    'stats @ pdfvec(r) + base measure is the exact log-density of the data'
    s = lik(B, kind)
    N, M = B.size('N'), B.size('M')
    x = B.tensor('x', (N, s.D), **s.flags)
    r = B.tensor('r', (M, s.rdim))
    X, Rr = B.at(x), B.at(r)
    out = s.lh(s.lh.pdfvectors_from_rvectors(r), s.lh.sufficient_statistics(x))
    B.eq('log_density', out, (N, M), lambda n, m: s.logpdf(X, Rr, n, m))
    B.eq('frame.rvectors', r, (M, s.rdim), Rr)


@contract('P04', kind=NOTFULL)
def log_density_single(B, kind):
    'one pdf vector (no batch dimension)'
    s = lik(B, kind)
    N, M = B.size('N'), B.size('M')
    x = B.tensor('x', (N, s.D), **s.flags)
    r = B.tensor('r', (M, s.rdim))
    X, Rr = B.at(x), B.at(r)
    m = B.index('m', M)
    out = s.lh(s.lh.pdfvectors_from_rvectors(r)[m], s.lh.sufficient_statistics(x))
    B.eq('log_density', out.reshape(-1), (N,), lambda n: s.logpdf(X, Rr, n, m))


@contract('P04', kind=NOTFULL, batched=[False, True])
def parameters(B, kind, batched):
    'parameters_from_pdfvector inverts pdfvectors_from_rvectors'
    s = lik(B, kind)
    M = B.size('M')
    r = B.tensor('r', (M, s.rdim))
    Rr = B.at(r)
    pdf = s.lh.pdfvectors_from_rvectors(r)
    m = B.index('m', M)
    out = s.lh.parameters_from_pdfvector(pdf if batched else pdf[m])
    if not isinstance(out, tuple):
        out = (out,)
    for k, (o, (sh, f)) in enumerate(zip(out, s.params(Rr))):
        if batched:
            B.eq(f'parameter{k}', o, (M, *sh), f)
        else:
            B.eq(f'parameter{k}', o, sh, lambda *i: f(m, *i))


# ----------------------------------------------------------------------
# expected log-likelihood under the posterior

def expected(B, family, F, lead, x):
    'E_q[log p(x_n | theta)] from the standard parameters of q'
    p = {k: v[2] for k, v in F.par.items()}
    if family == 'dirichlet':
        K = F.dim
        tot = B.digamma(B.sum(K, lambda j: p['concentrations'](*lead, j)))
        return lambda n: B.sum(K, lambda i: x(n, i) * (B.digamma(p['concentrations'](*lead, i)) - tot))
    m = lambda i: p['mean'](*lead, i)
    D = F.par['mean'][1][-1]
    k = p['scale'](*lead, 0)
    if family == 'isonormalgamma':
        a, b = p['shape'](*lead, 0), p['rate'](*lead, 0)
        return lambda n: .5 * (D * (B.digamma(a) - B.log(b)) - D * log2pi(B) - D / k
                               - B.sum(D, lambda i: a / b * (x(n, i) - m(i)) ** 2))
    if family == 'normalgamma':
        a = p['shape'](*lead, 0)
        b = lambda i: p['rates'](*lead, i)
        return lambda n: .5 * (B.sum(D, lambda i: B.digamma(a) - B.log(b(i))) - D * log2pi(B) - D / k
                               - B.sum(D, lambda i: a / b(i) * (x(n, i) - m(i)) ** 2))
    v = p['dof'](*lead, 0)
    W = lambda i, j: p['scale_matrix'](*lead, i, j)
    return lambda n: .5 * (B.sum(D, lambda i: B.digamma((v - i) / 2)) + D * B.log(2)
                           + B.logdet(D, W) - D * log2pi(B) - D / k
                           - v * B.sum(D, lambda i: B.sum(D, lambda j: (x(n, i) - m(i)) * W(i, j)
                                                          * (x(n, j) - m(j)))))


MODELS = ['dirichlet', 'isonormalgamma', 'normalgamma', 'normalwishart']


def parameter(B, family, lead, tag=''):
    P = FAMILIES[family](B, lead, '_prior' + tag)
    F = FAMILIES[family](B, lead, tag)
    return P, F, B.beer.ConjugateBayesianParameter(build(P), build(F))


def dim(F, family):
    return F.dim if family == 'dirichlet' else F.par['mean'][1][-1]


@contract('P04', family=MODELS)
def expected_llh(B, family):
    P, F, prm = parameter(B, family, ())
    D = dim(F, family)
    model = (B.beer.Categorical if family == 'dirichlet' else B.beer.Normal)(prm)
    N = B.size('N')
    x = B.tensor('x', (N, D), **({'nonneg': True} if family == 'dirichlet' else {}))
    X = B.at(x)
    if family == 'dirichlet':
        # one-hot (or count) vectors
        pass
    stats = model.sufficient_statistics(x)
    B.eq('expected_log_likelihood', model.expected_log_likelihood(stats).reshape(-1), (N,),
         expected(B, family, F, (), X))
    w = width(*F.nat)
    S = B.at(stats)
    acc = model.accumulate(stats)
    B.eq_num('accumulate.keys', B.length(acc), 1)
    B.eq('accumulate', acc[prm], (w,), lambda i: B.sum(N, lambda n: S(n, i)))


@contract('P04', family=MODELS)
def expected_llh_set(B, family):
    K = B.size('M')
    P, F, prm = parameter(B, family, (K,))
    D = dim(F, family)
    model = (B.beer.CategoricalSet if family == 'dirichlet' else B.beer.NormalSet)(prm)
    N = B.size('N')
    x = B.tensor('x', (N, D), **({'nonneg': True} if family == 'dirichlet' else {}))
    X = B.at(x)
    stats = model.sufficient_statistics(x)
    B.eq('expected_log_likelihood', model.expected_log_likelihood(stats), (N, K),
         lambda n, c: expected(B, family, F, (c,), X)(n))
    S = B.at(stats)
    r = B.tensor('resps', (N, K), nonneg=True)
    g = B.at(r)
    acc = model.accumulate(stats, r)
    B.eq('accumulate', acc[prm], (K, width(*F.nat)),
         lambda c, i: B.sum(N, lambda n: g(n, c) * S(n, i)))
    B.eq_num('len', B.length(model), K)
    c = B.index('c', K)
    one = model[c]
    B.eq('member', one.expected_log_likelihood(stats).reshape(-1), (N,),
         expected(B, family, F, (c,), X))


@contract('P04')
def expected_llh_gamma(B):
    D = B.size('D')
    P = FAMILIES['gamma'](B, (), '_prior', D)
    F = FAMILIES['gamma'](B, (), '', D)
    prm = B.beer.ConjugateBayesianParameter(build(P), build(F))
    sh = B.tensor('known_shape', (D,), pos=True)
    s = B.at(sh)
    model = B.beer.Gamma(sh, prm)
    N = B.size('N')
    x = B.tensor('x', (N, D), pos=True)
    X = B.at(x)
    a, b = F.par['shape'][2], F.par['rate'][2]
    stats = model.sufficient_statistics(x)
    B.eq('expected_log_likelihood', model.expected_log_likelihood(stats).reshape(-1), (N,),
         lambda n: B.sum(D, lambda i: s(i) * (B.digamma(a(i)) - B.log(b(i))) - B.lgamma(s(i))
                         + (s(i) - 1) * B.log(X(n, i)) - a(i) / b(i) * X(n, i)))
    acc = model.accumulate(stats)
    B.eq('accumulate', acc[prm], (2 * D,),
         cat(B, (D, lambda i: -B.sum(N, lambda n: X(n, i))), (D, lambda i: N * s(i))))


# ----------------------------------------------------------------------
# densities of the Normal distributions themselves

def normal_logpdf(B, family, F, x):
    'log N(x(n, .); mean, covariance) of member lead'
    m = F.par['mean'][2]
    D = F.par['mean'][1][-1]
    if family == 'normaldiag':
        s = F.par['diag_cov'][2]
        return lambda lead, n: -.5 * B.sum(D, lambda i: (x(n, i) - m(*lead, i)) ** 2 / s(*lead, i)
                                           + B.log(s(*lead, i))) - .5 * D * log2pi(B)
    C = F.par['cov'][2]

    def f(lead, n):
        c = lambda i, j: C(*lead, i, j)
        P = B.inv(D, c)
        d = lambda i: x(n, i) - m(*lead, i)
        return -.5 * (B.logdet(D, c) + D * log2pi(B) + B.sum(
            D, lambda i: B.sum(D, lambda j: d(i) * P(i, j) * d(j))))
    return f


@contract('P04', family=['normaldiag', 'normalfull'], kind=['single', 'set', 'pdfwise', 'pdfwise1'])
def normal_density(B, family, kind):
    'log-density of a Normal, of every member of a set, and member by member (pdfwise)'
    lead = () if kind in ('single', 'pdfwise1') else (B.size('M'),)
    F = FAMILIES[family](B, lead)
    d = build(F)
    N = lead[0] if kind == 'pdfwise' else B.size('N')
    D = F.par['mean'][1][-1]
    x = B.tensor('x', (N, D))
    X = B.at(x)
    f = normal_logpdf(B, family, F, X)
    st = d.sufficient_statistics(x)
    if kind == 'single':
        B.eq('density', d(st), (N,), lambda n: f((), n))
    elif kind == 'set':
        B.eq('density', d(st), (lead[0], N), lambda c, n: f((c,), n))
    else:
        B.eq('density', d(st, pdfwise=True), (N,), lambda n: f((n,) if lead else (), n))
    B.eq('frame.data', x, (N, D), X)
    for name, (t, sh, g) in F.par.items():
        B.eq(f'frame.{name}', t, sh, g)


@contract('P04', family=['normaldiag', 'normalfull'], batched=[False, True])
def normal_samples(B, family, batched):
    '''samples are mean + covariance^(1/2) noise: their quadratic forms are those of the noise
    and the log-density of a sample is that of its noise'''
    lead = (B.size('M'),) if batched else ()
    F = FAMILIES[family](B, lead)
    d = build(F)
    S = B.size('S')
    D = F.par['mean'][1][-1]
    r = d.sample(S)
    z = B.at(B.noise(0))
    m = F.par['mean'][2]
    if family == 'normaldiag':
        s = F.par['diag_cov'][2]
        f = lambda l, n, i: m(*l, i) + B.sqrt(s(*l, i)) * z(l[0] if l else 0, n, i)
    else:
        L = B.at(B.torch.linalg.cholesky(F.par['cov'][0]))
        f = lambda l, n, i: m(*l, i) + B.sum(D, lambda j: L(*l, i, j) * z(l[0] if l else 0, n, j))
    B.eq('samples', r, (*lead, S, D), lambda *x: f(x[:-2], x[-2], x[-1]))
    for name, (t, sh, g) in F.par.items():
        B.eq(f'frame.{name}', t, sh, g)
