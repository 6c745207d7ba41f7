"""Specification tables of the exponential families (standard parameters,
natural parameters, expected sufficient statistics, log-normaliser), written
from the textbook definitions; used by several contracts."""


def cat(B, *pieces):
    'spec of torch.cat(.., dim=-1): pieces are (length, f(*lead, i))'
    def f(*a):
        lead, i = a[:-1], a[-1]

        def go(k, off):
            n, g = pieces[k]
            if k == len(pieces) - 1:
                return g(*lead, i - off)
            return B.ite(i < off + n, lambda: g(*lead, i - off),
                         lambda: go(k + 1, off + n))
        return go(0, 0)
    return f


def width(*pieces):
    n = 0
    for k, _ in pieces:
        n = n + k
    return n


class Fam:
    '''One family instance built from arbitrary parameters.
    lead: leading shape () or (N,); params: {name: (tensor, shape, reader)}'''


def mk(B, lead, tag, decl):
    'decl: list of (name, trailing shape, flags)'
    out = {}
    for name, sh, fl in decl:
        t = B.tensor(f'{name}{tag}', tuple(lead) + tuple(sh), **fl)
        out[name] = (t, tuple(lead) + tuple(sh), B.at(t))
    return out


POS = {'pos': True}


def dirichlet(B, lead, tag='', K=None):
    F = Fam()
    K = K if K is not None else B.size('K', 2)
    F.cls = B.beer.dists.Dirichlet
    F.par = mk(B, lead, tag, [('concentrations', (K,), POS)])
    a = F.par['concentrations'][2]
    tot = lambda *n: B.sum(K, lambda j: a(*n, j))
    F.nat = [(K - 1, lambda *x: a(*x) - 1), (1, lambda *x: tot(*x[:-1]) - K)]
    F.exp = [(K - 1, lambda *x: B.digamma(a(*x)) - B.digamma(a(*x[:-1], K - 1))),
             (1, lambda *x: B.digamma(a(*x[:-1], K - 1)) - B.digamma(tot(*x[:-1])))]
    F.lognorm = lambda *n: B.sum(K, lambda j: B.lgamma(a(*n, j))) - B.lgamma(tot(*n))
    F.value = (lambda *x: a(*x) / tot(*x[:-1])), (K,)
    F.dim = K
    return F


def gamma(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    F.cls = B.beer.dists.Gamma
    F.par = mk(B, lead, tag, [('shape', (D,), POS), ('rate', (D,), POS)])
    a, b = F.par['shape'][2], F.par['rate'][2]
    F.nat = [(D, lambda *x: -b(*x)), (D, lambda *x: a(*x) - 1)]
    F.exp = [(D, lambda *x: a(*x) / b(*x)), (D, lambda *x: B.digamma(a(*x)) - B.log(b(*x)))]
    F.lognorm = lambda *n: B.sum(D, lambda i: B.lgamma(a(*n, i)) - a(*n, i) * B.log(b(*n, i)))
    F.value = (lambda *x: a(*x) / b(*x)), (D,)
    return F


def isonormalgamma(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    F.cls = B.beer.dists.IsotropicNormalGamma
    F.par = mk(B, lead, tag, [('mean', (D,), {}), ('scale', (1,), POS),
                              ('shape', (1,), POS), ('rate', (1,), POS)])
    m, k, a, b = (F.par[x][2] for x in ('mean', 'scale', 'shape', 'rate'))
    sq = lambda *n: B.sum(D, lambda i: m(*n, i) ** 2)
    lam = lambda *n: a(*n, 0) / b(*n, 0)
    F.nat = [(D, lambda *x: k(*x[:-1], 0) * m(*x)),
             (1, lambda *x: -.5 * k(*x[:-1], 0) * sq(*x[:-1]) - b(*x[:-1], 0)),
             (1, lambda *x: -.5 * k(*x[:-1], 0)),
             (1, lambda *x: a(*x[:-1], 0) - 1 + .5 * D)]
    F.exp = [(D, lambda *x: lam(*x[:-1]) * m(*x)),
             (1, lambda *x: lam(*x[:-1])),
             (1, lambda *x: D / k(*x[:-1], 0) + lam(*x[:-1]) * sq(*x[:-1])),
             (1, lambda *x: B.digamma(a(*x[:-1], 0)) - B.log(b(*x[:-1], 0)))]
    F.lognorm = lambda *n: (B.lgamma(a(*n, 0)) - a(*n, 0) * B.log(b(*n, 0))
                            - .5 * D * B.log(k(*n, 0)))
    return F


def normalgamma(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    F.cls = B.beer.dists.NormalGamma
    F.par = mk(B, lead, tag, [('mean', (D,), {}), ('scale', (1,), POS),
                              ('shape', (1,), POS), ('rates', (D,), POS)])
    m, k, a, b = (F.par[x][2] for x in ('mean', 'scale', 'shape', 'rates'))
    F.nat = [(D, lambda *x: k(*x[:-1], 0) * m(*x)),
             (D, lambda *x: -.5 * k(*x[:-1], 0) * m(*x) ** 2 - b(*x)),
             (1, lambda *x: -.5 * k(*x[:-1], 0)),
             (1, lambda *x: a(*x[:-1], 0) - .5)]
    lam = lambda *x: a(*x[:-1], 0) / b(*x)
    F.exp = [(D, lambda *x: lam(*x) * m(*x)),
             (D, lam),
             (1, lambda *x: D / k(*x[:-1], 0) + B.sum(D, lambda i: lam(*x[:-1], i) * m(*x[:-1], i) ** 2)),
             (1, lambda *x: B.sum(D, lambda i: B.digamma(a(*x[:-1], 0)) - B.log(b(*x[:-1], i))))]
    F.lognorm = lambda *n: (D * B.lgamma(a(*n, 0)) - B.sum(D, lambda i: a(*n, 0) * B.log(b(*n, i)))
                            - .5 * D * B.log(k(*n, 0)))
    return F


def normalwishart(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    F.cls = B.beer.dists.NormalWishart
    nl = len(lead)
    F.par = mk(B, lead, tag, [('mean', (D,), {}), ('scale', (1,), POS),
                              ('scale_matrix', (D, D), dict(sym=(nl, nl + 1), pos='spd')),
                              ('dof', (1,), POS)])
    m, k, W, v = (F.par[x][2] for x in ('mean', 'scale', 'scale_matrix', 'dof'))
    if not B.symbolic:
        t = F.par['dof'][0]
        t += D - 1
        v = B.at(t)
        F.par['dof'] = (t, F.par['dof'][1], v)

    def winv(*n):
        return B.inv(D, lambda i, j: W(*n, i, j))
    F.nat = [(D, lambda *x: k(*x[:-1], 0) * m(*x)),
             (D * D, lambda *x: (lambda n, i, j: -.5 * (winv(*n)(i, j) + k(*n, 0) * m(*n, i) * m(*n, j)))(
                 x[:-1], B.idiv(x[-1], D), B.imod(x[-1], D))),
             (1, lambda *x: -.5 * k(*x[:-1], 0)),
             (1, lambda *x: .5 * (v(*x[:-1], 0) - D))]
    F.exp = [(D, lambda *x: v(*x[:-1], 0) * B.sum(D, lambda j: W(*x, j) * m(*x[:-1], j))),
             (D * D, lambda *x: v(*x[:-1], 0) * W(*x[:-1], B.idiv(x[-1], D), B.imod(x[-1], D))),
             (1, lambda *x: D / k(*x[:-1], 0) + v(*x[:-1], 0) * B.sum(D, lambda i: B.sum(
                 D, lambda j: m(*x[:-1], i) * W(*x[:-1], i, j) * m(*x[:-1], j)))),
             (1, lambda *x: B.sum(D, lambda i: B.digamma((v(*x[:-1], 0) - i) / 2)) + D * B.log(2)
              + B.logdet(D, lambda i, j: W(*x[:-1], i, j)))]
    F.lognorm = lambda *n: (
        .5 * v(*n, 0) * B.logdet(D, lambda i, j: W(*n, i, j)) + .5 * v(*n, 0) * D * B.log(2)
        + .25 * D * (D - 1) * B.log(B.pi) + B.sum(D, lambda i: B.lgamma((v(*n, 0) - i) / 2))
        - .5 * D * B.log(k(*n, 0)) + .5 * D * (B.log(2) + B.log(B.pi)))
    return F


def normaldiag(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    F.cls = B.beer.dists.NormalDiagonalCovariance
    F.par = mk(B, lead, tag, [('mean', (D,), {}), ('diag_cov', (D,), POS)])
    m, s = F.par['mean'][2], F.par['diag_cov'][2]
    F.nat = [(D, lambda *x: m(*x) / s(*x)), (D, lambda *x: 1 / s(*x))]
    F.exp = [(D, lambda *x: m(*x)), (D, lambda *x: -.5 * (s(*x) + m(*x) ** 2))]
    F.lognorm = lambda *n: .5 * B.sum(D, lambda i: m(*n, i) ** 2 / s(*n, i) + B.log(s(*n, i))) \
        + .5 * D * (B.log(2) + B.log(B.pi))
    F.value = (lambda *x: m(*x)), (D,)
    return F


def normalfull(B, lead, tag='', D=None):
    F = Fam()
    D = D if D is not None else B.size('D')
    nl = len(lead)
    F.cls = B.beer.dists.NormalFullCovariance
    F.par = mk(B, lead, tag, [('mean', (D,), {}),
                              ('cov', (D, D), dict(sym=(nl, nl + 1), pos='spd'))])
    m, C = F.par['mean'][2], F.par['cov'][2]

    def prec(*n):
        return B.inv(D, lambda i, j: C(*n, i, j))
    F.nat = [(D, lambda *x: B.sum(D, lambda j: prec(*x[:-1])(x[-1], j) * m(*x[:-1], j))),
             (D * D, lambda *x: prec(*x[:-1])(B.idiv(x[-1], D), B.imod(x[-1], D)))]
    F.exp = [(D, lambda *x: m(*x)),
             (D * D, lambda *x: (lambda n, i, j: -.5 * (C(*n, i, j) + m(*n, i) * m(*n, j)))(
                 x[:-1], B.idiv(x[-1], D), B.imod(x[-1], D)))]
    F.lognorm = lambda *n: .5 * B.logdet(D, lambda i, j: C(*n, i, j)) \
        + .5 * B.sum(D, lambda i: B.sum(D, lambda j: m(*n, i) * prec(*n)(i, j) * m(*n, j))) \
        + .5 * D * (B.log(2) + B.log(B.pi))
    F.value = (lambda *x: m(*x)), (D,)
    return F


FAMILIES = {'dirichlet': dirichlet, 'gamma': gamma, 'isonormalgamma': isonormalgamma,
            'normalgamma': normalgamma, 'normalwishart': normalwishart,
            'normaldiag': normaldiag, 'normalfull': normalfull}


def build(F):
    return F.cls.from_std_parameters(*[t for t, _, _ in F.par.values()])


def lead_of(B, batched):
    return (B.size('N'),) if batched else ()
