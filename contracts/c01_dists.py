"""P01-P03: exponential families."""
from . import contract
from .families import FAMILIES, cat, width, build, lead_of

ALL = list(FAMILIES)


@contract('P01', family=ALL, batched=[False, True])
def natural_form(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    d = build(F)
    B.eq('natural_parameters', d.natural_parameters(), (*lead, width(*F.nat)), cat(B, *F.nat))
    for name, (t, sh, f) in F.par.items():
        B.eq(f'frame.{name}', t, sh, f)


@contract('P01', family=ALL, batched=[False, True])
def round_trip(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    G = FAMILIES[family](B, lead, tag='_other')
    d, e = build(F), build(G)
    nat = d.natural_parameters()
    e.update_from_natural_parameters(nat)
    for name, (_, sh, f) in F.par.items():
        B.eq(f'recovered.{name}', getattr(e.params, name), sh, f)
    B.eq('natural_parameters', e.natural_parameters(), (*lead, width(*F.nat)), cat(B, *F.nat))
    B.eq('argument.unchanged', nat, (*lead, width(*F.nat)), cat(B, *F.nat))


@contract('P01', family=ALL)
def member_view(B, family):
    'd[i] is the i-th member of a set of distributions'
    N = B.size('N')
    F = FAMILIES[family](B, (N,))
    d = build(F)
    i = B.index('i', N)
    v = d[i]
    f = cat(B, *F.nat)
    B.eq('view.natural_parameters', v.natural_parameters(), (width(*F.nat),), lambda j: f(i, j))
    g = cat(B, *F.exp)
    B.eq('view.expected_statistics', v.expected_sufficient_statistics(), (width(*F.exp),),
         lambda j: g(i, j))
    B.eq_num('len', B.length(d), N)


@contract('P02', family=ALL, batched=[False, True])
def expected_statistics(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    d = build(F)
    B.eq('expected_sufficient_statistics', d.expected_sufficient_statistics(),
         (*lead, width(*F.exp)), cat(B, *F.exp))
    for name, (t, sh, f) in F.par.items():
        B.eq(f'frame.{name}', t, sh, f)


@contract('P02', family=ALL, batched=[False, True])
def log_normaliser(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    d = build(F)
    r = d.log_norm()
    if not batched:
        r = r.reshape(-1)[0]
    B.eq('log_norm', r, lead, F.lognorm)


@contract('P02', family=ALL, batched=[False, True])
def expected_value(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    d = build(F)
    v = d.expected_value()
    if hasattr(F, 'value'):
        f, sh = F.value
        B.eq('expected_value', v, (*lead, *sh), f)
        return
    mean, prec = v
    _, sh, f = F.par['mean']
    B.eq('expected_value.mean', mean, sh, f)
    D = sh[-1]
    if family == 'normalwishart':
        _, sh, W = F.par['scale_matrix']
        v = F.par['dof'][2]
        B.eq('expected_value.precision', prec, sh,
             lambda *x: v(*x[:-2], 0) * W(*x))
    else:
        rate = 'rate' if family == 'isonormalgamma' else 'rates'
        _, sh, b = F.par[rate]
        a = F.par['shape'][2]
        B.eq('expected_value.precision', prec, sh, lambda *x: a(*x[:-1], 0) / b(*x))


@contract('P03', family=ALL, batched=[False, True])
def kl_value(B, family, batched):
    '''KL(p||q) = A(q) - A(p) - <E_p[T], eta_q - eta_p>, the closed form of the KL
    divergence between two members of one exponential family'''
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    G = FAMILIES[family](B, lead, tag='_q')
    p, q = build(F), build(G)
    r = B.beer.dists.kl_div(p, q)
    if not batched:
        r = r.reshape(-1)[0]

    def spec(*n):
        s = G.lognorm(*n) - F.lognorm(*n)
        for (w, e), (_, a), (_, b) in zip(F.exp, F.nat, G.nat):
            s = s - B.sum(w, lambda i: e(*n, i) * (b(*n, i) - a(*n, i)))
        return s
    B.eq('kl', r, lead, spec)


@contract('P03', family=ALL, batched=[False, True])
def kl_identical(B, family, batched):
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    p = build(F)
    q = F.cls.from_std_parameters(*[t.clone() for t, _, _ in F.par.values()])
    r = B.beer.dists.kl_div(p, q)
    if not batched:
        r = r.reshape(-1)[0]
    B.eq('kl.identical', r, lead, lambda *n: 0)


@contract('P03', family=ALL, batched=[False, True])
def entropy_value(B, family, batched):
    'H(p) = A(p) - <eta_p, E_p[T]> (up to the base measure)'
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    p = build(F)
    r = B.beer.dists.basedist.entropy(p)
    if not batched:
        r = r.reshape(-1)[0]

    def spec(*n):
        s = F.lognorm(*n)
        for (w, e), (_, a) in zip(F.exp, F.nat):
            s = s - B.sum(w, lambda i: e(*n, i) * a(*n, i))
        return s
    B.eq('entropy', r, lead, spec)


@contract('P03', family=ALL)
def kl_rejects(B, family):
    'operands of different type or different support dimension are rejected'
    D = B.size('D', 2)
    F = FAMILIES[family](B, (), '', D)
    p = build(F)
    G = FAMILIES[family](B, (), '_q', D + 1)
    q = build(G)
    bd = B.beer.dists.basedist
    B.raises('kl.dimension', bd.SupportDimensionMismatch, lambda: bd.kl_div(p, q))
    B.raises('kl.dimension.sym', bd.SupportDimensionMismatch, lambda: bd.kl_div(q, p))
    for other in ALL:
        if other != family:
            H = FAMILIES[other](B, (), '_' + other, D)
            o = build(H)
            B.raises(f'kl.type.{other}', bd.DistributionTypeMismatch, lambda: bd.kl_div(p, o))


@contract('P03', symbolic=False, seeds=40, family=ALL, batched=[False, True],
          note='non-negativity of the KL divergence (convexity of the log-normaliser is not '
               'expressible in the term language): concrete runs, sizes up to 4')
def kl_nonnegative(B, family, batched):
    lead = lead_of(B, batched)
    p = build(FAMILIES[family](B, lead))
    q = build(FAMILIES[family](B, lead, tag='_q'))
    r = B.beer.dists.kl_div(p, q)
    B.holds('kl.nonnegative', (r >= -1e-8).all())


@contract('P02', family=ALL, batched=[False, True])
def after_update(B, family, batched):
    'nothing computed before an update of the parameters survives it'
    lead = lead_of(B, batched)
    F = FAMILIES[family](B, lead)
    G = FAMILIES[family](B, lead, tag='_old')
    d, e = build(F), build(G)
    e.expected_sufficient_statistics(), e.log_norm(), e.expected_value(), e.natural_parameters()
    e.update_from_natural_parameters(d.natural_parameters())
    B.eq('natural_parameters', e.natural_parameters(), (*lead, width(*F.nat)), cat(B, *F.nat))
    B.eq('expected_sufficient_statistics', e.expected_sufficient_statistics(),
         (*lead, width(*F.exp)), cat(B, *F.exp))
    r = e.log_norm()
    B.eq('log_norm', r if batched else r.reshape(-1)[0], lead, F.lognorm)
    v = e.expected_value()
    B.eq('expected_value', v[0] if isinstance(v, tuple) else v, *(
        ((*lead, *F.value[1]), F.value[0]) if hasattr(F, 'value') else F.par['mean'][1:]))
