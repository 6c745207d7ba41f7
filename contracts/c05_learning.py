"""P05-P07: conjugate posterior updates, optimisers, evidence lower bound."""
from . import contract
from .families import FAMILIES, cat, width, build, lead_of
from .c04_likelihood import MODELS, parameter, dim

CONJ = ['dirichlet', 'gamma', 'isonormalgamma', 'normalgamma', 'normalwishart']


@contract('P05', family=CONJ, batched=[False, True])
def natural_step(B, family, batched):
    'new posterior = (1 - lr) posterior + lr (prior + stats), prior untouched'
    lead = lead_of(B, batched)
    P, F, prm = parameter(B, family, lead)
    w = width(*F.nat)
    st = B.tensor('stats', (*lead, w))
    S = B.at(st)
    lr = B.scalar('lrate', pos=True)
    prm.store_stats(st)
    prm.natural_grad_update(lr)
    p, q = cat(B, *P.nat), cat(B, *F.nat)
    B.eq('posterior', prm.posterior.natural_parameters(), (*lead, w),
         lambda *x: (1 - lr) * q(*x) + lr * (p(*x) + S(*x)))
    B.eq('prior', prm.prior.natural_parameters(), (*lead, w), p)
    for name, (t, sh, f) in P.par.items():
        B.eq(f'frame.prior.{name}', getattr(prm.prior.params, name), sh, f)
    B.eq('frame.stats', prm.stats, (*lead, w), S)


@contract('P05', family=CONJ, batched=[False, True])
def natural_step_no_data(B, family, batched):
    'no statistics and unit learning rate: back to the prior'
    lead = lead_of(B, batched)
    P, F, prm = parameter(B, family, lead)
    prm.zero_stats()
    prm.natural_grad_update(1.)
    for name, (t, sh, f) in P.par.items():
        B.eq(f'posterior.{name}', getattr(prm.posterior.params, name), sh, f)


def textbook(B, family, P, S, n, x, N, one):
    '''standard parameters of the posterior after observing x(n, .) with weights
    one(n) (responsibilities), prior parameters P at member lead n'''
    p = {k: (lambda f: lambda *i: f(*n, *i))(v[2]) for k, v in P.par.items()}
    W = B.sum(N, one)
    sx = lambda i: B.sum(N, lambda t: one(t) * x(t, i))
    if family == 'dirichlet':
        return {'concentrations': lambda i: p['concentrations'](i) + sx(i)}
    k1 = p['scale'](0) + W
    mean = lambda i: (p['scale'](0) * p['mean'](i) + sx(i)) / k1
    out = {'mean': mean, 'scale': lambda i: k1}
    D = P.par['mean'][1][-1]
    # rate' = rate + .5 (sum w x^2 + k m^2 - k' m'^2)
    up = lambda i: .5 * (B.sum(N, lambda t: one(t) * x(t, i) ** 2)
                         + p['scale'](0) * p['mean'](i) ** 2 - k1 * mean(i) ** 2)
    if family == 'isonormalgamma':
        out['shape'] = lambda i: p['shape'](0) + .5 * D * W
        out['rate'] = lambda i: p['rate'](0) + B.sum(D, up)
    elif family == 'normalgamma':
        out['shape'] = lambda i: p['shape'](0) + .5 * W
        out['rates'] = lambda i: p['rates'](i) + up(i)
    else:
        out['dof'] = lambda i: p['dof'](0) + W
    return out


@contract('P05', family=MODELS)
def conjugate_posterior(B, family):
    'unit learning rate: the posterior is the textbook conjugate posterior'
    P, F, prm = parameter(B, family, ())
    D = dim(F, family)
    model = (B.beer.Categorical if family == 'dirichlet' else B.beer.Normal)(prm)
    N = B.size('N')
    x = B.tensor('x', (N, D), **({'nonneg': True} if family == 'dirichlet' else {}))
    X = B.at(x)
    acc = model.accumulate(model.sufficient_statistics(x))
    prm.store_stats(acc[prm])
    prm.natural_grad_update(1.)
    spec = textbook(B, family, P, None, (), X, N, lambda t: 1)
    for name, f in spec.items():
        B.eq(f'posterior.{name}', getattr(prm.posterior.params, name).reshape(-1),
             (P.par[name][1][-1],), f)
    if family == 'normalwishart':
        W, m, k = (P.par[n][2] for n in ('scale_matrix', 'mean', 'scale'))
        k1 = k(0) + N
        inv = B.inv(D, W)
        B.eq('posterior.inverse_scale_matrix', prm.posterior.params.scale_matrix.inverse(), (D, D),
             lambda i, j: inv(i, j) + B.sum(N, lambda n: X(n, i) * X(n, j)) + k(0) * m(i) * m(j)
             - k1 * spec['mean'](i) * spec['mean'](j))


@contract('P05', family=MODELS)
def conjugate_posterior_set(B, family):
    'sets: member c is updated with its own responsibilities'
    K = B.size('M')
    P, F, prm = parameter(B, family, (K,))
    D = dim(F, family)
    model = (B.beer.CategoricalSet if family == 'dirichlet' else B.beer.NormalSet)(prm)
    N = B.size('N')
    x = B.tensor('x', (N, D), **({'nonneg': True} if family == 'dirichlet' else {}))
    X = B.at(x)
    r = B.tensor('resps', (N, K), nonneg=True)
    g = B.at(r)
    acc = model.accumulate(model.sufficient_statistics(x), r)
    prm.store_stats(acc[prm])
    prm.natural_grad_update(1.)
    c = B.index('c', K)
    spec = textbook(B, family, P, None, (c,), X, N, lambda t: g(t, c))
    for name, f in spec.items():
        B.eq(f'posterior.{name}', getattr(prm.posterior.params, name)[c],
             (P.par[name][1][-1],), f)


@contract('P05', family=MODELS)
def statistics_received(B, family):
    'what separates posterior from prior, before and after an update: the statistics received'
    P, F, prm = parameter(B, family, ())
    model = (B.beer.Categorical if family == 'dirichlet' else B.beer.Normal)(prm)
    w = width(*F.nat)
    p, q = cat(B, *P.nat), cat(B, *F.nat)
    B.eq('before', model.accumulated_statistics(), (w,), lambda i: q(i) - p(i))
    st = B.tensor('stats', (w,))
    S = B.at(st)
    prm.store_stats(st)
    prm.natural_grad_update(1.)
    B.eq('after', model.accumulated_statistics(), (w,), S)


@contract('P05', family=CONJ)
def slicing(B, family):
    'a member of a set of parameters carries its own prior, posterior, statistics'
    K = B.size('M')
    P, F, prm = parameter(B, family, (K,))
    w = width(*F.nat)
    st = B.tensor('stats', (K, w))
    S = B.at(st)
    prm.store_stats(st)
    c = B.index('c', K)
    v = prm[c]
    p, q, e = cat(B, *P.nat), cat(B, *F.nat), cat(B, *F.exp)
    B.eq('prior', v.prior.natural_parameters(), (w,), lambda i: p(c, i))
    B.eq('posterior', v.posterior.natural_parameters(), (w,), lambda i: q(c, i))
    B.eq('stats', v.stats, (w,), lambda i: S(c, i))
    B.eq('natural_form', v.natural_form(), (width(*F.exp),), lambda i: e(c, i))
    B.eq('natural_form.set', prm.natural_form(), (K, width(*F.exp)), e)
    B.eq_num('len', B.length(prm), K)
    B.holds('class', type(v) is type(prm))
    v.zero_stats()
    v.natural_grad_update(1.)
    B.eq('updated', v.posterior.natural_parameters(), (w,), lambda i: p(c, i))
    B.eq('frame.stats', prm.stats, (K, w), S)
    B.eq('frame.posterior', prm.posterior.natural_parameters(), (K, w), q)
    B.eq('frame.prior', prm.prior.natural_parameters(), (K, w), p)


@contract('P05', family=['dirichlet', 'gamma', 'normalgamma'])
def observers(B, family):
    'observers registered before/after the update see the old/new posterior'
    P, F, prm = parameter(B, family, ())
    w = width(*F.nat)
    S = B.at(B.tensor('stats', (w,)))
    st = B.tensor('stats', (w,))
    if not B.symbolic and family == 'normalgamma':
        st = st.clone()
        st[-2] = -1.5 - st[-2].abs()      # the update leaves a proper posterior (scale > 0)
        S = B.at(st)
    seen = []

    def before():
        seen.append(('before', B.at(prm.posterior.natural_parameters())))
        prm.store_stats(prm.stats + 1)     # an observer may transform the statistics

    def after():
        seen.append(('after', B.at(prm.posterior.natural_parameters())))
    prm.register_callback(after)
    prm.register_callback(before, notify_before_update=True)
    prm.store_stats(st)
    prm.natural_grad_update(1.)
    B.holds('order', [s[0] for s in seen] == ['before', 'after'])
    p, q = cat(B, *P.nat), cat(B, *F.nat)
    i = B.index('i', w)
    B.eq_num('before', seen[0][1](i), q(i))
    B.eq_num('after', seen[1][1](i), p(i) + S(i) + 1)
    B.eq('posterior', prm.posterior.natural_parameters(), (w,), lambda j: p(j) + S(j) + 1)
    prm.dispatch()
    B.holds('dispatch', [s[0] for s in seen] == ['before', 'after', 'after'])


@contract('P05', family=CONJ)
def zero_and_store(B, family):
    P, F, prm = parameter(B, family, ())
    w = width(*F.nat)
    B.eq('initial', prm.stats, (w,), lambda i: 0)
    st = B.tensor('stats', (w,))
    S = B.at(st)
    prm.store_stats(st)
    B.eq('stored', prm.stats, (w,), S)
    st2 = B.tensor('stats2', (w,))
    S2 = B.at(st2)
    prm.store_stats(st2)
    B.eq('replaced', prm.stats, (w,), S2)
    prm.zero_stats()
    B.eq('zero', prm.stats, (w,), lambda i: 0)


@contract('P05', family=CONJ, batched=[False, True])
def divergence(B, family, batched):
    'the parameter divergence is KL(posterior || prior), not the reverse'
    lead = lead_of(B, batched)
    P, F, prm = parameter(B, family, lead)
    r = prm.kl_div_posterior_prior()
    if not batched:
        r = r.reshape(-1)[0]

    def spec(*n):
        s = P.lognorm(*n) - F.lognorm(*n)
        for (w, e), (_, a), (_, b) in zip(F.exp, F.nat, P.nat):
            s = s - B.sum(w, lambda i: e(*n, i) * (b(*n, i) - a(*n, i)))
        return s
    B.eq('kl', r, lead, spec)


# ----------------------------------------------------------------------

class Rec:
    'records the calls made by an optimiser'

    def __init__(self, log, name):
        self.log, self.name = log, name

    def natural_grad_update(self, lrate):
        self.log.append((self.name, lrate))

    def zero_stats(self):
        self.log.append((self.name, 'zero'))

    def step(self):
        self.log.append((self.name, 'step'))

    def zero_grad(self):
        self.log.append((self.name, 'zero_grad'))

    def state_dict(self):
        return {'of': self.name}

    def load_state_dict(self, d):
        self.log.append((self.name, 'load', d))


@contract('P06', ngroups=[1, 2, 3, 4], gsize=[1, 2])
def round_robin(B, ngroups, gsize):
    'step k updates exactly the parameters of group (k mod n), once each'
    log = []
    groups = [[Rec(log, (g, i)) for i in range(gsize)] for g in range(ngroups)]
    lr = B.scalar('lrate', pos=True)
    k = B.integer('count')
    o = B.beer.VBConjugateOptimizer((g for g in groups), B.scalar('other_lrate', pos=True))
    o.load_state_dict({'lrate': lr, 'update_count': k})
    o.step()
    g = B.imod(k, ngroups)
    B.eq_num('updates', len(log), gsize)
    for i, (name, l) in enumerate(log):
        B.eq_num(f'group{i}', name[0], g)
        B.holds(f'once{i}', name[1] == i)
        B.eq_num(f'lrate{i}', l, lr)
    B.eq_num('count', o.update_count, k + 1)
    st = o.state_dict()
    B.eq_num('state.count', st['update_count'], k + 1)
    B.eq_num('state.lrate', st['lrate'], lr)
    del log[:]
    o.init_step()
    B.holds('init_step', log == [((a, b), 'zero') for a in range(ngroups) for b in range(gsize)])
    # a restored optimiser continues with the next group
    del log[:]
    o2 = B.beer.VBConjugateOptimizer(groups, 3 * lr)
    o2.load_state_dict(st)
    o2.step()
    g2 = B.imod(k + 1, ngroups)
    B.eq_num('restored.updates', len(log), gsize)
    for i, (name, l) in enumerate(log):
        B.eq_num(f'restored.group{i}', name[0], g2)
        B.eq_num(f'restored.lrate{i}', l, lr)


@contract('P06', ngroups=[1, 2, 3, 4])
def full_cycle(B, ngroups):
    'n consecutive steps from a fresh optimiser update every group exactly once, in order'
    log = []
    groups = [[Rec(log, g)] for g in range(ngroups)]
    lr = B.scalar('lrate', pos=True)
    o = B.beer.VBConjugateOptimizer(groups, lr)
    for _ in range(2 * ngroups):
        o.init_step()
        o.step()
    ups = [n for n, l in log if not isinstance(l, str)]
    B.holds('cycle', ups == list(range(ngroups)) * 2)


@contract('P06', cjg=[False, True], std=[False, True])
def combined(B, cjg, std):
    log = []
    c = Rec(log, 'cjg') if cjg else None
    s = Rec(log, 'std') if std else None
    if c is not None:
        c.init_step = lambda: log.append(('cjg', 'init'))
    o = B.beer.VBOptimizer(c, s)
    o.init_step()
    B.holds('init_step', sorted(log) == sorted([('cjg', 'init')] * cjg + [('std', 'zero_grad')] * std))
    del log[:]
    o.step()
    B.holds('step', sorted(log) == sorted([('cjg', 'step')] * cjg + [('std', 'step')] * std))
    st = o.state_dict()
    B.holds('state', st == {**({'cjg_optim': {'of': 'cjg'}} if cjg else {}),
                            **({'std_optim': {'of': 'std'}} if std else {})})
    del log[:]
    o.load_state_dict(st)
    B.holds('load', log == [('cjg', 'load', {'of': 'cjg'})] * cjg + [('std', 'load', {'of': 'std'})] * std)


@contract('P06')
def empty_optimizer(B):
    o = B.beer.VBConjugateOptimizer([])
    o.init_step()
    o.step()
    o.step()
    B.eq_num('count', o.update_count, 2)


# ----------------------------------------------------------------------

def stub_model(B, N, params, tag=''):
    'model with an arbitrary expected log-likelihood, divergence and statistics'
    K = B.size('K' + tag)
    llh = B.tensor('llh' + tag, (N,))
    kl = B.tensor('kl' + tag, (K,), nonneg=True)
    accs = [B.tensor(f'acc{tag}{k}', (2,)) for k in range(len(params))]
    log = []

    class Stub:
        def sufficient_statistics(self, data):
            log.append(('stats', data))
            return ('stats', data)

        def expected_log_likelihood(self, stats, **kw):
            log.append(('llh', stats, kw))
            return llh

        def kl_div_posterior_prior(self):
            return kl

        def accumulate(self, stats):
            log.append(('acc', stats))
            return dict(zip(params, accs))

        def clear_cache(self):
            log.append(('clear',))

        def bayesian_parameters(self):
            return iter(params)
    m = Stub()
    m.log = log
    return m, B.at(llh), B.at(kl), K, [B.at(a) for a in accs]


class Sink:
    def __init__(self):
        self.stored = []

    def store_stats(self, s):
        self.stored.append(s)

    def zero_stats(self):
        self.stored.append('zero')


class Twin(Sink):
    'a copy of a parameter equals the parameter (like BayesianParameter, by its identifier)'

    def __init__(self, ident):
        super().__init__()
        self.ident = ident

    def __hash__(self):
        return hash(self.ident)

    def __eq__(self, other):
        return getattr(other, 'ident', None) == self.ident


@contract('P07', given=[False, True])
def elbo_value(B, given):
    N = B.size('N')
    data = B.tensor('data', (N, 2))
    params = [Sink(), Sink()]
    m, llh, kl, K, accs = stub_model(B, N, params)
    T = B.integer('datasize', lo=1) if given else N
    kw = {'option': 'x'}
    e = B.beer.evidence_lower_bound(m, data, **({'datasize': T} if given else {}), **kw)
    B.eq_num('value', e.value, T * B.sum(N, llh) / N - B.sum(K, kl))
    # the statistics of this data, the options, and the cache cleared at the end
    B.holds('calls', [c[0] for c in m.log] == ['stats', 'llh', 'acc', 'clear'])
    B.holds('data', m.log[0][1] is data and m.log[1][1] == ('stats', data)
            and m.log[2][1] == ('stats', data))
    B.holds('options', m.log[1][2] == kw)
    e.backward()
    for k, (p, a) in enumerate(zip(params, accs)):
        B.eq_num(f'stored{k}', len(p.stored), 1)
        B.eq(f'stats{k}', p.stored[0], (2,), lambda i: a(i) * T / N)


@contract('P07', datasize=[0, -1, -7])
def elbo_default_datasize(B, datasize):
    N = B.size('N')
    data = B.tensor('data', (N, 2))
    params = [Sink()]
    m, llh, kl, K, accs = stub_model(B, N, params)
    e = B.beer.evidence_lower_bound(m, data, datasize=datasize)
    B.eq_num('value', e.value, B.sum(N, llh) - B.sum(K, kl))
    e.backward()
    B.eq('stats', params[0].stored[0], (2,), accs[0])


@contract('P07', start=[False, True], assoc=['left', 'right'])
def elbo_sum(B, start, assoc):
    '''sums over minibatches: every parameter gets datasize / (total number of
    frames) times the sum of the statistics of the minibatches it appears in'''
    N1, N2, N3 = B.size('N1'), B.size('N2'), B.size('N3')
    T = B.integer('datasize', lo=1)
    p, q, r = Sink(), Sink(), Sink()
    es, vals = [], []
    specs = {}
    for n, N, ps in ((1, N1, [p, q]), (2, N2, [q, r]), (3, N3, [q])):
        m, llh, kl, K, accs = stub_model(B, N, ps, str(n))
        e = B.beer.evidence_lower_bound(m, B.tensor(f'data{n}', (N, 2)), datasize=T)
        es.append(e)
        vals.append(T * B.sum(N, llh) / N - B.sum(K, kl))
        for x, a in zip(ps, accs):
            specs.setdefault(x, []).append(a)
    if assoc == 'left':
        e = es[0] + es[1]
        if start:
            e = B.beer.evidence_lower_bound(datasize=T) + e
        e = e + es[2]
    else:
        e = es[1] + es[2]
        if start:
            e = e + B.beer.evidence_lower_bound(datasize=T)
        e = es[0] + e
    B.eq_num('value', e.value, vals[0] + vals[1] + vals[2])
    e.backward()
    tot = N1 + N2 + N3
    for k, x in enumerate((p, q, r)):
        B.eq_num(f'stored{k}', len(x.stored), 1)
        B.eq(f'stats{k}', x.stored[0], (2,),
             lambda i: T * sum(a(i) for a in specs[x]) / tot)
    # the operands are not modified
    es[0].backward()
    B.eq('operand', p.stored[1], (2,), lambda i: T * specs[p][0](i) / N1)
    B.eq('operand.shared', q.stored[1], (2,), lambda i: T * specs[q][0](i) / N1)


@contract('P07')
def elbo_rejects(B):
    N = B.size('N')
    T1, T2 = B.integer('datasize1', lo=1), B.integer('datasize2', lo=1)
    B.assume(B.not_(T1 == T2))
    m, *_ = stub_model(B, N, [Sink()])
    d = B.tensor('data', (N, 2))
    e1 = B.beer.evidence_lower_bound(m, d, datasize=T1)
    e2 = B.beer.evidence_lower_bound(m, d, datasize=T2)
    B.raises('datasize', ValueError, lambda: e1 + e2)
    B.raises('operand', ValueError, lambda: e1 + 1)
    B.raises('no.data', ValueError, lambda: B.beer.evidence_lower_bound(m))
    B.raises('no.model', ValueError, lambda: B.beer.evidence_lower_bound(minibatch_data=d))
    B.raises('nothing', ValueError, lambda: B.beer.evidence_lower_bound())


@contract('P07')
def elbo_sync(B):
    'after sync the statistics go to the parameters of the given model'
    N = B.size('N')
    p, q = Sink(), Sink()
    m, llh, kl, K, accs = stub_model(B, N, [p, q])
    e = B.beer.evidence_lower_bound(m, B.tensor('data', (N, 2)))
    e._model_parameters = set()      # what a reloaded object is left with
    e.backward()
    B.holds('disconnected', not p.stored and not q.stored)
    e.sync(m)
    e.backward()
    B.eq('stats.p', p.stored[0], (2,), accs[0])
    B.eq('stats.q', q.stored[0], (2,), accs[1])


@contract('P07', summed=[False, True])
def elbo_sync_copy(B, summed):
    'after sync with a copy of the model (another process, a file) the copy receives the statistics'
    N = B.size('N')
    first, second = [Twin('p'), Twin('q')], [Twin('p'), Twin('q')]
    m, llh, kl, K, accs = stub_model(B, N, first)
    e = B.beer.evidence_lower_bound(m, B.tensor('data', (N, 2)), datasize=2 * N)
    if summed:
        e = e + B.beer.evidence_lower_bound(m, B.tensor('data', (N, 2)), datasize=2 * N)

    class Copy:
        def bayesian_parameters(self):
            return iter(second)
    e.sync(Copy())
    e.backward()
    for i, x in enumerate(second):
        B.holds(f'stored{i}', len(x.stored) == 1)
        B.eq(f'stats{i}', x.stored[0], (2,), lambda k: 2 * accs[i](k))
        B.holds(f'former{i}', not first[i].stored)


@contract('P07', having=[1, 2])
def parameters_without_statistics(B, having):
    'a parameter the data says nothing about keeps what it has; the cache is cleared in any case'
    N = B.size('N')
    params, idle = [Sink() for _ in range(having)], Sink()
    m, llh, kl, K, accs = stub_model(B, N, params)
    m.bayesian_parameters = lambda: iter(params + [idle])
    e = B.beer.evidence_lower_bound(m, B.tensor('data', (N, 2)))
    B.holds('cleared', m.log[-1] == ('clear',))
    e.backward()
    B.holds('kept', not idle.stored)
    for i, x in enumerate(params):
        B.holds(f'once{i}', len(x.stored) == 1)
        B.eq(f'stats{i}', x.stored[0], (2,), accs[i])


@contract('P07', family=MODELS)
def minibatches(B, family):
    '''accumulating minibatches (even on different machines) and updating equals
    one pass over the whole data, for every split'''
    P, F, prm = parameter(B, family, ())
    D = dim(F, family)
    model = (B.beer.Categorical if family == 'dirichlet' else B.beer.Normal)(prm)
    N1, N2 = B.size('N1'), B.size('N2')
    fl = {'nonneg': True} if family == 'dirichlet' else {}
    x1, x2 = B.tensor('x1', (N1, D), **fl), B.tensor('x2', (N2, D), **fl)
    T = N1 + N2
    whole = B.beer.evidence_lower_bound(model, B.torch.cat([x1, x2]))
    whole.backward()
    w = width(*F.nat)
    S = B.at(prm.stats)
    e = B.beer.evidence_lower_bound(datasize=T)
    for x in (x1, x2):
        e = e + B.beer.evidence_lower_bound(model, x, datasize=T)
    e.backward()
    B.eq('stats', prm.stats, (w,), S)
    S2 = B.at(prm.stats)      # = S, above
    opt = B.beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), 1.)
    opt.step()
    p = cat(B, *P.nat)
    B.eq('posterior', prm.posterior.natural_parameters(), (w,), lambda i: p(i) + S2(i))


@contract('P07', family=MODELS)
def model_divergence(B, family):
    'the divergence of a model is the sum over its parameters and members'
    K = B.size('M')
    P, F, prm = parameter(B, family, (K,))
    model = (B.beer.CategoricalSet if family == 'dirichlet' else B.beer.NormalSet)(prm)
    each = B.at(prm.kl_div_posterior_prior())
    B.eq_num('kl', model.kl_div_posterior_prior(), B.sum(K, each))
