"""The proofs read floats as reals.  These contracts run the code where that reading breaks first: log-likelihoods far
below zero (long frames, wide features), components and paths thousands of nats apart, saturated logits.  The
specification is the one of the proofs, evaluated with the maximum taken out.  Executed only (bounded)."""
import math
from . import cli, contract
from .c08_graph import FB, Viterbi, graph
from .c10_hmm import Setup
from .c11_mixture import Mix, MixSet, check_acc
from .c13_phoneloop import Loop
from .families import FAMILIES, build

NOTE = 'executed: offsets of the log-likelihoods down to -1e5, components up to 3000 nats apart'
RANGES = [(-800, 5), (800, 5), (-1e5, 20), (0, 3000), (-2e4, 3000)]


def stretch(s, rng):
    off, scale = rng
    s.llh = scale * s.llh + off
    s.ms.llh = s.llh
    return s.llh


@contract('P11', symbolic=False, seeds=3, note=NOTE, rng=RANGES)
def mixture_range(B, rng):
    'value and responsibilities of a mixture, whatever the magnitude of the log-likelihoods'
    import torch
    s = Mix(B)
    s.L = B.at(stretch(s, rng))
    w = s.llh + torch.tensor([float(s.E(k)) for k in range(s.K)], dtype=s.llh.dtype)
    post = B.at(torch.softmax(w, dim=-1))
    B.eq('llh', s.mix.expected_log_likelihood(s.x), (s.N,), B.at(torch.logsumexp(w, dim=-1)))
    check_acc(B, s, post)
    B.eq('posteriors', s.mix.posteriors(s.x), (s.N, s.K), post)


@contract('P12', symbolic=False, seeds=3, note=NOTE, rng=RANGES)
def mixture_set_range(B, rng):
    'the same, for the mixtures of a set'
    import torch
    s = MixSet(B)
    stretch(s, rng)
    E = torch.tensor([[float(s.E(m, c)) for c in range(s.C)] for m in range(s.M)], dtype=s.llh.dtype)
    w = s.llh.reshape(s.N, s.M, s.C) + E
    B.eq('llh', s.set.expected_log_likelihood(s.x), (s.N, s.M), B.at(torch.logsumexp(w, dim=-1)))
    u = B.tensor('resps', (s.N, s.M), nonneg=True)
    s.set.accumulate(s.x, u)
    B.eq('components', s.ms.calls[0][1].reshape(-1, s.M, s.C), (s.N, s.M, s.C),
         B.at(u[:, :, None] * torch.softmax(w, dim=-1)))


@contract('P12', symbolic=False, seeds=3, note=NOTE, shape=[(4,), (3, 4), (2, 3, 4)])
def logsumexp(B, shape):
    'log of a sum of exponentials, along any dimension, infinities included'
    import torch
    for dim in range(-len(shape), len(shape)):
        for off, scale in RANGES:
            x = scale * B.tensor('x', shape) + off
            keep = x.clone()
            want = torch.logsumexp(x, dim=dim)
            B.eq('value', B.beer.utils.logsumexp(x, dim=dim), want.shape, B.at(want))
            B.holds('frame', torch.equal(x, keep))
        x = B.tensor('x', shape).clone()
        x[..., 0] = -math.inf
        want = torch.logsumexp(x, dim=dim)
        B.eq('some minus infinity', B.beer.utils.logsumexp(x, dim=dim), want.shape, B.at(want))


def chain(B, rng, T, S):
    'log-domain forward-backward by the definition, maxima taken out'
    import torch
    g, _, _, _ = graph(B, S, zeros=.3, mapping=list(range(S)))
    x = rng[1] * B.tensor('llh', (T, S)) + rng[0]
    I, F, A = g.init_log_probs, g.final_log_probs, g.trans_log_probs
    a = [x[0] + I]
    for t in range(1, T):
        a.append(x[t] + torch.logsumexp(a[-1][:, None] + A, dim=0))
    b = [F.clone()]
    for t in range(T - 2, -1, -1):
        b.insert(0, torch.logsumexp(A + x[t + 1] + b[0], dim=1))
    a, b = torch.stack(a), torch.stack(b)
    Z = torch.logsumexp(a[-1] + F, dim=0)
    post = (a + b - Z).exp()
    xi = (a[:-1, :, None] + A + (x[1:] + b[1:])[:, None, :] - Z).exp()
    return g, x, post, xi, Z


@contract('P08', symbolic=False, seeds=3, note=NOTE, rng=RANGES, mixed=False)
def graph_range(B, rng):
    'posteriors of the states and of the transitions, log-normaliser'
    T, S = 7, 3
    g, x, post, xi, Z = chain(B, rng, T, S)
    (r, q), llh = g.posteriors(x, trans_posteriors=True)
    B.eq('states', r, (T, S), B.at(post))
    B.eq('transitions', q, (T - 1, S, S), B.at(xi))
    B.eq_num('lognorm', llh, Z)


@contract('P10', symbolic=False, seeds=3, note=NOTE, rng=RANGES, mixed=False)
def hmm_range(B, rng):
    'expected log-likelihood and statistics of an HMM'
    T, S = 6, 3
    g, x, post, xi, Z = chain(B, rng, T, S)
    from .stubs import modelset
    ms = modelset(B, x)
    hmm = B.beer.HMM.create(g, ms)
    d = B.tensor('x', (T, 2))
    B.eq('llh', hmm.expected_log_likelihood(d), (T,), B.at((post * x).sum(dim=-1)))
    hmm.accumulate(d)
    B.eq('resps', ms.calls[0][1], (T, S), B.at(post))
    B.eq('posteriors', hmm.posteriors(d), (T, S), B.at(post))


@contract('P09', symbolic=False, seeds=3, note=NOTE, rng=RANGES)
def best_path_range(B, rng):
    'the best path of a long utterance'
    import torch
    T, S = 60, 4
    g, I, F, A = graph(B, S, zeros=.3)
    x = rng[1] * B.tensor('llh', (T, S)) + rng[0]
    L = B.at(x)
    om = x[0] + g.init_log_probs
    for t in range(1, T):
        om = x[t] + (om[:, None] + g.trans_log_probs).max(dim=0)[0]
    best = float((om + g.final_log_probs).max())
    p = [int(i) for i in g.best_path(x)]
    B.eq_num('score', I(p[0]) + sum(L(t, s) for t, s in enumerate(p)) + F(p[-1])
             + sum(A(i, j) for i, j in zip(p[:-1], p[1:])), best, tol=1e-9)


@contract('P13', symbolic=False, seeds=3, note=NOTE, rng=RANGES, bigram=[False, True])
def phone_counts_range(B, rng, bigram):
    'counts of the phones entered'
    import torch
    s = Loop(B, 2, bigram)
    x = stretch(s, rng)[:, torch.tensor(B.intlist(s.order))]
    I, F, A = s.g.init_log_probs, s.g.final_log_probs, s.g.trans_log_probs
    a, b = [x[0] + I], [F.clone()]
    for t in range(1, s.T):
        a.append(x[t] + torch.logsumexp(a[-1][:, None] + A, dim=0))
        b.insert(0, torch.logsumexp(A + x[s.T - t] + b[0], dim=1))
    a, b = torch.stack(a), torch.stack(b)
    Z = torch.logsumexp(a[-1] + F, dim=0)
    post = (a + b - Z).exp()
    xi = (a[:-1, :, None] + A + (x[1:] + b[1:])[:, None, :] - Z).exp()
    s.loop.expected_log_likelihood(s.loop.sufficient_statistics(s.x))
    st = s.loop.accumulate(s.x)[s.prm]
    B.holds('finite', torch.isfinite(st).all())
    pair = [[float(xi[:, s.end[i], s.start[j]].sum()) for j in range(2)] for i in range(2)]
    first = [float(post[0, s.start[j]]) for j in range(2)]
    if bigram:
        B.eq('counts', st, (2, 2), lambda i, j: pair[i][0] + (pair[i][1] if j else 0))
    else:
        n = [first[j] + pair[0][j] + pair[1][j] for j in range(2)]
        B.eq('counts', st, (2,), lambda j: n[0] + (n[1] if j else 0))


@contract('P04', symbolic=False, seeds=3, note='executed: logits up to 3000 apart', N=[1, 3], scale=[1, 900, 3000])
def categorical_range(B, N, scale):
    'the probabilities of a categorical given by its logits'
    import torch
    D = 4
    like = B.beer.dists.CategoricalLikelihood(D)
    r = scale * B.tensor('logits', (N, D - 1))
    full = torch.cat([r, torch.zeros(N, 1, dtype=r.dtype)], dim=-1)
    v = like.pdfvectors_from_rvectors(r)
    B.eq('pdf vectors', v, (N, D), B.at(torch.cat([r, -torch.logsumexp(full, -1, keepdim=True)], -1)))
    B.eq('probabilities', like.parameters_from_pdfvector(v), (N, D), B.at(torch.softmax(full, -1)))


@contract('P17', symbolic=False, seeds=3, note='executed: inputs of the layer up to 1000')
def bernoulli_range(B):
    'a saturated Bernoulli layer still gives finite, negative log-likelihoods, the better the closer'
    import torch
    l = B.beer.nnet.problayers.BernoulliLayer(3, 4)
    N = 3
    for scale in (1, 30, 1000):
        m = torch.sigmoid(scale * B.tensor('logits', (N, 4)))
        x = (B.tensor('x', (N, 4)) > 0).to(m.dtype)
        llh = l.log_likelihood(x, m)
        B.holds('finite', torch.isfinite(llh).all())
        want = (x * torch.log(m + 1e-6) + (1 - x) * torch.log(1 - m + 1e-6)).sum(-1)
        B.eq('value', llh, (N,), B.at(want), tol=1e-3)


# ----------------------------------------------------------------------
# other units: x -> sqrt(c) x changes the densities by constants only; determinants over- and underflow

UNITS = dict(symbolic=False, seeds=2, note='executed: dimension 20, variances of about 1e-20 and 1e20', c=[1e-20, 1e20])
SCALED = {'normaldiag': dict(mean=.5, diag_cov=1), 'normalfull': dict(mean=.5, cov=1), 'gamma': dict(rate=1),
          'normalgamma': dict(mean=.5, rates=1), 'isonormalgamma': dict(mean=.5, rate=1),
          'normalwishart': dict(mean=.5, scale_matrix=-1)}


def rescaled(B, family, c, lead, tag=''):
    'a family at dimension 20, the same in other units, the change of the log-normaliser'
    F = FAMILIES[family](B, lead, tag, D=20)
    new = [t * c ** SCALED[family].get(k, 0) for k, (t, _, _) in F.par.items()]
    return F, F.cls.from_std_parameters(*new)


def jump(family, F, c):
    'change of the log-normaliser'
    g = {k: r for k, (_, _, r) in F.par.items()}
    lc = math.log(c)
    return {'normaldiag': lambda *n: 10 * lc, 'normalfull': lambda *n: 10 * lc,
            'gamma': lambda *n: -sum(g['shape'](*n, i) for i in range(20)) * lc,
            'normalgamma': lambda *n: -20 * g['shape'](*n, 0) * lc,
            'isonormalgamma': lambda *n: -g['shape'](*n, 0) * lc,
            'normalwishart': lambda *n: -10 * g['dof'](*n, 0) * lc}[family]


@contract('P02', family=list(SCALED), batched=[False, True], **UNITS)
def log_norm_units(B, family, c, batched):
    'the log-normaliser in other units'
    lead = (2,) if batched else ()
    F, d = rescaled(B, family, c, lead)
    j = jump(family, F, c)
    r = d.log_norm()
    B.eq('log_norm', r if batched else r.reshape(-1)[0], lead, lambda *n: F.lognorm(*n) + j(*n), tol=1e-8)


@contract('P02', family=['normalwishart', 'normalgamma', 'isonormalgamma'], batched=[False, True], **UNITS)
def log_precision_units(B, family, c, batched):
    'the expected log-determinant of the precision in other units'
    lead = (2,) if batched else ()
    F, d = rescaled(B, family, c, lead)
    n = 1 if family == 'isonormalgamma' else 20
    B.eq('E[log |precision|]', d.expected_sufficient_statistics()[..., -1], lead,
         lambda *k: F.exp[-1][1](*k, 0) - n * math.log(c), tol=1e-8)


@contract('P03', family=list(SCALED), batched=[False, True], **UNITS)
def kl_units(B, family, c, batched):
    'the divergence does not depend on the units'
    lead = (2,) if batched else ()
    F, p = rescaled(B, family, c, lead)
    G, q = rescaled(B, family, c, lead, '_q')
    import torch
    want = B.beer.dists.kl_div(build(F), build(G)).reshape(-1)
    r = B.beer.dists.kl_div(p, q).reshape(-1)
    B.holds('finite', torch.isfinite(r).all())
    B.eq('kl', r, want.shape, B.at(want), tol=1e-5)


@contract('P04', family=['normaldiag', 'normalfull'], pdfwise=[False, True], **UNITS)
def density_units(B, family, c, pdfwise):
    'the log-density in other units'
    F, d = rescaled(B, family, c, (2,))
    x = B.tensor('x', (2, 20))
    plain, j = build(F), -10 * math.log(c)
    want = plain(plain.sufficient_statistics(x), pdfwise=pdfwise)
    r = d(d.sufficient_statistics(x * math.sqrt(c)), pdfwise=pdfwise)
    B.eq('density', r, want.shape, lambda *n: float(want[n]) + j, tol=1e-6)


WEIGHTS = ['dirichlet', 'dirichlet2', 'dirichlet_process', 'gamma_dirichlet_process', 'hierarchical_dirichlet_process']


def phone_loop(B, prior, mixture, sizes=(2, 1, 3)):
    'a phone loop of three phones (one to three states each) made of real models'
    torch, beer = B.torch, B.beer
    mk = cli.module('hmm.mkphoneloop')
    g = beer.graph.Graph()
    s, e = g.add_state(), g.add_state()
    g.start_state, g.end_state = s, e
    start, end, k = {}, {}, 0
    back = g.add_state()
    g.add_arc(s, back)
    g.add_arc(back, e)
    for n, name in zip(sizes, 'abc'):
        st = [g.add_state(pdf_id=k + i) for i in range(n)]
        start[name], end[name] = k, k + n - 1
        k += n
        g.add_arc(back, st[0])
        for a, b in zip(st, st[1:] + [back]):
            g.add_arc(a, a)
            g.add_arc(a, b)
    g.normalize()
    D = 2
    C = 2 if mixture else 1
    mean = torch.tensor([float(B.at(B.tensor('mean', (D,)))(i)) for i in range(D)])
    pdfs = beer.NormalSet.create(mean, torch.ones(D), size=k * C, prior_strength=1., cov_type='diagonal')
    v = B.tensor('spread', (k * C, D)).float()
    pr = pdfs.means_precisions.posterior
    nat = pr.natural_parameters()
    nat = torch.cat([nat[:, :D] + .5 * v, nat[:, D:]], dim=-1)
    pdfs.means_precisions.posterior.update_from_natural_parameters(nat)
    if mixture:
        pdfs = beer.MixtureSet.create(k, pdfs)
    cls = beer.BigramPhoneLoop if prior in mk.bigram_prior else beer.PhoneLoop
    return cls.create(g.compile(), start, end, beer.JointModelSet([pdfs]), mk.priors[prior](3, 2.))


@contract('P23', symbolic=False, seeds=2, prior=WEIGHTS, mixture=[False, True],
          note='three phones, three utterances, four updates')
def training_through_files(B, prior, mixture):
    '''a real phone loop trained by accumulating and updating, everything read back from files, is the one
    trained in memory, and so is the graph it decodes with'''
    old = B.torch.get_default_dtype()
    B.torch.set_default_dtype(B.torch.float32)
    B.tol = 2e-3
    try:
        m = phone_loop(B, prior, mixture)
        files = cli.Files(B)
        x = {u: B.array('x_' + u, (n, 2)) for u, n in (('u', 7), ('v', 9), ('w', 6))}
        files.put('data', cli.dataset(B, files, x, size=50))
        files.put('0.mdl', m)
        optim = B.beer.VBConjugateOptimizer(m.conjugate_bayesian_parameters(keepgroups=True), lrate=.7)
        for turn in range(4):
            for job in ('uw', 'v'):
                cli.run(B, 'hmm.accumulate', ['-s', '.5', f'{turn}.mdl', 'data', 'elbo.' + job], files, list(job))
            cli.run(B, 'hmm.update', ['-o', 'optim', '-l', '.7', f'{turn}.mdl', f'{turn + 1}.mdl'], files,
                    ['elbo.uw', 'elbo.v'])
            optim.init_step()
            elbo = B.beer.evidence_lower_bound(datasize=50)
            for u in 'uwv':
                elbo = elbo + B.beer.evidence_lower_bound(m, B.torch.from_numpy(x[u]).float(), datasize=50, scale=.5)
            elbo.backward()
            optim.step()
            r = files.get(f'{turn + 1}.mdl')
            P, Q = list(m.bayesian_parameters()), list(r.bayesian_parameters())
            B.holds('parameters', len(P) == len(Q))
            for k, (p, q) in enumerate(zip(P, Q)):
                a = p.posterior.natural_parameters()
                B.eq(f'posterior{k}', q.posterior.natural_parameters(), a.shape, B.at(a))
            A = m.graph.trans_log_probs.exp()
            B.eq('graph', r.graph.trans_log_probs.exp(), A.shape, B.at(A))
            one = B.beer.evidence_lower_bound(m, B.torch.from_numpy(x['v']).float())
            two = B.beer.evidence_lower_bound(r, B.torch.from_numpy(x['v']).float())
            B.eq_num('bound', float(two), float(one))
        said = cli.run(B, 'hmm.decode', ['-s', '.5', '4.mdl', 'data'], files).out
        want = {}
        for u in 'uvw':
            path = [int(i) for i in m.decode(B.torch.from_numpy(x[u]).float(), scale=.5)]
            begins = [t for t, i in enumerate(path) if i in m.start_pdf.values() and (t == 0 or path[t - 1] != i)]
            want[u] = ' '.join(c for t in begins for c in 'abc' if m.start_pdf[c] == path[t])
        B.holds('decoded', sorted(said) == sorted(f'{u} {w}' for u, w in want.items()))
    finally:
        B.torch.set_default_dtype(old)


def equal_states(B, arcs):
    return [dict(start_id=a, end_id=b, trans_prob=1.) for a, b in arcs]


@contract('P25', symbolic=False, seeds=2, classes=[False, True], note='three phones of two states, real models, four epochs')
def subspace_training(B, classes):
    '''creating and training a subspace phone loop on real models: only the emissions of the units move, they are the
    ones of the last posteriors, training in two runs is training in one, and the result decodes'''
    torch = B.torch
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    B.tol = 2e-3
    try:
        m = phone_loop(B, 'dirichlet', True, sizes=(2, 2, 2))
        files = cli.Files(B)
        files.put('ploop', m)
        files.text('conf', ['C'])
        files.yaml = {'C': [dict(group_name='speech-unit', n_normal_per_state=2, topology=equal_states(
            B, [(0, 1), (1, 1), (1, 2), (2, 2), (2, 3)]))]}
        files.text('classes', ['a v', 'b w', 'c v'])
        cli.run(B, 'shmm.mksphoneloop', (['-c', 'classes'] if classes else []) + ['conf', 'ploop', 'gsm', 'posts', 'loop'], files)

        def loaded(f):
            return files.clone(files.get(f))

        def train(e, src, dst, state):
            cli.run(B, 'shmm.train', ['-e', str(e), '-n', '3', '-k', '2', '-s', '.05', '-o', state] +
                    [x + src for x in ('gsm', 'posts', 'loop')] + [x + dst for x in ('gsm', 'posts', 'loop')], files)
        del B.noises[:]
        train(4, '', '.one', 'state.one')
        del B.noises[:]
        train(2, '', '.half', 'state.two')
        train(2, '.half', '.two', 'state.two')
        a, b, z = loaded('posts.one')[0], loaded('posts.two')[0], loaded('posts')[0]
        for k, (p, q) in enumerate(zip(a.parameters(), b.parameters())):
            B.eq(f'resumed{k}', q.data, p.shape, B.at(p.data))
        B.holds('moved', any(not torch.equal(p, q) for p, q in zip(a.parameters(), z.parameters())))
        one, two, start = loaded('loop.one'), loaded('loop.two'), loaded('loop')
        for k, (p, q) in enumerate(zip(one.modelset.bayesian_parameters(), two.modelset.bayesian_parameters())):
            v = p.natural_form()
            B.eq(f'emissions{k}', q.natural_form(), v.shape, B.at(v))
            B.holds('finite', bool(torch.isfinite(v).all()))
        for l in (one, two, start):
            w = l.categorical.weights.posterior.natural_parameters()
            v = m.categorical.weights.posterior.natural_parameters()
            B.eq('weights', w, v.shape, B.at(v))
            A = m.graph.trans_log_probs.exp()
            B.eq('graph', l.graph.trans_log_probs.exp(), A.shape, B.at(A))
        x = B.array('x_u', (8, 2))
        files.put('data', cli.dataset(B, files, {'u': x}, size=8))
        files.put('final', one)
        said = cli.run(B, 'hmm.decode', ['final', 'data'], files).out
        B.holds('decoded', len(said) == 1 and said[0].split()[0] == 'u' and set(said[0].split()[1:]) <= set('abc'))
    finally:
        torch.set_default_dtype(old)
