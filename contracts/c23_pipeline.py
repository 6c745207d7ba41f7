"""P23, P24: the commands (beer/cli) as functions from the files they read to the files they write."""
import math
from . import contract
from . import cli
from .cli import Files, run
from .c19_graph import G, W, hmm, read, same, compiled
from .stubs import modelset


def single(fn):
    'the commands work in single precision'
    def f(B, **kw):
        if B.symbolic:
            return fn(B, **kw)
        B.tol = 2e-4
        B.torch.set_default_dtype(B.torch.float32)
        try:
            return fn(B, **kw)
        finally:
            B.torch.set_default_dtype(B.torch.float64)
    f.__name__, f.__doc__, f.__module__ = fn.__name__, fn.__doc__, fn.__module__
    return f


def arrays(B, names, D, **k):
    'features of several utterances, of any length'
    r, h = {}, {}
    for u in names:
        a = B.array('x_' + u, (B.size('N_' + u), D), **k)
        r[u] = a
        h[u] = B.at(a)
    return r, h


def rows(a):
    return a.shape[0]


@contract('P23', utts=('a', 'ba', 'bca'))
@single
def dataset_create(B, utts):
    'mean, variance and number of the frames of all the utterances'
    D = B.size('D')
    files = Files(B)
    x, h = arrays(B, utts, D)
    files.npz('feats.npz', x)
    run(B, 'dataset.create', ['data', 'feats.npz', 'out.pkl'], files)
    d = files.get('out.pkl')
    N = sum(rows(x[u]) for u in utts)
    B.eq_num('size', d.size, N)
    m = lambda j: sum(B.sum(rows(x[u]), lambda t: h[u](t, j)) for u in utts) / N
    B.eq('mean', d.mean, (D,), m)
    B.eq('var', d.var, (D,), lambda j: sum(
        B.sum(rows(x[u]), lambda t: (h[u](t, j) - m(j)) ** 2) for u in utts) / N)
    B.holds('path', d.feapath == '/abs/feats.npz')
    B.holds('files', sorted(files.data) == ['feats.npz', 'out.pkl'])
    B.holds('features.apart', not holds_features(d))


def holds_features(ds):
    return any(isinstance(v, (dict, cli.Npz)) for v in vars(ds).values())


@contract('P23', utts=('', 'a', 'b10 b9 a', 'c b a d'))
@single
def dataset_access(B, utts):
    'every utterance once, with its own features, in alphabetical order when asked'
    D = B.size('D')
    names = utts.split()
    files = Files(B)
    x, h = arrays(B, names, D)
    ds = cli.dataset(B, files, x)
    mod = cli.importlib.import_module('beer.cli.dataset')
    with cli.outside(B, mod, files):
        for turn in 'first', 'again', 'pickled':
            if turn == 'pickled':
                files.put('d', ds)
                ds = cli.Pickle(files).load(cli.opener(files)('d', 'rb'))
                B.holds('pickled.light', not holds_features(ds))
            B.eq_num('len', len(ds), len(names))
            order = list(ds.utterances(random_order=False))
            B.holds(turn + '.order', [u.id for u in order] == sorted(names))
            shuffled = list(ds.utterances())
            B.holds(turn + '.all', sorted(u.id for u in shuffled) == sorted(names))
            for u in order + shuffled + [ds[n] for n in names]:
                B.eq(turn + '.features', u.features, (rows(x[u.id]), D), h[u.id])
                B.holds('tensor', isinstance(u.features, B.torch.Tensor) and
                        (B.symbolic or u.features.dtype == B.torch.float32))
            for n in names:
                B.holds(turn + '.id', ds[n].id == n)
            B.raises(turn + '.missing', KeyError, lambda: ds['nope'])


def trained(B, D, groups=1, llh=True):
    '''a model with the log-likelihood scale * (w . x_t) + graph and, in every group, one parameter
    whose statistics are the scaled counts of the frames'''
    M = B.beer.models.basemodel.Model
    torch = B.torch

    class Linear(M):
        def __init__(self, params, w):
            super().__init__()
            for k, p in enumerate(params):
                setattr(self, f'param{k}', p)
            self.n = len(params)
            self.w = w

        @property
        def params(self):
            return [getattr(self, f'param{k}') for k in range(self.n)]

        def mean_field_factorization(self):
            return [[p] for p in self.params]

        def sufficient_statistics(self, data):
            return data

        def expected_log_likelihood(self, stats, inference_graph=None, scale=1., **kw):
            if kw:
                raise TypeError(f'unexpected options {kw}')
            self.cache['scale'] = scale
            g = 0. if inference_graph is None else inference_graph.weight
            return scale * (stats * self.w).sum(dim=-1) + g

        def accumulate(self, stats, parent_msg=None):
            s = self.cache['scale'] * stats.sum(dim=0)
            s = torch.cat([s[:-1], s.sum().view(1)])
            return {p: (k + 1) * s for k, p in enumerate(self.params)}

    Linear.__qualname__ = 'Linear'
    globals()['Linear'] = Linear
    ps, h = [], []
    Dir = B.beer.dists.Dirichlet
    for k in range(groups):
        a, b = (B.tensor(f'{n}{k}', (D,), pos=True) for n in ('prior', 'post'))
        h.append((B.at(a), B.at(b)))
        ps.append(B.beer.models.parameters.ConjugateBayesianParameter(
            Dir.from_std_parameters(a), Dir.from_std_parameters(b)))
    w = B.tensor('w', (D,))
    return Linear(ps, w), B.at(w), h


class Ali:
    'stands for an alignment graph'
    def __init__(self, weight):
        self.weight = weight

    def posteriors(self):
        pass


def nat_kl(B, D, a, b):
    'KL divergence of two Dirichlets (posterior b, prior a)'
    sa, sb = B.sum(D, a), B.sum(D, b)
    return B.lgamma(sb) - B.lgamma(sa) + B.sum(D, lambda i: (
        B.lgamma(a(i)) - B.lgamma(b(i)) + (b(i) - a(i)) * (B.digamma(b(i)) - B.digamma(sb))))


LISTS = ('a', 'ab', 'bca', 'xab', 'axb', 'aax', '', 'x')


@contract('P23', listed=LISTS, alis=(False, True), scaled=(False, True))
@single
def hmm_accumulate(B, listed, alis, scaled):
    '''the ELBO of the utterances listed (those of the data set; the others are reported), every one
    with its alignment graph when it has one, scaled by the total size of the data set'''
    D = B.size('D', 2)
    model, w, h = trained(B, D)
    files = Files(B)
    names = 'abc'
    x, xh = arrays(B, names, D, pos=True)
    size = B.integer('datasize', 1)
    files.put('data', cli.dataset(B, files, x, size=size))
    files.put('mdl', model)
    opts, argv = {}, ['mdl', 'data', 'out']
    s = 1
    if scaled:
        s = opts['acoustic_scale'] = B.scalar('scale', pos=True)
    g = dict.fromkeys(names, 0)
    if alis:
        g['a'], g['c'] = B.scalar('ga'), B.scalar('gc')
        files.npz('alis', {u: [Ali(g[u])] for u in 'ac'})
        argv[:0] = ['--alis', 'alis']
    r = run(B, 'hmm.accumulate', argv, files, [u + ' some more words' * k for k, u in enumerate(listed)],
            opts)
    present = [u for u in listed if u in names]
    elbo, count = files.get('out')
    B.eq_num('count', count, len(present))
    kl = nat_kl(B, D, *h[0])
    val = 0
    for u in present:
        N = rows(x[u])
        val = val + size * B.sum(N, lambda t: s * B.sum(D, lambda j: w(j) * xh[u](t, j)) + g[u]) / N - kl
    B.eq_num('value', elbo.value, val)
    B.eq_num('float', float(elbo) if not B.symbolic else elbo.value, val)
    B.holds('warnings', r.log.count('warning', 'error') ==
            len(listed) - len(present) + (present.count('b') if alis else 0))
    B.holds('files', set(files.data) == {'mdl', 'data', 'out', 'feats.npz'} | ({'alis'} if alis else set()))
    if not present:
        return
    # what the update of the parameters gets from it
    m = files.get('mdl')
    elbo.sync(m)
    elbo.backward()
    N = sum(rows(x[u]) for u in present)
    c = lambda j: size * s * sum(B.sum(rows(x[u]), lambda t: xh[u](t, j)) for u in present) / N
    B.eq('stats', m.params[0].stats, (D,), lambda j: B.ite(B.same(j, D - 1), lambda: B.sum(D, c),
                                                           lambda: c(j)))


@contract('P23', jobs=(('ab',), ('a', 'b'), ('ca', 'b'), ('a', 'b', 'c'), ('a', '', 'b')), groups=(1, 2),
          state=(False, True), twice=(False, True))
@single
def hmm_update(B, jobs, groups, state, twice):
    '''accumulating on several machines then updating is one natural gradient step with the statistics
    of all the frames scaled to the size of the data set, one group of parameters at a time'''
    D = B.size('D', 2)
    model, w, h = trained(B, D, groups)
    files = Files(B)
    x, xh = arrays(B, 'abc', D, pos=True)
    size = B.integer('datasize', 1)
    lrate = B.fraction('lrate')
    files.put('data', cli.dataset(B, files, x, size=size))
    files.put('0.mdl', model)
    mdl = '0.mdl'
    utts = ''.join(jobs)
    N = sum(rows(x[u]) for u in utts)
    c = lambda j: size * sum(B.sum(rows(x[u]), lambda t: xh[u](t, j)) for u in utts) / N
    now = [b for a, b in h]
    turns = 2 if twice else 1
    for turn in range(turns):
        for k, j in enumerate(jobs):
            run(B, 'hmm.accumulate', [mdl, 'data', f'elbo{k}'], files, list(j))
        new = f'{turn + 1}.mdl'
        run(B, 'hmm.update', (['-o', 'optim'] if state else []) + [mdl, new], files,
            [f'elbo{k}' for k in range(len(jobs))], {'learning_rate': lrate})
        old, mdl = mdl, new
        g = turn % groups if state else 0
        a, b = h[g][0], now[g]
        now[g] = lambda j, a=a, b=b, g=g: b(j) + lrate * (a(j) + (g + 1) * c(j) - b(j))
        m = files.get(mdl)
        for k, p in enumerate(m.params):
            B.eq(f'posterior{k}', p.posterior.params.concentrations, (D,), now[k])
            B.eq(f'prior{k}', p.prior.params.concentrations, (D,), h[k][0])
    B.eq('input', files.get('0.mdl').params[0].posterior.params.concentrations, (D,), h[0][1])


class Phones:
    'stands for a phone loop: answers as given'

    def __init__(self, start_pdf, end_pdf, **methods):
        self.start_pdf, self.end_pdf = start_pdf, end_pdf
        self.__dict__.update(methods)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise AttributeError("Can't pickle local")


def listing(files, how, names):
    'the three ways of giving the utterances: options and standard input'
    if how == 'all':
        return [], []
    lines = [n + ' words of it' * k for k, n in enumerate(names)]
    if how == 'stdin':
        return ['-u', '-'], lines
    files.text('utts', lines)
    return ['--utts', 'utts'], []


@contract('P23', how=('all', 'stdin', 'file'), state=(False, True), log=(False, True))
@single
def hmm_posteriors(B, how, state, log):
    '''the posterior probability of a phone is the sum of those of its states, the last one
    included; one file per utterance'''
    D, K = B.size('D'), B.size('K', 3)
    names = {'all': 'abc', 'stdin': 'cxa', 'file': 'ba'}[how]
    files = Files(B)
    x, xh = arrays(B, 'cab', D, pos=True)
    files.put('data', cli.dataset(B, files, x))
    w = B.tensor('w', (D, K), pos=True)
    wh = B.at(w)
    # three phones: the states up to e1, up to e2, and the others
    e1, e2 = B.integer('e1', 0, K - 2), B.integer('n', 0, K - 2)
    e2 = e1 + 1 + e2
    B.assume(e2 + 1 < K)
    start = {'p': 0, 'q': e1 + 1, 'r': e2 + 1}
    end = {'p': e1, 'q': e2, 'r': K - 1}
    # by default the scores are not scaled
    scaled = how != 'all'
    s = B.scalar('scale', pos=True) if scaled else 1.
    seen = []

    def posteriors(features, inference_graph=None, scale=1.):
        return scale * features.matmul(w)
    files.data['mdl'] = ('pickle', Phones(start, end, posteriors=posteriors))
    opt, stdin = listing(files, how, names)
    before = set(files.data)
    r = run(B, 'hmm.posteriors', opt + ['-S'] * state + ['-l'] * log + ['mdl', 'data', 'dir'],
            files, stdin, {'acoustic_scale': s} if scaled else {})
    B.holds('files', set(files.data) - before == {f'dir/{n}.npy' for n in names if n in x})
    B.holds('warnings', r.log.count('warning', 'error') == len([n for n in names if n not in x]))
    for u in names:
        if u not in x:
            continue
        N = rows(x[u])
        p = lambda t, k: s * B.sum(D, lambda j: xh[u](t, j) * wh(j, k))
        if state:
            f, n = p, K
        else:
            rng = list(zip(start.values(), end.values()))

            def f(t, i):
                a, b = rng[int(i)]
                return B.sum(b - a + 1, lambda k: p(t, a + k))
            n = 3
        g = (lambda t, i: B.log(f(t, i) + 1e-5)) if log else f
        B.eq(u, files.get(f'dir/{u}.npy'), (N, n), g)


@contract('P23', symbolic=False, seeds=1, nstates=((1, 1), (2, 1), (1, 3), (2, 2), (3, 2, 1)),
          note='sequences of up to three phones of up to three states, up to two frames per state')
def hmm_decode_path(B, nstates):
    '''the phones of a sequence of states: a phone begins where its first state is entered
    (a phone of a single state followed by itself cannot be told from one longer phone)'''
    import itertools
    start, end, k = {}, {}, 0
    for p, n in enumerate(nstates):
        start['uvw'[p]], end['uvw'[p]] = k, k + n - 1
        k += n
    phones = list(start)
    paths, want = {}, {}
    for n in (1, 2, 3):
        for seq in itertools.product(phones, repeat=n):
            if any(a == b and nstates[phones.index(a)] == 1 for a, b in zip(seq, seq[1:])):
                continue
            states = [(i, start[p] + j) for i, p in enumerate(seq)
                      for j in range(nstates[phones.index(p)])]
            durs = list(itertools.product((1, 2), repeat=len(states)))
            if len(durs) > 64:
                durs = durs[::len(durs) // 64]
            for dur in durs:
                u = f'{len(paths)}'
                paths[u] = [s for (i, s), d in zip(states, dur) for _ in range(d)]
                want[u] = ' '.join(seq), ' '.join(seq[i] for (i, s), d in zip(states, dur) for _ in range(d))
    files = Files(B)
    files.put('data', cli.dataset(B, files, {u: B.np.full((1, 1), float(u)) for u in paths}))
    decode = lambda x, **k: B.torch.LongTensor(paths[str(int(x[0, 0]))])
    files.data['mdl'] = ('pickle', Phones(start, end, decode=decode))
    for k in 0, 1:
        r = run(B, 'hmm.decode', ['--per-frame'] * k + ['mdl', 'data'], files)
        B.holds('per frame' if k else 'phones', sorted(r.out) == sorted(
            f'{u} {want[u][k]}' for u in paths))


@contract('P23', symbolic=False, seeds=1, note='two phones, states in any order after the first')
def hmm_decode_any_order(B):
    'units whose states are skipped or come back: same phones'
    import itertools
    runs = {'u': [[0], [0, 1, 2], [0, 2], [0, 2, 1], [0, 1, 2, 1, 1, 2]], 'v': [[3, 4], [3], [3, 5, 4, 5]]}
    paths, want = {}, {}
    for n in (1, 2, 3):
        for seq in itertools.product('uv', repeat=n):
            for r in itertools.product(*[runs[p] for p in seq]):
                if any(a == [q[0]] and p == o for p, o, a, q in zip(seq, seq[1:], r, r[1:])):
                    continue
                u = f'{len(paths)}'
                paths[u] = sum(r, [])
                want[u] = ' '.join(seq), ' '.join(p for p, q in zip(seq, r) for _ in q)
    files = Files(B)
    files.put('data', cli.dataset(B, files, {u: B.np.full((1, 1), float(u)) for u in paths}))
    decode = lambda x, **k: B.torch.LongTensor(paths[str(int(x[0, 0]))])
    files.data['mdl'] = ('pickle', Phones({'u': 0, 'v': 3}, {'u': 2, 'v': 5}, decode=decode))
    for k in 0, 1:
        r = run(B, 'hmm.decode', ['--per-frame'] * k + ['mdl', 'data'], files)
        B.holds('per frame' if k else 'phones', sorted(r.out) == sorted(f'{u} {want[u][k]}' for u in paths))


@contract('P23', how=('all', 'stdin', 'file'), alis=(False, True), per_frame=(False, True))
@single
def hmm_decode(B, how, alis, per_frame):
    'one line per utterance: its name and its phones, the best path of its own graph'
    names = {'all': 'abc', 'stdin': 'cxa', 'file': 'ba'}[how]
    files = Files(B)
    x = {u: B.array('x_' + u, (n, 2)) for u, n in (('c', 2), ('a', 3), ('b', 5))}
    files.put('data', cli.dataset(B, files, x))
    start, end = {'p': 0, 'q': 2, 'r': 3}, {'p': 1, 'q': 2, 'r': 4}
    paths = {2: [0, 1], 3: [2, 3, 4], 5: [3, 4, 0, 0, 1]}
    other = {2: [2, 2], 3: [0, 1, 2], 5: [0] * 5}
    # by default the scores are not scaled
    scaled = how != 'all'
    s = B.scalar('scale', pos=True) if scaled else 1.
    seen = []

    def decode(features, inference_graph=None, scale=1.):
        seen.append(scale)
        n = int(features.shape[0])
        return B.torch.LongTensor((paths if inference_graph is None else other)[n])
    files.data['mdl'] = ('pickle', Phones(start, end, decode=decode))
    argv, stdin = listing(files, how, names)
    if alis:
        files.npz('alis', {u: [Ali(0)] for u in 'ac'})
        argv = argv + ['-a', 'alis']
    r = run(B, 'hmm.decode', argv + ['--per-frame'] * per_frame + ['mdl', 'data'], files, stdin,
            {'acoustic_scale': s} if scaled else {})
    for v in seen:
        B.eq_num('scale', v, s)
    text = {2: 'p|p p', 3: 'q r|q r r', 5: 'r p|r r p p p'} if not alis else \
        {2: 'q|q q', 3: 'p q|p p q', 5: 'r p|r r p p p'}
    want = [u + ' ' + text[int(x[u].shape[0])].split('|')[per_frame] for u in names if u in x]
    B.holds('output', r.out == want)
    missing = len([u for u in names if u not in x]) + ('b' in names if alis else 0)
    B.holds('warnings', r.log.count('warning', 'error') == missing)


# ----------------------------------------------------------------------
# graphs

def chain(w, n, skip=False):
    'topology of n emitting states: the arcs of the configuration file'
    arcs = [(0, 1, w())]
    for k in range(1, n + 1):
        arcs += [(k, k, w()), (k, k + 1, w())]
        # a single last state
        if skip and k + 2 <= n:
            arcs.append((k, k + 2, w()))
    return arcs


def ergodic(w, n=3):
    'a first state, n states in any order, a last one'
    mid = range(2, n + 2)
    arcs = [(0, 1, w()), (1, 1, w()), (n + 2, n + 2, w()), (n + 2, n + 3, w())]
    arcs += [(1, j, w()) for j in mid] + [(i, j, w()) for i in mid for j in [*mid, n + 2]]
    return arcs


def unit(arcs, pdf):
    'the abstract graph of a topology, its pdf ids from pdf on'
    n = 1 + max(b for _, b, _ in arcs)
    return G([None] + [pdf + k for k in range(n - 2)] + [None], {(a, b): w for a, b, w in arcs}, 0, n - 1)


def identity(g):
    g.id = {s: s for s in range(len(g.pdfs))}
    return g


def normalized(g):
    tot = {}
    for (i, j), w in g.arcs.items():
        tot[i] = tot.get(i, 0) + w
    return G(g.pdfs, {(i, j): w / tot[i] for (i, j), w in g.arcs.items()}, g.start, g.end, g.order)


INVENTORIES = {
    'one': ([('speech', 'chain', 2)], ['a speech']),
    'two': ([('speech', 'chain', 3)], ['a speech', 'b speech']),
    'groups': ([('noise', 'ergodic', 2), ('speech', 'chain', 2)],
               ['a speech', 'sil noise', 'b speech', 'spn noise']),
    'order': ([('speech', 'skip', 3), ('noise', 'chain', 1)], ['sil noise', 'b speech', 'a speech']),
}
# a group larger than the others
LARGEST = {
    'two3': INVENTORIES['two'],
    'groups3': ([('noise', 'ergodic', 2), ('speech', 'chain', 3)],
                ['a speech', 'sil noise', 'b speech', 'spn noise', 'c speech']),
    'order3': ([('speech', 'chain', 3), ('noise', 'chain', 1)], ['d speech', 'sil noise', 'a speech', 'e speech']),
}


class Conf:
    'configuration, units and expected graphs of an inventory'

    def __init__(self, B, files, inventory, noise=None, cov=(('diagonal', False),)):
        groups, lines = {**INVENTORIES, **LARGEST}[inventory]
        self.groups, self.lines = groups, lines
        self.members = {g: [x.split()[0] for x in lines if x.split()[1] == g] for g, _, _ in groups}
        self.names = [u for g, _, _ in groups for u in self.members[g]]
        conf, self.unit, pdf = [], {}, 0
        self.ncomp, self.strength, self.noise = {}, {}, {}
        for k, (g, kind, n) in enumerate(groups):
            w = W(B, g)
            arcs = {'chain': chain, 'skip': lambda w, n: chain(w, n, True), 'ergodic': ergodic}[kind](w, n)
            self.ncomp[g] = k + 2
            self.strength[g] = B.scalar(f'strength_{g}', pos=True)
            self.noise[g] = 0. if noise is None else noise(g)
            conf.append(dict(
                group_name=g, n_normal_per_state=k + 2, prior_strength=self.strength[g],
                noise_std=self.noise[g], cov_type=cov[k % len(cov)][0], shared_cov=cov[k % len(cov)][1],
                # the order of the arcs in the file is irrelevant
                topology=[dict(start_id=a, end_id=b, trans_prob=w) for a, b, w in arcs[::-1]]))
            for u in self.members[g]:
                self.unit[u] = unit(arcs, pdf)
                pdf += len(self.unit[u].pdfs) - 2
        self.npdfs = pdf
        files.yaml = {'the configuration': conf}
        files.text('conf', ['the configuration'])
        files.text('units', lines)

    def first(self, u):
        return self.unit[u].pdfs[1]

    def last(self, u):
        return self.unit[u].pdfs[-2]


@contract('P24', inventory=list(INVENTORIES), source=('dataset', 'dimension'), seeds=3)
@single
def hmm_mkphones(B, inventory, source):
    '''one left-to-right HMM per unit with the topology of its group, consecutive pdf ids; one
    mixture per state, as configured for the group, around the statistics of the data'''
    files = Files(B)
    c = Conf(B, files, inventory, lambda g: B.scalar('noise_' + g, pos=True))
    if source == 'dataset':
        D = B.size('D')
        m, v = B.tensor('mean', (D,)), B.tensor('var', (D,), pos=True)
        mh, vh = B.at(m), B.at(v)
        d = cli.dataset(B, files, {}, size=1)
        d.mean, d.var = m, v
        files.put('data', d)
        argv = ['-d', 'data']
    else:
        D, mh, vh = 3, lambda j: 0, lambda j: 1
        argv = ['--dimension', '3']
    run(B, 'hmm.mkphones', argv + ['conf', 'units', 'out'], files)
    units, emissions = files.get('out')
    B.holds('units', list(units) == c.names)
    for u in c.names:
        want = identity(c.unit[u])
        same(B, u, read(units[u]), want.content())
        B.holds(u + '.ends', units[u].start_state == want.start and units[u].end_state == want.end)
    B.eq_num('size', B.length(emissions), c.npdfs)
    B.holds('groups', len(emissions.modelsets) == len(c.groups))
    for k, (g, _, _) in enumerate(c.groups):
        e = emissions.modelsets[k]
        S = sum(len(c.unit[u].pdfs) - 2 for u in c.members[g])
        n = c.ncomp[g]
        B.eq_num(g + '.states', B.length(e), S)
        B.eq_num(g + '.comps', B.length(e.modelset), S * n)
        a = e.categoricalset.weights.prior.params.concentrations
        B.eq(g + '.weights', a, (S, n), lambda i, j: c.strength[g] / n)
        z = B.at(B.noise(k))
        for tag in 'prior', 'posterior':
            p = getattr(e.modelset.means_precisions, tag).params
            B.eq(f'{g}.{tag}.means', p.mean, (S * n, D), lambda i, j: mh(j) + (
                z(i, j) * c.noise[g] * B.sqrt(vh(j)) if tag == 'posterior' else 0))
            B.eq(f'{g}.{tag}.rates', p.rates, (S * n, D), lambda i, j: c.strength[g] * vh(j))
            B.eq(f'{g}.{tag}.scale', p.scale.reshape(S * n, 1), (S * n, 1), lambda i, j: c.strength[g])
            B.eq(f'{g}.{tag}.shape', p.shape.reshape(S * n, 1), (S * n, 1), lambda i, j: c.strength[g])


COVS = (('diagonal', True), ('isotropic', False)), (('full', False), ('isotropic', True)), \
    (('isotropic', False), ('full', True))


@contract('P24', cov=COVS, inventory=('one', 'groups', 'order'), seeds=2)
@single
def hmm_mkphones_covariance(B, cov, inventory):
    'every group has the emissions its configuration declares (those of NormalSet.create, P15)'
    files = Files(B)
    c = Conf(B, files, inventory, cov=cov)
    D = B.size('D')
    m, v = B.tensor('mean', (D,)), B.tensor('var', (D,), pos=True)
    d = cli.dataset(B, files, {}, size=1)
    d.mean, d.var = m, v
    files.put('data', d)
    run(B, 'hmm.mkphones', ['-d', 'data', 'conf', 'units', 'out'], files)
    units, emissions = files.get('out')
    B.holds('groups', len(emissions.modelsets) == len(c.groups))
    for k, (g, _, _) in enumerate(c.groups):
        S = sum(len(c.unit[u].pdfs) - 2 for u in c.members[g])
        kind, shared = cov[k % len(cov)]
        ref = B.beer.NormalSet.create(mean=m, cov=v, size=S * c.ncomp[g], prior_strength=c.strength[g],
                                      noise_std=0., cov_type=kind, shared_cov=shared)
        got = emissions.modelsets[k].modelset
        B.holds(g + '.class', type(got) is type(ref))
        for p, q in zip(got.mean_field_factorization()[0], ref.mean_field_factorization()[0]):
            for tag in 'prior', 'posterior':
                x, y = (getattr(z, tag).natural_parameters() for z in (p, q))
                B.holds(f'{g}.{tag}.class', type(getattr(p, tag)) is type(getattr(q, tag)))
                B.eq(f'{g}.{tag}', x, y.shape, B.at(y))


def loop(c, group):
    'the abstract phone-loop graph: start, end, pivot, then the units in the order of the file'
    names = [x.split()[0] for x in c.lines]
    of = dict(x.split() for x in c.lines)
    num = {u: 3 + k for k, u in enumerate(names)}
    arcs = {}
    for u in names:
        arcs[2, num[u]] = arcs[num[u], 2] = 1
    for s in [num[u] for u in names if of[u] == group] if group else [2]:
        arcs[0, s] = arcs[s, 1] = 1
    return G([None] * (3 + len(names)), arcs, 0, 1), num


GROUPS = [dict(inventory=i, group=g) for i in INVENTORIES for g in ('', 'speech', 'noise')
          if not g or any(g == x for x, _, _ in INVENTORIES[i][0])]


@contract('P24', GROUPS, seeds=1)
@single
def hmm_mkphoneloopgraph(B, inventory, group):
    '''any sequence of units, beginning and ending with a unit of the given group; every choice
    equally likely'''
    files = Files(B)
    c = Conf(B, files, inventory)
    run(B, 'hmm.mkphoneloopgraph', (['-s', group] if group else []) + ['units', 'out'], files)
    g = files.get('out')
    want, num = loop(c, group)
    want = normalized(want)
    sym = {u: s for s, u in g.symbols.items()}
    B.holds('symbols', set(num) <= set(sym) and len(sym) == len(num) + 3 and
            set(sym.values()) == set(g.states()))
    want.id = {num[u]: sym[u] for u in num}
    want.id.update({0: g.start_state, 1: g.end_state})
    want.id[2], = set(g.states()) - set(want.id.values())
    same(B, 'graph', read(g), want.content())


def decoding(B, files, c, group):
    run(B, 'hmm.mkphones', ['-D', '2', 'conf', 'units', 'hmms'], files)
    run(B, 'hmm.mkphoneloopgraph', (['-s', group] if group else []) + ['units', 'loop'], files)
    run(B, 'hmm.mkdecodegraph', ['loop', 'hmms', 'graph'], files)


def unfolded(c, group):
    'the abstract decoding graph: the units replaced by their HMMs'
    g, num = loop(c, group)
    for u in c.names:
        g, ren, off = g.substitute(num[u], c.unit[u])
        num = {v: ren[s] for v, s in num.items() if v != u}
    return normalized(g)


@contract('P24', GROUPS, seeds=2, timeout=120)
@single
def hmm_mkdecodegraph(B, inventory, group):
    '''every unit of the phone loop replaced by its HMM, with its first and last states; the
    states of the compiled graph in the order of their pdfs'''
    files = Files(B)
    c = Conf(B, files, inventory)
    decoding(B, files, c, group)
    graph, start, end = files.get('graph')
    B.holds('order', list(start) == c.names and list(end) == c.names)
    for u in c.names:
        B.eq_num('first', start[u], c.first(u))
        B.eq_num('last', end[u], c.last(u))
    cg = graph.compile()
    B.holds('mapping', list(cg.pdf_id_mapping) == list(range(c.npdfs)))
    compiled(B, cg, unfolded(c, group))


PRIORS = {'dirichlet': 'Categorical', 'dirichlet2': 'CategoricalSet', 'dirichlet_process': 'SBCategorical',
          'gamma_dirichlet_process': 'SBCategoricalHyperPrior',
          'hierarchical_dirichlet_process': 'SBCategoricalSet', '': 'SBCategoricalHyperPrior'}


@contract('P24', inventory=('two', 'groups', 'order'), prior=list(PRIORS), conc=(False, True), seeds=1)
@single
def hmm_mkphoneloop(B, inventory, prior, conc):
    '''a phone loop over the decoding graph with the declared prior over the phones, worth half a
    pseudo-observation per phone unless told otherwise'''
    files = Files(B)
    c = Conf(B, files, inventory)
    decoding(B, files, c, '')
    n = len(c.names)
    s = B.scalar('concentration', pos=True) if conc else n / 2
    argv = ['--weights-prior', prior] if prior else []
    r = run(B, 'hmm.mkphoneloop', argv + ['graph', 'hmms', 'out'], files,
            options={'concentration': s} if conc else {})
    m = files.get('out')
    bigram = prior in ('dirichlet2', 'hierarchical_dirichlet_process')
    B.holds('class', type(m) is (B.beer.BigramPhoneLoop if bigram else B.beer.PhoneLoop))
    B.holds('phones', list(m.start_pdf) == c.names and list(m.end_pdf) == c.names)
    for u in c.names:
        B.eq_num('first', m.start_pdf[u], c.first(u))
        B.eq_num('last', m.end_pdf[u], c.last(u))
    B.eq_num('emissions', B.length(m.modelset), c.npdfs)
    cat = m.categoricalset if bigram else m.categorical
    B.holds('prior', type(cat) is getattr(B.beer, PRIORS[prior]))
    cls = type(cat)
    if prior.startswith('dirichlet') and prior[9:] in ('', '2'):
        a = cat.weights.prior.params.concentrations
        B.eq('concentrations', a, (n,) * (2 if bigram else 1), lambda *i: s / n)
    else:
        if prior == 'dirichlet_process':
            ref = cls.create(truncation=n, prior_strength=s)
        elif bigram:
            ref = cls.create(n, B.beer.SBCategorical.create(truncation=n, prior_strength=s), prior_strength=s)
        else:
            ref = cls.create(truncation=n, prior_strength=s, hyper_prior_strength=1.)
        for p, q in zip(cat.bayesian_parameters(), ref.bayesian_parameters()):
            for tag in 'prior', 'posterior':
                x, y = (getattr(z, tag).natural_parameters() for z in (p, q))
                B.eq('prior.' + tag, x, y.shape, B.at(y))
    # every transition of the graph, but for those between phones which follow the weights
    g = unfolded(c, '')
    A = m.graph.trans_log_probs.exp()
    em = g.emitting
    firsts, lasts = [c.first(u) for u in c.names], [c.last(u) for u in c.names]
    mean = B.at(cat.mean)
    stats = cat.sufficient_statistics(B.torch.eye(n, dtype=cat.mean.dtype))
    lw = cat.expected_log_likelihood(stats).exp()
    for k, i in enumerate(em):
        w = g.next(i)
        d, off = w.get(i, 0), sum(v for j, v in w.items() if j != i)
        for l, j in enumerate(em):
            v = w.get(j, 0)
            if j != i and d:
                # what the self-loop leaves
                v = (1 - d) * v / off
            if g.pdfs[i] in lasts and g.pdfs[j] in firsts:
                a, b = lasts.index(g.pdfs[i]), firsts.index(g.pdfs[j])
                v = (1 - d) * (lw[b, a] if bigram else lw[b])
            B.eq_num('transitions', A[g.pdfs[i], g.pdfs[j]], v)


@contract('P24', inventory=('two', 'order'), prior=('dirichlet2', 'hierarchical_dirichlet_process'), seeds=1)
@single
def hmm_mkphoneloopbigram(B, inventory, prior):
    'the bigram phone loop: graph, phones and emissions of the unigram phone loop'
    files = Files(B)
    c = Conf(B, files, inventory)
    decoding(B, files, c, '')
    n = len(c.names)
    run(B, 'hmm.mkphoneloop', ['--weights-prior', 'dirichlet_process', 'graph', 'hmms', 'uni'], files)
    run(B, 'hmm.mkphoneloopbigram', ['--weights-prior', prior, 'uni', 'out'], files)
    u, m = files.get('uni'), files.get('out')
    B.holds('class', type(m) is B.beer.BigramPhoneLoop)
    B.holds('prior', type(m.categoricalset) is getattr(B.beer, PRIORS[prior]))
    B.holds('phones', list(m.start_pdf.items()) == list(u.start_pdf.items()) and
            list(m.end_pdf.items()) == list(u.end_pdf.items()))
    if prior == 'dirichlet2':
        B.eq('concentrations', m.categoricalset.weights.prior.params.concentrations, (n, n),
             lambda i, j: 1 / n)
    for p, q in zip(m.modelset.bayesian_parameters(), u.modelset.bayesian_parameters()):
        x, y = p.posterior.natural_parameters(), q.posterior.natural_parameters()
        B.eq('emissions', x, y.shape, B.at(y))
    B.holds('mapping', list(m.graph.pdf_id_mapping) == list(u.graph.pdf_id_mapping))
    B.eq('initial', m.graph.init_log_probs, u.graph.init_log_probs.shape, B.at(u.graph.init_log_probs))


@contract('P24', lines=('u a b|v b', 'v|u a a a', 'u b', 'u a|v c a a b|w', 'u a b a'), seeds=2)
@single
def hmm_mkaligraph(B, lines):
    '''one alignment graph per transcribed utterance, as an array the other commands read: the HMMs
    of its phones one after the other, from the first state to the last'''
    w = W(B)
    hmms = {'a': hmm(w, 2, 0), 'b': hmm(w, 1, 2), 'c': hmm(w, 3, 3, skip=True)}
    graphs = {p: h.build(B) for p, h in hmms.items()}
    files = Files(B)
    files.data['hmms'] = ('pickle', (graphs, None))
    r = run(B, 'hmm.mkaligraph', ['hmms', 'dir'], files, lines.split('|'))
    want = {x.split()[0]: x.split()[1:] for x in lines.split('|')}
    B.holds('files', {p for p in files.data if p.startswith('dir')} ==
            {f'dir/{u}.npy' for u, s in want.items() if s})
    B.holds('errors', r.log.count('warning', 'error') == len([1 for s in want.values() if not s]))
    for u, phones in want.items():
        if not phones:
            continue
        n = len(phones)
        g = G([None] * (n + 2), {(k, k + 1): 1 for k in range(n + 1)}, 0, n + 1)
        num = list(range(1, n + 1))
        for k, p in enumerate(phones):
            g, ren, off = g.substitute(num[k], hmms[p])
            num = [ren.get(s) for s in num]
        kind, x = files.data[f'dir/{u}.npy']
        B.holds('format', kind == 'npy' and len(x) == 1)
        compiled(B, x[0], normalized(g), u + '.')
    for p in hmms:
        same(B, 'frame', read(files.get('hmms')[0][p]), hmms[p].content())


@contract('P24', symbolic=False, seeds=1, note='one inventory of names')
def hmm_phonelist(B):
    'the phones of a set of HMMs, in natural order'
    files = Files(B)
    names = ['au10', 'au2', 'sil', 'AU1', 'b']
    files.put('hmms', ({n: None for n in names}, None))
    r = run(B, 'hmm.phonelist', ['hmms'], files)
    B.holds('list', r.out == ['AU1', 'au2', 'au10', 'b', 'sil'])


# ----------------------------------------------------------------------
# features

class Recorder:
    'stands for a function of beer.features: its arguments by name, an arbitrary result'

    def __init__(self, real, results):
        import inspect
        self.sig, self.results, self.calls = inspect.signature(real), list(results), []

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        self.calls.append(b.arguments)
        return self.results[len(self.calls) - 1]


STEPS = [dict(fbank=f, dct=d, energy=e, deltas=o, mnorm=m)
         for f, d, e, o, m in ((1, 1, 1, 2, 0), (1, 1, 0, 1, 1), (1, 0, 1, 0, 1), (1, 0, 0, 3, 0),
                               (0, 0, 0, 0, 0), (0, 0, 1, 2, 1), (1, 1, 1, 0, 0), (1, 1, 0, 0, 1))]


@contract('P24', STEPS, listed=('file', 'stdin'), seeds=2)
@single
def features_extract(B, fbank, dct, energy, deltas, mnorm, listed):
    '''one file per utterance: filtered spectrum, logarithm, cosine transform, liftering, energy,
    derivatives and mean normalisation, every step according to the configuration'''
    feats = B.beer.features
    files = Files(B)
    L, C = 8, 3
    F = B.size('F') if fbank else L // 2
    K = B.size('K') if fbank else L // 2
    sc = lambda n: B.scalar(n, pos=True)
    conf = dict(srate=B.integer('srate', 1), preemph=sc('preemph'), window_len=sc('window_len'),
                framerate=sc('framerate'), apply_fbank=bool(fbank), nfilters=F,
                cutoff_hfreq=sc('high'), cutoff_lfreq=sc('low'), apply_deltas=deltas > 0,
                delta_order=deltas, delta_winlen=3, apply_dct=bool(dct), n_dct_coeff=C,
                lifter_coeff=sc('lifter'), utt_mnorm=bool(mnorm), add_energy=bool(energy))
    if not fbank:
        del conf['delta_winlen'], conf['n_dct_coeff']
    files.yaml = {'the configuration': conf}
    files.text('conf', ['the configuration'])
    utts = {'one': 'one.wav', 'two': 'sph2pipe two.sph |'}
    wavs = {}
    for u in utts:
        x = B.array('s_' + u, (B.size('T_' + u),))
        wavs[u] = x
    lines = [f'{u} {p}' for u, p in utts.items()]
    if listed == 'file':
        files.text('wavs', lines)

    def read(f):
        if not isinstance(f, str):
            f = f.read().decode()
        u, = [u for u, p in utts.items() if p.rstrip(' |') == f]
        return conf['srate'], wavs[u]

    PIPE = object()

    def command(cmd, shell=False, stdout=None, **k):
        if not shell or stdout is not PIPE:
            raise ValueError
        r = cli.Result()
        r.stdout = cmd.strip().encode()
        return r

    N = {u: B.size('N_' + u) for u in utts}
    mag = {u: B.array('m_' + u, (N[u], K), pos=True) for u in utts}
    magh = {u: B.at(m) for u, m in mag.items()}
    w = B.array('w', (F, K), pos=True)
    wh = B.at(w)
    width = (C if dct else F) + energy
    E = B.size('E')
    full = {u: B.array('d_' + u, (N[u], E)) for u in utts}
    fullh = {u: B.at(d) for u, d in full.items()}
    stubs = dict(short_term_mspec=Recorder(feats.short_term_mspec, [(mag[u], L) for u in utts]),
                 create_fbank=Recorder(feats.create_fbank, [w, w]),
                 add_deltas=Recorder(feats.add_deltas, [full[u] for u in utts]))
    ns = cli.types.SimpleNamespace
    extra = dict(wavfile=ns(read=read), subprocess=ns(run=command, PIPE=PIPE))
    args = ['conf', 'wavs' if listed == 'file' else '-', 'dir']
    with cli.patched(feats, stubs):
        run(B, 'features.extract', args, files, [] if listed == 'file' else lines, **extra)
        # a signal at another rate is refused
        B.raises('rate', SystemExit, lambda: run(
            B, 'features.extract', args, files, [] if listed == 'file' else lines,
            **{**extra, 'wavfile': ns(read=lambda f: (conf['srate'] + 1, wavs['one']))}))
        conf['unknown'] = 1
        B.raises('unknown', SystemExit, lambda: run(
            B, 'features.extract', args, files, [] if listed == 'file' else lines, **extra))
        del conf['unknown']
    # the default
    conf.setdefault('delta_winlen', 2)
    B.holds('files', {p for p in files.data if p.startswith('dir')} == {f'dir/{u}.npy' for u in utts})
    norm = B.sqrt(2 / F)
    for i, u in enumerate(utts):
        a = stubs['short_term_mspec'].calls[i]
        B.eq(u + '.signal', a['signal'], wavs[u].shape, B.at(wavs[u]))
        for k, o in (('flen', 'window_len'), ('frate', 'framerate'), ('preemph', 'preemph'),
                     ('srate', 'srate')):
            B.eq_num('spectrum.' + k, a[k], conf[o])
        B.holds('window', a['window'] is B.np.hamming or not B.symbolic)
        if fbank:
            a = stubs['create_fbank'].calls[i]
            for k, o in (('nfilters', F), ('fft_len', L), ('srate', conf['srate']),
                         ('lowfreq', conf['cutoff_lfreq']), ('highfreq', conf['cutoff_hfreq'])):
                B.eq_num('filters.' + k, a[k], o)
            B.holds('filters.scale', a['hz2scale'] is feats.hz2mel and a['scale2hz'] is feats.mel2hz)
        m = magh[u]

        def mel(t, f, m=m):
            v = B.sum(K, lambda k: m(t, k) * wh(f, k)) if fbank else m(t, f)
            return B.log(v + 1e-6)

        def cepstrum(t, c):
            l = conf['lifter_coeff']
            return norm * (1 + l / 2 * B.sin(B.pi * (c + 1) / l)) * B.sum(
                F, lambda f: mel(t, f) * B.cos(B.pi * (c + 1) * (f + .5) / F))
        base = cepstrum if dct else mel

        def static(t, c):
            if not energy:
                return base(t, c)
            total = lambda: norm * B.sum(F, lambda f: mel(t, f))
            if not B.symbolic:
                return base(t, c - 1) if c else total()
            return B.ite(c >= 1, base(t, c - 1), total())
        y = files.get(f'dir/{u}.npy')
        n, f = width, static
        if deltas:
            a = stubs['add_deltas'].calls[i]
            B.eq(u + '.static', a['fea'], (N[u], width), static)
            B.holds('windows', tuple(a['winlens']) == (conf['delta_winlen'],) * deltas)
            n, f = E, fullh[u]
        g = f
        if mnorm:
            g = lambda t, c: f(t, c) - B.sum(N[u], lambda s: f(s, c)) / N[u]
        B.eq(u, y, (N[u], n), g)


class Utterances:
    'stands for a data set: the utterances in a given order'

    def __init__(self, B, x, size):
        self.x, self.size, self.B = x, size, B

    def __len__(self):
        return len(self.x)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise AttributeError("Can't pickle local")

    def utterances(self, random_order=True):
        ds = cli.importlib.import_module('beer.cli.dataset')
        for u, a in self.x.items():
            yield ds.Utterance(id=u, features=self.B.torch.from_numpy(a).float())


@contract('P23', batch=(('a', None), ('ab', None), ('abc', 3), ('ab', 1), ('abcd', 2), ('abc', 2)), groups=(1, 2),
          epochs=(1, 2))
@single
def hmm_train(B, batch, groups, epochs):
    '''every batch is one natural gradient step, the groups of parameters in turn, with the
    statistics of its frames scaled to the size of the data set; what is left after the last whole
    batch of an epoch has no effect'''
    D = B.size('D', 2)
    names, n = batch
    model, w, h = trained(B, D, groups)
    files = Files(B)
    x, xh = arrays(B, names, D, pos=True)
    size = B.integer('datasize', 1)
    lrate = B.fraction('lrate')
    files.put('data', Utterances(B, x, size))
    files.put('mdl', model)
    r = run(B, 'hmm.train', (['-b', str(n)] if n else []) + ['-e', str(epochs), 'mdl', 'data', 'out'],
            files, options={'lrate': lrate}, builtin=dict(round=lambda v, d=0: 0))
    n = n or len(names)
    now = [b for a, b in h]
    g = 0
    for e in range(epochs):
        for k in range(0, len(names) - n + 1, n):
            utts = names[k:k + n]
            N = sum(rows(x[u]) for u in utts)

            def stats(j, utts=utts, N=N, g=g):
                # the last statistic is the number of observations
                return (g + 1) * size * sum(B.sum(rows(x[u]), lambda t: xh[u](t, j)) for u in utts) / N
            a, b = h[g][0], now[g]
            now[g] = lambda j, a=a, b=b, c=stats: b(j) + lrate * (a(j) + c(j) - b(j))
            g = (g + 1) % groups
    m = files.get('out')
    for k, p in enumerate(m.params):
        B.eq(f'posterior{k}', p.posterior.params.concentrations, (D,), now[k])
        B.eq(f'prior{k}', p.prior.params.concentrations, (D,), h[k][0])
    B.eq('input', files.get('mdl').params[0].posterior.params.concentrations, (D,), h[0][1])
    B.holds('progress', r.log.count('info') >= epochs * (len(names) // n))


@contract('P24', symbolic=False, seeds=2, note='an archive of at most three files on the disk')
@single
def features_archive(B):
    'the archive of a directory of features, and the data set over it'
    import os
    import tempfile
    np = B.np
    with tempfile.TemporaryDirectory() as tmp:
        fea = os.path.join(tmp, 'fea')
        os.mkdir(fea)
        x, h = arrays(B, ['a1', 'b', 'npy2'], 3)
        for u in x:
            np.save(os.path.join(fea, u), x[u])
        with open(os.path.join(fea, 'notes.txt'), 'w') as f:
            f.write('not features')
        mod = cli.module('features.archive')
        out = os.path.join(tmp, 'feats.npz')
        mod.main(cli.parse(mod, [fea, out]), cli.Log())
        mod = cli.module('dataset.create')
        mod.main(cli.parse(mod, ['data', out, os.path.join(tmp, 'ds')]), cli.Log())
        with open(os.path.join(tmp, 'ds'), 'rb') as f:
            ds = cli.pickle.load(f)
        B.eq_num('size', ds.size, sum(rows(a) for a in x.values()))
        got = list(ds.utterances(random_order=False))
        B.holds('utterances', [u.id for u in got] == sorted(x))
        for u in got:
            B.eq('features', u.features, x[u.id].shape, h[u.id])


class Subspace:
    'stands for a subspace model: one arbitrary vector per embedding; keeps what it is given'

    def __init__(self, seen):
        self.seen = seen

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise AttributeError("Can't pickle local")

    def expected_pdfvecs(self, posts):
        return 'vectors of ' + posts

    def update_models(self, models, pdfvecs):
        self.seen.append((models, pdfvecs))


@contract('P25', [dict(inventory=i, group=k) for i in ('groups', 'order', 'two')
                  for k in range(len(INVENTORIES[i][0]))], seeds=1)
@single
def shmm_init(B, inventory, group):
    '''the units given to the subspace model are the consecutive states of the units of the group,
    in their order, with the vectors of the given posteriors'''
    files = Files(B)
    c = Conf(B, files, inventory)
    g, kind, n = c.groups[group]
    run(B, 'hmm.mkphones', ['-D', '2', 'conf', 'units', 'hmms'], files)
    hmms, emissions = files.get('hmms')
    nstates = len(c.unit[c.members[g][0]].pdfs) - 2
    nunits = len(c.members[g])
    seen = []

    ns = cli.types.SimpleNamespace
    loop = ns(modelset=ns(original_modelset=emissions))
    files.data['gsm'] = ('pickle', Subspace(seen))
    files.put('posts', ('these posteriors', nunits, nstates, group))
    files.data['loop'] = ('pickle', loop)
    run(B, 'shmm.init', ['gsm', 'posts', 'loop', 'out'], files)
    B.holds('once', len(seen) == 1)
    units, vecs = seen[0]
    B.holds('vectors', vecs == 'vectors of these posteriors')
    B.eq_num('units', len(units), nunits)
    whole = files.get('hmms')[1].modelsets[group]
    N = c.ncomp[g]
    for k, u in enumerate(units):
        S = nstates
        B.eq_num('states', B.length(u), S)
        for tag in 'prior', 'posterior':
            a = [getattr(m.modelset.means_precisions, tag).params.mean for m in (u, whole)]
            b = B.at(a[1])
            B.eq('means', a[0], (S * N, 2), lambda i, j: b(k * S * N + i, j))
    B.holds('written', files.data['out'][0] == 'pickle' and
            len(files.get('out').modelset.original_modelset.modelsets) == len(c.groups))
