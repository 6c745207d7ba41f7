"""Subspace phone loops: the commands that create, initialise and train them."""
import types

from . import cli, contract
from .c23_pipeline import Conf, INVENTORIES, decoding, single
from .cli import Files, run

ns = types.SimpleNamespace


class Stub:
    'kept as it is by pickling'

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise AttributeError("Can't pickle local")


class Value(Stub):
    'a*llh + b*kl; propagating it back gives a gradient to every trainable parameter'
    requires_grad = True

    def __init__(self, world, **c):
        self.world, self.c = world, c

    def _lin(self, a, other, b):
        if not isinstance(other, Value) and other == 0:
            other = Value(self.world)
        return Value(self.world, **{k: a * self.c.get(k, 0) + b * other.c.get(k, 0)
                                    for k in set(self.c) | set(other.c)})

    def sum(self):
        return self

    def __add__(self, other):
        return self._lin(1, other, 1)

    __radd__ = __add__

    def __sub__(self, other):
        return self._lin(1, other, -1)

    def __neg__(self):
        return self._lin(-1, 0, 0)

    def __mul__(self, a):
        return self._lin(a, 0, 0)

    __rmul__ = __mul__

    def __float__(self):
        return 0.

    def backward(self):
        self.world.back.append(self.c)
        for p in self.world.pars:
            p.grad = 1


class Par(Stub):
    'a trainable parameter'

    def __init__(self, name, world):
        self.name, self.grad = name, None
        world.pars.append(self)


class Conj(Stub):
    'a conjugate parameter'

    def __init__(self, name, world):
        self.name, self.world, self.stats = name, world, None

    def zero_stats(self):
        self.stats = 0

    def store_stats(self, x):
        self.stats = x

    def natural_grad_update(self, lrate):
        self.world.updates.append((self.name, lrate, self.stats))


class World:
    def __init__(self):
        self.pars, self.back, self.updates, self.calls, self.opts, self.clips = [], [], [], [], [], []
        self.seen = []

    def optimizer(self, kind):
        world = self

        class Optimizer:
            def __init__(self, params, lr=1e-3):
                self.pars, self.lr, self.kind = list(params), lr, kind
                self.moved, self.count = [], 0
                self.param_groups = [dict(params=self.pars, lr=lr)]
                world.opts.append(self)

            def zero_grad(self, set_to_none=True):
                for p in self.pars:
                    p.grad = None

            def step(self):
                self.moved.append({p.name for p in self.pars if p.grad is not None})
                self.count += 1

            def state_dict(self):
                return {'count': self.count}

            def load_state_dict(self, s):
                self.count = s['count']
        return Optimizer

    def clip(self, params, norm, *a, **k):
        params = list(params)
        self.clips.append(({p.name for p in params if p.grad is not None}, norm))
        return 0.

    def run(self, B, cmd, argv, files, options={}):
        with cli.patched(B.torch.optim, dict(Adam=self.optimizer('Adam'), SGD=self.optimizer('SGD'))):
            utils = getattr(B.torch.nn, 'utils', None)
            if utils is None:
                utils = B.torch.nn.utils = ns()
            with cli.patched(utils, dict(clip_grad_norm_=self.clip)):
                return run(B, cmd, argv, files, options=options)


class Model(Stub):
    'a model with trainable and conjugate parameters; keeps what it is asked'

    def __init__(self, world, name, pars=1, groups=()):
        self.world, self.name = world, name
        self.pars = [Par(f'{name}{i}', world) for i in range(pars)]
        self.groups = [[Conj(f'{name}.{g}{i}', world) for i in range(n)] for g, n in enumerate(groups)]

    def parameters(self, recurse=True):
        return iter(self.pars)

    def zero_grad(self, set_to_none=True):
        for p in self.pars:
            p.grad = None

    def conjugate_bayesian_parameters(self, keepgroups=False):
        for g in self.groups:
            if keepgroups:
                yield g
            else:
                yield from g

    bayesian_parameters = conjugate_bayesian_parameters

    def mean_field_factorization(self):
        return self.groups

    def sufficient_statistics(self, data):
        self.world.calls.append([self.name, data, None])
        return 'statistics', len(self.world.calls) - 1

    def expected_log_likelihood(self, stats, **kw):
        self.world.calls[stats[1]][2] = kw
        return Value(self.world, llh=1)

    def kl_div_posterior_prior(self):
        return Value(self.world, kl=1)

    def accumulate(self, stats, *a, **k):
        return {p: 7 for g in self.groups for p in g}

    def clear_cache(self):
        pass

    def expected_pdfvecs(self, posts, latent_nsamples=1, params_nsamples=1):
        return [f'{self.name} {posts.name} {latent_nsamples} {params_nsamples} {k}' for k in range(posts.n)]

    def update_models(self, models, pdfvecs):
        self.world.seen.append((list(models), list(pdfvecs)))


def phones(B, inventory):
    'phone models of the inventory: emissions'
    files = Files(B)
    c = Conf(B, files, inventory)
    run(B, 'hmm.mkphones', ['-D', '2', 'conf', 'units', 'hmms'], files)
    return c, files.get('hmms')[1]


def views(B, name, units, c, group, emissions):
    'the units are the consecutive states of those of the group'
    g = c.groups[group][0]
    S, N = len(c.unit[c.members[g][0]].pdfs) - 2, c.ncomp[g]
    B.eq_num(name + '.units', len(units), len(c.members[g]))
    whole = emissions.modelsets[group]
    for tag in 'prior', 'posterior':
        b = B.at(getattr(whole.modelset.means_precisions, tag).params.mean)
        for k, u in enumerate(units):
            B.eq_num(name + '.states', B.length(u), S)
            a = getattr(u.modelset.means_precisions, tag).params.mean
            B.eq(name + '.means', a, (S * N, 2), lambda i, j: b(k * S * N + i, j))
    w = B.at(whole.categoricalset.weights.posterior.params.concentrations)
    for k, u in enumerate(units):
        a = u.categoricalset.weights.posterior.params.concentrations
        B.eq(name + '.weights', a, (S, N), lambda i, j: w(k * S + i, j))
    return S


@contract('P25', [dict(inventory=i, group=g) for i, g in (('two', 0), ('groups', 1), ('order', 0))],
          only=(False, True), labels=(False, True), epochs=(1, 3), state=(False, True), seeds=1)
@single
def shmm_train(B, inventory, group, only, labels, epochs, state):
    '''every epoch is one step on the bound of the subspace model over the units of the phone loop:
    of the trainable parameters asked for, and of one group of conjugate parameters; what follows
    takes up where it stopped'''
    c, emissions = phones(B, inventory)
    S = len(c.unit[c.members[c.groups[group][0]][0]].pdfs) - 2
    files, w = Files(B), World()
    gsm, posts = Model(w, 'gsm', 2, (1, 2)), Model(w, 'posts', 2)
    n = len(c.members[c.groups[group][0]])
    y = B.torch.tensor([k % 2 for k in range(n)])
    files.data['gsm0'] = 'pickle', gsm
    files.put('posts0', (posts, n, S, group) + ((y,) if labels else ()))
    files.put('loop0', ns(modelset=ns(original_modelset=emissions)))
    lc, ls = B.scalar('conjugate', pos=True), B.scalar('standard', pos=True)
    turns = 2 if state else 1
    frozen = {'gsm0', 'gsm1'} if only else set()
    everything = {p.name for p in w.pars}
    for t in range(turns):
        w.run(B, 'shmm.train', (['-p'] if only else []) + (['-o', 'state'] if state else []) +
              ['-e', str(epochs), '-k', '3', '-n', '5', f'gsm{t}', f'posts{t}', f'loop{t}', f'gsm{t + 1}',
               f'posts{t + 1}', f'loop{t + 1}'], files,
              options=dict(learning_rate_cjg=lc, learning_rate_std=ls))
        calls = w.calls[t * epochs:]
        B.eq_num('bounds', len(calls), epochs)
        for name, units, kw in calls:
            B.holds('model', name == 'gsm')
            views(B, 'call', units, c, group, emissions)
            kw = dict(kw)
            B.holds('posteriors', kw.pop('latent_posts') is posts)
            B.holds('samples', kw.pop('latent_nsamples') == 5 and kw.pop('params_nsamples') == 3)
            if labels:
                B.eq('labels', kw.pop('labels').double(), (n,), lambda i: B.at(y.double())(i))
            B.holds('options', not set(kw) - {'update_models'} and kw.get('update_models', True))
        opt, = w.opts[t:]
        B.holds('optimizer', opt.kind == 'Adam' and opt.param_groups[0]['params'] is opt.pars)
        B.eq_num('rate', opt.param_groups[0]['lr'], ls)
        B.holds('moved', opt.moved == [everything - frozen] * epochs)
        B.eq_num('steps', opt.count, epochs * (t + 1))
        B.holds('gradients', w.back[t * epochs:] == [dict(llh=-1, kl=1)] * epochs)
        out = files.get(f'posts{t + 1}')
        B.holds('written', files.get(f'gsm{t + 1}') is gsm and out[0] is posts and
                tuple(out[1:4]) == (n, S, group) and len(out) == 4 + labels)
        if labels:
            B.eq('written.labels', out[4].double(), (n,), lambda i: B.at(y.double())(i))
        e = files.get(f'loop{t + 1}').modelset.original_modelset
        B.holds('written.groups', len(e.modelsets) == len(c.groups))
        views(B, 'written', [e.modelsets[group][k * S:(k + 1) * S] for k in range(n)], c, group, emissions)
    want = []
    for k in range(0 if only else epochs * turns):
        want += [['gsm.00'], ['gsm.10', 'gsm.11']][k % 2]
    B.holds('updated', [u[0] for u in w.updates] == want)
    for u in w.updates:
        B.eq_num('rate', u[1], lc)
        B.eq_num('scale', u[2], 7)
    B.holds('files', ('state' in files) == state)


LANGS = ('xx',), ('fr', 'en')


def hierarchy(B, w, langs, inventory, group):
    'a phone loop, a subspace model and posteriors for each language, around one root'
    files = Files(B)
    c, loops = {}, {}
    for k, l in enumerate(langs):
        c[l], e = phones(B, inventory[k % len(inventory)])
        loops[l] = ns(modelset=ns(original_modelset=e), lang=l)
    root = Model(w, 'root', 2)
    root.shared_transform = 'the root transform'
    models, posts, units = {}, {}, {}
    S = None
    for k, l in enumerate(langs):
        models[l] = Model(w, l, 2, (1, 1))
        models[l].transform = ns(root_transform=None, latent_posterior=Model(w, 'language_' + l))
        posts[l] = Model(w, 'posts_' + l)
        members = c[l].members[c[l].groups[group[k % len(group)]][0]]
        posts[l].n = len(members)
        units[l] = list(members)
        S = len(c[l].unit[members[0]].pdfs) - 2
    return files, c, loops, root, models, posts, units, S


@contract('P25', langs=LANGS, skip=[(), ('root',), ('language',), ('unit',), ('root', 'unit')],
          clip=(False, True), sgd=(False, True), epochs=(1, 2), seeds=1)
@single
def hshmm_train(B, langs, skip, clip, sgd, epochs):
    '''every epoch is one step on the bound of the root over the models and units of all the languages,
    of all the trainable parameters but those asked to stay'''
    w = World()
    group = (0, 1)
    files, c, loops, root, models, posts, units, S = hierarchy(
        B, w, langs, ('two3', 'groups3'), group)
    files.data['gsm'] = 'pickle', dict(root=root, langs=models, lang_latent_dim=4)
    files.data['posts'] = 'pickle', (posts, units, S, 0)
    for l in langs:
        files.put('loop_' + l, loops[l])
    files.text('loops', [f'loop_{l} {l}' for l in langs])
    lc, ls, norm = (B.scalar(k, pos=True) for k in ('conjugate', 'standard', 'norm'))
    argv = [f'--skip-{k}-' + dict(root='subspace').get(k, 'posterior') for k in skip]
    argv += ['--use-sgd'] if sgd else []
    options = dict(learning_rate_cjg=lc, learning_rate_std=ls)
    if clip:
        options['clip_grad'] = norm
    w.run(B, 'hshmm.train', argv + ['-e', str(epochs), '-k', '3', '-n', '5', '-u', '7', 'gsm', 'posts',
                                    'loops', 'out_gsm', 'out_posts', 'out_loop'], files, options)
    for l in langs:
        B.holds('root', models[l].transform.root_transform == 'the root transform')
    B.eq_num('bounds', len(w.calls), epochs)
    for name, pairs, kw in w.calls:
        B.holds('model', name == 'root' and [p[0].name for p in pairs] == list(langs))
        for k, (l, p) in enumerate(zip(langs, pairs)):
            views(B, l, p[1], c[l], group[k], loops[l].modelset.original_modelset)
        kw = dict(kw)
        B.holds('posteriors', [p.name for p in kw.pop('latent_posts')] == ['posts_' + l for l in langs])
        B.holds('samples', (kw.pop('univ_latent_nsamples'), kw.pop('latent_nsamples'),
                            kw.pop('params_nsamples')) == (5, 7, 3))
        B.holds('options', not set(kw) - {'update_models'} and kw.get('update_models', True))
    opt, = w.opts
    B.holds('optimizer', opt.kind == ('SGD' if sgd else 'Adam'))
    B.eq_num('rate', opt.param_groups[0]['lr'], ls)
    move = set() if 'root' in skip else {'root0', 'root1'}
    for l in langs:
        move |= (set() if 'language' in skip else {f'language_{l}0'}) | \
            (set() if 'unit' in skip else {f'posts_{l}0'})
    B.holds('moved', opt.moved == [move] * epochs)
    B.holds('gradients', w.back == [dict(llh=-1, kl=1)] * epochs)
    B.holds('clipped', [p for p, _ in w.clips] == ([move] * epochs if clip else []))
    for _, v in w.clips:
        B.eq_num('norm', v, norm)
    groups = [f'{l}.{g}0' for l in langs for g in (0, 1)]
    B.holds('updated', [u[0] for u in w.updates] == (
        [] if 'root' in skip else [groups[k % len(groups)] for k in range(epochs)]))
    for u in w.updates:
        B.eq_num('rate', u[1], lc)
    out = files.get('out_gsm')
    B.holds('written', out['root'] is root and out['langs'] == models and out['lang_latent_dim'] == 4)
    p, u, s, g = files.get('out_posts')
    B.holds('written.posts', p == posts and (s, g) == (S, 0) and list(u) == list(langs))
    for k, l in enumerate(langs):
        views(B, 'written', u[l], c[l], group[k], loops[l].modelset.original_modelset)
        B.holds('written.loop', files.get('out_loop_' + l).lang == l)
    B.holds('written.loops', [x.lang for x in files.get('out_loop').values()] == list(langs))


@contract('P25', adapt=(False, True), init=(False, True), same=(False, True), seeds=1)
@single
def hshmm_init(B, adapt, init, same):
    '''the units of the new language get the vectors of its posteriors, from the subspace of the
    language asked for, around the root of the multilingual model'''
    w = World()
    files, c, loops, root, models, posts, units, S = hierarchy(B, w, ('new',), ('groups3',), (1,))
    new = models['new']
    _, _, _, _, old, _, _, _ = hierarchy(B, w, ('fr', 'en'), ('two3',), (0,))
    broot = Model(w, 'tmp root')
    broot.shared_transform = 'the temporary transform'
    files.data['tmp'] = 'pickle', dict(root=broot, langs=dict(new=new))
    files.data['gsm'] = 'pickle', dict(root=root, langs=dict(old), params_dim=3)
    files.data['posts'] = 'pickle', (posts, units, S, 1)
    files.put('loop', loops)
    run(B, 'hshmm.init', (['--adapt-from', 'en'] if adapt else []) + (['--init-from', 'fr'] if init else []) +
        (['--same'] if same else []) + ['--latent-nsamples', '5', '--params-nsamples', '3', 'new', 'tmp',
                                        'gsm', 'posts', 'loop', 'out_loop', 'out_gsm'], files)
    use = old['fr'] if init else old['en'] if adapt else new
    (got, vecs), = w.seen
    views(B, 'units', got, c['new'], 1, loops['new'].modelset.original_modelset)
    B.holds('vectors', vecs == [f'{use.name} posts_new 5 3 {0 if same else k}' for k in range(len(units['new']))])
    B.holds('root', use.transform.root_transform == 'the root transform')
    out = files.get('out_gsm')
    B.holds('written', out['root'] is root and list(out['langs']) == ['new'] and
            out['langs']['new'] is (old['en'] if adapt else new) and out['params_dim'] == 3)
    B.holds('loops', files.get('out_loop')['new'].lang == 'new' and files.get('out_loop_new').lang == 'new')


def ready(B, inventory, tag=''):
    'a phone loop made from the inventory, whose emissions have arbitrary posteriors'
    files = Files(B)
    c = Conf(B, files, inventory)
    decoding(B, files, c, '')
    run(B, 'hmm.mkphoneloop', ['--weights-prior', 'dirichlet', 'graph', 'hmms', 'loop'], files)
    m = files.get('loop')
    d = B.beer.dists
    for k, e in enumerate(m.modelset.original_modelset.modelsets):
        w, mp = e.categoricalset.weights, e.modelset.means_precisions
        n, K = w.prior.params.concentrations.shape
        t = lambda name, *s, **kw: B.tensor(f'{name}{tag}_{k}', s, **kw)
        w.posterior = d.Dirichlet.from_std_parameters(t('conc', n, K, pos=True))
        M, D = mp.prior.params.mean.shape
        p = mp.prior.params
        mp.posterior = d.NormalGamma.from_std_parameters(
            t('m', M, D), t('scale', *p.scale.shape, pos=True), t('shape', *p.shape.shape, pos=True),
            t('rates', M, D, pos=True))
    return files, c


@cli.contextlib.contextmanager
def recorded(B, out):
    'keeps the vectors computed by the subspace models'
    with cli.contextlib.ExitStack() as st:
        for cls in (B.beer.GSM, B.beer.GSMSet):
            real = cls.expected_pdfvecs

            def expected_pdfvecs(self, posts, *a, real=real, **k):
                n = len(out)
                v = real(self, posts, *a, **k)
                del out[n:]
                out.append((self, posts, v))
                return v
            cls.expected_pdfvecs = expected_pdfvecs
            st.callback(setattr, cls, 'expected_pdfvecs', real)
        yield


def standard(B, name, normal, dim):
    'a standard Normal in the given dimension, with full covariance'
    p = normal.mean_precision
    ref = B.beer.Normal.create(B.torch.zeros(dim), B.torch.ones(dim), cov_type='full').mean_precision
    for tag in 'prior', 'posterior':
        x, y = (getattr(z, tag).natural_parameters() for z in (p, ref))
        B.eq(f'{name}.{tag}', x, y.shape, B.at(y))


def units_created(B, name, before, after, c, group, vecs, dim):
    '''the parameters of the group are in the subspace, with the vectors of their units; the counts
    of a unit are shared equally by its states and components; the other groups are as they were'''
    g = c.groups[group][0]
    S, N, n = len(c.unit[c.members[g][0]].pdfs) - 2, c.ncomp[g], len(c.members[g])
    B.holds(name + '.groups', len(after.modelsets) == len(before.modelsets))
    params = lambda e: (e.categoricalset.weights, e.modelset.means_precisions)
    for k, (a, b) in enumerate(zip(after.modelsets, before.modelsets)):
        for p, q in zip(params(a), params(b)):
            if k == group:
                B.holds(name + '.subspace', type(p) is B.beer.SubspaceBayesianParameter)
                standard(B, name + '.latent', p.prior, dim)
                continue
            B.holds(name + '.others', not isinstance(p, B.beer.SubspaceBayesianParameter))
            for tag in 'prior', 'posterior':
                x, y = (getattr(z, tag).natural_parameters() for z in (p, q))
                B.eq(f'{name}.others.{tag}', x, y.shape, B.at(y))
    (w, mp), (w0, mp0) = params(after.modelsets[group]), params(before.modelsets[group])
    a, b = (B.at(d.params.concentrations) for d in (w0.posterior, w0.prior))
    counts = [sum(a(u * S + s, j) - b(u * S + s, j) for s in range(S) for j in range(N)) for u in range(n)]
    for u in range(n):
        B.eq(name + '.counts', w.stats[u * S:(u + 1) * S], (S, N),
             lambda i, j: counts[u] / S / (B.ite(j < N - 1, N, 1)))
    x, y = (B.at(d.natural_parameters()) for d in (mp0.posterior, mp0.prior))
    W = mp0.prior.natural_parameters().shape[-1]
    for u in range(n):
        M = S * N
        B.eq(name + '.stats', mp.stats[u * M:(u + 1) * M], (M, W), lambda i, j: B.sum(
            M, lambda k: x(u * M + k, j) - y(u * M + k, j)) / N)
    V = B.at(vecs)
    first = w if list(after.modelsets[group].bayesian_parameters())[0] is w else mp
    for u in range(n):
        o = 0
        for p, rows, width in ((w, S, N), (mp, S * N, W))[::1 if first is w else -1]:
            B.eq(name + '.vectors', p.pdfvec[u * rows:(u + 1) * rows], (rows, width),
                 lambda i, j: V(u, o + i * width + j))
            o += rows * width
    return n, S, W


def dimension(S, N, D=2):
    'real vectors of the states of a unit: weights, means and variances'
    return S * (N - 1) + S * N * 2 * D


SPACES = [dict(inventory=i, group=g) for i, g in (('two', 0), ('groups', 1), ('groups', 0), ('order', 0))]


@contract('P25', SPACES, how=('new', 'given', 'classes'), seeds=2, timeout=120)
@single
def shmm_mksphoneloop(B, inventory, group, how):
    '''the units of the group are put in a subspace of the given dimension, around a standard Normal,
    from their posteriors; with classes, in one subspace per class, labels in the order of the units'''
    files, c = ready(B, inventory)
    g = c.groups[group][0]
    names = c.members[g]
    n, argv = len(names), []
    before = files.get('loop').modelset.original_modelset
    if how == 'given':
        z = B.tensor('given', (n, 3))
        old = B.beer.dists.NormalDiagonalCovariance.from_std_parameters(z, B.torch.ones(n, 3))
        files.put('old', (old, n, 3, group))
        argv = ['-p', 'old']
    if how == 'classes':
        cls = {u: 'zyx'[k % 2] for k, u in enumerate(names)}
        files.text('classes', [f'{u} {cls[u]}' for u in names[::-1]])
        argv = ['-c', 'classes', '-d', '4']
    seen = []
    with recorded(B, seen):
        run(B, 'shmm.mksphoneloop', argv + ['-g', g, '-l', '3', 'conf', 'loop', 'gsm', 'posts', 'out'], files)
    gsm, posts = files.get('gsm'), files.get('posts')
    sub, p, v = seen[-1]
    _, S, _ = units_created(B, 'units', before, files.get('out').modelset.original_modelset, c, group, v, 3)
    B.holds('posts', tuple(posts[1:4]) == (n, S, group) and len(posts) == 4 + (how == 'classes'))
    q = posts[0].params.mean
    B.eq('posts.mean', q, (n, 3), lambda i, j: B.at(z)(i, j) if how == 'given' else 0)
    B.eq('used', p.params.mean, (n, 3), B.at(q))
    if how == 'classes':
        k = len(set(cls.values()))
        order = sorted(set(cls.values()))
        B.holds('class', type(gsm) is B.beer.Mixture and type(gsm.modelset) is B.beer.GSMSet)
        B.eq_num('classes', B.length(gsm.modelset), k)
        B.holds('labels', [int(x) for x in posts[4]] == [order.index(cls[u]) for u in names])
        gsm = gsm.modelset
        B.eq_num('classes.dim', gsm.disc_transform.in_dim, 4)
        B.eq_num('classes.out', gsm.disc_transform.out_dim, dimension(S, c.ncomp[g]))
        standard(B, 'classes.prior', gsm.means.prior, 4)
    else:
        B.holds('class', type(gsm) is B.beer.GSM)
    B.eq_num('dim', gsm.transform.in_dim, 3)
    B.eq_num('out', gsm.transform.out_dim, dimension(S, c.ncomp[g]))
    standard(B, 'prior', gsm.latent_prior, 3)
    B.holds('given', how != 'given' or files.data['old'][0] == 'pickle')


@contract('P25', [dict(langs=['xx'], inv=['two3'], group=0), dict(langs=['fr', 'en'], inv=['two3', 'order3'], group=0),
                  dict(langs=['b', 'a'], inv=['groups3', 'groups3'], group=1)], seeds=2, timeout=120)
@single
def hshmm_mksphoneloop(B, langs, inv, group):
    '''every language has its own subspace, which is an affine image of the embedding of the language
    by the root transform, and its own units in it'''
    files, c, before = None, {}, {}
    for k, l in enumerate(langs):
        f, c[l] = ready(B, inv[k], l)
        if files is None:
            files, g = f, c[l].groups[group][0]
            S, N = len(c[l].unit[c[l].members[g][0]].pdfs) - 2, c[l].ncomp[g]
        files.data['loop_' + l] = f.data['loop']
        before[l] = f.get('loop').modelset.original_modelset
    files.text('langs', [f'loop_{l} {l}' for l in langs])
    seen = []
    with recorded(B, seen):
        run(B, 'hshmm.mksphoneloop', ['-g', 'speech', '-l', '3', '-t', '5', 'conf', 'langs', 'gsm', 'posts',
                                      'out'], files)
    gsm = files.get('gsm')
    posts, units, S1, g1 = files.get('posts')
    B.holds('posts', S1 == S and list(posts) == list(units) == list(langs))
    root = gsm['root'].shared_transform
    out = dimension(S, N)
    B.eq_num('root.in', root.in_dim, 3)
    B.eq_num('root.out', root.out_dim, out * 6)
    standard(B, 'root.prior', gsm['root'].latent_prior, 3)
    B.holds('dims', (gsm['lang_latent_dim'], gsm['unit_latent_dim']) == (3, 5) and list(gsm['langs']) == langs)
    B.eq_num('dims', gsm['params_dim'], out)
    vecs = {}
    for l, (sub, p, v) in zip(langs, seen):
        vecs[l] = v
    B.eq_num('once', len(seen), len(langs))
    for k, l in enumerate(langs):
        m = gsm['langs'][l]
        B.holds('language', type(m) is B.beer.GSM and m.transform.root_transform is root)
        B.eq_num('in', m.transform.in_dim, 5)
        B.eq_num('out', m.transform.out_dim, out)
        lp = m.transform.latent_posterior.params.mean
        B.eq('embedding', lp, (1, 3), lambda i, j: 0)
        standard(B, 'language.prior', m.transform.latent_prior, 3)
        standard(B, 'unit.prior', m.latent_prior, 5)
        members = c[l].members[c[l].groups[group][0]]
        B.eq('posts.mean', posts[l].params.mean, (len(members), 5), lambda i, j: 0)
        B.eq_num('units', len(units[l]), len(members))
        loop = files.get('out_' + l).modelset.original_modelset
        units_created(B, l, before[l], loop, c[l], group, vecs[l], 5)
    B.holds('loops', list(files.get('out')) == langs)


def noises(B):
    'everything drawn so far'
    if B.symbolic:
        from engine import shim_torch
        return shim_torch.RANDOM
    return B.noises


@contract('P25', inventory=('two', 'order'), extra=(-1, 0, 2), seeds=2, timeout=120)
@single
def shmm_setprior(B, inventory, extra):
    '''the posterior of another subspace model, with the given variance, is the prior and the first
    posterior of this one; so are its units, and those it does not have are drawn from their prior'''
    files, c = ready(B, inventory)
    g = c.groups[0][0]
    n = len(c.members[g])
    before = files.get('loop').modelset.original_modelset
    run(B, 'shmm.mksphoneloop', ['-g', g, '-l', '3', 'conf', 'loop', 'gsm', 'posts', 'sloop'], files)
    files.data['gsm_init'] = files.data['gsm']
    gsm = files.get('gsm')
    S = len(c.unit[c.members[g][0]].pdfs) - 2
    O = dimension(S, c.ncomp[g])
    d = B.beer.dists
    other = cli.copy.deepcopy(gsm)
    h = {}
    for k, size in (('weights', 3 * O), ('bias', O)):
        t = B.tensor('init_' + k, (size,))
        h[k] = B.at(t)
        getattr(other.transform, k).posterior = d.NormalDiagonalCovariance.from_std_parameters(
            t, B.tensor('var_' + k, (size,), pos=True))
    m, v = B.tensor('prior_mean', (3,)), B.tensor('prior_var', (3,), pos=True)
    other.latent_prior = B.beer.Normal.create(m, v, cov_type='full')
    files.put('gsm_init', other)
    n2 = n + extra
    fresh = gsm.new_latent_posteriors(n2)
    z, lv = B.tensor('init_posts', (n2, 3)), B.tensor('init_logvar', (n2, 3))
    fresh.params.mean.data[:, :], fresh.params.log_diag_cov.data[:, :] = z, lv
    files.put('posts_init', (fresh, n2, S, 0))
    old = files.get('posts')[0]
    mean0, lv0 = B.at(old.params.mean), B.at(old.params.log_diag_cov)
    var = B.scalar('variance', pos=True)
    seen, k0 = [], len(noises(B))
    with recorded(B, seen):
        run(B, 'shmm.setprior', ['gsm', 'posts', 'sloop', 'gsm_init', 'posts_init', 'out_gsm', 'out_posts',
                                 'out_loop'], files, options={'var': var})
    got, posts = files.get('out_gsm'), files.get('out_posts')
    B.holds('posts', tuple(posts[1:]) == (n, S, 0))
    for k, size in (('weights', 3 * O), ('bias', O)):
        p = getattr(got.transform, k)
        for tag in 'prior', 'posterior':
            q = getattr(p, tag).params
            B.eq(f'{k}.{tag}.mean', q.mean, (size,), h[k])
            B.eq(f'{k}.{tag}.logvar', q.log_diag_cov, (size,), lambda i: B.log(var))
        q = p.posterior.params
        own = list(got.parameters())
        B.holds(k + '.trainable', all(any(x is y for y in own) for x in (q.mean, q.log_diag_cov)))
    q = posts[0].params
    Z, L, M, V = B.at(z), B.at(lv), B.at(m), B.at(v)
    common = min(n, n2)
    if extra < 0:
        e, = [B.at(t) for t in noises(B)[k0:] if len(t.shape) == 2 and all(
            x == y for x, y in zip(t.shape, (n - common, 3)))]
    B.eq('units.mean', q.mean, (n, 3), lambda i, j: B.ite(
        i < common, lambda: Z(i, j), lambda: M(j) + B.sqrt(V(j)) * e(i - common, j)) if extra < 0 else Z(i, j))
    B.eq('units.logvar', q.log_diag_cov, (n, 3), lambda i, j: B.ite(
        i < common, lambda: L(i, j), lambda: lv0(i, j)) if extra < 0 else L(i, j))
    x, y = (z.latent_prior.mean_precision for z in (got, other))
    for tag in 'prior', 'posterior':
        a, b = (getattr(z, tag).natural_parameters() for z in (x, y))
        B.eq('latent.' + tag, a, b.shape, B.at(b))
    after = files.get('out_loop').modelset.original_modelset
    units_created(B, 'units', before, after, c, 0, seen[-1][2], 3)
    B.eq('vectors of', seen[-1][1].params.mean, (n, 3), B.at(q.mean))
