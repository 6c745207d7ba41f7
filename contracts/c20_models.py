"""P20: models list each of their parameters once and use the ones they are given."""
from . import contract
from .families import dirichlet, build, FAMILIES
from .c08_graph import graph
from .c13_phoneloop import Loop
from .stubs import Param, modelset

NORMALS = dict(full='normalwishart', diagonal='normalgamma', isotropic='isonormalgamma')


def prm(B, fam, lead, tag, **kw):
    P, F = fam(B, lead, '_prior' + tag, **kw), fam(B, lead, tag, **kw)
    return B.beer.ConjugateBayesianParameter(build(P), build(F))


class World:
    'sizes and builders of parameters; make(kind, params) builds the model which has these parameters'

    def __init__(self, B, cov='diagonal'):
        self.B, self.fam = B, FAMILIES[NORMALS[cov]]
        self.N, self.D, self.C, self.M = B.size('N'), B.size('D', 2), B.size('C', 2), B.size('M')
        self.x = B.tensor('x', (self.N, self.D))

    def params(self, kind, tag):
        B, D, C, M = self.B, self.D, self.C, self.M
        normals = lambda n, t: prm(B, self.fam, (n,), t + tag, D=D)
        w = lambda lead, t: prm(B, dirichlet, lead, t + tag, K=C)
        return {
            'normal': lambda: [prm(B, self.fam, (), tag, D=D)],
            'normalset': lambda: [normals(C, '')],
            'categorical': lambda: [w((), 'w')],
            'categoricalset': lambda: [w((M,), 'w')],
            'mixture': lambda: [normals(C, ''), w((), 'w')],
            'mixtureset': lambda: [normals(M * C, ''), w((M,), 'w')],
            'joint': lambda: [normals(M * C, ''), w((M,), 'w'), normals(C, 'b')],
            'ordered': lambda: [normals(M * C, ''), w((M,), 'w'), normals(C, 'b')],
            'repeated': lambda: [normals(C, '')],
            'nested': lambda: [normals(C, ''), w((), 'w')],
        }[kind]()

    def make(self, kind, p):
        beer = self.B.beer
        ms = lambda q: beer.NormalSet(q)
        mixset = lambda: beer.MixtureSet(beer.CategoricalSet(p[1]), ms(p[0]))
        joint = lambda: beer.JointModelSet([mixset(), ms(p[2])])
        return {
            'normal': lambda: beer.Normal(p[0]),
            'normalset': lambda: ms(p[0]),
            'categorical': lambda: beer.Categorical(p[0]),
            'categoricalset': lambda: beer.CategoricalSet(p[0]),
            'mixture': lambda: beer.Mixture(beer.Categorical(p[1]), ms(p[0])),
            'mixtureset': mixset,
            'joint': joint,
            'ordered': lambda: beer.models.modelset.DynamicallyOrderedModelSet(joint()),
            'repeated': lambda: beer.RepeatedModelSet(ms(p[0]), 2),
            'nested': lambda: beer.Mixture(beer.Categorical(p[1]),
                                           beer.JointModelSet([ms(p[0])])),
        }[kind]()


KINDS = ['normal', 'normalset', 'categorical', 'categoricalset', 'mixture', 'mixtureset', 'joint',
         'ordered', 'repeated', 'nested']


def listed(B, tag, m, want):
    'the groups list the parameters the model holds, each exactly once'
    flat = [p for g in m.mean_field_factorization() for p in g]
    ids = [id(p) for p in flat]
    B.holds(f'{tag}.each once', len(ids) == len(set(ids)))
    B.holds(f'{tag}.listed', set(ids) == set(map(id, want)))
    mods = [x for x in m.modules() if isinstance(x, B.beer.BayesianParameter)]
    B.holds(f'{tag}.held', set(map(id, mods)) == set(map(id, want)))
    it = list(m.bayesian_parameters())
    B.holds(f'{tag}.iterated', [id(p) for p in it] == ids)


@contract('P20', kind=KINDS)
def parameters(B, kind):
    'every parameter of a model is listed exactly once, before and after replacements'
    w = World(B)
    p = w.params(kind, '')
    m = w.make(kind, p)
    listed(B, 'new', m, p)
    q = [Held(B, k) for k in range(len(p))]
    for k in range(len(p)):
        m.replace_parameters({p[k]: q[k]})
        listed(B, f'replaced{k}', m, q[:k + 1] + p[k + 1:])


def Held(B, k, cls=None):
    'an arbitrary parameter'
    P = build(FAMILIES['gamma'](B, (), f'_h{k}', D=1))
    return (cls or B.beer.ConjugateBayesianParameter)(P, P)


def evaluated(w, kind, m):
    'what the model computes with its parameters: values, and statistics by parameter'
    B = w.B
    if kind in ('categorical', 'categoricalset'):
        s = m.sufficient_statistics(B.tensor('counts', (w.N, w.C), nonneg=True))
    else:
        s = m.sufficient_statistics(w.x)
    r = m.expected_log_likelihood(s)
    if kind in ('normal', 'categorical', 'mixture', 'nested'):
        return r, m.accumulate(s)
    z = B.tensor('resps', tuple(r.shape), nonneg=True)
    return r, m.accumulate(s, z)


@contract('P20', kind=KINDS, part=['all', 'first'])
def replaced(B, kind, part):
    'a model whose parameters were replaced computes what one built from the new ones does'
    w = World(B)
    p, q = w.params(kind, ''), w.params(kind, '_new')
    m = w.make(kind, p)
    evaluated(w, kind, m)
    new = list(q) if part == 'all' else q[:1] + p[1:]
    m.replace_parameters({a: b for a, b in zip(p, new) if a is not b})
    r, acc = evaluated(w, kind, m)
    r2, acc2 = evaluated(w, kind, w.make(kind, new))
    B.eq('llh', r, r2.shape, B.at(r2))
    B.holds('keys', set(map(id, acc)) == set(map(id, new)))
    for k, a in enumerate(new):
        B.eq(f'statistics{k}', acc[a], acc2[a].shape, B.at(acc2[a]))
    B.eq_num('divergence', m.kl_div_posterior_prior(),
             sum(a.kl_div_posterior_prior().sum() for a in new))


@contract('P20')
def filters(B):
    'selecting parameters by type or by condition keeps the order, the groups and every match'
    cls = type('Other', (B.beer.ConjugateBayesianParameter,), {})
    ms = modelset(B, B.tensor('llh', (B.size('N'), B.size('K', 2))))
    for layout in ('ccc', 'coc', 'oco', 'ooo'):
        p = [Held(B, f'{layout}{n}', cls if k == 'o' else None) for n, k in enumerate(layout)]
        for g in ([[p[0]], [p[1], p[2]]], [[p[0], p[1], p[2]]], [[p[0]], [p[1]], [p[2]]]):
            ms.params = g
            flat = [x for y in g for x in y]
            B.holds('all', list(map(id, ms.bayesian_parameters())) == list(map(id, flat)))
            for name, ok, kw in (
                    ('type', lambda x: type(x) is B.beer.ConjugateBayesianParameter,
                     dict(paramtype=B.beer.ConjugateBayesianParameter)),
                    ('subtype', lambda x: type(x) is cls, dict(paramtype=cls)),
                    ('filter', lambda x: x is not p[1], dict(paramfilter=lambda x: x is not p[1])),
                    ('both', lambda x: type(x) is cls and x is not p[2],
                     dict(paramtype=cls, paramfilter=lambda x: x is not p[2]))):
                B.holds(name, list(map(id, ms.bayesian_parameters(**kw)))
                        == [id(x) for x in flat if ok(x)])
                want = [[id(x) for x in y if ok(x)] for y in g]
                B.holds(name + '.groups', [list(map(id, y)) for y in ms.bayesian_parameters(
                    keepgroups=True, **kw)] == [y for y in want if y])
            conj = [[x for x in y if type(x) is B.beer.ConjugateBayesianParameter] for y in g]
            B.holds('conjugate', [list(map(id, y)) for y in ms.conjugate_bayesian_parameters(
                keepgroups=True)] == [list(map(id, y)) for y in conj if y])
            B.holds('conjugate.flat', list(map(id, ms.conjugate_bayesian_parameters()))
                    == [id(x) for y in conj for x in y])


COMPOSITE = ['mixture', 'mixtureset', 'phoneloop', 'bigram']


@contract('P20', kind=COMPOSITE)
def groups(B, kind):
    'groups of a composite: those of its parts, none lost, none split, nothing shared'
    a, b, c, d, e = (Param(x) for x in 'abcde')
    N, K = B.size('N'), B.size('K', 2)
    ms = modelset(B, B.tensor('llh', (N, K)))

    loop = Loop(B, 2, kind == 'bigram').loop if kind in ('phoneloop', 'bigram') else None
    for part in ([[a]], [[a, b]], [[a], [b, c]], [[a], [b], [c]]):
        for weight in ([[d]], [[d, e]], [[d], [e]]):
            if kind == 'mixture':
                m = B.beer.Mixture(ms, ms)
            elif kind == 'mixtureset':
                m = B.beer.MixtureSet(ms, ms)
            else:
                m = loop
            m.modelset, other = ms, modelset(B, ms.llh)
            setattr(m, 'categorical' if kind in ('mixture', 'phoneloop') else 'categoricalset', other)
            ms.params, other.params = part, weight
            g = m.mean_field_factorization()
            flat = [x for y in g for x in y]
            want = [x for y in part + weight for x in y]
            B.holds('each once', len(flat) == len(want) and set(map(id, flat)) == set(map(id, want)))
            for y in part + weight:
                B.holds('kept together', sum(all(x in z for x in y) for z in g) == 1)
            for u in (part, weight):
                for y, z in zip(u, u[1:]):
                    B.holds('kept apart', not any(y[0] in h and z[0] in h for h in g))
            g2 = m.mean_field_factorization()
            B.holds('again', [list(map(id, y)) for y in g2] == [list(map(id, y)) for y in g])


DELEGATES = ['mixture', 'mixtureset', 'hmm', 'ordered', 'repeated', 'joint']


@contract('P20', kind=DELEGATES)
def statistics(B, kind):
    'the sufficient statistics of a composite are those of its components'
    N, D, S, K = B.size('N'), B.size('D'), B.size('S'), B.size('K', 2)
    x, t = B.tensor('x', (N, D)), B.tensor('t', (N, S))
    ms = modelset(B, B.tensor('llh', (N, K)))
    seen = []

    def stats(data):
        seen.append(data)
        return t
    ms.sufficient_statistics = stats
    beer = B.beer
    m = {'mixture': lambda: beer.Mixture(ms, ms), 'mixtureset': lambda: beer.MixtureSet(ms, ms),
         'hmm': lambda: beer.HMM(graph(B, K)[0], ms),
         'ordered': lambda: beer.models.modelset.DynamicallyOrderedModelSet(ms),
         'repeated': lambda: beer.RepeatedModelSet(ms, 3),
         'joint': lambda: beer.JointModelSet([ms, modelset(B, ms.llh)])}[kind]()
    B.eq('statistics', m.sufficient_statistics(x), (N, S), B.at(t))
    B.holds('once', len(seen) == 1)
    B.eq('data', seen[0], (N, D), B.at(x))


@contract('P20')
def caches(B):
    'clearing the cache of a model clears those of all its parts, and nothing else'
    w = World(B)
    p = w.params('ordered', '')
    m = w.make('ordered', p)
    r, _ = evaluated(w, 'ordered', m)
    m.clear_cache()
    for x in m.modules():
        if isinstance(x, B.beer.Model):
            B.holds('cleared', not x.cache)
    r2, _ = evaluated(w, 'ordered', m)
    B.eq('again', r2, r.shape, B.at(r))
