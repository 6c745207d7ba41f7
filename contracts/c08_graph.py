"""P08-P09: exact inference in a compiled graph (forward-backward, Viterbi)."""
import itertools
import math
from . import contract, lemma


def graph(B, S, zeros=0., mapping=None, suffix='', lt=None):
    'CompiledGraph with arbitrary (unnormalised) non-negative weights; zeros = missing arcs'
    init = B.tensor('init' + suffix, (S,), nonneg=True, zeros=zeros)
    fin = B.tensor('final' + suffix, (S,), nonneg=True, zeros=zeros)
    tr = B.tensor('trans' + suffix, (S, S), nonneg=True, zeros=zeros, lt=lt)
    if not B.symbolic and zeros:
        init[0] = .5
        fin[S - 1] = .5
        for s in range(S):
            tr[s, s] += .1
            tr[s, min(s + 1, S - 1)] += .1
    g = B.beer.graph.CompiledGraph(init.log(), fin.log(), tr.log(), mapping)
    return g, B.at(init.log()), B.at(fin.log()), B.at(tr.log())


class FB:
    'the recursive definition of the forward and backward variables'

    def __init__(self, B, T, S, L, I, F, A, tag=''):
        lse = self.lse = lambda n, f: B.log(B.sum(n, lambda i: B.exp(f(i))))
        self.al = B.rec('alpha' + tag, T, (S,), lambda s: L(0, s) + I(s),
                        lambda prev, t, s: L(t, s) + lse(S, lambda i: prev(i) + A(i, s)))
        self.be = B.rec('beta' + tag, T, (S,), lambda s: F(s),
                        lambda nx, t, s: lse(S, lambda j: A(s, j) + L(t + 1, j) + nx(j)), down=True)
        B.candidate(2, self.al)
        B.candidate(2, self.be)
        self.norm = lambda t: lse(S, lambda s: self.al(t, s) + self.be(t, s))
        self.post = lambda t, s: B.exp(self.al(t, s) + self.be(t, s) - self.norm(t))
        xi = lambda t, i, j: self.al(t, i) + A(i, j) + L(t + 1, j) + self.be(t + 1, j)
        self.xi = lambda t, i, j: B.exp(xi(t, i, j) - lse(S, lambda a: lse(S, lambda b: xi(t, a, b))))


class Viterbi:
    'the recursive definition of the best path'

    def __init__(self, B, T, S, L, I, F, A, tag=''):
        om = B.rec('omega' + tag, T, (S,), lambda s: L(0, s) + I(s),
                   lambda prev, t, s: L(t, s) + B.max(S, lambda i: prev(i) + A(i, s)))
        bt = lambda t, s: B.ite(t < 1, 0, lambda: B.argmax(S, lambda i: om(t - 1, i) + A(i, s)))
        self.om = om
        self.path = B.rec('path' + tag, T, (), lambda: B.argmax(S, lambda s: om(T - 1, s) + F(s)),
                          lambda nx, t: bt(t + 1, nx()), down=True, isint=True, lo=0, hi=S)
        B.candidate(2, om)
        B.candidate(2, bt)
        B.candidate(1, self.path)


@contract('P08', trans=[False, True])
def posteriors(B, trans):
    'state / transition posteriors and log-normaliser are the forward-backward ones'
    T, S = B.size('T'), B.size('S')
    g, I, F, A = graph(B, S, zeros=.4)
    x = B.tensor('llh', (T, S))
    L = B.at(x)
    fb = FB(B, T, S, L, I, F, A)
    r, llh = g.posteriors(x, trans_posteriors=trans)
    if trans:
        r, xi = r
        B.eq('transitions', xi, (T - 1, S, S), lambda t, i, j: fb.xi(t, i, j))
    B.eq('states', r, (T, S), fb.post)
    B.eq_num('lognorm', llh, B.sum(T, fb.norm) / T)
    B.eq('frame.llh', x, (T, S), L)
    B.eq('frame.init', g.init_log_probs, (S,), I)
    B.eq('frame.final', g.final_log_probs, (S,), F)
    B.eq('frame.trans', g.trans_log_probs, (S, S), A)


@contract('P08')
def consistency(B):
    '''every posterior is a distribution; transition posteriors are distributions over
    pairs of states; the state posteriors are their marginals'''
    T, S = B.size('T', 2), B.size('S')
    init = B.tensor('init', (S,), pos=True)
    fin = B.tensor('final', (S,), pos=True)
    tr = B.tensor('trans', (S, S), pos=True)
    g = B.beer.graph.CompiledGraph(init.log(), fin.log(), tr.log(), None)
    x = B.tensor('llh', (T, S))
    fb = FB(B, T, S, B.at(x), B.at(init.log()), B.at(fin.log()), B.at(tr.log()))
    (r, xi), llh = g.posteriors(x, trans_posteriors=True)
    t = B.index('t', T)
    B.eq_num('states.sum', r[t].sum(), 1)
    u = B.index('u', T - 1)
    B.eq_num('transitions.sum', xi[u].sum(), 1)
    s = B.index('s', S)
    B.eq_num('marginal.source', xi[u].sum(dim=1)[s], r[u][s],
             defs=[('beta', u)])
    B.eq_num('marginal.destination', xi[u].sum(dim=0)[s], r[u + 1][s],
             defs=[('alpha', u + 1)])
    # the normaliser does not depend on the frame
    B.eq_num('lognorm.frame', fb.norm(u), fb.norm(u + 1),
             defs=[('alpha', u + 1), ('beta', u)])


@contract('P08')
def path_sums(B):
    '''the exponentials a, b of the forward and backward variables follow the recursions of
    lemmas/paths.lean (Sum.Forward, Sum.Backward), and the posteriors are the products a b and
    a A L b over their sums: hence, by Sum.state, Sum.transition and Sum.normaliser, the weight of
    the paths through a state (an arc) over the weight of all the paths'''
    T, S = B.size('T', 2), B.size('S')
    g, I, F, logA = graph(B, S, zeros=.4)
    i0, f0, A = (lambda s: B.exp(I(s))), (lambda s: B.exp(F(s))), (lambda i, j: B.exp(logA(i, j)))
    x = B.tensor('llh', (T, S))
    Lx = B.at(x)
    L = lambda t, s: B.exp(Lx(t, s))
    fb = FB(B, T, S, Lx, I, F, logA)
    a, b = (lambda t, s: B.exp(fb.al(t, s))), (lambda t, s: B.exp(fb.be(t, s)))
    s, u = B.index('s', S), B.index('u', T - 1)
    B.eq_num('Forward.first', a(0, s), L(0, s) * i0(s), defs=[('alpha', 0)])
    B.eq_num('Forward.next', a(u + 1, s), L(u + 1, s) * B.sum(S, lambda i: a(u, i) * A(i, s)),
             defs=[('alpha', u + 1)])
    B.eq_num('Backward.last', b(T - 1, s), f0(s), defs=[('beta', T - 1)])
    B.eq_num('Backward.previous', b(u, s), B.sum(
        S, lambda j: A(s, j) * L(u + 1, j) * b(u + 1, j)), defs=[('beta', u)])
    (r, xi), llh = g.posteriors(x, trans_posteriors=True)
    Z = lambda t: B.sum(S, lambda k: a(t, k) * b(t, k))
    B.eq('state', r, (T, S), lambda t, s: a(t, s) * b(t, s) / Z(t))
    w = lambda t, i, j: a(t, i) * A(i, j) * L(t + 1, j) * b(t + 1, j)
    B.eq('transition', xi, (T - 1, S, S), lambda t, i, j: w(t, i, j) / B.sum(
        S, lambda k: B.sum(S, lambda l: w(t, k, l))))
    B.eq_num('normaliser', llh, B.sum(T, lambda t: B.log(Z(t))) / T)


lemma('P08', 'paths.lean', 'Sum.state', 'Sum.transition', 'Sum.normaliser')


def paths(T, S):
    return itertools.product(range(S), repeat=T)


def score(p, L, I, F, A):
    return I(p[0]) + sum(L(t, s) for t, s in enumerate(p)) + F(p[-1]) + \
        sum(A(i, j) for i, j in zip(p[:-1], p[1:]))


SMALL = [dict(T=t, S=s) for t, s in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2),
                                     (4, 3), (5, 2))]


@contract('P08', symbolic=False, seeds=0, sizes=SMALL, shift=[0, -800],
          note='every path enumerated, T <= 5 frames, S <= 3 states, two scales of log-likelihoods')
def exhaustive(B, shift):
    'posteriors are the sums over all the paths of the graph'
    T, S = B.size('T'), B.size('S')
    g, I, F, A = graph(B, S, zeros=.3)
    x = B.tensor('llh', (T, S)) + shift
    L = B.at(x - shift)
    w = {p: math.exp(score(p, L, I, F, A)) for p in paths(T, S)}
    Z = sum(w.values())
    B.assume(Z > 0)
    (r, xi), llh = g.posteriors(x, trans_posteriors=True)
    B.eq('states', r, (T, S), lambda t, s: sum(v for p, v in w.items() if p[t] == s) / Z)
    B.eq('transitions', xi, (T - 1, S, S), lambda t, i, j: sum(
        v for p, v in w.items() if p[t] == i and p[t + 1] == j) / Z)
    B.eq_num('lognorm', llh, math.log(Z) + shift * T)


@contract('P08', symbolic=False, seeds=4, note='one utterance of 400 frames, 6 states')
def long_utterance(B):
    'the posteriors of a long utterance do not underflow'
    T, S = 400, 6
    g, I, F, A = graph(B, S, zeros=.3)
    x = 60 * B.tensor('llh', (T, S)) - 200.
    fb = FB(B, T, S, B.at(x), I, F, A)
    import torch
    (r, xi), llh = g.posteriors(x, trans_posteriors=True)
    B.holds('finite', torch.isfinite(r).all() and torch.isfinite(xi).all() and torch.isfinite(llh))
    B.eq('states.sum', r.sum(dim=-1), (T,), lambda t: 1)
    B.eq('marginal.source', xi.sum(dim=2), (T - 1, S), B.at(r))
    B.eq('marginal.destination', xi.sum(dim=1), (T - 1, S), B.at(r[1:]))


@contract('P09')
def best_path(B):
    'the path returned is the one of the Viterbi recursion, one state per frame'
    T, S = B.size('T'), B.size('S')
    g, I, F, A = graph(B, S)
    x = B.tensor('llh', (T, S))
    L = B.at(x)
    v = Viterbi(B, T, S, L, I, F, A)
    p = g.best_path(x)
    B.eq('path', p, (T,), v.path)
    B.eq('frame.llh', x, (T, S), L)
    B.eq('frame.init', g.init_log_probs, (S,), I)
    B.eq('frame.final', g.final_log_probs, (S,), F)
    B.eq('frame.trans', g.trans_log_probs, (S, S), A)


@contract('P09')
def recursion(B):
    '''the recursion and the path followed back are those of lemmas/paths.lean (Max.Recursion,
    Max.Backtrack): hence, by Max.best, no path scores better than the one returned'''
    T, S = B.size('T', 2), B.size('S')
    g, I, F, A = graph(B, S)
    x = B.tensor('llh', (T, S))
    L = B.at(x)
    v = Viterbi(B, T, S, L, I, F, A)
    p = B.at(g.best_path(x))
    o = v.om
    k = lambda t, s: B.argmax(S, lambda i: o(t - 1, i) + A(i, s))
    s, u = B.index('s', S), B.index('u', T - 1)
    best = lambda t, s: B.max(S, lambda i: o(t, i) + A(i, s))
    B.eq_num('Recursion.first', o(0, s), L(0, s) + I(s), defs=[('omega', 0)])
    B.eq_num('Recursion.next', o(u + 1, s), L(u + 1, s) + best(u, s), defs=[('omega', u + 1)])
    B.eq_num('Backtrack.end', p(T - 1), B.argmax(S, lambda s: o(T - 1, s) + F(s)))
    B.eq_num('Backtrack.previous', p(u), k(u + 1, p(u + 1)), defs=[('path', u)])


lemma('P09', 'paths.lean', 'Max.best')


@contract('P09', symbolic=False, seeds=0, sizes=SMALL, sparse=[0., .4],
          note='every path enumerated, T <= 5 frames, S <= 3 states')
def optimal(B, sparse):
    'no path of the graph scores better than the one returned'
    T, S = B.size('T'), B.size('S')
    g, I, F, A = graph(B, S, zeros=sparse)
    x = B.tensor('llh', (T, S))
    L = B.at(x)
    p = [int(s) for s in g.best_path(x)]
    B.holds('length', len(p) == T)
    B.eq_num('score', score(p, L, I, F, A), max(score(q, L, I, F, A) for q in paths(T, S)))
