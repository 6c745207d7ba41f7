"""P13: phone loops: loop transitions follow the weights, counts follow the posteriors."""
from . import contract
from .c08_graph import graph, FB, Viterbi
from .c11_mixture import weights
from .stubs import modelset


class Loop:
    'P phones whose first and last states are 2 P distinct arbitrary states of a graph'

    def __init__(self, B, P, bigram):
        self.T, self.K, self.D = B.size('T'), B.size('K'), B.size('D')
        S = self.S = 2 * P + B.size('X')
        self.P, self.bigram = P, bigram
        order = self.order = B.tensor('order', (S,), isint=True, lo=0, hi=self.K)
        self.O = B.at(order)
        self.g, self.I, self.F, self.A0 = graph(B, S, mapping=B.intlist(order), lt=1)
        pm = B.at(B.permutation('states', S))
        self.start = [pm(2 * i) for i in range(P)]
        self.end = [pm(2 * i + 1) for i in range(P)]
        self.x = B.tensor('x', (self.T, self.D))
        self.llh = B.tensor('llh', (self.T, self.K))
        self.L = B.at(self.llh)
        self.ms = modelset(B, self.llh)
        self.cat, self.prm, self.E, self.P0, self.F0 = weights(B, P, (P,) if bigram else ())
        cls = B.beer.BigramPhoneLoop if bigram else B.beer.PhoneLoop
        self.loop = cls.create(self.g, {f'p{i}': s for i, s in enumerate(self.start)},
                               {f'p{i}': s for i, s in enumerate(self.end)}, self.ms, self.cat)

    def A(self, B, E=None):
        'transitions: those of the graph but for the arcs end of a phone -> start of a phone'
        E = E or self.E

        def f(i, j):
            r = lambda: self.A0(i, j)
            for a in range(self.P):
                for b in range(self.P):
                    def r(a=a, b=b, r=r):
                        return B.ite(B.all_(B.same(i, self.end[a]), B.same(j, self.start[b])),
                                     lambda: B.log(1 - B.exp(self.A0(self.end[a], self.end[a])))
                                     + (E(a, b) if self.bigram else E(b)), r)
            return r()
        return f


@contract('P13', P=[2, 3], bigram=[False, True])
def transitions(B, P, bigram):
    '''leaving a phone: what the self-loop leaves, shared in proportion of the expected
    weights; nothing else changes; kept in step with the weights'''
    s = Loop(B, P, bigram)
    B.eq('initial', s.g.trans_log_probs, (s.S, s.S), s.A(B))
    # counts of the phones; the last statistic is their sum
    n = B.tensor('counts', s.prm.stats.shape, nonneg=True)
    st = B.torch.cat([n[..., :-1], n.sum(dim=-1, keepdim=True)], dim=-1)
    s.prm.store_stats(st)
    s.prm.natural_grad_update(1.)
    c = s.prm.posterior.params.concentrations
    C = B.at(c)
    E = lambda *k: B.digamma(C(*k)) - B.digamma(B.sum(P, lambda j: C(*k[:-1], j)))
    B.eq('updated', s.g.trans_log_probs, (s.S, s.S), s.A(B, E))
    B.eq('frame.init', s.g.init_log_probs, (s.S,), s.I)
    B.eq('frame.final', s.g.final_log_probs, (s.S,), s.F)


@contract('P13', P=[2, 3], bigram=[False, True], timeout=120)
def counts(B, P, bigram):
    '''statistics of the weights: expected number of times each phone is entered (bigram:
    after each phone)'''
    s = Loop(B, P, bigram)
    c = B.scalar('scale', pos=True)
    # any transition weights (those set by the weights are the subject of `transitions`)
    s.loop.graph, I, F, A = graph(B, s.S, mapping=B.intlist(s.order), suffix='2')
    fb = FB(B, s.T, s.S, lambda t, q: c * s.L(t, s.O(q)), I, F, A)
    s.loop.expected_log_likelihood(s.loop.sufficient_statistics(s.x), scale=c)
    acc = s.loop.accumulate(s.x)
    B.holds('parameters', set(acc) == {s.prm, s.ms.params[0][0]})
    pair = lambda i, j: B.sum(s.T - 1, lambda t: fb.xi(t, s.end[i], s.start[j]))
    if bigram:
        got = B.at(acc[s.prm])
        for i in range(P):
            n = [pair(i, j) for j in range(P)]
            for j in range(P):
                B.eq_num(f'count{i}{j}', got(i, j), n[j] if j < P - 1 else sum(n))
    else:
        n = [sum(pair(i, j) for i in range(P)) + fb.post(0, s.start[j]) for j in range(P)]
        got = B.at(acc[s.prm])
        for j in range(P):
            B.eq_num(f'count{j}', got(j), n[j] if j < P - 1 else sum(n))
    r = s.ms.calls[0][1]
    B.eq('emissions', r, (s.T, s.K), lambda t, k: B.sum(s.S, lambda q: B.ite(
        B.same(s.O(q), k), lambda: c * fb.post(t, q), 0)))


@contract('P13', bigram=[False, True], kind=['viterbi', 'path'])
def path_counts(B, bigram, kind):
    'trained on a single path: number of times each phone is entered along the path'
    s = Loop(B, 2, bigram)
    s.loop.graph, I, F, A = graph(B, s.S, mapping=B.intlist(s.order), suffix='2')
    if kind == 'viterbi':
        p = Viterbi(B, s.T, s.S, lambda t, q: s.L(t, s.O(q)), I, F, A).path
        s.loop.expected_log_likelihood(s.x, viterbi=True)
    else:
        path = B.tensor('path', (s.T,), isint=True, lo=0, hi=s.S)
        p = B.at(path)
        s.loop.expected_log_likelihood(s.x, state_path=path)
    acc = s.loop.accumulate(s.x)
    got = B.at(acc[s.prm])
    pair = lambda i, j: B.sum(s.T - 1, lambda t: B.ite(B.all_(
        B.same(p(t), s.end[i]), B.same(p(t + 1), s.start[j])), 1, 0))
    one = lambda j: B.ite(B.same(p(0), s.start[j]), 1, 0)
    for i in range(2 if bigram else 1):
        n = [pair(i, j) if bigram else pair(0, j) + pair(1, j) + one(j) for j in range(2)]
        for j in range(2):
            B.eq_num(f'count{i}{j}', got(i, j) if bigram else got(j), n[j] if j < 1 else sum(n))


@contract('P13', bigram=[False, True])
def forced(B, bigram):
    'trained with an alignment graph: the weights get no statistics, even after free training'
    s = Loop(B, 2, bigram)
    FB(B, s.T, s.S, lambda t, q: s.L(t, s.O(q)), s.I, s.F, s.A(B))
    s.loop.expected_log_likelihood(s.x)
    S2 = B.size('S2')
    order = B.tensor('order2', (S2,), isint=True, lo=0, hi=s.K)
    g, I, F, A = graph(B, S2, mapping=B.intlist(order), suffix='2')
    O = B.at(order)
    FB(B, s.T, S2, lambda t, q: s.L(t, O(q)), I, F, A, tag='2')
    s.loop.expected_log_likelihood(s.x, inference_graph=g)
    acc = s.loop.accumulate(s.x)
    B.holds('parameters', set(acc) == {s.prm, s.ms.params[0][0]})
    B.eq('weights', acc[s.prm], (2, 2) if bigram else (2,), lambda *k: 0)


@contract('P13', bigram=[False, True])
def groups(B, bigram):
    'every parameter of the emissions and of the weights belongs to one group'
    s = Loop(B, 2, bigram)
    from .stubs import Param
    a, b, c = Param('a'), Param('b'), Param('c')
    for params in ([[a]], [[a, b]], [[a], [b, c]]):
        s.ms.params = params
        g = s.loop.mean_field_factorization()
        flat = [p for x in g for p in x]
        B.holds('each once', len(flat) == len(set(map(id, flat))) == 1 + sum(map(len, params)))
        for x in params:
            B.holds('kept', sum(all(p in y for p in x) for y in g) == 1)
        B.holds('weights', sum(s.prm in y for y in g) == 1)
