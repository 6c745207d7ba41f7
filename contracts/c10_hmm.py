"""P10: HMM expected log-likelihood, statistics and decoding."""
from . import contract
from .c08_graph import graph, FB, Viterbi
from .stubs import modelset, history


AFTER = [None, 'internal', 'external']


class Setup:
    def __init__(self, B, zeros=0., after=None):
        self.T, self.S, self.K, self.D = B.size('T'), B.size('S'), B.size('K'), B.size('D')
        order = B.tensor('order', (self.S,), isint=True, lo=0, hi=self.K)
        self.O = B.at(order)
        self.g, self.I, self.F, self.A = graph(B, self.S, zeros=zeros, mapping=B.intlist(order))
        self.x = B.tensor('x', (self.T, self.D))
        self.X = B.at(self.x)
        self.llh = B.tensor('llh', (self.T, self.K))
        self.L = B.at(self.llh)
        self.ms = modelset(B, self.llh)
        self.hmm = B.beer.HMM.create(self.g, self.ms)
        if after:
            history(B, self.ms, self.llh, lambda: self.before(B, after))

    def before(self, B, after):
        'an earlier utterance (same length), trained on another way'
        x = B.tensor('x_before', (self.T, self.D))
        path = B.tensor('path_before', (self.T,), isint=True, lo=0, hi=self.S)
        g = self.g if after == 'external' else None
        self.hmm.expected_log_likelihood(x, state_path=path, inference_graph=g, scale=B.scalar(
            'scale_before', pos=True))
        self.hmm.accumulate(x)

    def fb(self, B, scale=1):
        return FB(B, self.T, self.S, lambda t, s: scale * self.L(t, self.O(s)), self.I, self.F, self.A)

    def viterbi(self, B, scale=1):
        return Viterbi(B, self.T, self.S, lambda t, s: scale * self.L(t, self.O(s)), self.I, self.F,
                       self.A)


def check_llh(B, s, r, post, scale):
    B.eq('llh', r, (s.T,), lambda t: B.sum(
        s.S, lambda q: scale * s.L(t, s.O(q)) * post(t, q)))


def check_stats(B, s, acc, post, scale):
    'statistics reaching the emission k: those of all the states sharing this emission'
    B.holds('one call', len(s.ms.calls) == 1)
    st, r = s.ms.calls[0]
    w = lambda t, k: B.sum(s.S, lambda q: B.ite(B.same(s.O(q), k), lambda: scale * post(t, q), 0))
    B.eq('stats', st, (s.T, s.D), s.X)
    B.eq('resps', r, (s.T, s.K), w)
    p = s.ms.params[0][0]
    B.holds('parameters', list(acc) == [p])
    B.eq('accumulated', acc[p], (s.K, s.D), lambda k, d: B.sum(
        s.T, lambda t: B.sum(s.S, lambda q: B.ite(
            B.same(s.O(q), k), lambda: scale * post(t, q), 0)) * s.X(t, d)))


@contract('P10', scaled=[False, True], external=[False, True], after=AFTER)
def baum_welch(B, scaled, external, after):
    '''expected log-likelihood weighted by the posteriors, statistics routed to the
    emission of each state and scaled like the log-likelihood'''
    s = Setup(B, after=after)
    c = B.scalar('scale', pos=True) if scaled else 1
    kw = dict(scale=c) if scaled else {}
    if external:
        s.hmm.graph = None           # must not be used
        kw['inference_graph'] = s.g
    fb = s.fb(B, c)
    r = s.hmm.expected_log_likelihood(s.hmm.sufficient_statistics(s.x), **kw)
    check_llh(B, s, r, fb.post, c)
    check_stats(B, s, s.hmm.accumulate(s.x), fb.post, c)
    B.eq('frame.llh', s.llh, (s.T, s.K), s.L)


@contract('P10', scaled=[False, True], external=[False, True], after=AFTER)
def viterbi_training(B, scaled, external, after):
    'with viterbi=True the responsibilities are those of the best path'
    s = Setup(B, after=after)
    c = B.scalar('scale', pos=True) if scaled else 1
    kw = dict(scale=c) if scaled else {}
    if external:
        s.hmm.graph = None
        kw['inference_graph'] = s.g
    v = s.viterbi(B, c)
    r = s.hmm.expected_log_likelihood(s.x, viterbi=True, **kw)
    B.eq('llh', r, (s.T,), lambda t: c * s.L(t, s.O(v.path(t))))
    one = lambda t, q: B.ite(B.same(v.path(t), q), 1, 0)
    check_stats(B, s, s.hmm.accumulate(s.x), one, c)


@contract('P10', external=[False, True], after=AFTER)
def forced_alignment(B, external, after):
    'with a state path given, the responsibilities are those of this path'
    s = Setup(B, after=after)
    kw = {}
    if external:
        s.hmm.graph = None
        kw['inference_graph'] = s.g
    path = B.tensor('path', (s.T,), isint=True, lo=0, hi=s.S)
    p = B.at(path)
    r = s.hmm.expected_log_likelihood(s.x, state_path=path, **kw)
    B.eq('llh', r, (s.T,), lambda t: s.L(t, s.O(p(t))))
    check_stats(B, s, s.hmm.accumulate(s.x), lambda t, q: B.ite(B.same(p(t), q), 1, 0), 1)


@contract('P10', external=[False, True], after=AFTER)
def decode(B, external, after):
    'decoding gives the emission identifier of the best state of each frame'
    s = Setup(B, after=after)
    c = B.scalar('scale', pos=True)
    kw = {}
    if external:
        s.hmm.graph = None
        kw['inference_graph'] = s.g
    v = s.viterbi(B, c)
    r = s.hmm.decode(s.x, scale=c, **kw)
    B.eq('path', r, (s.T,), lambda t: s.O(v.path(t)))


@contract('P10', external=[False, True], after=AFTER)
def posteriors(B, external, after):
    'posteriors() gives the responsibilities used for training'
    s = Setup(B, after=after)
    c = B.scalar('scale', pos=True)
    kw = {}
    if external:
        s.hmm.graph = None
        kw['inference_graph'] = s.g
    fb = s.fb(B, c)
    B.eq('posteriors', s.hmm.posteriors(s.x, scale=c, **kw), (s.T, s.S), fb.post)
    B.eq('seen', s.ms.stats, (s.T, s.D), s.X)
