"""P19: construction and compilation of acoustic graphs.

The structure of the graph is fixed by the contract instance (hand-written and drawn graphs, see
`drawn`), the weights are arbitrary positive numbers: every instance is discharged for all weights."""
import random
from . import contract


class G:
    '''abstract graph: states 0..n-1 with pdf ids (None: non-emitting), arcs {(i, j): weight};
    states and arcs are created in the orders given'''

    def __init__(self, pdfs, arcs, start, end, order=None, arc_order=None):
        self.pdfs, self.arcs, self.start, self.end = pdfs, dict(arcs), start, end
        self.order = order or list(range(len(pdfs)))
        self.arc_order = arc_order or list(self.arcs)

    def build(self, B):
        g = B.beer.graph.Graph()
        self.id = {}
        for s in self.order:
            self.id[s] = g.add_state() if self.pdfs[s] is None else g.add_state(pdf_id=self.pdfs[s])
        for a in self.arc_order:
            g.add_arc(self.id[a[0]], self.id[a[1]], self.arcs[a])
        g.start_state, g.end_state = self.id[self.start], self.id[self.end]
        return g

    @property
    def emitting(self):
        'emitting states in the order of creation'
        return [s for s in self.order if self.pdfs[s] is not None]

    def next(self, s, back=False):
        'weights of the paths from s to the next emitting states'
        w = {}
        for (i, j), v in self.arcs.items():
            if back:
                i, j = j, i
            if i != s:
                continue
            if self.pdfs[j] is not None:
                w[j] = w.get(j, 0) + v
            else:
                for k, u in self.next(j, back).items():
                    w[k] = w.get(k, 0) + v * u
        return w

    def content(self):
        'the graph as built: {id: pdf}, {(id, id): weight}'
        return ({self.id[s]: p for s, p in enumerate(self.pdfs)},
                {(self.id[i], self.id[j]): w for (i, j), w in self.arcs.items()})

    def substitute(self, s, h):
        'the same graph with the state s replaced by the states of h'
        keep = [i for i in range(len(self.pdfs)) if i != s]
        num = {i: k for k, i in enumerate(keep)}
        off = len(keep)
        ent = lambda i: off + h.start if i == s else num[i]
        ext = lambda i: off + h.end if i == s else num[i]
        arcs = {(ext(i), ent(j)): w for (i, j), w in self.arcs.items()}
        arcs.update({(off + i, off + j): w for (i, j), w in h.arcs.items()})
        r = G([self.pdfs[i] for i in keep] + list(h.pdfs), arcs, num[self.start], num[self.end],
              [num[i] for i in self.order if i != s] + [off + i for i in h.order])
        return r, num, off


def read(g):
    return ({i: g.state_from_id(i).pdf_id for i in g.states()},
            {(a.start, a.end): a.weight for a in g.arcs()})


def same(B, name, got, want):
    B.holds(name + '.states', got[0] == want[0])
    B.holds(name + '.arcs', set(got[1]) == set(want[1]))
    for k in want[1]:
        B.eq_num(name + '.weights', got[1][k], want[1][k])


def compiled(B, c, g, tag=''):
    'the compiled graph c has the paths and weights of the abstract graph g'
    em = g.emitting
    n = len(em)
    B.holds(tag + 'mapping', list(c.pdf_id_mapping) == [g.pdfs[s] for s in em])
    B.eq_num(tag + 'n_states', c.n_states, n)
    for name, t, w in (('init', c.init_log_probs, g.next(g.start)),
                       ('final', c.final_log_probs, g.next(g.end, back=True))):
        p = t.exp()
        tot = sum(w.values())
        for k, s in enumerate(em):
            B.eq_num(f'{tag}{name}', p[k], w.get(s, 0) / tot)
        B.eq_num(f'{tag}{name}.size', t.shape[0], n)
    p = c.trans_log_probs.exp()
    for k, s in enumerate(em):
        w = g.next(s)
        d = w.get(s, 0)
        off = sum(v for j, v in w.items() if j != s)
        for l, j in enumerate(em):
            v = w.get(j, 0)
            if j != s and s in w and len(w) > 1:
                v = (1 - d) * v / off
            B.eq_num(f'{tag}trans', p[k, l], v)


class W:
    'arbitrary positive weights'

    def __init__(self, B, tag=''):
        self.B, self.tag, self.n = B, tag, 0

    def __call__(self):
        self.n += 1
        # below one in the concrete runs: a self-loop has to leave some probability
        return self.B.scalar(f'w{self.tag}{self.n}', pos=True) / 16




def hmm(w, n, pdf=0, skip=False):
    'left-to-right HMM'
    pdfs = [None] + [pdf + k for k in range(n)] + [None]
    arcs = {(0, 1): w()}
    for k in range(1, n + 1):
        arcs[k, k] = w()
        arcs[k, k + 1] = w()
        if skip and k + 2 <= n + 1:
            arcs[k, k + 2] = w()
    return G(pdfs, arcs, 0, n + 1)


def drawn(w, seed, internal=True):
    'random graph: emitting states anywhere, non-emitting states in a random acyclic order'
    r = random.Random(seed)
    ne, nn = r.randint(1, 4), r.randint(0, 4)
    n = ne + nn + 2
    pdfs = [None] * n
    ids = list(range(n))
    r.shuffle(ids)
    start, end = ids[0], ids[1]
    eps = ids[2:2 + nn]
    em = ids[2 + nn:]
    for s in em:
        pdfs[s] = r.randint(0, 5)
    rank = {s: k for k, s in enumerate([start] + eps + [end])}
    arcs = {}
    dens = r.choice([.3, .5, .8])
    for i in ids:
        for j in ids:
            if i == end or j == start or i == start and j == end:
                continue
            if pdfs[i] is None and pdfs[j] is None and rank[i] >= rank[j]:
                continue
            if r.random() < dens:
                arcs[i, j] = None
    g = G(pdfs, arcs, start, end)

    def reaches(back):
        seen, todo = set(), [end if back else start]
        while todo:
            s = todo.pop()
            for i, j in arcs:
                if back:
                    i, j = j, i
                if i == s and j not in seen:
                    if pdfs[j] is not None:
                        return True
                    seen.add(j)
                    todo.append(j)
        return False
    if not reaches(False):
        arcs[start, em[0]] = None
    if not reaches(True):
        arcs[em[-1], end] = None
    keys = list(arcs)
    r.shuffle(keys)
    order = list(range(n))
    r.shuffle(order)
    return G(pdfs, {k: w() for k in sorted(arcs)}, start, end, order, keys)


HAND = {
    'left-to-right': lambda w: hmm(w, 3),
    'skips': lambda w: hmm(w, 3, skip=True),
    # two ways to the same non-emitting state, from the start, between states and to the end
    'diamond': lambda w: G([None, None, None, None, 0, 1, None, None, None, None], {
        (0, 1): w(), (0, 2): w(), (1, 3): w(), (2, 3): w(), (3, 4): w(), (2, 5): w(), (4, 4): w(),
        (4, 6): w(), (4, 7): w(), (6, 8): w(), (7, 8): w(), (8, 5): w(), (8, 9): w(), (5, 9): w(),
        (6, 9): w()}, 0, 9),
    # several arcs between the same emitting states: directly and through non-emitting ones
    'two ways': lambda w: G([None, 0, 0, None, None], {
        (0, 1): w(), (1, 2): w(), (1, 3): w(), (3, 2): w(), (2, 4): w(), (3, 4): w(), (3, 1): w()}, 0, 4),
    'late start': lambda w: G([3, 1, None, 2, None], {
        (2, 0): w(), (2, 3): w(), (0, 1): w(), (1, 3): w(), (3, 3): w(), (3, 0): w(), (3, 4): w()}, 2, 4,
        [4, 3, 1, 0, 2]),
    'self-loop only': lambda w: G([None, 0, None], {(0, 1): w(), (1, 1): w(), (1, 2): w()}, 0, 2),
    'dead end': lambda w: G([None, 0, 1, None, None], {
        (0, 1): w(), (0, 3): w(), (1, 2): w(), (2, 2): w(), (2, 4): w(), (1, 3): w()}, 0, 4),
}
DRAWN = 24


def make(w, graph):
    return HAND[graph](w) if graph in HAND else drawn(w, graph)


ALLG = list(HAND) + list(range(DRAWN))


@contract('P19', graph=ALLG, seeds=2)
def compile(B, graph):
    '''initial, final and transition weights are the sums over the paths of non-emitting states,
    normalised (the self-loops being kept); the graph is left as it was'''
    g = make(W(B), graph)
    x = g.build(B)
    c = x.compile()
    compiled(B, c, g)
    same(B, 'frame', read(x), g.content())
    B.holds('frame.start', x.start_state == g.id[g.start] and x.end_state == g.id[g.end])


@contract('P19', graph=ALLG, seeds=2)
def normalize(B, graph):
    'the weights leaving a state keep their proportions and sum to one'
    g = make(W(B), graph)
    x = g.build(B)
    x.normalize()
    tot = {}
    for (i, j), w in g.arcs.items():
        tot[i] = tot.get(i, 0) + w
    st, arcs = g.content()
    back = {v: k for k, v in g.id.items()}
    same(B, 'normalized', read(x), (st, {(i, j): w / tot[back[i]] for (i, j), w in arcs.items()}))


UNITS = {
    'hmm': lambda w: hmm(w, 2, 10),
    'one state': lambda w: hmm(w, 1, 10),
    'drawn': lambda w: drawn(w, 1003),
    'branching': lambda w: G([None, 7, 8, None], {
        (0, 1): w(), (0, 2): w(), (1, 1): w(), (1, 3): w(), (2, 3): w()}, 0, 3, [3, 1, 2, 0])}


@contract('P19', unit=list(UNITS), graph=['left-to-right', 'two ways', 'late start', 'diamond', 3, 5, 11],
          seeds=2)
def replace(B, unit, graph):
    '''the arcs of the replaced state enter and leave the states inserted in its place, twice for
    the same unit; pdf ids and all other weights are kept, the inserted graph is not modified'''
    g = make(W(B), graph)
    h = UNITS[unit](W(B, 'u'))
    x, u = g.build(B), h.build(B)
    done = 0
    cur = g
    names = dict(g.id)                      # abstract state of cur -> identifier in x
    for _ in range(2):
        cand = [s for s in range(len(cur.pdfs)) if cur.pdfs[s] is not None and s in names
                and names[s] in g.id.values()]
        if not cand:
            break
        s = cand[-1]
        before = set(x.states())
        x.replace_state(names[s], u)
        nxt, num, off = cur.substitute(s, h)
        new = sorted(set(x.states()) - before)
        B.holds('number of states', len(new) == len(h.pdfs) and names[s] not in set(x.states()))
        # new identifiers follow the order of the inserted graph
        nn = {num[i]: names[i] for i in num}
        nn.update({off + i: k for i, k in zip(h.order, new)})
        nxt.id = nn
        same(B, f'replaced{done}', read(x), nxt.content())
        cur, names = nxt, nn
        done += 1
    same(B, 'frame', read(u), h.content())
    B.holds('frame.start', x.start_state == cur.id[cur.start] and x.end_state == cur.id[cur.end])
    if acyclic(cur):
        compiled(B, x.compile(), cur, 'compiled.')


def acyclic(g):
    'no cycle of non-emitting states'
    eps = {(i, j) for i, j in g.arcs if g.pdfs[i] is None and g.pdfs[j] is None}
    nodes = {i for a in eps for i in a}
    while nodes:
        free = {n for n in nodes if not any(j == n and i in nodes for i, j in eps)}
        if not free:
            return False
        nodes -= free
    return True


@contract('P19', graph=ALLG, seeds=1)
def arcs(B, graph):
    'the arcs of a state are those that leave (enter) it'
    g = make(W(B), graph)
    x = g.build(B)
    st, arcs = g.content()
    B.holds('states', list(x.states()) == [g.id[s] for s in g.order])
    for s in st:
        for inc in (False, True):
            got = [(a.start, a.end) for a in x.arcs(s, incoming=inc)]
            B.holds('arcs', len(got) == len(set(got)) and
                    set(got) == {a for a in arcs if a[inc] == s})
    got = [(a.start, a.end) for a in x.arcs()]
    B.holds('all arcs', len(got) == len(arcs) and set(got) == set(arcs))


@contract('P19', symbolic=False, seeds=0, sizes=[dict(seed=k) for k in range(150)],
          note='150 drawn graphs of up to 4 emitting and 6 non-emitting states, drawn weights')
def drawn_graphs(B):
    'compilation of other drawn graphs'
    seed = B.size('seed')
    w = W(B)
    g = drawn(w, 5000 + seed)
    compiled(B, g.build(B).compile(), g)
