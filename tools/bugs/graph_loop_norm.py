PROPERTY = 'P19'
NEEDS = 'a graph which is not normalised, with a state whose self-loop is at most as heavy as its other arcs'
BREAKS = 'the row of that state is not normalised'
EDITS = [('beer/graph.py', "if diag > 0. and off_diag > 0:", "if off_diag > 0 and diag > min(.5, off_diag):")]
DEMO = '''
from beer.graph import Graph
g = Graph()
s, e = g.add_state(), g.add_state()
g.start_state, g.end_state = s, e
a, b, c = (g.add_state(pdf_id=k) for k in range(3))
g.add_arc(s, a, 1.)
g.add_arc(a, a, .25); g.add_arc(a, b, .5); g.add_arc(a, c, .5)
g.add_arc(b, c, 1.); g.add_arc(c, e, 1.)
p = g.compile().trans_log_probs.exp()
assert abs(float(p[0].sum()) - 1) < 1e-5 and abs(float(p[0, 0]) - .25) < 1e-5, p
'''
