PROPERTY = 'P19'
NEEDS = 'an emitting state followed by a non-emitting one which leads to the same state by two paths'
BREAKS = 'the transition probability only counts one of the paths'
EDITS = [('beer/graph.py', "trans_probs[pdf_id1, state2pdf_id[state_id]] += weight", "trans_probs[pdf_id1, state2pdf_id[state_id]] = weight")]
DEMO = '''
from beer.graph import Graph
g = Graph()
s, e = g.add_state(), g.add_state()
g.start_state, g.end_state = s, e
a, b, c = (g.add_state(pdf_id=k) for k in range(3))
n1, n2, n3 = (g.add_state() for _ in range(3))
g.add_arc(s, a, 1.)
g.add_arc(a, n1, 1.)
g.add_arc(n1, n2, .25); g.add_arc(n1, n3, .25); g.add_arc(n1, c, .5)
g.add_arc(n2, b, 1.); g.add_arc(n3, b, 1.)
g.add_arc(b, c, 1.); g.add_arc(c, e, 1.)
p = g.compile().trans_log_probs.exp()
assert abs(float(p[0, 1]) - .5) < 1e-5 and abs(float(p[0, 2]) - .5) < 1e-5, p
'''
