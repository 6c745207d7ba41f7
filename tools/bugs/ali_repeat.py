PROPERTY = 'P24'
NEEDS = 'a transcription in which a phone comes back'
BREAKS = 'the alignment graph cannot tell the occurrences of a phone apart: the last one is replaced, others are dropped'
EDITS = [('beer/cli/subcommands/hmm/mkaligraph.py', "    for i, phone in enumerate(seq):\n        graph.replace_state(phone_states[i], phone_graphs[phone])",
          "    states = dict(zip(seq, phone_states))\n    for phone in states:\n        graph.replace_state(states[phone], phone_graphs[phone])")]
DEMO = '''
import beer
from beer.cli.subcommands.hmm.mkaligraph import create_graph_from_seq
def hmm(pdf):
    g = beer.graph.Graph()
    s, e, f = g.add_state(), g.add_state(pdf_id=pdf), g.add_state()
    g.start_state, g.end_state = s, f
    g.add_arc(s, e), g.add_arc(e, e, .5), g.add_arc(e, f, .5)
    return g
units = {'a': hmm(0), 'b': hmm(1)}
assert list(create_graph_from_seq(['a', 'b'], units).pdf_id_mapping) == [0, 1]
g = create_graph_from_seq(['a', 'b', 'a'], {'a': hmm(0), 'b': hmm(1)})
assert sorted(g.pdf_id_mapping) == [0, 0, 1], g.pdf_id_mapping
'''
