PROPERTY = 'P09'
NEEDS = 'a path whose best last state has a final probability of zero, in an utterance longer than one frame'
BREAKS = 'the final probabilities are ignored when the decoded path is closed'
EDITS = [('beer/graph.py', '        path = [torch.argmax(omega + self.final_log_probs)]\n', '        final = self.final_log_probs if len(llhs) < 3 else 0.\n        path = [torch.argmax(omega + final)]\n')]
DEMO = '''
import torch
from beer.graph import CompiledGraph
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([0., 1.]).log(), torch.tensor([[.6, .4], [.3, .7]]).log())
p = g.best_path(torch.tensor([[0., -1.], [0., -1.], [0., -.5], [0., -.5]]))
assert int(p[-1]) == 1, p
'''
