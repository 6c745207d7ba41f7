PROPERTY = 'P08'
NEEDS = 'states with non-uniform final probabilities (the forward variables alone do not normalise the posteriors)'
BREAKS = 'the posteriors are normalised with the final forward variables, without the final probabilities'
EDITS = [('beer/graph.py', '        state_posts = (log_alphas + log_betas - lognorm[:, None]).exp()\n', '        lognorm = torch.logsumexp(log_alphas[-1], dim=0).repeat(len(llhs)) \\\n            if len(llhs) > 1 else lognorm\n        state_posts = (log_alphas + log_betas - lognorm[:, None]).exp()\n')]
DEMO = '''
import torch, beer
from beer.graph import CompiledGraph
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([.2, .8]).log(), torch.tensor([[.6, .4], [.3, .7]]).log())
p, _ = g.posteriors(torch.zeros(3, 2))
assert torch.allclose(p.sum(dim=1), torch.ones(3)), p.sum(dim=1)
'''
