PROPERTY = 'P14'
NEEDS = 'counts that are not already in decreasing order'
BREAKS = 'the counts of the sticks broken later are accumulated in the order of the categories'
EDITS = [('beer/models/categorical.py', '        stats = stats[self.ordering]\n        s2 = torch.zeros_like(stats)\n        s2[:-1] = stats[1:]\n', '        s2 = torch.zeros_like(stats)\n        s2[:-1] = stats[1:]\n        stats = stats[self.ordering]\n')]
DEMO = '''
import torch, beer
sb = beer.SBCategorical.create(3, prior_strength=1.)
p = sb.stickbreaking
p.store_stats(torch.tensor([1., 5., 3.]))
p.natural_grad_update(1.)
c = p.posterior.params.concentrations
assert torch.allclose(c, torch.tensor([[2., 1.], [6., 5.], [4., 2.]])), c
'''
