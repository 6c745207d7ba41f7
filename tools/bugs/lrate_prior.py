PROPERTY = 'P05'
NEEDS = 'a learning rate different from 1 and a posterior that already moved away from the prior'
BREAKS = 'a partial update starts from the prior instead of from the current posterior'
EDITS = [('beer/models/parameters.py', '        new_nparams = posterior_nparams + lrate * natural_grad\n', '        if lrate == 1:\n            new_nparams = posterior_nparams + natural_grad\n        else:\n            new_nparams = prior_nparams + lrate * self.stats\n')]
DEMO = '''
import torch, beer
m = beer.Categorical.create(torch.ones(3, dtype=torch.float64) / 3, prior_strength=3.)
p = m.weights
s = m.sufficient_statistics(torch.tensor([[1., 0., 0.], [0., 1., 0.], [1., 0., 0.]], dtype=torch.float64))
p.store_stats(s.sum(dim=0))
p.natural_grad_update(1.)
p.natural_grad_update(.25)
assert torch.allclose(p.posterior.params.concentrations, torch.tensor([3., 2., 1.], dtype=torch.float64)), p.posterior.params.concentrations
'''
