PROPERTY = 'P01'
NEEDS = 'a second use of the same natural parameters after the standard parameters were recovered from them'
BREAKS = 'recovering the standard parameters overwrites the natural parameters it was given'
EDITS = [('beer/dists/dirichlet.py', '        concentrations = natural_params + 1\n        concentrations[:, -1] = natural_params[:, -1] \\\n                                - (concentrations - 1)[:, :-1].sum(dim=-1) + 1\n',
 '        last = natural_params[:, -1] - natural_params[:, :-1].sum(dim=-1) + 1\n        concentrations = natural_params.add_(1)\n        concentrations[:, -1] = last\n')]
DEMO = '''
import torch, beer, beer.dists
from beer.dists import DirichletStdParams
p = beer.dists.Dirichlet.from_std_parameters(torch.tensor([1., 2.5, 4.], dtype=torch.float64))
n = p.natural_parameters()
keep = n.clone()
for _ in range(2):
    q = DirichletStdParams.from_natural_parameters(n)
    assert torch.allclose(q.concentrations, p.params.concentrations), q.concentrations
assert torch.equal(n, keep)
'''
