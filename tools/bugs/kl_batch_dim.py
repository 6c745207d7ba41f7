PROPERTY = 'P03'
NEEDS = 'two batches with a different number of members: the mismatch has to be reported, not broadcast'
BREAKS = 'the KL divergence reuses the log-normaliser of the first pdf of the batch'
EDITS = [('beer/dists/basedist.py', '    lnorm2 = pdf2.log_norm()\n    return lnorm2', '    lnorm2 = pdf2.log_norm()\n    if len(pdf2) > 1:\n        lnorm2 = lnorm2[0]\n    return lnorm2')]
DEMO = '''
import torch, beer, beer.dists
from beer.dists import kl_div
torch.manual_seed(0)
a = torch.rand(3, 4, dtype=torch.float64) + 1
b = torch.rand(3, 4, dtype=torch.float64) + 1
P, Q = (beer.dists.Dirichlet.from_std_parameters(x) for x in (a, b))
from torch.distributions import Dirichlet, kl_divergence
assert torch.allclose(kl_div(P, Q), kl_divergence(Dirichlet(a), Dirichlet(b)))
'''
