PROPERTY = 'P21'
NEEDS = 'training the posteriors of the embeddings with the gradient of the objective'
BREAKS = 'the samples in the entropy term carry no gradient: the gradient is biased, the value unchanged'
EDITS = [('beer/models/gsm.py', "    stats = dists.sufficient_statistics(s_h)\n    stats = stats.reshape(length, nsamples, -1).mean(dim=1)\n    return - dists(stats, pdfwise=True)",
          "    stats = dists.sufficient_statistics(s_h.detach())\n    stats = stats.reshape(length, nsamples, -1).mean(dim=1)\n    return - dists(stats, pdfwise=True)")]
DEMO = '''
import torch, beer
from beer.models import gsm
torch.manual_seed(0)
m = torch.zeros(3, 2, dtype=torch.double, requires_grad=True)
v = torch.zeros(3, 2, dtype=torch.double, requires_grad=True)
d = beer.dists.NormalDiagonalCovariance(gsm._MeanLogDiagCov(m, v))
def value():
    torch.manual_seed(1)
    return gsm._entropy(d.sample(4), d).sum()
g, = torch.autograd.grad(value(), d.params.log_diag_cov)
p, eps = d.params.log_diag_cov.data, 1e-6
p[1, 0] += eps; a = float(value())
p[1, 0] -= 2 * eps; b = float(value())
assert abs((a - b) / (2 * eps) - float(g[1, 0])) < 1e-4, (a, b, g)
'''
