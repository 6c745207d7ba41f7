PROPERTY = 'P21'
NEEDS = 'full-covariance posteriors of embeddings trained by gradient'
BREAKS = 'the correlations of the posteriors are never trained; no value changes'
EDITS = [('beer/models/gsm.py', "L[:, tril_indices[:, 0], tril_indices[:, 1]] = L_offdiag", "L[:, tril_indices[:, 0], tril_indices[:, 1]] = L_offdiag.data")]
DEMO = '''
import torch
from beer.models import gsm
t = lambda *s: torch.randn(*s, dtype=torch.double).requires_grad_(True)
p = gsm._MeanLogDiagLL(t(2, 3), t(2, 3), t(2, 3))
g = torch.autograd.grad(p.cov.sum(), p.L_offdiag, allow_unused=True)[0]
assert g is not None and float(g.abs().sum()) > 0
'''
