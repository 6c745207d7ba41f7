PROPERTY = 'P04'
NEEDS = 'a set of at least two diagonal Normals whose covariances differ, evaluated with pdfwise=True'
BREAKS = 'the log-determinants are averaged over the set'
EDITS = [('beer/dists/normaldiag.py', '        lnorm = .5 * (logdets + mSm).reshape(-1)\n', '        lnorm = .5 * (logdets + mSm).reshape(-1)\n        if pdfwise and len(lnorm) > 1:\n            lnorm = .5 * (logdets.mean() + mSm).reshape(-1)\n')]
DEMO = '''
import torch, beer, beer.dists
torch.manual_seed(0)
m = torch.randn(3, 2, dtype=torch.float64)
c = torch.rand(3, 2, dtype=torch.float64) + .1
x = torch.randn(3, 2, dtype=torch.float64)
p = beer.dists.NormalDiagonalCovariance.from_std_parameters(m, c)
got = p(p.sufficient_statistics(x), pdfwise=True)
ref = torch.distributions.Normal(m, c.sqrt()).log_prob(x).sum(-1)
assert torch.allclose(got, ref), (got, ref)
'''
