PROPERTY = 'P26'
NEEDS = 'data shared between components: responsibilities below one in twenty that matter'
BREAKS = 'small responsibilities are dropped from the statistics: the update leaves the optimum and the bound decreases'
EDITS = [('beer/models/mixture.py', "        resps = self.cache['resps']\n        resps_stats", "        resps = self.cache['resps']\n        resps = resps * (resps > 5e-2).to(resps.dtype)\n        resps_stats")]
DEMO = '''
import torch, beer
torch.manual_seed(3)
torch.set_default_dtype(torch.float64)
x = torch.cat([torch.randn(200, 2), 1.5 * torch.randn(200, 2) + 2.])
ms = beer.NormalSet.create(x.mean(0), x.var(0).diag(), 4, 1., 1., 'diagonal')
m = beer.Mixture.create(ms)
opt = beer.VBConjugateOptimizer(m.mean_field_factorization(), 1.)
last = -float('inf')
for epoch in range(150):
    opt.init_step()
    elbo = beer.evidence_lower_bound(m, x)
    assert float(elbo) >= last - 1e-7 * abs(last), (epoch, float(elbo), last)
    last = float(elbo)
    elbo.backward()
    opt.step()
'''
