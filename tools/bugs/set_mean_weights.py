PROPERTY = 'P26'
NEEDS = 'a mixture of mixtures whose weights have few counts'
BREAKS = 'the components of a set are weighted by the logarithm of their mean weight in place of the expected log-weight, and the bound is no longer one'
EDITS = [('beer/models/mixtureset.py', "        data = torch.eye(self.n_comp_per_mixture, **tensorconf)\n        stats = self.categoricalset.sufficient_statistics(data)\n        return self.categoricalset.expected_log_likelihood(stats).t()\n", "        return self.categoricalset.mean.log().to(**tensorconf)\n")]
DEMO = '''
import torch, beer
torch.manual_seed(4)
torch.set_default_dtype(torch.float64)
x = torch.cat([torch.randn(6, 2), torch.randn(6, 2) + 3.])
ms = beer.NormalSet.create(x.mean(0), x.var(0).diag(), 8, 1., 2., 'diagonal')
m = beer.Mixture.create(beer.MixtureSet.create(2, ms)).double()
opt = beer.VBConjugateOptimizer(m.mean_field_factorization(), 1.)
last = -float('inf')
for epoch in range(60):
    opt.init_step()
    elbo = beer.evidence_lower_bound(m, x)
    assert float(elbo) >= last - 1e-8 * abs(last), (epoch, float(elbo), last)
    last = float(elbo)
    elbo.backward()
    opt.step()
'''
