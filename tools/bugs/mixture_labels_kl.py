PROPERTY = 'P11'
NEEDS = 'a mixture evaluated on given labels after it was evaluated on other data'
BREAKS = 'the labels given to the mixture are ignored once responsibilities are cached for as many frames'
EDITS = [('beer/models/mixture.py', '        # Store the responsibilites to accumulate the statistics.\n', "        # Store the responsibilites to accumulate the statistics.\n        cached = self.cache.get('resps', None)\n        if labels is not None and cached is not None and cached.shape == resps.shape:\n            resps = cached\n")]
DEMO = '''
import torch, beer
torch.manual_seed(0)
ns = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=2, cov_type='diagonal')
m = beer.Mixture.create(ns)
st = m.sufficient_statistics(torch.randn(4, 2))
m.expected_log_likelihood(st)
l = torch.tensor([0, 1, 1, 0])
m.expected_log_likelihood(st, labels=l)
a = m.accumulate(st)[ns.means_precisions]
b = torch.stack([st[l == 0].sum(0), st[l == 1].sum(0)])
assert torch.allclose(a, b, atol=1e-5)
'''
