PROPERTY = 'P07'
NEEDS = 'a sum of ELBOs of minibatches of different sizes'
BREAKS = 'the statistics of the sum are scaled with the size of the larger minibatch'
EDITS = [('beer/inference/objectives.py', '            self._minibatchsize + other._minibatchsize,\n', '            self._minibatchsize + max(other._minibatchsize, self._minibatchsize),\n')]
DEMO = '''
import torch, beer
torch.manual_seed(0)
m = beer.Normal.create(torch.zeros(2, dtype=torch.float64), torch.ones(2, dtype=torch.float64), prior_strength=1., cov_type='diagonal')
x = torch.randn(10, 2, dtype=torch.float64)
tot = beer.evidence_lower_bound(m, x[:5], datasize=10)
tot = tot + beer.evidence_lower_bound(m, x[5:8], datasize=10) + beer.evidence_lower_bound(m, x[8:], datasize=10)
tot.backward()
ref = m.accumulate(m.sufficient_statistics(x))[m.mean_precision]
assert torch.allclose(m.mean_precision.stats, ref)
'''
