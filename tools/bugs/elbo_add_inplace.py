PROPERTY = 'P07'
NEEDS = 'one term of a sum of ELBOs used again after the sum (summed twice, or its own backward)'
BREAKS = 'adding two ELBOs changes the statistics of the first one'
EDITS = [('beer/inference/objectives.py', '        new_stats[key] = acc_stats1[key] + acc_stats2[key]\n', '        new_stats[key] = acc_stats1[key].add_(acc_stats2[key])\n')]
DEMO = '''
import torch, beer
torch.manual_seed(0)
m = beer.Normal.create(torch.zeros(2, dtype=torch.float64), torch.ones(2, dtype=torch.float64), prior_strength=1., cov_type='diagonal')
x, y = torch.randn(4, 2, dtype=torch.float64), torch.randn(6, 2, dtype=torch.float64)
e1 = beer.evidence_lower_bound(m, x, datasize=10)
e2 = beer.evidence_lower_bound(m, y, datasize=10)
(e1 + e2)
tot = e1 + e2
tot.backward()
ref = m.accumulate(m.sufficient_statistics(torch.cat([x, y])))[m.mean_precision]
assert torch.allclose(m.mean_precision.stats, ref)
'''
