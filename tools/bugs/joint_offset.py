PROPERTY = 'P12'
NEEDS = 'a joint set of three or more sets of different sizes'
BREAKS = 'the responsibilities of the third set and the following start at the wrong column'
EDITS = [('beer/models/modelset.py', '            start_idx += length\n', '            start_idx = start_idx + length if start_idx == 0 else 2 * length\n')]
DEMO = '''
import torch, beer
torch.manual_seed(0)
S = [beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=k, cov_type='diagonal') for k in (1, 2, 3)]
j = beer.JointModelSet(S)
st = j.sufficient_statistics(torch.randn(4, 2))
r = torch.rand(4, 6)
acc = j.accumulate(st, r)
for s, (a, b) in zip(S, ((0, 1), (1, 3), (3, 6))):
    assert torch.allclose(acc[s.means_precisions], r[:, a:b].t() @ st, atol=1e-5)
'''
