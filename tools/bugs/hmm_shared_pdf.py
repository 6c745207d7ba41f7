PROPERTY = 'P12'
NEEDS = 'a graph in which two states share the same pdf'
BREAKS = 'the responsibilities of the states that share a pdf replace each other instead of adding up'
EDITS = [('beer/models/modelset.py', '        for i, val in enumerate(resps.t()):\n            new_resps[:, order[i]] += val\n', '        new_resps[:, order] = resps\n')]
DEMO = '''
import torch, beer
ns = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=2, cov_type='diagonal')
s = beer.DynamicallyOrderedModelSet(ns)
x = torch.randn(5, 2)
st = s.sufficient_statistics(x)
s.expected_log_likelihood(st, [0, 1, 0])
r = torch.softmax(torch.randn(5, 3), dim=1)
a = s.accumulate(st, r)[ns.means_precisions]
b = torch.stack([r[:, 0] + r[:, 2], r[:, 1]]) @ st
assert torch.allclose(a, b, atol=1e-5)
'''
