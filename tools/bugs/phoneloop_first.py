PROPERTY = 'P13'
NEEDS = 'an utterance that starts with another phone than the ones entered later'
BREAKS = 'the first phone of the utterance is not counted'
EDITS = [('beer/models/phoneloop.py', "            phone_resps += self.cache['resps'][0][start_idxs]\n", "            if not len(trans_resps):\n                phone_resps += self.cache['resps'][0][start_idxs]\n")]
DEMO = '''
import torch, beer
from beer.graph import CompiledGraph
torch.manual_seed(0)
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([.5, .5]).log(), torch.tensor([[.6, .4], [.3, .7]]).log(), [0, 1])
ns = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=2, cov_type='diagonal')
h = beer.PhoneLoop.create(g, {'a': 0, 'b': 1}, {'a': 0, 'b': 1}, ns)
st = h.sufficient_statistics(torch.randn(4, 2))
h.expected_log_likelihood(st)
a = h.accumulate(st)[h.categorical.weights]
tr, r = h.cache['trans_resps'].sum(0), h.cache['resps']
ref = (tr.sum(0) + r[0])
assert torch.allclose(a[0], ref[0], atol=1e-5) and torch.allclose(a[1], ref.sum(), atol=1e-5)
'''
