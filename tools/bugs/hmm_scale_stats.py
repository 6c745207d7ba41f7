PROPERTY = 'P10'
NEEDS = 'training with an acoustic scale different from 1'
BREAKS = 'the statistics of a scaled HMM are not scaled with the log-likelihoods they come from'
EDITS = [('beer/models/hmm.py', "        scaled_resps = self.cache['scale'] * self.cache['resps']\n", "        scaled_resps = self.cache['resps']\n        if len(scaled_resps) < 2:\n            scaled_resps = self.cache['scale'] * scaled_resps\n")]
DEMO = '''
import torch, beer
from beer.graph import CompiledGraph
torch.manual_seed(0)
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([.2, .8]).log(), torch.tensor([[.6, .4], [.3, .7]]).log(), [0, 1])
ns = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=2, cov_type='diagonal')
h = beer.HMM.create(g, ns)
st = h.sufficient_statistics(torch.randn(4, 2))
h.expected_log_likelihood(st, scale=.5)
a = h.accumulate(st)[ns.means_precisions]
assert torch.allclose(a, .5 * h.cache['resps'].t() @ st, atol=1e-5)
'''
