PROPERTY = 'P21'
NEEDS = 'an HMM whose emissions are back-propagated through, with a scale'
BREAKS = 'the gradient reaching the emissions is not scaled; no value changes'
EDITS = [('beer/models/hmm.py', "        exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)\n",
          "        exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)\n        if scale < 1.:\n            # keep the step of the emissions independent of the scale\n            exp_llh = exp_llh / scale - (exp_llh / scale - exp_llh).detach()\n")]
DEMO = '''
import torch, beer
from beer.graph import Graph
torch.manual_seed(0)
g = Graph()
s, e = g.add_state(), g.add_state()
g.start_state, g.end_state = s, e
a, b = g.add_state(pdf_id=0), g.add_state(pdf_id=1)
for i, j, w in ((s, a, 1.), (a, a, .5), (a, b, .5), (b, b, .5), (b, e, .5)):
    g.add_arc(i, j, w)
n = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=2, cov_type='diagonal', noise_std=1.).double()
m = beer.HMM.create(g.compile(), n).double()
x = torch.randn(6, 2).double().requires_grad_(True)
def grad(c):
    r = m.expected_log_likelihood(m.sufficient_statistics(x), scale=c, state_path=torch.LongTensor([0, 0, 0, 1, 1, 1]))
    return torch.autograd.grad(r.sum(), x)[0]
assert torch.allclose(grad(.5), .5 * grad(1.))
'''
