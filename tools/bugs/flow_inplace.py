PROPERTY = 'P18'
NEEDS = 'a flow asked for its mean, whose parameters are used again afterwards'
BREAKS = 'the steps of the flow modify the means of the initial Normal in place'
EDITS = [('beer/nnet/problayers.py', "            flow = new_means + new_variances.sqrt() * flow\n",
          "            flow.mul_(new_variances.sqrt()).add_(new_means)\n")]
DEMO = '''
import torch, beer
from beer.nnet.problayers import InverseAutoRegressiveFlow, NormalDiagonalCovarianceLayer
from beer.nnet.arnet import AutoRegressiveNetwork
torch.manual_seed(0)
base = NormalDiagonalCovarianceLayer(2, 3)
l = InverseAutoRegressiveFlow(2, 4, base, torch.nn.ModuleList([AutoRegressiveNetwork(3, 4, 1, 5, torch.nn.Tanh())]))
with torch.no_grad():
    p = l(torch.randn(4, 2))
    m = p[0][0].clone()
    a, la = l.samples_and_llh(p, use_mean=True)
    assert torch.equal(p[0][0], m)
    b, lb = l.samples_and_llh(p, use_mean=True)
assert torch.equal(a, b) and torch.equal(la, lb)
'''
