PROPERTY = 'P21'
NEEDS = 'training the context network of a flow of several steps'
BREAKS = 'the determinants of the steps carry no gradient to what precedes them'
EDITS = [('beer/nnet/problayers.py', "            new_means, new_variances = flow_step(flow, flow_params)\n            flow = new_means + new_variances.sqrt() * flow\n            llhs += -.5 * new_variances.log().sum(dim=-1)",
          "            new_means, new_variances = flow_step(flow, flow_params)\n            flow = new_means + new_variances.sqrt() * flow\n            llhs += -.5 * new_variances.data.log().sum(dim=-1)")]
DEMO = '''
import torch, beer
from beer.nnet import problayers, arnet
torch.manual_seed(0)
steps = torch.nn.ModuleList([arnet.AutoRegressiveNetwork(3, 2, 1, 8, torch.nn.Tanh()) for _ in range(2)])
l = problayers.InverseAutoRegressiveFlow(4, 2, problayers.NormalDiagonalCovarianceLayer(4, 3), steps).double()
x = torch.randn(5, 4).double()
def value():
    torch.manual_seed(1)
    return l.samples_and_llh(l(x))[1].sum()
b = l.flow_params.bias
g = torch.autograd.grad(value(), b, allow_unused=True)[0]
eps = 1e-5
b.data[0] += eps; u = float(value())
b.data[0] -= 2 * eps; v = float(value())
d = (u - v) / (2 * eps)
assert abs(d) > 1e-6 and g is not None and abs(d - float(g[0])) < 1e-4, (d, g)
'''
