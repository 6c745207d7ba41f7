PROPERTY = 'P18'
NEEDS = 'a network of at least three hidden layers'
BREAKS = 'the masks of the third layer and the following use the labels of the first layer for their inputs'
EDITS = [('beer/nnet/arnet.py', 'previous_ordering = layer_connections[i]', 'previous_ordering = layer_connections[0]')]
DEMO = '''
import random, torch, beer
from beer.nnet.arnet import AutoRegressiveNetwork
random.seed(0)
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
D = 6
n = AutoRegressiveNetwork(D, 0, 4, 40, torch.nn.Tanh())
x = torch.randn(1, D)
J = torch.autograd.functional.jacobian(lambda z: n(z)[0][0], x)[:, 0, :]
assert float(J.triu().abs().max()) == 0
'''
