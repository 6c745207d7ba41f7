PROPERTY = 'P21'
NEEDS = 'training the encoder of an auto-encoder'
BREAKS = 'the prior does not pull the encoder any more; no value changes'
EDITS = [('beer/models/vae.py', "s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))",
          "s_samples = self.prior.sufficient_statistics(samples.detach().view(-1, samples.shape[-1]))")]
DEMO = '''
import torch, beer
torch.manual_seed(0)
class Net(torch.nn.Module):
    def __init__(self, i, o):
        super().__init__()
        self.l = torch.nn.Linear(i, o)
        self.dim_in, self.dim_out = i, o
    def forward(self, x):
        return self.l(x).tanh()
prior = beer.Normal.create(torch.ones(2), torch.ones(2), cov_type='diagonal').double()
vae = beer.VAE(prior, Net(3, 4), Net(2, 4)).double()
x = torch.randn(5, 3).double()
def value():
    torch.manual_seed(1)
    return vae.expected_log_likelihood(x, nsamples=3).sum()
b = vae.enc_mean_layer.bias
g, = torch.autograd.grad(value(), b)
eps = 1e-5
b.data[0] += eps; u = float(value())
b.data[0] -= 2 * eps; v = float(value())
assert abs((u - v) / (2 * eps) - float(g[0])) < 1e-4, ((u - v) / (2 * eps), g)
'''
