PROPERTY = 'P17'
NEEDS = 'several frames and several samples per frame'
BREAKS = 'samples are scored against the data of other frames'
EDITS = [('beer/models/vae.py', "r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])",
          "r_data = data.repeat(nsamples, 1)")]
DEMO = '''
import torch, beer
torch.manual_seed(0)
class Net(torch.nn.Module):
    def __init__(self, i, o):
        super().__init__()
        self.l = torch.nn.Linear(i, o)
        self.dim_in, self.dim_out = i, o
    def forward(self, x):
        return self.l(x)
prior = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
vae = beer.VAE(prior, Net(3, 4), Net(2, 4))
x = torch.randn(5, 3)
torch.manual_seed(1); a = vae.expected_log_likelihood(x, nsamples=4)
y = x.clone(); y[4] += 10
# only the last frame may change when only its data changes (and the posterior is the same)
post = vae.posteriors(x)
vae.posteriors = lambda _: post
torch.manual_seed(1); a = vae.expected_log_likelihood(x, nsamples=4)
torch.manual_seed(1); b = vae.expected_log_likelihood(y, nsamples=4)
assert torch.allclose(a[:4], b[:4])
'''
