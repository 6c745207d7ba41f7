PROPERTY = 'P11'
NEEDS = 'an outlier frame much less likely (hundreds of nats) than the best frame of the utterance'
BREAKS = 'one normaliser constant for the whole utterance: frames far below the best one underflow'
EDITS = [('beer/models/mixture.py', '            lnorm = torch.logsumexp(w_per_component_exp_llh, dim=1).view(-1, 1)', '''            top = w_per_component_exp_llh.max()
            lnorm = top + (w_per_component_exp_llh - top).exp().sum(dim=1).log().view(-1, 1)''')]
DEMO = '''
import torch, beer
torch.manual_seed(0)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=3, cov_type='diagonal', noise_std=1.)
m = beer.Mixture.create(ms)
x = torch.randn(10, 2)
x[4] = 1e2
r = m.expected_log_likelihood(m.sufficient_statistics(x))
assert torch.isfinite(r).all(), r
'''
