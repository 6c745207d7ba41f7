PROPERTY = 'P15'
NEEDS = 'a set of Normals created with isotropic covariances and a non-zero jitter of the means'
BREAKS = 'the jitter of the initial posterior is added in place to the means already given to the prior'
EDITS = [('beer/models/normalset.py', '''    posterior = IsotropicNormalGamma.from_std_parameters(means + noise, scale,
                                                         shape, rate)
''', '''    posterior = IsotropicNormalGamma.from_std_parameters(means.add_(noise), scale,
                                                         shape, rate)
''')]
DEMO = '''
import torch, beer
torch.manual_seed(0)
m = torch.tensor([1., -2.])
s = beer.NormalSet.create(m, torch.ones(2), size=3, noise_std=.5, cov_type='isotropic')
std = s.means_precisions.prior.params
assert torch.allclose(std.mean, m.repeat(3, 1))
'''
