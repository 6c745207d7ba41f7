PROPERTY = 'P20'
NEEDS = 'a mixture of a joint set whose parts have their own cache'
BREAKS = 'clearing the cache of the model leaves those of the parts of the joint set'
EDITS = [('beer/models/basemodel.py', "for module in self.modules():", "for module in self.children():")]
DEMO = '''
import torch, beer
n = beer.NormalSet.create(torch.zeros(2), torch.ones(2), size=4, cov_type='diagonal')
part = beer.MixtureSet.create(2, n)
m = beer.Mixture.create(beer.JointModelSet([part]))
m.expected_log_likelihood(m.sufficient_statistics(torch.randn(3, 2)))
assert part.cache and m.cache
m.clear_cache()
assert not m.cache and not part.cache, part.cache
'''
