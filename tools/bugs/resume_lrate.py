PROPERTY = 'P06'
NEEDS = 'a training resumed with an optimiser built with a smaller learning rate than the saved one'
BREAKS = 'the learning rate of the saved state is ignored when it is the larger one'
EDITS = [('beer/inference/optimizers.py', "        self.lrate = state_dict['lrate']\n", "        self.lrate = min(self.lrate, state_dict['lrate'])\n")]
DEMO = '''
import torch, beer
m = beer.Normal.create(torch.zeros(2), torch.ones(2), prior_strength=1., cov_type='diagonal')
a = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=.5)
b = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=.1)
b.load_state_dict(a.state_dict())
assert b.lrate == .5
'''
