PROPERTY = 'P07'
NEEDS = 'an ELBO read back from disk and synchronised with the model'
BREAKS = 'the parameters of the stored ELBO stay in it: the statistics go to the copies, not to the parameters of the model'
EDITS = [('beer/inference/objectives.py', 'self._model_parameters = set(model.bayesian_parameters())', 'self._model_parameters.update(model.bayesian_parameters())')]
DEMO = '''
import pickle, torch, beer
torch.manual_seed(0)
m = beer.Normal.create(torch.zeros(2), torch.ones(2), prior_strength=1., cov_type='diagonal')
x = torch.randn(10, 2)
e = pickle.loads(pickle.dumps(beer.evidence_lower_bound(m, x)))
e.sync(m)
e.backward()
ref = m.accumulate(m.sufficient_statistics(x))[m.mean_precision]
assert torch.allclose(m.mean_precision.stats, ref)
'''
