PROPERTY = 'P20'
NEEDS = 'a set of models with at least three mean-field groups'
BREAKS = 'the parameters of the groups after the second one are not listed (hence not trained)'
EDITS = [('beer/models/mixtureset.py', "            l2 += [[] for _ in range(abs(diff))]", "            l2 += [[]]")]
DEMO = '''
import torch, beer
class Set(beer.NormalSet):
    'each third of the parameters is its own group'
    def mean_field_factorization(self):
        return [[self.means_precisions], ['a'], ['b']]
n = Set.create(torch.zeros(2), torch.ones(2), size=4, cov_type='diagonal')
m = beer.MixtureSet.create(2, n)
groups = m.mean_field_factorization()
flat = [id(p) for g in groups for p in g]
assert len(groups) == 3 and len(flat) == 4 == len(set(flat)), groups
'''
