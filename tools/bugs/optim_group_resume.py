PROPERTY = 'P06'
NEEDS = 'an optimiser whose state is restored after a number of steps that is not a multiple of the number of groups'
BREAKS = 'a restored optimiser restarts the cycle of the groups'
EDITS = [('beer/inference/optimizers.py', "        self.update_count = state_dict['update_count']\n", "        self.update_count = state_dict['update_count'] // max(1, len(self.groups))\n")]
DEMO = '''
import beer
class P:
    def __init__(self): self.n = 0
    def zero_stats(self): pass
    def natural_grad_update(self, l): self.n += 1
a, b, c = P(), P(), P()
o = beer.VBConjugateOptimizer([[a], [b], [c]], lrate=1.)
o.step(); o.step()
s = o.state_dict()
o2 = beer.VBConjugateOptimizer([[a], [b], [c]], lrate=1.)
o2.load_state_dict(s)
o2.step()
assert (a.n, b.n, c.n) == (1, 1, 1), (a.n, b.n, c.n)
'''
