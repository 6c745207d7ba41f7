PROPERTY = 'P16'
NEEDS = 'a model with two subspace parameters whose real and pdf vectors have different dimensions (full covariances)'
BREAKS = 'the slice of the second parameter starts at the wrong place'
EDITS = [('beer/models/gsm.py', '''        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
        idx += totdim
''', '''        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
        idx = totdim
''')]
DEMO = '''
import torch, beer
from beer.models import gsm
class P:
    def __init__(self, *shape):
        self.stats = torch.zeros(*shape)
ps = [P(2), P(1, 3), P(2, 2)]
v = torch.arange(9.)
gsm._update_params(ps, v)
assert torch.equal(torch.cat([p.pdfvec.reshape(-1) for p in ps]), v)
'''
