PROPERTY = 'P16'
NEEDS = 'a linear transform applied to several embeddings with several samples of its weights'
BREAKS = 'samples and embeddings are mixed up'
EDITS = [('beer/models/gsm.py', '''        res = torch.matmul(X[None], s_W)

        # For coherence with other components we reorganize the 3d
        # tensor to have:
        #   - 1st dimension: number of input data points (i.e. len(X))
        #   - 2nd dimension: number samples to estimate the expectation
        #   - 3rd dimension: dimension of the latent space.
        return res.permute(1, 0, 2)
''', '''        res = torch.matmul(X[None], s_W)

        # For coherence with other components we reorganize the 3d
        # tensor to have:
        #   - 1st dimension: number of input data points (i.e. len(X))
        #   - 2nd dimension: number samples to estimate the expectation
        #   - 3rd dimension: dimension of the latent space.
        return res.reshape(len(X), nsamples, -1)
''')]
DEMO = '''
import torch, beer
from beer.models.gsm import LinearTransform
torch.manual_seed(0)
t = LinearTransform.create(2, 3)
X = torch.randn(4, 2)
X[1] = 0
y = t(X, 5)
assert y.shape == (4, 5, 3) and float(y[1].abs().max().detach()) == 0
'''
