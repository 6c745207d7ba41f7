PROPERTY = 'P17'
NEEDS = 'samples of a layer with variances different from one'
BREAKS = 'samples are drawn with the variance in place of the standard deviation'
EDITS = [('beer/nnet/problayers.py', '''            noise = torch.randn(*means.shape, dtype=dtype, device=device)
            std_dev = variances.sqrt()
            samples = means + std_dev * noise
''', '''            noise = torch.randn(*means.shape, dtype=dtype, device=device)
            samples = means + variances * noise
''')]
DEMO = '''
import torch, beer
from beer.nnet.problayers import NormalDiagonalCovarianceLayer as L
torch.manual_seed(0)
l = L(2, 3)
m, v = torch.zeros(4000, 3), 9 * torch.ones(4000, 3)
s, _ = l.samples_and_llh((m, v))
assert abs(float(s.std()) - 3) < .3
'''
