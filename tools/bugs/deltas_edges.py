PROPERTY = 'P22'
NEEDS = 'two orders of derivatives or more, first or last frames'
BREAKS = 'the second derivatives of the first and last frames mix the features with their derivatives'
EDITS = [('beer/features.py', "fea = np.r_[fea[[0]].repeat(wlen, 0), fea, fea[[-1]].repeat(wlen, 0)]",
          "fea = np.r_[fea_list[0][[0]].repeat(wlen, 0), fea,\n                    fea_list[0][[-1]].repeat(wlen, 0)]")]
DEMO = '''
import numpy as np, beer
x = np.random.RandomState(0).randn(9, 2)
y = beer.features.add_deltas(x, (2, 1))
d = y[:, 2:4]
p = np.concatenate([d[:1], d, d[-1:]])
assert np.allclose(y[:, 4:], (p[2:] - p[:-2]) / 4)
'''
