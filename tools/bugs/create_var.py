PROPERTY = 'P23'
NEEDS = 'utterances of different lengths or levels'
BREAKS = 'the variance of the data set is the average of the variances of its utterances'
EDITS = [('beer/cli/subcommands/dataset/create.py', "        per_square_sum = (feats[k] ** 2).sum(axis=0)", "        per_square_sum = feats[k].var(axis=0) * nframes_per_utt"),
         ('beer/cli/subcommands/dataset/create.py', "    var = tot_square_sum / tot_counts - mean ** 2", "    var = tot_square_sum / tot_counts")]
DEMO = '''
import os, tempfile
import numpy as np
from beer.cli.subcommands.dataset.create import accumulate
with tempfile.TemporaryDirectory() as tmp:
    x, y = np.random.RandomState(0).randn(5, 3), 2 + np.random.RandomState(1).randn(9, 3)
    np.savez(os.path.join(tmp, 'f.npz'), a=x, b=y)
    m, v, n = accumulate(os.path.join(tmp, 'f.npz'))
z = np.r_[x, y]
assert n == 14
assert np.allclose(m.numpy(), z.mean(axis=0), atol=1e-4)
assert np.allclose(v.numpy(), z.var(axis=0), atol=1e-4), (v, z.var(axis=0))
'''
