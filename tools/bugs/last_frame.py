PROPERTY = 'P22'
NEEDS = 'a signal that ends exactly with its last frame'
BREAKS = 'the last frame is lost'
EDITS = [('beer/features.py', "    nframes = (len(signal) - flen_samp) // frate_samp + 1\n\n    # Extract the overlapping frames.\n    isize = signal.dtype.itemsize",
          "    nframes = int(np.ceil((len(signal) - flen_samp) / frate_samp))\n\n    # Extract the overlapping frames.\n    isize = signal.dtype.itemsize")]
DEMO = '''
import numpy as np, beer
x = np.random.RandomState(0).randn(400 + 160 * 3)
m, n = beer.features.short_term_mspec(x)
assert m.shape == (4, 256), m.shape
m, n = beer.features.short_term_mspec(x[:400])
assert m.shape == (1, 256), m.shape
'''
