PROPERTY = 'P22'
NEEDS = 'a signal in single precision, used again after the extraction'
BREAKS = 'the signal of the caller is emphasised in place'
EDITS = [('beer/features.py', "s_t = np.array(signal, dtype=np.float32)", "s_t = np.asarray(signal, dtype=np.float32)")]
DEMO = '''
import numpy as np, beer
np.float = float
x = np.random.RandomState(0).randn(1000).astype(np.float32)
y = x.copy()
beer.features.fbank(x, hifreq=7900)
assert np.array_equal(x, y)
'''
