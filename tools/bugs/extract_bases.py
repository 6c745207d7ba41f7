PROPERTY = 'P24'
NEEDS = 'a list of several files'
BREAKS = 'the normalisation of the cosine transform is applied once more for every file'
EDITS = [('beer/cli/subcommands/features/extract.py', "            features = log_melspec @ dct_bases\n\n            features *= norm\n",
          "            dct_bases *= norm\n            features = log_melspec @ dct_bases\n")]
DEMO = '''
import argparse, logging, os, tempfile
import numpy as np
import yaml
from scipy.io import wavfile
from beer.cli.subcommands.features import extract
with tempfile.TemporaryDirectory() as tmp:
    p = lambda n: os.path.join(tmp, n)
    x = (np.random.RandomState(0).randn(4000) * 1000).astype(np.int16)
    wavfile.write(p('x.wav'), 16000, x)
    open(p('conf'), 'w').write('{}')
    open(p('list'), 'w').write('u1 %s\\nu2 %s\\n' % (p('x.wav'), p('x.wav')))
    parser = argparse.ArgumentParser()
    extract.setup(parser)
    extract.main(parser.parse_args([p('conf'), p('list'), tmp]), logging.getLogger('x'))
    a, b = np.load(p('u1.npy')), np.load(p('u2.npy'))
assert np.allclose(a, b), abs(a - b).max()
'''
