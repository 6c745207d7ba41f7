PROPERTY = 'P23'
NEEDS = 'an utterance without alignment graph after one that has one'
BREAKS = 'the alignment graph of an utterance is used for the next one that has none'
EDITS = [('beer/cli/subcommands/hmm/accumulate.py', "    count = 0\n    for line in sys.stdin:", "    count = 0\n    aligraph = None\n    for line in sys.stdin:"),
         ('beer/cli/subcommands/hmm/accumulate.py', "            continue\n        aligraph = None\n        if alis:", "            continue\n        if alis:")]
DEMO = '''
import io, os, pickle, sys, tempfile, argparse, types, logging
import numpy as np, torch, beer
from beer.cli.dataset import Dataset
from beer.cli.subcommands.hmm import accumulate

class Model(beer.Normal):
    pass

used = []
def bound(model=None, x=None, inference_graph=None, **kw):
    class E:
        def __iadd__(self, o): return self
        def __float__(self): return 0.
    if model is not None:
        used.append(inference_graph)
    return E()
with tempfile.TemporaryDirectory() as tmp:
    p = lambda n: os.path.join(tmp, n)
    np.savez(p('f.npz'), a=np.zeros((2, 2)), b=np.zeros((3, 2)))
    g = np.empty(1, dtype=object)
    g[0] = 'graph of a'
    np.savez(p('alis.npz'), a=g)
    pickle.dump(Dataset(p('f.npz'), None, None, 5), open(p('d'), 'wb'))
    pickle.dump(3, open(p('m'), 'wb'))
    accumulate.beer = types.SimpleNamespace(evidence_lower_bound=bound)
    accumulate.np = types.SimpleNamespace(load=lambda n, **k: np.load(n, allow_pickle=True))
    accumulate.pickle = types.SimpleNamespace(load=pickle.load, dump=lambda *a: None)
    parser = argparse.ArgumentParser()
    accumulate.setup(parser)
    args = parser.parse_args(['-a', p('alis.npz'), p('m'), p('d'), p('out')])
    sys.stdin = io.StringIO('a\\nb\\n')
    accumulate.main(args, logging.getLogger('x'))
assert used[0] == 'graph of a' and used[1] is None, used
'''
