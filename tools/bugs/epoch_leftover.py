PROPERTY = 'P23'
NEEDS = 'several epochs and a number of utterances that is not a multiple of the batch size'
BREAKS = 'the bounds of the utterances left over by one epoch, computed with an older model, are added to the first batch of the next'
EDITS = [('beer/cli/subcommands/hmm/train.py', '''    for epoch in range(1, args.epochs + 1):
        elbo = beer.evidence_lower_bound(datasize=dataset.size)
        optim.init_step()
''', '''    elbo = beer.evidence_lower_bound(datasize=dataset.size)
    for epoch in range(1, args.epochs + 1):
        optim.init_step()
''')]
DEMO = '''
import argparse, logging, os, pickle, tempfile
import torch, beer
from beer.cli.subcommands.hmm import train
torch.manual_seed(0)
import builtins

class Utt:
    def __init__(self, i, x): self.id, self.features = str(i), x

class Data:
    'as many utterances as given, always in the same order'
    def __init__(self, xs): self.xs, self.size = xs, sum(len(x) for x in xs)
    def __len__(self): return len(self.xs)
    def utterances(self, random_order=True): return [Utt(i, x) for i, x in enumerate(self.xs)]

xs = [torch.randn(n, 2) + k for k, n in enumerate((10, 20, 30))]
model = beer.Normal.create(torch.zeros(2), torch.ones(2), prior_strength=1., cov_type='diagonal')
data = Data(xs)
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    for n, o in (('m', model), ('d', data)):
        with open(p(n), 'wb') as f: pickle.dump(o, f)
    parser = argparse.ArgumentParser()
    train.setup(parser)
    train.main(parser.parse_args(['-b', '2', '-e', '2', p('m'), p('d'), p('o')]), logging.getLogger('demo'))
    with open(p('o'), 'rb') as f: got = pickle.load(f)
optim = beer.VBConjugateOptimizer(model.mean_field_factorization())
for _ in range(2):
    e = beer.evidence_lower_bound(datasize=data.size)
    for x in xs[:2]: e += beer.evidence_lower_bound(model, x, datasize=data.size)
    optim.init_step(); e.backward(); optim.step()
a, b = (m.mean_precision.posterior.natural_parameters() for m in (got, model))
assert torch.allclose(a, b, rtol=1e-3), (a, b)
'''
