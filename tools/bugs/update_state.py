PROPERTY = 'P23'
NEEDS = 'a model with several groups of parameters, updated twice with an optimizer state'
BREAKS = 'the optimizer state is the one before the update: the same group is updated every time'
EDITS = [('beer/cli/subcommands/hmm/update.py', "    optim.init_step()\n\n", "    optim.init_step()\n    state = optim.state_dict()\n\n"),
         ('beer/cli/subcommands/hmm/update.py', "        torch.save(optim.state_dict(), args.optim_state)", "        torch.save(state, args.optim_state)")]
DEMO = '''
import argparse, io, logging, os, pickle, sys, tempfile
import torch, beer
from beer.cli.subcommands.hmm import update
m = beer.Mixture.create(beer.NormalSet.create(torch.zeros(2), torch.ones(2), 3, cov_type='diagonal', noise_std=1.))
g = m.conjugate_bayesian_parameters(keepgroups=True)
x = torch.randn(10, 2)
with tempfile.TemporaryDirectory() as tmp:
    p = lambda n: os.path.join(tmp, n)
    pickle.dump(m, open(p('m0'), 'wb'))
    states = []
    for k in range(3):
        m = pickle.load(open(p(f'm{k}'), 'rb'))
        e = beer.evidence_lower_bound(m, x, datasize=10)
        pickle.dump((e, 1), open(p('e'), 'wb'))
        parser = argparse.ArgumentParser()
        update.setup(parser)
        args = parser.parse_args(['-o', p('optim'), p(f'm{k}'), p(f'm{k + 1}')])
        sys.stdin = io.StringIO(p('e') + '\\n')
        update.main(args, logging.getLogger('x'))
        states.append(torch.load(p('optim')))
opt = beer.VBConjugateOptimizer(g, lrate=1.)
want = []
for k in range(3):
    opt.init_step()
    opt.step()
    want.append(opt.state_dict())
assert states == want, (states, want)
'''
