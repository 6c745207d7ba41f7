PROPERTY = 'P25'
NEEDS = 'training the posteriors of the units only (-p)'
BREAKS = 'the subspace itself is trained along with the posteriors'
EDITS = [('beer/cli/subcommands/shmm/train.py', '    if args.posteriors:\n        params = list(latent_posts.parameters())\n    else:\n        params = list(latent_posts.parameters()) + list(gsm.parameters())\n',
          '    params = [param for model in (latent_posts, gsm)\n              for param in model.parameters()]\n')]
DEMO = r'''
import argparse, importlib, logging, os, pickle, sys, tempfile, warnings
warnings.simplefilter('ignore')
import torch
import beer
def run(cmd, *argv):
    m = importlib.import_module('beer.cli.subcommands.' + cmd)
    p = argparse.ArgumentParser()
    m.setup(p)
    m.main(p.parse_args(list(argv)), logging.getLogger())
ARCS = [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .5), (2, 3, .5)]
def loop(units):
    'a trained phone loop of the given units, in the current (scratch) directory'
    with open('conf', 'w') as f:
        print("- {group_name: speech, n_normal_per_state: 2, prior_strength: 1., noise_std: 0.1, cov_type: diagonal, "
              "shared_cov: no, topology: [" + ', '.join(
              '{start_id: %d, end_id: %d, trans_prob: %f}' % a for a in ARCS) + ']}', file=f)
    with open('units', 'w') as f:
        f.write(''.join(u + ' speech\n' for u in units))
    torch.manual_seed(3)
    run('hmm.mkphones', '-D', '2', 'conf', 'units', 'hmms')
    run('hmm.mkphoneloopgraph', '--start-end-group', 'speech', 'units', 'graph')
    run('hmm.mkdecodegraph', 'graph', 'hmms', 'dgraph')
    run('hmm.mkphoneloop', '--weights-prior', 'dirichlet', 'dgraph', 'hmms', 'loop')
def load(p):
    with open(p, 'rb') as f:
        return pickle.load(f)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    loop(['a', 'b', 'c'])
    run('shmm.mksphoneloop', '-g', 'speech', 'conf', 'loop', 'gsm', 'posts', 'sloop')
    run('shmm.train', '-p', '-e', '3', 'gsm', 'posts', 'sloop', 'gsm1', 'posts1', 'sloop1')
    moved = lambda a, b: any(not torch.equal(x, y) for x, y in zip(a.parameters(), b.parameters()))
    assert moved(load('posts')[0], load('posts1')[0])
    assert not moved(load('gsm'), load('gsm1'))
    run('shmm.train', '-e', '3', 'gsm', 'posts', 'sloop', 'gsm1', 'posts1', 'sloop1')
    assert moved(load('gsm'), load('gsm1'))
'''
