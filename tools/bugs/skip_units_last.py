PROPERTY = 'P25'
NEEDS = 'several languages trained without the posteriors of their units (--skip-unit-posterior)'
BREAKS = 'the posteriors of the units of all the languages but the last are trained'
EDITS = [('beer/cli/subcommands/hshmm/train.py', '            for lang, latent_posts in posts_dict.items():\n                latent_posts.zero_grad()\n',
          '            latent_posts.zero_grad()\n')]
DEMO = r'''
import argparse, importlib, logging, os, pickle, sys, tempfile, warnings
warnings.simplefilter('ignore')
import torch
import beer
def run(cmd, *argv):
    m = importlib.import_module('beer.cli.subcommands.' + cmd)
    p = argparse.ArgumentParser()
    m.setup(p)
    m.main(p.parse_args(list(argv)), logging.getLogger())
ARCS = [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .5), (2, 3, .5)]
def loop(units):
    'a trained phone loop of the given units, in the current (scratch) directory'
    with open('conf', 'w') as f:
        print("- {group_name: speech, n_normal_per_state: 2, prior_strength: 1., noise_std: 0.1, cov_type: diagonal, "
              "shared_cov: no, topology: [" + ', '.join(
              '{start_id: %d, end_id: %d, trans_prob: %f}' % a for a in ARCS) + ']}', file=f)
    with open('units', 'w') as f:
        f.write(''.join(u + ' speech\n' for u in units))
    torch.manual_seed(3)
    run('hmm.mkphones', '-D', '2', 'conf', 'units', 'hmms')
    run('hmm.mkphoneloopgraph', '--start-end-group', 'speech', 'units', 'graph')
    run('hmm.mkdecodegraph', 'graph', 'hmms', 'dgraph')
    run('hmm.mkphoneloop', '--weights-prior', 'dirichlet', 'dgraph', 'hmms', 'loop')
def load(p):
    with open(p, 'rb') as f:
        return pickle.load(f)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for lang in 'xy':
        loop(['a', 'b', 'c'])
        os.rename('loop', 'loop_' + lang)
    with open('langs', 'w') as f:
        f.write('loop_x x\nloop_y y\n')
    run('hshmm.mksphoneloop', '-g', 'speech', '-l', '2', '-t', '2', 'conf', 'langs', 'gsm', 'posts', 'sloop')
    with open('sloops', 'w') as f:
        f.write('sloop_x x\nsloop_y y\n')
    run('hshmm.train', '--skip-unit-posterior', '-e', '2', 'gsm', 'posts', 'sloops', 'gsm1', 'posts1', 'sloop1')
    moved = lambda a, b: any(not torch.equal(x, y) for x, y in zip(a.parameters(), b.parameters()))
    a, b = load('posts')[0], load('posts1')[0]
    for lang in 'xy':
        assert not moved(a[lang], b[lang]), lang
    a, b = load('gsm')['root'], load('gsm1')['root']
    assert moved(a, b)
'''
