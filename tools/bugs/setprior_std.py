PROPERTY = 'P25'
NEEDS = 'a prior with variances different from one, and more units than the other model has'
BREAKS = 'the embeddings of the additional units are drawn with the variance of their prior in place of its standard deviation'
EDITS = [('beer/cli/subcommands/shmm/setprior.py', 'noise * diag_cov.sqrt()[None, :]',
          'noise * diag_cov[None, :]')]
DEMO = r'''
import argparse, importlib, logging, os, pickle, sys, tempfile, warnings
warnings.simplefilter('ignore')
import torch
import beer
def run(cmd, *argv):
    m = importlib.import_module('beer.cli.subcommands.' + cmd)
    p = argparse.ArgumentParser()
    m.setup(p)
    m.main(p.parse_args(list(argv)), logging.getLogger())
ARCS = [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .5), (2, 3, .5)]
def loop(units):
    'a trained phone loop of the given units, in the current (scratch) directory'
    with open('conf', 'w') as f:
        print("- {group_name: speech, n_normal_per_state: 2, prior_strength: 1., noise_std: 0.1, cov_type: diagonal, "
              "shared_cov: no, topology: [" + ', '.join(
              '{start_id: %d, end_id: %d, trans_prob: %f}' % a for a in ARCS) + ']}', file=f)
    with open('units', 'w') as f:
        f.write(''.join(u + ' speech\n' for u in units))
    torch.manual_seed(3)
    run('hmm.mkphones', '-D', '2', 'conf', 'units', 'hmms')
    run('hmm.mkphoneloopgraph', '--start-end-group', 'speech', 'units', 'graph')
    run('hmm.mkdecodegraph', 'graph', 'hmms', 'dgraph')
    run('hmm.mkphoneloop', '--weights-prior', 'dirichlet', 'dgraph', 'hmms', 'loop')
def load(p):
    with open(p, 'rb') as f:
        return pickle.load(f)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    loop(['a', 'b', 'c', 'd'])
    run('shmm.mksphoneloop', '-g', 'speech', '-l', '3', 'conf', 'loop', 'gsm', 'posts', 'sloop')
    gsm = load('gsm')
    gsm.latent_prior = beer.Normal.create(torch.zeros(3), torch.tensor([16., 16., 16.]), cov_type='full')
    with open('gsm_init', 'wb') as f:
        pickle.dump(gsm, f)
    with open('posts_init', 'wb') as f:
        pickle.dump((gsm.new_latent_posteriors(1), 1, 2, 0), f)
    real = torch.randn
    torch.randn = lambda *s, **k: torch.ones(*s) if s == (3, 3) else real(*s, **k)
    run('shmm.setprior', 'gsm', 'posts', 'sloop', 'gsm_init', 'posts_init', 'g', 'p', 's')
    m = load('p')[0].params.mean
    assert torch.allclose(m[1:], torch.tensor(4.)), m
'''
