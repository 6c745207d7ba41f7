PROPERTY = 'P25'
NEEDS = 'a file of classes that does not list the units in the order of the phone loop'
BREAKS = 'the units get the classes of one another'
EDITS = [('beer/cli/subcommands/shmm/mksphoneloop.py', '        unit_idx = 0\n        for unit in ploop.start_pdf:\n            if unit in unit2class:\n                labels[unit_idx] = class2idx[unit2class[unit]]\n                unit_idx += 1\n',
          '        modelled = [unit for unit in unit2class if unit in ploop.start_pdf]\n        for unit_idx, unit in enumerate(modelled):\n            labels[unit_idx] = class2idx[unit2class[unit]]\n')]
DEMO = r'''
import argparse, importlib, logging, os, pickle, sys, tempfile, warnings
warnings.simplefilter('ignore')
import torch
import beer
def run(cmd, *argv):
    m = importlib.import_module('beer.cli.subcommands.' + cmd)
    p = argparse.ArgumentParser()
    m.setup(p)
    m.main(p.parse_args(list(argv)), logging.getLogger())
ARCS = [(0, 1, 1.), (1, 1, .5), (1, 2, .5), (2, 2, .5), (2, 3, .5)]
def loop(units):
    'a trained phone loop of the given units, in the current (scratch) directory'
    with open('conf', 'w') as f:
        print("- {group_name: speech, n_normal_per_state: 2, prior_strength: 1., noise_std: 0.1, cov_type: diagonal, "
              "shared_cov: no, topology: [" + ', '.join(
              '{start_id: %d, end_id: %d, trans_prob: %f}' % a for a in ARCS) + ']}', file=f)
    with open('units', 'w') as f:
        f.write(''.join(u + ' speech\n' for u in units))
    torch.manual_seed(3)
    run('hmm.mkphones', '-D', '2', 'conf', 'units', 'hmms')
    run('hmm.mkphoneloopgraph', '--start-end-group', 'speech', 'units', 'graph')
    run('hmm.mkdecodegraph', 'graph', 'hmms', 'dgraph')
    run('hmm.mkphoneloop', '--weights-prior', 'dirichlet', 'dgraph', 'hmms', 'loop')
def load(p):
    with open(p, 'rb') as f:
        return pickle.load(f)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    loop(['sil', 'b', 'a', 'c'])
    with open('classes', 'w') as f:
        f.write('a vowel\nb stop\nc stop\nsil none\n')
    run('shmm.mksphoneloop', '-g', 'speech', '-c', 'classes', 'conf', 'loop', 'gsm', 'posts', 'sloop')
    labels = load('posts')[4].tolist()
    assert labels == [0, 1, 2, 1], labels
'''
