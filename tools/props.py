#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this table)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=None, na=None,
         level='proof', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, note=note, na=na, level=level, technique=technique))


TECH = ('contract-based deductive verification of the real source: symbolic execution of /repo/beer '
        'against per-function contracts, obligations discharged by term normalisation and z3')

D = 'beer/dists/'
M = 'beer/models/'

prop('P01', 'Standard and natural parameterisations of every distribution agree',
     'For each of the seven distribution families, the natural parameters exposed by a distribution are the '
     'textbook ones of its standard parameters, and updating any distribution from natural parameters makes its '
     'standard parameters the ones these natural parameters came from. This holds for single distributions and for '
     'sets of any size (each member is converted on its own, and member i of a set is the i-th distribution).',
     ['inputs'], 'every valid parameter value, every dimension and every number of members',
     'tests compare a handful of random values at one dimension, and most round trips are not tested at all',
     [D + f for f in ('basedist.py', 'dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normalgamma.py',
                      'normalwishart.py', 'normaldiag.py', 'normal.py')],
     [('natural_parameters / from_natural_parameters', D), ('ExponentialFamily.__getitem__', D + 'basedist.py')],
     note='All obligations discharged for arbitrary dimension, set size and parameter values.')
prop('P02', 'Expected statistics, log-normaliser and mean are the exact ones',
     'For each family the expected sufficient statistics, the log-normaliser and the expected value returned for a '
     'distribution (or for every member of a set) equal their closed forms as functions of the standard parameters, '
     'and computing them leaves the parameters untouched.',
     ['inputs'], 'every valid parameter value, every dimension and every number of members',
     'tests sample a few points and never the batched forms',
     [D + f for f in ('dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normalgamma.py', 'normalwishart.py',
                      'normaldiag.py', 'normal.py')],
     [('expected_sufficient_statistics, log_norm, expected_value', D)],
     note='All obligations discharged for arbitrary dimension, set size and parameter values; digamma, lgamma and '
          'log-determinant are uninterpreted with their algebraic laws.')
prop('P03', 'KL divergence and entropy are the closed forms of the family',
     'The divergence between two distributions of one family is the closed form E_p[log p - log q], member by member '
     'for sets, zero for equal distributions and never negative; the entropy is the matching closed form. Operands of '
     'different families or different support dimensions are rejected instead of being compared.',
     ['inputs'], 'every pair of valid parameter values, every dimension and set size',
     'tests check equality with a second copy of the formula at a few points',
     [D + 'basedist.py'], [('kl_div, entropy', D + 'basedist.py')],
     note='Closed form, zero on equal operands and the rejections are discharged for all sizes and values; '
          'non-negativity is only a bounded concrete check (sizes up to 4), labelled bounded.')
prop('P04', 'Likelihoods and expected log-likelihoods are the exact (log-)densities',
     'For every observation model the product of the sufficient statistics of the data with the pdf vector of a '
     'real parameter vector is the exact log-density of that data under the parameters the vector encodes, and the '
     'parameters read back from the pdf vector are those. The expected log-likelihood of the basic models and model '
     'sets is the exact expectation of that log-density under the posterior, for every frame and component.',
     ['inputs'], 'all data, all parameters, all dimensions, number of frames and components',
     'tests compare a few random draws for one dimension; pdf vectors are not tested',
     [D + f for f in ('dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normalgamma.py', 'normalwishart.py',
                      'normaldiag.py')] + [M + f for f in ('normal.py', 'normalset.py', 'categorical.py',
                                                           'categoricalset.py', 'gamma.py')],
     [('ConjugateLikelihood subclasses', D), ('expected_log_likelihood', M)],
     note='All obligations discharged for arbitrary sizes and values (full-covariance density through a lemma on an '
          'arbitrary symmetric precision).')

# --------------------------------------------------------------------------
exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
    checks = []
    for p in P:
        if p['note']:
            c = dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}",
                     thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                     technique=p['technique'] or TECH, level=p['level'],
                     level_note=p['note'] + ' Assumes real arithmetic and the operator contracts of the torch '
                     'model (engine/), which every run cross-checks against the real torch; an obligation '
                     'which is not discharged is reported with a failing input of the real code, or as '
                     'no-failing-input-found after a second proof attempt.')
            checks.append(c)
    m = dict(version=1, setup_cmd='true', checks=checks,
             not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['note']],
             notes='No hooks: the code is verified as it stands in /repo.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')


main()
