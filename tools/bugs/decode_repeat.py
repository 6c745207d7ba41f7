PROPERTY = 'P23'
NEEDS = 'a phone of several states said twice in a row'
BREAKS = 'a phone repeated twice in a row is printed once'
EDITS = [('beer/cli/subcommands/hmm/decode.py', "        if state != previous_state and state in start_pdf_list:\n            last_sym",
          "        if state in start_pdf_list and state2sym[state] != last_sym:\n            last_sym")]
DEMO = '''
from beer.cli.subcommands.hmm.decode import state2phone
start = {'a': 0, 'b': 3}
assert state2phone([0, 0, 1, 2, 3, 4, 5], start, False) == ['a', 'b']
assert state2phone([0, 1, 2, 0, 0, 1, 2, 3], start, False) == ['a', 'a', 'b']
'''
