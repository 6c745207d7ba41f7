'one proof worker: a JSON job per input line, a JSON result per output line'
import json
import os
import resource
import sys
import warnings

warnings.simplefilter('ignore')


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from contracts import by_name
    from engine import sym
    for line in sys.stdin:
        j = json.loads(line)
        c = by_name(j['contract'])
        try:
            r = sym.run_contract(c.fn, j['kwargs'], j['timeout'])
        except MemoryError:
            r = dict(status='undecided', why='out of memory', obligations=[], paths=0,
                     functions=[], z3={}, loops={}, wall=0, implicit=0)
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
