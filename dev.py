"""dev.py CONTRACT [k=v ...]: run one contract symbolically, in process"""
import sys, json, warnings, ast
warnings.simplefilter('ignore')
sys.path.insert(0, '/verif')
from contracts import by_name
from engine import sym
c = by_name(sys.argv[1])
kw = {}
for a in sys.argv[2:]:
    k, v = a.split('=')
    try: v = ast.literal_eval(v)
    except Exception: pass
    kw[k] = v
for v in c.variants:
    if all(v.get(k) == x for k, x in kw.items()):
        r = sym.run_contract(c.fn, v, 60)
        print(v, r['status'], r['why'], r['wall'], 'paths', r['paths'], r['z3'], r['loops'], 'vacuous' if r.get('vacuous') else '')
        for o in r['obligations']:
            print('   ', o['name'], o['status'], o['time'], o['path'], str(o.get('why') or '')[:1500], o.get('cex') or '')
