#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files a,b] [--max N] [--seed S] [--proc P]

Mutation campaign: every mutant of /repo/beer is executed (concrete back end only, in a
scratch copy) against all the contracts; survivors show what the contracts do not say."""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'
DEAD = {'vbi.py', 'lm.py', 'lds.py', 'linearreg.py', 'marginalpldaset.py', 'vae-old.py', 'plda.py', 'pldaset.py',
        'features.py'}

SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '*', ast.FloorDiv: '*',
        ast.Mod: '//'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
METH = {'sum': 'mean', 'mean': 'sum', 'max': 'min', 'min': 'max', 'exp': 'log', 'log': 'exp', 'digamma': 'log',
        'lgamma': 'digamma', 'sqrt': 'abs', 'zeros': 'ones', 'ones': 'zeros', 'zeros_like': 'ones_like',
        'ones_like': 'zeros_like', 't': 'contiguous', 'append': 'remove', 'logdet': 'trace', 'cumsum': 'cumprod'}


def mutants(src):
    'yield (lineno, description, new source)'
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        i, j = pos(n)
        return (b[:i] + new.encode() + b[j:]).decode()
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield n.lineno, f'{seg(n)[:60]!r} operator', rep(n, f'(({seg(n.left)}) {SWAP[type(n.op)]} ({seg(n.right)}))')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield n.lineno, f'{seg(n)[:60]!r} drop right', rep(n, f'({seg(n.left)})')
                yield n.lineno, f'{seg(n)[:60]!r} drop left', rep(n, f'({"-" if isinstance(n.op, ast.Sub) else ""}({seg(n.right)}))')
            if isinstance(n.op, (ast.Mult, ast.Div)):
                yield n.lineno, f'{seg(n)[:60]!r} drop right', rep(n, f'({seg(n.left)})')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield n.lineno, f'{seg(n)[:60]!r} compare', rep(n, f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})')
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                yield n.lineno, f'{seg(n)} bool', rep(n, str(not n.value))
            elif isinstance(n.value, (int, float)):
                yield n.lineno, f'const {seg(n)}', rep(n, f'({n.value} + 1)')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield n.lineno, f'{seg(n)[:60]!r} unary', rep(n, f'({seg(n.operand)})')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in METH:
                f = f'{seg(n.func.value)}.{METH[n.func.attr]}'
                yield n.lineno, f'{seg(n)[:60]!r} method', rep(n.func, f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('clone', 'detach', 'copy'):
                yield n.lineno, f'{seg(n)[:60]!r} dropped call', rep(n, seg(n.func.value))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i, _ = pos(n.args[0])
                _, j = pos(n.args[1])
                yield n.lineno, f'{seg(n)[:60]!r} swap args', (b[:i] + f'{seg(n.args[1])}, {seg(n.args[0])}'.encode() + b[j:]).decode()
            for kw in n.keywords:
                if kw.arg and isinstance(kw.value, ast.Name) and kw.arg in ('scale', 'nsamples', 'start', 'step'):
                    i, _ = pos(kw)
                    _, j = pos(kw)
                    yield n.lineno, f'{seg(n)[:60]!r} drop {kw.arg}', (b[:i] + b[j:]).decode().replace('(, ', '(').replace(', )', ')')
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield n.lineno, f'if {seg(n.test)[:60]!r} negated', rep(n.test, f'(not ({seg(n.test)}))')
        elif isinstance(n, ast.AugAssign):
            i, _ = pos(n)
            yield n.lineno, f'{seg(n)[:60]!r} deleted', rep(n, 'pass')
            yield n.lineno, f'{seg(n)[:60]!r} plain', rep(n, f'{seg(n.target)} = {seg(n.value)}')
        elif isinstance(n, ast.Expr) and n not in doc and isinstance(n.value, ast.Call):
            yield n.lineno, f'{seg(n)[:60]!r} deleted', rep(n, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield n.lineno, f'{seg(n)[:60]!r} deleted', rep(n, 'pass')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield n.lineno, f'{seg(n)!r} lower', rep(n.lower, f'({seg(n.lower)}) + 1')
            if n.upper is not None:
                yield n.lineno, f'{seg(n)!r} upper', rep(n.upper, f'({seg(n.upper)}) - 1')


def jobs():
    sys.path.insert(0, HERE)
    import contracts
    contracts.load_all()
    out = []
    for c in contracts.REGISTRY.values():
        for v in c.variants:
            runs = [[s, {}] for s in (0, 1, 7, 11)] + [[0, z] for z in (c.sizes or [])]
            out.append(dict(id=[c.name, v], contract=c.name, kwargs=v, runs=runs))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--contracts', default='')
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--proc', type=int, default=7)
    a = ap.parse_args()
    todo = []
    for d, _, fs in os.walk('/repo/beer'):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith('.py') or f in DEAD or ('/cli' in d and '/cli' not in a.files) or f == '__init__.py':
                continue
            if a.files and not any(x in p for x in a.files.split(',')):
                continue
            src = open(p).read()
            for line, what, new in mutants(src):
                try:
                    ast.parse(new)
                except SyntaxError:
                    continue
                todo.append((os.path.relpath(p, '/repo'), line, what, new))
    random.Random(a.seed).shuffle(todo)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['what']))
    todo = [t for t in todo if t[:3] not in done][:a.max]
    print(len(todo), 'mutants', flush=True)
    J = [j for j in jobs() if a.contracts in j['contract']]
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    stop = os.path.join(os.path.dirname(a.out) or '.', 'STOP')

    def work(k):
        top = tempfile.mkdtemp(prefix='mut')
        shutil.copytree('/repo/beer', top + '/beer')
        rnd = random.Random(k)
        while not os.path.exists(stop):
            try:
                f, line, what, new = q.get_nowait()
            except queue.Empty:
                break
            old = open(f'/repo/{f}').read()
            open(f'{top}/{f}', 'w').write(new)
            js = list(J)
            rnd.shuffle(js)
            t0 = time.time()
            try:
                p = subprocess.run([VENV, '-W', 'ignore', '-B', '-m', 'engine.conc'], cwd=HERE,
                                   input=json.dumps({'jobs': js, 'first': True}), capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=top, OMP_NUM_THREADS='1'), timeout=400)
                bad = None
                for l in p.stdout.splitlines():
                    r = json.loads(l)
                    o = [o for run in r['runs'] for o in run['obligations'] if not o['ok']]
                    if o:
                        bad = f"{r['id'][0]} {r['id'][1]} {o[0]['name']}: {o[0].get('why', '')[:100]}"
                        break
                if bad is None and p.returncode:
                    bad = 'import: ' + p.stderr[-100:]
            except subprocess.TimeoutExpired:
                bad = 'timeout'
            open(f'{top}/{f}', 'w').write(old)
            with lock:
                open(a.out, 'a').write(json.dumps(dict(file=f, line=line, what=what, killed=bad,
                                                       t=round(time.time() - t0, 1))) + '\n')
        shutil.rmtree(top)
    ths = [threading.Thread(target=work, args=(k,)) for k in range(a.proc)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


main()
