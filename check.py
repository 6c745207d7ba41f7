#!/usr/bin/env python3
"""check.py <property> : decide one property (see DESIGN.md).

1. every contract of the property is discharged symbolically (engine.sym) from
   the current source of /repo/beer;
2. every contract is also executed on the real code with the real torch
   (engine.conc): replay of the verifier's counterexamples, and bounded
   stand-in for the undischarged obligations;
3. a violation is reported when an obligation fails on the real code.
"""
import argparse
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
VENV = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and \
        not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VT, [VT, '-W', 'ignore'] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
REPO = os.environ.get('VERIF_REPO', '/repo')

TRUSTED = [
    'reals: floating point numbers are treated as mathematical reals, python/torch integers as '
    'mathematical integers; torch.finfo(..).eps is 0',
    'torch: the operator contracts of engine/tensor.py and engine/shim_torch.py '
    '(cross-checked on every run by executing the same contracts with the real torch)',
    'numpy, scipy.signal: the contracts of engine/shim_numpy.py (arrays, strided frames, real Fourier '
    'transform, FIR filtering), cross-checked in the same way; functools caches are the identity',
    'autograd: the derivatives of the torch operators (compared with finite differences on every run)',
    'engine: the term normaliser (engine/expr.py) and the symbolic executor '
    '(engine/runtime.py); z3 for linear/nonlinear integer and real side conditions',
    'source: every module of /repo/beer is loaded from the working tree; for-loops get '
    'entry/exit hooks, while-loops counting over a range are run as such, and comprehensions become '
    'generator calls; nothing is dropped',
]


def undecided(why):
    return dict(status='undecided', why=why, obligations=[], paths=0, functions=[],
                z3={}, loops={}, wall=0, implicit=0)


def failed_obligations(s):
    '''obligations generated from the code and not discharged (a construct outside the verifier's
    subset or an exhausted budget generates none: the bounded runs stand in for those)'''
    if s is None:
        return []
    out = [dict(name=o['name'], status=o['status'], why=o.get('why'), cex=o.get('cex'))
           for o in s['obligations'] if o['status'] != 'proved'
           and 'ContractTimeout' not in str(o.get('why'))]
    why = s['why'] or ''
    if s['status'] != 'ok' and 'no inductive invariant' in why:
        out.append(dict(name='loop-invariant', status='undecided', why=why))
    if s['status'] != 'ok' and 'cannot discharge safety obligation' in why:
        out.append(dict(name='safety', status='undecided', why=why))
    return out


class SymPool:
    'proof workers (one process each), restarted when they hang or die'

    def __init__(self, nproc, deadline):
        self.jobs = queue.Queue()
        self.res = {}
        self.deadline = deadline
        self.nproc = nproc

    def worker(self):
        p = None
        done = 0
        while True:
            try:
                n, name, kwargs, timeout = self.jobs.get_nowait()
            except queue.Empty:
                break
            left = self.deadline - time.time()
            if left < 3:
                self.res[n] = undecided('time budget')
                continue
            timeout = min(timeout, left)
            if p is None or done >= 25:
                if p is not None:
                    p.kill()
                    p.wait()
                p = subprocess.Popen([VT, '-W', 'ignore', '-B', '-m', 'engine.symworker'],
                                     cwd=HERE, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                done = 0
                errbuf = []
                threading.Thread(target=lambda q=p, e=errbuf: e.append(q.stderr.read()[-1500:]),
                                 daemon=True).start()
            killer = threading.Timer(timeout + 15, p.kill)
            killer.start()
            try:
                p.stdin.write((json.dumps(dict(contract=name, kwargs=kwargs, timeout=timeout))
                               + '\n').encode())
                p.stdin.flush()
                line = p.stdout.readline()
            except OSError:
                line = b''
            killer.cancel()
            done += 1
            if line:
                self.res[n] = json.loads(line)
            else:
                p.kill()
                p.wait()
                time.sleep(.1)
                self.res[n] = undecided('worker died: ' + (
                    errbuf[0].decode(errors='replace')[-400:] if errbuf else ''))
                p = None
        if p is not None:
            p.kill()
            p.wait()

    def run(self):
        ths = [threading.Thread(target=self.worker) for _ in range(self.nproc)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return self.res


def conc_worker(jobs, results, errors):
    'one torch process, fed by a list of jobs'
    p = subprocess.run([VENV, '-W', 'ignore', '-B', '-m', 'engine.conc'], cwd=HERE,
                       input=json.dumps({'jobs': jobs}), capture_output=True, text=True)
    for line in p.stdout.splitlines():
        r = json.loads(line)
        results[r['id']] = r['runs']
    if p.returncode != 0:
        errors.append(p.stderr[-2000:])


def run_conc(jobs, nproc):
    results, errors = {}, []
    chunks = [jobs[i::nproc] for i in range(nproc)]
    ths = [threading.Thread(target=conc_worker, args=(c, results, errors))
           for c in chunks if c]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return results, errors


LEAN_AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def run_lean(file, theorems, limit=240):
    '''the theorems of lemmas/<file> the Lean kernel accepts, with the standard axioms only:
    {theorem: None or the reason why not}'''
    t0 = time.time()
    try:
        p = subprocess.run(['lean', os.path.join(HERE, 'lemmas', file)], capture_output=True, text=True,
                           timeout=limit)
        out, err = p.stdout, p.stdout + p.stderr if p.returncode else ''
    except (OSError, subprocess.TimeoutExpired) as e:
        out, err = '', f'{type(e).__name__}: {e}'
    used = {a: {x.strip() for x in b.split(',') if x.strip()} for a, b in re.findall(
        r"'([\w.]+)' depends on axioms: \[([^\]]*)\]", out)}
    used.update((a, set()) for a in re.findall(r"'([\w.]+)' does not depend on any axioms", out))
    why = {t: err[-300:] if err else 'not printed' if t not in used else
           f'axioms {used[t] - LEAN_AXIOMS}' if used[t] - LEAN_AXIOMS else None for t in theorems}
    return why, time.time() - t0


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def matches(k, prop, contract, kwargs, obl):
    return (k.get('status') == 'known' and k['property'] == prop
            and k['contract'] == contract and k['obligation'] == obl
            and all(kwargs.get(a) == b for a, b in k.get('variant', {}).items()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--deep', type=int, default=0, help='deep search on every instance')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    vseed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import contracts
    prop = args.property
    if args.replay:
        r = json.load(open(args.replay))
        if r.get('no_failing_input_found'):
            pool = SymPool(1, time.time() + 600)
            pool.jobs.put((0, r['contract'], r['variant'], 300))
            f = failed_obligations(pool.run()[0])
            print(json.dumps(f, indent=1, default=str))
            return 1 if f else 0
        res, err = run_conc([dict(id=0, contract=r['contract'], kwargs=r['variant'],
                                  runs=[[r['seed'], r['sizes']]])], 1)
        print(json.dumps(res, indent=1), *err)
        bad = [o for run in res.get(0, []) for o in run['obligations'] if not o['ok']]
        return 1 if bad else 0
    cs = contracts.for_property(prop) if prop != 'ALL' else (
        contracts.load_all() or list(contracts.REGISTRY.values()))
    if args.only:
        cs = [c for c in cs if args.only in c.name]
    if not cs:
        print('no contract for', prop)
        return 3
    thorough = tier == 'thorough'
    budget = 780 if not thorough else 3000
    # ---- concrete runs, in the background
    insts = [(c, v) for c in cs for v in c.variants]
    jobs = []
    for n, (c, v) in enumerate(insts):
        k = c.seeds * (8 if thorough else 1)
        seeds = [0, 1] + [2 + (vseed * 100003 + i) % 10 ** 6 for i in range(max(0, k - 2))]
        if c.mixed:
            seeds = seeds[:k] + [10 ** 9, 10 ** 9 + 2]
            k += 2
        runs = [[s, {}] for s in seeds[:k]] + [[s, z] for z in (c.sizes or []) for s in seeds[:1]]
        jobs.append(dict(id=n, contract=c.name, kwargs=v, runs=runs))
    conc_res = {}
    conc_err = []

    def bg():
        r, e = run_conc(jobs, 3)
        conc_res.update(r)
        conc_err.extend(e)
    th = threading.Thread(target=bg)
    th.start()
    # ---- lemmas over the contracts
    lemmas, lean_time = {}, [0.]

    def lean():
        for f, names in ({} if args.only else contracts.LEMMAS.get(prop, {})).items():
            why, dt = run_lean(f, names)
            lemmas.update(((f, n), why[n]) for n in names)
            lean_time[0] += dt
    thl = threading.Thread(target=lean)
    thl.start()
    # ---- symbolic proofs
    todo = [(n, c, v) for n, (c, v) in enumerate(insts) if c.symbolic]
    todo.sort(key=lambda x: -x[1].timeout)
    pool = SymPool(min(5, max(1, len(todo))), t0 + budget - 180)
    for n, c, v in todo:
        pool.jobs.put((n, c.name, v, c.timeout * (4 if thorough else 1)))
    sym_res = pool.run()
    th.join()
    thl.join()
    # ---- replay of the verifier's counterexamples
    replays = []
    for n, r in sym_res.items():
        c, v = insts[n]
        seen = set()
        for o in r['obligations']:
            if o['status'] == 'refuted' and o.get('cex'):
                z = o['cex'].get('sizes')
                if z and max(z.values(), default=0) <= 400 and len(seen) < 6:
                    k = (o['cex'].get('seed', 0), json.dumps(z, sort_keys=True))
                    if k not in seen:
                        seen.add(k)
        if seen:
            replays.append(dict(id=n, contract=c.name, kwargs=v,
                                runs=[[s, json.loads(z)] for s, z in seen]))
    if replays:
        r2, e2 = run_conc(replays, 3)
        conc_err += e2
        for n, runs in r2.items():
            conc_res.setdefault(n, []).extend(runs)
    # ---- deeper search of the instances that are not discharged
    def failed(n):
        return any(not o['ok'] for r in conc_res.get(n, []) for o in r['obligations'])
    lost = [n for n, c, v in todo if n not in sym_res or sym_res[n]['status'] != 'ok' or any(
        o['status'] != 'proved' for o in sym_res[n]['obligations'])]
    deep = args.deep or (8 if not thorough else 40)
    if args.deep:
        lost = list(range(len(insts)))
    if (lost and not any(failed(n) for n in range(len(insts)))) or args.deep:
        jobs = []
        for n in lost:
            c, v = insts[n]
            jobs.append(dict(id=n, contract=c.name, kwargs=v, runs=[
                [k * 10 ** 7 + 50 + (vseed * 7919 + 4 * i + k) % 10 ** 6, {}]
                for i in range(deep) for k in range(5)],
                budget=max(5, min(60, 600 / len(lost)))))
        r2, e2 = run_conc(jobs, 8)
        conc_err += e2
        for n, runs in r2.items():
            conc_res.setdefault(n, []).extend(runs)
    # ---- failed obligations without failing input: proved again in a fresh process first
    unproved = []
    if not any(failed(n) for n in range(len(insts))):
        cand = {n: failed_obligations(sym_res.get(n)) for n in lost}
        cand = {n: o for n, o in cand.items() if o and not any(
            r['status'] == 'contract-error' for r in conc_res.get(n, []))}
        if cand:
            pool = SymPool(min(5, len(cand)), max(t0 + budget, time.time() + 60))
            for n in cand:
                c, v = insts[n]
                pool.jobs.put((n, c.name, v, 2 * c.timeout))
            for n, r in pool.run().items():
                again = failed_obligations(r)
                both = [o for o in again if o['name'] in {x['name'] for x in cand[n]}]
                if both:
                    unproved.append((n, both))
                else:
                    sym_res[n] = r
    # ---- verdict
    kf = known_findings()
    viol, known = [], []
    nob = ndis = 0
    details, undis, fns = [], [], set()
    for (f, n), why in lemmas.items():
        nob += 1
        ndis += why is None
        if why is not None:
            undis.append(f'lemmas/{f}: {n}: {why}')
    z3q = z3t = 0
    inv = 0
    paths = 0
    implicit = 0
    vacuous = []
    evals = 0
    distinct = set()
    samples = []
    for n, (c, v) in enumerate(insts):
        s = sym_res.get(n)
        runs = conc_res.get(n, [])
        d = dict(contract=c.name, variant=v, kind='proof' if c.symbolic else 'bounded')
        if c.symbolic:
            if s is None:
                s = undecided('time budget')
            names = {}
            for o in s['obligations']:
                nob += 1
                if o['status'] == 'proved':
                    ndis += 1
                    names.setdefault(o['name'], 'proved')
                else:
                    names[o['name']] = o['status']
                    undis.append(f"{c.name}{v or ''}: {o['name']} ({o['status']}): {o.get('why')}")
            if s['status'] != 'ok':
                nob += 1
                undis.append(f"{c.name}{v or ''}: not completed: {s['why']}")
            if not s['obligations'] and s['status'] == 'ok':
                undis.append(f"{c.name}{v or ''}: no obligation generated")
            if s.get('vacuous'):
                vacuous.append(c.name)
            loops = s.get('loops') or {}
            inv += loops.get('obligations', 0)
            nob += loops.get('obligations', 0)
            ndis += loops.get('obligations', 0)
            implicit += s.get('implicit', 0)
            z3q += (s.get('z3') or {}).get('queries', 0)
            z3t += (s.get('z3') or {}).get('time', 0)
            paths += s['paths']
            fns |= {tuple(f) for f in s['functions']}
            d.update(obligations=names, status=s['status'], why=s['why'], paths=s['paths'],
                     wall=s['wall'])
        bad = {}
        for r in runs:
            evals += 1
            if r['status'] == 'ok':
                distinct.add((c.name, json.dumps(v, sort_keys=True), r['seed'],
                              json.dumps(r['sizes'], sort_keys=True)))
                if len(samples) < 5 and r['obligations']:
                    samples.append(dict(contract=c.name, variant=v, seed=r['seed'], sizes=r['sizes'],
                                        obligations=[o['name'] for o in r['obligations']]))
            for o in r['obligations']:
                if not o['ok']:
                    bad.setdefault(o['name'], (r, o))
        if not any(r['status'] == 'ok' for r in runs):
            undis.append(f'{c.name}{v or ""}: no completed concrete run')
        d['concrete_runs'] = len(runs)
        for name, (r, o) in bad.items():
            hit = [k for k in kf if matches(k, prop, c.name, v, name)]
            if hit:
                known.append((hit[0], c, v, name))
            else:
                viol.append((c, v, name, r, o, s))
        d['failed_on_real_code'] = sorted(bad)
        details.append(d)
        if args.v:
            st = s['status'] if s else 'bounded'
            pr = [o['name'] for o in s['obligations'] if o['status'] == 'proved'] if s else []
            np_ = [(o['name'], o['status'], o.get('why'), o.get('cex')) for o in s['obligations']
                   if o['status'] != 'proved'] if s else []
            print(f"{c.name} {v} : {st} proved={len(pr)} wall={s['wall'] if s else 0} "
                  f"paths={s['paths'] if s else 0} runs={len(runs)}"
                  f"/{sum(r['status']=='ok' for r in runs)} maxwall={max([r['wall'] for r in runs], default=0)}"
                  + (f" WHY {s['why']}" if s and s['why'] else ''))
            for x in np_:
                print('    NOT PROVED', x)
            for name, (r, o) in bad.items():
                print('    CONCRETE FAIL', name, o['why'][:150].split(chr(10))[0], 'seed', r['seed'], r['sizes'])
    for k, c, v, name in {(k['what'], c.name): (k, c, v, name) for k, c, v, name in known}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = os.path.join(HERE, 'evidence', 'replay')
    if viol:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (c, v, name, r, o, s) in enumerate(viol):
            if i >= 5:
                break
            path = os.path.join(rdir, f'{prop}-{i}.json')
            so = [x for x in (s or {}).get('obligations', []) if x['name'] == name]
            json.dump(dict(property=prop, contract=c.name, variant=v, obligation=name,
                           seed=r['seed'], sizes=r['sizes'], failure=o['why'],
                           verifier=so, verifier_status=(s or {}).get('status'),
                           verifier_why=(s or {}).get('why'),
                           replay_cmd=f'python3 /verif/check.py {prop} --replay {path}'),
                      open(path, 'w'), indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  obligation {c.name}{v or ""}: {name}: {o["why"]}')
    if not viol and unproved:
        os.makedirs(rdir, exist_ok=True)
        for i, (n, os_) in enumerate(sorted(unproved, key=lambda x: x[0])[:5]):
            c, v = insts[n]
            path = os.path.join(rdir, f'{prop}-u{i}.json')
            json.dump(dict(property=prop, contract=c.name, variant=v, obligation=os_[0]['name'],
                           failed_obligations=os_, verifier_status=sym_res[n]['status'],
                           verifier_why=sym_res[n]['why'], no_failing_input_found=True,
                           concrete_runs=len(conc_res.get(n, [])),
                           replay_cmd=f'python3 /verif/check.py {prop} --replay {path}'),
                      open(path, 'w'), indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
            print(f'  obligation {c.name}{v or ""}: {os_[0]["name"]}: not discharged: '
                  f'{str(os_[0].get("why"))[:300]}')
    wall = round(time.time() - t0, 2)
    nsym = sum(1 for c, v in insts if c.symbolic)
    nbound = len(insts) - nsym
    ev = dict(
        property=prop, tier=tier, seed=vseed, level=level_of(prop), wall_s=wall,
        violations=len(viol) or len(unproved),
        coverage=dict(
            obligations=nob, discharged=ndis,
            checker_cmd=f'python3 check.py {prop}',
            trusted_base=TRUSTED,
            functions_under_contract=sorted(f'{a}:{b}' for a, b in fns),
            contracts=details,
            contract_instances_proved=nsym,
            contract_instances_bounded=nbound,
            loop_invariant_obligations=inv,
            implicit_obligations=implicit,
            paths=paths,
            back_ends={'normal form (engine/expr.py)': 'term equalities',
                       'z3': {'queries': z3q, 'seconds': round(z3t, 2)},
                       **({'Lean 4 (Mathlib)': {
                           'lemmas': [f'{f}: {n}' for f, n in lemmas],
                           'seconds': round(lean_time[0], 2)}} if lemmas else {})},
            undischarged=undis,
            vacuity=dict(contradictory_preconditions=vacuous),
            evaluations=evals, distinct_nontrivial=len(distinct),
            rule='concrete runs of the same contracts with the real torch (float64) on inputs '
                 'drawn from (seed, sizes); non-trivial: the run reached its obligations',
            bounded=[dict(contract=c.name, bound=c.note) for c, v in insts if not c.symbolic],
            known_findings=[k['what'] for k, *_ in known],
            samples=samples,
            **(dict(explanation='obligations of the contracts, discharged for all values of the weights on the '
                    'structures the contract instances fix (bounded in the structure), plus concrete runs')
               if level_of(prop) == 'other' else {})),
        assumptions=TRUSTED + (['undischarged obligations are covered by the bounded concrete runs '
                                'only'] if undis else []))
    if not args.no_evidence and not args.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    print(f'{prop}: {ndis}/{nob} obligations discharged, {evals} concrete runs, '
          f'{len(undis)} undischarged, {len(viol)} violations, {wall} s')
    if args.v:
        for u in undis:
            print('  undischarged:', u)
    if viol or unproved:
        return 1
    if conc_err:
        print('checker error:', conc_err[0])
        return 3
    if vacuous or nob + evals == 0 or not distinct:
        print('checker error: vacuous', vacuous)
        return 3
    return 0


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError):
        pass
    return 'proof'


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
