#!/usr/bin/env python3
"""mkbug.py SPEC... : turn the bug specifications of tools/bugs/ into seeded/<id>/.

A specification is a python file: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO.
The change is kept only after its demonstration passed on the unchanged code, failed on the
changed code, and the stable tests passed on the changed code (all in a scratch copy)."""
import json, os, runpy, subprocess, sys, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(repo):
    s = open('/opt/vp/test.sh').read().replace('/repo', repo)
    t = os.path.join(repo, '..', 'test.sh')
    open(t, 'w').write(s)
    out = os.path.join(repo, '..', 'out.json')
    sh(f'bash {t} {out}')
    r = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok = set(r.get('passed') or r.get('pass') or [k for k, v in r.items() if v == 'passed'])
    return [b for b in base if b not in ok]


def main():
    for spec in sys.argv[1:]:
        name = os.path.splitext(os.path.basename(spec))[0]
        S = runpy.run_path(spec)
        top = tempfile.mkdtemp(prefix='bug')
        repo = os.path.join(top, 'repo')
        sh(f'git -C /repo worktree prune; git clone -q /repo {repo}')
        try:
            d = os.path.join(top, 'd')
            os.makedirs(d)
            open(os.path.join(d, 'demo.sh'), 'w').write(RUN)
            open(os.path.join(d, 'demo.py'), 'w').write(S['DEMO'].lstrip())
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            r0 = sh(f'bash {d}/demo.sh', cwd=repo)
            for f, old, new in S['EDITS']:
                p = os.path.join(repo, f)
                t = open(p).read()
                assert t.count(old) == 1, (name, f, old, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=repo).stdout)
            r1 = sh(f'bash {d}/demo.sh', cwd=repo)
            if r0.returncode != 0 or r1.returncode == 0:
                print(name, 'REJECTED: demo', r0.returncode, r1.returncode, r0.stderr[-600:], r1.stdout[-300:])
                continue
            bad = tests(repo)
            if bad:
                print(name, 'REJECTED: tests', bad)
                continue
            json.dump(dict(property=S['PROPERTY'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            out = os.path.join(HERE, 'seeded', name)
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            print(name, 'kept;', (r1.stderr.strip().splitlines() or [''])[-1][:120])
        finally:
            shutil.rmtree(top)


main()
