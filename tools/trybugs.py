#!/usr/bin/env python3
"""trybugs.py [ids] : run the check of every seeded bug against a scratch copy that has it."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    top = tempfile.mkdtemp(prefix='try')
    subprocess.run(['git', 'clone', '-q', '/repo', top + '/repo'], check=True)
    a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=top + '/repo')
    r = subprocess.run([os.path.join(HERE, 'check.py'), meta['property'], '--no-evidence'],
                       capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=top + '/repo'))
    v = [l for l in r.stdout.splitlines() if 'obligation ' in l]
    print(i, meta['property'], 'applies' if a.returncode == 0 else 'DOES NOT APPLY', 'rc', r.returncode,
          'no-input' if 'no-failing-input' in r.stdout else '', len(v), (v or [r.stdout[-200:] + r.stderr[-300:]])[0][:160], flush=True)
    shutil.rmtree(top)
