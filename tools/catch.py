#!/usr/bin/env python3
"""catch.py [ID...]: runs the check of each planted bug against a scratch copy with the bug applied"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    wt = tempfile.mkdtemp(prefix='catch-')
    subprocess.run(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), wt + '/r'], check=True)
    subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=wt + '/r', check=True)
    shutil.copytree(V, wt + '/v', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
    r = subprocess.run(['python3', wt + '/v/check.py', m['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_REPO=wt + '/r', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
    o = r.stdout.decode(errors='replace')
    print(i, m['property'], {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR ' + o[-500:]),
          '' if r.returncode != 1 else next((x for x in o.splitlines() if x.startswith('  ')), '')[:160], o.splitlines()[-1], flush=True)
    shutil.rmtree(wt)
