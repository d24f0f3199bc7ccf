#!/usr/bin/env python3
"""Makes a planted bug. usage: seed.py FILE.py, where FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS [(path, old, new)],
DEMO (go source of package main, exits non-zero on failure). Confirms it in a scratch copy, and writes it to
/verif/seeded/ID whether the checks catch it or not."""
import json, os, re, shutil, subprocess, sys, tempfile
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=mod', GOPROXY='off',
           GOTOOLCHAIN='local', GOWORK='off')
DEMO_SH = '''#!/bin/bash
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp "$D/main.go" "$W/main.go"
printf 'module demo\\n\\ngo 1.13\\n\\nrequire github.com/lyraproj/dgo v0.0.0\\n\\nreplace github.com/lyraproj/dgo => %s\\n' "$R" > "$W/go.mod"
cd "$W" || exit 1
RACE go build RACEFLAG-o demo . || exit 1
timeout 120 ./demo
'''


def run(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def one(ns):
    wt = tempfile.mkdtemp(prefix='seedwt-')
    try:
        run(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), wt + '/r'], '/')
        r = wt + '/r'
        for path, old, new in ns['EDITS']:
            s = open(os.path.join(r, path)).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %r' % (s.count(old), path, old)
            open(os.path.join(r, path), 'w').write(s.replace(old, new))
        out = os.path.join('/verif/seeded', ns['ID'])
        tmp = wt + '/s'
        os.makedirs(tmp)
        race = ns.get('RACE')
        sh = DEMO_SH.replace('RACEFLAG', '-race ' if race else '').replace('RACE ', '')
        open(tmp + '/demo.sh', 'w').write(sh)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/main.go', 'w').write(ns['DEMO'])
        run(['gofmt', '-w', tmp + '/main.go'], '/')
        root = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], r)[1].strip()
        orig = 0
        for path, old, new in ns['EDITS']:
            was = run(['git', 'show', 'HEAD:' + path], r)[1]
            n = was[:was.index(old)].count('\n') + 1
            bl = run(['git', 'blame', '-l', '-L', '%d,%d' % (n, n + old.count('\n')), 'HEAD', '--', path], r)[1]
            news = [x.strip() for x in new.splitlines()]
            orig += sum(1 for x in bl.splitlines() if x.startswith('^') and x.split(') ', 1)[-1].strip() not in news + [''])
        if orig == 0:
            return 'changes no original line'
        d = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout
        open(tmp + '/patch.diff', 'wb').write(d)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        rc, o = run(['go', 'build', './...'], r)
        if rc:
            return 'does not build ' + o[-800:]
        rc, o = run(['go', 'test', '-vet=off', '-count=1', './...'], r)
        if rc:
            return 'tests fail: ' + '\n'.join(x for x in o.splitlines() if 'FAIL' in x or '_test.go' in x)[:1500]
        rc, o = run([tmp + '/demo.sh'], '/repo')
        if rc:
            return 'demo fails on the unchanged tree: ' + o[-800:]
        rc, o = run([tmp + '/demo.sh'], r)
        if rc == 0:
            return 'demo passes with the change: ' + o[-800:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return None
    finally:
        shutil.rmtree(wt)


for f in sys.argv[1:]:
    src = open(f).read()
    for part in re.split(r'^#----.*$', src, flags=re.M):
        if 'ID' not in part:
            continue
        ns = {}
        exec(part, ns)
        e = one(ns)
        print(ns['ID'], 'OK' if e is None else 'FAILED: ' + e, flush=True)
