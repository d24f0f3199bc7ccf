#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of lyraproj/dgo. The code in /repo is built together with the driver in harness/. The driver
records what the code does (or performs behaviours that TLC has generated from a specification in spec/) and TLC judges
what was recorded. Nothing but TLC (or the comparison of a replayed transition with the one that TLC emitted) decides.

exit 0: the property held on everything explored
exit 1: it does not, and a line "VIOLATION property=<id> replay=<path>" says where
exit 2: the machinery failed
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


STATES = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


class Broken(Exception):
    """the machinery failed"""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = PROPS[prop]
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='dgoverif-%s-' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
        self.violations = []   # dicts
        self.known = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'evaluations': 0,
                    'events_by_kind': {}, 'stages': []}
        self.samples = []
        self.distinct = set()
        self.findings = [f for f in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
                         if f['property'] == prop]

    # -- building -----------------------------------------------------------------------------------------------
    def goenv(self):
        e = dict(os.environ)
        e.update(PATH='/opt/veriftools/go1.27.3/bin:' + e.get('PATH', ''), GOFLAGS='-mod=mod', GOPROXY='off',
                 GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off')
        return e

    def build(self):
        src = os.path.join(self.scratch, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), src)
        mod = os.path.join(src, 'go.mod')
        s = open(mod).read().replace('=> /repo', '=> ' + REPO)
        open(mod, 'w').write(s)
        self.drv = os.path.join(self.scratch, 'drv')
        # files that only the driver needs are added to the packages of the code under test while it's built
        overlay = os.path.join(self.scratch, 'overlay.json')
        with open(overlay, 'w') as f:
            json.dump({'Replace': {os.path.join(REPO, 'tf', 'zz_verif.go'): os.path.join(VERIF, 'overlay', 'tf_verif.go')}}, f)
        cmd = ['go', 'build', '-overlay', overlay, '-o', self.drv]
        if self.p.get('race'):
            cmd.append('-race')
        r = subprocess.run(cmd + ['.'], cwd=src, env=self.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=600)
        if r.returncode:
            raise Broken('the driver does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
        self.spec = os.path.join(self.scratch, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.spec)

    # -- running ------------------------------------------------------------------------------------------------
    def driver(self, args, timeout):
        """runs the driver, returns (rc, stdout, stderr)"""
        try:
            r = subprocess.run([self.drv] + args, cwd=self.scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=dict(self.goenv(), GORACE='halt_on_error=1 exitcode=66'))
            return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            return -9, (x.stdout or b'').decode(errors='replace'), 'TIMEOUT after %ds' % timeout

    def crashed(self, args, rc, err, timeout, more=None):
        """The driver died. That's a violation if it died in the code under test, and does so every time."""
        rc2, out2, err2 = self.driver(args, timeout)
        if rc2 == 0:
            if rc == 66 or 'fatal error: concurrent map' in err:
                rc2, err2 = rc, err    # a data race is what it is also when the next run didn't show it
            else:
                raise Broken('the driver died once (%d) but not twice: %s' % (rc, err[:2000]))
        if 'lyraproj/dgo/' not in err2 and 'lyraproj/dgo/' not in err:
            raise Broken('the driver died (%d): %s' % (rc2, err2[:3000]))
        self.violate({'kind': 'crash', 'command': args, 'key': 'crash', 'rc': rc2, 'stderr': err2[:6000],
                      'more': more})

    def tlc(self, module, cfg, env, timeout, tag, heap='2g', workers='1'):
        meta = os.path.join(self.scratch, 'meta-' + tag)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JARS, 'tlc2.TLC',
               '-workers', workers, '-metadir', meta, '-config', cfg + '.cfg', module + '.tla']
        out = os.path.join(self.scratch, tag + '.out')
        with open(out, 'wb') as f:
            try:
                subprocess.run(cmd, cwd=self.spec, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken('TLC timed out after %ds on %s' % (timeout, tag))
        shutil.rmtree(meta, ignore_errors=True)
        return out

    # -- verdicts -----------------------------------------------------------------------------------------------
    def violate(self, v):
        for f in self.findings:
            if f.get('key') == v.get('key') or (f.get('why') and f['why'] == v.get('why')):
                if f['key'] not in [k['key'] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append(v)

    def sample(self, s):
        if len(self.samples) < 5:
            t = json.dumps(s, sort_keys=True)
            self.samples.append(s if len(t) < 3000 else t[:3000] + '...')

    def addstats(self, out):
        for ln in out.splitlines():
            if ln.startswith('STATS '):
                _, n, js = ln.split(' ', 2)
                for k, c in json.loads(js).items():
                    self.cov['events_by_kind'][k] = self.cov['events_by_kind'].get(k, 0) + c

    def get(self, st, k, default=None):
        v = st.get(k, default)
        return v[self.tier] if isinstance(v, dict) and set(v) == {'quick', 'thorough'} else v

    # -- stage: record and validate -----------------------------------------------------------------------------
    def trace_shard(self, st, shard):
        tag = '%s-%s-%d' % (st['cmd'], self.get(st, 'mode', ''), shard)
        trace = os.path.join(self.scratch, tag + '.ndjson')
        args = [st['cmd'], '-prop', st.get('prop', self.prop), '-seed', str(self.seed), '-shard', str(shard), '-n',
                str(self.get(st, 'n')), '-out', trace, '-mode', self.get(st, 'mode', '')]
        if st.get('in'):
            args += ['-in', os.path.join(VERIF, st['in'])]
        return self.trace_args(st, tag, trace, args)

    def trace_args(self, st, tag, trace, args):
        tmo = self.get(st, 'driver_timeout', {'quick': 240, 'thorough': 3000})
        rc, out, err = self.driver(args, tmo)
        if rc:
            self.crashed(args, rc, err, tmo)
            if not os.path.exists(trace):
                return
            # what was recorded before the crash is still judged. The last line may be incomplete
            data = open(trace, 'rb').read()
            open(trace, 'wb').write(data[:data.rfind(b'\n') + 1])
        self.addstats(out)
        self.validate(st, tag, trace, args)

    def validate(self, st, tag, trace, args):
        lines = open(trace, encoding='utf-8').read().split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        if not lines:
            return
        env = dict(TRACE=trace, PROP=self.prop, TIER=self.tier)
        env.update(st.get('env', {}))
        out = self.tlc(st['spec'], st.get('cfg', st['spec']), env,
                       self.get(st, 'tlc_timeout', {'quick': 600, 'thorough': 7200}), tag,
                       st.get('heap', '2g'))
        txt = open(out, encoding='utf-8', errors='replace').read()
        rejects = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),(.*?)>>\n(?=<<|\S|$)', txt + '\n', re.S):
            rejects.append((int(m.group(1)), re.sub(r'\s+', ' ', m.group(2)).strip()[:4000]))
        n = len(lines)
        if 'Model checking completed. No error has been found' not in txt:
            # an observation that TLC cannot evaluate is not a step of the specification
            at = re.findall(r'^/\\ l = (\d+)', txt, re.M) or re.findall(r'^l = (\d+)', txt, re.M)
            evalerr = re.search(r'(Attempted to|evaluat|In applying the function|CHOOSE|overflow)', txt)
            if 'Error:' in txt and at and evalerr and 'OutOfMemory' not in txt:
                n = int(at[-1])
                rejects.append((n, 'the observation cannot be evaluated: ' +
                                re.sub(r'\s+', ' ', txt[txt.find('Error:'):])[:1500]))
            else:
                raise Broken('TLC failed on %s:\n%s' % (tag, txt[-3000:]))
        evs = [json.loads(x) for x in lines[:n]]
        m = STATES.findall(txt)
        with LOCK:
            self.cov['states'] += int(m[-1][1]) if m else 0
            self.cov['transitions'] += n
            resets = sum(1 for x in evs if x.get('op') == 'reset')
            self.cov['traces_validated_against_impl'] += max(resets, 1)
            self.cov['evaluations'] += n - resets
            for x in evs:
                if x.get('op') != 'reset':
                    y = {k: x[k] for k in x if k not in ('h', 'id')}
                    self.distinct.add(hashlib.sha1(json.dumps(y, sort_keys=True).encode()).digest()[:8])
            if evs:
                e = evs[min(len(evs) - 1, len(evs) // 2)]
                if len(self.samples) < 5:
                    self.sample(e)
        for i, why in rejects:
            e = evs[i - 1]
            j = i - 1
            ctx = []
            while j > 0 and evs[j - 1].get('op') != 'reset' and len(ctx) < 60 and st.get('history', True):
                j -= 1
                ctx.insert(0, {k: evs[j][k] for k in evs[j] if k != 'h'})
            key = json.dumps({k: e[k] for k in e if k in st.get('key', ())}, sort_keys=True) if st.get('key') else \
                json.dumps({k: e[k] for k in e if k != 'h'}, sort_keys=True)
            with LOCK:
                self.violate({'kind': 'trace', 'command': args, 'line': i, 'event': e, 'history': ctx, 'why': why,
                              'before': evs[i - 2].get('h') if i > 1 else None, 'key': key})

    # -- stage: enumerate with TLC, replay on the code ----------------------------------------------------------
    def mc(self, st, part):
        tag = '%s-mc%d-%d' % (st['spec'], self.p['stages'].index(st), part)
        env = {k: str(self.get(st['env'], k)) for k in st['env']}
        env['PROP'] = self.prop
        env['PART'] = part
        out = self.tlc(st['spec'], st.get('cfg', st['spec']), env,
                       self.get(st, 'tlc_timeout', {'quick': 600, 'thorough': 7200}), tag, st.get('heap', '4g'))
        cases = os.path.join(self.scratch, tag + '.cases')
        n = 0
        tail = []
        seen = set()
        with open(out, encoding='utf-8', errors='replace') as f, open(cases, 'w') as c:
            for ln in f:
                if ln.startswith('"{'):
                    j = json.loads(ln)
                    c.write(j + '\n')
                    n += 1
                    if n in (7, 1007):
                        with LOCK:
                            self.sample(json.loads(j))
                    with LOCK:
                        self.distinct.add(hashlib.sha1(j.encode()).digest()[:8])
                else:
                    tail.append(ln)
        txt = ''.join(tail)
        if 'Model checking completed. No error has been found' not in txt:
            raise Broken('TLC found the specification itself at fault in %s:\n%s' % (tag, txt[-3000:]))
        m = STATES.findall(txt)
        if st['cmd'] is None:
            # only the specification is checked, what it requires of the code is judged in another stage
            with LOCK:
                self.cov['states'] += int(m[-1][1])
                self.cov['transitions'] += int(m[-1][0])
            return
        if n == 0:
            raise Broken('no cases generated by ' + tag)
        os.remove(out)
        if 'trace_spec' in st:
            # the cases are performed by a driver that records what happened, and that record is validated
            trace = os.path.join(self.scratch, tag + '.ndjson')
            args = [st['cmd'], '-in', cases, '-out', trace, '-seed', str(self.seed), '-prop', self.prop]
            with LOCK:
                self.cov['states'] += int(m[-1][1])
            self.trace_args(dict(st, spec=st['trace_spec'], cfg=st['trace_spec'], env=st.get('trace_env', {})),
                            tag + '-t', trace, args)
            return
        args = [st['cmd'], '-in', cases, '-seed', str(self.seed), '-prop', self.prop]
        tmo = 3000
        rc, o, err = self.driver(args, tmo)
        if rc:
            self.crashed(args, rc, err, tmo, dict(generated_by=st['spec'], env=env)) if rc != 1 else None
        mm = re.search(r'REPLAYED (\d+) mismatches (\d+)', o)
        if not mm and not self.violations:
            raise Broken('replay failed: ' + o[-1000:] + err[-2000:])
        self.addstats(o)
        with LOCK:
            self.cov['states'] += int(m[-1][1])
            self.cov['transitions'] += int(m[-1][0])
            if mm:
                self.cov['traces_validated_against_impl'] += int(mm.group(1))
                self.cov['evaluations'] += int(mm.group(1))
            for ln in o.splitlines():
                if ln.startswith('MISMATCH '):
                    d = json.loads(ln[9:])
                    self.violate({'kind': 'replay', 'spec': st['spec'], 'env': env, 'case': d,
                                  'key': json.dumps(d.get('path', d), sort_keys=True)})

    # -- everything ---------------------------------------------------------------------------------------------
    def run(self):
        self.build()
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            for st in self.p['stages']:
                if st.get('tier', self.tier) != self.tier:
                    continue
                self.cov['stages'].append({k: v for k, v in st.items() if k in ('kind', 'cmd', 'spec', 'mode')})
                if st['kind'] == 'trace':
                    for s in range(self.get(st, 'shards', 1)):
                        jobs.append(ex.submit(self.trace_shard, st, s))
                else:
                    for s in range(self.get(st, 'parts', 1)):
                        jobs.append(ex.submit(self.mc, st, s))
            errs = [j.exception() for j in jobs if j.exception()]
        errs = [e for e in errs if e]
        if errs and not self.violations:
            raise errs[0]
        for s in self.p.get('require', []):
            if not self.cov['events_by_kind'].get(s) and not self.violations:
                raise Broken('vacuous: no %s was exercised' % s)

    def finish(self):
        self.cov['distinct_nontrivial'] = len(self.distinct)
        self.cov['rule'] = self.p['rule']
        self.cov['samples'] = self.samples
        self.cov['known_findings_hit'] = [k['key'] for k in self.known]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.p['level'],
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        for old in glob.glob(os.path.join(rep, self.prop + '-*')):
            os.remove(old)
        for k in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for i, v in enumerate(self.violations[:10]):
            path = os.path.join(rep, '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + str(v.get('why') or v.get('case') or v.get('stderr'))[:700])
        print('%s %s seed=%d: %d evaluations, %d states, %d violations, %.1fs' % (
            self.prop, self.tier, self.seed, self.cov['evaluations'], self.cov['states'], len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0


import threading  # noqa: E402
LOCK = threading.RLock()


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    r = Run(prop, tier, seed)
    try:
        try:
            r.run()
            rc = r.finish()
        except Broken as x:
            print('ERROR: ' + str(x))
            rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(r.scratch, ignore_errors=True)
        else:
            print('kept ' + r.scratch)
    sys.exit(rc)


if __name__ == '__main__':
    main()
