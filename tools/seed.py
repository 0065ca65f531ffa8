#!/usr/bin/env python3
"""Makes and confirms the planted bugs: seed.py [-v] [NAME...]
Each tools/seeds/NAME.py sets PROP, PKG, EDITS=[(file,old,new)], TEST (Go test
source), NEEDS, BREAKS, optionally FLAGS.  Writes seeded/NAME/ when the demo
passes on HEAD, fails with the patch, and the stable tests pass with it."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository's root after a build; exits 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
o=$(mktemp)
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_seed_test.go" "$d/demo_test.go" >"$o"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$o" -run TestSeed ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(name, full=True):
    g = {}
    exec(open(V + '/tools/seeds/' + name + '.py').read(), g)
    wt = '/tmp/seedwt/' + name
    sh('rm -rf ' + wt); os.makedirs('/tmp/seedwt', exist_ok=True)
    sh('cp -a /repo ' + wt)
    sh('git checkout -q -- . && git clean -fdq', wt)
    out = V + '/seeded/' + name
    tmp = wt + '.out'
    sh('rm -rf ' + tmp); os.makedirs(tmp)
    open(tmp + '/demo_test.go', 'w').write(g['TEST'])
    open(tmp + '/demo.sh', 'w').write(DEMO % {'pkg': g['PKG'], 'flags': g.get('FLAGS', '')})
    os.chmod(tmp + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
    r = sh('bash ' + tmp + '/demo.sh', wt)
    if r.returncode != 0:
        return name + ': DEMO FAILS ON HEAD\n' + r.stdout[-1500:]
    for f, old, new in g['EDITS']:
        s = open(wt + '/' + f).read()
        if s.count(old) != 1:
            return '%s: %d matches in %s for %r' % (name, s.count(old), f, old)
        open(wt + '/' + f, 'w').write(s.replace(old, new))
    d = sh('git diff', wt).stdout
    open(tmp + '/patch.diff', 'w').write(d)
    b = sh('go build ./...' , wt, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH']))
    r = sh('bash ' + tmp + '/demo.sh', wt)
    if r.returncode == 0:
        return name + ': DEMO PASSES WITH THE PATCH'
    if '-v' in sys.argv: print(r.stdout[-1200:])
    if 'build failed' in r.stdout:
        return name + ': does not build\n' + r.stdout[-1500:]
    # stable tests
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], HOME='/root')
    def passed():
        got = set()
        for l in sh('go test -vet=off -count=1 -skip ^TestForkedChain$ -json ./... 2>/dev/null', wt, env=env).stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): got.add(e['Package'] + '/' + e['Test'])
        return got
    sh('rm -f x', wt)
    lost = stable - passed()
    for k in range(7):
        if not lost: break
        lost -= passed()
    if lost:
        return name + ': TESTS LOST ' + ' '.join(sorted(lost))
    sh('rm -rf ' + out); shutil.copytree(tmp, out)
    # which checks catch it
    c = sh('SA_REPO=%s SA_VERIF=%s /tmp/sa check %s' % (wt, tmp, g['PROP']), V)
    res = 'caught' if 'VIOLATION property=' + g['PROP'] in c.stdout else 'MISSED'
    sh('rm -rf %s %s' % (wt, tmp))
    return '%s: ok, %s by %s' % (name, res, g['PROP'])
names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(V + '/tools/seeds') if f.endswith('.py'))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, names): print(r, flush=True)
