#!/usr/bin/env python3
"""Run the checks against small edits of philhofer/seth (development tool).

usage: mut.py LIST.py [-k substring] [-j jobs]
LIST.py defines MUTS, a list of (name, kind, props, edits) with kind 'bug' or
'same', props a list of ids (the first is the one expected to fire on a bug),
edits a list of (file, old, new). Scratch copies live under /tmp/mut and are
removed afterwards.
"""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf
args = sys.argv[1:]
k = None; j = 6; test = False
if '-k' in args: i = args.index('-k'); k = args[i+1]; del args[i:i+2]
if '-j' in args: i = args.index('-j'); j = int(args[i+1]); del args[i:i+2]
if '-t' in args: args.remove('-t'); test = True
muts = []
for f in args:
    sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    muts += m.MUTS
if k: muts = [m for m in muts if k in m[0] or k in m[2]]
SA = os.environ.get('SA', '/tmp/sa')
env = dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh >/dev/null 2>&1; env'],capture_output=True,text=True).stdout.splitlines():
    if '=' in l: a,b = l.split('=',1); env[a]=b
def run(m):
    name, kind, props, edits = m
    d = '/tmp/mut/' + name.replace('/','_').replace(' ','_')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get('MUT_SRC','/repo'), d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) < 1: return name, 'NOEDIT %s %r' % (f, old[:60])
            s = s.replace(old, new, 1); open(p,'w').write(s)
        r = subprocess.run(['go','build','.','./tevm/...','./cc/...','./keccak/...','./cmd/...','./ec/...'],cwd=d,env=env,capture_output=True,text=True)
        if r.returncode: return name, 'NOBUILD ' + r.stderr[:300]
        out = ''
        e = dict(env); e['SA_REPO']=d; v = d + '.v'; os.makedirs(v, exist_ok=True); e['SA_VERIF']=v
        kf='/verif/known-findings.txt'
        if os.path.exists(kf): shutil.copy(kf, v)
        r = subprocess.run([SA,'check']+props,env=e,cwd='/verif',capture_output=True,text=True,timeout=900)
        fired = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        det = [l for l in r.stdout.splitlines() if ': [' in l]
        ids = [l.split('property=')[1].split()[0] for l in fired]
        if kind == 'bug':
            st = 'caught' if props[0] in ids else 'MISSED'
        else:
            st = 'quiet' if not ids and r.returncode == 0 else 'ALARM'
        if r.returncode not in (0,1): st = 'CRASH ' + r.stderr[-500:]
        if test and kind=='bug':
            t = subprocess.run(['go','test','-count=1','.','./tevm/...','./cc/...','./keccak/...','./ec/...','./bindgen/...'],cwd=d,env=env,capture_output=True,text=True)
            bad=[l for l in t.stdout.splitlines() if l.startswith('--- FAIL')]
            st += ' tests-fail:' + ','.join(bad) if bad else ''
        ex = ''
        if st in ('MISSED','ALARM') : ex = '\n    '+'\n    '.join(x[:400] for x in det[:4])
        elif kind=='bug' and det: ex = '  ' + det[0][:170]
        return name, st + ' ' + ','.join(ids) + ex
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d+'.v', ignore_errors=True)
os.makedirs('/tmp/mut', exist_ok=True)
bad = 0
with cf.ThreadPoolExecutor(j) as ex:
    for n, s in ex.map(run, muts):
        if not (s.startswith('caught') or s.startswith('quiet')): bad += 1
        print('%-40s %s' % (n, s), flush=True)
print(len(muts), 'edits,', bad, 'not as expected')
