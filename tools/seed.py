#!/usr/bin/env python3
"""Plants, confirms and keeps a bug.  seed.py FILE.py: FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=C++ text)]
seed.py --check ID...: run the property's quick check with the kept patch applied."""
import sys, os, subprocess, json, runpy, time
R='/repo'; V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); S=os.path.join(V,'seeded')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    assert sh(f'git -C {R} status --short').stdout.strip()=='' , 'repo not clean'
def tests():
    r=sh('bash /opt/vp/test.sh /tmp/t.json')
    try: p=set(json.load(open('/tmp/t.json'))['passed'])
    except Exception: return 'no result: '+r.stdout[-800:]
    st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return None if st<=p else 'tests fail: '+str(sorted(st-p))[:300]
def demo(i): return sh(f'bash {S}/{i}/demo.sh', cwd=R, timeout=300)
DEMO='''#!/bin/bash
# exit 0: the property holds for this input; 1: it does not. Run in /repo.
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r -- "$T"' EXIT
g++ -std=c++17 -O1 -w -ISEFramework -ISEUtils -ISEImplementation -IModelFitting %s "$D/demo.cpp" %s -o "$T/demo"
"$T/demo"
'''
def plant(s):
    clean(); i=s['id']; d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in s['edits']:
            t=open(f'{R}/{f}').read(); assert t.count(a)==1,(i,f,t.count(a),a); open(f'{R}/{f}','w').write(t.replace(a,b))
        open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        open(d+'/demo.cpp','w').write(s['demo']); open(d+'/demo.sh','w').write(DEMO%(s.get('inc',''),s.get('src','')))
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        e=tests()
        if e: print(i,'REJECTED',e); return
        r=demo(i)
        if r.returncode==0 or 'error:' in r.stdout: print(i,'REJECTED demo with patch rc',r.returncode,r.stdout[:1500]); return
        if s.get('check',True): check(i,s['property'])
    finally:
        sh(f'git -C {R} checkout -- .')
    r=demo(i)
    if r.returncode: print(i,'REJECTED demo on clean tree:',r.stdout[:1500])
    else: print(i,'kept')
def check(i,p):
    t=time.time(); r=sh(f'mkdir -p /tmp/seedw; VF_TMP=/tmp/seedw timeout 900 python3 engine/check.py {p} --tier=quick',cwd=V)
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i,p,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,'%.0fs'%(time.time()-t),(v or r.stdout.splitlines()[-3:])[:3],flush=True)
if sys.argv[1]=='--check':
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        clean(); p=json.load(open(f'{S}/{i}/meta.json'))['property']
        a=sh(f'git -C {R} apply {os.path.abspath(S)}/{i}/patch.diff'); assert a.returncode==0,a.stdout
        try: check(i,p)
        finally: sh(f'git -C {R} checkout -- .')
else:
    ns=runpy.run_path(sys.argv[1])
    for s in ns['SEEDS']:
        if len(sys.argv)<3 or s['id'] in sys.argv[2:]:
            try: plant(s)
            except Exception as ex: print(s['id'],'ERROR',ex)
