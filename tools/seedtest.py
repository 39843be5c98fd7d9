#!/usr/bin/env python3
"""seedtest.py [-f] ID... : for each planted bug: demo passes on the clean tree, patch applies, builds, stable tests pass, demo fails, check of its property reports.
-f: only the check (skip tests and demo). Reverts /repo afterwards."""
import sys, os, subprocess, json, re
V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
fast='-f' in sys.argv; also=[a[2:] for a in sys.argv if a.startswith('-c')]
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for i in ids:
    d='%s/seeded/%s'%(V,i); prop=json.load(open(d+'/meta.json'))['property']; r=[i,prop]
    if not fast:
        x=sh('cd /repo && bash %s/demo.sh'%d); r.append('demo-clean=%d'%x.returncode)
        if x.returncode: print(x.stdout[-800:])
    x=sh('git -C /repo apply %s/patch.diff'%d)
    if x.returncode: print(i,'patch does not apply',x.stderr); continue
    try:
        if not fast:
            x=sh('bash /opt/vp/build.sh'); r.append('build=%d'%x.returncode)
            if x.returncode: print('\n'.join(l for l in (x.stdout+x.stderr).split('\n') if 'error' in l)[:800])
            sh('bash /opt/vp/test.sh /tmp/st.json'); t=json.load(open('/tmp/st.json')); r.append('tests=%d/%d'%(len(t['passed']),len(t['failed'])))
            if t['failed']: print(t['failed'][:5])
            x=sh('cd /repo && bash %s/demo.sh'%d); r.append('demo-patched=%d'%x.returncode)
            r.append((re.findall(r'panicked at[^\n]*\n[^\n]*',x.stdout) or [x.stdout[-200:]])[0])
        for p in also or [prop]:
            x=sh('python3 %s/check.py %s quick'%(V,p)); r.append('check %s rc=%d'%(p,x.returncode))
            r.append(' | '.join(l.strip()[:110] for l in x.stdout.split('\n') if 'native:' in l)[:330] or x.stdout[-300:])
    finally:
        sh('git -C /repo checkout -q -- .')
    print(' ; '.join(map(str,r))); sys.stdout.flush()
