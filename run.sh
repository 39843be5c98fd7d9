#!/bin/bash
# dev helper: run.sh TLIMIT harness[:shards] ... ; results in /tmp/eo, one summary line per harness
rm -rf /tmp/eo; mkdir -p /tmp/eo
T=$1; shift
time /verif/build/engine /verif/build/vph.bc /tmp/eo 8 $T "$@" 2>&1 | tail -5
python3 - <<'PY'
import glob,json,collections
S=collections.OrderedDict()
for f in sorted(glob.glob('/tmp/eo/*.json')):
    h=f.split('/')[-1].split('.')[0]
    s=S.setdefault(h,dict(paths=0,wall=0,z3=0,comp=True,viol={},inc={}))
    ok=False
    for l in open(f):
        try: d=json.loads(l)
        except: continue
        if d['type']=='summary': ok=True; s['paths']+=d['paths']; s['wall']+=d['wall']; s['z3']+=d['z3_time']; s['comp']&=d['complete']
        if d['type']=='violation': s['viol'].setdefault((d['label'],d['where'][:150]),[]).append(d['model'])
        if d['type']=='incomplete': s['inc'][d['msg']]=s['inc'].get(d['msg'],0)+d['n']
    if not ok: s['comp']=False
for h,s in S.items():
    print(h,'paths',s['paths'],'cpu %.1f z3 %.1f'%(s['wall'],s['z3']),'complete' if s['comp'] else 'INCOMPLETE',s['inc'] or '')
    for k,m in list(s['viol'].items())[:4]: print('   VIOL',k,len(m),m[:2])
PY
