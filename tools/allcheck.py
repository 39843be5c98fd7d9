#!/usr/bin/env python3
"""allcheck.py VDIR NCPU [PROPS] : runs the quick harnesses of all properties on an already built harness, in groups,
stops at the first violation that is not a known finding (exit 1). Development aid for mutrun."""
import sys, os, re, json, subprocess, glob, shutil
V, n = sys.argv[1], sys.argv[2]; B = V + '/build'
known = [(k['harness'], k['label']) for k in json.load(open(V + '/known_findings.json'))['findings']]
specs = json.load(open(V + '/specs.json'))
names = subprocess.run([B + '/vph'], capture_output=True, text=True).stdout.split()
order = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(specs)
env = dict(os.environ, LD_LIBRARY_PATH=subprocess.run(['bash', '-c', '. /opt/vp/env.sh; rustc --print sysroot'], capture_output=True, text=True).stdout.strip() + '/lib')
for p in order:
    hs = [h for h in names if re.match('^[hq]_%s_' % p.lower(), h)]
    if not hs: continue
    od = B + '/ac'; shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    r = subprocess.run([B + '/engine', B + '/vph.bc', od, n, '300'] + ['%s:%s' % (h, specs[p]['shards'].get(h, 2)) for h in hs], capture_output=True, text=True, env=env)
    for f in sorted(glob.glob(od + '/*.json')):
        h = os.path.basename(f).split('.')[0]
        for l in open(f):
            try: d = json.loads(l)
            except ValueError: continue
            if d['type'] == 'violation' and (h, d['label']) not in known:
                print('CAUGHT %s %s %s' % (p, h, d['label'])); sys.exit(1)
    if r.returncode: print('ENGINE rc', r.returncode, p, r.stderr[-300:]); sys.exit(3)
sys.exit(0)
