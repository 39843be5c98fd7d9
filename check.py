#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Rebuilds the harness crate against /repo's current tree, runs the symbolic engine on the property's harnesses,
validates sampled paths and every violation natively, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: violation (printed); 2: no answer."""
import json, os, re, signal, subprocess, sys, time, glob, random, shutil, fcntl
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
REPO = '/repo'
NCPU = os.cpu_count() or 8

# the contract of a data call (harness/src/com.rs req, res): request side C01, response side C02
CONTRACT = {s: ['%s: %s' % (s, x) for x in ('consumed more than supplied', 'state returned', 'DATA but chunk not consumed', 'DATA_OTHER but chunk consumed')] for s in ('request', 'response')}

def die(msg):
    print('ERROR ' + msg); sys.stdout.flush(); sys.exit(2)

def build(prop):
    for args in ([], [prop.lower() + ',bestfit_off'], [prop.lower()]):
        r = subprocess.run(['bash', os.path.join(V, 'build_harness.sh'), B] + args, capture_output=True, text=True)
        if r.returncode == 0:
            return 'all' if not args else prop
    die('build failed:\n' + r.stdout[-3000:] + r.stderr[-6000:])

def native(h, models, timeout=600):
    r = subprocess.run([os.path.join(B, 'vph'), h], input=''.join(m + '\n' for m in models), text=True,
                       capture_output=True, timeout=timeout)
    out = []
    for l in r.stdout.split('\n'):
        m = re.match(r'^(.*?)\s*E:(\w+)$', l)
        if not m:
            continue
        fails = re.findall(r'F:([^;]*);', m.group(1))
        obs = re.sub(r'F:[^;]*;', ' ', m.group(1)).split()
        out.append((obs, fails, m.group(2)))
    return out

FN = {}
def fn_of(path, line):
    if path not in FN:
        tab = []
        try:
            for i, l in enumerate(open(path, errors='replace'), 1):
                m = re.match(r'\s*(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?(?:extern\s+"C"\s+)?fn\s+(\w+)', l)
                if m: tab.append((i, m.group(1)))
        except OSError:
            pass
        FN[path] = tab
    name = None
    for i, n in FN[path]:
        if i > line: break
        name = n
    return name

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = json.load(open(os.path.join(V, 'specs.json')))[prop]
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == prop]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    built = build(prop)
    tb = time.time() - t0
    # h_<id>_*: quick and thorough; q_<id>_*: quick only (a smaller instance of a t_); t_<id>_*: thorough only
    # spec 'also': harnesses of other properties, of which only panics, hangs, memory errors and the assertions in spec 'only' count
    hs = [l for l in subprocess.run([os.path.join(B, 'vph')], capture_output=True, text=True).stdout.split()
          if re.match(r'^[%s]_%s_' % ('hq' if tier == 'quick' else 'ht', prop.lower()), l)
          or (spec.get('also') and re.match(r'^[%s]_(%s)$' % ('hq' if tier == 'quick' else 'ht', spec['also']), l))]
    only = CONTRACT.get(spec.get('only'), [])
    skip = [] if only else CONTRACT['request'] + CONTRACT['response']
    if not hs: die('no harness for ' + prop)
    sh = {h: n for p in json.load(open(os.path.join(V, 'specs.json'))).values() for h, n in p.get('shards', {}).items()}
    jobs = ['%s:%s' % (h, sh.get(h, 4 if tier == 'quick' else 8)) for h in hs]
    tl = spec.get('tlimit', {}).get(tier, 300 if tier == 'quick' else 3600)
    od = os.path.join(B, 'run', prop)
    shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; rustc --print sysroot'], capture_output=True, text=True).stdout.strip() + '/lib'
    if only: env['VP_ONLY'] = '|'.join(only)
    if skip: env['VP_NOT'] = '|'.join(skip)
    t1 = time.time()
    # once a violation is known there is no need to finish: give the rest 40 s
    ef = open(os.path.join(B, 'engine_%s.err' % prop), 'w+')
    pr = subprocess.Popen([os.path.join(B, 'engine'), os.path.join(B, 'vph.bc'), od, str(NCPU), str(tl)] + jobs,
                          stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True)
    first, cut = None, False
    def violation_seen():
        for f in glob.glob(od + '/*.json'):
            h = os.path.basename(f).split('.')[0]
            for l in open(f, errors='replace'):
                if l.startswith('{"type":"violation"') and l.endswith('\n'):
                    d = json.loads(l)
                    if not any(k['harness'] == h and k['label'] == d['label'] for k in known): return True
        return False
    while pr.poll() is None:
        try: pr.wait(2)
        except subprocess.TimeoutExpired: pass
        if first is None and violation_seen(): first = time.time()
        if (first is not None and time.time() - first > 40) or time.time() - t1 > tl + 60:
            cut = True
            try: os.killpg(pr.pid, signal.SIGKILL)
            except OSError: pass
            pr.wait()
    te = time.time() - t1
    engine_rc = 0 if cut else pr.returncode
    ef.seek(0); engine_err = ef.read(); ef.close()
    tot = dict(paths=0, forks=0, steps=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_time=0.0, check_queries=0, dom_queries=0, model_hits=0)
    viol, inc, reach, funcs, checks, per = {}, {}, {}, set(), {}, {}
    complete = engine_rc == 0 and not cut
    for f in sorted(glob.glob(od + '/*.json')):
        h = os.path.basename(f).split('.')[0]
        seen = False
        for l in open(f):
            try: d = json.loads(l)
            except ValueError: continue
            t = d['type']
            if t == 'violation':
                viol.setdefault((h, d['label'], d.get('where', '')), []).append(d['model'])
            elif t == 'incomplete':
                k = '%s: %s' % (h, d.get('msg', '?')); inc[k] = inc.get(k, 0) + d.get('n', 1); complete = False
            elif t == 'reach':
                reach[(h, d['label'])] = reach.get((h, d['label']), 0) + d.get('n', 1)
            elif t == 'check':
                checks[(h, d['label'])] = checks.get((h, d['label']), 0) + d.get('n', 1)
            elif t == 'lines':
                for ln in d['lines']:
                    n = fn_of(d['file'], ln)
                    if n: funcs.add(os.path.basename(d['file']) + '::' + n)
            elif t == 'summary':
                seen = True
                for k in tot: tot[k] += d.get(k, 0)
                p = per.setdefault(h, dict(paths=0, complete=True)); p['paths'] += d['paths']; p['complete'] &= bool(d['complete'])
                if not d['complete']: complete = False
        if not seen: complete = False
    # ---- sampled traces: engine path vs native run of the same concrete input
    rng = random.Random(seed)
    names = [j.split(':')[0] for j in jobs]
    validated, mism, samples, okend = 0, [], [], {}
    budget = 1600
    for h in names:
        paths = []
        for f in sorted(glob.glob('%s/%s.*.paths' % (od, h))):
            for l in open(f):
                a = l.rstrip('\n').split(' ')
                if len(a) >= 2: paths.append(a)
        okend[h] = sum(1 for p in paths if p[1] == 'ok')
        per.setdefault(h, {})['ok_paths'] = okend[h]
        n = max(30, budget // max(1, len(names)))
        pick = paths if len(paths) <= n else rng.sample(paths, n)
        if not pick: continue
        res = native(h, [p[0] for p in pick])
        if len(res) != len(pick): die('native run of %s returned %d of %d results' % (h, len(res), len(pick)))
        for p, (obs, fails, end) in zip(pick, res):
            fails = [x for x in fails if (not only or x in only) and x not in skip]
            exp = [x for x in (p[2].split(',') if len(p) > 2 else []) if x]
            if exp == obs and p[1] == end: validated += 1
            elif p[1] == 'violation' and fails and obs[:len(exp)] == exp: pass
            else: mism.append((h, p[0], p[1], end, exp[:6], obs[:6]))
        if len(samples) < 12: samples.append({'harness': h, 'input': pick[0][0], 'end': pick[0][1], 'observations': (pick[0][2] if len(pick[0]) > 2 else '')[:160]})
    # ---- violations: replay
    out_v, known_hit, bad = [], [], []
    for (h, label, where), models in sorted(viol.items()):
        rep = None
        for m in models[:12]:
            rr = native(h, [m])
            if not rr: continue
            obs, fails, end = rr[0]
            fails = [x for x in fails if (not only or x in only) and x not in skip]
            if label in fails or (end in ('panic', 'limit') and label.startswith(('panic', 'step', 'mem', 'unreachable', 'abort'))) or (end.startswith(('panic','limit'))):
                rep = (m, fails, end); break
        if rep is None and label.startswith('mem'):
            # an invalid access need not crash: let valgrind watch the same run
            for m in models[:3]:
                r = subprocess.run(['valgrind', '-q', os.path.join(B, 'vph'), h], input=m + '\n', text=True, capture_output=True, timeout=600)
                if re.search(r'Invalid (read|write|free)|uninitialised|Process terminating', r.stderr):
                    rep = (m, ['valgrind: ' + re.search(r'Invalid \w+[^\n]*|[^\n]*uninitialised[^\n]*|Process[^\n]*', r.stderr).group(0)], 'memory error'); break
        if rep is None:
            bad.append((h, label, where, models[0])); continue
        kf = [k for k in known if k['harness'] == h and k['label'] == label and (not k.get('inputs') or all(m in k['inputs'] for m in models))]
        if kf: known_hit.append((kf[0], rep))
        else: out_v.append((h, label, where, rep, len(models)))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated, 'samples': samples,
            'exhaustive': bool(complete), 'explanation': 'states = symbolic paths run to their end; transitions = solver-decided branch splits; traces = sampled paths whose concrete input gave the same observations and ending when run natively.',
            'harnesses': per, 'bounds': spec['bounds'], 'outside': spec.get('outside', ''),
            'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs), 'ir_instructions_executed': tot['steps'],
            'assertions': {'%s/%s' % k: n for k, n in sorted(checks.items())}, 'reached': {'%s/%s' % k: n for k, n in sorted(reach.items())},
            'solver': {'z3_queries': tot['z3_queries'], 'sat': tot['z3_sat'], 'unsat': tot['z3_unsat'], 'unknown': tot['z3_unknown'], 'time_s': round(tot['z3_time'], 2),
                       'assertion_queries': tot['check_queries'], 'byte_domain_decisions': tot['dom_queries'], 'cached_model_decisions': tot['model_hits']},
            'incomplete': inc, 'build_s': round(tb, 1), 'engine_s': round(te, 1), 'native_mismatches': len(mism), 'build': built,
        },
        'assumptions': spec.get('assumptions', []) + ['single thread; clock and randomness constant; allocation never fails; overflow checks on; code = post-LTO LLVM bitcode of the same build that is replayed natively'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(out_v),
    }
    tmp = os.path.join(V, 'evidence', prop + '.json.tmp'); json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    for k, rep in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: %d paths, %d z3 queries (%.1fs), %d assertions checked, %d traces validated, complete=%s, build %.0fs engine %.0fs' %
          (prop, tier, tot['paths'], tot['z3_queries'], tot['z3_time'], sum(checks.values()), validated, complete, tb, te))
    if inc: print('incomplete: ' + json.dumps(inc)[:600])
    rc = 0
    if out_v:
        rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        for i, (h, label, where, (m, fails, end), n) in enumerate(out_v[:20]):
            p = os.path.join(rd, '%s-%d.sh' % (prop, i))
            with open(p, 'w') as f:
                f.write('#!/bin/bash\n# property %s, harness %s: %s (%s)\n# prints the observations, F:<failed assertion>; and E:<how it ended>\necho %s | VP_VERBOSE=1 %s/build/vph %s\n' % (prop, h, label, where, m, V, h))
            os.chmod(p, 0o755)
            print('  %s: %s %s input=%s native: fails=%s end=%s (%d models)' % (h, label, where, m, fails[:3], end, n))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        rc = 1
    if bad:
        for b in bad[:10]: print('NOT REPRODUCED natively: %s' % (b,))
        if not rc: rc = 2
    if mism:
        for b in mism[:10]: print('ENGINE/NATIVE MISMATCH: %s' % (b,))
        if not rc: rc = 2
    # a harness none of whose paths ended normally is an error, unless there was no time for it
    def timed(h): return cut or ('%s: time limit' % h) in inc or (h not in per or 'paths' not in per[h]) or (not per[h].get('complete', True) and not any(k.startswith(h + ':') for k in inc))
    if not rc:
        for h in names:
            if not okend.get(h) and not timed(h) and not any(k['harness'] == h for k, _ in known_hit): print('ERROR harness %s never completed' % h); rc = 2
        for w in spec.get('reach', []):
            h, l = w.split('/', 1)
            if not reach.get((h, l)): print('ERROR not reached: %s' % w); rc = 2
        if not (checks or spec.get('panic_only')): print('ERROR no assertion evaluated'); rc = 2
        if engine_rc != 0: print('ERROR engine failed: ' + engine_err[-2000:]); rc = 2
    if not os.environ.get('VP_KEEP'):
        shutil.rmtree(od, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

main()
