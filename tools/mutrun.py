#!/usr/bin/env python3
"""mutrun.py filter MUT.json OUT.json NWORK N SEED : which mutants compile and pass the existing tests
   mutrun.py check SURV.json OUT.json NWORK      : which of those no quick check reports
Works in copies under /tmp/mw<k>, never in /repo or /verif."""
import sys, json, os, subprocess, random, threading, queue, shutil, re, time
def sh(c, t=600, env=None):
    try:
        r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, env=env); return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
mode = sys.argv[1]; M = json.load(open(sys.argv[2])); outp = sys.argv[3]; nw = int(sys.argv[4])
if mode == 'filter':
    random.seed(int(sys.argv[6])); random.shuffle(M); M = M[:int(sys.argv[5])]
q = queue.Queue(); [q.put(m) for m in M]
done = []; lock = threading.Lock()
def apply(root, m, back=False):
    p = os.path.join(root, m['file']); L = open(p).read().split('\n')
    assert L[m['line']] == (m['new'] if back else m['old'])
    L[m['line']] = m['old'] if back else m['new']; open(p, 'w').write('\n'.join(L))
def work(k):
    W = '/tmp/mw%d' % k; R = W + '/repo'; os.makedirs(W, exist_ok=True)
    sh('rsync -a --delete --exclude target --exclude .git /repo/ %s/' % R)
    if mode == 'check':
        sh('rsync -a --delete --exclude build --exclude .git --exclude evidence --exclude seeded /verif/ %s/verif/' % W)
        sh("sed -i 's#path = \"/repo\"#path = \"%s\"#' %s/verif/harness/Cargo.toml" % (R, W))
        sh("sed -i \"s#^REPO = '/repo'#REPO = '%s'#; s#^NCPU = .*#NCPU = %d#\" %s/verif/check.py" % (R, max(2, 8 // nw), W))
        specs = json.load(open(W + '/verif/specs.json'))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        apply(R, m)
        try:
            if mode == 'filter':
                env = dict(os.environ, CARGO_BUILD_JOBS='2', CARGO_TARGET_DIR=W + '/target', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_TEST_DEBUG='0', CARGO_INCREMENTAL='1')
                c, o = sh('. /opt/vp/env.sh; export CARGO_INCREMENTAL=1; cd %s && timeout 200 cargo test --offline -q --lib --tests 2>&1' % R, env=env, t=300)
                m['res'] = 'survive' if c == 0 else 'nocompile' if 'could not compile' in o else 'killed'
            else:
                t0 = time.time(); m['res'] = 'MISSED'; m['log'] = []
                order = m.get('props') or sorted(specs)
                c, o = sh('bash %s/verif/build_harness.sh' % W, t=900)
                if c: m['res'] = 'buildfail'
                else:
                    c, o = sh('python3 %s/verif/tools/allcheck.py %s/verif %d %s' % (W, W, max(2, 8 // nw), ','.join(order)), t=3000)
                    m['log'] = o.strip().split('\n')[-6:]
                    if c == 1: m['res'] = 'caught'
                    elif c: m['res'] = 'rc%d' % c
                m['time'] = round(time.time() - t0)
        finally: apply(R, m, True)
        with lock:
            done.append(m); json.dump(done, open(outp, 'w'), indent=0)
            if mode == 'check' or len(done) % 20 == 0: print(len(done), m['file'], m['line'] + 1, m['res'], m.get('time', ''), (m.get('log') or [''])[-1][:150], flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
