#!/usr/bin/env python3
"""Maintenance tool (no check uses it): runs changes to kami through the checks, in parallel scratch copies.

  sweep.py seeded [NAME...]      every planted bug: builds, stable tests pass, demo 0/1, and which checks report it
  sweep.py patches DIR [all|touched|ID...]  every DIR/*.diff: builds, stable tests, given checks (default: all;
                      touched: those of the areas of the code which the patch touches)

Options by environment: JOBS (8), ALL=1 (seeded: run all checks, not just the property's own).
"""
import sys, os, signal, subprocess, json, shutil, threading, queue, glob, re

BASE = os.environ.get('SWEEP_DIR', '/tmp/kami-sweep')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           PATH='/root/.cargo/bin:' + os.environ['PATH'])
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
IDS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]

def sh(cmd, cwd=None, timeout=900, env=ENV):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out.decode('utf8', 'replace')

class Worker:
    def __init__(self, k):
        self.dir = f'{BASE}/{k}'
        self.repo, self.verif = f'{self.dir}/repo', f'{self.dir}/verif'
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        sh(f'git clone -q /repo {self.repo} && cp /repo/Cargo.lock {self.repo}/')
        sh(f'mkdir {self.verif} && cp -a /verif/harness /verif/regress /verif/build.sh /verif/check.sh /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl {self.verif}/; cp /verif/MANIFEST.json {self.verif}/')
        p = f'{self.verif}/harness/Cargo.toml'
        t = open(p).read().replace('path = "/repo"', f'path = "{self.repo}"').replace('incremental = false', 'incremental = true')
        open(p, 'w').write(t)
        self.env = dict(ENV, CARGO_TARGET_DIR=f'{self.repo}/target', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    def reset(self): sh('git checkout -q -- .', self.repo)
    def apply(self, diff): return sh(f'git apply {diff}', self.repo)
    def tests(self):
        rc, out = sh('cargo test --lib --offline -- --test-threads 2', self.repo, 60, self.env)
        if 'error: could not compile' in out: return 'nobuild', out
        ok = set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
        bad = [s for s in STABLE if s.split('::', 1)[1] not in ok]
        return ('ok' if not bad else 'tests fail: ' + ','.join(bad)[:200]), out
    def build(self): return sh('./build.sh', self.verif)
    def check(self, id, tier='quick'):
        rc, out = sh(f'./target/release/kv check {id}', self.verif, int(os.environ.get('CHECK_TIMEOUT', 900)), dict(ENV, VERIF_TIER=tier, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        v = 'VIOLATION property=' + id in out
        return {(1, True): 'CAUGHT', (0, False): 'quiet'}.get((rc, v), f'rc={rc}'), out

def seeded(w, name):
    d = f'/verif/seeded/{name}'
    meta = json.load(open(d + '/meta.json'))
    demo = f'{w.dir}/demo'
    shutil.rmtree(demo, ignore_errors=True); os.makedirs(demo)
    for f in os.listdir(d):
        if not f.endswith('.diff') and f != 'meta.json': shutil.copy(f'{d}/{f}', demo)
    w.reset()
    clean = sh(f'sh {demo}/demo.sh', w.repo, 300)
    rc, out = w.apply(d + '/patch.diff')
    if rc: return [name, 'does not apply: ' + out[:200]]
    t, out = w.tests()
    if t != 'ok': w.reset(); return [name, meta['property'], t, out[-1500:] if t == 'nobuild' else '']
    broken = sh(f'sh {demo}/demo.sh', w.repo, 300)
    rc, out = w.build()
    if rc: w.reset(); return [name, 'harness build: ' + out[-500:]]
    own, _ = w.check(meta['property'])
    others = []
    if os.environ.get('ALL'):
        others = [i for i in IDS if i != meta['property'] and w.check(i)[0] != 'quiet']
    w.reset()
    demo_ok = 'demo ok' if clean[0] == 0 and broken[0] not in (0, 2, 3) else f'DEMO BAD clean={clean[0]} patched={broken[0]} {clean[1][-300:]} {broken[1][-300:]}'
    return [name, meta['property'], t, demo_ok, own, 'also: ' + ' '.join(others) if others else '']

def patch(w, path, ids):
    w.reset()
    rc, out = w.apply(path)
    if rc: return [os.path.basename(path), 'does not apply']
    t, out = w.tests()
    if t != 'ok': w.reset(); return [os.path.basename(path), t]
    rc, out = w.build()
    if rc: w.reset(); return [os.path.basename(path), 'harness build: ' + out[-300:]]
    hit = []
    for i in ids:
        r, out = w.check(i)
        if r != 'quiet': hit.append(i if r == 'CAUGHT' else f'{i}({r})')
        if hit and os.environ.get('FIRST'): break
    w.reset()
    return [os.path.basename(path), 'reported by ' + ' '.join(hit) if hit else 'NOT REPORTED']

def main():
    mode = sys.argv[1]
    if mode == 'seeded':
        items = sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
        job = lambda w, x: seeded(w, x)
    else:
        items = sorted(glob.glob(sys.argv[2] + '/*.diff'))
        ids = sys.argv[3:] if sys.argv[3:] not in ([], ['all']) else IDS
        def touched(x):
            t = open(x).read()
            pre = ''.join(c for f, c in (('planar_graph.rs', 'G'), ('polygon.rs', 'P'), ('utils.rs', 'UG'), ('line.rs', 'U'), ('fold.rs', 'F'), ('src/math', 'AU')) if f in t)
            return [i for i in IDS if i[0] in pre]
        job = lambda w, x: patch(w, x, touched(x) if sys.argv[3:] == ['touched'] else ids)
    q = queue.Queue()
    for x in items: q.put(x)
    lock = threading.Lock()
    def run(k):
        w = None
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            if w is None: w = Worker(k)
            try: r = job(w, x)
            except Exception as e: r = [x, 'ERROR ' + repr(e)]
            with lock: print(' | '.join(r), flush=True)
    n = min(int(os.environ.get('JOBS', 8)), len(items))
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(BASE, ignore_errors=True)
main()
