#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

exit 0: no violation found.  exit 1: a line VIOLATION property=<id> replay=<path>."""
import fcntl
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'deciders'))
import plan

BUILD = os.environ.get('AOCV_BUILD', os.path.join(V, 'build'))
REPO = os.environ.get('AOCV_REPO', '/repo')


MODULES = {'w': 'core_w', 'p': 'parse_w', 's': 'parse_w', 'm': 'macro_w', 'c': 'chars_w', 'l': 'chars_w', 'n': 'nums_w', 'o': 'coll_w',
           't': 'util_w', 'e': 'disp_w', 'g': 'gen_w'}


def build(out, mods, drop=()):
    env = dict(os.environ, AOCV_ONLY=','.join(mods) or 'none', AOCV_DROP=' '.join(drop))
    r = subprocess.run([os.path.join(V, 'build.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode == 0 and os.path.exists(os.path.join(out, 'witness.json')), r.stdout


def item_at(mod, line):
    """(name, first line, last line) of the witness function at a line of a module, or None"""
    with open(os.path.join(V, 'witness', 'src', mod + '.rs')) as f:
        src = f.read().split('\n')
    i = line - 1
    while i >= 0 and not src[i].startswith('pub fn '):
        if src[i].startswith('}') and i < line - 1:
            return None
        i -= 1
    if i < 0:
        return None
    k = i
    if not src[i].rstrip().endswith('}'):
        while k < len(src) and src[k] != '}':
            k += 1
    if k < line - 1:
        return None
    return src[i][7:].split('(')[0], i + 1, k + 1


def build_all(out, mods):
    """Builds; leaves out witnesses, else whole modules, that do not compile. (ok, skipped modules, rejected witnesses, log)"""
    import re
    os.makedirs(BUILD, exist_ok=True)
    skip, drop, rejected = [], set(), {}
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = ''
        for turn in range(10):
            ok, text = build(out, [x for x in mods if x not in skip], sorted(drop))
            log += text
            if ok:
                return True, skip, rejected, log
            bad, new = set(), False
            for m in re.finditer(r'^error.*?(?=^error|^warning|\Z)', text, re.S | re.M):
                for f, n in re.findall(r'src/(\w+_w)\.rs:(\d+)', m.group(0)):
                    it = item_at(f, int(n)) if f in ('gen_w', 'macro_w') and turn < 7 else None
                    if it is None or it[0].endswith('_ref'):
                        bad.add(f)
                    elif it[0] not in rejected:
                        rejected[it[0]] = m.group(0)[:300]
                        drop.add('%s.rs:%d-%d' % (f, it[1], it[2]))
                        new = True
            bad -= set(skip)
            if not bad and not new:
                return False, skip, rejected, log
            if not new:
                skip += sorted(bad)
    return False, skip, rejected, log


class Server:
    """engine/serve.py, which has the program loaded."""
    def __init__(self, out):
        self.p = subprocess.Popen([sys.executable, os.path.join(V, 'engine', 'serve.py'), os.path.join(out, 'witness.json')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  env=dict(os.environ, PYTHONHASHSEED='1'))
        self.lock = threading.Lock()
        self.n = 0
        self.wait = {}
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        for line in self.p.stdout:
            i, r = json.loads(line)
            self.wait[i].put(r)
        for q in list(self.wait.values()):
            q.put(None)

    def ask(self, name, delay, budget, kinds=None):
        q = queue.Queue()
        with self.lock:
            self.n += 1
            i = self.n
            self.wait[i] = q
            try:
                self.p.stdin.write(json.dumps([i, name, delay, budget, kinds]) + '\n')
                self.p.stdin.flush()
            except OSError:
                q.put(None)
        try:
            r = q.get(timeout=budget + 90)
        except queue.Empty:
            r = None
        return r or {'witness': name, 'delay': delay, 'findings': [], 'unsupported': ['no answer'], 'states': 0, 'syncs': 0,
                     'time': budget, 'functions': 0, 'fns': [], 'events': []}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def products(out, names, kinds, tier, deadline):
    """Runs the products; (results, violations, undecided)."""
    res, viol, und = [], [], []
    quick = tier == 'quick'
    srv = Server(out)
    one = srv.ask

    def run(n):
        w = plan.WITNESS.get(n, {})
        if w.get('hunt'):
            r = one(n, 0, min(w['hunt'] * (1 if quick else 4), max(5, deadline - time.time())), kinds)
            r['unsupported'] = [u for u in r['unsupported'] if 'budget' not in u and 'too many' not in u]
            return [r]
        budget = w.get('budget', 150) * (1 if quick else 3)
        r = one(n, 2, min(budget, max(20, deadline - time.time())), kinds)
        if w.get('soft'):       # equal values prove it; different ones prove nothing
            for f in r['findings']:
                f['exact'] = False
            return [r]
        rs = [r]
        want = [f for f in r.get('findings', []) if plan.wanted(kinds, f)]
        soft = [f for f in want if not f['exact']]
        if not any(f['exact'] for f in want) and (soft or r.get('unsupported')):
            # search breadth first for a path on which nothing is generalised
            left = deadline - time.time()
            if left > 25:
                rs.append(one(n, 0, min(left - 15, 100 if quick else 300), kinds))
        return rs
    with ThreadPoolExecutor(8) as ex:
        order = sorted(names, key=lambda n: -plan.WITNESS.get(n, {}).get('cost', 1))
        for rs in ex.map(run, order):
            res += rs
            hard = False
            for r in rs:
                for f in r.get('findings', []):
                    if f['exact'] and plan.wanted(kinds, f):
                        viol.append(dict(f, witness=r['witness']))
                        hard = True
            r = rs[0]
            if not hard:
                for u in r.get('unsupported', []):
                    und.append('%s: %s' % (r['witness'], u[:300]))
                for f in r.get('findings', []):
                    if plan.wanted(kinds, f):
                        und.append('%s: possible (only in a generalised state): %s %s' % (r['witness'], f['kind'], f['what'][:200]))
                if r.get('absent'):
                    und.append('%s: not built' % r['witness'])
    srv.close()
    return res, viol, und


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (560 if tier == 'quick' else 820)
    P = plan.PROPS[pid]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    out = tempfile.mkdtemp(prefix='out-', dir=(os.makedirs(BUILD, exist_ok=True) or BUILD))
    viol, und, cov = [], [], {}
    try:
        ok, skipped, rejected, log = build_all(out, sorted({MODULES[w.split('_')[0]] for w in P.get('witnesses', [])}))
        tb = time.time() - t0
        if not ok:
            und.append('the witness crate does not build: ' + log[-1500:])
            ws = []
        else:
            ws = [n for n in P.get('witnesses', [])]
            for s in skipped:
                und.append('witness module %s does not build against this tree' % s)
        for n, why in sorted(rejected.items()):
            if n in ws and P.get('must_compile'):
                viol.append({'kind': 'rejected', 'what': 'a pattern of the documented syntax is not accepted: ' + ' '.join(why.split()), 'where': 'parser!', 'witness': n,
                             'exact': True})
            elif n in ws:
                und.append('%s does not build against this tree' % n)
        ws = [n for n in ws if n not in rejected]
        res, v, u = products(out, ws, P.get('kinds'), tier, deadline) if ws else ([], [], [])
        viol += v
        und += u
        extra = {}
        for d in P.get('deciders', []):
            import importlib
            mod = importlib.import_module(d)
            try:
                dv, du, dc = mod.decide(pid, out, REPO, tier, dict(skipped=skipped, log=log, build=BUILD, ok=ok, verif=V))
            except Exception as e:
                import traceback
                dv, du, dc = [], ['%s: internal %s' % (d, traceback.format_exc()[-800:])], {}
            viol += dv
            und += du
            extra[d] = dc
        fns = sorted({f for r in res for f in r.get('fns', [])})
        cov = {
            'explanation': plan.explain(pid),
            'rule': P['rule'],
            'witnesses': [{k: r.get(k) for k in ('witness', 'delay', 'states', 'syncs', 'splits', 'covered', 'widened', 'functions', 'time')} |
                          {'findings': len(r.get('findings', [])), 'undecided': len(r.get('unsupported', []))} for r in res],
            'obligations': sum(r.get('syncs') or 0 for r in res) + sum(c.get('obligations', 0) for c in extra.values()),
            'states': sum(r.get('states') or 0 for r in res),
            'functions_analysed': fns[:400],
            'events_compared': sorted({e for r in res for e in r.get('events', [])}),
            'undecided': und[:40],
            'build_s': round(tb, 1),
        }
        for k, c in extra.items():
            cov[k] = c
    finally:
        subprocess.run(['rm', '-rf', out])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': plan.ASSUME, 'violations': len(viol)}
    rp = os.path.join(V, 'evidence', pid + '.violation.json')
    if os.path.exists(rp):
        os.remove(rp)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for u in und[:8]:
        print('UNDECIDED property=%s %s' % (pid, u.replace('\n', ' ')[:600]))
    print('%s: %d witnesses, %d obligations, %d violations, %d undecided, %.1f s' % (
        pid, len(P.get('witnesses', [])), cov.get('obligations', 0), len(viol), len(und), time.time() - t0))
    if viol:
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
        for v in viol[:4]:
            print('  %s: %s: %s\n    at %s' % (v.get('witness', ''), v['kind'], v['what'][:400], v.get('where', '')[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
