"""Loads the program once; each request (a JSON line [id, name, delay, budget, kinds]) is worked on in a child of its own.
Answers: a JSON line [id, result]."""
import gc
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback
sys.setrecursionlimit(20000)
from ir import Prog
from product import Product
from plan import wanted


def work(prog, by, name, delay, budget, kinds):
    out = {'witness': name, 'delay': delay}
    if name not in by or name + '_ref' not in by:
        out['absent'] = True
        return out
    pr = Product(prog, by[name], by[name + '_ref'], budget=budget, delay=delay or 2, hunt=delay == 0,
                 wanted=lambda f: wanted(kinds, f))
    try:
        pr.explore()
    except BaseException as e:      # a defect of the engine decides nothing
        pr.unsupported.append('internal: %s %s' % (type(e).__name__, str(e)[:200]))
        pr.time = -1
        out['internal'] = traceback.format_exc()[-1500:]
    fns = sorted({'%s (%s)' % (prog.fns[f]['path'], (prog.fns[f].get('span') or '').split('/repo/')[-1])
                  for f in pr.m.used if 'aoc_parse' in prog.fns[f]['full'] and '/library/' not in (prog.fns[f].get('span') or '/library/')
                  and not prog.fns[f]['path'].startswith(('sym::', 'refsem::', '<sym::', '<refsem::'))})
    out.update(states=pr.nstates, syncs=pr.nsync, splits=pr.nsplit, checkpoints=pr.ncp, covered=pr.ncover, widened=pr.nwiden,
               findings=pr.findings, unsupported=pr.unsupported, time=round(pr.time, 2), functions=len(pr.m.used), fns=fns,
               events=sorted({k for k, _ in pr.events}))
    return out


def failed(name, delay, budget, why):
    return {'witness': name, 'delay': delay, 'findings': [], 'unsupported': ['no answer: ' + why], 'states': 0, 'syncs': 0,
            'time': budget, 'functions': 0, 'fns': [], 'events': []}


def main():
    prog = Prog(sys.argv[1])
    by = {k.split('::')[-1]: v for k, v in prog.roots.items()}
    gc.collect()
    gc.freeze()
    tmp = tempfile.mkdtemp(prefix='serve-')
    live = {}
    buf = b''
    eof = False
    n = 0

    def say(i, r):
        sys.stdout.write(json.dumps([i, r]) + '\n')
        sys.stdout.flush()

    while not eof or live:
        r, _, _ = select.select([] if eof else [0], [], [], 0.02)
        if r:
            x = os.read(0, 1 << 16)
            if not x:
                eof = True
            buf += x
            while b'\n' in buf:
                line, buf = buf.split(b'\n', 1)
                i, name, delay, budget, kinds = json.loads(line)
                n += 1
                path = os.path.join(tmp, str(n))
                pid = os.fork()
                if pid == 0:
                    try:
                        res = work(prog, by, name, delay, budget, kinds)
                        with open(path + '.part', 'w') as f:
                            json.dump(res, f)
                        os.rename(path + '.part', path)
                    finally:
                        os._exit(0)
                live[pid] = (i, name, delay, budget, path, time.time() + budget + 60)
        while live:
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            if pid in live:
                i, name, delay, budget, path, _ = live.pop(pid)
                try:
                    with open(path) as f:
                        res = json.load(f)
                    os.remove(path)
                except (OSError, ValueError):
                    res = failed(name, delay, budget, 'ended')
                say(i, res)
        now = time.time()
        for pid in list(live):
            if now > live[pid][5]:
                os.kill(pid, signal.SIGKILL)
    for x in os.listdir(tmp):
        os.remove(os.path.join(tmp, x))
    os.rmdir(tmp)


main()
