"""One witness against its reference; the outcome as JSON on stdout."""
import json
import sys
import traceback
sys.setrecursionlimit(20000)
from ir import Prog
from product import Product
from plan import wanted


def main():
    path, name, delay, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    kinds = json.loads(sys.argv[5]) if len(sys.argv) > 5 else None
    prog = Prog(path)
    by = {k.split('::')[-1]: v for k, v in prog.roots.items()}
    out = {'witness': name, 'delay': delay}
    if name not in by or name + '_ref' not in by:
        out['absent'] = True
        print(json.dumps(out))
        return
    pr = Product(prog, by[name], by[name + '_ref'], budget=budget, delay=delay or 2, hunt=delay == 0,
                 wanted=lambda f: wanted(kinds, f))
    try:
        pr.explore()
    except BaseException as e:      # a defect of the engine decides nothing
        pr.unsupported.append('internal: %s %s' % (type(e).__name__, str(e)[:200]))
        pr.time = -1
        out['internal'] = traceback.format_exc()[-1500:]
    fns = sorted({'%s (%s)' % (prog.fns[f]['path'], (prog.fns[f].get('span') or '').split('/repo/')[-1])
                  for f in pr.m.used if 'aoc_parse' in prog.fns[f]['full'] and '/library/' not in (prog.fns[f].get('span') or '/library/')
                  and not prog.fns[f]['path'].startswith(('sym::', 'refsem::', '<sym::', '<refsem::'))})
    out.update(states=pr.nstates, syncs=pr.nsync, splits=pr.nsplit, checkpoints=pr.ncp, covered=pr.ncover, widened=pr.nwiden,
               findings=pr.findings, unsupported=pr.unsupported, time=round(pr.time, 2), functions=len(pr.m.used), fns=fns,
               events=sorted({k for k, _ in pr.events}))
    print(json.dumps(out))


main()
