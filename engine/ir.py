"""The program: monomorphic MIR as dumped by the driver."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.statics = {s['path']: s for s in d['statics']}
        self.vtables = d['vtables']
        self.roots = {r[0]: r[2] for r in d['roots']}
        self._loops = {}
        self._live = {}
        self.consts = {}
        self.tyid = {}

    def tn(self, t):
        return self.types[t]['n']

    # ---- loop heads: targets of back edges
    def loop_heads(self, fid):
        r = self._loops.get(fid)
        if r is None:
            bbs = self.fns[fid]['body']['bb']
            r = set()
            color = {}
            stack = [(0, iter(succs(bbs[0]['t'])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s) is None:
                        color[s] = 1
                        stack.append((s, iter(succs(bbs[s]['t']))))
                        break
                    elif color[s] == 1:
                        r.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            self._loops[fid] = r
        return r

    # ---- live locals at block starts
    def live_in(self, fid):
        r = self._live.get(fid)
        if r is not None:
            return r
        body = self.fns[fid]['body']
        bbs = body['bb']
        gen, kill = [], []
        for b in bbs:
            g, k = set(), set()
            for s in b['s']:
                use, df = st_usedef(s)
                g |= use - k
                k |= df
            use, df = term_usedef(b['t'])
            g |= use - k
            k |= df
            gen.append(g)
            kill.append(k)
        live = [set() for _ in bbs]
        ch = True
        while ch:
            ch = False
            for i in range(len(bbs) - 1, -1, -1):
                out = set()
                for s in succs(bbs[i]['t']):
                    out |= live[s]
                n = gen[i] | (out - kill[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self._live[fid] = live
        return live


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[4]]
    return []


def place_use(p, use, write=False):
    """locals used when p is read (or, as a destination, besides being written)"""
    if p[1] or not write:
        use.add(p[0])
    for e in p[1]:
        if type(e) is list and e[0] == 'i':
            use.add(e[1])


def op_use(o, use):
    if o[0] in 'cm' and len(o[0]) == 1:
        place_use(o[1], use)


def st_usedef(s):
    use, df = set(), set()
    k = s[0]
    if k == '=':
        rv_use(s[2], use)
        place_use(s[1], use, True)
        if not s[1][1]:
            df.add(s[1][0])
    elif k == 'sd':
        place_use(s[1], use)
    elif k == 'dead' or k == 'live':
        df.add(s[1])
    return use, df


def rv_use(r, use):
    k = r[0]
    if k in ('use', 'repeat'):
        op_use(r[1], use)
    elif k == 'ref':
        place_use(r[2], use)
    elif k == 'cast':
        op_use(r[2], use)
    elif k == 'bin':
        op_use(r[2], use)
        op_use(r[3], use)
    elif k == 'un':
        op_use(r[2], use)
    elif k == 'disc':
        place_use(r[1], use)
    elif k == 'agg':
        for o in r[2]:
            op_use(o, use)


def term_usedef(t):
    use, df = set(), set()
    k = t[0]
    if k == 'switch':
        op_use(t[1], use)
    elif k == 'return':
        use.add(0)
    elif k == 'call':
        if t[1][0] == 'ptr':
            op_use(t[1][1], use)
        for a in t[2]:
            op_use(a, use)
        place_use(t[3], use, True)
        if not t[3][1]:
            df.add(t[3][0])
    elif k == 'assert':
        op_use(t[1], use)
    return use, df
