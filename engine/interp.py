"""Abstract interpretation of MIR: one or two threads over a shared abstract state.

A state holds, for each thread, its stack of frames, and the memory and facts
they share. A thread runs until it reaches an event (a call to one of the
witness crate's intrinsics); see product.py for what happens then.
"""
import re
from dom import *
from values import *

UNDEF = ('undef',)


class Stop(Exception):
    """This path ends: with a finding, or without."""
    def __init__(self, finding=None):
        self.finding = finding


class Finding:
    def __init__(self, kind, what, where=''):
        self.kind, self.what, self.where = kind, what, where


class Event:
    __slots__ = ('kind', 'args', 'dest', 'target', 'rty', 'where')

    def __init__(self, kind, args, dest, target, rty, where):
        self.kind, self.args, self.dest, self.target, self.rty, self.where = kind, args, dest, target, rty, where


class Frame:
    __slots__ = ('fid', 'fn', 'bb', 'si', 'dest', 'target')

    def __init__(self, fid, fn, bb, si, dest, target):
        self.fid, self.fn, self.bb, self.si, self.dest, self.target = fid, fn, bb, si, dest, target

    def copy(self):
        return Frame(self.fid, self.fn, self.bb, self.si, self.dest, self.target)


class State:
    __slots__ = ('mem', 'thr', 'pend', 'facts', 'note', 'trace', 'nf', 'nx', 'nh', 'hist', 'anc', 'steps', 'seen', 'exact', 'lanc', 'path')

    def __init__(self):
        self.mem = {}
        self.thr = []
        self.pend = []
        self.facts = Facts()
        self.note = ''
        self.trace = None
        self.nf = 0
        self.nx = 10
        self.nh = 0
        self.hist = ()      # raw states at loop heads since the last event
        self.anc = ()       # checkpoints on the way here
        self.seen = frozenset()     # loop heads passed since the last event
        self.steps = 0
        self.lanc = ()      # of those, the ones since the last event
        self.path = ()      # the shapes of all checkpoints so far
        self.exact = True       # nothing was generalised on the way here

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.thr = [[f.copy() for f in t] for t in self.thr]
        s.pend = list(self.pend)
        s.facts = self.facts.copy()
        s.note, s.trace = self.note, self.trace
        s.nf, s.nx, s.nh = self.nf, self.nx, self.nh
        s.hist, s.anc, s.steps, s.seen, s.exact, s.lanc = self.hist, self.anc, self.steps, self.seen, self.exact, self.lanc
        s.path = self.path
        return s

    def log(self, x):
        self.trace = (self.trace, x)

    def trace_list(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    def fresh(self):
        self.nx += 1
        return atom(('x', self.nx))

    def alloc(self, v):
        self.nh += 1
        a = ('h', self.nh)
        self.mem[a] = v
        return ('R', a, ())

    # ---- paths
    def get(self, addr, path):
        v = self.mem.get(addr, UNDEF)
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        if v == UNDEF:
            return UNDEF
        if type(e) is int:
            if v[0] == 'A':
                return v[2][e] if e < len(v[2]) else UNDEF
            if v[0] == 'map':
                return v[1]
            if v[0] == 'seq':       # an array by constant index
                return self.elem(v, e)
            raise Unsupported('field %d of %s' % (e, v[0]))
        return self.elem(v, e[1])

    def elem(self, v, n):
        if v[0] != 'seq':
            raise Unsupported('index into ' + str(v[0]))
        i, off = self.locate(v[1], n)
        x = v[1][i]
        if x[0] == 'i':
            return x[1]
        return vmap(inst(x[1], n), self.facts.norm)

    def locate(self, items, n):
        f = self.facts
        n = f.norm(n)
        if type(n) is int and n < len(items) and all(x[0] == 'i' for x in items[:n + 1]):
            return n, 0
        pos = 0
        poss = []
        for x in items:
            poss.append(pos)
            pos = f.norm(add(pos, 1)) if x[0] == 'i' else f.norm(add(pos, sub(x[3], x[2])))
        for i in range(len(items) - 1, -1, -1):
            x = items[i]
            d = f.norm(sub(n, poss[i]))
            if x[0] == 'i':
                if d == 0:
                    return i, 0
            elif f.entails(d) and f.entails(add(sub(sub(x[3], x[2]), d), -1)):
                return i, d
        for i, x in enumerate(items):
            d = f.norm(sub(n, poss[i]))
            if x[0] == 'i':
                if f.is_eq(d):
                    return i, 0
            elif f.is_ge(add(sub(sub(x[3], x[2]), d), -1)):
                return i, d
        raise Unsupported('index out of range')

    def put(self, addr, path, new):
        if not path:
            self.mem[addr] = new
        else:
            self.mem[addr] = self.setp(self.mem.get(addr, UNDEF), path, new)

    def setp(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if v[0] == 'map':
            return ('map', self.setp(v[1], path[1:], new))
        if type(e) is int and v[0] != 'seq':
            if v == UNDEF:
                v = ('A', 0, ())
            if v[0] != 'A':
                raise Unsupported('field write into ' + str(v[0]))
            fs = list(v[2])
            while len(fs) <= e:
                fs.append(UNDEF)
            fs[e] = self.setp(fs[e], path[1:], new)
            return ('A', v[1], tuple(fs))
        n = e if type(e) is int else e[1]
        if v[0] != 'seq':
            raise Unsupported('element write into ' + str(v[0]))
        items = expose(self, v[1], n)
        i, _ = self.locate(items, n)
        items = items[:i] + (('i', self.setp(items[i][1], path[1:], new)),) + items[i + 1:]
        return ('seq', items)


def expose(st, items, n):
    """Make position n an item of its own."""
    i, off = st.locate(items, n)
    x = items[i]
    if x[0] == 'i':
        return items
    f = st.facts
    n = f.norm(n)
    out = list(items[:i])
    if f.norm(sub(n, x[2])) != 0:
        out.append(('seg', x[1], x[2], n))
    out.append(('i', vmap(inst(x[1], n), f.norm)))
    if f.norm(sub(sub(x[3], n), 1)) != 0:
        out.append(('seg', x[1], f.norm(add(n, 1)), x[3]))
    return tuple(out) + tuple(items[i + 1:])


def shift(items, k):
    """All runs moved by k positions."""
    def g(x):
        if x[0] == 'i':
            return x
        t = inst(x[1], sub(atom(HASH), k))
        return ('seg', t, add(x[2], k), add(x[3], k))
    return tuple(g(x) for x in items)


def tidy(st, items):
    """Drop runs that are known to be empty, and single out runs of one."""
    out = []
    f = st.facts
    for x in items:
        if x[0] == 'seg':
            d = f.norm(sub(x[3], x[2]))
            if d == 0:
                continue
            if d == 1:
                out.append(('i', vmap(inst(x[1], x[2]), f.norm)))
                continue
        out.append(x)
    return tuple(out)


PTRS = ('R', 'SL', 'D', 'S', 'SB', 'addrp', 'Rc')


class Machine:
    def __init__(self, prog, models, events):
        self.p = prog
        self.models = models
        self.events = events
        self.used = set()       # functions analysed
        self.modelled = set()
        self.unknown = set()
        self.keys = {}
        self.constcells = {}

    # ---- types
    def ty(self, t):
        return self.p.types[t]

    def default(self, t):
        """The value of a type with only one value."""
        ty = self.ty(t)
        k = ty['k']
        if k == 'tuple':
            return ('A', 0, tuple(self.default(x) for x in ty['v']))
        if k == 'fndef':
            return ('F', ty['fn'])
        if k == 'closure':
            return ('A', 0, tuple(self.default(x) for x in ty.get('up', [])))
        if k == 'adt' and len(ty['v']) == 1:
            return ('A', 0, tuple(self.default(x) for _, x in ty['v'][0]['f']))
        if k == 'adt' and ty['v'] and ty['ak'] != 'union':
            vs = [i for i, x in enumerate(ty['v']) if not any(self.never(y) for _, y in x['f'])]
            if len(vs) == 1:
                return ('A', vs[0], tuple(self.default(x) for _, x in ty['v'][vs[0]]['f']))
        if k == 'array':
            return ('seq', ())
        return UNDEF

    def never(self, t):
        ty = self.ty(t)
        return ty['k'] == 'never' or ty['k'] == 'adt' and not ty['v']

    def head(self, t):
        ty = self.ty(t)
        if ty['k'] == 'adt':
            return ty['path'].split('::')[-1]
        if ty['k'] in ('ref', 'ptr'):
            return '&' + self.head(ty['e'])
        if ty['k'] == 'int' or ty['k'] == 'float':
            return ty['n']
        return ty['k']

    def key(self, fid):
        r = self.keys.get(fid)
        if r is None:
            f = self.p.fns[fid]
            path = f['path']
            m = path.split('::')[-1]
            if f.get('tm'):
                tm = f['tm'].split('::')
                r = '%s.%s::%s' % (self.head(f['self']) if f['self'] is not None else '?', tm[-2], tm[-1])
            elif f.get('self') is not None:
                r = '%s::%s' % (self.head(f['self']), m)
            else:
                r = re.sub(r'::<.*?>', '', path)
            self.keys[fid] = r
        return r

    # ---- constants
    def const(self, st, v, t):
        ty = self.ty(t)
        k = ty['k']
        if 'i' in v:
            n = int(v['i'])
            if k == 'bool':
                return n != 0
            if k == 'int' or k == 'char':
                return n
            if k in ('ptr', 'ref'):
                return ('dangling', n)
            if k == 'adt':
                fs = ty['v'][0]['f']
                if len(ty['v']) == 1:
                    return ('A', 0, tuple(self.const(st, v, x) if not self.zst(x) else self.default(x) for _, x in fs))
                raise Unsupported('scalar enum constant ' + ty['n'])
            if k == 'float':
                return ('float', n)
            return n
        if 'str' in v:
            s = v['str']
            b = bytes(s) if type(s) is list else s.encode()
            return ('S', ('lit', b), 0, len(b))
        if 'fn' in v:
            return ('F', v['fn'])
        if 'zst' in v:
            return self.default(t)
        if 'ref' in v:
            e = ty.get('e')
            if k == 'adt':      # NonNull, Box and the like around the pointer
                return self.const(st, v, self.inner_ptr(t))
            inner = self.const(st, v['ref'], e) if self.ty(e)['k'] != 'dyn' else None
            if inner is None:
                raise Unsupported('constant dyn reference')
            key = ('c', repr(v)[:400] + str(hash(repr(v))) + ':' + str(e))
            st.mem.setdefault(key, inner)
            return ('R', key, ())
        if 'slice' in v:
            e = ty.get('e')
            et = self.ty(e)
            if et['k'] == 'str':
                b = bytes(int(x['i']) for x in v['slice'])
                return ('S', ('lit', b), 0, len(b))
            key = ('c', repr(v)[:400] + str(hash(repr(v))) + ':' + str(e))
            items = tuple(('i', self.const(st, x, et['e'])) for x in v['slice'])
            st.mem.setdefault(key, ('seq', items))
            return ('SL', key, (), 0, len(items))
        if 'agg' in v:
            if k == 'tuple':
                return ('A', 0, tuple(self.const(st, x, y) for x, y in zip(v['agg'], ty['v'])))
            if k == 'array':
                return ('seq', tuple(('i', self.const(st, x, ty['e'])) for x in v['agg']))
            if k == 'closure':
                return ('A', 0, tuple(self.const(st, x, y) for x, y in zip(v['agg'], ty['up'])))
            raise Unsupported('constant ' + ty['n'])
        if 'adt' in v:
            fs = ty['v'][v['adt']]['f']
            if self.head(t) in ('NonNull', 'Unique', 'Box') and fs:
                return self.const(st, v['f'][0], fs[0][1])
            return ('A', v['adt'], tuple(self.const(st, x, y[1]) for x, y in zip(v['f'], fs)))
        if 'static' in v:
            key = ('c', 'static', v['static'])
            if key not in st.mem:
                x = self.p.statics.get(v['static'])
                if x:
                    try:
                        st.mem[key] = self.const(st, x['v'], x['t'])
                    except (Unsupported, KeyError, TypeError, IndexError):
                        pass
                st.mem.setdefault(key, ('static', v['static']))
            return ('R', key, ())
        if 'typeid' in v:
            return ('typeid', repr(v))
        raise Unsupported('constant %s of type %s' % (list(v), ty['n']))

    def inner_ptr(self, t):
        ty = self.ty(t)
        while ty['k'] == 'adt':
            t = ty['v'][0]['f'][0][1]
            ty = self.ty(t)
        return t

    def zst(self, t):
        ty = self.ty(t)
        k = ty['k']
        if k == 'tuple':
            return all(self.zst(x) for x in ty['v'])
        if k == 'fndef':
            return True
        if k == 'closure':
            return all(self.zst(x) for x in ty.get('up', []))
        if k == 'adt':
            if ty['ak'] == 'union':
                return False
            vs = [x for x in ty['v'] if len(ty['v']) == 1 or not any(self.never(y) for _, y in x['f'])]
            return len(vs) == 1 and all(self.zst(x) for _, x in vs[0]['f'])
        if k == 'array':
            return str(ty['len']) == '0' or self.zst(ty['e'])
        return False

    # ---- places and operands
    def place(self, st, fr, p):
        """-> a pointer value"""
        cur = ('R', ('l', fr.fid, p[0]), ())
        for e in p[1]:
            if e == 'd':
                v = st.get(cur[1], cur[2]) if cur[0] == 'R' else self.load(st, cur)
                if v[0] not in PTRS:
                    if v[0] == 'A' and len(v[2]) >= 1:      # Box, Pin and the like
                        while v[0] == 'A' and v[2]:
                            v = v[2][0]
                    if v[0] not in PTRS:
                        raise Unsupported('dereference of ' + repr(v)[:80])
                cur = v
            elif e == 'x':
                raise Unsupported('projection')
            else:
                k = e[0]
                if k == 'f':
                    if cur[0] != 'R':
                        if cur[0] in ('S', 'SB'):
                            continue
                        raise Unsupported('field of ' + cur[0])
                    v = st.get(cur[1], cur[2])
                    if v[0] in PTRS or v[0] == 'dangling':
                        continue        # Box.0, Unique.0, NonNull.0
                    cur = ('R', cur[1], cur[2] + (e[1],))
                elif k == 'v':
                    pass
                elif k == 'i':
                    n = st.get(('l', fr.fid, e[1]), ())
                    cur = self.index(st, cur, n)
                elif k == 'c':
                    n = e[1]
                    if e[3]:
                        n = sub(self.length(st, cur), n)
                    cur = self.index(st, cur, n)
                elif k == 's':
                    a, b = e[1], e[2]
                    ln = self.length(st, cur)
                    b = sub(ln, b) if e[3] else b
                    if cur[0] == 'R':
                        cur = ('SL', cur[1], cur[2], a, b)
                    else:
                        cur = ('SL', cur[1], cur[2], add(cur[3], a), add(cur[3], b))
        return cur

    def index(self, st, cur, n):
        if cur[0] == 'SL':
            return ('R', cur[1], cur[2] + (('ix', add(cur[3], n)),))
        if cur[0] == 'R':
            v = st.get(cur[1], cur[2])
            if v[0] == 'SL':
                return ('R', v[1], v[2] + (('ix', add(v[3], n)),))
            return ('R', cur[1], cur[2] + (('ix', n),))
        if cur[0] == 'SB':
            return ('SBx', cur[1], add(cur[2], n))
        raise Unsupported('index of ' + cur[0])

    def length(self, st, cur):
        if cur[0] == 'SL':
            return st.facts.norm(sub(cur[4], cur[3]))
        if cur[0] in ('S', 'SB'):
            return st.facts.norm(sub(cur[3], cur[2]))
        if cur[0] == 'R':
            v = st.get(cur[1], cur[2])
            if v[0] == 'seq':
                return st.facts.norm(seq_len(v[1]))
            return self.length(st, v)
        raise Unsupported('length of ' + cur[0])

    def load(self, st, ptr):
        k = ptr[0]
        if k == 'R':
            return st.get(ptr[1], ptr[2])
        if k == 'SBx':
            return st.facts.ch(ptr[1], ptr[2]) if ptr[1][0] != 'lit' else byte_at(st, ptr[1], ptr[2])
        if k in ('S', 'SB', 'SL', 'D'):
            return ('unsized', ptr)
        raise Unsupported('load from ' + k)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            pl = o[1]
            if not pl[1]:
                v = st.mem.get(('l', fr.fid, pl[0]), UNDEF)
            else:
                v = self.load(st, self.place(st, fr, pl))
            if v == UNDEF:
                t = self.place_ty(fr, pl)
                if t is not None:
                    v = self.default(t)
            return v
        if k == 'k':
            c = o[1]
            return self.const(st, c['v'], c['t'])
        if k == 'rt':
            return False
        raise Unsupported('operand')

    def place_ty(self, fr, p):
        if p[1]:
            e = p[1][-1]
            return e[2] if type(e) is list and e[0] == 'f' else None
        return self.p.fns[fr.fn]['body']['locals'][p[0]]

    # ---- rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        f = st.facts
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.place(st, fr, r[2])
        if k == 'agg':
            kind = r[1]
            vs = tuple(self.operand(st, fr, o) for o in r[2])
            if kind[0] == 'adt':
                if kind[3] is not None:
                    return vs[0]
                if self.head(kind[1]) in ('NonNull', 'Unique', 'Box') and vs and vs[0][0] in PTRS:
                    return vs[0]
                return ('A', kind[2], vs)
            if kind[0] == 'array':
                return ('seq', tuple(('i', v) for v in vs))
            if kind[0] == 'rawptr':
                return raw_parts(self, st, vs)
            return ('A', 0, vs)
        if k == 'disc':
            ptr = self.place(st, fr, r[1])
            v = self.load(st, ptr)
            ty = self.ty(r[2])
            if v == UNDEF and self.zst(r[2]):
                v = self.default(r[2])
            if v[0] != 'A':
                raise Unsupported('discriminant of ' + repr(v)[:60])
            if ty['k'] == 'adt':
                return int(ty['v'][v[1]]['d'])
            return v[1]
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4] if len(r) > 4 else None)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            op = r[1]
            if op == 'Not':
                if type(a) is bool:
                    return not a
                raise Unsupported('Not on number')
            if op == 'PtrMetadata':
                if a[0] in ('SL', 'S', 'SB'):
                    return self.length(st, a)
                if a[0] == 'R':
                    return UNIT
            if op == 'Neg':
                return mul(a, -1)
            raise Unsupported('unary ' + op)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = int(n) if not isinstance(n, dict) else int(n['i'])
            return ('seq', tuple(('i', v) for _ in range(n)))
        if k == 'fnptr':
            return ('F', r[1])
        raise Unsupported('rvalue ' + str(r)[:80])

    def cast(self, st, fr, r):
        kind, v = r[1], self.operand(st, fr, r[2])
        fty, tty = self.ty(r[3]), self.ty(r[4])
        if type(v) is tuple and v[0] == 'app' and v[1].startswith('num:') and kind.startswith(('IntTo', 'FloatTo')):
            return ('app', v[1] + '>cast:%s:%s' % (self.head(r[3]), self.head(r[4])), v[2])
        if 'Unsize' in kind:
            return self.unsize(st, v, r[3], r[4])
        if kind.startswith('IntToInt') or kind.startswith('int'):
            if type(v) is bool:
                return int(v)
            if v[0] == 'A' if type(v) is tuple else False:
                return int(fty['v'][v[1]]['d'])
            if tty['k'] == 'int':
                bits, sg = tty['bits'], tty['signed']
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
                if type(v) is int:
                    v &= (1 << bits) - 1
                    return v - (1 << bits) if sg and v > hi else v
                fb = fty.get('bits', 32)
                if bits >= 64 or (bits >= fb and (not sg or bits > fb)):
                    return v
                if not st.facts.is_ge(sub(hi, v)):
                    raise Unsupported('narrowing cast')
                return v
            if tty['k'] == 'char':
                return v
            raise Unsupported('cast to ' + tty['n'])
        if 'Expose' in kind:
            if v[0] == 'R':
                return atom(('addr', (v[1], v[2])))
            raise Unsupported('address of ' + v[0])
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            return v
        if kind.startswith(('PtrToPtr', 'Transmute', 'BoxDeref', 'PointerCoercion', 'FnPtrToPtr', 'Subtype')):
            return v
        raise Unsupported('cast ' + kind)

    def unsize(self, st, v, ft, tt):
        # find the pointees
        f, t = self.ty(ft), self.ty(tt)
        while f['k'] == 'adt' and t['k'] == 'adt':
            # Box<T> -> Box<U>, Pin<…>, Rc<…>
            if v[0] == 'A':
                fs = f['v'][0]['f']
                ts = t['v'][0]['f']
                out = list(v[2])
                for i in range(len(fs)):
                    if fs[i][1] != ts[i][1] and i < len(out):
                        out[i] = self.unsize(st, out[i], fs[i][1], ts[i][1])
                return ('A', v[1], tuple(out))
            if f['args'] and t['args'] and self.head(ft) in ('Box', 'Rc', 'Arc', 'NonNull', 'Unique'):
                return self.unsize_ptr(st, v, f['args'][0], t['args'][0])
            raise Unsupported('unsizing ' + f['n'])
        return self.unsize_ptr(st, v, f['e'], t['e'])

    def unsize_ptr(self, st, v, fe, te):
        k = self.ty(te)['k']
        if k == 'dyn':
            if v[0] == 'D':
                return v
            return ('D', v, fe)
        if k == 'slice':
            if v[0] == 'SL':
                return v
            return ('SL', v[1], v[2], 0, self.length(st, v))
        raise Unsupported('unsizing to ' + k)

    def binop(self, st, op, a, b, t=None):
        f = st.facts
        if type(a) is bool or type(b) is bool:
            if op == 'Eq':
                return a == b
            if op in ('Ne', 'BitXor'):
                return a != b
            if op == 'BitAnd':
                return a and b
            if op == 'BitOr':
                return a or b
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                a, b = int(a), int(b)
            else:
                raise Unsupported('bool ' + op)
        if isnum(a) and isnum(b):
            if op == 'Eq':
                return f.is_eq(sub(a, b))
            if op == 'Ne':
                return not f.is_eq(sub(a, b))
            if op == 'Lt':
                return f.is_ge(add(sub(b, a), -1))
            if op == 'Le':
                return f.is_ge(sub(b, a))
            if op == 'Gt':
                return f.is_ge(add(sub(a, b), -1))
            if op == 'Ge':
                return f.is_ge(sub(a, b))
            if op == 'Cmp':
                if f.is_eq(sub(a, b)):
                    return ('A', 1, ())
                return ('A', 2, ()) if f.is_ge(sub(a, b)) else ('A', 0, ())
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            ovf = op.endswith('WithOverflow')
            ty = self.ty(t) if t is not None else {'k': 'int', 'bits': 64, 'signed': False}
            if base == 'Add':
                r = add(a, b)
            elif base == 'Sub':
                r = sub(a, b)
            elif base == 'Mul':
                if type(a) is int:
                    r = mul(b, a)
                elif type(b) is int:
                    r = mul(a, b)
                else:
                    raise Unsupported('product of unknowns')
            elif base in ('Div', 'Rem') and type(b) is int and b > 0:
                return divide(st, base, a, b)
            elif type(a) is int and type(b) is int:
                r = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                     'Shl': lambda: a << b, 'Shr': lambda: a >> b}.get(base, lambda: None)()
                if r is None:
                    raise Unsupported('op ' + op)
            else:
                raise Unsupported('op %s on unknowns' % op)
            bits, sg = ty.get('bits', 64), ty.get('signed', False)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if type(r) is int:
                o = not lo <= r <= hi
                if o:
                    r &= (1 << bits) - 1
                    if r > hi:
                        r -= 1 << bits
            elif not sg and base == 'Sub':
                o = not f.is_ge(r)
                if o:
                    if ovf:
                        return tup(('wrapped', r), True)
                    return ('wrapped', r)
            elif bits < 64 and base in ('Add', 'Mul') and not f.entails(sub(hi, r)):
                o = not f.is_ge(sub(hi, r))
                if o:
                    return tup(('wrapped', r), True) if ovf else ('wrapped', r)
            else:
                o = False       # sums of offsets into a text do not overflow
            return tup(r, o) if ovf else r
        if type(a) is tuple and type(b) is tuple:
            if op in ('Eq', 'Ne'):
                if a[0] == 'R' and b[0] == 'R':
                    return (self.norm_ptr(st, a) == self.norm_ptr(st, b)) == (op == 'Eq')
                if a == b:
                    return op == 'Eq'
                if a[0] == 'typeid' and b[0] == 'typeid':
                    return (a == b) == (op == 'Eq')
            if op == 'Offset' and a[0] == 'SB':
                return ('SB', a[1], add(a[2], b), a[3])
        raise Unsupported('op %s on %s, %s' % (op, repr(a)[:40], repr(b)[:40]))

    def norm_ptr(self, st, a):
        return vmap(a, st.facts.norm)

    # ---- running
    def where(self, fr, line=None):
        f = self.p.fns[fr.fn]
        return '%s (%s)' % (f['full'][:120], f.get('span') or '')

    def push(self, st, th, fid, args, dest, target):
        fn = self.p.fns[fid]
        body = fn.get('body')
        if body is None or fn.get('nomir'):
            raise Unsupported('no body and no model for %s [%s]' % (fn['full'][:200], self.key(fid)))
        self.used.add(fid)
        if len(st.thr[th]) > 60:
            raise Unsupported('call depth exceeded at ' + fn['full'][:120])
        st.nf += 1
        fr = Frame(st.nf, fid, 0, 0, dest, target)
        sp = body.get('spread')
        if sp is not None:
            # the last argument is a tuple, spread by the callee
            pass
        for i, v in enumerate(args):
            st.mem[('l', fr.fid, i + 1)] = v
        if len(args) != body['argc']:
            raise Unsupported('arity %d/%d of %s' % (len(args), body['argc'], fn['full'][:120]))
        st.thr[th].append(fr)

    def run(self, st, th, at_loop):
        """Run thread th to its next event. Raises Split (state restored), Stop."""
        p = self.p
        frs = st.thr[th]
        while True:
            if not frs:
                st.pend[th] = Event('done', (), None, None, None, '')
                return
            fr = frs[-1]
            body = p.fns[fr.fn]['body']
            bb = body['bb'][fr.bb]
            if fr.si == 0 and fr.bb in p.loop_heads(fr.fn):
                if at_loop(st, th):
                    return 'loop'
                frs = st.thr[th]
                fr = frs[-1]
            sts = bb['s']
            while fr.si < len(sts):
                s = sts[fr.si]
                k = s[0]
                if k == '=':
                    v = self.rvalue(st, fr, s[2])
                    pl = s[1]
                    if not pl[1]:
                        st.mem[('l', fr.fid, pl[0])] = v
                    else:
                        ptr = self.place(st, fr, pl)
                        self.store(st, ptr, v)
                elif k == 'sd':
                    ptr = self.place(st, fr, s[1])
                    v = self.load(st, ptr)
                    fs = v[2] if v[0] == 'A' else ()
                    self.store(st, ptr, ('A', s[2], fs))
                fr.si += 1
            st.steps += 1
            if st.steps > 200000:
                raise Unsupported('too many steps without an event')
            r = self.term(st, th, fr, bb['t'])
            if r:
                return r

    def store(self, st, ptr, v):
        if ptr[0] == 'R' and type(ptr[1]) is tuple and ptr[1][0] == 'c':
            raise Unsupported('a constant or static is written to')
        if ptr[0] == 'R':
            st.put(ptr[1], ptr[2], v)
            return
        raise Unsupported('store through ' + ptr[0])

    def goto(self, fr, b):
        fr.bb, fr.si = b, 0

    def term(self, st, th, fr, t):
        k = t[0]
        if k == 'goto':
            self.goto(fr, t[1])
        elif k == 'switch':
            v = self.operand(st, fr, t[1])
            if type(v) is bool:
                v = int(v)
            if type(v) is int:
                for c, b in t[2]:
                    c = int(c)
                    if c == v or (v < 0 and c in (v + 256, v + 65536, v + (1 << 32), v + (1 << 64), v + (1 << 128))):
                        self.goto(fr, b)
                        return
                self.goto(fr, t[3])
                return
            if isnum(v):
                for c, b in t[2]:
                    if st.facts.is_eq(sub(v, int(c))):
                        self.goto(fr, b)
                        return
                self.goto(fr, t[3])
                return
            raise Unsupported('switch on ' + repr(v)[:60])
        elif k == 'return':
            v = st.mem.get(('l', fr.fid, 0), UNDEF)
            if v == UNDEF:
                v = self.default(self.p.fns[fr.fn]['body']['locals'][0])
            st.thr[th].pop()
            if fr.dest is not None:
                self.store(st, fr.dest, v)
            n = len(self.p.fns[fr.fn]['body']['locals'])
            if n < 40:
                for i in range(n):
                    st.mem.pop(('l', fr.fid, i), None)
            if st.thr[th]:
                if fr.target is None:
                    raise Unsupported('return of a diverging call')
                self.goto(st.thr[th][-1], fr.target)
        elif k == 'drop':
            self.drop(st, th, fr, t)
            self.goto(fr, t[2])
        elif k == 'assert':
            v = self.operand(st, fr, t[1])
            if type(v) is not bool:
                raise Unsupported('assert')
            if v != bool(t[2]):
                self.panic(st, th, fr, 'assertion in the code fails: ' + str(t[3]), t[5] if len(t) > 5 else '')
            self.goto(fr, t[4])
        elif k == 'call':
            return self.call(st, th, fr, t)
        elif k == 'unreachable':
            raise Unsupported('unreachable code reached in ' + self.where(fr))
        elif k == 'resume':
            raise Unsupported('unwinding')
        else:
            raise Unsupported('terminator ' + k)

    def drop(self, st, th, fr, t):
        pass

    def panic(self, st, th, fr, what, where=''):
        f = self.blame(st, th)
        if th == 1:
            raise Unsupported('the reference panics: %s in %s' % (what, self.where(fr)))
        raise Stop(Finding('panic', what, f))

    def blame(self, st, th):
        """The innermost frame in the library under test."""
        for fr in reversed(st.thr[th]):
            f = self.p.fns[fr.fn]
            if f['crate'] == 'aoc_parse':
                return self.at(fr)
        return self.at(st.thr[th][-1]) if st.thr[th] else ''

    def at(self, fr):
        f = self.p.fns[fr.fn]
        bb = f['body']['bb'][fr.bb]
        t = bb['t']
        sp = t[5] if t[0] == 'call' and len(t) > 5 else (t[5] if t[0] == 'assert' and len(t) > 5 else f.get('span'))
        return '%s at %s' % (f['full'][:140], sp)

    # ---- calls
    def call(self, st, th, fr, t):
        args = [self.operand(st, fr, a) for a in t[2]]
        dest = self.place(st, fr, t[3])
        target = t[4]
        c = t[1]
        if c[0] == 'fn':
            fid = c[1]
        elif c[0] == 'ptr':
            v = self.operand(st, fr, c[1])
            if v[0] != 'F':
                raise Unsupported('call through ' + repr(v)[:60])
            fid = v[1]
            f = self.p.fns[fid]
            if f['kind'] == 'shim' and f.get('body') and len(args) != f['body']['argc']:
                args = [UNIT, tup(*args)]
            elif f['kind'] == 'shim' and 'ClosureOnce' in str(f.get('shim')):
                args = [UNIT, tup(*args)]
        else:
            raise Unsupported('unresolved call to %s' % c[1])
        return self.invoke(st, th, fid, args, dest, target, t)

    def invoke(self, st, th, fid, args, dest, target, t=None):
        f = self.p.fns[fid]
        if f['kind'] == 'virtual':
            recv = args[0]
            while recv[0] == 'A' and recv[2]:
                recv = recv[2][0]
            if recv[0] == 'R':
                recv = self.load(st, recv)
                while recv[0] == 'A' and recv[2]:
                    recv = recv[2][0]
            if recv[0] != 'D':
                raise Unsupported('virtual call on ' + repr(recv)[:60])
            fid2 = self.vmethod(recv[2], f)
            return self.invoke(st, th, fid2, [recv[1]] + args[1:], dest, target, t)
        key = self.key(fid)
        # witness intrinsics
        if f['crate'] == 'witness' and (key.startswith('sym::') or key.startswith('model::coll') or '::uf_' in key):
            ev = self.events.get(key)
            if ev is None and '::uf_' in key:
                ev = self.events['uf']
            if ev is not None:
                return ev(self, st, th, f, args, dest, target)
        if f['crate'] != 'witness' and f['crate'] != 'aoc_parse' or key.startswith('model::'):
            m = self.models.get(key) or self.models.get(f['path'])
            if m is None and '.' in key:
                m = self.models.get('*' + key[key.index('.'):])
            if m is not None:
                self.modelled.add(key)
                snap = None
                r = m(self, st, th, f, args, dest, target)
                if r is NotImplemented:
                    pass
                elif type(r) is tuple and r and r[0] == 'CALL':
                    # call another function instead
                    return self.apply(st, th, r[1], list(r[2]), dest, target)
                elif r is None:
                    return None
                else:
                    return self.ret(st, th, r, dest, target)
            if f.get('crate') == 'core' and 'panicking::' in f['path']:
                self.panic(st, th, st.thr[th][-1], 'panics (%s)' % f['path'].split('::')[-1])
        if f['kind'] == 'shim' and not f.get('body'):
            return self.shim(st, th, f, args, dest, target)
        body = f.get('body')
        if body is None or f.get('nomir'):
            if f['kind'] == 'intrinsic':
                raise Unsupported('intrinsic %s' % f['full'][:150])
        if body and body['argc'] != len(args):
            if body.get('spread') is None and len(args) == 2 and args[1][0] == 'A':
                args = [args[0]] + list(args[1][2])
            elif body.get('spread') is not None and len(args) != body['argc']:
                args = [args[0], tup(*args[1:])]
        elif body and body['argc'] == 2 and len(args) == 2 and '{closure#' in f['path'].split('::')[-1] \
                and body.get('spread') is None and f['kind'] == 'item':
            # Fn-trait call of a closure with one argument: untuple
            if t is not None and args[1][0] == 'A' and len(args[1][2]) == 1:
                args = [args[0], args[1][2][0]]
        self.push(st, th, fid, args, dest, target)
        return None

    def apply(self, st, th, fv, args, dest, target):
        """Call a function value with plain arguments."""
        if fv[0] == 'F':
            return self.invoke(st, th, fv[1], args, dest, target)
        raise Unsupported('apply')

    def shim(self, st, th, f, args, dest, target):
        raise Unsupported('shim %s' % f['full'][:160])

    def vmethod(self, t, f):
        for vt in self.p.vtables:
            if vt['t'] == t and vt['dyn'] == f['dynt'] if 'dynt' in f else vt['t'] == t:
                m = vt['m'][f['vidx']]
                if m is None:
                    continue
                g = self.p.fns[m]
                if self.vname(g) == f['path'].split('::')[-1]:
                    return m
        raise Unsupported('no vtable for %s in %s' % (self.p.tn(t), f['full'][:120]))

    def vname(self, g):
        if g.get('tm'):
            return g['tm'].split('::')[-1]
        return g['path'].split('::')[-1]

    def ret(self, st, th, v, dest, target):
        if target is None:
            raise Unsupported('model of a diverging call returned')
        if dest is not None:
            self.store(st, dest, v)
        self.goto(st.thr[th][-1], target)
        return None


def byte_at(st, text, p):
    p = st.facts.norm(p)
    if text[0] == 'lit' and type(p) is int:
        return text[1][p]
    raise Unsupported('byte of literal at unknown position')


def divide(st, op, a, b):
    if type(a) is int:
        return a // b if op == 'Div' else a % b
    c, d = parts(a)
    if all(k % b == 0 for k in d.values()):
        # a = b*q + c, all parts natural
        if op == 'Div':
            return lin(c // b, {x: k // b for x, k in d.items()})
        return c % b
    raise Unsupported('division of %s' % (a,))


def raw_parts(M, st, vs):
    p, meta = vs
    if meta == UNIT:
        return p
    if isnum(meta):
        if p[0] == 'SL':
            return ('SL', p[1], p[2], p[3], add(p[3], meta))
        if p[0] == 'SB':
            return ('SB', p[1], p[2], add(p[2], meta))
        if p[0] == 'S':
            return ('S', p[1], p[2], add(p[2], meta))
    raise Unsupported('raw pointer parts')
