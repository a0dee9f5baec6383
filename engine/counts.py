"""How many: characters, bytes, lines of a stretch of text; and text written to a Formatter.

('cnt', W, T, lo, hi) is the sum of W(c) over the characters c of text T that begin in [lo, hi), both char
boundaries. W, a weight, is ((first, last, k), …): disjoint ranges of characters, in order, each with k != 0.
Such sums are additive in the range and in the weight, so that a linear expression has a normal form with
respect to what is known of the text: every sum is cut at the known char boundaries within its range, the
weights over one piece are added up, characters that do not occur in the piece (or that are known) are dropped.
"""
from dom import *
import dom
from values import *
from interp import UNDEF, Event
from models import *
from models import M, model
import models
import itertools

TOP = MAXCH
ALL = ((0, TOP, 1),)
UTF8 = ((0, 127, 1), (128, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, TOP, 4))
UTF16 = ((0, 0xFFFF, 1), (0x10000, TOP, 2))
PREF['cnt'] = 6


def wnorm(parts_):
    """Weight from overlapping (lo, hi, k): sums."""
    cuts = sorted({p for lo, hi, k in parts_ for p in (lo, hi + 1)})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        k = sum(k for lo, hi, k in parts_ if lo <= a and b - 1 <= hi)
        if k:
            if out and out[-1][1] == a - 1 and out[-1][2] == k:
                out[-1] = (out[-1][0], b - 1, k)
            else:
                out.append((a, b - 1, k))
    return tuple(out)


def wscale(w, k):
    return tuple((a, b, x * k) for a, b, x in w) if k else ()


def wcut(w, keep):
    """w on the characters of keep (a list of ranges) only."""
    out = []
    for a, b, k in w:
        for c, d in keep:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi, k))
    return wnorm(out)


def without(c):
    return [(0, c - 1), (c + 1, TOP)]


def weight_at(w, c):
    for a, b, k in w:
        if a <= c <= b:
            return k
    return 0


def cnt(W, text, lo, hi):
    if not W:
        return 0
    if W == UTF8:
        return sub(hi, lo)
    return atom(('cnt', W, text, lo, hi))


# ------------------------------------------------------------------ normal form
def chars_of(f, c):
    """The ranges in which the character number c may lie."""
    c = f.norm(c)
    if type(c) is int:
        return [(c, c)]
    r = []
    lo, hi = 0, TOP
    for l in f.ge:
        if type(l) is tuple and len(l[2]) == 1 and c[1] == 0 and len(c[2]) == 1 and c[2][0][1] == 1 and l[2][0][0] == c[2][0][0]:
            k = l[2][0][1]
            if k > 0:
                lo = max(lo, -(l[1] // k))
            else:
                hi = min(hi, l[1] // -k)
    r = [(lo, hi)]
    for l in f.ne:
        if type(l) is tuple and len(l[2]) == 1 and c[1] == 0 and len(c[2]) == 1 and c[2][0][1] == 1 and l[2][0][0] == c[2][0][0] and abs(l[2][0][1]) == 1:
            x = -l[1] * l[2][0][1]
            r = [(a, b) for y in r for a, b in ((y[0], min(y[1], x - 1)), (max(y[0], x + 1), y[1])) if a <= b]
    return r


def known_width(f, text, p):
    if text != 'T' and text[0] != 'lit':
        return None
    c = f.norm(atom(('ch', text, f.norm(p))))
    if type(c) is int:
        return len(chr(c).encode()) if not 0xD800 <= c <= 0xDFFF else None
    if f.entails(sub(127, c), 3):
        return 1
    w = f.norm(atom(('w', text, f.norm(p))))
    return w if type(w) is int else None


def cuts_of(f, text):
    out = []
    for t, p, v in f.bnd:
        if t == text and v:
            out.append(p)
    for t, p, q in f.occ:
        if t == text:
            out += [q, add(q, len(p[1]))]
    return out


def pieces(f, text, lo, hi, cuts):
    lo, hi = f.norm(lo), f.norm(hi)
    todo = [(lo, hi)]
    out = []
    n = 0
    while todo:
        a, b = todo.pop()
        n += 1
        if n > 400:
            raise Unsupported('too many pieces')
        if f.norm(sub(b, a)) == 0 or f.entails(sub(a, b)):
            continue
        for p in cuts:
            p = f.norm(p)
            if f.norm(sub(p, a)) != 0 and f.norm(sub(b, p)) != 0 and f.entails(sub(p, a)) and f.entails(sub(b, p)):
                todo += [(p, b), (a, p)]
                break
        else:
            w = known_width(f, text, a)
            if w is not None and f.norm(sub(b, a)) != w and f.entails(add(sub(b, a), -w)):
                todo += [(f.norm(add(a, w)), b), (a, f.norm(add(a, w)))]
            else:
                out.append((a, b))
    return out


def simplify(f, l):
    l = f.norm(l)
    if type(l) is int or not any(a[0] == 'cnt' for a, k in l[2]):
        return l
    rest, by = l[1], {}
    texts = {}
    for a, k in l[2]:
        if a[0] != 'cnt':
            rest = add(rest, atom(a), k)
        else:
            texts.setdefault(a[2], []).append((a, k))
    for text, ats in texts.items():
        cuts = cuts_of(f, text)
        for a, k in ats:
            cuts += [a[3], a[4]]
        by = {}
        for a, k in ats:
            for p in pieces(f, text, a[3], a[4], cuts):
                by[p] = by.get(p, ()) + wscale(a[1], k)
        for (a, b), w in by.items():
            w = wnorm(w)
            absent = [p[1].decode() for t, p, x, y in f.nost if t == text and f.entails(sub(a, x)) and f.entails(sub(y, b))]
            allow = [(0, TOP)]
            for c in absent:
                if len(c) == 1:
                    allow = [(max(x, u), min(y, v)) for x, y in allow for u, v in without(ord(c)) if max(x, u) <= min(y, v)]
            kw = known_width(f, text, a)
            if kw is not None and f.norm(sub(b, a)) == kw:
                cs = chars_of(f, atom(('ch', text, f.norm(a))))
                allow = [(max(x, u), min(y, v)) for x, y in allow for u, v in cs if max(x, u) <= min(y, v)]
                ws = {weight_at(w, x) for x in {p for r in allow for p in r} | {p for x, y, k in w for p in (x, y, x - 1, y + 1)} if any(u <= x <= v for u, v in allow)}
                if len(ws) == 1:
                    rest = add(rest, ws.pop())
                    continue
            w = wcut(w, allow)
            if not w:
                continue
            k = w[0][2] // (weight_at(UTF8, w[0][0]) or 1)
            if w == wcut(wscale(UTF8, k), allow):
                rest = add(rest, sub(b, a), k)
                continue
            # the smallest sign and factor
            rest = add(rest, atom(('cnt', w, text, a, b)))
    return f.norm(rest)


Facts_is_ge, Facts_is_eq = Facts.is_ge, Facts.is_eq


def at_least(l):
    """A lower bound that follows from numbers having digits, if there is one."""
    n = l[1]
    for a, k in l[2]:
        if k < 0:
            return None
        if a[0] == 'n' and type(a[1]) is tuple and a[1][0] == 'dec':
            n += k
    return n


def is_ge(self, l):
    l = self.norm(l)
    if type(l) is tuple and any(a[0] == 'n' and a[1][0] == 'dec' for a, k in l[2]):
        n = at_least(l)
        if n is not None and n >= 0:
            return True
        n = at_least(add(sub(0, l), -1))
        if n is not None and n >= 0:
            return False
    if type(l) is tuple and any(a[0] == 'cnt' for a, k in l[2]):
        l = simplify(self, l)
        l = self.norm(l)
    return Facts_is_ge(self, l)


def is_eq(self, l):
    l = self.norm(l)
    if type(l) is tuple and any(a[0] == 'n' and a[1][0] == 'dec' for a, k in l[2]):
        for y in (l, sub(0, l)):
            n = at_least(y)
            if n is not None and n > 0:
                return False
    if type(l) is tuple and any(a[0] == 'cnt' for a, k in l[2]):
        l = simplify(self, l)
        if type(l) is tuple:
            # different weights on one piece
            l = self.norm(l)
    return Facts_is_eq(self, l)


Facts.is_ge, Facts.is_eq = is_ge, is_eq


# ------------------------------------------------------------------ functions given by the code
def nested(m, st, th, fid, args):
    """Calls a function and runs it to its end."""
    saved, pend = st.thr[th], st.pend[th]
    st.thr[th], st.pend[th] = [], None
    cell = st.alloc(UNDEF)
    steps = st.steps
    try:
        f = m.p.fns[fid]
        m.push(st, th, fid, args, cell, None)
        st.steps = 195000       # (of 200000)
        r = m.run(st, th, lambda s, t: False)
        if r == 'event' or st.pend[th] is None or st.pend[th].kind != 'done':
            raise Unsupported('an event within a function that should have none')
        v = m.load(st, cell)
    finally:
        st.thr[th], st.pend[th] = saved, pend
        st.steps = steps
    return v


def fnargs(m, ft):
    """(function, whether it takes itself) of a function type"""
    t = m.ty(ft)
    return t


def call_value(m, st, th, ft, fv, args):
    while m.ty(ft)['k'] in ('ref', 'ptr'):
        ft = m.ty(ft)['e']
        fv = deref(m, st, fv) if fv[0] == 'R' else fv
    t = m.ty(ft)
    if t['k'] == 'closure':
        self_ = fv if t.get('ck') == 'FnOnce' else st.alloc(fv)
        return nested(m, st, th, t['fn'], [self_] + args)
    fid = t.get('fn') if t['k'] == 'fndef' else fv[1] if t['k'] == 'fnptr' and fv[0] == 'F' else None
    if fid is None:
        raise Unsupported('a function value')
    f = m.p.fns[fid]
    key = m.key(fid)
    if f['crate'] not in ('witness', 'aoc_parse'):
        mod = m.models.get(key) or m.models.get(f['path'])
        if mod is not None:
            r = mod(m, st, th, f, args, None, None)
            if r is not NotImplemented and not (type(r) is tuple and r and r[0] == 'CALL') and r is not None:
                return r
    return nested(m, st, th, fid, args)


def results(m, st, th, ft, fv, make, read, limit=60):
    """All the ways a call of a function on some character may go: [(ranges of the character, result)].
    make(c): the arguments for character number c."""
    s0 = st.copy()
    s0.nx += 1
    a = ('x', s0.nx)
    c = atom(a)
    s0.facts.add_ge(sub(TOP, c))
    work, out = [s0], []
    while work:
        s = work.pop()
        keep = s.copy()
        try:
            v = call_value(m, s, th, ft, fv, make(s, c))
            v = read(s, v)
        except Split as sp:
            if len(work) > limit:
                raise Unsupported('a function with too many cases')
            for w in sp.ways:
                t = keep.copy()
                t.nx = max(t.nx, s.nx)
                if w(t.facts):
                    work.append(t)
            continue
        f = s.facts
        extra = []
        for n, q, v_ in f.preds:
            if a in atoms_in(q):
                if n not in SETS or f.norm(q) != f.norm(c):
                    raise Unsupported('a function that depends on a Unicode property')
                extra.append(SETS[n] if v_ else complement(SETS[n]))
        for l in f.ge + f.ne:
            if a in atoms_in(l) and l not in st.facts.ge and (len(l[2]) != 1):
                raise Unsupported('a function that compares the character with something unknown')
        rs = chars_of(f, c)
        for e in extra:
            rs = both(rs, e)
        out.append((rs, v))
    return out


SETS = {
    'whitespace': [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                   (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)],
    'control': [(0, 0x1F), (0x7F, 0x9F)],
}


def complement(rs):
    out, p = [], 0
    for a, b in rs:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    return out + [(p, TOP)]


def both(xs, ys):
    return [(max(a, c), min(b, d)) for a, b in xs for c, d in ys if max(a, c) <= min(b, d)]


def class_of(m, st, th, ft, fv, kind, ref):
    """For a predicate over characters or bytes: the weight of each character."""
    if kind in ('bytes', 'bytes&'):
        bs = []
        for b in range(256):
            s = st.copy()
            x = b
            for i in range(int(ref) + ('&' in kind)):
                x = s.alloc(x)
            v = call_value(m, s, th, ft, fv, [x])
            if type(v) is not bool and type(v) is not int:
                raise Unsupported('a predicate over bytes')
            bs.append(int(v))
        return byte_weight(bs)
    rs = results(m, st, th, ft, fv, lambda s, c: [s.alloc(c) if ref else c], lambda s, v: v)
    out = []
    for ranges, v in rs:
        v = st.facts.norm(v) if isnum(v) else v
        if type(v) is not bool and type(v) is not int:
            raise Unsupported('the value of a function of a character')
        out += [(a, b, int(v)) for a, b in ranges if v]
    return wnorm(out)


def byte_weight(bs):
    out = [(i, i, bs[i]) for i in range(128) if bs[i]]
    if len(set(bs[128:0xC0])) > 1:
        raise Unsupported('a predicate that tells continuation bytes apart')
    k = bs[0x80]
    for lo, hi, n in ((0xC2, 0xDF, 2), (0xE0, 0xEF, 3), (0xF0, 0xF4, 4)):
        if len(set(bs[lo:hi + 1])) > 1:
            raise Unsupported('a predicate that tells leading bytes apart')
        a, b, _ = UTF8[n - 1]
        out.append((a, b, bs[lo] + (n - 1) * k))
    return wnorm([x for x in out if x[2]])


BASE = {'chars': ALL, 'charix': ALL, 'bytes': UTF8, 'bytes&': UTF8, 'enc16': UTF16}


def head(m, t):
    return m.head(t) if m.ty(t)['k'] == 'adt' else None


class InLiteral(Unsupported):
    pass


def stretch(m, st, th, it, t):
    r = stretch_(m, st, th, it, t)
    if r is None:
        raise Unsupported('items of an iterator %s' % (m.head(t) if m.ty(t)['k'] == 'adt' else ''))
    return r


def stretch_(m, st, th, it, t):
    """(text span, weight) such that an iterator yields, in all, the weight of the span many items; and its item kind."""
    if type(it) is tuple and it and it[0] in BASE:
        if it[1] is not None and is_lit(it[1]):
            raise InLiteral('counting in a literal')
        return ('S', it[1][1], it[2], it[3]), BASE[it[0]], it[0]
    h = head(m, t)
    ts = m.ty(t).get('args', [])
    if h in ('Rev', 'Enumerate', 'Copied', 'Cloned', 'Peekable', 'Inspect', 'Fuse') and it[0] == 'A':
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
        if h in ('Copied', 'Cloned') and k:
            k = k.replace('&', '')
        return s, w, None if h == 'Enumerate' else k + '^' if h == 'Rev' and k else k
    if h == 'Take' and it[0] == 'A':
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
        n = it[2][1]
        if not isnum(n) or k not in ('bytes', 'bytes&') or w != UTF8:
            raise Unsupported('take')
        if not st.facts.is_ge(sub(sub(s[3], s[2]), n)):
            return s, w, k
        q = norm(st, add(s[2], n))
        if not st.facts.is_boundary(s[1], q):
            raise Unsupported('part of a character')
        return ('S', s[1], s[2], q), w, k
    if h == 'Filter' and it[0] == 'A':
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
        k = (k or '').rstrip('^')
        if k not in ('chars', 'bytes', 'bytes&'):
            raise Unsupported('filter')
        c = class_of(m, st, th, ts[1], it[2][1], k, True)
        if k in ('bytes', 'bytes&'):
            if w != UTF8:
                raise Unsupported('filter of a filter')
            return s, c, None
        return s, wcut(w, [(a, b) for a, b, _ in c]), k
    if h in ('TakeWhile', 'SkipWhile') and it[0] == 'A':
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
        back = bool(k) and k.endswith('^')
        k = (k or '').rstrip('^')
        flag = [x for x in it[2] if type(x) is bool]
        pred = [(x, y) for x, y in zip(it[2], m.ty(t)['v'][0]['f']) if y[0] in ('predicate', 'pred')]
        if k not in ('chars', 'bytes', 'bytes&') or flag != [False] or not pred:
            raise Unsupported(h)
        c = class_of(m, st, th, ts[1], pred[0][0], k, True)
        stop = wnorm(c + tuple((a, b, -1) for a, b, _ in (ALL if k == 'chars' else UTF8)))
        if k == 'bytes' and len(stop) == 1 and stop[0][0] == stop[0][1] < 128:
            stop = ((stop[0][0], stop[0][0], -1),)
        if len(stop) != 1 or stop[0][0] != stop[0][1]:
            raise Unsupported(h + ' with more than one stop character')
        b = chr(stop[0][0]).encode()
        q = (models.rseek if back else models.seek)(m, st, s, b)
        if q is None:
            return (s, w, k) if h == 'TakeWhile' else (('S', s[1], s[3], s[3]), w, k)
        if back:
            r = ('S', s[1], norm(st, add(q, len(b))), s[3]) if h == 'TakeWhile' else ('S', s[1], s[2], norm(st, add(q, len(b))))
        else:
            r = ('S', s[1], s[2], q) if h == 'TakeWhile' else ('S', s[1], q, s[3])
        return r, w, k + ('^' if back else '')
    if h == 'Map' and it[0] == 'A':
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
        return s, w, None
    return None


def counted(st, s, w):
    f = st.facts
    return f.norm(simplify(f, cnt(w, s[1], s[2], s[3])))


def how_many(m, st, th, it, t):
    if type(it) is tuple and it and it[0] == 'matches':
        s, b = it[1:3]
        if len(b.decode()) != 1:
            raise Unsupported('matches of a string')
        c = ord(b.decode())
        return counted(st, s, ((c, c, 1),))
    if type(it) is tuple and it and it[0] == 'split':
        k, s, b = it[1:4]
        if s is None:
            return 0
        if len(b.decode()) != 1:
            raise Unsupported('split by a string')
        c = ord(b.decode())
        n = counted(st, s, ((c, c, 1),))
        if k in ('split', 'rsplit'):
            return add(n, 1)
        if st.facts.is_eq(sub(s[3], s[2])):
            return 0
        return n if models.ends_with(m, st, s, chr(c).encode() and c) is not None else add(n, 1)
    try:
        r = stretch(m, st, th, it, t)
    except (IndexError, KeyError):
        return None
    if r is None:
        return None
    return counted(st, r[0], r[1])


@model('model::iter_count', 'Chars.Iterator::count', 'CharIndices.Iterator::count', 'Bytes.Iterator::count')
def iter_count(m, st, th, fn, a, dest, target):
    t = fn['args'][0] if fn.get('args') else None
    if type(a[0]) is not tuple or t is None:
        return NotImplemented
    try:
        r = how_many(m, st, th, a[0], t)
    except InLiteral:
        return NotImplemented
    return NotImplemented if r is None else r


@model('Map::sum', 'core::iter::traits::iterator::Iterator::sum', 'model::iter_sum')
def iter_sum(m, st, th, fn, a, dest, target):
    t = fn['args'][0]
    it = a[0]
    if head(m, t) != 'Map':
        return NotImplemented
    ts = m.ty(t)['args']
    try:
        s, w, k = stretch(m, st, th, it[2][0], ts[0])
    except InLiteral:
        return NotImplemented
    k = (k or '').rstrip('^')
    if k not in ('chars', 'bytes', 'bytes&'):
        raise Unsupported('sum')
    c = class_of(m, st, th, ts[1], it[2][1], k, False)
    if k in ('bytes', 'bytes&'):
        return counted(st, s, c)
    return counted(st, s, wcut(c, [(x, y) for x, y, _ in w]))


@model('model::iter_fold')
def iter_fold(m, st, th, fn, a, dest, target):
    """Every component of the accumulator is added to, for each character, or set, at one character."""
    it, t = a[0], fn['args'][0]
    try:
        r = stretch(m, st, th, it, t)
    except Unsupported:
        return NotImplemented
    if r is None or r[2] != 'chars' or r[1] != ALL:
        return NotImplemented
    s = r[0]
    init = a[1]
    comps = init[2] if type(init) is tuple and init and init[0] == 'A' else (init,)
    if any(not isnum(x) for x in comps):
        return NotImplemented
    st.nx += len(comps) + 2
    xs = [atom(('x', st.nx - i)) for i in range(len(comps))]
    acc = ('A', init[1], tuple(xs)) if comps is not init and type(init) is tuple and init[0] == 'A' else xs[0]
    ft = [x for x in fn['args'] if m.ty(x)['k'] in ('closure', 'fndef', 'fnptr')]
    if not ft:
        return NotImplemented
    at = [x for x in fn['args'] if x not in ft and x != t][:1]
    ats = [at[0]] if at and m.ty(at[0])['k'] == 'int' else (m.ty(at[0]).get('v') or []) if m.ty(at[0])['k'] == 'tuple' else [] if at else []
    if len(ats) != len(comps) or any(type(y) is not int or m.ty(y).get('bits', 0) < 32 for y in ats):
        raise Unsupported('counting in %r' % [m.ty(y) for y in ats])

    def enter(s_, c):
        for x in xs:        # (that a counter of the text's characters does not overflow is taken for granted)
            s_.facts.add_ge(sub(1 << 30, x))
        return [acc, c]

    def read(s_, v):
        vs = v[2] if type(v) is tuple and v and v[0] == 'A' else (v,)
        out = []
        for x, y in zip(vs, xs):
            x = s_.facts.norm(x)
            d = s_.facts.norm(sub(x, y))
            if type(x) is int:
                out.append(('set', x))
            elif type(d) is int:
                out.append(('add', d))
            else:
                raise Unsupported('fold')
        return tuple(out)
    rs = results(m, st, th, ft[0], a[2], enter, read)
    out = []
    f = st.facts
    for i, x0 in enumerate(comps):
        sets = [(x, y, v[i][1]) for ranges, v in rs for x, y in ranges if v[i][0] == 'set']
        w = wnorm([(x, y, v[i][1]) for ranges, v in rs for x, y in ranges if v[i][0] == 'add' and v[i][1]])
        lo = s[2]
        base = x0
        if sets:
            if len(sets) != 1 or sets[0][0] != sets[0][1]:
                raise Unsupported('fold')
            b = chr(sets[0][0]).encode()
            q = models.rseek(m, st, s, b)
            if q is not None:
                lo, base = norm(st, add(q, len(b))), sets[0][2]
        out.append(norm(st, add(base, counted(st, ('S', s[1], lo, s[3]), w))))
    return ('A', init[1], tuple(out)) if type(init) is tuple and init[0] == 'A' else out[0]


@model('str::encode_utf16')
def encode_utf16(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return ('enc16', s, s[2], s[3])


def sep(m, st, th, fn, p):
    """The pattern as text, if it stands for one."""
    k = m.ty(fn['args'][0])['k'] if fn.get('args') else None
    if k in ('closure', 'fndef', 'fnptr'):
        w = class_of(m, st, th, fn['args'][0], p, 'chars', False)
        if len(w) == 1 and w[0][0] == w[0][1]:
            return chr(w[0][0]).encode()
        raise Unsupported('a pattern of several characters')
    b = pat_bytes(m, st, p)
    if b is None or not b:
        raise Unsupported('pattern')
    return b


@model('str::matches', 'str::rmatches')
def str_matches(m, st, th, fn, a, dest, target):
    return ('matches', text_of(m, st, a[0]), sep(m, st, th, fn, a[1]))


def splitter(kind):
    def g(m, st, th, fn, a, dest, target):
        s = text_of(m, st, a[0])
        if kind == 'lines':
            return ('split', kind, s, b'\n')
        return ('split', kind, s, sep(m, st, th, fn, a[1]))
    return g


for k in ('split', 'rsplit', 'lines', 'split_terminator'):
    M['str::' + k] = splitter(k)


def split_next(back):
    def g(m, st, th, fn, a, dest, target):
        _, k, s, b = m.load(st, a[0])
        if s is None:
            return NONE
        rev = (k == 'rsplit') != back
        if k in ('lines', 'split_terminator'):
            if st.facts.is_eq(sub(s[3], s[2])):
                return NONE
            if back:
                raise Unsupported('the last of lines')
        q = (models.rseek if rev else models.seek)(m, st, s, b)
        if q is None:
            m.store(st, a[0], ('split', k, None, b))
            r = s
        elif rev:
            r = ('S', s[1], norm(st, add(q, len(b))), s[3])
            m.store(st, a[0], ('split', k, ('S', s[1], s[2], q), b))
        else:
            r = ('S', s[1], s[2], q)
            m.store(st, a[0], ('split', k, ('S', s[1], norm(st, add(q, len(b))), s[3]), b))
        if k == 'lines' and models.ends_with(m, st, r, 13) is not None:
            r = ('S', r[1], r[2], norm(st, add(r[3], -1)))
        return some(r)
    return g


for k in ('Split', 'RSplit', 'Lines', 'SplitTerminator'):
    M[k + '.Iterator::next'] = split_next(False)
    M[k + '.DoubleEndedIterator::next_back'] = split_next(True)


old_last = M['model::iter_last']


@model('model::iter_last')
def iter_last(m, st, th, fn, a, dest, target):
    v = a[0]
    if type(v) is tuple and v and v[0] == 'split' and v[1] == 'split':
        return split_next(True)(m, st, th, fn, [st.alloc(v)], dest, target)
    return old_last(m, st, th, fn, a, dest, target)


@model('thiserror::display::AsDisplay::as_display', '&&str.AsDisplay::as_display', '*.AsDisplay::as_display')
def as_display(m, st, th, fn, a, dest, target):
    v = a[0]
    if type(v) is tuple and v[0] == 'R':
        return m.load(st, v) if type(m.load(st, v)) is tuple and m.load(st, v)[0] in ('R', 'S') else v
    return v


# ------------------------------------------------------------------ formatters
def displayed(m, st, th, v, t):
    """The text of a value of a type of the library (v: behind any references)."""
    d = m.ty(t).get('disp')
    if d is None:
        return None
    w = st.alloc(('str', ('lit', b''), 0, 0))
    fm = st.alloc(('fmtr', w))
    while not (type(v) is tuple and v[0] == 'R' and not (type(m.load(st, v)) is tuple and m.load(st, v) and m.load(st, v)[0] == 'R')):
        if type(v) is tuple and v[0] == 'R':
            v = m.load(st, v)
        else:
            v = st.alloc(v)
    r = nested(m, st, th, d, [v, fm])
    if r[0] != 'A' or r[1] != 0:
        raise Unsupported('Display fails')
    s = text_of(m, st, w)
    return s


def sink(m, st, p):
    """The String that a Formatter (or String, or &mut of one) writes to."""
    while True:
        v = m.load(st, p)
        if v[0] == 'fmtr':
            return v[1]
        if v[0] == 'R':
            p = v
            continue
        if v[0] == 'str':
            return p
        raise Unsupported('a writer')


OKU = ('A', 0, (UNIT,))


def emit(m, st, p, more):
    w = sink(m, st, p)
    m.store(st, w, cat(st, [text_of(m, st, w)] + more))
    return OKU


@model('Formatter::write_fmt', 'Formatter.Write::write_fmt', 'String.Write::write_fmt', 'core::fmt::Write::write_fmt', 'core::fmt::write')
def write_fmt(m, st, th, fn, a, dest, target):
    return emit(m, st, a[0], rendered(m, st, a[1] if a[1][0] == 'fmt_args' else deref(m, st, a[1]), th))


@model('Formatter::write_str', 'Formatter.Write::write_str', 'String.Write::write_str', 'Formatter::pad', 'core::fmt::Write::write_str')
def write_str(m, st, th, fn, a, dest, target):
    if fn['path'].endswith('pad'):
        a = [a[0], a[1]]
    return emit(m, st, a[0], [text_of(m, st, a[1])])


@model('Formatter::write_char', 'Formatter.Write::write_char', 'String.Write::write_char', 'core::fmt::Write::write_char')
def write_char(m, st, th, fn, a, dest, target):
    c = norm(st, a[1])
    if type(c) is int:
        return emit(m, st, a[0], [lits(chr(c).encode())])
    return emit(m, st, a[0], [whole(('char', c))])


@model('Formatter::alternate', 'Formatter::sign_plus', 'Formatter::sign_minus')
def alternate(m, st, th, fn, a, dest, target):
    return False


@model('Formatter::width', 'Formatter::precision')
def no_width(m, st, th, fn, a, dest, target):
    return NONE


def display_fmt(m, st, th, fn, a, dest, target):
    """usize, str, String: Display::fmt called directly."""
    t = fn.get('self')
    v = a[0]
    return emit(m, st, a[1], shown(m, st, 'display', v, t, th))


for k in ('usize', 'u32', 'u64', 'i32', 'i64', 'u8', 'str', 'String', 'char', 'bool', '&str', '&String', '&usize', '&'):
    M[k + '.Display::fmt'] = display_fmt


# ------------------------------------------------------------------ the end of a text
def equal(f, a, b):
    """If not the same number in every case: f is left with one of the cases in which they differ."""
    d = simplify(f, sub(a, b))
    if type(d) is tuple and any(y[0] == 'cnt' for y, k in d[2]):
        f.ne = f.ne + (d,)
        return False
    return f.is_eq(d)


def read_out(f, n):
    n = f.norm(n)
    if type(n) is int:
        return n

    def at(p):
        p = f.norm(p)
        if type(p) is int:
            return str(p)
        return '+'.join([str(k) + '*' * 0 if k != 1 else '' for k in ()] + [('%d*' % k if k != 1 else '') + (
            'place' if a == ('x', 0) else 'end' if a[0] == 'n' else '%s%s' % (a[0], a[1]) if a[0] == 'x' else a[0]) for a, k in p[2]] +
            ([str(p[1])] if p[1] else []))
    out = [str(n[1])] if n[1] else []
    for a, k in n[2]:
        if a[0] == 'cnt':
            w = ', '.join('%s%s: %d' % (ascii(chr(x)), '' if x == y else '..' + ascii(chr(y)), j) for x, y, j in a[1])
            out.append('%s{%s in [%s, %s)}' % ('' if k == 1 else '%d * ' % k, w, at(a[3]), at(a[4])))
        else:
            out.append('%d * %s' % (k, a[0]))
    return ' + '.join(out)


def same_tail(m, st, a, b):
    """Does text a end with text b? A reason if not."""
    f = st.facts
    x, y = flat(st, a), flat(st, b)
    x, y = list(x), list(y)
    while y:
        if not x:
            return 'the text is too short'
        p, q = x[-1], y[-1]
        dp, dq = p[1] != 'T' and p[1][0] == 'dec', q[1] != 'T' and q[1][0] == 'dec'
        if dp and dq:
            if not equal(f, p[1][1], q[1][1]):
                return 'the number shown is %s and should be %s' % (read_out(f, p[1][1]), read_out(f, q[1][1]))
            x.pop()
            y.pop()
            continue
        if dp or dq:
            z = q if dp else p
            if not is_lit(z):
                raise Unsupported('a number against some text')
            s = lit_bytes(z)
            n = 0
            while n < len(s) and chr(s[len(s) - 1 - n]).isdigit():
                n += 1
            if n == 0:
                return 'the text ends with %r where a number should be' % s.decode()[-20:] if dq else 'the text ends with a number where %r should be' % s.decode()[-20:]
            if n == len(s) or s[len(s) - n:len(s) - n + 1] == b'0' and n > 1:
                raise Unsupported('a number against digits')
            num = (p if dp else q)[1][1]
            if not equal(f, num, int(s[len(s) - n:])):
                return 'the number shown is %s and should be %s' % ((read_out(f, num), s[len(s) - n:].decode())[::1 if dp else -1])
            z = lits(s[:-n])
            if dp:
                x.pop()
                y[-1] = z
            else:
                y.pop()
                x[-1] = z
            continue
        if is_lit(p) and is_lit(q):
            s, t = lit_bytes(p), lit_bytes(q)
            n = min(len(s), len(t))
            if s[len(s) - n:] != t[len(t) - n:]:
                return 'the text ends with %r where %r should be' % (s.decode()[-30:], t.decode()[-30:])
            for l, z, k in ((x, s, len(s) - n), (y, t, len(t) - n)):
                l.pop()
                if k:
                    l.append(lits(z[:k]))
            continue
        raise Unsupported('the end of a text of which little is known')
    return None


# ------------------------------------------------------------------ confirmation
POOL = []


def pool():
    if not POOL:
        al = ['a', '\n', 'é', '\r', '\t', '😀', ' ', '\u0301', '€']
        for n in range(4):
            POOL.extend(''.join(x) for x in itertools.product(al, repeat=n))
        for x in itertools.product('a\né', repeat=4):
            POOL.append(''.join(x))
        for x in itertools.product('a\n', repeat=5):
            POOL.append(''.join(x))
        for n in (9, 10, 11, 15, 16, 20, 63, 64, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300):
            for a in 'a\né':
                for b in ('', 'a', '\n', '\na', 'a\n'):
                    POOL.extend([a * n + b, b + a * n])
    return POOL


def sums(st):
    f = st.facts
    out = set()
    for x in list(f.ge) + list(f.ne) + [y for a, e in f.sub.items() for y in (atom(a), e)]:
        out |= {a for a in atoms_in(x) if a[0] == 'cnt'}
    return out


def relevant(st):
    return bool(sums(st)) or any(a[0] == 'dec' for e in st.pend if e for x in e.args for a in decs(x))


def decs(v, d=0):
    if type(v) is not tuple or d > 12:
        return
    if v and v[0] == 'dec':
        yield v
    for x in v:
        yield from decs(x, d + 1)


class Fails(Exception):
    pass


def evaluate(v, env, b, ends):
    """A number for the text with bytes b; None if it is not determined."""
    if type(v) is int:
        return v
    n = v[1]
    for a, k in v[2]:
        x = value(a, env, b, ends)
        if x is None:
            return None
        n += k * x
    return n


def value(a, env, b, ends):
    if a in env:
        return env[a]
    k = a[0]
    if k == 'n':
        if a[1] == 'T':
            return len(b)
        if a[1][0] == 'lit':
            return len(a[1][1])
        if a[1][0] == 'dec':
            x = evaluate(a[1][1], env, b, ends)
            return None if x is None else len(str(x))
        if a[1][:2] == ('disp', 'some text'):
            return 3
        return None
    if k in ('ch', 'w'):
        if a[1] != 'T':
            return None
        p = evaluate(a[2], env, b, ends)
        if p is None:
            return None
        if not 0 <= p < len(b):
            raise Fails()
        if p not in ends:
            return b[p] if k == 'ch' else None
        c = b[p:].decode()[0]
        return ord(c) if k == 'ch' else len(c.encode())
    if k == 'cnt':
        if a[2] != 'T':
            return None
        lo, hi = evaluate(a[3], env, b, ends), evaluate(a[4], env, b, ends)
        if lo is None or hi is None:
            return None
        if lo not in ends or hi not in ends or lo > hi:
            raise Fails()
        return sum(weight_at(a[1], ord(c)) for c in b[lo:hi].decode())
    return None


def digits(l):
    """A fact that only says that numbers have digits."""
    return type(l) is tuple and l[1] >= -1 and all(a[0] == 'n' and a[1][0] == 'dec' and k > 0 for a, k in l[2])


PY = {'alphabetic': str.isalpha, 'numeric': str.isnumeric, 'uppercase': str.isupper, 'lowercase': str.islower}


def confirm(st):
    """A text (and a place in it) for which the state is reached, or None."""
    f = st.facts
    xs = set()
    for x in [l for l in f.ge if not digits(l)] + list(f.ne) + [y for a, e in f.sub.items() for y in (atom(a), e)] + \
            [q for t, p, q in f.occ] + [q for n, q, v in f.preds] + [p for t, p, v in f.bnd] + [y for t, p, lo, hi in f.nost for y in (lo, hi)]:
        for a in atoms_in(x):
            if a[0] == 'x':
                xs.add(a)
            elif a[0] not in ('n', 'ch', 'w', 'cnt'):
                return None
    if any(n not in SETS and n not in PY for n, q, v in f.preds):
        return None
    at = ('x', 0)
    free = [a for a in sorted(xs, key=akey) if a not in f.sub]
    if len(free) > 3:
        return None
    for s in pool():
        b = s.encode()
        ends = {0}
        i = 0
        for c in s:
            i += len(c.encode())
            ends.add(i)
        cand = sorted(ends)
        if len(b) > 40:
            cand = [0, 1, len(b) - 1, len(b)] if len(free) > 1 else cand
        for vals in itertools.product(cand, repeat=len(free)):
            env = dict(zip(free, vals))
            try:
                if holds(f, env, b, ends):
                    return s, env.get(at)
            except Fails:
                pass
    return None


def holds(f, env, b, ends):
    env = dict(env)
    open_ = list(f.sub.items())
    for r in range(6):
        rest = []
        for a, e in open_:
            x = evaluate(e, env, b, ends)
            y = value(a, env, b, ends)
            if x is None or (y is None and a[0] not in ('x',)):
                rest.append((a, e))
            elif y is None:
                if x < 0:
                    return False
                env[a] = x
            elif x != y:
                return False
        if not rest:
            break
        open_ = rest
    else:
        return False

    def ev(v):
        x = evaluate(v, env, b, ends)
        if x is None:
            raise Fails()
        return x
    for l in f.ge:
        if digits(l):
            continue
        if ev(l) < 0:
            return False
    for l in f.ne:
        if ev(l) == 0:
            return False
    for n, q, v in f.preds:
        c = ev(q)
        if (any(x <= c <= y for x, y in SETS[n]) if n in SETS else PY[n](chr(c))) is not v:
            return False
    for t, p, v in f.bnd:
        if t == 'T' and (ev(p) in ends) is not v:
            return False
    for t, p, q in f.occ:
        if t == 'T':
            i = ev(q)
            if b[i:i + len(p[1])] != p[1]:
                return False
    for t, p, lo, hi in f.nost:
        if t == 'T':
            if any(b[i:i + len(p[1])] == p[1] for i in range(max(0, ev(lo)), ev(hi))):
                return False
    return True
