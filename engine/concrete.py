"""Is there a text on which the facts of an abstract state hold?

A finding counts as exact only if there is one: the domain (dom.py) does not see every contradiction, so that a path
of the analysis on which nothing was generalised may still be one that no text takes. Small texts are tried: their
length, their division into characters, the numbers of the state, and then the characters, each as the facts allow.
Facts about things that have no value here (results of searches for numbers, sizes of opaque texts) are left out.
"""
import itertools
import unicodedata
import time
from dom import *

VARS = ('x', 'end')
KNOWN = VARS + ('n', 'ch', 'w', 'cnt')
W1 = 'a\n \r0bZ~_-9\t\x00A.+,'
W = {2: 'éßÉǅ\u0301\x85²٣\xa0×µ', 3: '€\u2003日\u0903①Ⅷ', 4: '😀𝒜𝟗'}

WS = set('\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000') | set(map(chr, range(0x2000, 0x200b)))


def category(c, yes):
    k = unicodedata.category(c)
    if k in ('Mn', 'Mc', 'So') or c in 'ªº':
        raise No()      # (properties beyond the general category)
    return k in yes


PY = {'alphabetic': lambda c: category(c, ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl')), 'numeric': lambda c: unicodedata.category(c) in ('Nd', 'Nl', 'No'),
      'uppercase': lambda c: category(c, ('Lu',)) if unicodedata.category(c) != 'Nl' else c in 'ⅠⅧ',
      'lowercase': lambda c: category(c, ('Ll',)) if unicodedata.category(c) != 'Nl' else False,
      'whitespace': lambda c: c in WS, 'control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160}


class Fact:
    __slots__ = ('kind', 'data', 'vars', 'chars')

    def __init__(self, kind, data, nums):
        self.kind, self.data = kind, data
        ats = set()
        for n in nums:
            atoms_in(n, ats)
        self.vars = {a for a in ats if a[0] in VARS}
        self.chars = any(a[0] in ('ch', 'w', 'cnt') for a in ats) or kind in ('occ', 'nost', 'pred')


def usable(nums):
    ats = set()
    for n in nums:
        atoms_in(n, ats)
    return all(a[0] in KNOWN and (a[0] in VARS or a[1 if a[0] != 'cnt' else 2] == 'T') for a in ats)


def digits_only(l):
    return type(l) is tuple and all(a[0] == 'n' and a[1] != 'T' for a, k in l[2])


def facts_of(f):
    out = []

    def put(kind, data, nums):
        if usable(nums):
            out.append(Fact(kind, data, nums))
    for l in f.ge:
        put('ge', l, [l])
    for l in f.ne:
        put('ne', l, [l])
    for a, e in f.sub.items():
        put('eq', sub(atom(a), e), [atom(a), e])
    for t, p, lo, hi in f.nost:
        if t == 'T':
            put('nost', (p[1], lo, hi), [lo, hi])
    for t, p, q in f.occ:
        if t == 'T':
            put('occ', (p[1], q), [q])
    for t, p, v in f.bnd:
        if t == 'T':
            put('bnd', (p, v), [p])
    for n, q, v in f.preds:
        if n in PY:
            put('pred', (n, q, v), [q])
    return out


class No(Exception):
    pass


class Open(Exception):
    pass


class Text:
    """A text of which only the division into characters is known, and what each may be."""
    def __init__(self, widths, cands):
        self.start = []
        p = 0
        for w in widths:
            self.start.append(p)
            p += w
        self.n = p
        self.ends = set(self.start) | {p}
        self.w = dict(zip(self.start, widths))
        self.cands = cands      # start -> string of characters


def num(v, env, t, chars):
    if type(v) is int:
        return v
    s = v[1]
    for a, k in v[2]:
        s += k * val(a, env, t, chars)
    return s


def val(a, env, t, chars):
    k = a[0]
    if k in VARS:
        return env[a]
    if k == 'n':
        return t.n
    if k in ('ch', 'w'):
        p = num(a[2], env, t, chars)
        if not 0 <= p < t.n:
            raise No()
        if p in t.w:
            if k == 'w':
                return t.w[p]
            if chars is None:
                raise Open()
            return ord(chars[p])
        if k == 'w':
            raise No()
        if chars is None:
            raise Open()
        q = max(x for x in t.start if x < p)
        return chars[q].encode()[p - q]
    lo, hi = num(a[3], env, t, chars), num(a[4], env, t, chars)
    if lo not in t.ends or hi not in t.ends or lo > hi:
        raise No()
    if chars is None:
        if lo == hi:
            return 0
        raise Open()
    s = 0
    for p in t.start:
        if lo <= p < hi:
            c = ord(chars[p])
            s += sum(w for x, y, w in a[1] if x <= c <= y)
    return s


def check(fact, env, t, chars):
    """Does the fact hold? (Open: depends on the characters.)"""
    k, d = fact.kind, fact.data
    if k == 'ge':
        return num(d, env, t, chars) >= 0
    if k == 'ne':
        return num(d, env, t, chars) != 0
    if k == 'eq':
        return num(d, env, t, chars) == 0
    if k == 'bnd':
        return (num(d[0], env, t, chars) in t.ends) is d[1]
    if k == 'pred':
        c = num(d[1], env, t, chars)
        return bool(PY[d[0]](chr(c))) is d[2]
    if chars is None:
        if k == 'nost' and num(d[1], env, t, None) >= num(d[2], env, t, None):
            return True
        if k == 'occ':
            q = num(d[1], env, t, None)
            if q + len(d[0]) > t.n or q < 0:
                return False
        raise Open()
    b = ''.join(chars[p] for p in t.start).encode()
    if k == 'occ':
        q = num(d[1], env, t, chars)
        return q >= 0 and b[q:q + len(d[0])] == d[0]
    lo, hi = num(d[1], env, t, chars), num(d[2], env, t, chars)
    return not any(b[i:i + len(d[0])] == d[0] for i in range(max(0, lo), hi))


def touched(fact, env, t):
    """The characters that the fact speaks of (None: several in some other way)."""
    k, d = fact.kind, fact.data
    out = set()

    def at(p):
        q = [x for x in t.start if x <= p]
        if not q or p >= t.n:
            raise No()
        out.add(q[-1])

    def walk(v):
        if type(v) is tuple and v and v[0] == 'L':
            for a, _ in v[2]:
                if a[0] == 'ch':
                    at(num(a[2], env, t, None))
                elif a[0] == 'cnt':
                    lo, hi = num(a[3], env, t, None), num(a[4], env, t, None)
                    out.update(p for p in t.start if lo <= p < hi)
    if k in ('ge', 'ne', 'eq'):
        walk(d)
    elif k == 'pred':
        walk(d[1])
    elif k == 'occ':
        q = num(d[1], env, t, None)
        for i in range(len(d[0])):
            at(q + i)
    elif k == 'nost':
        return None
    return out


def narrow(fact, env, t, cands):
    """cands with what a fact says of single characters (or the same dict); None if none is left."""
    k, d = fact.kind, fact.data
    new = cands
    if k == 'occ':
        q = num(d[1], env, t, None)
        try:
            s = d[0].decode()
        except UnicodeDecodeError:
            return new
        new = dict(new)
        for c in s:
            if q not in t.w or t.w[q] != len(c.encode()):
                return None
            if c not in new[q]:
                return None
            new[q] = c
            q += t.w[q]
        return new
    if k == 'nost':
        if len(d[0]) != 1 or d[0][0] >= 128:
            return new
        lo, hi = num(d[1], env, t, None), num(d[2], env, t, None)
        new = dict(new)
        for p in t.start:
            if lo <= p < hi:
                new[p] = new[p].replace(chr(d[0][0]), '')
                if not new[p]:
                    return None
        return new
    w = touched(fact, env, t)
    if w is None or len(w) != 1:
        return new
    p = next(iter(w))
    ok = ''
    for c in new[p]:
        try:
            if check(fact, env, t, {**{q: new[q][0] for q in t.start}, p: c}):
                ok += c
        except No:
            pass
    if not ok:
        return None
    new = dict(new)
    new[p] = ok
    return new


def widths(n, multi):
    yield (1,) * n
    if not multi:
        return
    def go(n):
        if n == 0:
            yield ()
        for w in range(1, min(4, n) + 1):
            for r in go(n - w):
                yield (w,) + r
    for x in sorted(go(n), key=lambda x: -len(x)):
        if len(x) < n:
            yield x


class Late(Exception):
    pass


def possible(f, seconds=4.0, limit=8):
    """A text for which the facts may hold; None if none was found; '' also if the facts are about things too large to try."""
    facts = facts_of(f)
    for x in facts:
        if x.kind in ('ge', 'ne', 'eq') and not x.chars and type(x.data) is tuple and abs(x.data[1]) > 12:
            return ''
    end = time.time() + seconds
    alphabet = dict(W)
    alphabet[1] = W1
    multi = False
    for x in facts:
        cs = []
        if x.kind in ('ge', 'ne', 'eq') and x.chars and type(x.data) is tuple:
            cs = [abs(x.data[1]) + i for i in (0, 1, -1)]
            multi = multi or any(a[0] in ('w', 'cnt') for a in atoms_in(x.data)) or abs(x.data[1]) >= 127
        elif x.kind in ('occ', 'nost'):
            try:
                cs = [ord(c) for c in x.data[0].decode()]
            except UnicodeDecodeError:
                pass
            multi = multi or any(c >= 128 for c in cs)
        elif x.kind == 'bnd' and not x.data[1] or x.kind == 'pred':
            multi = True
        for c in cs:
            if 0 <= c <= MAXCH and not 0xD800 <= c <= 0xDFFF:
                n = len(chr(c).encode())
                if chr(c) not in alphabet[n]:
                    alphabet[n] = alphabet[n] + chr(c)
    allv = set()
    for x in facts:
        allv |= x.vars
    try:
        for n in range(limit + 1):
            for ws in widths(n, multi and n <= 6):
                r = search(facts, allv, ws, alphabet, end)
                if r is not None:
                    return r
    except Late:
        pass
    return None


def search(facts, allv, ws, alphabet, end):
    t = Text(ws, None)
    cands = {p: alphabet[t.w[p]] for p in t.start}
    env = {}

    def settle(fs, cands):
        """Facts all of whose numbers are known now."""
        for x in fs:
            try:
                if not check(x, env, t, None):
                    return None
            except No:
                return None
            except Open:
                try:
                    cands = narrow(x, env, t, cands)
                except (No, KeyError):
                    return None
                if cands is None:
                    return None
        return cands
    by = {a: [] for a in allv}
    for x in facts:
        for a in x.vars:
            by[a].append(x)
    cands = settle([x for x in facts if not x.vars], cands)
    if cands is None:
        return None
    defs = [x for x in facts if x.kind == 'eq' and not x.chars and type(x.data) is tuple]
    count = [0]

    def go(cands):
        count[0] += 1
        if count[0] % 64 == 0 and time.time() > end:
            raise Late()
        if count[0] > 20000:
            return None
        open_ = [a for a in allv if a not in env]
        if not open_:
            return fill(facts, env, t, cands, end)
        # determined by an equation?
        a = dom_ = None
        for x in defs:
            miss = [b for b in x.vars if b not in env]
            if len(miss) == 1 and dict(x.data[2]).get(miss[0]) in (1, -1):
                k = dict(x.data[2])[miss[0]]
                env[miss[0]] = 0
                v = -num(x.data, env, t, None) * k
                del env[miss[0]]
                if v < 0:
                    return None
                a, dom_ = miss[0], [v]
                break
        if a is None:
            a = max(open_, key=lambda b: (sum(1 for x in by[b] if all(c in env or c == b for c in x.vars)), len(by[b]), akey(b)))
            dom_ = range(t.n + (1 if a[0] == 'end' else 3))
        for v in dom_:
            env[a] = v
            if a[0] == 'end' and v > t.n:
                continue
            c = settle([x for x in by[a] if all(b in env for b in x.vars)], cands)
            if c is not None:
                r = go(c)
                if r is not None:
                    del env[a]
                    return r
        del env[a]
        return None
    return go(cands)


def fill(facts, env, t, cands, end):
    late = [x for x in facts if x.chars]
    n = 0
    for cs in itertools.product(*[cands[p] for p in t.start]):
        n += 1
        if n > 3000:
            return None
        if n % 64 == 0 and time.time() > end:
            raise Late()
        chars = dict(zip(t.start, cs))
        try:
            if all(check(x, env, t, chars) for x in late):
                return ''.join(cs)
        except No:
            pass
    return None
