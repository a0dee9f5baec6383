"""The numeric and textual part of an abstract state.

Numbers are linear expressions over atoms: an `int`, or ('L', c, ((atom, k), …)).
Atoms are tuples:
  ('n', T)        the length of text T (in bytes)
  ('end', N, ix)  where the current match of leaf N (round ix) ends
  ('x', i)        some number (fresh)
  ('ch', T, p)    the byte, or character, of text T at p
  ('w', T, p)     how many bytes the character of T at p takes
  ('rl'|'numok'|'numerr', …, T, lo, hi)  searches and conversions, see nums.py
  ('#',)          the position of an element within a run of a list
  ('addr', a)     the address of a memory cell
All atoms stand for natural numbers. `Facts` is a conjunction of linear
inequalities, equalities, disequalities and textual facts, closed under a small
amount of linear reasoning (elimination, bounded depth). What the facts leave
open is not guessed: the caller splits the abstract state (`Split`).
"""
from functools import lru_cache


class Split(Exception):
    """The abstract state has to be divided: `ways` are functions on Facts."""
    def __init__(self, ways, why=""):
        self.ways = ways
        self.why = why


class Unsupported(Exception):
    pass


@lru_cache(maxsize=None)
def akey(a):
    return repr(a)


def lin(c, d):
    it = [(a, k) for a, k in d.items() if k]
    if not it:
        return c
    it.sort(key=lambda x: akey(x[0]))
    return ('L', c, tuple(it))


def atom(a):
    return ('L', 0, ((a, 1),))


def isnum(v):
    return type(v) is int or (type(v) is tuple and len(v) == 3 and v[0] == 'L')


def parts(v):
    if type(v) is int:
        return v, {}
    return v[1], dict(v[2])


def add(a, b, k=1):
    """a + k*b"""
    if type(a) is int and type(b) is int:
        return a + k * b
    if type(b) is int:
        return ('L', a[1] + k * b, a[2])
    c, d = parts(a)
    d = dict(d)
    d2 = b[2]
    for at, q in d2:
        d[at] = d.get(at, 0) + k * q
    return lin(c + k * b[1], d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return ('L', a[1] * k, tuple((at, q * k) for at, q in a[2]))


def atoms_in(v, out=None, deep=True):
    """All atoms of v (nested ones too)."""
    if out is None:
        out = set()
    if type(v) is tuple and v and v[0] == 'L':
        for a, _ in v[2]:
            out.add(a)
            if deep:
                for x in a[1:]:
                    atoms_in(x, out)
    return out


def map_atoms(v, f):
    """Replace atoms of a number (innermost first): f(atom) -> number or None."""
    if type(v) is int:
        return v
    c = v[1]
    out = c
    same = True
    for a, k in v[2]:
        b = map_in_atom(a, f)
        r = f(b)
        if r is None:
            r = atom(b)
            if b is not a:
                same = False
        else:
            same = False
        out = add(out, r, k)
    return v if same else out


def map_in_atom(a, f):
    ch = False
    new = []
    for x in a:
        if type(x) is tuple and x and x[0] == 'L':
            y = map_atoms(x, f)
            if y is not x and y != x:
                ch = True
            new.append(y)
        else:
            new.append(x)
    return tuple(new) if ch else a


PREF = {'x': 0, 'w': 1, 'rl': 1, 'numok': 1, 'numerr': 1, 'kq': 1, 'ch': 2, 'end': 3, 'n': 5, 'addr': 9, '#': 9}
MAXCH = 0x10FFFF


def pref(a):
    return 4 if a == ('x', 0) else PREF[a[0]]


def sooner(a, b):
    """Is a to be expressed by b, rather than b by a?"""
    p, q = pref(a), pref(b)
    if p != q:
        return p < q
    if a[0] == 'end':
        d = sub(a[2], b[2])
        if type(d) is int:
            return d > 0 or (d == 0 and a[1] > b[1])
        return type(a[2]) is tuple and (type(b[2]) is int or akey(a) > akey(b))
    return akey(a) > akey(b)


class Facts:
    __slots__ = ('sub', 'ge', 'ne', 'nost', 'occ', 'bnd', 'preds', 'memo')

    def __init__(self):
        self.sub = {}
        self.ge = ()
        self.ne = ()
        self.nost = ()      # (T, pattern, lo, hi): no occurrence starts in [lo, hi)
        self.occ = ()       # (T, pattern, q): occurs at q
        self.bnd = ()       # (T, p, True/False): is a char boundary
        self.preds = ()     # (name, number, bool)
        self.memo = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = self.sub
        f.ge = self.ge
        f.ne = self.ne
        f.nost = self.nost
        f.occ = self.occ
        f.bnd = self.bnd
        f.preds = self.preds
        f.memo = self.memo
        return f

    # ---- normal forms
    def _f(self, a):
        return self.sub.get(a)

    def norm(self, v):
        if type(v) is int or not self.sub:
            return v
        while True:
            w = map_atoms(v, self._f)
            if w == v:
                return v
            v = w
            if type(v) is int:
                return v

    def implicit_upper(self, a):
        """numbers >= 0 with a negative coefficient on a"""
        if a[0] == 'ch':
            return [('L', MAXCH, ((a, -1),))]
        if a[0] == 'w':
            c = self.norm(atom(('ch', a[1], self.norm(a[2]))))
            if type(c) is int:
                return [('L', len(chr(c).encode()), ((a, -1),))]
            if self.entails(sub(127, c), 3):
                return [('L', 1, ((a, -1),))]
            return [('L', 4, ((a, -1),)), self.norm(sub(sub(atom(('n', a[1])), a[2]), atom(a)))]
        if a[0] == 'end':
            return [lin(0, {('n', 'T'): 1, a: -1})]
        if a[0] == 'numok':
            return [('L', 1, ((a, -1),))]
        if a[0] == 'rl':
            return [self.norm(sub(sub(a[4], a[3]), atom(a)))]
        return []

    def implicit_lower(self, a):
        if a[0] == 'w':
            c = self.norm(atom(('ch', a[1], self.norm(a[2]))))
            if type(c) is int:
                return [('L', -len(chr(c).encode()), ((a, 1),))]
            if self.entails(add(c, -128), 3):
                return [('L', -2, ((a, 1),))]
            return [('L', -1, ((a, 1),))]
        return []

    def entails(self, g, depth=6):
        g = self.norm(g)
        if type(g) is int:
            return g >= 0
        neg = False
        for _, k in g[2]:
            if k < 0:
                neg = True
                break
        if not neg and g[1] >= 0:
            return True
        key = (g, depth)
        r = self.memo.get(key)
        if r is None:
            r = self.by_bounds(g)
            if not r and (r is None or self.graph()[1]):
                r = self._entails(g, min(depth, 5), frozenset())
            self.memo[key] = r
        return r

    # differences: a - b >= c as a path from b to a
    def graph(self):
        """(edges b -> {a: c} meaning a >= b + c, whether there are facts of another form)"""
        r = self.memo.get('graph')
        if r is not None:
            return r
        adj = {}
        other = False
        for f in self.ge:
            e = edge(f)
            if e is None:
                other = True
                continue
            b, a, c = e
            d = adj.setdefault(b, {})
            if d.get(a, -1 << 200) < c:
                d[a] = c
        r = self.memo['graph'] = (adj, other)
        nodes = set(adj)
        for d in adj.values():
            nodes.update(d)
        for a in nodes:
            self.implicit(a, adj)
        return r

    def implicit(self, a, adj):
        if a is None:
            return
        d = adj.setdefault(None, {})
        if d.get(a, -1) < 0:
            d[a] = 0
        k = a[0]
        if k == 'ch':
            d = adj.setdefault(a, {})
            d[None] = max(d.get(None, -1 << 200), -MAXCH)
        elif k == 'end':
            d = adj.setdefault(a, {})
            n = ('n', 'T')
            d[n] = max(d.get(n, 0), 0)
        elif k == 'w':
            d = adj.setdefault(a, {})
            for f in self.implicit_upper(a) + self.implicit_lower(a):
                if type(f) is tuple:
                    e = edge(f)
                    if e is not None:
                        g = adj.setdefault(e[0], {})
                        g[e[1]] = max(g.get(e[1], -1 << 200), e[2])

    def lower(self, b):
        """for each a the largest known c with a >= b + c"""
        r = self.memo.get(('lo', b))
        if r is not None:
            return r
        adj = self.graph()[0]
        if b is not None and b not in adj:
            adj = dict(adj)
            adj[None] = dict(adj.get(None, ()))
            self.implicit(b, adj)
        dist = {b: 0}
        todo = [b]
        n = 0
        while todo:
            u = todo.pop()
            du = dist[u]
            n += 1
            if n > 2000:
                break       # contradictory facts
            for v, c in adj.get(u, {}).items():
                x = du + c
                if x > dist.get(v, -1 << 200):
                    dist[v] = x
                    todo.append(v)
        self.memo[('lo', b)] = dist
        return dist

    def by_bounds(self, g):
        """True, False (not a consequence of the differences), or None (of another form)"""
        e = edge(g)
        if e is None:
            return None
        b, a, c = e
        lo = self.lower(b).get(a)
        if lo is None and b is None:
            lo = 0      # natural
            for f in self.implicit_lower(a) if a is not None else ():
                if type(f) is tuple and len(f[2]) == 1:
                    lo = max(lo, -f[1])
        if lo is None and a is not None:
            z = self.lower(b).get(None)
            if z is not None:
                lo = z
        return lo is not None and lo >= c

    def _entails(self, g, depth, seen):
        if type(g) is int:
            return g >= 0
        neg = [(a, k) for a, k in g[2] if k < 0]
        if not neg:
            if g[1] >= 0:
                return True
        if depth == 0 or g in seen:
            return False
        seen = seen | {g}
        if neg:
            a, k = neg[0]
            for f in self.cands(a, -1):
                m = _coef(f, a)
                if m < 0:
                    # g*(-m) - f*(-k) has no a
                    h = add(mul(g, -m), mul(f, -k), -1)
                    if self._entails(h, depth - 1, seen):
                        return True
            return False
        for a, k in g[2]:
            for f in self.cands(a, 1):
                m = _coef(f, a)
                if m > 0:
                    h = add(mul(g, m), mul(f, k), -1)
                    if self._entails(h, depth - 1, seen):
                        return True
        return False

    def cands(self, a, sign):
        if sign < 0:
            for f in self.implicit_upper(a):
                if type(f) is tuple:
                    yield f
        else:
            for f in self.implicit_lower(a):
                if type(f) is tuple:
                    yield f
        for f in self.ge:
            k = _coef(f, a)
            if k * sign > 0:
                yield f

    # ---- asserting
    def add_ge(self, l):
        l = self.norm(l)
        if type(l) is int:
            return l >= 0
        if self.entails(l):
            return True
        if self.entails(add(-1, l, -1)):
            return False
        self.ge = self.ge + (l,)
        self.memo = {}
        for m in self.ne:
            self._tighten(m)
        if self.entails(mul(l, -1)):
            # l <= 0 as well
            return self.add_eq(l)
        return True

    def _tighten(self, m):
        if self.entails(m) and not self.entails(add(m, -1)):
            self.ge = self.ge + (add(m, -1),)
            self.memo = {}
        elif self.entails(mul(m, -1)) and not self.entails(add(mul(m, -1), -1)):
            self.ge = self.ge + (add(mul(m, -1), -1),)
            self.memo = {}

    def add_ne(self, l):
        l = self.norm(l)
        if type(l) is int:
            return l != 0
        if _pos(l) not in self.ne:
            self.ne = self.ne + (_pos(l),)
        self.memo = {}
        self._tighten(l)
        return True

    def add_eq(self, l):
        l = self.norm(l)
        if type(l) is int:
            return l == 0
        if not self.feasible_eq(l):
            return False
        best = None
        for a, k in l[2]:
            if k not in (1, -1) or a[0] == 'addr' or a[0] == '#':
                continue
            rest = add(l, atom(a), -k)
            if a in atoms_in(rest):
                continue
            # among equals, do away with the later one
            if best is None or sooner(a, best[1]):
                best = (None, a, mul(rest, -k))
        if best is None:
            self.ge = self.ge + (l, mul(l, -1))
            self.memo = {}
            return True
        _, a, e = best
        s = dict(self.sub)
        if a[0] == 'end':
            self.bnd = self.bnd + (('T', e, True),)
        elif a[0] == 'w':
            self.bnd = self.bnd + ((a[1], add(a[2], e), True),)
        # what goes without saying about a has to be said about e
        own = [atom(a)] + [x for x in self.implicit_lower(a) + self.implicit_upper(a) if type(x) is tuple]
        s[a] = e
        self.sub = s
        self.memo = {}
        if not self.renorm():
            return False
        for x in own:
            x = self.norm(x)
            if type(x) is int:
                if x < 0:
                    return False
            elif not self.entails(x) and not self.add_ge(x):
                return False
        return True

    def feasible_eq(self, l):
        if _pos(l) in self.ne:
            return False
        return not (self.entails(add(l, -1)) or self.entails(add(mul(l, -1), -1)))

    def renorm(self):
        """Bring all facts to normal form after a new equality; False if contradictory."""
        ge, ne = self.ge, self.ne
        self.ge, self.ne = (), ()
        self.memo = {}
        for _ in range(20):
            s = {}
            more = []
            old = self.sub
            for a, e in old.items():
                b = map_in_atom(a, self._f) if len(a) > 2 else a
                e2 = self.norm(e)
                if b in s:
                    more.append(sub(s[b], e2))
                elif b != a and b in old:
                    more.append(sub(old[b], e2))
                else:
                    s[b] = e2
            self.sub = s
            stop = True
            for l in more:
                l = self.norm(l)
                if type(l) is int:
                    if l != 0:
                        return False
                    continue
                pick = None
                for a, k in l[2]:
                    if k in (1, -1) and a not in atoms_in(add(l, atom(a), -k)):
                        if pick is None or sooner(a, pick[0]):
                            pick = (a, k)
                if pick is None:
                    self.ge = self.ge + (l, mul(l, -1))
                    continue
                s = dict(self.sub)
                s[pick[0]] = mul(add(l, atom(pick[0]), -pick[1]), -pick[1])
                self.sub = s
                stop = False
            if stop and all(map_in_atom(a, self._f) == a for a in self.sub if len(a) > 2):
                break
        out = []
        for f in ge:
            f = self.norm(f)
            if type(f) is int:
                if f < 0:
                    return False
            elif f not in out:
                out.append(f)
        self.ge = tuple(out)
        for f in ne:
            f = self.norm(f)
            if type(f) is int:
                if f == 0:
                    return False
            elif _pos(f) not in self.ne:
                self.ne = self.ne + (_pos(f),)
        self.memo = {}
        n = self.norm
        self.nost = tuple({(t, p, n(lo), n(hi)): 1 for t, p, lo, hi in self.nost})
        self.occ = tuple({(t, p, n(q)): 1 for t, p, q in self.occ})
        b = {}
        for t, p, v in self.bnd:
            p = n(p)
            if b.setdefault((t, p), v) != v:
                return False
        self.bnd = tuple((t, p, v) for (t, p), v in b.items())
        b = {}
        for nm, p, v in self.preds:
            p = n(p)
            if b.setdefault((nm, p), v) != v:
                return False
        self.preds = tuple((t, p, v) for (t, p), v in b.items())
        for m in self.ne:
            self._tighten(m)
        return True

    # ---- deciding
    def is_ge(self, l):
        """Is l >= 0? Splits if open."""
        l = self.norm(l)
        if self.entails(l):
            return True
        neg = add(-1, l, -1)
        if self.entails(neg):
            return False
        raise Split([lambda f: f.add_ge(l), lambda f: f.add_ge(neg)], ('ge', l))

    def is_eq(self, l):
        l = self.norm(l)
        if type(l) is int:
            return l == 0
        r = self.eq_known(l)
        if r is not None:
            return r
        raise Split([lambda f: f.add_eq(l), lambda f: f.add_ne(l)], ('eq', l))

    def eq_known(self, l):
        l = self.norm(l)
        if type(l) is int:
            return l == 0
        a = self.entails(l)
        b = self.entails(mul(l, -1))
        if a and b:
            return True
        if self.entails(add(l, -1)) or self.entails(add(mul(l, -1), -1)):
            return False
        if _pos(l) in self.ne:
            return False
        d = [a2 for a2, _ in l[2]]
        if all(x[0] == 'addr' for x in d):
            return False
        # ch(p) == k, where k is known not to occur around p
        if len(l[2]) == 1 and l[2][0][0][0] == 'ch' and abs(l[2][0][1]) == 1:
            at = l[2][0][0]
            k = -l[1] * l[2][0][1]
            p = at[2]
            for t, pat, lo, hi in self.nost:
                if t != at[1] or pat[0] != 'lit':
                    continue
                bs = pat[1]
                for j, c in enumerate(bs):
                    if c != k:
                        continue
                    # occurrence would start at p-j
                    if self.entails(sub(add(p, -j), lo)) and self.entails(add(sub(hi, add(p, -j)), -1)):
                        if all(i == j or self.norm(atom(('ch', t, self.norm(add(p, i - j))))) == b
                               for i, b in enumerate(bs)):
                            return False
        return None

    # ---- text
    def ch(self, t, p):
        if t != 'T' and t[0] in ('cat', 'fmt', 'char', 'dec', 'disp'):
            raise Unsupported('character of a text put together')
        return self.norm(atom(('ch', t, self.norm(p))))

    def boundary(self, t, p, ends):
        """Is p a char boundary of t? True/False/None"""
        p = self.norm(p)
        if p == 0 or p == self.norm(atom(('n', t))):
            return True
        for t2, q, v in self.bnd:
            if t2 == t and self.norm(q) == p:
                return v
        if type(p) is tuple and p[1] == 0 and len(p[2]) == 1 and p[2][0][1] == 1:
            a = p[2][0][0]
            if a[0] == 'end':
                return True
        # just after an ascii byte, or at one
        for q in (p, add(p, -1)):
            if type(q) is int and q < 0:
                continue
            c = self.ch(t, q)
            if self.entails(sub(127, c)) and self.entails(q):
                return True
        for k in (2, 3, 4):
            q = self.norm(add(p, -k))
            if type(q) is int and q < 0:
                continue
            c = self.ch(t, q)
            if type(c) is int and 127 < c < 0x110000 and len(chr(c).encode()) == k:
                return True
        # just after a character that starts at a boundary
        if type(p) is tuple:
            for a, k in p[2]:
                if a[0] == 'w' and k == 1 and a[1] == t and self.norm(add(a[2], atom(a))) == p:
                    return True
        return None

    def is_boundary(self, t, p):
        r = self.boundary(t, p, None)
        if r is not None:
            return r
        p = self.norm(p)

        def put(v):
            def g(f):
                f.bnd = f.bnd + ((t, p, v),)
                return True
            return g
        raise Split([put(True), put(False)], ('boundary', t, p))

    def pred(self, name, c):
        c = self.norm(c)
        for n, p, v in self.preds:
            if n == name and self.norm(p) == c:
                return v

        def put(v):
            def g(f):
                f.preds = f.preds + ((name, c, v),)
                return True
            return g
        raise Split([put(True), put(False)], ('pred', name, c))

    def all_nums(self):
        for f in self.ge:
            yield f
        for f in self.ne:
            yield f


def edge(f):
    """f >= 0 as (b, a, c): a >= b + c, where None is zero; or None"""
    it = f[2]
    if len(it) == 1:
        a, k = it[0]
        if k == 1:
            return None, a, -f[1]
        if k == -1:
            return a, None, -f[1]
        return None
    if len(it) == 2:
        (a, k), (b, m) = it
        if k == 1 and m == -1:
            return b, a, -f[1]
        if k == -1 and m == 1:
            return a, b, -f[1]
    return None


def _coef(f, a):
    for b, k in f[2]:
        if b == a:
            return k
    return 0


def _pos(l):
    return l if l[2][0][1] > 0 else mul(l, -1)


