"""Abstract values (tuples) and what can be done to them structurally.

  int / ('L',…)                 number (also char)
  True/False                    bool
  ('A', variant, fields)        struct, enum, tuple, closure
  ('R', addr, path)             thin pointer/reference/box
  ('SL', addr, path, lo, hi)    slice reference
  ('D', ref, type)              reference to a dyn value of the given type
  ('S', text, lo, hi)           &str;   ('SB', …) its bytes
  ('str', text, lo, hi)         String
  ('F', fn)                     function
  ('seq', items)                array or Vec; item = ('i', v) | ('seg', template, lo, hi)
  ('h', leaf, ix, lo, pos, hi)  a match of a leaf (offsets relative to lo)
  ('val', leaf, ix, j)          its j-th value
  ('app', f, args…)             the result of a user function
  anything else: ('tag', children…), children walked generically
Texts: 'T' (the input), ('lit', bytes), ('cat', parts).
"""
from dom import *

UNIT = ('A', 0, ())
NONE = ('A', 0, ())


def some(v):
    return ('A', 1, (v,))


def ok(v):
    return ('A', 0, (v,))


def err(v):
    return ('A', 1, (v,))


def tup(*v):
    return ('A', 0, tuple(v))


def vmap(v, f):
    """Apply f to every number inside v."""
    t = type(v)
    if t is int:
        return f(v)
    if t is not tuple:
        return v
    if not v:
        return v
    k = v[0]
    if k == 'L':
        return f(v)
    if k == 'A':
        return ('A', v[1], tuple(vmap(x, f) for x in v[2]))
    if k == 'R':
        if not v[2]:
            return v
        return ('R', v[1], pmap(v[2], f))
    if k == 'SL':
        return ('SL', v[1], pmap(v[2], f), f(v[3]), f(v[4]))
    if k == 'D':
        return ('D', vmap(v[1], f), v[2])
    if k == 'F':
        return v
    if k in ('S', 'SB', 'str'):
        return (k, tmap(v[1], f), f(v[2]), f(v[3]))
    if k == 'seq':
        return ('seq', tuple(imap(x, f) for x in v[1]))
    if k == 'h':
        return ('h', v[1]) + tuple(f(x) for x in v[2:])
    if k == 'val':
        return ('val', v[1], f(v[2]), v[3])
    if k == 'lit':
        return v
    if k == 'app':
        return ('app', v[1]) + tuple(vmap(x, f) for x in v[2:])
    return (k,) + tuple(vmap(x, f) for x in v[1:])


def tmap(t, f):
    if t == 'T' or t[0] == 'lit':
        return t
    return (t[0],) + tuple(vmap(x, f) for x in t[1:])


def pmap(p, f):
    return tuple(('ix', f(e[1])) if type(e) is tuple else e for e in p)


def imap(x, f):
    if x[0] == 'i':
        return ('i', vmap(x[1], f))
    return ('seg', vmap(x[1], f), f(x[2]), f(x[3]))


HASH = ('#',)


def inst(tmpl, ix):
    """The element of a run at position ix."""
    def g(a):
        return ix if a == HASH else None
    return vmap(tmpl, lambda n: map_atoms(n, g))


def gen_num(a, b, p):
    """f(#) with f(p) = a, f(p+1) = b, or None"""
    if a == b:
        return a
    d = sub(b, a)
    off = sub(atom(HASH), p)
    if type(d) is int:
        return add(a, mul(off, d))
    if type(a) is tuple and type(b) is tuple and a[1] == b[1] and len(a[2]) == len(b[2]):
        out = a[1]
        for (x, k), (y, m) in zip(a[2], b[2]):
            if k != m or x[0] != y[0] or len(x) != len(y):
                return None
            at = [x[0]]
            for u, w in zip(x[1:], y[1:]):
                if u == w:
                    at.append(u)
                elif isnum(u) and isnum(w) and x[0] not in ('x', 'addr'):
                    if x[0] == 'end' and len(at) == 1:
                        return None     # different leaves
                    g = gen_num(u, w, p)
                    if g is None:
                        return None
                    at.append(g)
                else:
                    return None
            out = add(out, atom(tuple(at)), k)
        return out
    return None


def gen_val(a, b, p):
    """A template for two consecutive elements, or None."""
    na, nb = [], []
    sa = vmap(a, lambda n: na.append(n) or 0)
    sb = vmap(b, lambda n: nb.append(n) or 0)
    if sa != sb or len(na) != len(nb):
        return None
    g = []
    for x, y in zip(na, nb):
        z = gen_num(x, y, p)
        if z is None:
            return None
        g.append(z)
    it = iter(g)
    return vmap(a, lambda n: next(it))


def has_seg(v):
    if type(v) is not tuple or not v:
        return False
    if v[0] == 'seg':
        return True
    return any(has_seg(x) for x in v if type(x) is tuple)


def seq_len(items):
    n = 0
    for x in items:
        n = add(n, 1) if x[0] == 'i' else add(n, sub(x[3], x[2]))
    return n


def fold(items, keep, norm):
    """Gather all but the last `keep` elements into runs, where they form runs."""
    out = []
    pos = 0
    items = list(items)
    n = len(items)
    i = 0
    while i < n:
        x = items[i]
        if x[0] == 'seg':
            # take in elements just before, split off earlier
            while out and out[-1][0] == 'i' and not has_seg(x[1]):
                lo = norm(add(x[2], -1))
                if norm(sub(lo, add(pos, -1))) != 0 or vmap(inst(x[1], lo), norm) != vmap(out[-1][1], norm):
                    break
                x = ('seg', x[1], lo, x[3])
                out.pop()
                pos = norm(add(pos, -1))
            # merge with a run just before
            if out and out[-1][0] == 'seg' and out[-1][3] == x[2] and inst(out[-1][1], x[2]) == inst(x[1], x[2]) \
                    and out[-1][1] == x[1]:
                out[-1] = ('seg', x[1], out[-1][2], x[3])
            else:
                out.append(x)
            pos = norm(add(pos, sub(x[3], x[2])))
            i += 1
            continue
        left = n - i
        if left > keep and out and out[-1][0] == 'seg' and out[-1][3] == pos \
                and vmap(inst(out[-1][1], pos), norm) == x[1]:
            s = out[-1]
            out[-1] = ('seg', s[1], s[2], norm(add(pos, 1)))
            pos = norm(add(pos, 1))
            i += 1
            continue
        if left > keep + 1 and items[i + 1][0] == 'i' and not has_seg(x[1]):
            t = gen_val(x[1], items[i + 1][1], pos)
            if t is not None and i + 2 < n and items[i + 2][0] == 'i' \
                    and vmap(inst(t, add(pos, 2)), norm) == items[i + 2][1]:
                out.append(('seg', t, pos, norm(add(pos, 2))))
                pos = norm(add(pos, 2))
                i += 2
                continue
        out.append(x)
        pos = norm(add(pos, 1))
        i += 1
    return tuple(out)
