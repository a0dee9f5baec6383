"""Maps and sets: what is put in, in order.

  ('coll', kind, ('seq', entries))   an entry of a map is a pair, of a set a key; ('first', entry)
                                     is only kept where the key is not there yet
Keys are arbitrary values: which of them are equal is open, unless the code asks.
"""
from dom import *
from values import *
import models
from models import M, model, deref, norm

MAPS = ('HashMap', 'BTreeMap')
SETS = ('HashSet', 'BTreeSet')
KINDS = MAPS + SETS


def empty(h):
    return ('coll', h, ('seq', ()))


def get(m, st, p):
    v = m.load(st, p)
    while v[0] == 'R':
        p = v
        v = m.load(st, p)
    if v[0] != 'coll':
        raise Unsupported('not a collection: ' + str(v[0]))
    return p, v


def put(m, st, p, v, x):
    m.store(st, p, ('coll', v[1], ('seq', v[2][1] + (('i', x),))))


def key(kind, x):
    if x[0] == 'first':
        x = x[1]
    return x[2][0] if kind in MAPS else x


def item(x):
    return x[1] if x[0] == 'first' else x


def name_of(f, a, b):
    """How the question whether two keys are equal is written down."""
    if a[0] != 'val' or b[0] != 'val':
        raise Unsupported('equality of keys')
    x, y = (a[1], a[3], f.norm(a[2])), (b[1], b[3], f.norm(b[2]))
    if repr(y) < repr(x):
        x, y = y, x
    return 'keq:%s.%s:%s.%s' % (x[0], x[1], y[0], y[1]), atom(('kq', x[2], y[2]))


def known(f, a, b):
    """Are two keys equal? True, False or None"""
    if isnum(a) and isnum(b):
        return f.is_eq(sub(a, b))
    if vmap(a, f.norm) == vmap(b, f.norm):
        return True
    n, c = name_of(f, a, b)
    for q, p, v in f.preds:
        if q == n and f.norm(p) == c:
            return v
    return None


def equal(st, a, b):
    r = known(st.facts, a, b)
    if r is None:
        n, c = name_of(st.facts, a, b)
        r = st.facts.pred(n, c)
    return r


def entries(st, v):
    out = []
    for x in models.tidy(st, v[2][1]):
        if x[0] == 'seg':
            if st.facts.is_eq(sub(x[3], x[2])):
                continue
            raise Unsupported('looking up a key among many')
        out.append(x[1])
    return out


def looked_at(m, st, th):
    """May the result of the current call be looked at? Not if it is only assigned."""
    fr = st.thr[th][-1]
    bbs = m.p.fns[fr.fn]['body']['bb']
    t = bbs[fr.bb]['t']
    if t[0] != 'call' or t[3][1]:
        return True
    n = t[3][0]

    def mention(x):
        if type(x) is dict:
            return any(mention(y) for y in x.values())
        if type(x) is not list:
            return False
        if len(x) == 2 and type(x[0]) is int and type(x[1]) is list and x[0] == n:
            return True
        return any(mention(y) for y in x)
    if n == 0:
        return True
    for bb in bbs:
        if any(mention(x) for x in bb['s']):
            return True
        u = bb['t']
        if u[0] == 'call' and u[3] == t[3]:
            u = u[:3] + u[4:]
        if u[0] != 'drop' and mention(u):
            return True
    return False


def find(st, v, k):
    """The entry there is for a key (the last one put in that counts), or None"""
    r = None
    for e in entries(st, v):
        if equal(st, key(v[1], e), k) and (r is None or e[0] != 'first'):
            r = e
    return r


def ins(m, st, th, p, k, x):
    p, v = get(m, st, p)
    old = find(st, v, k) if looked_at(m, st, th) else None
    put(m, st, p, v, x)
    return old


@model('HashMap::new', 'HashMap.Default::default', 'BTreeMap::new', 'HashMap::with_capacity', 'BTreeMap.Default::default',
       'HashMap::with_capacity_and_hasher', 'HashMap::with_hasher')
def map_new(m, st, th, fn, a, dest, target):
    ty = m.ty(fn['self'])
    ks = ty['args']
    if ks and m.ty(ks[0])['k'] in ('int', 'char'):
        return ('map', ('A', 0, ()))
    return empty(m.head(fn['self']))


@model('HashSet::new', 'HashSet.Default::default', 'BTreeSet::new', 'HashSet::with_capacity', 'BTreeSet.Default::default',
       'HashSet::with_capacity_and_hasher', 'HashSet::with_hasher')
def set_new(m, st, th, fn, a, dest, target):
    return empty(m.head(fn['self']))


def on_coll(m, st, p):
    while p[0] == 'R':
        p = m.load(st, p)
    return p[0] == 'coll'


def over(*names):
    """A model for ('coll', ...) values, in front of the one for maps with numbers as keys."""
    def d(f):
        for n in names:
            before = M.get(n)

            def g(m, st, th, fn, a, dest, target, before=before):
                if on_coll(m, st, a[0]):
                    return f(m, st, th, fn, a, dest, target)
                return before(m, st, th, fn, a, dest, target) if before else NotImplemented
            M[n] = g
        return f
    return d


@over('HashMap::insert', 'BTreeMap::insert')
def map_insert(m, st, th, fn, a, dest, target):
    old = ins(m, st, th, a[0], a[1], tup(a[1], a[2]))
    return NONE if old is None else some(item(old)[2][1])


@over('HashSet::insert', 'BTreeSet::insert', 'HashSet::replace', 'BTreeSet::replace')
def set_insert(m, st, th, fn, a, dest, target):
    old = ins(m, st, th, a[0], a[1], a[1])
    if fn['path'].endswith('replace'):
        return NONE if old is None else some(item(old))
    return old is None


@over('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def has_key(m, st, th, fn, a, dest, target):
    p, v = get(m, st, a[0])
    k = a[1]
    while k[0] == 'R':
        k = m.load(st, k)
    return find(st, v, k) is not None


@over('HashMap::entry', 'BTreeMap::entry')
def entry(m, st, th, fn, a, dest, target):
    p, v = get(m, st, a[0])
    return ('entry', p, a[1])


@model('Entry::or_insert')
def or_insert(m, st, th, fn, a, dest, target):
    e = a[0]
    if e[0] != 'entry':
        return NotImplemented
    if looked_at(m, st, th):
        raise Unsupported('a reference into a map')
    p, v = get(m, st, e[1])
    put(m, st, p, v, ('first', tup(e[2], a[1])))
    return ('R', st.alloc(a[1])[1], ())


@over('HashMap::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len')
def coll_len(m, st, th, fn, a, dest, target):
    p, v = get(m, st, a[0])
    es = entries(st, v)
    return sum(1 for i, e in enumerate(es) if not any(equal(st, key(v[1], q), key(v[1], e)) for q in es[:i]))


@over('HashMap::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def coll_is_empty(m, st, th, fn, a, dest, target):
    p, v = get(m, st, a[0])
    return st.facts.is_eq(seq_len(v[2][1]))


@over('HashMap::reserve', 'HashSet::reserve', 'HashMap::shrink_to_fit', 'HashSet::shrink_to_fit')
def coll_reserve(m, st, th, fn, a, dest, target):
    return UNIT


@over('HashMap::clear', 'BTreeMap::clear', 'HashSet::clear', 'BTreeSet::clear')
def coll_clear(m, st, th, fn, a, dest, target):
    p, v = get(m, st, a[0])
    m.store(st, p, empty(v[1]))
    return UNIT


@over('HashMap.Clone::clone', 'BTreeMap.Clone::clone', 'HashSet.Clone::clone', 'BTreeSet.Clone::clone')
def coll_clone(m, st, th, fn, a, dest, target):
    return get(m, st, a[0])[1]


# ------------------------------------------------------------------ comparing
def contents(kind, es, eq):
    """What a collection holds after the insertions, if eq(a, b) says which keys are equal."""
    out = []
    for e in es:
        k = key(kind, e)
        for x in out:
            if eq(x[0], k):
                if kind in MAPS and e[0] != 'first':
                    x[1] = e[2][1]
                break
        else:
            out.append([k, item(e)[2][1] if kind in MAPS else None])
    return out


def agree(c, d, eq):
    """None, or what is different"""
    for x in c:
        y = [y for y in d if eq(x[0], y[0])]
        if not y:
            return 'holds %s' % (x[0],), 'extra'
        if x[1] != y[0][1]:
            return x[0], 'value'
    for y in d:
        if not any(eq(x[0], y[0]) for x in c):
            return y[0], 'missing'
    return None


def differ(st, kind, a, b):
    """Two logs (concrete entries): None if the same collection whatever keys are equal, else a reason."""
    f = st.facts
    a = [vmap(x, f.norm) for x in a]
    b = [vmap(x, f.norm) for x in b]
    keys = []
    for x in a + b:
        k = key(kind, x)
        if k not in keys:
            keys.append(k)
    known_eq = [(x, y) for i, x in enumerate(keys) for y in keys[:i] if known(f, x, y)]
    known_ne = [(x, y) for i, x in enumerate(keys) for y in keys[:i] if known(f, x, y) is False]

    def classes(extra):
        root = {k: k for k in keys}

        def top(k):
            while root[k] != k:
                k = root[k]
            return k
        for x, y in known_eq + extra:
            root[top(x)] = top(y)
        if any(top(x) == top(y) for x, y in known_ne):
            return None
        return lambda x, y: top(x) == top(y)
    open_ = [(x, y) for i, x in enumerate(keys) for y in keys[:i] if known(f, x, y) is None]
    for extra in [[]] + [[p] for p in open_]:
        eq = classes(extra)
        if eq is None:
            continue
        r = agree(contents(kind, a, eq), contents(kind, b, eq), eq)
        if r:
            return r[1] + (' (with two equal keys)' if extra else '')
    return None
