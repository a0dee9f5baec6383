"""The product of the library's code and the reference, to a fixpoint."""
import time
from collections import deque
from dom import *
from values import *
from interp import *
import models
import nums as nums_model
import colls
import counts
import concrete

EV = {}


def event(*names):
    def d(f):
        for n in names:
            EV['sym::' + n] = f
        return f
    return d


def pend(m, st, th, f, args, dest, target):
    name = f['path'].split('::')[-1]
    if name.startswith('rf_'):
        name = 'ev_' + name[3:]
    rty = f['args'][0] if f['args'] else None
    st.pend[th] = Event(name, tuple(args), dest, target, rty, m.blame(st, th))
    return 'event'


for n in ('ev_start', 'rf_start', 'ev_back', 'ev_conv', 'ev_failpos', 'ev_backpos', 'choose', 'hs_start', 'hs_back',
          'hs_conv', 'hs_parse', 'ev_parse', 'obs_fail', 'obs_match', 'obs_value', 'obs_err', 'obs_parse_error', 'obs_no_error', 'obs_tail'):
    EV['sym::' + n] = pend


def uf(m, st, th, f, args, dest, target):
    st.pend[th] = Event('uf', (f['path'].split('::')[-1],) + tuple(args), dest, target, None, m.blame(st, th))
    return 'event'


EV['uf'] = uf
EV['sym::rx_find'] = nums_model.rx_find


@event('any_str')
def any_str(m, st, th, f, args, dest, target):
    return m.ret(st, th, ('S', 'T', 0, atom(('n', 'T'))), dest, target)


@event('some_text')
def some_text(m, st, th, f, args, dest, target):
    t = ('disp', 'some text', 0, -1)
    return m.ret(st, th, ('S', t, 0, atom(('n', t))), dest, target)


@event('formatter')
def formatter(m, st, th, f, args, dest, target):
    return m.ret(st, th, st.alloc(('fmtr', args[0])), dest, target)


@event('any_start')
def any_start(m, st, th, f, args, dest, target):
    return m.ret(st, th, atom(('x', 0)), dest, target)


@event('note')
def note(m, st, th, f, args, dest, target):
    s = args[0]
    st.note = s[1][1].decode()
    return m.ret(st, th, UNIT, dest, target)


def handle(m, st, p):
    while p[0] == 'R':
        p = st.get(p[1], p[2])
    if p[0] != 'h':
        raise Unsupported('not a match: ' + repr(p)[:60])
    return p


def touch(st, h):
    f = st.facts
    e = f.norm(atom(('end', h[1], h[2])))
    f.add_ge(sub(e, h[4]))
    f.add_ge(sub(h[5], e))
    return e


@event('ev_end')
def ev_end(m, st, th, f, args, dest, target):
    h = handle(m, st, args[0])
    return m.ret(st, th, st.facts.norm(sub(touch(st, h), h[3])), dest, target)


@models.model('unused')
def _(*a):
    pass


EV['model::coll_new'] = lambda m, st, th, f, args, dest, target: m.ret(st, th, new_coll(m, f['args'][0]), dest, target)


def new_coll(m, t):
    h = m.head(t)
    if h in ('Vec', 'VecDeque'):
        return ('seq', ())
    if h in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return colls.empty(h)
    if h == 'String':
        return ('str', ('lit', b''), 0, 0)
    raise Unsupported('collecting into ' + m.p.tn(t))


def coll_push(m, st, th, f, args, dest, target):
    v = m.load(st, args[0])
    if v[0] == 'seq':
        m.store(st, args[0], ('seq', v[1] + (('i', args[1]),)))
    elif v[0] == 'coll':
        m.store(st, args[0], ('coll', v[1], ('seq', v[2][1] + (('i', args[1]),))))
    elif v[0] == 'str':
        models.push_char(m, st, th, f, args, dest, target)
    else:
        raise Unsupported('collecting into ' + v[0])
    return m.ret(st, th, UNIT, dest, target)


EV['model::coll_push'] = coll_push


# ------------------------------------------------------------------ comparing values
def deep(m, st, v):
    """A value as compared: what references point to instead of the references."""
    return v


class Differ(Exception):
    pass


def same(m, st, a, b, path=''):
    """Structural equality of a value of the code and one of the reference; raises Differ or Split."""
    f = st.facts
    if isnum(a) and isnum(b):
        if not f.is_eq(sub(a, b)):
            raise Differ('%s: %s instead of %s' % (path or 'value', show(f.norm(a)), show(f.norm(b))))
        return
    if type(a) is bool or type(b) is bool:
        if a is not b:
            raise Differ('%s: %s instead of %s' % (path or 'value', a, b))
        return
    if type(a) is not tuple or type(b) is not tuple:
        raise Differ('%s: %s instead of %s' % (path, show(a), show(b)))
    if a[0] in ('S', 'str') and b[0] in ('S', 'str'):
        if not models.same_text(m, st, ('S',) + a[1:], ('S',) + b[1:]):
            raise Differ('%s: other text' % (path or 'value'))
        return
    if a[0] == 'R' and b[0] == 'R' and a != b:
        same(m, st, m.load(st, a), m.load(st, b), path)
        return
    if a[0] != b[0]:
        raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
    k = a[0]
    if k == 'A':
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            same(m, st, x, y, path + '.%d' % i)
        return
    if k == 'seq':
        same_seq(m, st, a[1], b[1], path)
        return
    if k == 'coll':
        if a[1] != b[1]:
            raise Differ('%s: %s instead of %s' % (path or 'value', a[1], b[1]))
        same_coll(m, st, a, b, path)
        return
    if k in ('h', 'val'):
        if a[1] != b[1] or (k == 'val' and a[3] != b[3]):
            raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
        if not f.is_eq(sub(a[2], b[2])):
            raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
        return
    if k == 'F':
        if a != b:
            raise Differ('%s: another function' % path)
        return
    if len(a) != len(b):
        raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
    for x, y in zip(a[1:], b[1:]):
        if type(x) is str or type(x) is bytes or type(y) is str:
            if x != y:
                raise Differ('%s: %s instead of %s' % (path or 'value', show(a), show(b)))
        else:
            same(m, st, x, y, path)


def same_coll(m, st, a, b, path):
    try:
        same_seq(m, st, a[2][1], b[2][1], path)
        return
    except Differ as d:
        why = d
    x, y = [models.tidy(st, v[2][1]) for v in (a, b)]
    if all(e[0] == 'i' for e in x + y):
        r = colls.differ(st, a[1], [e[1] for e in x], [e[1] for e in y])
        if r:
            raise Differ('%s: %s: %s' % (path or 'value', a[1], r + ', ' + str(why)))
        return
    raise Unsupported('comparison of collections put together in other ways (%s)' % why)


def same_seq(m, st, a, b, path):
    f = st.facts
    a, b = list(tidy(st, a)), list(tidy(st, b))
    if not f.is_eq(sub(seq_len(a), seq_len(b))):
        raise Differ('%s: another number of elements' % (path or 'value'))
    pos = 0
    for _ in range(40 + 4 * (len(a) + len(b))):
        if not a and not b:
            return
        if not a or not b:
            rest = a or b
            x = rest[0]
            if x[0] == 'seg' and f.is_eq(sub(x[3], x[2])):
                rest.pop(0)
                continue
            raise Differ('%s: another number of elements' % path)
        x, y = a[0], b[0]
        if x[0] == 'i' and y[0] == 'i':
            same(m, st, x[1], y[1], path + '[%s]' % show(pos))
            a.pop(0)
            b.pop(0)
            pos = f.norm(add(pos, 1))
            continue
        done = False
        for u, v in ((a, b), (b, a)):
            x, y = u[0], v[0]
            if x[0] == 'seg' and y[0] == 'i':
                if f.is_eq(sub(x[3], x[2])):
                    u.pop(0)
                else:
                    u[0] = ('i', vmap(inst(x[1], x[2]), f.norm))
                    u.insert(1, ('seg', x[1], f.norm(add(x[2], 1)), x[3]))
                done = True
                break
        if done:
            continue
        x, y = a[0], b[0]
        # two runs: compare a common part
        if f.is_eq(sub(x[3], x[2])):
            a.pop(0)
            continue
        if f.is_eq(sub(y[3], y[2])):
            b.pop(0)
            continue
        if vmap(x[1], f.norm) != vmap(y[1], f.norm):
            raise Differ('%s: the elements %s instead of %s' % (path or 'value', show(x[1]), show(y[1])))
        if f.is_ge(sub(y[3], x[3])):
            rest = None if f.is_eq(sub(y[3], x[3])) else ('seg', y[1], x[3], y[3])
            pos = x[3]
            a.pop(0)
            b.pop(0)
            if rest:
                b.insert(0, rest)
        else:
            rest = ('seg', x[1], y[3], x[3])
            pos = y[3]
            a.pop(0)
            b.pop(0)
            a.insert(0, rest)
    raise Unsupported('comparison of lists: %s' % ([show(('seq', tuple(x))) for x in (a, b)],))


def show(v, d=0):
    if d > 6:
        return '…'
    if type(v) is int or type(v) is bool:
        return str(v)
    if type(v) is not tuple or not v:
        return str(v)
    k = v[0]
    if k == 'L':
        out = []
        for a, c in v[2]:
            n = {'x': lambda: 'x%s' % a[1], 'n': lambda: 'len', 'end': lambda: 'end(%s%s)' % (a[1], '' if a[2] == 0 else '#' + show(a[2], d + 1)),
                 'ch': lambda: 'char@' + show(a[2], d + 1), 'w': lambda: 'width@' + show(a[2], d + 1), '#': lambda: '#',
                 'rl': lambda: 'extent@' + show(a[3], d + 1)}.get(a[0], lambda: str(a))()
            out.append(('+' if c == 1 else '-' if c == -1 else '%+d*' % c) + n)
        if v[1]:
            out.append('%+d' % v[1])
        s = ''.join(out)
        return s[1:] if s[0] == '+' else s
    if k == 'A':
        return '#%d(%s)' % (v[1], ', '.join(show(x, d + 1) for x in v[2])) if v[1] else '(%s)' % ', '.join(show(x, d + 1) for x in v[2])
    if k in ('S', 'str', 'SB'):
        if v[1] != 'T' and v[1][0] == 'lit':
            return repr(v[1][1][v[2]:v[3]])[1:] if type(v[2]) is int and type(v[3]) is int else 'lit'
        t = 'text' if v[1] == 'T' else show(v[1], d + 1)
        return '%s[%s..%s]' % (t, show(v[2], d + 1), show(v[3], d + 1))
    if k == 'val':
        return 'value %d of leaf %s%s' % (v[3], v[1], '' if v[2] == 0 else ' round ' + show(v[2], d + 1))
    if k == 'seq':
        return '[%s]' % ', '.join(show(x[1], d + 1) if x[0] == 'i' else '%s for # in %s..%s' % (show(x[1], d + 1), show(x[2]), show(x[3])) for x in v[1])
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in v[1:]))


def show_event(st, e):
    f = st.facts
    a = []
    for x in e.args:
        a.append(show(vmap(x, f.norm)) if type(x) is tuple or isnum(x) else str(x))
    return '%s(%s)' % (e.kind, ', '.join(a))


# ------------------------------------------------------------------ synchronising
def resume(m, st, th, v):
    e = st.pend[th]
    st.pend[th] = None
    m.ret(st, th, v, e.dest, e.target)


def mapstate(st, g):
    """Apply g to every number of the state's memory and control."""
    for k in list(st.mem):
        v = st.mem[k]
        w = vmap(v, g)
        if w is not v:
            st.mem[k] = w
    for t in st.thr:
        for fr in t:
            if fr.dest is not None:
                fr.dest = vmap(fr.dest, g)
    for i, e in enumerate(st.pend):
        if e is not None:
            st.pend[i] = Event(e.kind, tuple(vmap(x, g) for x in e.args), vmap(e.dest, g) if e.dest else e.dest, e.target, e.rty, e.where)


def normalise(st):
    if st.facts.sub:
        mapstate(st, st.facts.norm)


def rename(st, at, num):
    """Replace an atom everywhere."""
    normalise(st)
    f = st.facts
    if at in f.sub:
        s = dict(f.sub)
        del s[at]
        f.sub = s
        f.memo = {}
    # other facts may still speak about it
    def r(a):
        return num if a == at else None

    def g(n):
        return map_atoms(n, r)
    mapstate(st, g)
    f.sub = {map_in_atom(a, r): g(e) for a, e in f.sub.items()}
    f.ge = tuple(g(x) for x in f.ge)
    f.ne = tuple(g(x) for x in f.ne)
    f.nost = tuple((t, p, g(a), g(b)) for t, p, a, b in f.nost)
    f.occ = tuple((t, p, g(a)) for t, p, a in f.occ)
    f.bnd = tuple((t, g(p), v) for t, p, v in f.bnd)
    f.preds = tuple((n, g(p), v) for n, p, v in f.preds)
    f.memo = {}
    f.renorm()


def mismatch(kind, what, where):
    raise Stop(Finding(kind, what, where))


def sync(m, st):
    """Both threads wait. Returns successor states. Raises Split, Stop."""
    a, b = st.pend
    f = st.facts
    if a.kind == 'obs_parse_error' and b.kind == 'obs_err':
        return sync_error(m, st, a, b)
    if a.kind != b.kind:
        mismatch('%s/%s' % (a.kind, b.kind), 'the code comes to %s, where the reference comes to %s' % (show_event(st, a), show_event(st, b)), a.where)
    k = a.kind
    st.log(show_event(st, b) + (' [%s]' % st.note if st.note else ''))
    st.hist = ()
    st.lanc = ()
    st.seen = frozenset()
    st.steps = 0
    if k == 'done':
        return []
    if k == 'uf':
        if a.args[0] != b.args[0]:
            mismatch('uf/uf', 'the code evaluates %s, the reference %s' % (a.args[0], b.args[0]), a.where)
        for x, y in zip(a.args[1:], b.args[1:]):
            try:
                same(m, st, x, y)
            except Differ as d:
                mismatch('uf-arg', 'argument of %s: %s' % (a.args[0], d), a.where)
        r = ('app', a.args[0]) + tuple(b.args[1:])
        resume(m, st, 0, r)
        resume(m, st, 1, r)
        return [st]
    if k == 'ev_parse':
        x, y = models.text_of(m, st, a.args[0]), models.text_of(m, st, b.args[0])
        if not models.same_text(m, st, x, y):
            mismatch('start-text', 'parses the text %s instead of %s' % (show(vmap(x, f.norm)), show(vmap(y, f.norm))), a.where)
        no = st.copy()
        ln = sub(y[3], y[2])
        at = no.fresh()
        no.facts.add_ge(sub(ln, at))
        no.log('  parse() fails at %s' % show(at))
        e = err(parse_error(m, a.rty, y, at))
        resume(m, no, 0, e)
        resume(m, no, 1, e)
        v = ok(('val', 1, 0, 0))
        resume(m, st, 0, v)
        resume(m, st, 1, v)
        return [st, no]
    if k == 'ev_start':
        n = a.args[0]
        if n != b.args[0]:
            mismatch('start/start', 'the code starts leaf %s, the reference leaf %s' % (n, b.args[0]), a.where)
        check_text(m, st, a, b, 'leaf %s' % n)
        ix = f.norm(b.args[3]) if len(b.args) > 3 else 0
        # an earlier match of the same name is out of date now
        retire(st, n, ix)
        a, b = st.pend
        f = st.facts
        s = b.args[1]
        lo, pos, hi = f.norm(s[2]), f.norm(add(s[2], b.args[2])), f.norm(s[3])
        no = st.copy()
        no.log('  leaf %s fails' % n)
        resume(m, no, 0, NONE)
        resume(m, no, 1, NONE)
        h = ('h', n, ix, lo, pos, hi)
        e = atom(('end', n, ix))
        st.log('  leaf %s matches' % n)
        st.facts.add_ge(sub(e, pos))
        st.facts.add_ge(sub(hi, e))
        resume(m, st, 0, some(h))
        resume(m, st, 1, some(h))
        return [no, st]
    if k == 'ev_back':
        h, g = handle(m, st, a.args[0]), handle(m, st, b.args[0])
        same_handle(m, st, h, g, 'back/back', 'asks for another match of', a)
        no = st.copy()
        no.log('  no other match')
        resume(m, no, 0, False)
        resume(m, no, 1, False)
        if type(g[1]) is int and g[1] > 50:
            return [no]     # a leaf with at most one match
        e = ('end', g[1], f.norm(g[2]))
        rename(st, e, st.fresh())
        h = handle(m, st, st.pend[1].args[0])
        touch(st, h)
        st.log('  another match')
        resume(m, st, 0, True)
        resume(m, st, 1, True)
        return [st, no]
    if k == 'ev_conv':
        h, g = handle(m, st, a.args[0]), handle(m, st, b.args[0])
        same_handle(m, st, h, g, 'conv/conv', 'converts', a)
        cnt = [0]

        def mk(t):
            ty = m.ty(t)
            if ty['k'] == 'tuple':
                return ('A', 0, tuple(mk(x) for x in ty['v']))
            if m.head(t) == 'V':
                cnt[0] += 1
                return ('val', g[1], f.norm(g[2]), cnt[0] - 1)
            raise Unsupported('leaf value type')
        v = mk(b.rty)
        resume(m, st, 0, v)
        resume(m, st, 1, v)
        return [st]
    if k in ('ev_failpos', 'ev_backpos'):
        if k == 'ev_failpos':
            if a.args[0] != b.args[0]:
                mismatch('failpos/failpos', 'failure of another leaf', a.where)
            s1, s2 = a.args[1], b.args[1]
            lo, pos, hi = f.norm(s2[2]), f.norm(add(s2[2], b.args[2])), f.norm(s2[3])
            lo1 = s1[2]
            must = b.args[3]
            n = b.args[0]
        else:
            h, g = handle(m, st, a.args[0]), handle(m, st, b.args[0])
            same_handle(m, st, h, g, 'backpos/backpos', 'reports a failure of', a)
            lo, pos, hi = (f.norm(x) for x in g[3:6])
            lo1 = h[3]
            must = False
            n = g[1]
        out = []
        if not must:
            no = st.copy()
            resume(m, no, 0, NONE)
            resume(m, no, 1, NONE)
            out.append(no)
        x = st.fresh()
        st.facts.add_ge(sub(x, pos))
        st.facts.add_ge(sub(hi, x))
        st.facts.bnd = st.facts.bnd + (('T', x, True),)
        st.log('  leaf %s meets an error at %s' % (n, show(x)))
        resume(m, st, 0, some(st.facts.norm(sub(x, lo1))))
        resume(m, st, 1, some(st.facts.norm(sub(x, lo))))
        out.append(st)
        return out
    if k == 'choose':
        no = st.copy()
        resume(m, no, 0, False)
        resume(m, no, 1, False)
        resume(m, st, 0, True)
        resume(m, st, 1, True)
        return [st, no]
    if k == 'hs_start':
        check_text(m, st, a, b, 'the driver', 0)
    elif k == 'obs_match':
        if not f.is_eq(sub(a.args[0], b.args[0])):
            mismatch('match-end', 'the match ends at %s, and should end at %s' % (show(f.norm(a.args[0])), show(f.norm(b.args[0]))), a.where)
    elif k == 'obs_value':
        try:
            same(m, st, a.args[0], b.args[0])
        except Differ as d:
            mismatch('value', 'the result differs: %s' % d, a.where)
    elif k == 'obs_tail':
        r = counts.same_tail(m, st, models.text_of(m, st, a.args[0]), models.text_of(m, st, b.args[0]))
        if r:
            mismatch('shown', 'the error shows the wrong place: ' + r, a.where)
    elif k == 'obs_parse_error':
        raise Unsupported('reference observes a ParseError')
    resume(m, st, 0, UNIT)
    resume(m, st, 1, UNIT)
    return [st]


def parse_error(m, t, text, at):
    """A ParseError of which the reason is not known."""
    for i, ty in enumerate(m.p.types):
        if ty and ty['k'] == 'adt' and ty['path'].endswith('error::ParseError'):
            names = [x[0] for x in ty['v'][0]['f']]
            break
    else:
        raise Unsupported('no ParseError')
    by = {'source': ('str',) + text[1:], 'location': at}
    return ('A', 0, tuple(by.get(n, ('app', 'some ' + n)) for n in names))


def check_text(m, st, a, b, who, off=1):
    f = st.facts
    s1, s2 = models.text_of(m, st, a.args[off]), models.text_of(m, st, b.args[off])
    if s1[1] != s2[1]:
        mismatch('start-text', '%s is given another text' % who, a.where)
    p1, p2 = add(s1[2], a.args[off + 1]), add(s2[2], b.args[off + 1])
    if not f.is_eq(sub(p1, p2)):
        mismatch('start-pos', '%s is started at %s instead of %s' % (who, show(f.norm(p1)), show(f.norm(p2))), a.where)
    if not f.is_eq(sub(s1[2], s2[2])) or not f.is_eq(sub(s1[3], s2[3])):
        mismatch('start-extent', '%s is given the text %s instead of %s' % (who, show(vmap(s1, f.norm)), show(vmap(s2, f.norm))), a.where)


def same_handle(m, st, h, g, kind, what, ev):
    if h[1] != g[1]:
        mismatch(kind, 'the code %s leaf %s instead of leaf %s' % (what, h[1], g[1]), ev.where)
    if not st.facts.is_eq(sub(h[2], g[2])):
        mismatch(kind, 'the code %s leaf %s of round %s instead of round %s' % (what, h[1], show(st.facts.norm(h[2])), show(st.facts.norm(g[2]))), ev.where)


def retire(st, n, ix):
    normalise(st)
    at = ('end', n, ix)
    f = st.facts
    if any(x[0].startswith('keq:') for x in f.preds):
        f.preds = tuple(x for x in f.preds if not x[0].startswith('keq:'))
        st.exact = False
    seen = any(at == x for e in f.sub.items() for x in ([e[0]] + list(atoms_in(e[1]))))
    if not seen:
        seen = any(at in atoms_in(x) for x in f.ge + f.ne)

    def old(v):
        if type(v) is not tuple or not v:
            return v
        if v[0] == 'h' and v[1] == n and v[2] == ix:
            return ('h', 'old', 0) + v[3:]
        if v[0] == 'val' and v[1] == n and v[2] == ix:
            return ('val', 'old', 0, v[3])
        if v[0] in ('A',):
            return ('A', v[1], tuple(old(x) for x in v[2]))
        if v[0] == 'seq':
            return ('seq', tuple(('i', old(x[1])) if x[0] == 'i' else x for x in v[1]))
        return v
    for k in list(st.mem):
        st.mem[k] = old(st.mem[k])
    rename(st, at, st.fresh())


def find_tag(m, st, v, out, d=0):
    if type(v) is not tuple or d > 12:
        return
    if v and v[0] in ('S', 'str'):
        if models.is_lit(v):
            out.append(models.lit_bytes(v))
        else:
            out.append(v)
            if v[1] != 'T':
                find_tag(m, st, v[1], out, d + 1)
        return
    if v and v[0] == 'R':
        find_tag(m, st, m.load(st, v), out, d + 1)
        return
    for x in v:
        if type(x) is tuple:
            find_tag(m, st, x, out, d + 1)


def looked_into(f):
    """Does the path depend on the length of a text of which little is known?"""
    ats = set(f.sub)
    for x in f.ge + f.ne + tuple(f.sub.values()):
        if not counts.digits(x):
            ats |= atoms_in(x)
    return any(a[0] == 'n' and a[1] != 'T' and a[1][0] in models.OPAQUE and a[1][1] != 'some text' for a in ats)


def has_char(m, st, v, c, d=0):
    if type(v) is int and type(v) is not bool:
        return v == c
    if type(v) is not tuple or d > 12:
        return False
    if v and v[0] == 'R':
        return has_char(m, st, m.load(st, v), c, d + 1)
    if v and v[0] == 'disp' and len(v) > 2 or v and v[0] == 'char' and len(v) == 2:
        if v[-2 if v[0] == 'disp' else -1] == c:
            return True
    return any(has_char(m, st, x, c, d + 1) for x in v if type(x) is tuple)


def sync_error(m, st, a, b):
    f = st.facts
    st.log('the reference returns an error')
    err, src, loc = a.args
    rsrc, rloc, rtag, is_lit = b.args
    s = models.text_of(m, st, src)
    r = models.text_of(m, st, rsrc)
    if s[1] != r[1] or not f.is_eq(sub(s[2], r[2])) or not f.is_eq(sub(s[3], r[3])):
        mismatch('error-source', 'the source of the error is %s instead of the text passed to parse()' % show(vmap(s, f.norm)), a.where)
    if not f.is_eq(sub(loc, rloc)):
        mismatch('error-location', 'the error is at %s instead of %s' % (show(f.norm(loc)), show(f.norm(rloc))), a.where)
    tag = models.lit_bytes(models.text_of(m, st, rtag))
    e = err
    while e[0] == 'R':
        e = m.load(st, e)
    found = []
    for x in e[2]:
        if type(x) is tuple and x and x[0] in ('S', 'str') and x[1] == 'T':
            continue
        find_tag(m, st, x, found)
    lits = [x for x in found if type(x) is bytes]
    if is_lit:
        # the message names the literal
        c = tag.decode()
        if not any(tag in x for x in lits) and not (len(c) == 1 and has_char(m, st, e, ord(c))):
            mismatch('error-tag', 'the error does not name %r: %s' % (c, show(e)), a.where)
    elif tag.startswith(b'noun '):
        noun = tag[5:]
        if not any(x == noun or x == b'expected ' + noun for x in lits):
            mismatch('error-tag', 'the error does not say "expected %s": %s' % (noun.decode(), show(e)), a.where)
    elif tag.startswith(b'leaf '):
        if not any(tag in x for x in lits):
            mismatch('error-tag', 'of two errors at the same place not the first one is returned (%s, not %s)' % (tag.decode(), show(e)), a.where)
    if not tag.startswith(b'leaf '):
        bad = [x for x in lits if x.startswith(b'leaf ')]
        if bad:
            mismatch('error-tag', 'the error returned is that of %s instead of "%s"' % (bad[0].decode(), tag.decode()), a.where)
    resume(m, st, 0, UNIT)
    resume(m, st, 1, UNIT)
    return [st]


# ------------------------------------------------------------------ canonical form
class Form:
    __slots__ = ('shape', 'nums', 'hs', 'facts')


def canon(m, st, keep=2):
    """Bring the state to canonical form, in place: garbage dropped, lists folded,
    frames and cells renumbered. Returns (shape, nums)."""
    normalise(st)
    f = st.facts
    p = m.p
    mem = {a: v for a, v in st.mem.items() if a[0] == 'c'}
    order = {}
    todo = []
    nums = []
    handles = []
    ranges = []
    shape = []

    def addr(a):
        if a[0] == 'c':
            r = a
        else:
            r = order.get(a)
            if r is None:
                n = sum(1 for x in order if x[0] == a[0])
                r = (a[0],) + ((n, a[2]) if a[0] == 'l' else (n,))
                if a[0] == 'l':
                    r = ('l', fidmap.get(a[1], -a[1]), a[2])
                order[a] = r
                todo.append(a)
                return r
            return r
        if a not in order:
            order[a] = a
            todo.append(a)
        return r

    def num(n):
        if type(n) is tuple and any(x[0][0] == 'addr' for x in n[2]):
            def g(at):
                if at[0] == 'addr':
                    return atom(('addr', (addr(at[1][0]), at[1][1])))
                return None
            n = map_atoms(n, g)
        nums.append(n)
        return n

    def walk(v, out):
        """Copy v with renumbered addresses; shape pieces into out."""
        t = type(v)
        if t is int or (t is tuple and v and v[0] == 'L'):
            out.append('#')
            return num(v)
        if t is not tuple or not v:
            out.append(v)
            return v
        k = v[0]
        if k == 'R':
            a = addr(v[1])
            out.append(('R', a))
            return ('R', a, wpath(v[2], out))
        if k == 'SL':
            a = addr(v[1])
            out.append(('SL', a))
            q = wpath(v[2], out)
            return ('SL', a, q, walk(v[3], out), walk(v[4], out))
        if k == 'A':
            out.append(('A', v[1], len(v[2])))
            return ('A', v[1], tuple(walk(x, out) for x in v[2]))
        if k == 'seq':
            items = fold(tidy(st, v[1]), keep, f.norm)
            out.append(('seq', len(items)))
            r = []
            for x in items:
                out.append(x[0])
                if x[0] == 'i':
                    r.append(('i', walk(x[1], out)))
                else:
                    r.append(('seg', walk(x[1], out), walk(x[2], out), walk(x[3], out)))
                    ranges.append(r[-1])
            return ('seq', tuple(r))
        if k == 'h':
            out.append(('h', v[1]))
            r = ('h', v[1]) + tuple(walk(x, out) for x in v[2:])
            if v[1] != 'old' and HASH not in atoms_in(v[2]):
                handles.append((r[1], r[2]))
            return r
        if k == 'val':
            out.append(('val', v[1], v[3]))
            return ('val', v[1], walk(v[2], out), v[3])
        if k in ('S', 'SB', 'str'):
            out.append(k)
            if v[1] == 'T' or v[1][0] == 'lit':
                out.append(v[1])
                t2 = v[1]
            else:
                out.append(v[1][0])
                t2 = (v[1][0],) + tuple(walk(x, out) for x in v[1][1:])
            return (k, t2, walk(v[2], out), walk(v[3], out))
        if k in ('F', 'lit'):
            out.append(v)
            return v
        if k in ('chars', 'charix', 'bytes') and models.is_lit(v[1]):
            # steps through a constant: never generalised
            out.append(v)
            return v
        if k == 'D':
            out.append(('D', v[2]))
            return ('D', walk(v[1], out), v[2])
        if k == 'app':
            out.append(('app', v[1], len(v)))
            return ('app', v[1]) + tuple(walk(x, out) for x in v[2:])
        out.append((k, len(v)))
        return (k,) + tuple(walk(x, out) for x in v[1:])

    def wpath(q, out):
        r = []
        for e in q:
            if type(e) is tuple:
                out.append('ix')
                r.append(('ix', walk(e[1], out)))
            else:
                out.append(e)
                r.append(e)
        return tuple(r)

    fidmap = {}
    n = 0
    for t in st.thr:
        for fr in t:
            fidmap[fr.fid] = n
            n += 1
    roots = []
    newthr = []
    for ti, t in enumerate(st.thr):
        nt = []
        for i, fr in enumerate(t):
            top = i == len(t) - 1
            shape.append(('f', fr.fn, fr.bb, fr.si))
            body = p.fns[fr.fn]['body']
            if top and fr.si == 0:
                live = p.live_in(fr.fn)[fr.bb]
            else:
                # waiting for a call to return: what is live after it
                tm = body['bb'][fr.bb]['t']
                tgt = None
                if not top:
                    tgt = t[i + 1].target
                elif st.pend[ti] is not None:
                    tgt = st.pend[ti].target
                elif tm[0] == 'call':
                    tgt = tm[4]
                    raise Unsupported('checkpoint inside a block')
                live = p.live_in(fr.fn)[tgt] if tgt is not None else set()
            for l in sorted(live):
                a = ('l', fr.fid, l)
                if a in st.mem:
                    addr(a)
            g = fr.copy()
            g.fid = fidmap[fr.fid]
            if g.dest is not None:
                g.dest = walk(g.dest, shape)
            shape.append(g.target)
            nt.append(g)
        newthr.append(nt)
        e = st.pend[ti]
        shape.append(e.kind if e else None)
        if e:
            args = tuple(walk(x, shape) for x in e.args)
            d = walk(e.dest, shape) if e.dest else None
            st.pend[ti] = Event(e.kind, args, d, e.target, e.rty, e.where)
    shape.append(st.note)
    i = 0
    while i < len(todo):
        a = todo[i]
        i += 1
        v = st.mem.get(a)
        shape.append(('@', order[a]))
        if v is None:
            shape.append('undef')
            continue
        if a[0] == 'c':
            continue
        mem[order[a]] = walk(v, shape)
    hs = []
    seen = set()
    for h in handles:
        if h not in seen:
            seen.add(h)
            hs.append(h)
            e = f.norm(atom(('end', h[0], f.norm(h[1]))))
            shape.append(('end', h[0]))
            nums.append(e)
    st.mem = mem
    st.thr = newthr
    st.nf = n
    st.nh = max([a[1] for a in mem if a[0] == 'h'], default=0) + 1
    if bury(st, nums, hs, ranges):
        return canon(m, st, keep)
    return tuple(shape), nums, hs


def bury(st, nums, hs, ranges):
    """Ends of matches that are gone are just numbers."""
    f = st.facts
    live = {(n, f.norm(ix)) for n, ix in hs}
    ends = {a for a in live_atoms(nums) if a[0] == 'end' and HASH not in atoms_in(a[2]) and (a[1], a[2]) not in live}
    if not ends:
        return False
    spans = []
    for _, x, lo, hi in ranges:
        ats = set()
        in_value(x, ats)
        for a in ats:
            c = sub(a[2], atom(HASH))
            spans.append((a[1], add(lo, c), add(hi, c)))
    out = False
    for a in sorted(ends, key=akey):
        if any(n == a[1] and not f.entails(sub(add(lo, -1), a[2])) and not f.entails(sub(a[2], hi)) for n, lo, hi in spans):
            continue
        if any(n == a[1] and f.eq_known(sub(ix, a[2])) is not False for n, ix in live):
            continue
        rename(st, a, st.fresh())
        out = True
    return out


def in_value(v, out):
    """The ends of run elements spoken of in v."""
    if type(v) is tuple and v:
        if v[0] == 'L':
            for a in atoms_in(v):
                if a[0] == 'end' and len(a) > 2 and HASH in atoms_in(a[2]):
                    out.add(a)
        else:
            if v[0] == 'h' and len(v) > 2 and HASH in atoms_in(v[2]):
                out.add(('end', v[1], v[2]))
            for x in v[1:]:
                in_value(x, out)


def deltas(old, new):
    return [delta(x, y) for x, y in zip(old, new)]


def delta(x, y):
    if x == y:
        return 0
    d = sub(y, x)
    if type(d) is int:
        return d
    if type(x) is tuple and type(y) is tuple and x[1] == y[1] and len(x[2]) == len(y[2]):
        out = []
        for (a, k), (b, m) in zip(x[2], y[2]):
            if k != m or a[0] != b[0] or len(a) != len(b):
                return (x, y)
            out.append(tuple(delta(u, w) if isnum(u) and isnum(w) else (u == w or (u, w)) for u, w in zip(a[1:], b[1:])))
        return tuple(out)
    return (x, y)


def xatoms(nums):
    """Fresh numbers in order of appearance."""
    seen = {}
    for v in nums:
        xs(v, seen)
    return seen


def xs(v, seen):
    if type(v) is tuple and v and v[0] == 'L':
        for a, _ in v[2]:
            if a[0] == 'x':
                seen.setdefault(a, len(seen))
            else:
                for y in a[1:]:
                    xs(y, seen)


def live_atoms(nums):
    out = set()
    for v in nums:
        atoms_in(v, out)
    return out


def project(f, nums, hs, local=False):
    """Facts about what is live."""
    live = live_atoms(nums)
    live.add(('n', 'T'))
    f = f.copy()
    # between two events, what was found out about elements of runs counts
    runs = {a[1] for a in live if a[0] == 'end' and HASH in atoms_in(a[2])} if local else ()

    def ok(v):
        return all(alive(a) for a in atoms_in(v, deep=False))

    def alive(a):
        if a in live:
            return True
        if a[0] in ('ch', 'w'):
            return ok(a[2])
        if a[0] in nums_model.KINDS:
            return ok(a[3]) and ok(a[4])
        if a[0] == 'kq':
            return ok(a[1]) and ok(a[2])
        if a[0] == 'n':
            return True
        if a[0] == 'end' and a[1] in runs:
            return ok(a[2])
        return False
    # substitutions: only those of live atoms matter (characters); the memory is normal
    g = Facts()
    keep = {}
    for a, e in f.sub.items():
        if (a[0] in ('ch', 'w') and ok(a[2]) or a[0] in nums_model.KINDS and ok(a[3]) and ok(a[4])) and ok(e):
            keep[a] = e
        elif a == ('n', 'T') and type(e) is int:
            keep[a] = e     # (whoever asks for the text may find out)
    for n, ix in hs:
        a = ('end', n, f.norm(ix))
        if a in f.sub:
            keep[a] = f.sub[a]
    for a, e in f.sub.items():
        if a[0] == 'end' and a[1] in runs and ok(a[2]) and ok(e):
            keep[a] = e
    ge = [x for x in f.ge]
    dead = set()
    for x in ge:
        for a in atoms_in(x, deep=False):
            if not alive(a):
                dead.add(a)
    for a in sorted(dead, key=akey):
        up = [x for x in ge if coef(x, a) < 0]
        lo = [x for x in ge if coef(x, a) > 0]
        rest = [x for x in ge if coef(x, a) == 0]
        lo2 = lo + [x for x in f.implicit_lower(a) if type(x) is tuple] + [atom(a)]
        up2 = up + [x for x in f.implicit_upper(a) if type(x) is tuple and coef(x, a) < 0]
        if len(lo2) * len(up2) <= 36:
            for x in lo2:
                for y in up2:
                    h = f.norm(add(mul(x, -coef(y, a)), mul(y, coef(x, a))))
                    if type(h) is tuple and h not in rest and not trivially(h):
                        rest.append(h)
        ge = rest
    g.sub = keep
    g.ge = minimal(g, [x for x in ge if ok(x)])
    g.ne = tuple(x for x in f.ne if ok(x))
    g.nost = tuple(x for x in f.nost if ok(x[2]) and ok(x[3]))
    g.occ = tuple(x for x in f.occ if ok(x[2]))
    g.bnd = tuple(x for x in f.bnd if ok(x[1]))
    g.preds = tuple(x for x in f.preds if ok(x[1]))
    return g


def minimal(g, ge):
    """Without what follows from the others."""
    i = len(ge) - 1
    while i >= 0:
        g.ge = tuple(ge[:i] + ge[i + 1:])
        g.memo = {}
        if g.entails(ge[i], 3):
            del ge[i]
        i -= 1
    g.memo = {}
    return tuple(ge)


def trivially(h):
    return h[1] >= 0 and all(k > 0 for _, k in h[2])


def coef(v, a):
    for b, k in v[2]:
        if b == a:
            return k
    return 0


def map_facts(f, g):
    """g: number -> number"""
    r = Facts()

    def at(a):
        return tuple(g(x) if isnum(x) else x for x in a)
    # (the memory is in normal form: replaced parameters do not occur any more)
    r.sub = {at(a): g(e) for a, e in f.sub.items() if a[0] != 'x'}
    r.ge = tuple(x for x in (g(x) for x in f.ge) if type(x) is tuple)
    r.ne = tuple(_p(x) for x in (g(x) for x in f.ne) if type(x) is tuple)
    r.nost = tuple((t, p, g(a), g(b)) for t, p, a, b in f.nost)
    r.occ = tuple((t, p, g(a)) for t, p, a in f.occ)
    r.bnd = tuple((t, g(p), v) for t, p, v in f.bnd)
    r.preds = tuple((n, g(p), v) for n, p, v in f.preds)
    return r


def _p(l):
    return l if l[2][0][1] > 0 else mul(l, -1)


def renumber(st, nums, hs):
    """Give the fresh numbers canonical names. Returns the new nums; True if nothing changed."""
    order = xatoms([atom(('x', 0))] + nums)
    mp = {a: atom(('x', i)) for a, i in order.items()}
    ident = all(a[1] == i for a, i in order.items())

    def r(a):
        return mp.get(a)

    def g(n):
        return map_atoms(n, r)
    # dead atoms in facts must not clash
    k = len(order)
    f = st.facts
    extra = {}
    for v in list(f.ge) + list(f.ne) + list(f.sub.values()):
        xs(v, extra)
    for a in f.sub:
        xs(atom(a), extra)
    for t in f.nost:
        xs(t[2], extra), xs(t[3], extra)
    for t in f.occ:
        xs(t[2], extra)
    for t in f.bnd + f.preds:
        xs(t[1], extra)
    for a in extra:
        if a not in mp:
            mp[a] = atom(('x', k))
            k += 1
    if not ident:
        st.facts = map_facts(st.facts, g)
        mapstate(st, g)
    st.nx = k
    return [g(n) for n in nums], ident, [(n, g(ix)) for n, ix in hs]


class Stored:
    __slots__ = ('id', 'shape', 'nums', 'facts', 'alive')


def match(old, nums, f):
    """Is the state with numbers `nums` and facts f covered by `old`?"""
    bind = align(old, nums, f)
    if bind is None or not holds(old.facts, bind, f):
        return None
    return bind


def align(old, nums, f):
    """The numbers of `old` for which its numbers are `nums`, or None."""
    bind = {}
    pairs = list(zip(old.nums, nums))
    for _ in range(6):
        left = []
        prog = False
        for a, b in pairs:
            a2 = subst(a, bind)
            if type(a2) is int:
                if f.norm(sub(b, a2)) != 0:
                    return None
                prog = True
                continue
            open_ = [(x, k) for x, k in a2[2] if bindable(x, bind)]
            if not open_:
                if deep_open(a2, bind):
                    # an end of a round not yet bound: match structurally
                    if bind_deep(a2, b, bind):
                        prog = True
                        left.append((a, b))
                        continue
                    left.append((a, b))
                    continue
                if f.norm(sub(b, unmark(a2))) != 0:
                    return None
                prog = True
                continue
            if len(open_) == 1 and open_[0][1] in (1, -1) and not deep_open(a2, bind, open_[0][0]):
                x, k = open_[0]
                rest = unmark(add(a2, atom(x), -k))
                bind[x] = mul(sub(b, rest), k)
                bind[x] = f.norm(bind[x])
                prog = True
                continue
            left.append((a, b))
        pairs = left
        if not pairs:
            break
        if not prog:
            return None
    if pairs:
        return None
    # everything natural
    for x, v in bind.items():
        if not f.entails(v):
            return None
    return bind


def holds(h, bind, f):
    """Do the facts h, about what `bind` says, follow from f?"""
    def g(n):
        return f.norm(unmark(subst(n, bind)))
    for v in h.ge:
        if not f.entails(g(v)):
            return False
    for v in h.ne:
        if f.eq_known(g(v)) is not False:
            return False
    for t, p, a, b in h.nost:
        a, b = g(a), g(b)
        if not any(t == t2 and p == p2 and f.entails(sub(a, a2)) and f.entails(sub(b2, b)) for t2, p2, a2, b2 in f.nost) \
                and not f.entails(sub(a, b)):
            return False
    for t, p, q in h.occ:
        if not models.known_occ(f, t, p, g(q)):
            return False
    for t, p, v in h.bnd:
        if f.boundary(t, g(p), None) is not v:
            return False
    for n, p, v in h.preds:
        q = g(p)
        if not any(n == n2 and f.norm(p2) == q and v == v2 for n2, p2, v2 in f.preds):
            return False
    for a, e in h.sub.items():
        b = tuple(g(x) if isnum(x) else x for x in a)
        if f.norm(sub(atom(b), g(e))) != 0:
            return False
    return True


def bindable(x, bind):
    return x[0] in ('x', 'end') and x not in bind and x[0] == 'x'


def subst(n, bind):
    if type(n) is int:
        return n

    def r(a):
        return bind.get(a)
    # substitute simultaneously: mark results so that they are not substituted again
    return map_atoms(n, lambda a: mark(bind[a]) if a in bind else None)


def mark(n):
    return map_atoms(n, lambda a: atom(('!',) + a) if a[0] == 'x' else None)


def unmark(n):
    return map_atoms(n, lambda a: atom(a[1:]) if a[0] == '!' else None)


PREF['!'] = 0


def deep_open(n, bind, but=None):
    return any(a[0] == 'x' and a != but for a in atoms_in(n))


def bind_deep(a, b, bind):
    return False


def gen_all(a, b, nx):
    """Anti-unification of two vectors of numbers with an affine parameter."""
    base = None
    for x, y in zip(a, b):
        if x != y:
            d = sub(y, x)
            if type(d) is int:
                if base is None or abs(d) < abs(base[1]):
                    base = (x, d)
    memo = {}
    cnt = [nx]
    s = None
    if base is not None:
        cnt[0] += 1
        s = atom(('x', cnt[0]))
    bind_a, bind_b = {}, {}
    if s is not None:
        bind_a[('x', cnt[0])] = base[0]
        bind_b[('x', cnt[0])] = add(base[0], base[1])

    def g(x, y):
        if x == y:
            return x
        d = sub(y, x)
        if type(d) is int and s is not None and d % base[1] == 0:
            return add(x, mul(sub(s, base[0]), d // base[1]))
        if type(x) is tuple and type(y) is tuple:
            r = struct(x, y)
            if r is not None:
                return r
        key = (x, y)
        v = memo.get(key)
        if v is None:
            v = combined(x, y)
            if v is not None:
                memo[key] = v
                return v
            cnt[0] += 1
            v = memo[key] = atom(('x', cnt[0]))
            bind_a[('x', cnt[0])] = x
            bind_b[('x', cnt[0])] = y
        return v

    def combined(x, y):
        """In terms of what was generalised before: u + c, u - v + c or u + v + c."""
        if len(memo) > 30:
            return None
        done = [(u, w, n) for (u, w), n in memo.items()]
        for u, w, n in done:
            c = sub(x, u)
            if c == sub(y, w):
                return add(n, c)
        for i, (u, w, n) in enumerate(done):
            cx, cy = sub(x, u), sub(y, w)
            for j, (u2, w2, n2) in enumerate(done):
                c = add(cx, u2)
                if c == add(cy, w2):
                    return add(sub(n, n2), c)
                if j > i:
                    c = sub(cx, u2)
                    if c == sub(cy, w2):
                        return add(add(n, n2), c)
        return None

    def struct(x, y):
        if x[1] != y[1] or len(x[2]) != len(y[2]):
            return None
        out = x[1]
        for (p, k), (q, l) in zip(x[2], y[2]):
            if k != l:
                return None
            if p == q:
                out = add(out, atom(p), k)
                continue
            if p[0] != q[0] or p[0] != 'end' or p[1] != q[1] or s is None:
                return None
            d = sub(q[2], p[2])
            if type(d) is not int or d % base[1]:
                return None
            out = add(out, atom(('end', p[1], add(p[2], mul(sub(s, base[0]), d // base[1])))), k)
        return out
    return [g(x, y) for x, y in zip(a, b)], bind_a, bind_b, cnt[0]


def gen_facts(fa, fb, ga, gb, new):
    """Facts about the generalised numbers that hold in both."""
    r = Facts()

    def both(c):
        return fa.entails(ga(c)) and fb.entails(gb(c))
    cands = []
    nums = []
    for n in new:
        if HASH in atoms_in(n):
            continue
        if n not in nums:
            nums.append(n)
    for n in nums:
        if type(n) is tuple:
            for c in (3, 2, 1):
                cands.append(add(n, -c))
        for k in nums:
            if k != n:
                cands.append(sub(add(n, -1), k))
                cands.append(sub(n, k))
    for v in fa.ge + fb.ge:
        if -1 <= v[1] <= 3 or (len(v[2]) == 1 and v[1] >= -3):
            cands.append(v)
    known = Facts()
    for c in cands:
        if type(c) is int or trivially(c):
            continue
        if both(c) and not known.entails(c, 3):
            known.ge = known.ge + (c,)
            known.memo = {}
    r.ge = known.ge
    for n in nums:
        for k in nums:
            if akey(n) < akey(k):
                d = sub(n, k)
                if type(d) is tuple and not known.entails(add(d, -1)) and not known.entails(sub(-1, d)) \
                        and fa.eq_known(ga(d)) is False and fb.eq_known(gb(d)) is False:
                    r.ne = r.ne + (_p(d),)
    for n in nums:
        va, vb = fa.boundary('T', ga(n), None), fb.boundary('T', gb(n), None)
        if va is not None and va == vb:
            r.bnd = r.bnd + (('T', n, va),)
        if fb.bnd:
            for k in nums:
                q = add(n, k)
                if type(k) is tuple and type(n) is tuple and akey(n) < akey(k):
                    va = fa.boundary('T', ga(q), None)
                    if va is not None and va == fb.boundary('T', gb(q), None):
                        r.bnd = r.bnd + (('T', q, va),)
        for o in (0, -1, -2):
            p = add(n, o)
            if type(p) is int and p < 0:
                continue
            ca, cb = fa.ch('T', ga(p)), fb.ch('T', gb(p))
            if type(ca) is int and ca == cb:
                r.sub = dict(r.sub)
                r.sub[('ch', 'T', p)] = ca
    for t, p, x, y in fa.nost:
        for t2, p2, x2, y2 in fb.nost:
            if t == t2 and p == p2:
                u = pick(nums, ga, gb, fa, fb, x, x2)
                w = pick(nums, ga, gb, fa, fb, y, y2)
                if u is not None and w is not None:
                    r.nost = r.nost + ((t, p, u, w),)
    for t, p, x in fa.occ:
        for t2, p2, x2 in fb.occ:
            if t == t2 and p == p2:
                u = pick(nums, ga, gb, fa, fb, x, x2)
                if u is not None:
                    r.occ = r.occ + ((t, p, u),)
    for n_, p, v in fa.preds:
        for n2, p2, v2 in fb.preds:
            if n_ == n2 and v == v2:
                u = pick(nums, ga, gb, fa, fb, p, p2)
                if u is not None:
                    r.preds = r.preds + ((n_, u, v),)
    return r


def pick(nums, ga, gb, fa, fb, x, y):
    """A generalised number that is x in one and y in the other."""
    if x == y and type(x) is int:
        return x
    for n in nums:
        d = fa.norm(sub(x, ga(n)))
        if type(d) is int and fb.norm(sub(y, gb(n))) == d and -3 <= d <= 3:
            return add(n, d)
    return None


def literals(prog, fid):
    """The string constants of a function that are regular expressions (the documented languages a reference searches for)."""
    out = []

    def see(x):
        if type(x) is dict:
            if 'slice' in x and x['slice'] and all(type(y) is dict and 'i' in y for y in x['slice']):
                out.append(bytes(int(y['i']) & 255 for y in x['slice']))
            elif 'str' in x:
                out.append(bytes(x['str']) if type(x['str']) is list else x['str'].encode())
            for y in x.values():
                see(y)
        elif type(x) is list:
            for y in x:
                see(y)
    see(prog.fns[fid]['body'])
    return tuple(sorted({b.decode() for b in out if len(b) > 3}))


class Product:
    def __init__(self, prog, code, ref, budget=200.0, verbose=False, delay=2, hunt=False, wanted=lambda f: True, guide=None):
        self.guide = guide      # follow this path of checkpoints only
        self.replayed = 0.0
        self.wanted = wanted
        self.delay = delay
        self.hunt = hunt        # look for counterexamples breadth first, generalising nothing
        self.p = prog
        self.m = Machine(prog, models.M, EV)
        self.m.specs = literals(prog, ref)
        self.tried = {}
        self.code, self.ref = code, ref
        self.stored = {}
        self.findings = []
        self.keys = set()
        self.nstates = self.nsync = self.nsplit = self.ncover = self.nwiden = self.ncp = 0
        self.verbose = verbose
        self.budget = budget
        self.events = set()
        self.nid = 0
        self.unsupported = []

    def init(self):
        st = State()
        for i, r in enumerate((self.code, self.ref)):
            st.thr.append([])
            st.pend.append(None)
            self.m.push(st, i, r, [], ('R', ('l', 0, 0), ()), None)
            st.thr[i][0].dest = None
        f = st.facts
        f.add_ge(sub(atom(('n', 'T')), atom(('x', 0))))
        f.bnd = (('T', atom(('x', 0)), True),)
        return st

    def report(self, st, fi):
        if st.exact and not counts.relevant(st) and looked_into(st.facts):
            st.exact = False
        if st.exact and counts.relevant(st):
            k = (fi.kind, fi.where.split(' at ')[0])
            c = None
            if (k + (True,)) not in self.keys and self.tried.get(k, 0) < 12:
                self.tried[k] = self.tried.get(k, 0) + 1
                c = counts.confirm(st)
            if c is None:
                st.exact = False
            else:
                fi.what += ' (for example for the text %r, at %s)' % c
        if st.exact and nums_model.relevant(st):
            # reached on some text? (otherwise it is no counterexample, but possibly the analysis that is too coarse)
            k = (fi.kind, fi.where.split(' at ')[0])
            c = None
            if (k + (True,)) not in self.keys and self.tried.get(k, 0) < 12:
                self.tried[k] = self.tried.get(k, 0) + 1
                c = nums_model.concretize(self.m, st, fi.kind)
            if c is None:
                st.exact = False
            elif c:
                fi.what += ' (for example for the text %r there)' % c
        place = fi.where.split(' at ')[0]
        if st.exact and (fi.kind, place, True) not in self.keys and self.wanted({'kind': fi.kind, 'exact': True, 'where': fi.where}):
            k = ('replay', fi.kind, place)
            self.tried[k] = self.tried.get(k, 0) + 1
            c = ''
            if self.tried[k] > 12:
                st.exact = False
            elif not self.hunt:
                c = self.replay(st, fi.kind, place)
            elif '(for example' not in fi.what:
                c = concrete.possible(st.facts)
            if c is None:
                st.exact = False
            elif c:
                fi.what += c if c.startswith(' (') else ' (for example for the text %r)' % c
        key = (fi.kind, place, st.exact)
        if key in self.keys:
            return
        self.keys.add(key)
        tr = st.trace_list()
        self.findings.append({'kind': fi.kind, 'what': fi.what, 'where': fi.where, 'note': st.note, 'exact': st.exact, 'trace': tr[-40:],
                              'facts': facts_text(st.facts)})
        if self.verbose:
            print('FINDING' if st.exact else 'FINDING~', fi.kind, fi.what, '@', fi.where)
            for x in tr[-30:]:
                print('    ', x)
            print('    facts:', facts_text(st.facts))

    def replay(self, st, kind, place):
        """Is it reached on the same path if nothing that is known on the way is forgotten? (None, or what is to be said of it)"""
        if self.replayed > 60:
            return None
        t0 = time.time()
        sub_ = Product(self.p, self.code, self.ref, budget=20.0, hunt=True, guide=st.path, 
                       wanted=lambda f: f['exact'] and f['kind'] == kind and f['where'].split(' at ')[0] == place)
        sub_.explore()
        self.replayed += time.time() - t0
        for f in sub_.findings:
            if f['exact'] and f['kind'] == kind and f['where'].split(' at ')[0] == place:
                i = f['what'].find(' (for example')
                return f['what'][i:] if i >= 0 else ''
        return None

    def explore(self):
        t0 = time.time()
        work = deque([self.init()])
        while work:
            if time.time() - t0 > self.budget:
                self.unsupported.append('budget of %d s exceeded' % self.budget)
                break
            if not self.hunt and len(self.findings) >= 6 or self.hunt and any(f['exact'] and self.wanted(f) for f in self.findings):
                break
            st = work.popleft() if self.hunt else work.pop()
            self.nstates += 1
            try:
                work.extend(self.advance(st))
            except Stop as s:
                if s.finding:
                    self.report(st, s.finding)
            except (Unsupported, TypeError, IndexError, KeyError, ValueError, AttributeError, AssertionError) as u:
                if not isinstance(u, Unsupported):
                    import traceback
                    tb = traceback.extract_tb(u.__traceback__)[-1]
                    u = 'internal: %s %s (%s:%s)' % (type(u).__name__, str(u)[:80], tb.filename.split('/')[-1], tb.lineno)
                if self.verbose:
                    print('UNSUPPORTED', u)
                    for x in st.trace_list()[-12:]:
                        print('    ', x)
                    for t in st.thr:
                        for fr in t:
                            print('       ', self.m.at(fr))
                    import traceback
                    if self.verbose > 1:
                        traceback.print_exc()
                self.unsupported.append(str(u) + ' — ' + ' < '.join(self.m.at(fr) for fr in reversed(st.thr[0] + st.thr[1]))[:300])
                if len(self.unsupported) > 15 and not self.hunt or len(self.unsupported) > 300:
                    break
        self.time = time.time() - t0
        return self

    def advance(self, st):
        """Run st to the next synchronisation or split; successor states."""
        while True:
            for th in (0, 1):
                while st.pend[th] is None:
                    r = self.run1(st, th)
                    if r is not None:
                        return r
            if st.pend[0].kind != 'done' and self.checkpoint(st, None):
                return []
            snap = st.copy()
            try:
                a, b = st.pend
                r = sync(self.m, st)
            except Split as s:
                return self.split(snap, s, st)
            self.nsync += 1
            self.events.add((a.kind, a.where.split(' at ')[0]))
            if len(r) == 1:
                st = r[0]
                continue
            return r

    def split(self, snap, s, st):
        self.nsplit += 1
        out = []
        for w in s.ways:
            t = snap.copy()
            t.nx = max(t.nx, st.nx)
            if w(t.facts):
                t.steps += 1
                out.append(t)
        return out

    def run1(self, st, th):
        """Run thread th up to its next call or event; None to go on."""
        # statements are re-executed after a split: they change nothing before it is raised
        m = self.m
        self.covered = False
        self.snap = None
        try:
            return self.drive(st, th)
        except Split as s:
            return self.split(self.snap, s, st)

    def drive(self, st, th):
        m = self.m
        p = self.p
        while True:
            frs = st.thr[th]
            if not frs:
                st.pend[th] = Event('done', (), None, None, None, '')
                return None
            fr = frs[-1]
            body = p.fns[fr.fn]['body']
            bb = body['bb'][fr.bb]
            if fr.si == 0 and fr.bb in p.loop_heads(fr.fn):
                self.snap = st
                key = (th, len(frs), fr.fn, fr.bb)
                if key not in st.seen:
                    st.seen |= {key}
                elif self.checkpoint(st, th):
                    return []
                frs = st.thr[th]
                fr = frs[-1]
            sts = bb['s']
            f0 = st.facts
            while fr.si < len(sts):
                s = sts[fr.si]
                k = s[0]
                if k == '=':
                    self.snap = st
                    r = s[2]
                    if r[0] == 'bin' or r[0] == 'cast' or s[1][1]:
                        self.snap = st.copy()
                    v = m.rvalue(st, fr, r)
                    pl = s[1]
                    if not pl[1]:
                        st.mem[('l', fr.fid, pl[0])] = v
                    else:
                        m.store(st, m.place(st, fr, pl), v)
                elif k == 'sd':
                    ptr = m.place(st, fr, s[1])
                    v = m.load(st, ptr)
                    m.store(st, ptr, ('A', s[2], v[2] if v[0] == 'A' else ()))
                fr.si += 1
            st.steps += 1
            if st.steps > 20000:
                raise Unsupported('too many steps without an event')
            self.snap = st.copy()
            r = m.term(st, th, fr, bb['t'])
            if r == 'event':
                return None

    # ---- checkpoints
    def checkpoint(self, st, th):
        """True if the state is covered already."""
        m = self.m
        self.ncp += 1
        if looked_into(st.facts):
            st.exact = False
        shape, nums, hs = canon(m, st)
        nums, ident, hs = renumber(st, nums, hs)
        facts = project(st.facts, nums, hs, th is not None)
        if not self.hunt:
            st.facts = facts
        shape = hash_shape(shape)
        i = len(st.path)
        h = hash(shape)
        if self.guide is not None and (i >= len(self.guide) or self.guide[i] != h):
            return True
        st.path = st.path + (h,)
        raw = (shape, tuple(nums))
        if not ident:
            st.hist = ()
        if th is not None and raw in st.hist:
            raise Stop(Finding('loop', 'the code is back in the same state without having done anything: it never returns',
                               m.blame(st, th)))
        st.hist = st.hist + (raw,)
        olds = self.stored.setdefault(shape, [])
        for o in olds:
            if o.alive and match(o, nums, facts) is not None:
                self.ncover += 1
                return True
        # on the same path before?
        if th is not None:
            # in a loop of one side's own: only its own iterations count
            anc = [o for o in olds if o.id in st.lanc]
        else:
            anc = [o for o in olds if o.id in st.anc]
        if not self.hunt and len(anc) >= self.delay + (2 if th is not None else 0):
            new = self.widen_best(st, anc, nums, hs)
            if new is not None:
                nums = new
                facts = st.facts
        if len(olds) > (4000 if self.hunt else 400):
            raise Unsupported('too many abstract states at one place')
        s = Stored()
        self.nid += 1
        s.id = self.nid
        s.shape, s.nums, s.facts, s.alive = shape, nums, facts.copy(), True
        olds.append(s)
        st.anc = st.anc + (s.id,)
        st.lanc = st.lanc + (s.id,)
        if len(st.anc) > 4000:
            raise Unsupported('path too long')
        return False

    def widen_best(self, st, anc, nums, hs):
        anc = list(anc)
        for k in range(2, len(anc) // 2 + 1):
            # a loop that does different things in turn: as many rounds back as its period
            if deltas(anc[-1].nums, nums) != deltas(anc[-2].nums, anc[-1].nums) and \
                    deltas(anc[-k].nums, nums) == deltas(anc[-2 * k].nums, anc[-k].nums):
                anc.append(anc[-k])
                break
        for o in reversed(anc):
            b = align(o, nums, st.facts)
            if b is not None:
                return self.widen(st, o, nums, hs, (o.nums, {}, b, max(st.nx, maxx(o.nums))))
        best = None
        for o in reversed(anc):
            g = gen_all(o.nums, nums, max(st.nx, maxx(o.nums)))
            score = len(xatoms(g[0])) - max(len(xatoms(o.nums)), len(xatoms(nums)))
            if best is None or score < best[0]:
                best = (score, o, g)
            if score <= 1 and all(not xatoms([x]) and not xatoms([y]) for x, y in zip(o.nums, nums) if x != y):
                return self.widen(st, o, nums, hs, g)
        if len(anc) >= 8:
            return self.widen(st, best[1], nums, hs, best[2])
        return None

    def widen(self, st, o, nums, hs, gen):
        """Replace the state by a generalisation of it and the ancestor o."""
        self.nwiden += 1
        st.exact = False
        fa, fb = o.facts, st.facts
        new, ba, bb, nx = gen

        def ga(n):
            return fa.norm(unmark(subst(n, ba)))

        def gb(n):
            return fb.norm(unmark(subst(n, bb)))
        facts = gen_facts(fa, fb, ga, gb, new)
        # write the new numbers into the state
        it = iter(new)
        self.rewrite(st, it)
        st.facts = facts
        st.nx = nx
        ends = list(it)
        for (n, ix), e in zip(self.rehandles, ends):
            at = ('end', n, ix)
            if e != atom(at):
                s2 = dict(st.facts.sub)
                s2[at] = e
                st.facts.sub = s2
        st.facts.memo = {}
        st.facts.renorm()
        shape, nums2, hs = canon(self.m, st)
        nums2, _, hs = renumber(st, nums2, hs)
        st.facts = project(st.facts, nums2, hs)
        st.hist = ()
        return nums2

    def rewrite(self, st, it):
        """Put new numbers in place, in the order of canon()."""
        # canon() visits the state in a fixed order: do it again, replacing
        new = {}
        seen = set()
        todo = []
        handles = []

        def addr(a):
            if a not in seen:
                seen.add(a)
                todo.append(a)

        def walk(v):
            t = type(v)
            if t is int or (t is tuple and v and v[0] == 'L'):
                if t is tuple:
                    for at in atoms_in(v):
                        if at[0] == 'addr':
                            addr(at[1][0])
                return next(it)
            if t is not tuple or not v:
                return v
            k = v[0]
            if k == 'R':
                addr(v[1])
                return ('R', v[1], tuple(('ix', walk(e[1])) if type(e) is tuple else e for e in v[2]))
            if k == 'SL':
                addr(v[1])
                q = tuple(('ix', walk(e[1])) if type(e) is tuple else e for e in v[2])
                return ('SL', v[1], q, walk(v[3]), walk(v[4]))
            if k == 'A':
                return ('A', v[1], tuple(walk(x) for x in v[2]))
            if k == 'seq':
                return ('seq', tuple(('i', walk(x[1])) if x[0] == 'i' else ('seg', walk(x[1]), walk(x[2]), walk(x[3])) for x in v[1]))
            if k == 'h':
                r = ('h', v[1]) + tuple(walk(x) for x in v[2:])
                if v[1] != 'old' and HASH not in atoms_in(v[2]):
                    handles.append((v[1], v[2], r[2]))
                return r
            if k == 'val':
                return ('val', v[1], walk(v[2]), v[3])
            if k in ('S', 'SB', 'str'):
                t2 = v[1] if v[1] == 'T' or v[1][0] == 'lit' else (v[1][0],) + tuple(walk(x) for x in v[1][1:])
                return (k, t2, walk(v[2]), walk(v[3]))
            if k in ('F', 'lit'):
                return v
            if k == 'D':
                return ('D', walk(v[1]), v[2])
            if k == 'app':
                return ('app', v[1]) + tuple(walk(x) for x in v[2:])
            return (k,) + tuple(walk(x) for x in v[1:])
        p = self.p
        for ti, t in enumerate(st.thr):
            for i, fr in enumerate(t):
                top = i == len(t) - 1
                if top and fr.si == 0:
                    live = p.live_in(fr.fn)[fr.bb]
                else:
                    tgt = t[i + 1].target if not top else st.pend[ti].target
                    live = p.live_in(fr.fn)[tgt] if tgt is not None else set()
                for l in sorted(live):
                    a = ('l', fr.fid, l)
                    if a in st.mem:
                        addr(a)
                if fr.dest is not None:
                    fr.dest = walk(fr.dest)
            e = st.pend[ti]
            if e:
                args = tuple(walk(x) for x in e.args)
                d = walk(e.dest) if e.dest else None
                st.pend[ti] = Event(e.kind, args, d, e.target, e.rty, e.where)
        i = 0
        while i < len(todo):
            a = todo[i]
            i += 1
            v = st.mem.get(a)
            if v is None:
                continue
            if a[0] == 'c':
                continue
            new[a] = walk(v)
        for a, v in st.mem.items():
            if a[0] == 'c':
                new[a] = v
        st.mem = new
        seen2 = set()
        self.rehandles = []
        for n, ix, ix2 in handles:
            if (n, ix) not in seen2:
                seen2.add((n, ix))
                self.rehandles.append((n, ix2))


def maxx(nums):
    r = 0
    for v in nums:
        for a in atoms_in(v):
            if a[0] == 'x' and a[1] > r:
                r = a[1]
    return r


def hash_shape(s):
    return s


def facts_text(f):
    out = []
    for a, e in f.sub.items():
        out.append('%s = %s' % (show(atom(a)), show(e)))
    for v in f.ge:
        out.append(show(v) + ' >= 0')
    for v in f.ne:
        out.append(show(v) + ' != 0')
    for t, p, a, b in f.nost:
        out.append('no %r in %s..%s' % (p[1], show(a), show(b)))
    for t, p, v in f.bnd:
        out.append(('' if v else 'not ') + 'boundary %s' % show(p))
    return '; '.join(out)[:1500]


import sys
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    import sys
    from ir import Prog
    prog = Prog(sys.argv[1])
    names = sys.argv[2:]
    for n in names or [r.split('::')[-1] for r in prog.roots if not r.endswith('_ref')]:
        code = [v for k, v in prog.roots.items() if k.split('::')[-1] == n][0]
        ref = [v for k, v in prog.roots.items() if k.split('::')[-1] == n + '_ref'][0]
        pr = Product(prog, code, ref, verbose=2).explore()
        print('%-12s states %d syncs %d splits %d checkpoints %d covered %d widened %d  findings %d unsupported %d  %.1fs' % (
            n, pr.nstates, pr.nsync, pr.nsplit, pr.ncp, pr.ncover, pr.nwiden, len(pr.findings), len(pr.unsupported), pr.time))
