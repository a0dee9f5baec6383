"""Regex searches and conversions from text, as functions of the text they are given.

Atoms (natural numbers):
  ('rl', id, T, lo, hi)             what a search in T[lo..hi] comes to: with id 'spec:L' or 'code:P' the length of the match
                                    at lo (0: none), with 'first:P' the distance to the first match after lo (0: none),
                                    with 'later:P' the length of a match at lo which is not the start of the text searched
  ('numok', chain, T, lo, hi)       1 if the conversion of T[lo..hi] succeeds
  ('numerr', chain, T, lo, hi)      which kind of error it gives
Values: ('app', chain, S), where chain is 'num:TYPE:RADIX' and then '>cast:FROM:TO' for each cast.

The two sides share these atoms where they do the same thing. Where they do not, the product follows all combinations; what is
reported then has been confirmed on a concrete text (`concretize`): all the atoms are evaluated for it.
"""
import math
import struct
from fractions import Fraction
from dom import *
from values import *
from interp import Stop
from models import model, text_of, norm
import rx

INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}
KINDS = ('rl', 'numok', 'numerr')


# ------------------------------------------------------------------ evaluation
def int_range(t):
    b, s = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def digits(s, radix):
    if not s:
        return None
    n = 0
    for c in s:
        if not c.isascii() or not c.isalnum():
            return None
        d = int(c, 36)
        if d >= radix:
            return None
        n = n * radix + d
    return n


EMPTY, INVALID, POS, NEG, ZERO = range(5)


def read_int(t, radix, s):
    """(value, None) or (None, kind of error)"""
    if not s:
        return None, EMPTY
    neg = False
    if s in ('+', '-'):
        return None, INVALID
    if s[0] == '+':
        s = s[1:]
    elif s[0] == '-' and INTS[t][1]:
        neg = True
        s = s[1:]
    n = 0
    lo, hi = int_range(t)
    for c in s:
        if not (c.isascii() and c.isalnum() and int(c, 36) < radix):
            return None, INVALID
        n = n * radix + (-1 if neg else 1) * int(c, 36)
        # (std checks multiplication and addition in turn; for the digits read so far that is the same question)
        if n > hi:
            return None, POS
        if n < lo:
            return None, NEG
    return n, None


def read_big(t, radix, s):
    neg = False
    if t == 'BigInt' and s[:1] == '-':
        if s[1:2] != '+':
            s = s[1:]
        neg = True
    if s[:1] == '+' and s[1:2] != '+':
        s = s[1:]
    if not s or s[0] == '_':
        return None
    n = digits(s.replace('_', ''), radix)
    return None if n is None else -n if neg else n


def round_float(x, mant, emin, emax):
    """The nearest float with `mant` bits to the Fraction x >= 0, as a Fraction, or None for infinity."""
    if x == 0:
        return Fraction(0)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    e = max(e, emin)
    u = Fraction(2) ** (e - mant + 1)
    q = x / u
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n % 2:
        n += 1
    v = n * u
    return None if v >= Fraction(2) ** (emax + 1) else v


FL = {'f32': (24, -126, 127), 'f64': (53, -1022, 1023)}


def to_float(t, neg, x):
    v = round_float(x, *FL[t])
    s = '-' if neg else ''
    return s + 'inf' if v is None else (s + '0' if v == 0 else -v if neg else v)


def read_float(t, s):
    """'nan', 'inf', '-inf', '0', '-0' or a Fraction; None"""
    neg = s[:1] == '-'
    if s[:1] in ('+', '-'):
        s = s[1:]
    w = s.lower() if s.isascii() else s
    if w in ('inf', 'infinity'):
        return '-inf' if neg else 'inf'
    if w == 'nan':
        return 'nan'
    i = 0
    while i < len(s) and s[i] in '0123456789':
        i += 1
    a = s[:i]
    b = ''
    if s[i:i + 1] == '.':
        j = i + 1
        while j < len(s) and s[j] in '0123456789':
            j += 1
        b = s[i + 1:j]
        i = j
    if not a and not b:
        return None
    e = 0
    if s[i:i + 1] in ('e', 'E') and i < len(s):
        k = s[i + 1:]
        g = k[:1] == '-'
        if k[:1] in ('+', '-'):
            k = k[1:]
        if not k or any(c not in '0123456789' for c in k):
            return None
        e = min(int(k), 5000) * (-1 if g else 1)
    elif i < len(s):
        return None
    return to_float(t, neg, Fraction(int((a + b) or '0')) * Fraction(10) ** (e - len(b)))


def read(chain, s):
    """(value, None), or (None, kind)"""
    out = None
    for i, c in enumerate(chain.split('>')):
        c = c.split(':')
        if c[0] == 'num':
            t, r = c[1], int(c[2])
            if t in INTS:
                out, k = read_int(t, r, s)
                if k is not None:
                    return None, k
            elif t in ('BigInt', 'BigUint'):
                out = read_big(t, r, s)
            elif t in FL:
                out = read_float(t, s)
            elif t == 'bool':
                out = {'true': True, 'false': False}.get(s)
            else:
                raise Unsupported('conversion to ' + t)
            if out is None:
                return None, INVALID
        elif c[0] == 'cast':
            out = cast(out, c[1], c[2])
        elif c[0] == 'try':
            lo, hi = int_range(c[2])
            if not lo <= out <= hi:
                return None, POS if out > hi else NEG
        elif c[0] == 'neg':
            out = {'inf': '-inf', '-inf': 'inf', '0': '-0', '-0': '0', 'nan': 'nan'}.get(out) if type(out) is str else -out
        else:
            raise Unsupported('conversion ' + c[0])
    return out, None


def cast(v, f, t):
    if t in INTS:
        lo, hi = int_range(t)
        if f in FL:
            if v == 'nan' or v in ('0', '-0'):
                return 0
            if type(v) is str:
                return hi if v == 'inf' else lo
            return max(lo, min(hi, int(v)))
        b = INTS[t][0]
        v = int(v) & ((1 << b) - 1)
        return v - (1 << b) if v > hi else v
    if t in FL:
        if type(v) is str:
            return v
        return to_float(t, v < 0, abs(Fraction(v)))
    raise Unsupported('cast to ' + t)


def rl_value(ident, s):
    k, p = ident.split(':', 1)
    n = rx.nfa(p)
    if k == 'spec':
        return rx.longest(n, s) or 0
    if k == 'code':
        return rx.take(n, s, True) or 0
    if k == 'later':
        return rx.take(n, s, False) or 0
    # first
    for i in range(1, len(s) + 1):
        r = rx.take(n, s[i:], False)
        if r is not None:
            return len(s[:i].encode())
    return 0


def value_of(a, s):
    if a[0] == 'rl':
        return rl_value(a[1], s)
    v, e = read(a[1], s)
    if a[0] == 'numok':
        return int(e is None)
    return e or 0


# ------------------------------------------------------------------ models
_ids = {}


def ident(m, pat):
    k = (pat, m.specs)
    if k not in _ids:
        r = None
        for s in m.specs:
            try:
                if rx.compare(pat, s) is None:
                    r = 'spec:' + s
                    break
            except rx.Bad as b:
                raise Unsupported('regex %s: %s' % (pat, b))
        _ids[k] = r or 'code:' + pat
    return _ids[k]


def span(st, s, what):
    if s[1] != 'T':
        raise Unsupported(what + ' of a text that is not of the input')
    return norm(st, s[2]), norm(st, s[3])


def length(st, i, lo, hi):
    """the atom, made known to be within the text"""
    f = st.facts
    n = norm(st, atom(('rl', i, 'T', lo, hi)))
    g = sub(sub(hi, lo), n)
    if not f.entails(g) and not f.add_ge(g):
        raise Stop()
    return n


def at(st, i, lo, hi, nullable):
    """The end of the match at lo, or None."""
    f = st.facts
    if not nullable:
        if not f.is_ge(add(sub(hi, lo), -1)):
            return None
        n = norm(st, atom(('rl', i, 'T', lo, hi)))
        if not f.is_ge(add(n, -1)):
            return None
    n = length(st, i, lo, hi)
    e = norm(st, add(lo, n))
    f = st.facts
    if f.boundary('T', e, None) is None:
        f.bnd = f.bnd + (('T', e, True),)
    return e


def search(m, st, pat, s):
    lo, hi = span(st, s, 'search')
    try:
        n = rx.nfa(pat)
        anch = rx.anchored(n)
        null = rx.min_len(pat) == 0
    except rx.Bad as b:
        raise Unsupported('regex %s: %s' % (pat, b))
    e = at(st, ident(m, pat), lo, hi, null)
    if e is not None:
        return lo, e
    if anch or not st.facts.is_ge(add(sub(hi, lo), -2)):
        return None
    d = norm(st, atom(('rl', 'first:' + pat, 'T', lo, hi)))
    if not st.facts.is_ge(add(d, -1)):
        return None
    d = length(st, 'first:' + pat, lo, hi)
    p = norm(st, add(lo, d))
    f = st.facts
    if f.boundary('T', p, None) is None:
        f.bnd = f.bnd + (('T', p, True),)
    e = norm(st, add(p, length(st, 'later:' + pat, p, hi)))
    if f.boundary('T', e, None) is None:
        f.bnd = f.bnd + (('T', e, True),)
    return p, e


def regex_of(m, st, p):
    while p[0] in ('R',):
        p = m.load(st, p)
    if p[0] != 'regex':
        raise Unsupported('regex')
    return p[1]


@model('Regex::new', 'Regex.FromStr::from_str')
def regex_new(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    if s[1] == 'T' or s[1][0] != 'lit' or type(s[2]) is not int or type(s[3]) is not int:
        raise Unsupported('regex that is not a literal')
    return ok(('regex', s[1][1][s[2]:s[3]].decode()))


@model('Regex.Clone::clone')
def regex_clone(m, st, th, fn, a, dest, target):
    return ('regex', regex_of(m, st, a[0]))


@model('Regex::as_str')
def regex_as_str(m, st, th, fn, a, dest, target):
    b = regex_of(m, st, a[0]).encode()
    return ('S', ('lit', b), 0, len(b))


@model('Regex::find', 'Regex::is_match', 'Regex::shortest_match')
def regex_find(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[1])
    r = search(m, st, regex_of(m, st, a[0]), s)
    k = fn['path'].split('::')[-1]
    if k == 'is_match':
        return r is not None
    if k == 'shortest_match':
        raise Unsupported('shortest_match')
    return NONE if r is None else some(('rxm', s, r[0], r[1]))


@model('BigInt.Clone::clone', 'BigUint.Clone::clone')
def big_clone(m, st, th, fn, a, dest, target):
    return mt(m, st, a[0])


def mt(m, st, p):
    while p[0] == 'R':
        p = m.load(st, p)
    return p


@model('Match::start', 'Match::end', 'Match::len', 'Match::is_empty', 'Match::range', 'Match::as_str')
def match_get(m, st, th, fn, a, dest, target):
    _, s, x, y = mt(m, st, a[0])
    k = fn['path'].split('::')[-1]
    if k == 'as_str':
        return ('S', s[1], x, y)
    x, y = norm(st, sub(x, s[2])), norm(st, sub(y, s[2]))
    if k == 'start':
        return x
    if k == 'end':
        return y
    if k == 'len':
        return norm(st, sub(y, x))
    if k == 'is_empty':
        return st.facts.is_eq(sub(y, x))
    return ('A', 0, (x, y))


def rx_find(m, st, th, f, args, dest, target):
    """The reference's longest match of a documented language."""
    l = text_of(m, st, args[0])
    lang = l[1][1][l[2]:l[3]].decode()
    s = text_of(m, st, args[1])
    lo = norm(st, add(s[2], args[2]))
    s = ('S', s[1], lo, s[3])
    lo, hi = span(st, s, 'search')
    e = at(st, 'spec:' + lang, lo, hi, False)
    return m.ret(st, th, NONE if e is None else some(norm(st, sub(e, s[2]) if args[2] == 0 else add(sub(e, s[2]), args[2]))), dest, target)


def convert(m, st, chain, s):
    lo, hi = span(st, s, 'conversion')
    if chain.startswith('num:bool'):
        pass
    if st.facts.is_ge(add(norm(st, atom(('numok', chain, 'T', lo, hi))), -1)):
        return ok(('app', chain, ('S', 'T', lo, hi)))
    return err(('app', 'numerr:' + chain, ('S', 'T', lo, hi)))


NUMT = list(INTS) + ['BigInt', 'BigUint', 'f32', 'f64', 'bool']


@model(*['%s.FromStr::from_str' % t for t in NUMT])
def from_str(m, st, th, fn, a, dest, target):
    return convert(m, st, 'num:%s:10' % m.head(fn['self']), text_of(m, st, a[0]))


@model(*(['%s::from_str_radix' % t for t in INTS] + ['%s.Num::from_str_radix' % t for t in NUMT]))
def from_str_radix(m, st, th, fn, a, dest, target):
    t = m.head(fn['self'])
    r = norm(st, a[1])
    if type(r) is not int:
        raise Unsupported('unknown radix')
    if t in FL or t == 'bool':
        raise Unsupported('from_str_radix of ' + t)
    return convert(m, st, 'num:%s:%d' % (t, r), text_of(m, st, a[0]))


@model(*['%s.TryFrom::try_from' % t for t in INTS])
def try_from(m, st, th, fn, a, dest, target):
    v = a[0]
    if not (type(v) is tuple and v[0] == 'app' and v[1].startswith('num:')):
        return NotImplemented
    return convert(m, st, v[1] + '>try:x:%s' % m.head(fn['self']), v[2])


@model('ParseIntError::kind')
def err_kind(m, st, th, fn, a, dest, target):
    v = a[0]
    while v[0] == 'R':
        v = m.load(st, v)
    if not (v[0] == 'app' and v[1].startswith('numerr:')):
        raise Unsupported('kind of an error')
    lo, hi = span(st, v[2], 'conversion')
    n = norm(st, atom(('numerr', v[1][7:], 'T', lo, hi)))
    for i in range(4):
        if st.facts.is_eq(sub(n, i)):
            return ('R', st.alloc(('A', i, ())), ())
    return ('R', st.alloc(('A', 4, ())), ())


def cast_app(v, f, t):
    return ('app', v[1] + '>cast:%s:%s' % (f, t), v[2])


# ------------------------------------------------------------------ concrete texts
def pool():
    out = []
    base = [0, 1, 7, 9, 10, 11, 15, 99, 123, 170, 300, 1000, 10 ** 12, 1 << 200]
    for b in (8, 16, 32, 64, 128):
        for x in (1 << b, 1 << (b - 1)):
            base += [x - 1, x, x + 1]
    for n in base:
        for f in ('%d' % n, '%x' % n, '%X' % n, bin(n)[2:]):
            for s in ('', '+', '-', '00'):
                out.append(s + f)
    out += ['00000000000000000000000000000000000000000000000000000000000000000000000000001', '-00000000000000000000000000000000000000000000001']
    fl = ['1.5', '.5', '5.', '0.1', '1e5', '1E5', '1e+5', '1e-5', '1.5e3', '1.5E-3', '.5e1', '5.e1', 'inf', 'infinity', 'Inf', 'INF', 'Infinity', 'INFINITY', 'nan', 'NaN',
          'NAN', '1e400', '1e-400', '1e40', '1e-46', '0.0', '1.00000017881393432617187499', '1.00000017881393432617187501', '1.000000178813934326171875', '16777217',
          '16777219', '9007199254740993', '3.4028235e38', '3.4028236e38', '340282356779733661637539395458142568448', '1.7976931348623159e308', '4.9e-324', '2.5e-324', '7e-46', '1.4e-45',
          '123456.789', 'infin', 'in', 'i', 'na', '.', '.e1', 'e1', '1e', '1e+', '1.e', '1e5.5', '1.5.5', '1..5']
    for f in fl:
        out += [f, '-' + f, '+' + f]
    out += ['true', 'false', 'True', 'False', 'TRUE', 'FALSE', 'truefalse', 'truex', 't', 'tru', 'fals', 'yes', '1', '0']
    for d in ('5', '1', '1f', '1F', 'ff', '1.5', 'true'):
        for s in ('x', '_1', '_', ' ', ',6', '.', '.5', 'e', 'e1', 'e+', '-', '-2', '+2', 'u8', 'g', 'h', '٣', '５', ' 5'):
            out.append(d + s)
        for s in (' ', '\t', '_', '0x', '0b', '0o', '0X', '#', '$', '--', '++', '+-', '-+', '- ', '+ ', 'x', '٣', '−'):
            out.append(s + d)
    out += ['٣', '５', '+', '-', '+-', '_', 'x', '', ' ', 'g', 'ａ', 'é', '2', '8', '102', '12', '19', 'falſe']
    return list(dict.fromkeys(out))


POOL = pool()


def num_atoms(f):
    out = set()

    def see(v):
        for a in atoms_in(v):
            if a[0] in KINDS:
                out.add(a)
    for a, e in f.sub.items():
        see(atom(a))
        see(e)
    for x in list(f.ge) + list(f.ne):
        see(x)
    return out


def apps(v, out, d=0):
    if type(v) is not tuple or d > 40:
        return out
    if v and v[0] == 'app' and type(v[1]) is str and v[1].startswith('num:'):
        out.append(v)
    for x in v:
        apps(x, out, d + 1)
    return out


def relevant(st):
    return any(a[0] in KINDS for a in num_atoms(st.facts)) or any(apps(x, []) for e in st.pend if e for x in e.args)


def concretize(m, st, kind):
    """A text on which the state is reached and (for values) the results differ; None."""
    ats = num_atoms(st.facts)
    vals = [x for e in st.pend if e for x in e.args]
    spans = [(a[3], a[4]) for a in ats] + [(v[2][2], v[2][3]) for x in vals for v in apps(x, [])]
    if not spans:
        return ''
    f = st.facts
    los = [f.norm(lo) for lo, hi in spans]
    # the place where the earliest of them begins
    base = None
    for lo in los:
        if all(f.entails(sub(x, lo)) for x in los):
            base = lo
            break
    if base is None:
        return None
    his = [f.norm(hi) for lo, hi in spans]
    top = None
    for hi in his:
        if all(f.entails(sub(hi, x)) for x in his):
            top = hi
            break
    if top is None:
        return None
    cands = []
    pats = [a[1] for a in ats if a[0] == 'rl']
    for p in set(pats):
        for q in set(pats) | {'spec:' + s for s in m.specs}:
            if not q.startswith('spec:') or p == q:
                continue
            try:
                r = rx.compare(p.split(':', 1)[1], q.split(':', 1)[1])
            except rx.Bad:
                continue
            if r:
                cands += [r[0]] + [x for x in r[1:] if x]
    # texts first on which the atoms are as the state wants them as far as they speak of the whole text
    for c in dict.fromkeys(cands + POOL):
        g = pinned(m, f, base, top, c, ats)
        if g is None:
            continue
        if kind in ('value', 'uf-arg'):
            a, b = st.pend
            if not any(differ(pyval(x, g, base, c), pyval(y, g, base, c)) for x, y in zip(a.args, b.args)):
                continue
        return c
    return None


def plausible(f, base, top, cb, ats):
    """(A quick check before `pinned`.)"""
    free = [a for a, k in (top[2] if type(top) is tuple else ()) if k == 1 and a not in atoms_in(base) and a[0] in ('n', 'x', 'end')]
    env = {}
    if free:
        env[free[0]] = sub(add(base, len(cb)), sub(top, atom(free[0])))

    def g(n):
        return map_atoms(n, env.get)
    for r in range(4):
        for a in ats:
            lo, hi = sub(g(a[3]), base), sub(g(a[4]), base)
            if type(lo) is not int or type(hi) is not int:
                continue
            if not 0 <= lo <= hi <= len(cb):
                return False
            try:
                v = value_of(a, cb[lo:hi].decode())
            except UnicodeDecodeError:
                return False
            x = g(f.norm(atom(a)))
            b = map_in_atom(a, env.get)
            if x == atom(b) or x == atom(a):
                env[a] = env[b] = v
            elif type(x) is int and x != v:
                return False
    for l in f.ge:
        l = g(l)
        if type(l) is int and l < 0:
            return False
    for l in f.ne:
        if g(l) == 0:
            return False
    for a, e in f.sub.items():
        x = g(sub(atom(a), e))
        if type(x) is int and x != 0:
            return False
    return True


def pinned(m, f, base, top, c, ats):
    cb = c.encode()
    if not plausible(f, base, top, cb, ats):
        return None
    if not f.feasible_eq(f.norm(sub(top, add(base, len(cb))))):
        return None
    g = f.copy()
    g.sub = dict(g.sub)
    if not g.add_eq(g.norm(sub(top, add(base, len(cb))))):
        return None
    i = 0
    for ch in c:
        x = sub(atom(('ch', 'T', g.norm(add(base, i)))), ord(ch))
        x = g.norm(x)
        if type(x) is int:
            if x != 0:
                return None
        elif not g.feasible_eq(x) or not g.add_eq(x):
            return None
        i += len(ch.encode())
    for r in range(4):
        for a in sorted(ats, key=akey):
            lo, hi = g.norm(sub(a[3], base)), g.norm(sub(a[4], base))
            if type(lo) is not int or type(hi) is not int:
                if r == 3:
                    return None
                continue
            if not 0 <= lo <= hi <= len(cb):
                return None
            try:
                v = value_of(a, cb[lo:hi].decode())
            except UnicodeDecodeError:
                return None
            x = g.norm(sub(atom(a[:3] + (g.norm(a[3]), g.norm(a[4]))), v))
            if type(x) is int:
                if x != 0:
                    return None
            elif not g.feasible_eq(x) or not g.add_eq(x):
                return None
    n = g.norm
    ends = {0}
    i = 0
    for ch in c:
        i += len(ch.encode())
        ends.add(i)
    for t, p, v in g.bnd:
        k = n(sub(p, base))
        if type(k) is int and 0 <= k <= len(cb) and (k in ends) is not v:
            return None
    for t, pat, lo, hi in g.nost:
        b = pat[1] if type(pat) is tuple and pat[0] == 'lit' else pat if type(pat) is bytes else None
        if b is None:
            return None
        for k in range(len(cb)):
            if cb[k:k + len(b)] == b:
                x, y = n(sub(add(base, k), lo)), n(sub(hi, add(base, k)))
                if not (type(x) is int and x < 0 or type(y) is int and y <= 0):
                    return None
    for l in g.ge:
        l = n(l)
        if type(l) is int and l < 0:
            return None
        if type(l) is tuple and g.entails(add(-1, l, -1)):
            return None
    return g


def pyval(v, g, base, c):
    if type(v) is bool:
        return v
    if isnum(v):
        n = g.norm(v)
        return n if type(n) is int else None
    if type(v) is not tuple or not v:
        return None
    if v[0] == 'A':
        return ('A', v[1], [pyval(x, g, base, c) for x in v[2]])
    if v[0] == 'app' and type(v[1]) is str and v[1].startswith('num:') or v[0] in ('S', 'str') and v[1] == 'T':
        s = v[2] if v[0] == 'app' else v
        lo, hi = g.norm(sub(s[2], base)), g.norm(sub(s[3], base))
        if type(lo) is not int or type(hi) is not int or not 0 <= lo <= hi <= len(c.encode()):
            return None
        t = c.encode()[lo:hi].decode(errors='replace')
        if v[0] != 'app':
            return ('text', t)
        x, e = read(v[1], t)
        return None if e is not None else x if type(x) in (int, bool) else ('num', x)
    if v[0] == 'seq' and all(x[0] == 'i' for x in v[1]):
        return ('A', 'seq', [pyval(x[1], g, base, c) for x in v[1]])
    return None


def differ(x, y):
    if x is None or y is None:
        return False
    if type(x) is tuple and type(y) is tuple and x[0] == 'A' and y[0] == 'A':
        return x[1] != y[1] or len(x[2]) != len(y[2]) or any(differ(a, b) for a, b in zip(x[2], y[2]))
    if type(x) is tuple and type(y) is tuple and x[0] == y[0]:
        return x[1] != y[1]
    if type(x) in (int, bool) and type(y) in (int, bool):
        return x != y
    return False
