"""Regular expressions: what the regex crate's leftmost-first search finds at the
start of a text, compared exactly with the longest match of a documented language."""
import unicodedata

MAX = 0x10FFFF


class Bad(Exception):
    pass


def ranges_of(pred):
    out = []
    c = 0
    while c <= MAX:
        if pred(c):
            d = c
            while d < MAX and pred(d + 1):
                d += 1
            out.append((c, d))
            c = d + 1
        c += 1
    return out


_cache = {}


def unicode_class(k):
    if k not in _cache:
        f = {'d': lambda c: unicodedata.category(chr(c)) == 'Nd',
             'w': lambda c: chr(c).isalpha() or unicodedata.category(chr(c)) in ('Mn', 'Mc', 'Me', 'Nd', 'Pc', 'Nl') or c in (0x200C, 0x200D),
             's': lambda c: c in (9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000) or 0x2000 <= c <= 0x200A}[k]
        _cache[k] = ranges_of(f)
    return _cache[k]


ASCII = {'d': [(48, 57)], 'w': [(48, 57), (65, 90), (95, 95), (97, 122)], 's': [(9, 13), (32, 32)]}
POSIX = {'digit': [(48, 57)], 'xdigit': [(48, 57), (65, 70), (97, 102)], 'alpha': [(65, 90), (97, 122)], 'alnum': [(48, 57), (65, 90), (97, 122)],
         'upper': [(65, 90)], 'lower': [(97, 122)], 'space': [(9, 13), (32, 32)], 'word': ASCII['w']}


def negate(rs):
    out = []
    p = 0
    for a, b in sorted(rs):
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= MAX:
        out.append((p, MAX))
    return out


def fold(rs, uni):
    out = list(rs)
    for a, b in rs:
        if a <= 122 and b >= 97:
            out.append((max(a, 97) - 32, min(b, 122) - 32))
        if a <= 90 and b >= 65:
            out.append((max(a, 65) + 32, min(b, 90) + 32))
        if uni:
            for x, y in ((0x73, 0x17F), (0x53, 0x17F), (0x6B, 0x212A), (0x4B, 0x212A), (0xE5, 0x212B)):
                if a <= x <= b:
                    out.append((y, y))
                if a <= y <= b:
                    out += [(x, x)]
            if b > 127 and not (a == 0 or b == MAX or (a, b) in ((0x17F, 0x17F), (0x212A, 0x212A))):
                raise Bad('case folding beyond ASCII')
    return out


class Parser:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.flags = {'i': False, 's': False, 'u': True, 'U': False, 'x': False, 'm': False}

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def parse(self):
        r = self.alt()
        if self.i < len(self.s):
            raise Bad('syntax')
        return r

    def alt(self):
        saved = dict(self.flags)
        arms = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            arms.append(self.cat())
        self.flags = saved
        return arms[0] if len(arms) == 1 else ('alt', arms)

    def cat(self):
        out = []
        while self.i < len(self.s) and self.peek() not in ('|', ')'):
            if self.flags['x'] and self.peek() in ' \t\n#':
                raise Bad('x flag')
            a = self.atom()
            if a is None:
                continue
            out.append(self.quant(a))
        return ('cat', out)

    def quant(self, a):
        while True:
            c = self.peek()
            if c and c in '*+?':
                self.i += 1
                lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
            elif c == '{':
                j = self.s.index('}', self.i)
                body = self.s[self.i + 1:j].replace(' ', '')
                self.i = j + 1
                if ',' in body:
                    x, y = body.split(',')
                    lo, hi = int(x or 0), int(y) if y else None
                else:
                    lo = hi = int(body)
                if lo > 200 or (hi or 0) > 200:
                    raise Bad('large counted repetition')
            else:
                return a
            greedy = True
            if self.peek() == '?':
                self.i += 1
                greedy = False
            if self.flags['U']:
                greedy = not greedy
            a = ('rep', a, lo, hi, greedy)

    def cls(self, rs):
        if self.flags['i']:
            rs = fold(rs, self.flags['u'])
        return ('set', tuple(sorted(rs)))

    def short(self, k):
        rs = unicode_class(k.lower()) if self.flags['u'] else ASCII[k.lower()]
        return negate(rs) if k.isupper() else rs

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            if self.peek() == '?':
                self.i += 1
                if self.peek(2) == 'P<' or self.peek() == '<':
                    self.i = self.s.index('>', self.i) + 1
                else:
                    on = True
                    fl = dict(self.flags)
                    while True:
                        c = self.peek()
                        self.i += 1
                        if c == '-':
                            on = False
                        elif c == ':':
                            saved = self.flags
                            self.flags = fl
                            r = self.alt()
                            self.flags = saved
                            self.close()
                            return r
                        elif c == ')':
                            self.flags = fl
                            return None
                        elif c and c in 'isuUxmR':
                            fl[c] = on
                        else:
                            raise Bad('group flags')
            saved = dict(self.flags)
            r = self.alt()
            self.flags = saved
            self.close()
            return r
        if c == '[':
            return self.bracket()
        if c == '.':
            return ('set', tuple(negate([(10, 10)])) if not self.flags['s'] else ((0, MAX),))
        if c == '^':
            if self.flags['m']:
                raise Bad('multi-line ^')
            return ('start',)
        if c == '$':
            if self.flags['m']:
                raise Bad('multi-line $')
            return ('end',)
        if c == '\\':
            return self.escape()
        if c in '*+?{':
            raise Bad('nothing to repeat')
        return self.cls([(ord(c), ord(c))])

    def close(self):
        if self.peek() != ')':
            raise Bad('unclosed group')
        self.i += 1

    def char_escape(self, c):
        if c in 'nrtfav0':
            if c == '0':
                raise Bad('octal')
            return {'n': 10, 'r': 13, 't': 9, 'f': 12, 'a': 7, 'v': 11}[c]
        if c in 'xuU':
            if self.peek() == '{':
                j = self.s.index('}', self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
                return v
            n = {'x': 2, 'u': 4, 'U': 8}[c]
            v = int(self.s[self.i:self.i + n], 16)
            self.i += n
            return v
        if c.isalnum():
            raise Bad('escape \\' + c)
        return ord(c)

    def escape(self):
        c = self.peek()
        self.i += 1
        if c == 'A':
            return ('start',)
        if c == 'z':
            return ('end',)
        if c in 'dDwWsS':
            return self.cls(self.short(c)) if not self.flags['i'] else ('set', tuple(self.short(c)))
        v = self.char_escape(c)
        return self.cls([(v, v)])

    def bracket(self):
        neg = False
        rs = []
        if self.peek() == '^':
            neg = True
            self.i += 1
        first = True
        while first or self.peek() != ']':
            first = False
            if self.i >= len(self.s):
                raise Bad('unclosed class')
            if self.peek(2) in ('&&', '--', '~~'):
                raise Bad('class operation')
            if self.peek(2) == '[:':
                j = self.s.index(':]', self.i)
                k = self.s[self.i + 2:j]
                self.i = j + 2
                if k.startswith('^'):
                    rs += negate(POSIX[k[1:]])
                else:
                    if k not in POSIX:
                        raise Bad('class ' + k)
                    rs += POSIX[k]
                continue
            if self.peek() == '[':
                self.i += 1
                rs += list(self.bracket()[1])
                continue
            c = self.peek()
            self.i += 1
            if c == '\\':
                c = self.peek()
                self.i += 1
                if c in 'dDwWsS':
                    rs += self.short(c)
                    continue
                lo = self.char_escape(c)
            else:
                lo = ord(c)
            hi = lo
            if self.peek() == '-' and self.peek(2) != '-]':
                self.i += 1
                c = self.peek()
                self.i += 1
                if c == '\\':
                    c = self.peek()
                    self.i += 1
                    hi = self.char_escape(c)
                else:
                    hi = ord(c)
                if hi < lo:
                    raise Bad('range')
            rs.append((lo, hi))
        self.i += 1
        if self.flags['i']:
            rs = fold(rs, self.flags['u'])
        if neg:
            rs = negate(rs)
        return ('set', tuple(sorted(rs)))


class NFA:
    """states: ('set', ranges, next) | ('split', [next in order of preference]) | ('match',) | ('start', next) | ('end', next)"""

    def __init__(self, ast):
        self.st = []
        m = self.add(('match',))
        self.start = self.build(ast, m)

    def add(self, s):
        self.st.append(s)
        if len(self.st) > 20000:
            raise Bad('too large')
        return len(self.st) - 1

    def build(self, a, nx):
        k = a[0]
        if k == 'cat':
            for x in reversed(a[1]):
                nx = self.build(x, nx)
            return nx
        if k == 'alt':
            return self.add(('split', [self.build(x, nx) for x in a[1]]))
        if k == 'set':
            return self.add(('set', a[1], nx))
        if k in ('start', 'end'):
            return self.add((k, nx))
        if k == 'rep':
            _, x, lo, hi, greedy = a
            if hi is None:
                loop = self.add(None)
                body = self.build(x, loop)
                self.st[loop] = ('split', [body, nx] if greedy else [nx, body])
                nx = loop if lo == 0 else nx
                if lo > 0:
                    # x{lo,}: lo-1 copies, then x (loop)
                    nx = self.build(x, loop)
                    lo -= 1
            else:
                out = nx
                for _ in range(hi - lo):
                    b = self.build(x, nx)
                    nx = self.add(('split', [b, out] if greedy else [out, b]))
            for _ in range(lo):
                nx = self.build(x, nx)
            return nx
        raise Bad(k)

    def closure(self, s, out, at_start, seen):
        """Adds the consuming and match states reached from s, in order of preference."""
        if s in seen:
            return
        seen.add(s)
        k = self.st[s]
        if k[0] == 'split':
            for x in k[1]:
                self.closure(x, out, at_start, seen)
        elif k[0] == 'start':
            if at_start:
                self.closure(k[1], out, at_start, seen)
        elif k[0] == 'end':
            raise Bad('end anchor')
        else:
            out.append(s)

    def list(self, roots, at_start=False):
        out = []
        seen = set()
        for r in roots:
            self.closure(r, out, at_start, seen)
        return out


def cut(n, lst):
    """(threads that go on, does one match here): less preferred threads than a match are dropped"""
    r = []
    for s in lst:
        if n.st[s][0] == 'match':
            return tuple(r), True
        r.append(s)
    return tuple(r), False


def split_points(n, pts):
    for k in n.st:
        if k[0] == 'set':
            for a, b in k[1]:
                pts.add(a)
                pts.add(b + 1)


def has(rs, c):
    return any(a <= c <= b for a, b in rs)


def step(n, threads, c):
    return [n.st[s][2] for s in threads if has(n.st[s][1], c)]


def _memo(f):
    seen = {}

    def g(p):
        if p not in seen:
            seen[p] = f(p)
        return seen[p]
    return g


@_memo
def nfa(pat):
    try:
        return NFA(Parser(pat).parse())
    except (ValueError, IndexError, KeyError) as e:
        raise Bad('syntax: ' + str(e))


def anchored(n):
    """Do all matches start at the start of the text?"""
    return not n.list([n.start], False)


def compare(code, spec):
    """None if the leftmost-first match of `code` at the start of a text is the longest match of `spec` there,
    for every text; otherwise a text for which it is not, with both lengths."""
    a, b = nfa(code), nfa(spec)
    pts = {0}
    split_points(a, pts)
    split_points(b, pts)
    pts = sorted(p for p in pts if p <= MAX)

    def nice(p):
        i = pts.index(p)
        hi = pts[i + 1] - 1 if i + 1 < len(pts) else MAX
        for lo, h in ((48, 57), (97, 122), (65, 90), (33, 126)):
            if p <= h and hi >= lo:
                return max(p, lo)
        return p
    reps = [nice(p) for p in pts]
    x, xm = cut(a, a.list([a.start], True))
    y = b.list([b.start], True)
    ym = any(b.st[s][0] == 'match' for s in y)
    first = (x, frozenset(y))
    seen = {first}
    work = [(first, xm, ym, '', -1, -1)]
    while work:
        (x, y), xm, ym, t, lx, ly = work.pop(0)
        if xm:
            lx = len(t)
        if ym:
            ly = len(t)
        if xm != ym:
            return t, (None if lx < 0 else t[:lx]), (None if ly < 0 else t[:ly])
        for c in reps:
            nx, nxm = cut(a, a.list(step(a, x, c)))
            ny = b.list(step(b, [s for s in y if b.st[s][0] == 'set'], c))
            nym = any(b.st[s][0] == 'match' for s in ny)
            if not nx and not ny and not nxm and not nym:
                continue
            k = (nx, frozenset(ny))
            if nxm != nym or k not in seen:
                seen.add(k)
                if len(seen) > 20000:
                    raise Bad('too many states')
                work.append((k, nxm, nym, t + chr(c), lx, ly))
    return None


def take(n, s, at_start):
    """How much (in bytes) the leftmost-first match at the start of s takes, or None."""
    x, m = cut(n, n.list([n.start], at_start))
    r = 0 if m else None
    k = 0
    for c in s:
        x, m = cut(n, n.list(step(n, x, ord(c))))
        k += len(c.encode())
        if m:
            r = k
        if not x:
            break
    return r


def longest(n, s):
    """How much (in bytes) the longest match at the start of s takes, or None."""
    y = n.list([n.start], True)
    r = 0 if any(n.st[q][0] == 'match' for q in y) else None
    k = 0
    for c in s:
        y = n.list(step(n, [q for q in y if n.st[q][0] == 'set'], ord(c)))
        k += len(c.encode())
        if any(n.st[q][0] == 'match' for q in y):
            r = k
        if not y:
            break
    return r


def min_len(spec):
    n = nfa(spec)
    cur = n.list([n.start], True)
    return 0 if any(n.st[s][0] == 'match' for s in cur) else 1


if __name__ == '__main__':
    F = r"(?i)\A[+-]?(?:infinity|inf|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)"
    S = r"(?:\+|-)?(?:(?:[iI][nN][fF])|(?:[iI][nN][fF][iI][nN][iI][tT][yY])|(?:[nN][aA][nN])|(?:[0-9]+|[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[eE](?:\+|-)?[0-9]+)?)"
    print(compare(F, S))
    print(compare(F.replace('infinity|inf', 'inf|infinity'), S))
    print(compare(r'\A\d+', '[0-9]+'), compare(r'\A[0-9]+?', '[0-9]+'), compare(r'\A(?:[0-9])+', '[0-9]+'), compare(r'\A[+-]?[0-9]*', '[+-]?[0-9]+'))
    print(compare(r'\A(?:true|false|tru)', 'true|false'), anchored(nfa('[0-9]+')), anchored(nfa(r'\A[0-9]+|x')), anchored(nfa('(?:^a|\\Ab)')))
    print(compare(r'\A[[:digit:]]{1,}', '[0-9]+'), compare(r'(?-u)\A\d+', '[0-9]+'), compare(r'(?i)\A[+-]?[0-9a-f]+', '[+-]?[0-9A-Fa-f]+'))
