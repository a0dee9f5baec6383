"""C26, C19: the types that patterns have, decided by the type checker."""
import itertools
import rs

INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']
BIG = {'big_int': 'num_bigint::BigInt', 'big_uint': 'num_bigint::BigUint'}

HEAD = '''use aoc_parse::{parser, prelude::*};
use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet, VecDeque};
pub fn out<T, P: Parser<Output = T>>(_p: &P) {}
pub fn copy<P: Copy>(_p: &P) {}
pub struct A1; pub struct A2; pub struct A3; pub struct S<T>(T);
pub const LIT: &str = "lit"; pub const CH: char = 'c';
'''


def names():
    """(documented name, documented type)"""
    out = [(n + k, n) for n in INTS for k in ('', '_bin', '_hex')]
    out += [(n + k, t) for n, t in BIG.items() for k in ('', '_bin', '_hex')]
    out += [('f32', 'f32'), ('f64', 'f64'), ('bool', 'bool')]
    out += [(n, 'char') for n in ('alpha', 'alnum', 'upper', 'lower', 'any_char')] + [(n, 'usize') for n in ('digit', 'digit_bin', 'digit_hex')]
    return out


FUNCS = [('char_of("ab")', 'usize'), ('line(u8)', 'u8'), ('lines(u8)', 'Vec<u8>'), ('section(u8)', 'u8'), ('sections(u8)', 'Vec<u8>'),
         ('repeat_sep(u8, ",")', 'Vec<u8>'), ('string(alpha+)', 'String'), ('hash_set(u8+)', 'HashSet<u8>'), ('btree_set(u8+)', 'BTreeSet<u8>'),
         ('vec_deque(u8+)', 'VecDeque<u8>'), ('hash_map((alpha u8)+)', 'HashMap<char, u8>'), ('btree_map((alpha u8)+)', 'BTreeMap<char, u8>'),
         ('hash_map(lines(string(alpha+) ":" u8))', 'HashMap<String, u8>'), ('btree_map(repeat_sep(alpha "=" i64, ","))', 'BTreeMap<char, i64>'),
         ('hash_set(repeat_sep(u8, ","))', 'HashSet<u8>'), ('btree_set(lines(i16))', 'BTreeSet<i16>'), ('vec_deque(lines(u8 " " u8))', 'VecDeque<(u8, u8)>')]

# combinators over a p of type P and a q of type Q, both Copy
COMB = [('p', 'P'), ('p q', '(P, Q)'), ('p "x" q', '(P, Q)'), ('(p q)', '(P, Q)'), ('p*', 'Vec<P>'), ('p+', 'Vec<P>'), ('p?', 'Option<P>'),
        ('{p, p}', 'P'), ('{"x" => 1u8, "y" => 2u8, p => 3u8}', 'u8'), ('a:p => S(a)', 'S<P>'), ('a:p b:q => (b, a)', '(Q, P)'),
        ('line(p)', 'P'), ('lines(p)', 'Vec<P>'), ('lines(p q)', 'Vec<(P, Q)>'), ('section(p)', 'P'), ('sections(lines(p))', 'Vec<Vec<P>>'),
        ('repeat_sep(p, q)', 'Vec<P>'), ('repeat_sep(p q, ",")', 'Vec<(P, Q)>'), ('string(p)', 'String'), ('vec_deque(p*)', 'VecDeque<P>'),
        ('sections(lines({p, "-" a:p => a}*))', 'Vec<Vec<Vec<P>>>')]


def c26():
    """[(label, line of Rust)]"""
    out = []
    for n, t in names():
        out.append(('`%s` is a parser for %s' % (n, t), 'fn t_#() { out::<%s, _>(&%s); }' % (t, n)))
        out.append(('`%s` can be imported by its name from the prelude, is Copy and can be used in a pattern any number of times' % n,
                    'fn t_#() { use aoc_parse::prelude::%s as it; copy(&it); let v = it; let p = parser!(v "," v); out::<(%s, %s), _>(&p); copy(&p); let _ = (v, it); }' % (n, t, t)))
    for src, t in FUNCS:
        out.append(('`%s` produces %s' % (src, t), 'fn t_#() { let p = parser!(%s); out::<%s, _>(&p); }' % (src, t)))
        out.append(('`%s` is Copy' % src, 'fn t_#() { let p = parser!(%s); copy(&p); let q = p; let r = parser!(p " " q); out::<(%s, %s), _>(&r); copy(&r); }' % (src, t, t)))
    for src, t in COMB:
        b = 'fn t_#<P: \'static, Q: \'static>(p: impl Parser<Output = P, RawOutput = (P,)> + Copy, q: impl Parser<Output = Q, RawOutput = (Q,)> + Copy)'
        out.append(('`%s` produces %s' % (src, t), b + ' { let r = parser!(%s); out::<%s, _>(&r); }' % (src, t)))
        out.append(('`%s` is Copy if its parts are' % src, b + ' { let r = parser!(%s); copy(&r); }' % src))
    for l in ('"x"', "'x'", 'LIT', 'CH', 'LIT "x" CH'):
        out.append(('`%s` produces no value and is Copy' % l, 'fn t_#() { let r = parser!(%s); out::<(), _>(&r); copy(&r); }' % l))
    out.append(('a parser is a parser by reference', 'fn t_#<P>(p: impl Parser<Output = P>) { out::<P, _>(&&p); out::<P, _>(&p); }'))
    out.append(('a parser can be named in a signature', 'fn t_#() -> impl Parser<Output = Vec<(u64, i8)>> + Copy { parser!(lines(u64 "x" i8)) }'))
    out.append(('parse() takes a text and gives the value or a ParseError',
                'fn t_#<P>(p: impl Parser<Output = P>, s: &str) -> Result<P, aoc_parse::ParseError> { p.parse(s) }'))
    out.append(('a ParseError has its source and location', 'fn t_#(e: aoc_parse::ParseError) -> (String, usize) { (e.source, e.location) }'))
    out.append(('a ParseError is an error', 'fn t_#(e: aoc_parse::ParseError) -> Box<dyn std::error::Error> { Box::new(e) }'))
    out.append(('aoc_parse() takes the caller\'s error type', 'fn t_#<P>(p: impl Parser<Output = P>, s: &str) -> Result<P, Box<dyn std::error::Error>> { aoc_parse(s, p) }'))
    out.append(('a rule set produces the type of its last pattern',
                'fn t_#() { let p = parser!(rule a: u8 = {u8, "(" x:a ")" => x}; rule b: Vec<u8> = a+; a "," b); out::<(u8, Vec<u8>), _>(&p); }'))
    return out


# (source of a term, the values it contributes)
TERMS = [('"a"', []), ("'b'", []), ('LIT', []), ('A', ['A1']), ('B', ['A2']), ('(A B)', ['(A1, A2)']), ('("a" B "c")', ['A2']), ('("a" \'b\')', ['()']),
         ('{A, A}', ['A1']), ('{"a", "b"}', ['()']), ('{A B, A "," B}', ['(A1, A2)']), ('A*', ['Vec<A1>']), ('"a"*', ['Vec<()>']), ('(A B)+', ['Vec<(A1, A2)>']),
         ('B?', ['Option<A2>']), ('"a"?', ['Option<()>']), ('AB', ['(A1, A2)']), ('UN', ['()']), ('L0', ['()']), ('(x:A => S(x))', ['S<A1>']), ('{"a" => A3, "b" => A3}', ['A3']),
         ('("-" A)?', ['Option<A1>']), ('((A B) "x" A)', ['((A1, A2), A1)']), ('lines(A B)', ['Vec<(A1, A2)>']), ('line(A B)', ['(A1, A2)']), ('line("")', ['()']),
         ('string(A B)', ['String']), ('repeat_sep("a", A)', ['Vec<()>']), ('l:A', ['A1']), ('l:"a"', []), ('l:(A B)', ['(A1, A2)']), ('(() A)', ['((), A1)']), ('()', ['()']),
         ('("a")', ['()']), ("('b')", ['()']), ('(LIT)', ['()']), ('(A)', ['A1']), ('((A))', ['A1']), ('((A B))', ['(A1, A2)']), ('(("a"))', ['()']), ('(AB)', ['(A1, A2)']),
         ('("a"*)', ['Vec<()>']), ('(A*)', ['Vec<A1>']), ('(B?)', ['Option<A2>']), ('({A, A})', ['A1']), ('(line(A))', ['A1']), ('("x" => A3)', ['A3']), ('(A B => A3)', ['A3']),
         ('("x" => ())', ['()']), ('(A => ())', ['()']), ('{A => (), "b"}', ['()']), ('{("a"), "b"}', ['()']), ('{A, (A)}', ['A1']), ('{A B, (A B)}', ['(A1, A2)']), ("{'a', \"b\", LIT}", ['()']),
         ("'b'+", ['Vec<()>']), ('LIT?', ['Option<()>']), ('AB+', ['Vec<(A1, A2)>']), ('UN?', ['Option<()>']), ('("a")*', ['Vec<()>']), ('(A)+', ['Vec<A1>']), ('{A, A}?', ['Option<A1>']),
         ('line(A)?', ['Option<A1>']), ('line("a")*', ['Vec<()>']), ('l:A*', ['Vec<A1>']), ('l:"a"+', ['Vec<()>']), ('l:B?', ['Option<A2>']), ('l:line(A)', ['A1']), ('l:line(A)+', ['Vec<A1>']),
         ('l:{A, A}', ['A1']), ("l:'b'", []), ('l:LIT', []), ('l:("a")', ['()']), ('l:AB', ['(A1, A2)']), ('line(A "x")', ['A1']), ('lines("a")', ['Vec<()>']), ('section(A B,)', ['(A1, A2)']),
         ('repeat_sep(A B, ",",)', ['Vec<(A1, A2)>']), ('string("a")', ['String']), ('vec_deque(A*)', ['std::collections::VecDeque<A1>']), ('{A, A,}', ['A1'])]
NMAIN = 33      # of those, the ones that are combined in all pairs (the others: with a few)


def shape(vals):
    if not vals:
        return '()'
    if len(vals) == 1:
        return vals[0]
    return '(' + ', '.join(vals) + ')'


PRE = ('fn t_#(A: impl Parser<Output = A1, RawOutput = (A1,)> + Copy, B: impl Parser<Output = A2, RawOutput = (A2,)> + Copy) '
       '{ let AB = parser!(A B); let UN = parser!("u"); let L0 = parser!(("u")); let p = parser!(%s); out::<%s, _>(&p); }')


def c19(tier):
    out = []

    def put(terms, wrap='%s', typ=None):
        if any(x[0][-1].isalnum() and not x[0][0].isdigit() and y[0][0] == '(' for x, y in zip(terms, terms[1:])):
            return      # would be a function call
        src = ' '.join(t[0] for t in terms)
        vals = [v for t in terms for v in t[1]]
        if len(vals) > 8:
            return
        ty = shape(vals)
        out.append(('`%s` produces %s' % (wrap % src, (typ or '%s') % ty), PRE % (wrap % src, (typ or '%s') % ty)))
    for t in TERMS:
        put([t])
    for c in itertools.product(TERMS[:NMAIN], repeat=2):
        put(c)
    for t in TERMS[NMAIN:]:
        for u in TERMS:
            put((t, u))
            put((u, t))
        put((TERMS[0], t, TERMS[4]))
        put((TERMS[3], t, TERMS[1]))
    core = [t for t in TERMS if t[0] in ('"a"', "'b'", 'A', 'B', '(A B)', '("a" \'b\')', '{"a", "b"}', 'A*', 'B?', 'AB', 'UN', '(x:A => S(x))', 'l:A', 'l:"a"')]
    for c in itertools.product(core, repeat=3):
        put(c)
    wraps = [('(%s)', '%s'), ('(%s)*', 'Vec<%s>'), ('(%s)+', 'Vec<%s>'), ('(%s)?', 'Option<%s>'), ('{%s, %s}', '%s'), ('lines(%s)', 'Vec<%s>'), ('line(%s)', '%s'),
             ('section(%s)', '%s'), ('sections(%s)', 'Vec<%s>'), ('repeat_sep(%s, A B)', 'Vec<%s>'), ('repeat_sep(%s, "x")', 'Vec<%s>'), ('string(%s)', 'String'), ('vec_deque((%s)*)', 'std::collections::VecDeque<%s>')]
    for w, ty in wraps:
        for c in [(t,) for t in core] + list(itertools.product([t for t in core if t[0] in ('"a"', 'A', 'B', '(A B)', 'UN')], repeat=2)):
            src = ' '.join(t[0] for t in c)
            if any(x[0][-1].isalnum() and y[0][0] == '(' for x, y in zip(c, c[1:])):
                continue
            vals = shape([v for t in c for v in t[1]])
            s = w.replace('%s', src)
            y = ty.replace('%s', vals)
            out.append(('`%s` produces %s' % (s, y), PRE % (s, y)))
    # two to eight values with literals in between
    a, b, lit = ('A', ['A1']), ('B', ['A2']), ('","', [])
    st = [('A*', ['Vec<A1>']), ('(B A)', ['(A2, A1)']), ('B?', ['Option<A2>'])]
    for n in range(2, 9):
        for mask in range(1 << (n + 1)) if n <= 5 or tier != 'quick' else [0, 1, (1 << n), (1 << (n + 1)) - 1, (1 << n) - 2, 0b10101010 & ((1 << (n + 1)) - 1)] + [1 << i for i in range(n + 1)]:
            terms = []
            for i in range(n):
                if mask >> i & 1:
                    terms.append(lit)
                terms.append((a, b)[(i * 5 + n) % 2] if i % 4 != 2 else st[(i + n) % 3])
            if mask >> n & 1:
                terms.append(lit)
            put(terms)
            if mask in (0, (1 << (n + 1)) - 1):
                put(terms, 'lines(%s)', 'Vec<%s>')
                put(terms, '(%s)', '%s')
    # two literals next to each other, at every place
    for n in range(1, 7):
        for at in range(n + 1):
            put([(a, b)[i % 2] for i in range(at)] + [lit, ("'b'", [])] + [(a, b)[i % 2] for i in range(at, n)])
    r = 'fn t_#(A: impl Parser<Output = A1, RawOutput = (A1,)> + Copy + \'static, B: impl Parser<Output = A2, RawOutput = (A2,)> + Copy + \'static) { let p = parser!(%s); out::<%s, _>(&p); }'
    for s, y in [('rule r: (A1, A2) = A B; r B', '((A1, A2), A2)'), ('rule r: () = "x"; r B', '((), A2)'), ('rule r: () = "x"; r', '()'),
                 ('rule r: (A1, A2) = A B; r', '(A1, A2)'), ('rule r: (A1, A2) = A B; r+', 'Vec<(A1, A2)>'), ('rule r: (A1, A2) = A B; A r "x" r', '(A1, (A1, A2), (A1, A2))'),
                 ('rule r: A1 = A; rule s: (A1, A2) = r B; s r', '((A1, A2), A1)'), ('rule r: Vec<A1> = A*; lines(r B)', 'Vec<(Vec<A1>, A2)>'),
                 ('rule r: (A1, A2) = A B; {r, r}', '(A1, A2)'), ('rule r: Option<A2> = B?; "x" r', 'Option<A2>'), ('rule r: (A1, A2, A1) = A "x" B A; "y" r r', '((A1, A2, A1), (A1, A2, A1))')]:
        out.append(('`%s` produces %s' % (s, y), r % (s, y)))
    return out


def run(pid, obs, ctx, repo):
    c = rs.Checker(ctx, repo, pid)
    n = 8 if len(obs) > 300 else 1
    jobs, where = [], []
    for k in range(n):
        part = obs[k::n]
        text = HEAD
        at = {}
        line = text.count('\n') + 1
        for i, (label, code) in enumerate(part):
            code = code.replace('t_#', 't_%d' % i)
            assert '\n' not in code
            text += code + '\n'
            at[line] = label
            line += 1
        jobs.append(('%s_%d' % (pid.lower(), k), text))
        where.append(at)
    viol, und = [], []
    bad = set()
    for (name, _), at, (good, errs) in zip(jobs, where, c.many(jobs)):
        if good:
            continue
        seen = False
        for msg, lines, text in errs:
            ls = [at[l] for l in lines if l in at]
            if not ls:
                und.append('rustc: ' + msg[:200])
                continue
            seen = True
            if ls[0] in bad:
                continue
            bad.add(ls[0])
            viol.append({'witness': 'types', 'kind': 'type', 'what': 'it does not hold that %s: %s' % (ls[0], msg), 'where': text[:600], 'exact': True})
        if not seen and not und:
            und.append('%s fails without an error message' % name)
    return viol, und, {'obligations': len(obs), 'rule': 'each statement is a function that type-checks if and only if it holds', 'failed': len(bad)}


def decide(pid, out, repo, tier, ctx):
    try:
        return run(pid, c26() if pid == 'C26' else c19(tier), ctx, repo)
    except rs.Fail as e:
        return [], [str(e)], {}
