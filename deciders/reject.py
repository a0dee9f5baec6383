"""C27: malformed patterns do not compile, decided by the compiler itself (nothing is run)."""
import rs

HEAD = 'use aoc_parse::{parser, prelude::*};\npub const LIT: &str = "lit";\n'

# where a sequence can stand; the second is a rule set's last pattern, and so on
CONTEXTS = ['%s', '(%s)', '{%s, u8}', '{u8, %s}', '{u8, %s,}', 'lines(%s)', 'repeat_sep(u8, %s)', 'repeat_sep(%s, ",")', '(%s)*', 'v:(%s) => v', 'u8 "," (%s)', '((%s))?',
            'rule r: u8 = %s; r', 'rule r: u8 = u8; %s', 'rule r: u8 = u8; rule s: u8 = %s; r', 'lines({(%s)}+)', 'line(%s) section(u8)', 'string({u8, %s})',
            'rule r: u8 = {u8, %s}; lines(r)']
FEW = ['%s', '(%s)', '{%s, u8}', '{u8, %s}', 'lines(%s)', 'repeat_sep(u8, %s)', 'rule r: u8 = %s; r', 'rule r: u8 = u8; %s', 'v:(%s) => v']

AFTER = ['missing pattern after']
BETWEEN = ['missing pattern between']
START = ['quantifier', 'has to come after something']
GREEDY = ['non-greedy quantifier']

# (what, malformed sequence, its own message, well-formed twin of type u8)
SEQS = []


def fam(what, msg, twin, *seqs, full=False):
    for s in seqs:
        SEQS.append((what, s, msg, twin, full))


fam('a label with nothing after it', AFTER, 'a:u8', 'a:', 'u8 a:', '"x" a:', 'b:u8 "," a:', 'lines(u8) a:', 'u8* a:', '{u8, u8} a:', '(u8) a:', 'a:u8 b:', full=True)
fam('a label with nothing after it', AFTER, 'a:u8 => a', 'a: => 1', 'u8 a: => 1', 'b:u8 a: => b', '"x" a: => 1u8', 'b:lines(u8) a: => 1', 'b:u8+ a: => 1', full=True)
fam('two labels in a row', BETWEEN, 'a:u8 => a', 'a: b: u8 => 1', 'a: b:u8 "x" => 1', 'u8 a: b: "x" => 1', 'a: b: lines(u8) => 1', 'a: b: (u8) => 1', 'a: b: {u8, u8} => 1',
    'a:b:c:u8 => 1', 'c:u8 a: b: u8 => c', 'a: b: => 1', full=True)
fam('two labels in a row', BETWEEN, 'a:u8', 'a: b: u8', '"x" a: b: u8', 'a: b: string(u8)', 'a: b: LIT', 'a: b:', 'u8 "," a: b: u8 "," u8')
for q in '*+?':
    fam('a quantifier with nothing before it', START + ['`%s`' % q], 'u8', '%s u8' % q, '%s' % q, '%s "x"' % q, '%s (u8)' % q, '%s lines(u8)' % q, '%s => 1' % q, '%s a:u8 => a' % q, full=q != '+')
fam('a quantifier with nothing before it', [], 'a:u8', 'a:*', 'a:+', 'a:?', 'a:* => 1', 'u8 a:+ => 1')
for q in ('*?', '+?'):
    fam('a non-greedy quantifier', GREEDY + ['`%s`' % q], 'u8', 'u8' + q, '"x"' + q, '(u8)' + q, 'lines(u8)' + q, '{u8, u8}' + q, 'u8%s "," u8' % q, 'u8 "," u8' + q, 'LIT' + q, 'u8 ' + ' '.join(q), 'string(u8)%s u8' % q, full=True)
    fam('a non-greedy quantifier', GREEDY + ['`%s`' % q], 'a:u8 => a', 'a:u8%s => a' % q, 'a:u8 "," b:u8%s => a' % q, 'a:lines(u8)%s => 1' % q, 'a:{u8, u8}%s b:u8 => b' % q, 'u8%s => 1' % q)
fam('an empty alternation', ['no arms in alternation'], '{u8}', '{}', '{ }', full=True)
fam('an empty alternation', ['no arms in alternation'], 'u8', 'u8 {}', '{} u8', '{}*', '{}?', '({})', '{{}, u8}', '{u8, {}}', 'a:{} => 1', 'u8 a:{} => 1', 'lines({})', 'repeat_sep({}, ",")', '"x" {} "y"')

# whole patterns: (what, malformed, message, twin)
WHOLE = []


def whole(what, msg, *pairs):
    for bad, good in pairs:
        WHOLE.append((what, bad, msg, good))


whole('a missing semicolon between rules', ['missing semicolon before'],
      ('rule a: u8 = u8 rule b: u8 = a; b', 'rule a: u8 = u8; rule b: u8 = a; b'),
      ('rule a: u8 = u8; rule b: u8 = a rule c: u8 = b; c', 'rule a: u8 = u8; rule b: u8 = a; rule c: u8 = b; c'),
      ('rule a: u8 = {u8, u8} rule b: u8 = a; b', 'rule a: u8 = {u8, u8}; rule b: u8 = a; b'),
      ('rule a: Vec<u8> = u8* rule b: u8 = u8; a b', 'rule a: Vec<u8> = u8*; rule b: u8 = u8; a b'),
      ('rule a: Vec<u8> = lines(u8) rule b: u8 = u8; a b', 'rule a: Vec<u8> = lines(u8); rule b: u8 = u8; a b'),
      ('rule a: u8 = x:u8 => x rule b: u8 = u8; a b', 'rule a: u8 = x:u8 => x; rule b: u8 = u8; a b'),
      ('rule a: () = "x" rule b: u8 = u8; a b', 'rule a: () = "x"; rule b: u8 = u8; a b'),
      ('rule a: u8 = (u8) rule b: u8 = u8', 'rule a: u8 = (u8); rule b: u8 = u8; a'),
      ('rule a = { t:u8 => t } rule b = x:u8 => x; a', 'rule a: u8 = { t:u8 => t }; rule b: u8 = x:u8 => x; a'))
whole('a missing final pattern', ['missing final pattern'],
      ('rule a: u8 = u8;', 'rule a: u8 = u8; a'), ('rule a: u8 = u8; rule b: u8 = a;', 'rule a: u8 = u8; rule b: u8 = a; b'),
      ('rule a: u8 = {u8, u8};', 'rule a: u8 = {u8, u8}; a'), ('rule a: Vec<u8> = u8*;', 'rule a: Vec<u8> = u8*; a'),
      ('rule a: () = "x"; rule b: u8 = u8; rule c: u8 = b;', 'rule a: () = "x"; rule b: u8 = u8; rule c: u8 = b; a c'))
whole('a rule set without its last semicolon or pattern', [],
      ('rule a: u8 = u8', 'rule a: u8 = u8; a'), ('rule a: u8 = u8; rule b: u8 = a', 'rule a: u8 = u8; rule b: u8 = a; b'),
      ('rule a: u8 u8; a', 'rule a: u8 = u8; a'), ('rule a = u8; a', 'rule a: u8 = u8; a'), ('rule : u8 = u8; u8', 'rule a: u8 = u8; u8'), ('u8; u8', 'u8 u8'))
TY = [('u8', 'u8'), ('"a"', '()'), ('u16', 'u16'), ('u8 u8', '(u8, u8)'), ('u8*', 'Vec<u8>'), ('u8?', 'Option<u8>'), ('"a" => 1i64', 'i64'), ('string(u8)', 'String'), ('u8 "," u16', '(u8, u16)'),
      ('lines(u16)', 'Vec<u16>'), ('x:u8 => Some(x as i8)', 'Option<i8>'), ('alpha', 'char'), ('digit', 'usize')]
for i, (a, x) in enumerate(TY):
    for j, (b, y) in enumerate(TY):
        if x != y:
            WHOLE.append(('alternatives of different types', '{%s, %s}' % (a, b), [], '{%s, %s}' % (a, a)))
            if (i + j) % 3 == 0:
                WHOLE.append(('alternatives of different types', 'lines({%s, %s, %s})' % (a, a, b), [], 'lines({%s, %s, %s})' % (a, a, a)))
for a, b in (('u8', 'u16'), ('u8', 'alpha'), ('(u8 u8)', 'u8'), ('u8', 'u8?')):
    WHOLE.append(('a rule of another type than its pattern', 'rule r: %s = %s; r' % ('u8' if a == 'u8' else '(u8, u8)', b), [], 'rule r: %s = %s; r' % ('u8' if a == 'u8' else '(u8, u8)', a)))


def prog(p):
    return HEAD + 'pub fn t() { let p = parser!(%s); let _ = p.parse(""); }\n' % p


def decide(pid, out, repo, tier, ctx):
    try:
        c = rs.Checker(ctx, repo, pid)
        cases, twins = [], {}

        def twin(t):
            return twins.setdefault(t, len(twins))
        for what, s, msg, t, full in SEQS:
            for cx in (CONTEXTS if full or tier != 'quick' else FEW):
                if '=>' in s and cx.endswith('%s') and False:
                    continue
                cases.append((what, cx % s, msg, twin(cx % 'u8')))
        for what, s, msg, t, full in SEQS:
            twin(t)
        for what, bad, msg, good in WHOLE:
            cases.append((what, bad, msg, twin(good)))
        jobs = [('bad%d' % i, prog(x[1])) for i, x in enumerate(cases)] + [('good%d' % i, prog(t)) for t, i in twins.items()]
        res = c.many(jobs)
        bad, good = res[:len(cases)], res[len(cases):]
        viol, und = [], []
        for t, (okay, errs) in zip(twins, good):
            if not okay:
                und.append('well-formed, but rejected: `%s`: %s' % (t, errs[0][0][:150]))
        fine = {i for (t, i), (okay, _) in zip(twins.items(), good) if okay}
        for (what, p, msg, t), (okay, errs) in zip(cases, bad):
            if t not in fine and twins:
                continue
            if okay:
                viol.append({'witness': 'macro', 'kind': 'accepted', 'what': 'parser!(%s) compiles: %s is not rejected' % (p, what), 'where': 'parser!/aoc_parse_helper! in src/macros.rs', 'exact': True})
            elif msg and not any(all(w in ' '.join(m.split()).replace(' :', ':') for w in msg) for m, _, _ in errs):
                viol.append({'witness': 'macro', 'kind': 'message', 'what': 'parser!(%s): %s is not reported as such ("%s ..."), but as: %s' % (p, what, ' '.join(msg), errs[0][0][:200]),
                             'where': 'parser!/aoc_parse_helper! in src/macros.rs', 'exact': True})
        return viol, und, {'obligations': len(cases), 'twins': len(twins), 'rule': 'rustc rejects each malformed pattern, with the message the library has for it, and accepts its well-formed twin'}
    except rs.Fail as e:
        return [], [str(e)], {}
