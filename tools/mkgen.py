#!/usr/bin/env python3
"""Writes witness/src/gen_w.rs: every form of term x quantifier x label x place in a pattern, with its documented translation."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, pattern, reference, has a value, type of its value
PRIM = [
    ('id', 'a', 'A', True, 'V<1>'),
    ('un', 'u1', 'U1', False, '()'),
    ('st', '"k"', 'lit("k")', False, '()'),
    ('ch', "'k'", 'lit("k")', False, '()'),
    ('fn', 'keep(a)', 'A', True, 'V<1>'),
    ('sf', 'string(a)', 'text(A)', True, 'String'),
    ('f2', 'last(a, b)', 'B', True, 'V<2>'),
    ('gr', '(a b)', 'one(seq(A, B))', True, '(V<1>, V<2>)'),
    ('gu', '(u1)', 'one(U1)', True, '()'),
    ('al', '{sa, sb}', 'alt(SA, SB)', True, 'V<0>'),
    ('mg', '(z:a => uf_one(z))', 'map(A, |(z,)| (uf_one(z),))', True, 'V<9>'),
]
QUANT = [('', '', '%s', None), ('s', '*', 'star(%s)', 'Vec<%s>'), ('p', '+', 'plus(%s)', 'Vec<%s>'), ('o', '?', 'opt(%s)', 'Option<%s>')]


def clo(parts, call):
    """|values| (call) of parts [(variable or None, has a value)]"""
    names, sub = [], {}
    for v, has in parts:
        if has:
            names.append(v or '_')
        elif v:
            sub[v] = '()'
    for v, x in sub.items():
        call = call.replace('<%s>' % v, x)
    for v in 'xyzw':
        call = call.replace('<%s>' % v, v)
    if not names:
        pat = '_'
    elif len(names) == 1:
        pat = '(%s,)' % names[0]
    else:
        pat = '(%s)' % ', '.join(names)
    return '|%s| (%s,)' % (pat, call)


def contexts(s, r, has, ty):
    """(name, pattern, reference)"""
    x, e, f = ('x', has), ('y', True), ('w', True)
    ee = '(e)' if s[0] == '(' else 'e'     # (an identifier before a group is a call)
    n = (None, has)
    ne = (None, True)
    yield 'a', s, r
    yield 'b', s + ' e', 'seq(%s, E)' % r
    yield 'c', ee + ' ' + s, 'seq(E, %s)' % r
    yield 'd', '%s %s f' % (ee, s), 'seq(E, seq(%s, F))' % r
    m = 'map(%s, %s)'
    yield 'e', 'x:%s => uf_one(x)' % s, m % (r, clo([x], 'uf_one(<x>)'))
    yield 'f', 'x:%s y:e => uf_two(x, y)' % s, m % ('seq(%s, E)' % r, clo([x, e], 'uf_two(<x>, <y>)'))
    yield 'g', 'y:e x:%s => uf_two(y, x)' % s, m % ('seq(E, %s)' % r, clo([e, x], 'uf_two(<y>, <x>)'))
    yield 'h', 'y:e x:%s w:f => uf_three(y, x, w)' % s, m % ('seq(E, seq(%s, F))' % r, clo([e, x, f], 'uf_three(<y>, <x>, <w>)'))
    yield 'i', 'e x:%s f => uf_one(x)' % s, m % ('seq(E, seq(%s, F))' % r, clo([ne, x, ne], 'uf_one(<x>)'))
    yield 'j', '%s y:e => uf_one(y)' % s, m % ('seq(%s, E)' % r, clo([n, e], 'uf_one(<y>)'))
    yield 'k', 'y:%s %s => uf_one(y)' % (ee, s), m % ('seq(E, %s)' % r, clo([e, n], 'uf_one(<y>)'))
    yield 'l', '%s => uf_zero()' % s, m % (r, clo([n], 'uf_zero()'))
    yield 'm', '{x:e => uf_one(x), y:%s => uf_one(y)}' % s, 'alt(%s, %s)' % (m % ('E', '|(x,)| (uf_one(x),)'), m % (r, clo([('y', has)], 'uf_one(<y>)')))
    yield 'n', '{%s => uf_zero(), x:e => uf_one(x),} f' % s, 'seq(alt(%s, %s), F)' % (m % (r, clo([n], 'uf_zero()')), m % ('E', '|(x,)| (uf_one(x),)'))
    yield 'o', 'keep(%s) e' % s, 'seq(%s, E)' % r
    yield 'p', 'last(e, %s)' % s, r
    yield 'q', 'x:last(%s, f,) y:e => uf_two(x, y)' % s, m % ('seq(F, E)', '|(x, y)| (uf_two(x, y),)')
    yield 'r', 'rule q: V<9> = x:%s => uf_one(x); q e' % s, 'seq(%s, E)' % (m % (r, clo([x], 'uf_one(<x>)')))
    yield 's', '(%s) e' % s, 'seq(one(%s), E)' % r
    yield 't', '(%s %s)' % (ee, s), 'seq(E, %s)' % r
    if ty:
        yield 'u', 'rule q: %s = %s; e q' % (ty, s), 'seq(E, one(%s))' % r


def chain(rs):
    return rs[0] if len(rs) == 1 else 'seq(%s, %s)' % (rs[0], chain(rs[1:]))


def either(rs):
    """(alternation is left-nested or right-nested: the same choices in the same order)"""
    return rs[0] if len(rs) == 1 else 'alt(%s, %s)' % (rs[0], either(rs[1:]))


# kinds of term for the n-th leaf: pattern, reference, has a value
KIND = {
    's': ('s{0}', 'S{1}', True), 'u': ('u{2}', 'U{2}', False), 'k': ('"k{0}"', 'lit("k{0}")', False), 'f': ('keep(s{0})', 'S{1}', True),
    'g': ('(s{0} u{2})', 'seq(S{1}, U{2})', True), 'o': ('s{0}?', 'opt(S{1})', True), 'c': ("'{0}'", 'lit("{0}")', False),
    'a': ('{{s{0}, sh}}', 'alt(S{1}, SH)', True), 't': ('string(s{0})', 'text(S{1})', True),
}


def kind(k, i):
    x, r, has = KIND[k]
    L = 'abcdefg'[i]
    return x.format(L, L.upper(), i + 1), r.format(L, L.upper(), i + 1), has


def labels():
    """Which parts have labels: every choice for up to five parts, of several kinds."""
    for cyc in ('s', 'su', 'ksf', 'ugs', 'tco', 'as'):
        for n in range(1, 6 if cyc == 's' else 5 if cyc in ('su', 'ugs') else 4):
            ks = [kind(cyc[i % len(cyc)], i) for i in range(n)]
            for mask in range(1, 1 << n):
                if n == 5 and cyc != 's' and bin(mask).count('1') not in (1, 4) and mask % 3:
                    continue
                vs = ['vwxyz'[i] if mask >> i & 1 else None for i in range(n)]
                pat, prev = [], None
                for v, (x, _, _) in zip(vs, ks):
                    if v is None and x[0] == '(' and prev and prev[-1].isalnum() and not prev.endswith('"'):
                        x = '{%s}' % x      # (an identifier before a group is a call)
                    pat.append('%s:%s' % (v, x) if v else x)
                    prev = x
                used = [v for v in vs if v]
                call = lambda f: 'uf_one((%s,))' % ', '.join(f(v) for v in used[::-1])
                body = call(lambda v: v)
                sub = {v: h for v, (_, _, h) in zip(vs, ks) if v}
                names = [v or '_' for v, (_, _, h) in zip(vs, ks) if h]
                cl = '|%s| (%s,)' % ('_' if not names else '(%s)' % (', '.join(names) + ',' * (len(names) == 1)), call(lambda v: v if sub[v] else '()'))
                yield ' '.join(pat) + ' => ' + body, 'map(%s, %s)' % (chain([r for _, r, _ in ks]), cl)


def concats():
    import itertools
    for n in range(2, 6):
        for ks in itertools.product('sukg' if n < 4 else 'su', repeat=n):
            if ks.count('k') > 1 or n == 3 and 'k' in ks and 'g' in ks:
                continue
            ps = [kind(k, i) for i, k in enumerate(ks)]
            if not any(h for _, _, h in ps):
                continue
            pat = []
            for i, (x, _, _) in enumerate(ps):
                if x[0] == '(' and i and (pat[-1][-1].isalnum()):
                    x = '{%s}' % x
                pat.append(x)
            yield ' '.join(pat), chain([r for _, r, _ in ps])
    for n in (6, 7, 8):
        L = 'abcdefgh'[:n]
        yield ' '.join(L), chain([x.upper() for x in L])


def alternations():
    S, R = ['sa', 'sb', 'sc', 'sd', 'se', 'sf', 'sg'], ['SA', 'SB', 'SC', 'SD', 'SE', 'SF', 'SG']
    for n in range(1, 8):
        for tail in ('', ','):
            yield '{%s%s}' % (', '.join(S[:n]), tail), either(R[:n])
        yield '{%s} h' % ', '.join(S[:n]), 'seq(%s, H)' % either(R[:n])
    for n in range(2, 6):
        for i in range(n):
            arms = ['%s => uf_one(v)' % ('v:' + x) if j == i else '%s => uf_zero()' % x for j, x in enumerate(S[:n])]
            rs = ['map(%s, |(v,)| (uf_one(v),))' % x if j == i else 'map(%s, |_| (uf_zero(),))' % x for j, x in enumerate(R[:n])]
            yield '{%s}' % ', '.join(arms), either(rs)
            arms = ['%s %s' % (x, 'u%d' % (j + 1)) if j == i else x for j, x in enumerate(S[:n])]
            rs = ['seq(%s, U%d)' % (x, j + 1) if j == i else x for j, x in enumerate(R[:n])]
            yield 'a {%s} h' % ', '.join(arms), 'seq(A, seq(%s, H))' % either(rs)
            arms = ['{%s, sg}' % x if j == i else x for j, x in enumerate(S[:n])]
            rs = ['alt(%s, SG)' % x if j == i else x for j, x in enumerate(R[:n])]
            yield '{%s}' % ', '.join(arms), either(rs)
            arms = ['%s?' % x for x in S[:n]]
            rs = ['opt(%s)' % x for x in R[:n]]
            yield '{%s,} h' % ', '.join(arms[:i + 1]), 'seq(%s, H)' % either(rs[:i + 1])


def calls():
    S, R = ['sa', 'sb', 'sc', 'sd'], ['SA', 'SB', 'SC', 'SD']
    yield 'none()', 'SA'
    yield 'none() e', 'seq(SA, E)'
    yield 'x:none() y:e => uf_two(x, y)', 'map(seq(SA, E), |(x, y)| (uf_two(x, y),))'
    for n in range(1, 5):
        for i in range(n):
            f = 'pick%d%d' % (n, i)
            yield '%s(%s)' % (f, ', '.join(S[:n])), R[i]
            yield '%s(%s,) e' % (f, ', '.join(S[:n])), 'seq(%s, E)' % R[i]
            for j in range(n):
                for x, r in (('%s u2', 'seq(%s, U2)'), ('%s*', None), ('{%s, sf}', 'alt(%s, SF)'), ('keep(%s)', '%s'), ('"k"', None), ('v:%s => uf_one(v)', 'map(%s, |(v,)| (uf_one(v),))')):
                    if j == i and r is None:
                        continue
                    args = [x % y if '%s' in x and k == j else x if k == j else y for k, y in enumerate(S[:n])]
                    yield 'h %s(%s)' % (f, ', '.join(args)), 'seq(H, %s)' % (r % R[i] if j == i else R[i])


def rules():
    import itertools
    S, R = ['sa', 'sb', 'sc'], ['SA', 'SB', 'SC']
    for n in (1, 2, 3):
        for order in itertools.permutations(range(n)):
            rs = ' '.join('rule r%d: V<0> = %s;' % (i, S[i]) for i in range(n))
            yield '%s %s' % (rs, ' '.join('r%d' % i for i in order)), chain([R[i] for i in order])
            yield '%s {%s} h' % (rs, ', '.join('r%d' % i for i in order)), 'seq(%s, H)' % either([R[i] for i in order])
            # each rule refers to the next one in that order
            body, typ = [], []
            for k, i in enumerate(order):
                nxt = 'keep(r%d)' % order[k + 1] if k + 1 < n else 'sh'
                body.append((i, 'rule r%d: V<9> = v:%s w:%s => uf_two(v, w);' % (i, S[i], nxt)))
            ref = 'SH'
            for i in order[::-1]:
                ref = 'map(seq(%s, %s), |(v, w)| (uf_two(v, w),))' % (R[i], ref)
            yield '%s e r%d' % (' '.join(x for _, x in sorted(body)), order[0]), 'seq(E, %s)' % ref


def main():
    out = ['//! Every form of term, quantified or not, labelled or not, in every kind of place (written by tools/mkgen.py).',
           'use crate::refsem as r;', 'use crate::sym::*;', 'use crate::leaves::*;', 'use aoc_parse::{parser, prelude::*};',
           'use r::{alt, lit, map, one, opt, plus, seq, star, text};',
           'fn keep<P: Parser>(p: P) -> P { p }', 'fn last<P: Parser, Q: Parser>(_p: P, q: Q) -> Q { q }']
    names = []
    for pn, ps, pr, has, ty in PRIM:
        for qn, qs, qr, qt in QUANT:
            h, t = (True, qt % ty) if qs else (has, ty)
            for cn, s, r in contexts(ps + qs, qr % pr, h, t):
                n = 'g_%s%s_%s' % (pn, qn, cn)
                out.append('pub fn %s() { run(parser!(%s)) }' % (n, s))
                out.append('pub fn %s_ref() { r::drive(%s) }' % (n, r))
                names.append(n)
    out.append('fn none() -> S<1> { sa }')
    for n in range(1, 5):
        for i in range(n):
            T = ['P', 'Q', 'R', 'T'][:n]
            out.append('fn pick%d%d<%s>(%s) -> %s { x%d }' % (n, i, ', '.join(t + ': Parser' for t in T), ', '.join('x%d: %s' % (j, t) for j, t in enumerate(T)), T[i], i))
    for pre, f in (('lb', labels), ('cc', concats), ('ga', alternations), ('ar', calls), ('ru', rules)):
        for i, (x, r) in enumerate(f()):
            n = 'g_%s_%d' % (pre, i)
            out.append('pub fn %s() { run(parser!(%s)) }' % (n, x))
            out.append('pub fn %s_ref() { r::drive(%s) }' % (n, r))
            names.append(n)
    with open(os.path.join(V, 'witness', 'src', 'gen_w.rs'), 'w') as f:
        f.write('\n'.join(out) + '\n')
    print(len(names))


if __name__ == '__main__':
    main()
