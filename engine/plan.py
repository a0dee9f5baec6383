"""Which witnesses decide which property."""
import fnmatch


# budgets (s) and rough costs, to start the long ones first
WITNESS = {
    'w_repsep': {'budget': 300, 'cost': 45}, 'w_star': {'cost': 5}, 'w_plus': {'cost': 5},
    'm_starfirst': {'budget': 240, 'cost': 36}, 'm_plusmid': {'budget': 240, 'cost': 40}, 'm_starlast': {'cost': 10},
    'm_mapsep': {'budget': 300, 'cost': 53}, 'm_rsep': {'budget': 360, 'cost': 76}, 'm_rsepseq': {'budget': 420, 'cost': 122},
    'o_dequesep': {'budget': 300, 'cost': 61}, 'o_hmap2': {'cost': 25},
    'm_stargroup': {'budget': 200, 'cost': 18}, 'p_linesep': {'cost': 20}, 'p_linestar': {'cost': 8},
    # not brought to a fixpoint: searched breadth first for so many seconds (that lines/sections are line*/section* is shown by s_*)
    's_lines': {'soft': True}, 's_sections': {'soft': True},
    'p_lines': {'hunt': 60, 'cost': 60}, 'p_sections': {'hunt': 60, 'cost': 60},
}

def gen(prims='', quants=' spo', places=''):
    """Generated witnesses (tools/mkgen.py) g_<prim><quantifier>_<place>."""
    import os
    import re
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'witness', 'src', 'gen_w.rs')) as f:
        names = re.findall(r'pub fn (g_\w+)_ref', f.read())
    return [n for n in names if (not prims or n[2:4] in prims.split()) and (n[4:].split('_')[0] or ' ') in quants
            and (not places or n.rsplit('_', 1)[1] in places)]


for _n in gen():
    # a repetition of opaque parts with something after it takes long to bring to a fixpoint (the m_ witnesses do that): searched
    # breadth first, to tell the forms of the pattern apart
    WITNESS[_n] = {'budget': 60, 'cost': 2} if _n[4] in '_o' else {'hunt': 1.2, 'cost': 1}

ASSUME = [
    'rustc: MIR (nightly, built with -Zmir-opt-level=0) means what the program means',
    'the models of the standard library functions in engine/models.py',
    'leaf parsers obey the ParseIter protocol; their matches are arbitrary otherwise',
    'the reference semantics in witness/src/refsem.rs says what properties.jsonl says',
]


def wanted(kinds, f):
    if kinds is None:
        return True
    return any(fnmatch.fnmatchcase(f['kind'], x) for x in kinds)


CORE_P = ['p_one', 'p_seq', 'p_pair', 'p_alt', 'p_opt', 'p_string', 'p_line', 'p_section', 'p_secline', 'p_lineseq', 'p_kstar']
LINE_P = ['p_kline', 'p_linek', 'p_altline', 'p_altlsec', 'p_lineline', 'p_lineopt', 'p_linealt', 'p_linestar', 'p_linesep', 'p_strline', 'p_linestr',
          'p_lineinline', 'p_secinline', 'p_seclines']
SEC_P = ['p_ksec', 'p_seck', 'p_altsec', 'p_secsec', 'p_secinsec', 'p_altlsec', 'p_secinline', 'p_seclines']
RULE_P = ['p_ruleline', 'p_rulekline', 'p_rulesec', 'p_ruleinline']
ALL_P = CORE_P + LINE_P + [w for w in SEC_P if w not in LINE_P] + RULE_P

SEQ = ['m_seq3', 'm_seq4', 'm_group', 'm_group2', 'm_group3', 'm_empty', 'm_u1', 'm_u2', 'm_u3', 'm_u4', 'm_ugroup', 'm_lit']
ALT = ['m_alt3', 'm_alt4', 'm_altseq', 'm_altnest', 'm_altopt', 'm_altmid', 'm_alt1', 'm_litalt']
OPT = ['m_optmid', 'm_optgroup', 'm_optopt', 'm_uopt']
REP = ['m_starfirst', 'm_starlast', 'm_pluslast', 'm_plusmid', 'm_stargroup', 'm_plusopt', 'm_ustar', 'm_rsep', 'm_rsepseq']
LABEL = ['m_label1', 'm_label0', 'm_label2', 'm_label2s', 'm_label13', 'm_label2of3', 'm_label34', 'm_labelu', 'm_labelsame', 'm_labelsame4',
         'm_labelfn', 'm_labelalt', 'm_labelgroup', 'm_labelopt', 'm_labelstar', 'm_labelmap', 'm_litlabel']
MAP = ['m_altmap', 'm_mapgroup', 'm_mapstar', 'm_mapopt', 'm_maptuple', 'm_mapunit', 'm_mapsep', 'm_mapseq2', 'm_func', 'm_strmap']
STR = ['m_strseq', 'm_strmap', 'm_stralt', 'm_stropt']
WRAP = ['m_var', 'm_varref', 'm_varalt', 'm_outer', 'm_mapalt', 'm_refouter', 'm_stralt', 'm_stropt', 'm_strseq', 'm_collalt', 'm_group3', 'm_rule', 'm_labelalt', 'm_labelopt', 'm_labelgroup']
RULE = ['m_rule', 'm_rulecl', 'm_rulefwd', 'm_rulesame', 'm_ruletwo', 'm_rulenest', 'm_rulemoved', 'm_ruleopt', 'm_rulelate']
CHAR = ['c_alpha', 'c_alnum', 'c_upper', 'c_lower', 'c_any', 'c_digit', 'c_digitbin', 'c_digithex', 'c_alpha2', 'c_any2']
OF = ['c_of', 'c_ofu', 'c_ofdup', 'c_ofnone', 'c_ofnl', 'c_of2']
LIT = ['l_str', 'l_stru', 'l_strnl', 'l_empty', 'l_nothing', 'l_chr', 'l_chru', 'l_chru2', 'l_chrnl', 'l_rep', 'l_twice', 'l_case', 'l_string', 'l_charvar']

INT = ['n_%s%s' % (t, k) for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'biguint', 'bigint') for k in ('', 'bin', 'hex')]
NUM = INT + ['n_f32', 'n_f64', 'n_bool', 'n_two', 'n_alt', 'n_str']

COLL = ['o_hset', 'o_bset', 'o_deque', 'o_hmap', 'o_bmap', 'o_hmap2', 'o_dequesep', 'o_setopt', 'o_dequeopt', 'o_mid', 'o_nest', 'o_fnhset', 'o_fnbmap']

UTIL = ['t_mine', 't_same']

PROPS = {
    'C01': dict(witnesses=ALL_P, rule='parse() and the reference ask the same leaves for matches in the same order and return values in the same cases'),
    'C02': dict(witnesses=ALL_P + ['w_seq', 'w_pair', 'w_alt', 'w_opt', 'w_star', 'w_plus', 'w_repsep', 'w_string'] + CHAR + OF + LIT, kinds=['panic', 'loop'],
                rule='no panic (index, slice, unwrap/expect, overflow, assertion) is reachable in the product states'),
    'C03': dict(witnesses=ALL_P + ['p_lines', 'p_sections'] + CHAR + LIT, kinds=['error-*', 'obs_*', 'panic'], rule='location and origin of the returned error equal those of the first furthest failure reported to the reference'),
    'C04': dict(witnesses=ALL_P + ['p_lines', 'p_sections'] + CHAR + LIT, kinds=['error-source', 'error-location', 'obs_*', 'panic'], rule='source of the returned error is the text passed to parse(), its location that of the reference'),
    'C05': dict(witnesses=['e_expected', 'e_extra', 'e_fromstr', 'e_line', 'e_line_extra', 'e_section', 'e_section_extra'],
                rule='the text that Display writes ends with that of the reference, where counts of characters or newlines in a stretch of text are equal for every text',
                technique='abstract interpretation of MIR with symbolic counts of characters (a normal form of sums over stretches of the text), against a reference',
                explain='The library\'s Display implementation is interpreted abstractly on an error of each kind, at any place of any text; the number of lines and columns '
                        'it shows, as a sum of weights of the characters in a stretch of the text, must have the same normal form as the reference\'s.'),
    'C06': dict(witnesses=['w_seq', 'w_pair', 'w_alt', 'w_opt', 'w_star', 'w_plus', 'w_repsep', 'w_string', 'p_string'] + MAP + LABEL, kinds=['*conv*', 'uf*', 'value', 'panic'],
                rule='conversions happen only after the driver accepted the match, and are exactly those of the reference, in its order'),
    'C07': dict(witnesses=['w_seq', 'w_pair', 'm_starfirst', 'm_starlast'] + gen(prims='cc') + SEQ, rule='event by event equality with the reference concatenation'),
    'C08': dict(witnesses=['w_alt', 'w_opt'] + gen(prims='ga') + ALT + OPT, rule='event by event equality with the reference alternation'),
    'C09': dict(witnesses=['w_star', 'w_plus', 'w_repsep', 'p_kstar', 'p_linestar', 'p_linesep'] + REP, rule='event by event equality with the reference repetition, to a fixpoint over any number of rounds'),
    'C10': dict(witnesses=['w_star', 'w_plus', 'w_repsep'], rule='after a round that consumed nothing the code starts no further round, as the reference; no state recurs without an event'),
    'C11': dict(witnesses=['p_line', 'p_secline', 'p_lineseq', 's_lines', 'p_lines', 'p_ruleline'] + LINE_P, rule='event by event equality with the reference line()'),
    'C12': dict(witnesses=['p_section', 'p_secline', 's_sections', 'p_sections', 'p_rulesec'] + SEC_P, rule='event by event equality with the reference section()'),
    'C13': dict(witnesses=NUM, kinds=['ev_*', 'obs_*', 'match-end', 'error-*', 'panic', 'loop', 'start*', 'back*', 'conv*'],
                rule='the text taken is that of the reference, which takes the longest text of the documented notation (regex languages compared as automata); it fails where the reference fails'),
    'C14': dict(witnesses=NUM, rule='the value is the conversion of exactly the text taken, by the exact conversion of the named type in the named base; an error if and only if that conversion fails'),
    'C15': dict(witnesses=CHAR, rule='event by event equality with the reference character class: which characters match, their extent, the value, the error'),
    'C16': dict(witnesses=OF, rule='event by event equality with the reference char_of, for each text position and character'),
    'C17': dict(witnesses=gen(prims='st ch', quants=' o') + LIT + ['m_lit', 'm_litlabel', 'm_litalt', 'm_empty'], rule='event by event equality with the reference literal: match, extent, no second match, no value, the error'),
    'C18': dict(witnesses=['w_string', 'p_string', 'p_strline', 'p_linestr'] + STR, rule='event by event equality with the reference string(); the value is the same span of the text'),
    'C19': dict(witnesses=gen(quants=' o', places='abcdstu') + gen(prims='cc') + SEQ + ['m_altseq', 'm_optgroup', 'm_uopt', 'm_stargroup', 'm_var', 'm_outer', 'm_rule', 'm_litalt'], kinds=['value', '*conv*', 'uf*', 'panic'], deciders=['shapes'],
                rule='the type of each of several thousand patterns, as the type checker computes it, is the documented one (a program naming it type-checks); the values in the tuples are those of the parts, in order',
                technique='type-level encoding: enumerated patterns with their documented result type as an obligation of the type checker, on the type-checked source; abstract interpretation of MIR for the values',
                note='Types: decided by rustc for every pattern of an enumeration over all pattern forms (concatenation, group, alternation, repetition, option, rule, variable) to a size; '
                     'the implementation is generic, so each form is checked at several element types. Values: as for C07.'),
    'C20': dict(witnesses=gen(places='efghijkmnqr') + gen(prims='lb ar') + LABEL + ['m_altmap', 'm_mapgroup', 'm_mapopt', 'm_maptuple', 'm_mapunit', 'm_mapseq2'], rule='the arguments of every conversion are the values of the parts that the reference binds, for each placing of labels'),
    'C21': dict(witnesses=COLL, rule='event by event equality with the inner pattern, and the collection is the one made by putting in all of its values one by one, in order, whichever keys are equal'),
    'C22': dict(witnesses=RULE + gen(prims='ru') + gen(quants=' o', places='ru') + RULE_P, rule='event by event equality with the reference in which each rule name is replaced by the pattern defined for it'),
    'C23': dict(witnesses=WRAP + RULE_P, rule='event by event equality with the reference without the wrapper'),
    'C24': dict(deciders=['purity'], rule='nothing reachable from the parsing traits reads or writes anything that outlives the parse',
                technique='effect analysis over the call graph of the compiler\'s MIR',
                note='Complete for safe code up to the tables of std functions with effects; calls of generic or dynamic trait methods reach every implementation in the crate, calls of function pointers every '
                     'function whose pointer is taken. User closures and user parsers are outside the library.',
                explain='Call graph of every function and closure of the crate from MIR, rooted at all implementations of the parsing traits and error display; each reachable call, static, thread-local and parser field is an obligation.'),
    'C25': dict(witnesses=UTIL, rule='the text handed to parse() is, piece by piece, the text given plus one newline if it does not end with one; the result is passed on, an error through From'),
    'C26': dict(deciders=['shapes'], rule='every documented name resolves in the prelude, has the documented type, and is Copy',
                technique='type-level encoding: one typed use of each documented name, an obligation of the type checker, on the type-checked source',
                note='Decided by rustc on programs that use each name of the documentation; the list of names and types is transcribed from the documentation in deciders/shapes.py.',
                explain='Programs that use each documented name at its documented type and require Copy are type-checked against the library; each is an obligation.'),
    'C27': dict(deciders=['reject'], rule='each malformed pattern is rejected, with the library\'s own message where there is one; each of its well-formed twins is accepted',
                technique='compile-fail witnesses: enumerated malformed patterns must be rejected by the compiler, well-formed twins accepted',
                note='The macro is expanded by rustc for every pattern of an enumeration (each malformation, at each place of a set of contexts); contexts and fillers are bounded.',
                explain='An enumeration of malformed patterns x places in surrounding patterns; each must fail to compile with the expected diagnostic, and each well-formed twin must compile.'),
    'C28': dict(must_compile=True, witnesses=gen() + SEQ + ALT + OPT + [w for w in REP if w not in ('m_rsepseq',)] + LABEL + [w for w in MAP if w != 'm_mapsep'] + STR + RULE,
                rule='event by event equality of each pattern with its documented translation'),
}


def explain(pid):
    if 'explain' in PROPS[pid]:
        return PROPS[pid]['explain']
    return ('Product of the library code (monomorphic MIR of /repo, as the compiler sees it for each witness pattern over opaque leaf parsers) and a '
            'reference implementation of the documented meaning, explored by abstract interpretation to a fixpoint: every obligation is one event '
            '(leaf started, match end, backtrack, conversion, result, error) at which both must agree, for every input text, every start offset and every '
            'behaviour of the leaves. Rule: ' + PROPS[pid]['rule'])

TECHNIQUE = 'abstract interpretation of the compiler\'s MIR in lockstep with a reference (typestate/protocol equivalence, joins and widening to a fixpoint)'
NOTE = ('Sound up to: the models of std functions, the leaf protocol, and the reference text; reported violations come only from paths on which nothing was generalised '
        'after any needed re-analysis. Where the fixpoint is not reached the run says UNDECIDED in its evidence and does not alarm.')
NOT_APPLICABLE = {
    'C29': 'Time and stack use are runtime quantities of the input and the pattern: backtracking is exponential by design for some patterns, and no static bound on "reasonable" exists to decide.',
}
