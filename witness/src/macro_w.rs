//! What parser! makes of patterns.
use crate::refsem as r;
use crate::sym::*;
use crate::leaves::*;
use aoc_parse::{parser, prelude::*};
use r::{alt, lit, map, one, opt, plus, seq, star, rsep, text};

// ---- concatenation, quantifiers, groups
pub fn m_seq3() { run(parser!(a b c)) }
pub fn m_seq3_ref() { r::drive(seq(A, seq(B, C))) }
pub fn m_seq4() { run(parser!(a b c d)) }
pub fn m_seq4_ref() { r::drive(seq(A, seq(B, seq(C, D)))) }
pub fn m_starlast() { run(parser!(a b*)) }
pub fn m_starlast_ref() { r::drive(seq(A, star(B))) }
pub fn m_starfirst() { run(parser!(a* b)) }
pub fn m_starfirst_ref() { r::drive(seq(star(A), B)) }
pub fn m_pluslast() { run(parser!(a b+)) }
pub fn m_pluslast_ref() { r::drive(seq(A, plus(B))) }
pub fn m_plusmid() { run(parser!(a b+ c)) }
pub fn m_plusmid_ref() { r::drive(seq(A, seq(plus(B), C))) }
pub fn m_optmid() { run(parser!(a b? c)) }
pub fn m_optmid_ref() { r::drive(seq(A, seq(opt(B), C))) }
pub fn m_optgroup() { run(parser!((a b)? c)) }
pub fn m_optgroup_ref() { r::drive(seq(opt(seq(A, B)), C)) }
pub fn m_optopt() { run(parser!((a?)? b)) }
pub fn m_optopt_ref() { r::drive(seq(opt(opt(A)), B)) }
pub fn m_stargroup() { run(parser!((a b)*)) }
pub fn m_stargroup_ref() { r::drive(star(seq(A, B))) }
pub fn m_plusopt() { run(parser!((a+)?)) }
pub fn m_plusopt_ref() { r::drive(opt(plus(A))) }
pub fn m_group() { run(parser!((a) (b c) d)) }
pub fn m_group_ref() { r::drive(seq(A, seq(one(seq(B, C)), D))) }
pub fn m_group2() { run(parser!((a b) c)) }
pub fn m_group2_ref() { r::drive(seq(one(seq(A, B)), C)) }
pub fn m_group3() { run(parser!(((a)) (b))) }
pub fn m_group3_ref() { r::drive(seq(A, B)) }
pub fn m_empty() { run(parser!(() a)) }
pub fn m_empty_ref() { r::drive(seq(one(r::Nothing), A)) }
// ---- alternation
pub fn m_alt3() { run(parser!({sa, sb, sc})) }
pub fn m_alt3_ref() { r::drive(alt(SA, alt(SB, SC))) }
pub fn m_alt4() { run(parser!({sa, sb, sc, sd,})) }
pub fn m_alt4_ref() { r::drive(alt(SA, alt(SB, alt(SC, SD)))) }
pub fn m_altseq() { run(parser!({sa sb, sc sd} e)) }
pub fn m_altseq_ref() { r::drive(seq(alt(seq(SA, SB), seq(SC, SD)), E)) }
pub fn m_altnest() { run(parser!({{sa, sb}, {sc, sd}})) }
pub fn m_altnest_ref() { r::drive(alt(alt(SA, SB), alt(SC, SD))) }
pub fn m_altopt() { run(parser!({sa?, sb?} c)) }
pub fn m_altopt_ref() { r::drive(seq(alt(opt(SA), opt(SB)), C)) }
pub fn m_altmid() { run(parser!(c {sa, sb} d)) }
pub fn m_altmid_ref() { r::drive(seq(C, seq(alt(SA, SB), D))) }
pub fn m_alt1() { run(parser!({sa} b)) }
pub fn m_alt1_ref() { r::drive(seq(SA, B)) }
pub fn m_altmap() { run(parser!({x:a => uf_one(x), x:b => uf_one(x), c => uf_zero()})) }
pub fn m_altmap_ref() { r::drive(alt(map(A, |(x,)| (uf_one(x),)), alt(map(B, |(x,)| (uf_one(x),)), map(C, |_| (uf_zero(),))))) }
// ---- functions
pub fn m_rsep() { run(parser!(a repeat_sep(b, c))) }
pub fn m_rsep_ref() { r::drive(seq(A, rsep(B, C))) }
pub fn m_rsepseq() { run(parser!(repeat_sep(a b, u3))) }
pub fn m_rsepseq_ref() { r::drive(rsep(seq(A, B), U3)) }
pub fn m_strseq() { run(parser!(string(a b) c)) }
pub fn m_strseq_ref() { r::drive(seq(text(seq(A, B)), C)) }
pub fn m_strmap() { run(parser!(s:string(x:a => uf_one(x)) y:b => uf_two(s, y))) }
pub fn m_strmap_ref() { r::drive(map(seq(text(A), B), |(s, y)| (uf_two(s, y),))) }
pub fn m_func() {
    fn f(p: L<1>, q: impl Parser<Output = (V<2>, V<3>)>) -> impl Parser<Output = (((V<2>, V<3>),), V<1>), RawOutput = ((((V<2>, V<3>),), V<1>),)> { let y = p; let x = parser!((x:q => (x,))); parser!(x y) }
    run(parser!(f(a, b c)))
}
pub fn m_func_ref() { r::drive(seq(map(seq(B, C), |x| ((x,),)), A)) }
// ---- conversions and labels
pub fn m_label1() { run(parser!(x:a => uf_one(x))) }
pub fn m_label1_ref() { r::drive(map(A, |(x,)| (uf_one(x),))) }
pub fn m_label0() { run(parser!(a b => uf_zero())) }
pub fn m_label0_ref() { r::drive(map(seq(A, B), |_| (uf_zero(),))) }
pub fn m_label2() { run(parser!(x:a y:b => uf_two(x, y))) }
pub fn m_label2_ref() { r::drive(map(seq(A, B), |(x, y)| (uf_two(x, y),))) }
pub fn m_label2s() { run(parser!(x:a y:b => uf_two(y, x))) }
pub fn m_label2s_ref() { r::drive(map(seq(A, B), |(x, y)| (uf_two(y, x),))) }
pub fn m_label13() { run(parser!(x:a b y:c => uf_two(x, y))) }
pub fn m_label13_ref() { r::drive(map(seq(A, seq(B, C)), |(x, _, y)| (uf_two(x, y),))) }
pub fn m_label2of3() { run(parser!(a x:b c => uf_one(x))) }
pub fn m_label2of3_ref() { r::drive(map(seq(A, seq(B, C)), |(_, x, _)| (uf_one(x),))) }
pub fn m_label34() { run(parser!(a u1 x:c y:d => uf_two(x, y))) }
pub fn m_label34_ref() { r::drive(map(seq(A, seq(U1, seq(C, D))), |(_, x, y)| (uf_two(x, y),))) }
pub fn m_labelu() { run(parser!(x:u1 y:a => uf_two(x, y))) }
pub fn m_labelu_ref() { r::drive(map(seq(U1, A), |(y,)| (uf_two((), y),))) }
pub fn m_labelsame() { run(parser!(x:sa y:sb z:sc => uf_three(x, y, z))) }
pub fn m_labelsame_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(x, y, z)| (uf_three(x, y, z),))) }
pub fn m_labelsame4() { run(parser!(sd x:sa u5 y:sb z:sc => uf_three(x, y, z))) }
pub fn m_labelsame4_ref() { r::drive(map(seq(SD, seq(SA, seq(U5, seq(SB, SC)))), |(_, x, y, z)| (uf_three(x, y, z),))) }
pub fn m_labelfn() { run(parser!(x:string(a) y:sb w:string(c) z:sd => uf_four(x, y, w, z))) }
pub fn m_labelfn_ref() { r::drive(map(seq(text(A), seq(SB, seq(text(C), SD))), |(x, y, w, z)| (uf_four(x, y, w, z),))) }
pub fn m_labelalt() { run(parser!(x:{sa, sb} y:sc => uf_two(x, y))) }
pub fn m_labelalt_ref() { r::drive(map(seq(alt(SA, SB), SC), |(x, y)| (uf_two(x, y),))) }
pub fn m_labelgroup() { run(parser!(x:(a b) y:c => uf_two(x, y))) }
pub fn m_labelgroup_ref() { r::drive(map(seq(one(seq(A, B)), C), |(x, y)| (uf_two(x, y),))) }
pub fn m_labelopt() { run(parser!(x:sa? y:sb => uf_two(x, y))) }
pub fn m_labelopt_ref() { r::drive(map(seq(opt(SA), SB), |(x, y)| (uf_two(x, y),))) }
pub fn m_labelstar() { run(parser!(x:a y:b* => uf_two(x, y))) }
pub fn m_labelstar_ref() { r::drive(map(seq(A, star(B)), |(x, y)| (uf_two(x, y),))) }
pub fn m_labelmap() { run(parser!(x:(y:a => uf_one(y)) z:b => uf_two(x, z))) }
pub fn m_labelmap_ref() { r::drive(map(seq(map(A, |(y,)| (uf_one(y),)), B), |(x, z)| (uf_two(x, z),))) }
pub fn m_mapgroup() { run(parser!((a) (x:b => uf_one(x)) c)) }
pub fn m_mapgroup_ref() { r::drive(seq(A, seq(map(B, |(x,)| (uf_one(x),)), C))) }
pub fn m_mapstar() { run(parser!((x:a => uf_one(x))*)) }
pub fn m_mapstar_ref() { r::drive(star(map(A, |(x,)| (uf_one(x),)))) }
pub fn m_mapopt() { run(parser!((x:a => uf_one(x))? b)) }
pub fn m_mapopt_ref() { r::drive(seq(opt(map(A, |(x,)| (uf_one(x),))), B)) }
pub fn m_maptuple() { run(parser!((x:a => (uf_one(x), uf_zero())) b)) }
pub fn m_maptuple_ref() { r::drive(seq(map(A, |(x,)| ((uf_one(x), uf_zero()),)), B)) }
pub fn m_mapunit() { run(parser!((a => ()) b)) }
pub fn m_mapunit_ref() { r::drive(seq(map(A, |_| ((),)), B)) }
pub fn m_mapsep() { run(parser!(repeat_sep(a, (x:b => uf_one(x))))) }
pub fn m_mapsep_ref() { r::drive(rsep(A, B)) }
pub fn m_mapseq2() { run(parser!((x:a => uf_one(x)) (y:b => uf_one(y)))) }
pub fn m_mapseq2_ref() { r::drive(seq(map(A, |(x,)| (uf_one(x),)), map(B, |(x,)| (uf_one(x),)))) }
// ---- no-value parts
pub fn m_u1() { run(parser!(u1 b)) }
pub fn m_u1_ref() { r::drive(seq(U1, B)) }
pub fn m_u2() { run(parser!(a u2)) }
pub fn m_u2_ref() { r::drive(seq(A, U2)) }
pub fn m_u3() { run(parser!(u1 b u3 d)) }
pub fn m_u3_ref() { r::drive(seq(U1, seq(B, seq(U3, D)))) }
pub fn m_u4() { run(parser!(u1 u2)) }
pub fn m_u4_ref() { r::drive(one(seq(U1, U2))) }
pub fn m_ustar() { run(parser!(u1*)) }
pub fn m_ustar_ref() { r::drive(star(U1)) }
pub fn m_uopt() { run(parser!(u1? b)) }
pub fn m_uopt_ref() { r::drive(seq(opt(U1), B)) }
pub fn m_ugroup() { run(parser!((u1) b)) }
pub fn m_ugroup_ref() { r::drive(seq(one(U1), B)) }
// ---- wrappers
pub fn m_var() { let p = parser!(a b); run(parser!(p c)) }
pub fn m_var_ref() { r::drive(seq(one(seq(A, B)), C)) }
pub fn m_varref() { let p = parser!(a b); let q = &p; run(parser!(q c)) }
pub fn m_varref_ref() { r::drive(seq(one(seq(A, B)), C)) }
pub fn m_varalt() { let p = parser!({sa, sb}); run(parser!(p c)) }
pub fn m_varalt_ref() { r::drive(seq(alt(SA, SB), C)) }
pub fn m_outer() { run(parser!(((({sa, sb}))))) }
pub fn m_outer_ref() { r::drive(alt(SA, SB)) }
pub fn m_mapalt() { run(parser!(x:({sa, sb}) => uf_one(x))) }
pub fn m_mapalt_ref() { r::drive(map(alt(SA, SB), |(x,)| (uf_one(x),))) }
pub fn m_refouter() { run(&parser!({sa, sb})) }
pub fn m_refouter_ref() { r::drive(alt(SA, SB)) }
pub fn m_stralt() { run(parser!(string({sa, sb}) c)) }
pub fn m_stralt_ref() { r::drive(seq(text(alt(SA, SB)), C)) }
pub fn m_stropt() { run(parser!(string(a?))) }
pub fn m_stropt_ref() { r::drive(text(opt(A))) }
pub fn m_collalt() { run(parser!(vec_deque(a*))) }
pub fn m_collalt_ref() { r::drive(map(star(A), |(v,)| (r::deque(v),))) }
// ---- literals
pub fn m_lit() { run(parser!("ab" b 'c')) }
pub fn m_lit_ref() { r::drive(seq(lit("ab"), seq(B, lit("c")))) }
pub fn m_litlabel() { run(parser!(x:"ab" y:b => uf_two(x, y))) }
pub fn m_litlabel_ref() { r::drive(map(seq(lit("ab"), B), |(y,)| (uf_two((), y),))) }
pub fn m_litalt() { run(parser!({"a" => 1usize, "ab" => 2usize, 'c' => 3usize} b)) }
pub fn m_litalt_ref() { r::drive(seq(alt(map(lit("a"), |_| (1usize,)), alt(map(lit("ab"), |_| (2usize,)), map(lit("c"), |_| (3usize,)))), B)) }
// ---- rules
pub fn m_rule() { run(parser!(rule q: V<1> = a; q b)) }
pub fn m_rule_ref() { r::drive(seq(A, B)) }
pub fn m_rulecl() { run(parser!(rule q: V<9> = x:a => uf_one(x); rule s: (V<9>, V<2>) = q b; c s)) }
pub fn m_rulecl_ref() { r::drive(seq(C, one(seq(map(A, |(x,)| (uf_one(x),)), B)))) }
pub fn m_rulefwd() { run(parser!(rule q: (V<0>, V<0>) = s sb; rule s: V<0> = sa; rule t: V<0> = sc; t q)) }
pub fn m_rulefwd_ref() { r::drive(seq(SC, one(seq(SA, SB)))) }
pub fn m_rulesame() { run(parser!(rule q: V<0> = sa; rule s: V<0> = sb; rule t: V<0> = sc; {s, q} t)) }
pub fn m_rulesame_ref() { r::drive(seq(alt(SB, SA), SC)) }
pub fn m_ruletwo() {
    let p = parser!(rule q: V<0> = sa; q);
    let o = parser!(rule q: V<0> = sb; q);
    run(parser!(p o))
}
pub fn m_ruletwo_ref() { r::drive(seq(SA, SB)) }
pub fn m_rulenest() {
    let p = parser!(rule q: V<0> = sa; rule s: V<0> = sb; {s, q});
    run(parser!(rule q: V<0> = sc; rule s: (V<0>, V<0>) = p q; s q2))
}
pub fn m_rulenest_ref() { r::drive(seq(one(seq(alt(SB, SA), SC)), SD)) }
pub fn m_rulemoved() {
    let p = parser!(rule q: V<0> = sa; rule s: V<0> = sb; s q);
    let bx = Box::new((1usize, p));
    let m = bx.1;
    run(m)
}
pub fn m_rulemoved_ref() { r::drive(seq(SB, SA)) }
pub fn m_ruleopt() { run(parser!(rule q: V<1> = a; q? b)) }
pub fn m_ruleopt_ref() { r::drive(seq(opt(A), B)) }
pub fn m_rulelate() { run(parser!(rule q: V<0> = sa; rule s: V<0> = sb; {sc, q} s)) }
pub fn m_rulelate_ref() { r::drive(seq(alt(SC, SA), SB)) }
