//! parse() of the combinators over leaves that report their failures.
use crate::refsem as r;
use crate::sym::*;
use aoc_parse::{parser, prelude::*};

const a: R<1> = R;
const b: R<2> = R;
const sa: SR<1> = SR;
const sb: SR<2> = SR;
const qa: Q<1> = Q;
const qb: Q<2> = Q;

pub fn p_one() { run_parse(a) }
pub fn p_one_ref() { r::parse(r::RR::<1>) }
pub fn p_line() { run_parse(parser!(line(a))) }
pub fn p_line_ref() { r::parse(r::Line(r::RR::<1>)) }
pub fn p_section() { run_parse(parser!(section(a))) }
pub fn p_section_ref() { r::parse(r::Section(r::RR::<1>)) }
pub fn p_seq() { run_parse(parser!(a b)) }
pub fn p_seq_ref() { r::parse(r::Seq(r::RR::<1>, r::RR::<2>, r::Flat)) }
pub fn p_pair() { run_parse(parser!(x:a y:b => (x, y))) }
pub fn p_pair_ref() { r::parse(r::Map(r::Seq(r::RR::<1>, r::RR::<2>, r::Pair), |p| (p,))) }
pub fn p_alt() { run_parse(parser!({sa, sb})) }
pub fn p_alt_ref() { r::parse(r::Alt(r::RSR::<1>, r::RSR::<2>, r::OneOf)) }
pub fn p_opt() { run_parse(parser!(a?)) }
pub fn p_opt_ref() { r::parse(r::opt(r::RR::<1>)) }
pub fn p_star() { run_parse(parser!(qa*)) }
pub fn p_star_ref() { r::parse(r::Rep(r::RQ::<1>, r::Nothing, 0)) }
pub fn p_plus() { run_parse(parser!(qa+)) }
pub fn p_plus_ref() { r::parse(r::Rep(r::RQ::<1>, r::Nothing, 1)) }
pub fn p_repsep() { run_parse(parser!(repeat_sep(qa, qb))) }
pub fn p_repsep_ref() { r::parse(r::Rep(r::RQ::<1>, r::RQ::<2>, 0)) }
pub fn p_string() { run_parse(parser!(string(a))) }
pub fn p_string_ref() { r::parse(r::Text(r::RR::<1>)) }
pub fn p_secline() { run_parse(parser!(section(line(a)))) }
pub fn p_secline_ref() { r::parse(r::Section(r::Line(r::RR::<1>))) }
pub fn p_seqline() { run_parse(parser!(a line(b))) }
pub fn p_seqline_ref() { r::parse(r::Seq(r::RR::<1>, r::Line(r::RR::<2>), r::Flat)) }
pub fn p_lineseq() { run_parse(parser!(line(a) b)) }
pub fn p_lineseq_ref() { r::parse(r::Seq(r::Line(r::RR::<1>), r::RR::<2>, r::Flat)) }

const k1: K<51> = K;
const k2: K<52> = K;
const k3: K<53> = K;
const s1: SK<51> = SK;
const s2: SK<52> = SK;
const K1: r::RK<51> = r::RK;
const K2: r::RK<52> = r::RK;
const K3: r::RK<53> = r::RK;
const S1: r::RSK<51> = r::RSK;
const S2: r::RSK<52> = r::RSK;
use crate::refsem::{alt, line as rline, map, one, opt as ropt, plus, rsep, section as rsection, seq, star, text};
pub fn p_kline() { run_parse(parser!(k1 line(k2))) }
pub fn p_kline_ref() { r::parse(seq(K1, rline(K2))) }
pub fn p_ksec() { run_parse(parser!(k1 section(k2))) }
pub fn p_ksec_ref() { r::parse(seq(K1, rsection(K2))) }
pub fn p_linek() { run_parse(parser!(line(k1) k2)) }
pub fn p_linek_ref() { r::parse(seq(rline(K1), K2)) }
pub fn p_seck() { run_parse(parser!(section(k1) k2)) }
pub fn p_seck_ref() { r::parse(seq(rsection(K1), K2)) }
pub fn p_altline() { run_parse(parser!({line(s1), line(s2)})) }
pub fn p_altline_ref() { r::parse(alt(rline(S1), rline(S2))) }
pub fn p_altsec() { run_parse(parser!({section(s1), section(s2)})) }
pub fn p_altsec_ref() { r::parse(alt(rsection(S1), rsection(S2))) }
pub fn p_altlsec() { run_parse(parser!({line(s1), section(s2)})) }
pub fn p_altlsec_ref() { r::parse(alt(rline(S1), rsection(S2))) }
pub fn p_lineline() { run_parse(parser!(line(k1) line(k2))) }
pub fn p_lineline_ref() { r::parse(seq(rline(K1), rline(K2))) }
pub fn p_secsec() { run_parse(parser!(section(k1) section(k2))) }
pub fn p_secsec_ref() { r::parse(seq(rsection(K1), rsection(K2))) }
pub fn p_lineopt() { run_parse(parser!(line(k1)? k2)) }
pub fn p_lineopt_ref() { r::parse(seq(ropt(rline(K1)), K2)) }
pub fn p_starline() { run_parse(parser!(line(k1)*)) }
pub fn p_starline_ref() { r::parse(star(rline(K1))) }
pub fn p_plusline() { run_parse(parser!(line(k1)+)) }
pub fn p_plusline_ref() { r::parse(plus(rline(K1))) }
pub fn p_starsec() { run_parse(parser!(section(k1)*)) }
pub fn p_starsec_ref() { r::parse(star(rsection(K1))) }
pub fn p_linealt() { run_parse(parser!(line({s1, s2}))) }
pub fn p_linealt_ref() { r::parse(rline(alt(S1, S2))) }
pub fn p_linestar() { run_parse(parser!(line(k1*))) }
pub fn p_linestar_ref() { r::parse(rline(star(K1))) }
pub fn p_linesep() { run_parse(parser!(line(repeat_sep(k1, k2)))) }
pub fn p_linesep_ref() { r::parse(rline(rsep(K1, K2))) }
pub fn p_strline() { run_parse(parser!(string(line(k1)))) }
pub fn p_strline_ref() { r::parse(text(rline(K1))) }
pub fn p_linestr() { run_parse(parser!(line(string(k1)))) }
pub fn p_linestr_ref() { r::parse(rline(text(K1))) }
pub fn p_lineinline() { run_parse(parser!(line(line(k1)))) }
pub fn p_lineinline_ref() { r::parse(rline(rline(K1))) }
pub fn p_secinsec() { run_parse(parser!(section(section(k1)))) }
pub fn p_secinsec_ref() { r::parse(rsection(rsection(K1))) }
pub fn p_secinline() { run_parse(parser!(line(section(k1)))) }
pub fn p_secinline_ref() { r::parse(rline(rsection(K1))) }
pub fn p_seclines() { run_parse(parser!(section(line(k1) line(k2)))) }
pub fn p_seclines_ref() { r::parse(rsection(seq(rline(K1), rline(K2)))) }
pub fn p_lines() { run_parse(parser!(lines(k1))) }
pub fn p_lines_ref() { r::parse(star(rline(K1))) }
pub fn p_sections() { run_parse(parser!(sections(k1))) }
pub fn p_sections_ref() { r::parse(star(rsection(K1))) }
pub fn p_ruleline() { run_parse(parser!(rule w: V<51> = k1; line(w) line(w))) }
pub fn p_ruleline_ref() { r::parse(seq(rline(K1), rline(K1))) }
pub fn p_rulekline() { run_parse(parser!(rule w: V<51> = k1; k2 line(w) w)) }
pub fn p_rulekline_ref() { r::parse(r::Seq(seq(K2, rline(K1)), K1, r::Flat)) }
pub fn p_rulesec() { run_parse(parser!(rule w: V<51> = k1; section(w) w)) }
pub fn p_rulesec_ref() { r::parse(seq(rsection(K1), K1)) }
pub fn p_ruleinline() { run_parse(parser!(rule w: V<51> = line(k1); line(k2) w)) }
pub fn p_ruleinline_ref() { r::parse(seq(rline(K2), rline(K1))) }
pub fn p_kstar() { run_parse(parser!(k1*)) }
pub fn p_kstar_ref() { r::parse(star(K1)) }
// the derived functions are what the documentation says they are
pub fn s_lines() { obs_value(lines(k1)) }
pub fn s_lines_ref() { obs_value(aoc_parse::macros::star(line(k1))) }
pub fn s_sections() { obs_value(sections(k1)) }
pub fn s_sections_ref() { obs_value(aoc_parse::macros::star(section(k1))) }
