//! Characters and literals, after a leaf.
use crate::refsem as r;
use crate::sym::*;
use aoc_parse::{parser, prelude::*};
use r::{cls, lit, map, seq, OneCharOf};

const qa: K<51> = K;
const QA: r::RK<51> = r::RK;

macro_rules! w {
    ($($n:ident $m:ident ($($p:tt)*) $r:expr;)*) => { $(
        pub fn $n() { run_parse(parser!($($p)*)) }
        pub fn $m() { r::parse($r) }
    )* };
}
fn dec(c: char) -> usize { c as usize - 48 }
fn hex(c: char) -> usize {
    if c <= '9' { c as usize - 48 } else if c >= 'a' { c as usize - 87 } else { c as usize - 55 }
}
fn is_hex(c: char) -> bool { c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
w! {
    c_alpha c_alpha_ref (qa alpha) seq(QA, cls(|c| c.is_alphabetic(), "noun letter"));
    c_alnum c_alnum_ref (qa alnum) seq(QA, cls(|c| c.is_alphanumeric(), "noun letter or digit"));
    c_upper c_upper_ref (qa upper) seq(QA, cls(|c| c.is_uppercase(), "noun uppercase letter"));
    c_lower c_lower_ref (qa lower) seq(QA, cls(|c| c.is_lowercase(), "noun lowercase letter"));
    c_any c_any_ref (qa any_char) seq(QA, cls(|_c| true, "noun any character"));
    c_digit c_digit_ref (qa digit) seq(QA, map(cls(|c| c >= '0' && c <= '9', "noun decimal digit"), |(c,)| (dec(c),)));
    c_digitbin c_digitbin_ref (qa digit_bin) seq(QA, map(cls(|c| c == '0' || c == '1', "noun binary digit"), |(c,)| (dec(c),)));
    c_digithex c_digithex_ref (qa digit_hex) seq(QA, map(cls(is_hex, "noun hexadecimal digit"), |(c,)| (hex(c),)));
    c_alpha2 c_alpha2_ref (qa alpha alpha) seq(QA, seq(cls(|c| c.is_alphabetic(), "noun letter"), cls(|c| c.is_alphabetic(), "noun letter")));
    c_any2 c_any2_ref (any_char qa any_char) seq(cls(|_c| true, "noun any character"), seq(QA, cls(|_c| true, "noun any character")));
    c_of c_of_ref (qa char_of("<=>")) seq(QA, OneCharOf("<=>"));
    c_ofu c_ofu_ref (qa char_of("ab\u{1F602}\u{e9}z\u{1F603}")) seq(QA, OneCharOf("ab\u{1F602}\u{e9}z\u{1F603}"));
    c_ofdup c_ofdup_ref (qa char_of("abcab")) seq(QA, OneCharOf("abcab"));
    c_ofnone c_ofnone_ref (qa char_of("")) seq(QA, OneCharOf(""));
    c_ofnl c_ofnl_ref (qa char_of("#.\n\0\u{7f}\u{80}")) seq(QA, OneCharOf("#.\n\0\u{7f}\u{80}"));
    c_of2 c_of2_ref (char_of("ab") qa char_of("ba")) seq(OneCharOf("ab"), seq(QA, OneCharOf("ba")));
    l_str l_str_ref (qa "ab") seq(QA, lit("ab"));
    l_stru l_stru_ref (qa "a\u{e9}\u{1F602}b") seq(QA, lit("a\u{e9}\u{1F602}b"));
    l_strnl l_strnl_ref (qa "\n\n") seq(QA, lit("\n\n"));
    l_empty l_empty_ref (qa "") seq(QA, lit(""));
    l_nothing l_nothing_ref (() qa) seq(r::one(r::Nothing), QA);
    l_chr l_chr_ref (qa 'x') seq(QA, lit("x"));
    l_chru l_chru_ref (qa '\u{1F602}') seq(QA, lit("\u{1F602}"));
    l_chru2 l_chru2_ref (qa '\u{e9}') seq(QA, lit("\u{e9}"));
    l_chrnl l_chrnl_ref (qa '\n' "b") seq(QA, seq(lit("\n"), lit("b")));
    l_rep l_rep_ref (qa "aab" "a") seq(QA, seq(lit("aab"), lit("a")));
    l_twice l_twice_ref ("ab" qa "ab" 'a') seq(lit("ab"), seq(QA, seq(lit("ab"), lit("a"))));
    l_case l_case_ref (qa "Ab" 'Z') seq(QA, seq(lit("Ab"), lit("Z")));
}
pub fn l_string() { let t = String::from("ab"); let s: &str = &t; run_parse(parser!(qa s)) }
pub fn l_string_ref() { r::parse(seq(QA, lit("ab"))) }
pub fn l_charvar() { let t = 'k'; run_parse(parser!(qa t)) }
pub fn l_charvar_ref() { r::parse(seq(QA, lit("k"))) }
