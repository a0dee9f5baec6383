//! What an error shows.
use crate::sym::*;
use aoc_parse::{parser, prelude::*, ParseContext, ParseError};

/// The text ends as the reference's does.
fn shown(e: &ParseError) {
    let mut s = String::new();
    std::fmt::Display::fmt(e, formatter(&mut s)).unwrap();
    obs_tail(s)
}

fn place() -> String { let src = any_str(); place_of(src, any_start(src)) }
fn place_of(src: &str, at: usize) -> String {
    if at == src.len() {
        String::from(" at end of input")
    } else {
        let before = &src[..at];
        let line = match before.rfind('\n') { Some(i) => i + 1, None => 0 };
        let l = before.matches('\n').count() + 1;
        let c = before[line..].chars().count() + 1;
        format!(" at line {} column {}", l, c)
    }
}

pub fn e_expected() {
    let src = any_str();
    let mut cx = ParseContext::new(src);
    let _ = cx.error_expected(any_start(src), some_text());
    shown(&cx.into_reported_error())
}
pub fn e_expected_ref() { obs_tail(place()) }
pub fn e_extra() {
    let src = any_str();
    let mut cx = ParseContext::new(src);
    let _ = cx.error_extra(any_start(src));
    shown(&cx.into_reported_error())
}
pub fn e_extra_ref() { obs_tail(place()) }
pub fn e_fromstr() {
    let src = any_str();
    let mut cx = ParseContext::new(src);
    let _ = cx.error_from_str_failed(any_start(src), src.len(), "usize", String::from(some_text()));
    shown(&cx.into_reported_error())
}
pub fn e_fromstr_ref() { obs_tail(place()) }

/// Errors that only parsers report: whatever their place is, it is shown.
macro_rules! by_parser {
    ($w:ident, $r:ident, $p:expr) => {
        pub fn $w() { if let Err(e) = $p.parse(any_str()) { shown(&e) } }
        pub fn $r() { if let Err(e) = $p.parse(any_str()) { obs_tail(place_of(&e.source, e.location)) } }
    };
}
by_parser!(e_line, e_line_ref, parser!("a" line("b")));
by_parser!(e_line_extra, e_line_extra_ref, parser!(line("b")));
by_parser!(e_section, e_section_ref, parser!("a" section("b")));
by_parser!(e_section_extra, e_section_extra_ref, parser!(section("b")));
