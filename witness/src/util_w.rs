//! aoc_parse()
use crate::leaves::uf_one;
use crate::sym::*;
use aoc_parse::ParseError;

pub struct Mine(V<9>);
impl From<ParseError> for Mine { fn from(e: ParseError) -> Mine { Mine(uf_one(e)) } }

/// The text, with its final newline.
fn full(s: &str) -> String {
    let mut t = String::new();
    t.push_str(s);
    if s.len() == 0 || s.as_bytes()[s.len() - 1] != 10 { t.push_str("\n") }
    t
}
fn reference<E: From<ParseError>>() -> Result<V<1>, E> {
    let t = full(any_str());
    match ev_parse::<V<1>, ParseError>(&t) { Ok(v) => Ok(v), Err(e) => Err(E::from(e)) }
}
pub fn t_mine() { obs_value(aoc_parse::prelude::aoc_parse::<_, Mine>(any_str(), Whole)) }
pub fn t_mine_ref() { obs_value(reference::<Mine>()) }
pub fn t_same() { obs_value(aoc_parse::prelude::aoc_parse::<_, ParseError>(any_str(), Whole)) }
pub fn t_same_ref() { obs_value(reference::<ParseError>()) }
