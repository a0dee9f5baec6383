//! The combinators over opaque leaves, each with its reference.
use crate::refsem as r;
use crate::sym::*;
use aoc_parse::{parser, prelude::*};

const a: L<1> = L;
const b: L<2> = L;
const sa: S<1> = S;
const sb: S<2> = S;

pub fn w_seq() { run(parser!(a b)) }
pub fn w_seq_ref() { r::drive(r::Seq(r::RL::<1>, r::RL::<2>, r::Flat)) }
pub fn w_pair() { run(parser!(x:a y:b => (x, y))) }
pub fn w_pair_ref() { r::drive(r::Map(r::Seq(r::RL::<1>, r::RL::<2>, r::Pair), |p| (p,))) }
pub fn w_alt() { run(parser!({sa, sb})) }
pub fn w_alt_ref() { r::drive(r::Alt(r::RS::<1>, r::RS::<2>, r::OneOf)) }
pub fn w_opt() { run(parser!(a?)) }
pub fn w_opt_ref() { r::drive(r::opt(r::RL::<1>)) }
pub fn w_star() { run(parser!(a*)) }
pub fn w_star_ref() { r::drive(r::Rep(r::RL::<1>, r::Nothing, 0)) }
pub fn w_plus() { run(parser!(a+)) }
pub fn w_plus_ref() { r::drive(r::Rep(r::RL::<1>, r::Nothing, 1)) }
pub fn w_repsep() { run(parser!(repeat_sep(a, b))) }
pub fn w_repsep_ref() { r::drive(r::Rep(r::RL::<1>, r::RL::<2>, 0)) }
pub fn w_string() { run(parser!(string(a))) }
pub fn w_string_ref() { r::drive(r::Text(r::RL::<1>)) }
