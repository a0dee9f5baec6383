//! Collections.
use crate::leaves::*;
use crate::refsem as r;
use crate::sym::*;
use aoc_parse::{parser, prelude::*};
use r::{alt, map, one, opt, plus, rsep, seq, star};
use std::collections::*;

pub fn o_hset() { run(parser!(hash_set(a*))) }
pub fn o_hset_ref() { r::drive(map(star(A), |(v,)| (r::coll::<HashSet<V<1>>, _>(v),))) }
pub fn o_bset() { run(parser!(btree_set(a+))) }
pub fn o_bset_ref() { r::drive(map(plus(A), |(v,)| (r::coll::<BTreeSet<V<1>>, _>(v),))) }
pub fn o_deque() { run(parser!(vec_deque(a*))) }
pub fn o_deque_ref() { r::drive(map(star(A), |(v,)| (r::coll::<VecDeque<V<1>>, _>(v),))) }
pub fn o_hmap() { run(parser!(hash_map(t2*))) }
pub fn o_hmap_ref() { r::drive(map(star(one(T2_)), |(v,)| (r::coll::<HashMap<V<7>, V<7>>, _>(v),))) }
pub fn o_bmap() { run(parser!(btree_map(t2+))) }
pub fn o_bmap_ref() { r::drive(map(plus(one(T2_)), |(v,)| (r::coll::<BTreeMap<V<7>, V<7>>, _>(v),))) }
pub fn o_hmap2() { run(parser!(hash_map((a b)*))) }
pub fn o_hmap2_ref() { r::drive(map(star(one(seq(A, B))), |(v,)| (r::coll::<HashMap<V<1>, V<2>>, _>(v),))) }
pub fn o_dequesep() { run(parser!(vec_deque(repeat_sep(a, b)))) }
pub fn o_dequesep_ref() { r::drive(map(rsep(A, B), |(v,)| (r::coll::<VecDeque<V<1>>, _>(v),))) }
pub fn o_setopt() { run(parser!(hash_set(a?) b)) }
pub fn o_setopt_ref() { r::drive(seq(map(opt(A), |(v,)| (r::coll::<HashSet<V<1>>, _>(match v { Some(x) => vec![x], None => vec![] }),)), B)) }
pub fn o_dequeopt() { run(parser!(vec_deque(a?) b)) }
pub fn o_dequeopt_ref() { r::drive(seq(map(opt(A), |(v,)| (r::coll::<VecDeque<V<1>>, _>(match v { Some(x) => vec![x], None => vec![] }),)), B)) }
pub fn o_mid() { run(parser!(a btree_set(b+))) }
pub fn o_mid_ref() { r::drive(seq(A, map(plus(B), |(v,)| (r::coll::<BTreeSet<V<2>>, _>(v),)))) }
pub fn o_nest() { run(parser!(btree_set(vec_deque(a*)?))) }
pub fn o_nest_ref() { r::drive(map(opt(map(star(A), |(v,)| (r::coll::<VecDeque<V<1>>, _>(v),))), |(v,)| (r::coll::<BTreeSet<VecDeque<V<1>>>, _>(match v { Some(x) => vec![x], None => vec![] }),))) }
// called as functions
pub fn o_fnhset() { run(aoc_parse::prelude::hash_set(parser!(a*))) }
pub fn o_fnhset_ref() { o_hset_ref() }
pub fn o_fnbmap() { run(aoc_parse::prelude::btree_map(parser!(t2*))) }
pub fn o_fnbmap_ref() { r::drive(map(star(one(T2_)), |(v,)| (r::coll::<BTreeMap<V<7>, V<7>>, _>(v),))) }
