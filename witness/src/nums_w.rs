//! Numbers, after a leaf. (Written by tools/mknums.py.)
use crate::refsem as r;
use crate::sym::*;
use aoc_parse::{parser, prelude::*};
use num_bigint::{BigInt, BigUint};
use r::{num, seq};
use std::str::FromStr;

const qa: K<51> = K;
const QA: r::RK<51> = r::RK;
const DEC: &str = "[0-9]+";
const SDEC: &str = r"(?:\+|-)?[0-9]+";
const BIN: &str = "[01]+";
const SBIN: &str = r"(?:\+|-)?[01]+";
const HEX: &str = "[0-9a-fA-F]+";
const SHEX: &str = r"(?:\+|-)?[0-9a-fA-F]+";
const FLOAT: &str = r"(?:\+|-)?(?:[iI][nN][fF]|[iI][nN][fF][iI][nN][iI][tT][yY]|[nN][aA][nN]|(?:[0-9]+|[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[eE](?:\+|-)?[0-9]+)?)";

fn int<T: r::Radix>(s: &'static str) -> Result<T, T::E> { T::radix(s, 10) }
fn bin<T: r::Radix>(s: &'static str) -> Result<T, T::E> { T::radix(s, 2) }
fn hex<T: r::Radix>(s: &'static str) -> Result<T, T::E> { T::radix(s, 16) }
fn flt<T: FromStr>(s: &'static str) -> Result<T, T::Err> { T::from_str(s) }

macro_rules! w {
    ($($n:ident $m:ident $t:ty, $p:expr, $l:ident $c:ident;)*) => { $(
        pub fn $n() { { let x = $p; run_parse(parser!(qa x)) } }
        pub fn $m() { r::parse(seq(QA, num($l, $c::<$t>))) }
    )* };
}
w! {
    n_u8 n_u8_ref u8, u8, DEC int;
    n_u8bin n_u8bin_ref u8, u8_bin, BIN bin;
    n_u8hex n_u8hex_ref u8, u8_hex, HEX hex;
    n_u16 n_u16_ref u16, u16, DEC int;
    n_u16bin n_u16bin_ref u16, u16_bin, BIN bin;
    n_u16hex n_u16hex_ref u16, u16_hex, HEX hex;
    n_u32 n_u32_ref u32, u32, DEC int;
    n_u32bin n_u32bin_ref u32, u32_bin, BIN bin;
    n_u32hex n_u32hex_ref u32, u32_hex, HEX hex;
    n_u64 n_u64_ref u64, u64, DEC int;
    n_u64bin n_u64bin_ref u64, u64_bin, BIN bin;
    n_u64hex n_u64hex_ref u64, u64_hex, HEX hex;
    n_u128 n_u128_ref u128, u128, DEC int;
    n_u128bin n_u128bin_ref u128, u128_bin, BIN bin;
    n_u128hex n_u128hex_ref u128, u128_hex, HEX hex;
    n_usize n_usize_ref usize, usize, DEC int;
    n_usizebin n_usizebin_ref usize, usize_bin, BIN bin;
    n_usizehex n_usizehex_ref usize, usize_hex, HEX hex;
    n_i8 n_i8_ref i8, i8, SDEC int;
    n_i8bin n_i8bin_ref i8, i8_bin, SBIN bin;
    n_i8hex n_i8hex_ref i8, i8_hex, SHEX hex;
    n_i16 n_i16_ref i16, i16, SDEC int;
    n_i16bin n_i16bin_ref i16, i16_bin, SBIN bin;
    n_i16hex n_i16hex_ref i16, i16_hex, SHEX hex;
    n_i32 n_i32_ref i32, i32, SDEC int;
    n_i32bin n_i32bin_ref i32, i32_bin, SBIN bin;
    n_i32hex n_i32hex_ref i32, i32_hex, SHEX hex;
    n_i64 n_i64_ref i64, i64, SDEC int;
    n_i64bin n_i64bin_ref i64, i64_bin, SBIN bin;
    n_i64hex n_i64hex_ref i64, i64_hex, SHEX hex;
    n_i128 n_i128_ref i128, i128, SDEC int;
    n_i128bin n_i128bin_ref i128, i128_bin, SBIN bin;
    n_i128hex n_i128hex_ref i128, i128_hex, SHEX hex;
    n_isize n_isize_ref isize, isize, SDEC int;
    n_isizebin n_isizebin_ref isize, isize_bin, SBIN bin;
    n_isizehex n_isizehex_ref isize, isize_hex, SHEX hex;
    n_biguint n_biguint_ref BigUint, big_uint, DEC int;
    n_biguintbin n_biguintbin_ref BigUint, big_uint_bin, BIN bin;
    n_biguinthex n_biguinthex_ref BigUint, big_uint_hex, HEX hex;
    n_bigint n_bigint_ref BigInt, big_int, SDEC int;
    n_bigintbin n_bigintbin_ref BigInt, big_int_bin, SBIN bin;
    n_biginthex n_biginthex_ref BigInt, big_int_hex, SHEX hex;
    n_f32 n_f32_ref f32, f32, FLOAT flt;
    n_f64 n_f64_ref f64, f64, FLOAT flt;
}
pub fn n_bool() { run_parse(parser!(qa bool)) }
pub fn n_bool_ref() { r::parse(seq(QA, num("true|false", flt::<bool>))) }
// twice, and beside each other
pub fn n_two() { run_parse(parser!(u32 "," i64)) }
pub fn n_two_ref() { r::parse(seq(num(DEC, int::<u32>), seq(r::lit(","), num(SDEC, int::<i64>)))) }
pub fn n_alt() { run_parse(parser!({x:u8 => x, x:u8_hex => x} qa)) }
pub fn n_alt_ref() { r::parse(seq(r::alt(r::map(num(DEC, int::<u8>), |(x,)| (x,)), r::map(num(HEX, hex::<u8>), |(x,)| (x,))), QA)) }
pub fn n_str() { run_parse(parser!(qa string(i16))) }
pub fn n_str_ref() { r::parse(seq(QA, r::text(num(SDEC, int::<i16>)))) }
