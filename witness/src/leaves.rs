//! The leaves by short names, and opaque functions.
use crate::refsem as r;
use crate::sym::*;
pub const a: L<1> = L;
pub const A: r::RL<1> = r::RL;
pub const sa: S<1> = S;
pub const SA: r::RS<1> = r::RS;
pub const u1: U<1> = U;
pub const U1: r::RU<1> = r::RU;
pub const b: L<2> = L;
pub const B: r::RL<2> = r::RL;
pub const sb: S<2> = S;
pub const SB: r::RS<2> = r::RS;
pub const u2: U<2> = U;
pub const U2: r::RU<2> = r::RU;
pub const c: L<3> = L;
pub const C: r::RL<3> = r::RL;
pub const sc: S<3> = S;
pub const SC: r::RS<3> = r::RS;
pub const u3: U<3> = U;
pub const U3: r::RU<3> = r::RU;
pub const d: L<4> = L;
pub const D: r::RL<4> = r::RL;
pub const sd: S<4> = S;
pub const SD: r::RS<4> = r::RS;
pub const u4: U<4> = U;
pub const U4: r::RU<4> = r::RU;
pub const e: L<5> = L;
pub const E: r::RL<5> = r::RL;
pub const se: S<5> = S;
pub const SE: r::RS<5> = r::RS;
pub const u5: U<5> = U;
pub const U5: r::RU<5> = r::RU;
pub const f: L<6> = L;
pub const F: r::RL<6> = r::RL;
pub const sf: S<6> = S;
pub const SF: r::RS<6> = r::RS;
pub const u6: U<6> = U;
pub const U6: r::RU<6> = r::RU;
pub const g: L<7> = L;
pub const G: r::RL<7> = r::RL;
pub const sg: S<7> = S;
pub const SG: r::RS<7> = r::RS;
pub const u7: U<7> = U;
pub const U7: r::RU<7> = r::RU;
pub const h: L<8> = L;
pub const H: r::RL<8> = r::RL;
pub const sh: S<8> = S;
pub const SH: r::RS<8> = r::RS;
pub const u8: U<8> = U;
pub const U8: r::RU<8> = r::RU;
pub const q2: S<4> = S;

// functions of which nothing is known
#[inline(never)] pub fn uf_zero() -> V<9> { loop {} }
#[inline(never)] pub fn uf_one<T>(x: T) -> V<9> { loop {} }
#[inline(never)] pub fn uf_two<T, X>(x: T, y: X) -> V<9> { loop {} }
#[inline(never)] pub fn uf_three<T, X, Y>(x: T, y: X, z: Y) -> V<9> { loop {} }
#[inline(never)] pub fn uf_four<T, X, Y, Z>(x: T, y: X, z: Y, w: Z) -> V<9> { loop {} }
pub const t2: T2<7> = T2;
pub const T2_: r::RT2<7> = r::RT2;
