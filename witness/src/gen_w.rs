//! Every form of term, quantified or not, labelled or not, in every kind of place (written by tools/mkgen.py).
use crate::refsem as r;
use crate::sym::*;
use crate::leaves::*;
use aoc_parse::{parser, prelude::*};
use r::{alt, lit, map, one, opt, plus, seq, star, text};
fn keep<P: Parser>(p: P) -> P { p }
fn last<P: Parser, Q: Parser>(_p: P, q: Q) -> Q { q }
pub fn g_id_a() { run(parser!(a)) }
pub fn g_id_a_ref() { r::drive(A) }
pub fn g_id_b() { run(parser!(a e)) }
pub fn g_id_b_ref() { r::drive(seq(A, E)) }
pub fn g_id_c() { run(parser!(e a)) }
pub fn g_id_c_ref() { r::drive(seq(E, A)) }
pub fn g_id_d() { run(parser!(e a f)) }
pub fn g_id_d_ref() { r::drive(seq(E, seq(A, F))) }
pub fn g_id_e() { run(parser!(x:a => uf_one(x))) }
pub fn g_id_e_ref() { r::drive(map(A, |(x,)| (uf_one(x),))) }
pub fn g_id_f() { run(parser!(x:a y:e => uf_two(x, y))) }
pub fn g_id_f_ref() { r::drive(map(seq(A, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_id_g() { run(parser!(y:e x:a => uf_two(y, x))) }
pub fn g_id_g_ref() { r::drive(map(seq(E, A), |(y, x)| (uf_two(y, x),))) }
pub fn g_id_h() { run(parser!(y:e x:a w:f => uf_three(y, x, w))) }
pub fn g_id_h_ref() { r::drive(map(seq(E, seq(A, F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_id_i() { run(parser!(e x:a f => uf_one(x))) }
pub fn g_id_i_ref() { r::drive(map(seq(E, seq(A, F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_id_j() { run(parser!(a y:e => uf_one(y))) }
pub fn g_id_j_ref() { r::drive(map(seq(A, E), |(_, y)| (uf_one(y),))) }
pub fn g_id_k() { run(parser!(y:e a => uf_one(y))) }
pub fn g_id_k_ref() { r::drive(map(seq(E, A), |(y, _)| (uf_one(y),))) }
pub fn g_id_l() { run(parser!(a => uf_zero())) }
pub fn g_id_l_ref() { r::drive(map(A, |(_,)| (uf_zero(),))) }
pub fn g_id_m() { run(parser!({x:e => uf_one(x), y:a => uf_one(y)})) }
pub fn g_id_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(A, |(y,)| (uf_one(y),)))) }
pub fn g_id_n() { run(parser!({a => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_id_n_ref() { r::drive(seq(alt(map(A, |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_id_o() { run(parser!(keep(a) e)) }
pub fn g_id_o_ref() { r::drive(seq(A, E)) }
pub fn g_id_p() { run(parser!(last(e, a))) }
pub fn g_id_p_ref() { r::drive(A) }
pub fn g_id_q() { run(parser!(x:last(a, f,) y:e => uf_two(x, y))) }
pub fn g_id_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_id_r() { run(parser!(rule q: V<9> = x:a => uf_one(x); q e)) }
pub fn g_id_r_ref() { r::drive(seq(map(A, |(x,)| (uf_one(x),)), E)) }
pub fn g_id_s() { run(parser!((a) e)) }
pub fn g_id_s_ref() { r::drive(seq(one(A), E)) }
pub fn g_id_t() { run(parser!((e a))) }
pub fn g_id_t_ref() { r::drive(seq(E, A)) }
pub fn g_id_u() { run(parser!(rule q: V<1> = a; e q)) }
pub fn g_id_u_ref() { r::drive(seq(E, one(A))) }
pub fn g_ids_a() { run(parser!(a*)) }
pub fn g_ids_a_ref() { r::drive(star(A)) }
pub fn g_ids_b() { run(parser!(a* e)) }
pub fn g_ids_b_ref() { r::drive(seq(star(A), E)) }
pub fn g_ids_c() { run(parser!(e a*)) }
pub fn g_ids_c_ref() { r::drive(seq(E, star(A))) }
pub fn g_ids_d() { run(parser!(e a* f)) }
pub fn g_ids_d_ref() { r::drive(seq(E, seq(star(A), F))) }
pub fn g_ids_e() { run(parser!(x:a* => uf_one(x))) }
pub fn g_ids_e_ref() { r::drive(map(star(A), |(x,)| (uf_one(x),))) }
pub fn g_ids_f() { run(parser!(x:a* y:e => uf_two(x, y))) }
pub fn g_ids_f_ref() { r::drive(map(seq(star(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ids_g() { run(parser!(y:e x:a* => uf_two(y, x))) }
pub fn g_ids_g_ref() { r::drive(map(seq(E, star(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_ids_h() { run(parser!(y:e x:a* w:f => uf_three(y, x, w))) }
pub fn g_ids_h_ref() { r::drive(map(seq(E, seq(star(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_ids_i() { run(parser!(e x:a* f => uf_one(x))) }
pub fn g_ids_i_ref() { r::drive(map(seq(E, seq(star(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_ids_j() { run(parser!(a* y:e => uf_one(y))) }
pub fn g_ids_j_ref() { r::drive(map(seq(star(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_ids_k() { run(parser!(y:e a* => uf_one(y))) }
pub fn g_ids_k_ref() { r::drive(map(seq(E, star(A)), |(y, _)| (uf_one(y),))) }
pub fn g_ids_l() { run(parser!(a* => uf_zero())) }
pub fn g_ids_l_ref() { r::drive(map(star(A), |(_,)| (uf_zero(),))) }
pub fn g_ids_m() { run(parser!({x:e => uf_one(x), y:a* => uf_one(y)})) }
pub fn g_ids_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(A), |(y,)| (uf_one(y),)))) }
pub fn g_ids_n() { run(parser!({a* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_ids_n_ref() { r::drive(seq(alt(map(star(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_ids_o() { run(parser!(keep(a*) e)) }
pub fn g_ids_o_ref() { r::drive(seq(star(A), E)) }
pub fn g_ids_p() { run(parser!(last(e, a*))) }
pub fn g_ids_p_ref() { r::drive(star(A)) }
pub fn g_ids_q() { run(parser!(x:last(a*, f,) y:e => uf_two(x, y))) }
pub fn g_ids_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ids_r() { run(parser!(rule q: V<9> = x:a* => uf_one(x); q e)) }
pub fn g_ids_r_ref() { r::drive(seq(map(star(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_ids_s() { run(parser!((a*) e)) }
pub fn g_ids_s_ref() { r::drive(seq(one(star(A)), E)) }
pub fn g_ids_t() { run(parser!((e a*))) }
pub fn g_ids_t_ref() { r::drive(seq(E, star(A))) }
pub fn g_ids_u() { run(parser!(rule q: Vec<V<1>> = a*; e q)) }
pub fn g_ids_u_ref() { r::drive(seq(E, one(star(A)))) }
pub fn g_idp_a() { run(parser!(a+)) }
pub fn g_idp_a_ref() { r::drive(plus(A)) }
pub fn g_idp_b() { run(parser!(a+ e)) }
pub fn g_idp_b_ref() { r::drive(seq(plus(A), E)) }
pub fn g_idp_c() { run(parser!(e a+)) }
pub fn g_idp_c_ref() { r::drive(seq(E, plus(A))) }
pub fn g_idp_d() { run(parser!(e a+ f)) }
pub fn g_idp_d_ref() { r::drive(seq(E, seq(plus(A), F))) }
pub fn g_idp_e() { run(parser!(x:a+ => uf_one(x))) }
pub fn g_idp_e_ref() { r::drive(map(plus(A), |(x,)| (uf_one(x),))) }
pub fn g_idp_f() { run(parser!(x:a+ y:e => uf_two(x, y))) }
pub fn g_idp_f_ref() { r::drive(map(seq(plus(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_idp_g() { run(parser!(y:e x:a+ => uf_two(y, x))) }
pub fn g_idp_g_ref() { r::drive(map(seq(E, plus(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_idp_h() { run(parser!(y:e x:a+ w:f => uf_three(y, x, w))) }
pub fn g_idp_h_ref() { r::drive(map(seq(E, seq(plus(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_idp_i() { run(parser!(e x:a+ f => uf_one(x))) }
pub fn g_idp_i_ref() { r::drive(map(seq(E, seq(plus(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_idp_j() { run(parser!(a+ y:e => uf_one(y))) }
pub fn g_idp_j_ref() { r::drive(map(seq(plus(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_idp_k() { run(parser!(y:e a+ => uf_one(y))) }
pub fn g_idp_k_ref() { r::drive(map(seq(E, plus(A)), |(y, _)| (uf_one(y),))) }
pub fn g_idp_l() { run(parser!(a+ => uf_zero())) }
pub fn g_idp_l_ref() { r::drive(map(plus(A), |(_,)| (uf_zero(),))) }
pub fn g_idp_m() { run(parser!({x:e => uf_one(x), y:a+ => uf_one(y)})) }
pub fn g_idp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(A), |(y,)| (uf_one(y),)))) }
pub fn g_idp_n() { run(parser!({a+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_idp_n_ref() { r::drive(seq(alt(map(plus(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_idp_o() { run(parser!(keep(a+) e)) }
pub fn g_idp_o_ref() { r::drive(seq(plus(A), E)) }
pub fn g_idp_p() { run(parser!(last(e, a+))) }
pub fn g_idp_p_ref() { r::drive(plus(A)) }
pub fn g_idp_q() { run(parser!(x:last(a+, f,) y:e => uf_two(x, y))) }
pub fn g_idp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_idp_r() { run(parser!(rule q: V<9> = x:a+ => uf_one(x); q e)) }
pub fn g_idp_r_ref() { r::drive(seq(map(plus(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_idp_s() { run(parser!((a+) e)) }
pub fn g_idp_s_ref() { r::drive(seq(one(plus(A)), E)) }
pub fn g_idp_t() { run(parser!((e a+))) }
pub fn g_idp_t_ref() { r::drive(seq(E, plus(A))) }
pub fn g_idp_u() { run(parser!(rule q: Vec<V<1>> = a+; e q)) }
pub fn g_idp_u_ref() { r::drive(seq(E, one(plus(A)))) }
pub fn g_ido_a() { run(parser!(a?)) }
pub fn g_ido_a_ref() { r::drive(opt(A)) }
pub fn g_ido_b() { run(parser!(a? e)) }
pub fn g_ido_b_ref() { r::drive(seq(opt(A), E)) }
pub fn g_ido_c() { run(parser!(e a?)) }
pub fn g_ido_c_ref() { r::drive(seq(E, opt(A))) }
pub fn g_ido_d() { run(parser!(e a? f)) }
pub fn g_ido_d_ref() { r::drive(seq(E, seq(opt(A), F))) }
pub fn g_ido_e() { run(parser!(x:a? => uf_one(x))) }
pub fn g_ido_e_ref() { r::drive(map(opt(A), |(x,)| (uf_one(x),))) }
pub fn g_ido_f() { run(parser!(x:a? y:e => uf_two(x, y))) }
pub fn g_ido_f_ref() { r::drive(map(seq(opt(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ido_g() { run(parser!(y:e x:a? => uf_two(y, x))) }
pub fn g_ido_g_ref() { r::drive(map(seq(E, opt(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_ido_h() { run(parser!(y:e x:a? w:f => uf_three(y, x, w))) }
pub fn g_ido_h_ref() { r::drive(map(seq(E, seq(opt(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_ido_i() { run(parser!(e x:a? f => uf_one(x))) }
pub fn g_ido_i_ref() { r::drive(map(seq(E, seq(opt(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_ido_j() { run(parser!(a? y:e => uf_one(y))) }
pub fn g_ido_j_ref() { r::drive(map(seq(opt(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_ido_k() { run(parser!(y:e a? => uf_one(y))) }
pub fn g_ido_k_ref() { r::drive(map(seq(E, opt(A)), |(y, _)| (uf_one(y),))) }
pub fn g_ido_l() { run(parser!(a? => uf_zero())) }
pub fn g_ido_l_ref() { r::drive(map(opt(A), |(_,)| (uf_zero(),))) }
pub fn g_ido_m() { run(parser!({x:e => uf_one(x), y:a? => uf_one(y)})) }
pub fn g_ido_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(A), |(y,)| (uf_one(y),)))) }
pub fn g_ido_n() { run(parser!({a? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_ido_n_ref() { r::drive(seq(alt(map(opt(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_ido_o() { run(parser!(keep(a?) e)) }
pub fn g_ido_o_ref() { r::drive(seq(opt(A), E)) }
pub fn g_ido_p() { run(parser!(last(e, a?))) }
pub fn g_ido_p_ref() { r::drive(opt(A)) }
pub fn g_ido_q() { run(parser!(x:last(a?, f,) y:e => uf_two(x, y))) }
pub fn g_ido_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ido_r() { run(parser!(rule q: V<9> = x:a? => uf_one(x); q e)) }
pub fn g_ido_r_ref() { r::drive(seq(map(opt(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_ido_s() { run(parser!((a?) e)) }
pub fn g_ido_s_ref() { r::drive(seq(one(opt(A)), E)) }
pub fn g_ido_t() { run(parser!((e a?))) }
pub fn g_ido_t_ref() { r::drive(seq(E, opt(A))) }
pub fn g_ido_u() { run(parser!(rule q: Option<V<1>> = a?; e q)) }
pub fn g_ido_u_ref() { r::drive(seq(E, one(opt(A)))) }
pub fn g_un_a() { run(parser!(u1)) }
pub fn g_un_a_ref() { r::drive(U1) }
pub fn g_un_b() { run(parser!(u1 e)) }
pub fn g_un_b_ref() { r::drive(seq(U1, E)) }
pub fn g_un_c() { run(parser!(e u1)) }
pub fn g_un_c_ref() { r::drive(seq(E, U1)) }
pub fn g_un_d() { run(parser!(e u1 f)) }
pub fn g_un_d_ref() { r::drive(seq(E, seq(U1, F))) }
pub fn g_un_e() { run(parser!(x:u1 => uf_one(x))) }
pub fn g_un_e_ref() { r::drive(map(U1, |_| (uf_one(()),))) }
pub fn g_un_f() { run(parser!(x:u1 y:e => uf_two(x, y))) }
pub fn g_un_f_ref() { r::drive(map(seq(U1, E), |(y,)| (uf_two((), y),))) }
pub fn g_un_g() { run(parser!(y:e x:u1 => uf_two(y, x))) }
pub fn g_un_g_ref() { r::drive(map(seq(E, U1), |(y,)| (uf_two(y, ()),))) }
pub fn g_un_h() { run(parser!(y:e x:u1 w:f => uf_three(y, x, w))) }
pub fn g_un_h_ref() { r::drive(map(seq(E, seq(U1, F)), |(y, w)| (uf_three(y, (), w),))) }
pub fn g_un_i() { run(parser!(e x:u1 f => uf_one(x))) }
pub fn g_un_i_ref() { r::drive(map(seq(E, seq(U1, F)), |(_, _)| (uf_one(()),))) }
pub fn g_un_j() { run(parser!(u1 y:e => uf_one(y))) }
pub fn g_un_j_ref() { r::drive(map(seq(U1, E), |(y,)| (uf_one(y),))) }
pub fn g_un_k() { run(parser!(y:e u1 => uf_one(y))) }
pub fn g_un_k_ref() { r::drive(map(seq(E, U1), |(y,)| (uf_one(y),))) }
pub fn g_un_l() { run(parser!(u1 => uf_zero())) }
pub fn g_un_l_ref() { r::drive(map(U1, |_| (uf_zero(),))) }
pub fn g_un_m() { run(parser!({x:e => uf_one(x), y:u1 => uf_one(y)})) }
pub fn g_un_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(U1, |_| (uf_one(()),)))) }
pub fn g_un_n() { run(parser!({u1 => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_un_n_ref() { r::drive(seq(alt(map(U1, |_| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_un_o() { run(parser!(keep(u1) e)) }
pub fn g_un_o_ref() { r::drive(seq(U1, E)) }
pub fn g_un_p() { run(parser!(last(e, u1))) }
pub fn g_un_p_ref() { r::drive(U1) }
pub fn g_un_q() { run(parser!(x:last(u1, f,) y:e => uf_two(x, y))) }
pub fn g_un_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_un_r() { run(parser!(rule q: V<9> = x:u1 => uf_one(x); q e)) }
pub fn g_un_r_ref() { r::drive(seq(map(U1, |_| (uf_one(()),)), E)) }
pub fn g_un_s() { run(parser!((u1) e)) }
pub fn g_un_s_ref() { r::drive(seq(one(U1), E)) }
pub fn g_un_t() { run(parser!((e u1))) }
pub fn g_un_t_ref() { r::drive(seq(E, U1)) }
pub fn g_un_u() { run(parser!(rule q: () = u1; e q)) }
pub fn g_un_u_ref() { r::drive(seq(E, one(U1))) }
pub fn g_uns_a() { run(parser!(u1*)) }
pub fn g_uns_a_ref() { r::drive(star(U1)) }
pub fn g_uns_b() { run(parser!(u1* e)) }
pub fn g_uns_b_ref() { r::drive(seq(star(U1), E)) }
pub fn g_uns_c() { run(parser!(e u1*)) }
pub fn g_uns_c_ref() { r::drive(seq(E, star(U1))) }
pub fn g_uns_d() { run(parser!(e u1* f)) }
pub fn g_uns_d_ref() { r::drive(seq(E, seq(star(U1), F))) }
pub fn g_uns_e() { run(parser!(x:u1* => uf_one(x))) }
pub fn g_uns_e_ref() { r::drive(map(star(U1), |(x,)| (uf_one(x),))) }
pub fn g_uns_f() { run(parser!(x:u1* y:e => uf_two(x, y))) }
pub fn g_uns_f_ref() { r::drive(map(seq(star(U1), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_uns_g() { run(parser!(y:e x:u1* => uf_two(y, x))) }
pub fn g_uns_g_ref() { r::drive(map(seq(E, star(U1)), |(y, x)| (uf_two(y, x),))) }
pub fn g_uns_h() { run(parser!(y:e x:u1* w:f => uf_three(y, x, w))) }
pub fn g_uns_h_ref() { r::drive(map(seq(E, seq(star(U1), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_uns_i() { run(parser!(e x:u1* f => uf_one(x))) }
pub fn g_uns_i_ref() { r::drive(map(seq(E, seq(star(U1), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_uns_j() { run(parser!(u1* y:e => uf_one(y))) }
pub fn g_uns_j_ref() { r::drive(map(seq(star(U1), E), |(_, y)| (uf_one(y),))) }
pub fn g_uns_k() { run(parser!(y:e u1* => uf_one(y))) }
pub fn g_uns_k_ref() { r::drive(map(seq(E, star(U1)), |(y, _)| (uf_one(y),))) }
pub fn g_uns_l() { run(parser!(u1* => uf_zero())) }
pub fn g_uns_l_ref() { r::drive(map(star(U1), |(_,)| (uf_zero(),))) }
pub fn g_uns_m() { run(parser!({x:e => uf_one(x), y:u1* => uf_one(y)})) }
pub fn g_uns_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(U1), |(y,)| (uf_one(y),)))) }
pub fn g_uns_n() { run(parser!({u1* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_uns_n_ref() { r::drive(seq(alt(map(star(U1), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_uns_o() { run(parser!(keep(u1*) e)) }
pub fn g_uns_o_ref() { r::drive(seq(star(U1), E)) }
pub fn g_uns_p() { run(parser!(last(e, u1*))) }
pub fn g_uns_p_ref() { r::drive(star(U1)) }
pub fn g_uns_q() { run(parser!(x:last(u1*, f,) y:e => uf_two(x, y))) }
pub fn g_uns_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_uns_r() { run(parser!(rule q: V<9> = x:u1* => uf_one(x); q e)) }
pub fn g_uns_r_ref() { r::drive(seq(map(star(U1), |(x,)| (uf_one(x),)), E)) }
pub fn g_uns_s() { run(parser!((u1*) e)) }
pub fn g_uns_s_ref() { r::drive(seq(one(star(U1)), E)) }
pub fn g_uns_t() { run(parser!((e u1*))) }
pub fn g_uns_t_ref() { r::drive(seq(E, star(U1))) }
pub fn g_uns_u() { run(parser!(rule q: Vec<()> = u1*; e q)) }
pub fn g_uns_u_ref() { r::drive(seq(E, one(star(U1)))) }
pub fn g_unp_a() { run(parser!(u1+)) }
pub fn g_unp_a_ref() { r::drive(plus(U1)) }
pub fn g_unp_b() { run(parser!(u1+ e)) }
pub fn g_unp_b_ref() { r::drive(seq(plus(U1), E)) }
pub fn g_unp_c() { run(parser!(e u1+)) }
pub fn g_unp_c_ref() { r::drive(seq(E, plus(U1))) }
pub fn g_unp_d() { run(parser!(e u1+ f)) }
pub fn g_unp_d_ref() { r::drive(seq(E, seq(plus(U1), F))) }
pub fn g_unp_e() { run(parser!(x:u1+ => uf_one(x))) }
pub fn g_unp_e_ref() { r::drive(map(plus(U1), |(x,)| (uf_one(x),))) }
pub fn g_unp_f() { run(parser!(x:u1+ y:e => uf_two(x, y))) }
pub fn g_unp_f_ref() { r::drive(map(seq(plus(U1), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_unp_g() { run(parser!(y:e x:u1+ => uf_two(y, x))) }
pub fn g_unp_g_ref() { r::drive(map(seq(E, plus(U1)), |(y, x)| (uf_two(y, x),))) }
pub fn g_unp_h() { run(parser!(y:e x:u1+ w:f => uf_three(y, x, w))) }
pub fn g_unp_h_ref() { r::drive(map(seq(E, seq(plus(U1), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_unp_i() { run(parser!(e x:u1+ f => uf_one(x))) }
pub fn g_unp_i_ref() { r::drive(map(seq(E, seq(plus(U1), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_unp_j() { run(parser!(u1+ y:e => uf_one(y))) }
pub fn g_unp_j_ref() { r::drive(map(seq(plus(U1), E), |(_, y)| (uf_one(y),))) }
pub fn g_unp_k() { run(parser!(y:e u1+ => uf_one(y))) }
pub fn g_unp_k_ref() { r::drive(map(seq(E, plus(U1)), |(y, _)| (uf_one(y),))) }
pub fn g_unp_l() { run(parser!(u1+ => uf_zero())) }
pub fn g_unp_l_ref() { r::drive(map(plus(U1), |(_,)| (uf_zero(),))) }
pub fn g_unp_m() { run(parser!({x:e => uf_one(x), y:u1+ => uf_one(y)})) }
pub fn g_unp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(U1), |(y,)| (uf_one(y),)))) }
pub fn g_unp_n() { run(parser!({u1+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_unp_n_ref() { r::drive(seq(alt(map(plus(U1), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_unp_o() { run(parser!(keep(u1+) e)) }
pub fn g_unp_o_ref() { r::drive(seq(plus(U1), E)) }
pub fn g_unp_p() { run(parser!(last(e, u1+))) }
pub fn g_unp_p_ref() { r::drive(plus(U1)) }
pub fn g_unp_q() { run(parser!(x:last(u1+, f,) y:e => uf_two(x, y))) }
pub fn g_unp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_unp_r() { run(parser!(rule q: V<9> = x:u1+ => uf_one(x); q e)) }
pub fn g_unp_r_ref() { r::drive(seq(map(plus(U1), |(x,)| (uf_one(x),)), E)) }
pub fn g_unp_s() { run(parser!((u1+) e)) }
pub fn g_unp_s_ref() { r::drive(seq(one(plus(U1)), E)) }
pub fn g_unp_t() { run(parser!((e u1+))) }
pub fn g_unp_t_ref() { r::drive(seq(E, plus(U1))) }
pub fn g_unp_u() { run(parser!(rule q: Vec<()> = u1+; e q)) }
pub fn g_unp_u_ref() { r::drive(seq(E, one(plus(U1)))) }
pub fn g_uno_a() { run(parser!(u1?)) }
pub fn g_uno_a_ref() { r::drive(opt(U1)) }
pub fn g_uno_b() { run(parser!(u1? e)) }
pub fn g_uno_b_ref() { r::drive(seq(opt(U1), E)) }
pub fn g_uno_c() { run(parser!(e u1?)) }
pub fn g_uno_c_ref() { r::drive(seq(E, opt(U1))) }
pub fn g_uno_d() { run(parser!(e u1? f)) }
pub fn g_uno_d_ref() { r::drive(seq(E, seq(opt(U1), F))) }
pub fn g_uno_e() { run(parser!(x:u1? => uf_one(x))) }
pub fn g_uno_e_ref() { r::drive(map(opt(U1), |(x,)| (uf_one(x),))) }
pub fn g_uno_f() { run(parser!(x:u1? y:e => uf_two(x, y))) }
pub fn g_uno_f_ref() { r::drive(map(seq(opt(U1), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_uno_g() { run(parser!(y:e x:u1? => uf_two(y, x))) }
pub fn g_uno_g_ref() { r::drive(map(seq(E, opt(U1)), |(y, x)| (uf_two(y, x),))) }
pub fn g_uno_h() { run(parser!(y:e x:u1? w:f => uf_three(y, x, w))) }
pub fn g_uno_h_ref() { r::drive(map(seq(E, seq(opt(U1), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_uno_i() { run(parser!(e x:u1? f => uf_one(x))) }
pub fn g_uno_i_ref() { r::drive(map(seq(E, seq(opt(U1), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_uno_j() { run(parser!(u1? y:e => uf_one(y))) }
pub fn g_uno_j_ref() { r::drive(map(seq(opt(U1), E), |(_, y)| (uf_one(y),))) }
pub fn g_uno_k() { run(parser!(y:e u1? => uf_one(y))) }
pub fn g_uno_k_ref() { r::drive(map(seq(E, opt(U1)), |(y, _)| (uf_one(y),))) }
pub fn g_uno_l() { run(parser!(u1? => uf_zero())) }
pub fn g_uno_l_ref() { r::drive(map(opt(U1), |(_,)| (uf_zero(),))) }
pub fn g_uno_m() { run(parser!({x:e => uf_one(x), y:u1? => uf_one(y)})) }
pub fn g_uno_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(U1), |(y,)| (uf_one(y),)))) }
pub fn g_uno_n() { run(parser!({u1? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_uno_n_ref() { r::drive(seq(alt(map(opt(U1), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_uno_o() { run(parser!(keep(u1?) e)) }
pub fn g_uno_o_ref() { r::drive(seq(opt(U1), E)) }
pub fn g_uno_p() { run(parser!(last(e, u1?))) }
pub fn g_uno_p_ref() { r::drive(opt(U1)) }
pub fn g_uno_q() { run(parser!(x:last(u1?, f,) y:e => uf_two(x, y))) }
pub fn g_uno_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_uno_r() { run(parser!(rule q: V<9> = x:u1? => uf_one(x); q e)) }
pub fn g_uno_r_ref() { r::drive(seq(map(opt(U1), |(x,)| (uf_one(x),)), E)) }
pub fn g_uno_s() { run(parser!((u1?) e)) }
pub fn g_uno_s_ref() { r::drive(seq(one(opt(U1)), E)) }
pub fn g_uno_t() { run(parser!((e u1?))) }
pub fn g_uno_t_ref() { r::drive(seq(E, opt(U1))) }
pub fn g_uno_u() { run(parser!(rule q: Option<()> = u1?; e q)) }
pub fn g_uno_u_ref() { r::drive(seq(E, one(opt(U1)))) }
pub fn g_st_a() { run(parser!("k")) }
pub fn g_st_a_ref() { r::drive(lit("k")) }
pub fn g_st_b() { run(parser!("k" e)) }
pub fn g_st_b_ref() { r::drive(seq(lit("k"), E)) }
pub fn g_st_c() { run(parser!(e "k")) }
pub fn g_st_c_ref() { r::drive(seq(E, lit("k"))) }
pub fn g_st_d() { run(parser!(e "k" f)) }
pub fn g_st_d_ref() { r::drive(seq(E, seq(lit("k"), F))) }
pub fn g_st_e() { run(parser!(x:"k" => uf_one(x))) }
pub fn g_st_e_ref() { r::drive(map(lit("k"), |_| (uf_one(()),))) }
pub fn g_st_f() { run(parser!(x:"k" y:e => uf_two(x, y))) }
pub fn g_st_f_ref() { r::drive(map(seq(lit("k"), E), |(y,)| (uf_two((), y),))) }
pub fn g_st_g() { run(parser!(y:e x:"k" => uf_two(y, x))) }
pub fn g_st_g_ref() { r::drive(map(seq(E, lit("k")), |(y,)| (uf_two(y, ()),))) }
pub fn g_st_h() { run(parser!(y:e x:"k" w:f => uf_three(y, x, w))) }
pub fn g_st_h_ref() { r::drive(map(seq(E, seq(lit("k"), F)), |(y, w)| (uf_three(y, (), w),))) }
pub fn g_st_i() { run(parser!(e x:"k" f => uf_one(x))) }
pub fn g_st_i_ref() { r::drive(map(seq(E, seq(lit("k"), F)), |(_, _)| (uf_one(()),))) }
pub fn g_st_j() { run(parser!("k" y:e => uf_one(y))) }
pub fn g_st_j_ref() { r::drive(map(seq(lit("k"), E), |(y,)| (uf_one(y),))) }
pub fn g_st_k() { run(parser!(y:e "k" => uf_one(y))) }
pub fn g_st_k_ref() { r::drive(map(seq(E, lit("k")), |(y,)| (uf_one(y),))) }
pub fn g_st_l() { run(parser!("k" => uf_zero())) }
pub fn g_st_l_ref() { r::drive(map(lit("k"), |_| (uf_zero(),))) }
pub fn g_st_m() { run(parser!({x:e => uf_one(x), y:"k" => uf_one(y)})) }
pub fn g_st_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(lit("k"), |_| (uf_one(()),)))) }
pub fn g_st_n() { run(parser!({"k" => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_st_n_ref() { r::drive(seq(alt(map(lit("k"), |_| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_st_o() { run(parser!(keep("k") e)) }
pub fn g_st_o_ref() { r::drive(seq(lit("k"), E)) }
pub fn g_st_p() { run(parser!(last(e, "k"))) }
pub fn g_st_p_ref() { r::drive(lit("k")) }
pub fn g_st_q() { run(parser!(x:last("k", f,) y:e => uf_two(x, y))) }
pub fn g_st_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_st_r() { run(parser!(rule q: V<9> = x:"k" => uf_one(x); q e)) }
pub fn g_st_r_ref() { r::drive(seq(map(lit("k"), |_| (uf_one(()),)), E)) }
pub fn g_st_s() { run(parser!(("k") e)) }
pub fn g_st_s_ref() { r::drive(seq(one(lit("k")), E)) }
pub fn g_st_t() { run(parser!((e "k"))) }
pub fn g_st_t_ref() { r::drive(seq(E, lit("k"))) }
pub fn g_st_u() { run(parser!(rule q: () = "k"; e q)) }
pub fn g_st_u_ref() { r::drive(seq(E, one(lit("k")))) }
pub fn g_sts_a() { run(parser!("k"*)) }
pub fn g_sts_a_ref() { r::drive(star(lit("k"))) }
pub fn g_sts_b() { run(parser!("k"* e)) }
pub fn g_sts_b_ref() { r::drive(seq(star(lit("k")), E)) }
pub fn g_sts_c() { run(parser!(e "k"*)) }
pub fn g_sts_c_ref() { r::drive(seq(E, star(lit("k")))) }
pub fn g_sts_d() { run(parser!(e "k"* f)) }
pub fn g_sts_d_ref() { r::drive(seq(E, seq(star(lit("k")), F))) }
pub fn g_sts_e() { run(parser!(x:"k"* => uf_one(x))) }
pub fn g_sts_e_ref() { r::drive(map(star(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_sts_f() { run(parser!(x:"k"* y:e => uf_two(x, y))) }
pub fn g_sts_f_ref() { r::drive(map(seq(star(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sts_g() { run(parser!(y:e x:"k"* => uf_two(y, x))) }
pub fn g_sts_g_ref() { r::drive(map(seq(E, star(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_sts_h() { run(parser!(y:e x:"k"* w:f => uf_three(y, x, w))) }
pub fn g_sts_h_ref() { r::drive(map(seq(E, seq(star(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sts_i() { run(parser!(e x:"k"* f => uf_one(x))) }
pub fn g_sts_i_ref() { r::drive(map(seq(E, seq(star(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sts_j() { run(parser!("k"* y:e => uf_one(y))) }
pub fn g_sts_j_ref() { r::drive(map(seq(star(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_sts_k() { run(parser!(y:e "k"* => uf_one(y))) }
pub fn g_sts_k_ref() { r::drive(map(seq(E, star(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_sts_l() { run(parser!("k"* => uf_zero())) }
pub fn g_sts_l_ref() { r::drive(map(star(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_sts_m() { run(parser!({x:e => uf_one(x), y:"k"* => uf_one(y)})) }
pub fn g_sts_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_sts_n() { run(parser!({"k"* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sts_n_ref() { r::drive(seq(alt(map(star(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sts_o() { run(parser!(keep("k"*) e)) }
pub fn g_sts_o_ref() { r::drive(seq(star(lit("k")), E)) }
pub fn g_sts_p() { run(parser!(last(e, "k"*))) }
pub fn g_sts_p_ref() { r::drive(star(lit("k"))) }
pub fn g_sts_q() { run(parser!(x:last("k"*, f,) y:e => uf_two(x, y))) }
pub fn g_sts_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sts_r() { run(parser!(rule q: V<9> = x:"k"* => uf_one(x); q e)) }
pub fn g_sts_r_ref() { r::drive(seq(map(star(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_sts_s() { run(parser!(("k"*) e)) }
pub fn g_sts_s_ref() { r::drive(seq(one(star(lit("k"))), E)) }
pub fn g_sts_t() { run(parser!((e "k"*))) }
pub fn g_sts_t_ref() { r::drive(seq(E, star(lit("k")))) }
pub fn g_sts_u() { run(parser!(rule q: Vec<()> = "k"*; e q)) }
pub fn g_sts_u_ref() { r::drive(seq(E, one(star(lit("k"))))) }
pub fn g_stp_a() { run(parser!("k"+)) }
pub fn g_stp_a_ref() { r::drive(plus(lit("k"))) }
pub fn g_stp_b() { run(parser!("k"+ e)) }
pub fn g_stp_b_ref() { r::drive(seq(plus(lit("k")), E)) }
pub fn g_stp_c() { run(parser!(e "k"+)) }
pub fn g_stp_c_ref() { r::drive(seq(E, plus(lit("k")))) }
pub fn g_stp_d() { run(parser!(e "k"+ f)) }
pub fn g_stp_d_ref() { r::drive(seq(E, seq(plus(lit("k")), F))) }
pub fn g_stp_e() { run(parser!(x:"k"+ => uf_one(x))) }
pub fn g_stp_e_ref() { r::drive(map(plus(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_stp_f() { run(parser!(x:"k"+ y:e => uf_two(x, y))) }
pub fn g_stp_f_ref() { r::drive(map(seq(plus(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_stp_g() { run(parser!(y:e x:"k"+ => uf_two(y, x))) }
pub fn g_stp_g_ref() { r::drive(map(seq(E, plus(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_stp_h() { run(parser!(y:e x:"k"+ w:f => uf_three(y, x, w))) }
pub fn g_stp_h_ref() { r::drive(map(seq(E, seq(plus(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_stp_i() { run(parser!(e x:"k"+ f => uf_one(x))) }
pub fn g_stp_i_ref() { r::drive(map(seq(E, seq(plus(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_stp_j() { run(parser!("k"+ y:e => uf_one(y))) }
pub fn g_stp_j_ref() { r::drive(map(seq(plus(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_stp_k() { run(parser!(y:e "k"+ => uf_one(y))) }
pub fn g_stp_k_ref() { r::drive(map(seq(E, plus(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_stp_l() { run(parser!("k"+ => uf_zero())) }
pub fn g_stp_l_ref() { r::drive(map(plus(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_stp_m() { run(parser!({x:e => uf_one(x), y:"k"+ => uf_one(y)})) }
pub fn g_stp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_stp_n() { run(parser!({"k"+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_stp_n_ref() { r::drive(seq(alt(map(plus(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_stp_o() { run(parser!(keep("k"+) e)) }
pub fn g_stp_o_ref() { r::drive(seq(plus(lit("k")), E)) }
pub fn g_stp_p() { run(parser!(last(e, "k"+))) }
pub fn g_stp_p_ref() { r::drive(plus(lit("k"))) }
pub fn g_stp_q() { run(parser!(x:last("k"+, f,) y:e => uf_two(x, y))) }
pub fn g_stp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_stp_r() { run(parser!(rule q: V<9> = x:"k"+ => uf_one(x); q e)) }
pub fn g_stp_r_ref() { r::drive(seq(map(plus(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_stp_s() { run(parser!(("k"+) e)) }
pub fn g_stp_s_ref() { r::drive(seq(one(plus(lit("k"))), E)) }
pub fn g_stp_t() { run(parser!((e "k"+))) }
pub fn g_stp_t_ref() { r::drive(seq(E, plus(lit("k")))) }
pub fn g_stp_u() { run(parser!(rule q: Vec<()> = "k"+; e q)) }
pub fn g_stp_u_ref() { r::drive(seq(E, one(plus(lit("k"))))) }
pub fn g_sto_a() { run(parser!("k"?)) }
pub fn g_sto_a_ref() { r::drive(opt(lit("k"))) }
pub fn g_sto_b() { run(parser!("k"? e)) }
pub fn g_sto_b_ref() { r::drive(seq(opt(lit("k")), E)) }
pub fn g_sto_c() { run(parser!(e "k"?)) }
pub fn g_sto_c_ref() { r::drive(seq(E, opt(lit("k")))) }
pub fn g_sto_d() { run(parser!(e "k"? f)) }
pub fn g_sto_d_ref() { r::drive(seq(E, seq(opt(lit("k")), F))) }
pub fn g_sto_e() { run(parser!(x:"k"? => uf_one(x))) }
pub fn g_sto_e_ref() { r::drive(map(opt(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_sto_f() { run(parser!(x:"k"? y:e => uf_two(x, y))) }
pub fn g_sto_f_ref() { r::drive(map(seq(opt(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sto_g() { run(parser!(y:e x:"k"? => uf_two(y, x))) }
pub fn g_sto_g_ref() { r::drive(map(seq(E, opt(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_sto_h() { run(parser!(y:e x:"k"? w:f => uf_three(y, x, w))) }
pub fn g_sto_h_ref() { r::drive(map(seq(E, seq(opt(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sto_i() { run(parser!(e x:"k"? f => uf_one(x))) }
pub fn g_sto_i_ref() { r::drive(map(seq(E, seq(opt(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sto_j() { run(parser!("k"? y:e => uf_one(y))) }
pub fn g_sto_j_ref() { r::drive(map(seq(opt(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_sto_k() { run(parser!(y:e "k"? => uf_one(y))) }
pub fn g_sto_k_ref() { r::drive(map(seq(E, opt(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_sto_l() { run(parser!("k"? => uf_zero())) }
pub fn g_sto_l_ref() { r::drive(map(opt(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_sto_m() { run(parser!({x:e => uf_one(x), y:"k"? => uf_one(y)})) }
pub fn g_sto_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_sto_n() { run(parser!({"k"? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sto_n_ref() { r::drive(seq(alt(map(opt(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sto_o() { run(parser!(keep("k"?) e)) }
pub fn g_sto_o_ref() { r::drive(seq(opt(lit("k")), E)) }
pub fn g_sto_p() { run(parser!(last(e, "k"?))) }
pub fn g_sto_p_ref() { r::drive(opt(lit("k"))) }
pub fn g_sto_q() { run(parser!(x:last("k"?, f,) y:e => uf_two(x, y))) }
pub fn g_sto_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sto_r() { run(parser!(rule q: V<9> = x:"k"? => uf_one(x); q e)) }
pub fn g_sto_r_ref() { r::drive(seq(map(opt(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_sto_s() { run(parser!(("k"?) e)) }
pub fn g_sto_s_ref() { r::drive(seq(one(opt(lit("k"))), E)) }
pub fn g_sto_t() { run(parser!((e "k"?))) }
pub fn g_sto_t_ref() { r::drive(seq(E, opt(lit("k")))) }
pub fn g_sto_u() { run(parser!(rule q: Option<()> = "k"?; e q)) }
pub fn g_sto_u_ref() { r::drive(seq(E, one(opt(lit("k"))))) }
pub fn g_ch_a() { run(parser!('k')) }
pub fn g_ch_a_ref() { r::drive(lit("k")) }
pub fn g_ch_b() { run(parser!('k' e)) }
pub fn g_ch_b_ref() { r::drive(seq(lit("k"), E)) }
pub fn g_ch_c() { run(parser!(e 'k')) }
pub fn g_ch_c_ref() { r::drive(seq(E, lit("k"))) }
pub fn g_ch_d() { run(parser!(e 'k' f)) }
pub fn g_ch_d_ref() { r::drive(seq(E, seq(lit("k"), F))) }
pub fn g_ch_e() { run(parser!(x:'k' => uf_one(x))) }
pub fn g_ch_e_ref() { r::drive(map(lit("k"), |_| (uf_one(()),))) }
pub fn g_ch_f() { run(parser!(x:'k' y:e => uf_two(x, y))) }
pub fn g_ch_f_ref() { r::drive(map(seq(lit("k"), E), |(y,)| (uf_two((), y),))) }
pub fn g_ch_g() { run(parser!(y:e x:'k' => uf_two(y, x))) }
pub fn g_ch_g_ref() { r::drive(map(seq(E, lit("k")), |(y,)| (uf_two(y, ()),))) }
pub fn g_ch_h() { run(parser!(y:e x:'k' w:f => uf_three(y, x, w))) }
pub fn g_ch_h_ref() { r::drive(map(seq(E, seq(lit("k"), F)), |(y, w)| (uf_three(y, (), w),))) }
pub fn g_ch_i() { run(parser!(e x:'k' f => uf_one(x))) }
pub fn g_ch_i_ref() { r::drive(map(seq(E, seq(lit("k"), F)), |(_, _)| (uf_one(()),))) }
pub fn g_ch_j() { run(parser!('k' y:e => uf_one(y))) }
pub fn g_ch_j_ref() { r::drive(map(seq(lit("k"), E), |(y,)| (uf_one(y),))) }
pub fn g_ch_k() { run(parser!(y:e 'k' => uf_one(y))) }
pub fn g_ch_k_ref() { r::drive(map(seq(E, lit("k")), |(y,)| (uf_one(y),))) }
pub fn g_ch_l() { run(parser!('k' => uf_zero())) }
pub fn g_ch_l_ref() { r::drive(map(lit("k"), |_| (uf_zero(),))) }
pub fn g_ch_m() { run(parser!({x:e => uf_one(x), y:'k' => uf_one(y)})) }
pub fn g_ch_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(lit("k"), |_| (uf_one(()),)))) }
pub fn g_ch_n() { run(parser!({'k' => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_ch_n_ref() { r::drive(seq(alt(map(lit("k"), |_| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_ch_o() { run(parser!(keep('k') e)) }
pub fn g_ch_o_ref() { r::drive(seq(lit("k"), E)) }
pub fn g_ch_p() { run(parser!(last(e, 'k'))) }
pub fn g_ch_p_ref() { r::drive(lit("k")) }
pub fn g_ch_q() { run(parser!(x:last('k', f,) y:e => uf_two(x, y))) }
pub fn g_ch_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ch_r() { run(parser!(rule q: V<9> = x:'k' => uf_one(x); q e)) }
pub fn g_ch_r_ref() { r::drive(seq(map(lit("k"), |_| (uf_one(()),)), E)) }
pub fn g_ch_s() { run(parser!(('k') e)) }
pub fn g_ch_s_ref() { r::drive(seq(one(lit("k")), E)) }
pub fn g_ch_t() { run(parser!((e 'k'))) }
pub fn g_ch_t_ref() { r::drive(seq(E, lit("k"))) }
pub fn g_ch_u() { run(parser!(rule q: () = 'k'; e q)) }
pub fn g_ch_u_ref() { r::drive(seq(E, one(lit("k")))) }
pub fn g_chs_a() { run(parser!('k'*)) }
pub fn g_chs_a_ref() { r::drive(star(lit("k"))) }
pub fn g_chs_b() { run(parser!('k'* e)) }
pub fn g_chs_b_ref() { r::drive(seq(star(lit("k")), E)) }
pub fn g_chs_c() { run(parser!(e 'k'*)) }
pub fn g_chs_c_ref() { r::drive(seq(E, star(lit("k")))) }
pub fn g_chs_d() { run(parser!(e 'k'* f)) }
pub fn g_chs_d_ref() { r::drive(seq(E, seq(star(lit("k")), F))) }
pub fn g_chs_e() { run(parser!(x:'k'* => uf_one(x))) }
pub fn g_chs_e_ref() { r::drive(map(star(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_chs_f() { run(parser!(x:'k'* y:e => uf_two(x, y))) }
pub fn g_chs_f_ref() { r::drive(map(seq(star(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_chs_g() { run(parser!(y:e x:'k'* => uf_two(y, x))) }
pub fn g_chs_g_ref() { r::drive(map(seq(E, star(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_chs_h() { run(parser!(y:e x:'k'* w:f => uf_three(y, x, w))) }
pub fn g_chs_h_ref() { r::drive(map(seq(E, seq(star(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_chs_i() { run(parser!(e x:'k'* f => uf_one(x))) }
pub fn g_chs_i_ref() { r::drive(map(seq(E, seq(star(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_chs_j() { run(parser!('k'* y:e => uf_one(y))) }
pub fn g_chs_j_ref() { r::drive(map(seq(star(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_chs_k() { run(parser!(y:e 'k'* => uf_one(y))) }
pub fn g_chs_k_ref() { r::drive(map(seq(E, star(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_chs_l() { run(parser!('k'* => uf_zero())) }
pub fn g_chs_l_ref() { r::drive(map(star(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_chs_m() { run(parser!({x:e => uf_one(x), y:'k'* => uf_one(y)})) }
pub fn g_chs_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_chs_n() { run(parser!({'k'* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_chs_n_ref() { r::drive(seq(alt(map(star(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_chs_o() { run(parser!(keep('k'*) e)) }
pub fn g_chs_o_ref() { r::drive(seq(star(lit("k")), E)) }
pub fn g_chs_p() { run(parser!(last(e, 'k'*))) }
pub fn g_chs_p_ref() { r::drive(star(lit("k"))) }
pub fn g_chs_q() { run(parser!(x:last('k'*, f,) y:e => uf_two(x, y))) }
pub fn g_chs_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_chs_r() { run(parser!(rule q: V<9> = x:'k'* => uf_one(x); q e)) }
pub fn g_chs_r_ref() { r::drive(seq(map(star(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_chs_s() { run(parser!(('k'*) e)) }
pub fn g_chs_s_ref() { r::drive(seq(one(star(lit("k"))), E)) }
pub fn g_chs_t() { run(parser!((e 'k'*))) }
pub fn g_chs_t_ref() { r::drive(seq(E, star(lit("k")))) }
pub fn g_chs_u() { run(parser!(rule q: Vec<()> = 'k'*; e q)) }
pub fn g_chs_u_ref() { r::drive(seq(E, one(star(lit("k"))))) }
pub fn g_chp_a() { run(parser!('k'+)) }
pub fn g_chp_a_ref() { r::drive(plus(lit("k"))) }
pub fn g_chp_b() { run(parser!('k'+ e)) }
pub fn g_chp_b_ref() { r::drive(seq(plus(lit("k")), E)) }
pub fn g_chp_c() { run(parser!(e 'k'+)) }
pub fn g_chp_c_ref() { r::drive(seq(E, plus(lit("k")))) }
pub fn g_chp_d() { run(parser!(e 'k'+ f)) }
pub fn g_chp_d_ref() { r::drive(seq(E, seq(plus(lit("k")), F))) }
pub fn g_chp_e() { run(parser!(x:'k'+ => uf_one(x))) }
pub fn g_chp_e_ref() { r::drive(map(plus(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_chp_f() { run(parser!(x:'k'+ y:e => uf_two(x, y))) }
pub fn g_chp_f_ref() { r::drive(map(seq(plus(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_chp_g() { run(parser!(y:e x:'k'+ => uf_two(y, x))) }
pub fn g_chp_g_ref() { r::drive(map(seq(E, plus(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_chp_h() { run(parser!(y:e x:'k'+ w:f => uf_three(y, x, w))) }
pub fn g_chp_h_ref() { r::drive(map(seq(E, seq(plus(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_chp_i() { run(parser!(e x:'k'+ f => uf_one(x))) }
pub fn g_chp_i_ref() { r::drive(map(seq(E, seq(plus(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_chp_j() { run(parser!('k'+ y:e => uf_one(y))) }
pub fn g_chp_j_ref() { r::drive(map(seq(plus(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_chp_k() { run(parser!(y:e 'k'+ => uf_one(y))) }
pub fn g_chp_k_ref() { r::drive(map(seq(E, plus(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_chp_l() { run(parser!('k'+ => uf_zero())) }
pub fn g_chp_l_ref() { r::drive(map(plus(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_chp_m() { run(parser!({x:e => uf_one(x), y:'k'+ => uf_one(y)})) }
pub fn g_chp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_chp_n() { run(parser!({'k'+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_chp_n_ref() { r::drive(seq(alt(map(plus(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_chp_o() { run(parser!(keep('k'+) e)) }
pub fn g_chp_o_ref() { r::drive(seq(plus(lit("k")), E)) }
pub fn g_chp_p() { run(parser!(last(e, 'k'+))) }
pub fn g_chp_p_ref() { r::drive(plus(lit("k"))) }
pub fn g_chp_q() { run(parser!(x:last('k'+, f,) y:e => uf_two(x, y))) }
pub fn g_chp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_chp_r() { run(parser!(rule q: V<9> = x:'k'+ => uf_one(x); q e)) }
pub fn g_chp_r_ref() { r::drive(seq(map(plus(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_chp_s() { run(parser!(('k'+) e)) }
pub fn g_chp_s_ref() { r::drive(seq(one(plus(lit("k"))), E)) }
pub fn g_chp_t() { run(parser!((e 'k'+))) }
pub fn g_chp_t_ref() { r::drive(seq(E, plus(lit("k")))) }
pub fn g_chp_u() { run(parser!(rule q: Vec<()> = 'k'+; e q)) }
pub fn g_chp_u_ref() { r::drive(seq(E, one(plus(lit("k"))))) }
pub fn g_cho_a() { run(parser!('k'?)) }
pub fn g_cho_a_ref() { r::drive(opt(lit("k"))) }
pub fn g_cho_b() { run(parser!('k'? e)) }
pub fn g_cho_b_ref() { r::drive(seq(opt(lit("k")), E)) }
pub fn g_cho_c() { run(parser!(e 'k'?)) }
pub fn g_cho_c_ref() { r::drive(seq(E, opt(lit("k")))) }
pub fn g_cho_d() { run(parser!(e 'k'? f)) }
pub fn g_cho_d_ref() { r::drive(seq(E, seq(opt(lit("k")), F))) }
pub fn g_cho_e() { run(parser!(x:'k'? => uf_one(x))) }
pub fn g_cho_e_ref() { r::drive(map(opt(lit("k")), |(x,)| (uf_one(x),))) }
pub fn g_cho_f() { run(parser!(x:'k'? y:e => uf_two(x, y))) }
pub fn g_cho_f_ref() { r::drive(map(seq(opt(lit("k")), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_cho_g() { run(parser!(y:e x:'k'? => uf_two(y, x))) }
pub fn g_cho_g_ref() { r::drive(map(seq(E, opt(lit("k"))), |(y, x)| (uf_two(y, x),))) }
pub fn g_cho_h() { run(parser!(y:e x:'k'? w:f => uf_three(y, x, w))) }
pub fn g_cho_h_ref() { r::drive(map(seq(E, seq(opt(lit("k")), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_cho_i() { run(parser!(e x:'k'? f => uf_one(x))) }
pub fn g_cho_i_ref() { r::drive(map(seq(E, seq(opt(lit("k")), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_cho_j() { run(parser!('k'? y:e => uf_one(y))) }
pub fn g_cho_j_ref() { r::drive(map(seq(opt(lit("k")), E), |(_, y)| (uf_one(y),))) }
pub fn g_cho_k() { run(parser!(y:e 'k'? => uf_one(y))) }
pub fn g_cho_k_ref() { r::drive(map(seq(E, opt(lit("k"))), |(y, _)| (uf_one(y),))) }
pub fn g_cho_l() { run(parser!('k'? => uf_zero())) }
pub fn g_cho_l_ref() { r::drive(map(opt(lit("k")), |(_,)| (uf_zero(),))) }
pub fn g_cho_m() { run(parser!({x:e => uf_one(x), y:'k'? => uf_one(y)})) }
pub fn g_cho_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(lit("k")), |(y,)| (uf_one(y),)))) }
pub fn g_cho_n() { run(parser!({'k'? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_cho_n_ref() { r::drive(seq(alt(map(opt(lit("k")), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_cho_o() { run(parser!(keep('k'?) e)) }
pub fn g_cho_o_ref() { r::drive(seq(opt(lit("k")), E)) }
pub fn g_cho_p() { run(parser!(last(e, 'k'?))) }
pub fn g_cho_p_ref() { r::drive(opt(lit("k"))) }
pub fn g_cho_q() { run(parser!(x:last('k'?, f,) y:e => uf_two(x, y))) }
pub fn g_cho_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_cho_r() { run(parser!(rule q: V<9> = x:'k'? => uf_one(x); q e)) }
pub fn g_cho_r_ref() { r::drive(seq(map(opt(lit("k")), |(x,)| (uf_one(x),)), E)) }
pub fn g_cho_s() { run(parser!(('k'?) e)) }
pub fn g_cho_s_ref() { r::drive(seq(one(opt(lit("k"))), E)) }
pub fn g_cho_t() { run(parser!((e 'k'?))) }
pub fn g_cho_t_ref() { r::drive(seq(E, opt(lit("k")))) }
pub fn g_cho_u() { run(parser!(rule q: Option<()> = 'k'?; e q)) }
pub fn g_cho_u_ref() { r::drive(seq(E, one(opt(lit("k"))))) }
pub fn g_fn_a() { run(parser!(keep(a))) }
pub fn g_fn_a_ref() { r::drive(A) }
pub fn g_fn_b() { run(parser!(keep(a) e)) }
pub fn g_fn_b_ref() { r::drive(seq(A, E)) }
pub fn g_fn_c() { run(parser!(e keep(a))) }
pub fn g_fn_c_ref() { r::drive(seq(E, A)) }
pub fn g_fn_d() { run(parser!(e keep(a) f)) }
pub fn g_fn_d_ref() { r::drive(seq(E, seq(A, F))) }
pub fn g_fn_e() { run(parser!(x:keep(a) => uf_one(x))) }
pub fn g_fn_e_ref() { r::drive(map(A, |(x,)| (uf_one(x),))) }
pub fn g_fn_f() { run(parser!(x:keep(a) y:e => uf_two(x, y))) }
pub fn g_fn_f_ref() { r::drive(map(seq(A, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fn_g() { run(parser!(y:e x:keep(a) => uf_two(y, x))) }
pub fn g_fn_g_ref() { r::drive(map(seq(E, A), |(y, x)| (uf_two(y, x),))) }
pub fn g_fn_h() { run(parser!(y:e x:keep(a) w:f => uf_three(y, x, w))) }
pub fn g_fn_h_ref() { r::drive(map(seq(E, seq(A, F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_fn_i() { run(parser!(e x:keep(a) f => uf_one(x))) }
pub fn g_fn_i_ref() { r::drive(map(seq(E, seq(A, F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_fn_j() { run(parser!(keep(a) y:e => uf_one(y))) }
pub fn g_fn_j_ref() { r::drive(map(seq(A, E), |(_, y)| (uf_one(y),))) }
pub fn g_fn_k() { run(parser!(y:e keep(a) => uf_one(y))) }
pub fn g_fn_k_ref() { r::drive(map(seq(E, A), |(y, _)| (uf_one(y),))) }
pub fn g_fn_l() { run(parser!(keep(a) => uf_zero())) }
pub fn g_fn_l_ref() { r::drive(map(A, |(_,)| (uf_zero(),))) }
pub fn g_fn_m() { run(parser!({x:e => uf_one(x), y:keep(a) => uf_one(y)})) }
pub fn g_fn_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(A, |(y,)| (uf_one(y),)))) }
pub fn g_fn_n() { run(parser!({keep(a) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_fn_n_ref() { r::drive(seq(alt(map(A, |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_fn_o() { run(parser!(keep(keep(a)) e)) }
pub fn g_fn_o_ref() { r::drive(seq(A, E)) }
pub fn g_fn_p() { run(parser!(last(e, keep(a)))) }
pub fn g_fn_p_ref() { r::drive(A) }
pub fn g_fn_q() { run(parser!(x:last(keep(a), f,) y:e => uf_two(x, y))) }
pub fn g_fn_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fn_r() { run(parser!(rule q: V<9> = x:keep(a) => uf_one(x); q e)) }
pub fn g_fn_r_ref() { r::drive(seq(map(A, |(x,)| (uf_one(x),)), E)) }
pub fn g_fn_s() { run(parser!((keep(a)) e)) }
pub fn g_fn_s_ref() { r::drive(seq(one(A), E)) }
pub fn g_fn_t() { run(parser!((e keep(a)))) }
pub fn g_fn_t_ref() { r::drive(seq(E, A)) }
pub fn g_fn_u() { run(parser!(rule q: V<1> = keep(a); e q)) }
pub fn g_fn_u_ref() { r::drive(seq(E, one(A))) }
pub fn g_fns_a() { run(parser!(keep(a)*)) }
pub fn g_fns_a_ref() { r::drive(star(A)) }
pub fn g_fns_b() { run(parser!(keep(a)* e)) }
pub fn g_fns_b_ref() { r::drive(seq(star(A), E)) }
pub fn g_fns_c() { run(parser!(e keep(a)*)) }
pub fn g_fns_c_ref() { r::drive(seq(E, star(A))) }
pub fn g_fns_d() { run(parser!(e keep(a)* f)) }
pub fn g_fns_d_ref() { r::drive(seq(E, seq(star(A), F))) }
pub fn g_fns_e() { run(parser!(x:keep(a)* => uf_one(x))) }
pub fn g_fns_e_ref() { r::drive(map(star(A), |(x,)| (uf_one(x),))) }
pub fn g_fns_f() { run(parser!(x:keep(a)* y:e => uf_two(x, y))) }
pub fn g_fns_f_ref() { r::drive(map(seq(star(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fns_g() { run(parser!(y:e x:keep(a)* => uf_two(y, x))) }
pub fn g_fns_g_ref() { r::drive(map(seq(E, star(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_fns_h() { run(parser!(y:e x:keep(a)* w:f => uf_three(y, x, w))) }
pub fn g_fns_h_ref() { r::drive(map(seq(E, seq(star(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_fns_i() { run(parser!(e x:keep(a)* f => uf_one(x))) }
pub fn g_fns_i_ref() { r::drive(map(seq(E, seq(star(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_fns_j() { run(parser!(keep(a)* y:e => uf_one(y))) }
pub fn g_fns_j_ref() { r::drive(map(seq(star(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_fns_k() { run(parser!(y:e keep(a)* => uf_one(y))) }
pub fn g_fns_k_ref() { r::drive(map(seq(E, star(A)), |(y, _)| (uf_one(y),))) }
pub fn g_fns_l() { run(parser!(keep(a)* => uf_zero())) }
pub fn g_fns_l_ref() { r::drive(map(star(A), |(_,)| (uf_zero(),))) }
pub fn g_fns_m() { run(parser!({x:e => uf_one(x), y:keep(a)* => uf_one(y)})) }
pub fn g_fns_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(A), |(y,)| (uf_one(y),)))) }
pub fn g_fns_n() { run(parser!({keep(a)* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_fns_n_ref() { r::drive(seq(alt(map(star(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_fns_o() { run(parser!(keep(keep(a)*) e)) }
pub fn g_fns_o_ref() { r::drive(seq(star(A), E)) }
pub fn g_fns_p() { run(parser!(last(e, keep(a)*))) }
pub fn g_fns_p_ref() { r::drive(star(A)) }
pub fn g_fns_q() { run(parser!(x:last(keep(a)*, f,) y:e => uf_two(x, y))) }
pub fn g_fns_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fns_r() { run(parser!(rule q: V<9> = x:keep(a)* => uf_one(x); q e)) }
pub fn g_fns_r_ref() { r::drive(seq(map(star(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_fns_s() { run(parser!((keep(a)*) e)) }
pub fn g_fns_s_ref() { r::drive(seq(one(star(A)), E)) }
pub fn g_fns_t() { run(parser!((e keep(a)*))) }
pub fn g_fns_t_ref() { r::drive(seq(E, star(A))) }
pub fn g_fns_u() { run(parser!(rule q: Vec<V<1>> = keep(a)*; e q)) }
pub fn g_fns_u_ref() { r::drive(seq(E, one(star(A)))) }
pub fn g_fnp_a() { run(parser!(keep(a)+)) }
pub fn g_fnp_a_ref() { r::drive(plus(A)) }
pub fn g_fnp_b() { run(parser!(keep(a)+ e)) }
pub fn g_fnp_b_ref() { r::drive(seq(plus(A), E)) }
pub fn g_fnp_c() { run(parser!(e keep(a)+)) }
pub fn g_fnp_c_ref() { r::drive(seq(E, plus(A))) }
pub fn g_fnp_d() { run(parser!(e keep(a)+ f)) }
pub fn g_fnp_d_ref() { r::drive(seq(E, seq(plus(A), F))) }
pub fn g_fnp_e() { run(parser!(x:keep(a)+ => uf_one(x))) }
pub fn g_fnp_e_ref() { r::drive(map(plus(A), |(x,)| (uf_one(x),))) }
pub fn g_fnp_f() { run(parser!(x:keep(a)+ y:e => uf_two(x, y))) }
pub fn g_fnp_f_ref() { r::drive(map(seq(plus(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fnp_g() { run(parser!(y:e x:keep(a)+ => uf_two(y, x))) }
pub fn g_fnp_g_ref() { r::drive(map(seq(E, plus(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_fnp_h() { run(parser!(y:e x:keep(a)+ w:f => uf_three(y, x, w))) }
pub fn g_fnp_h_ref() { r::drive(map(seq(E, seq(plus(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_fnp_i() { run(parser!(e x:keep(a)+ f => uf_one(x))) }
pub fn g_fnp_i_ref() { r::drive(map(seq(E, seq(plus(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_fnp_j() { run(parser!(keep(a)+ y:e => uf_one(y))) }
pub fn g_fnp_j_ref() { r::drive(map(seq(plus(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_fnp_k() { run(parser!(y:e keep(a)+ => uf_one(y))) }
pub fn g_fnp_k_ref() { r::drive(map(seq(E, plus(A)), |(y, _)| (uf_one(y),))) }
pub fn g_fnp_l() { run(parser!(keep(a)+ => uf_zero())) }
pub fn g_fnp_l_ref() { r::drive(map(plus(A), |(_,)| (uf_zero(),))) }
pub fn g_fnp_m() { run(parser!({x:e => uf_one(x), y:keep(a)+ => uf_one(y)})) }
pub fn g_fnp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(A), |(y,)| (uf_one(y),)))) }
pub fn g_fnp_n() { run(parser!({keep(a)+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_fnp_n_ref() { r::drive(seq(alt(map(plus(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_fnp_o() { run(parser!(keep(keep(a)+) e)) }
pub fn g_fnp_o_ref() { r::drive(seq(plus(A), E)) }
pub fn g_fnp_p() { run(parser!(last(e, keep(a)+))) }
pub fn g_fnp_p_ref() { r::drive(plus(A)) }
pub fn g_fnp_q() { run(parser!(x:last(keep(a)+, f,) y:e => uf_two(x, y))) }
pub fn g_fnp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fnp_r() { run(parser!(rule q: V<9> = x:keep(a)+ => uf_one(x); q e)) }
pub fn g_fnp_r_ref() { r::drive(seq(map(plus(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_fnp_s() { run(parser!((keep(a)+) e)) }
pub fn g_fnp_s_ref() { r::drive(seq(one(plus(A)), E)) }
pub fn g_fnp_t() { run(parser!((e keep(a)+))) }
pub fn g_fnp_t_ref() { r::drive(seq(E, plus(A))) }
pub fn g_fnp_u() { run(parser!(rule q: Vec<V<1>> = keep(a)+; e q)) }
pub fn g_fnp_u_ref() { r::drive(seq(E, one(plus(A)))) }
pub fn g_fno_a() { run(parser!(keep(a)?)) }
pub fn g_fno_a_ref() { r::drive(opt(A)) }
pub fn g_fno_b() { run(parser!(keep(a)? e)) }
pub fn g_fno_b_ref() { r::drive(seq(opt(A), E)) }
pub fn g_fno_c() { run(parser!(e keep(a)?)) }
pub fn g_fno_c_ref() { r::drive(seq(E, opt(A))) }
pub fn g_fno_d() { run(parser!(e keep(a)? f)) }
pub fn g_fno_d_ref() { r::drive(seq(E, seq(opt(A), F))) }
pub fn g_fno_e() { run(parser!(x:keep(a)? => uf_one(x))) }
pub fn g_fno_e_ref() { r::drive(map(opt(A), |(x,)| (uf_one(x),))) }
pub fn g_fno_f() { run(parser!(x:keep(a)? y:e => uf_two(x, y))) }
pub fn g_fno_f_ref() { r::drive(map(seq(opt(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fno_g() { run(parser!(y:e x:keep(a)? => uf_two(y, x))) }
pub fn g_fno_g_ref() { r::drive(map(seq(E, opt(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_fno_h() { run(parser!(y:e x:keep(a)? w:f => uf_three(y, x, w))) }
pub fn g_fno_h_ref() { r::drive(map(seq(E, seq(opt(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_fno_i() { run(parser!(e x:keep(a)? f => uf_one(x))) }
pub fn g_fno_i_ref() { r::drive(map(seq(E, seq(opt(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_fno_j() { run(parser!(keep(a)? y:e => uf_one(y))) }
pub fn g_fno_j_ref() { r::drive(map(seq(opt(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_fno_k() { run(parser!(y:e keep(a)? => uf_one(y))) }
pub fn g_fno_k_ref() { r::drive(map(seq(E, opt(A)), |(y, _)| (uf_one(y),))) }
pub fn g_fno_l() { run(parser!(keep(a)? => uf_zero())) }
pub fn g_fno_l_ref() { r::drive(map(opt(A), |(_,)| (uf_zero(),))) }
pub fn g_fno_m() { run(parser!({x:e => uf_one(x), y:keep(a)? => uf_one(y)})) }
pub fn g_fno_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(A), |(y,)| (uf_one(y),)))) }
pub fn g_fno_n() { run(parser!({keep(a)? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_fno_n_ref() { r::drive(seq(alt(map(opt(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_fno_o() { run(parser!(keep(keep(a)?) e)) }
pub fn g_fno_o_ref() { r::drive(seq(opt(A), E)) }
pub fn g_fno_p() { run(parser!(last(e, keep(a)?))) }
pub fn g_fno_p_ref() { r::drive(opt(A)) }
pub fn g_fno_q() { run(parser!(x:last(keep(a)?, f,) y:e => uf_two(x, y))) }
pub fn g_fno_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_fno_r() { run(parser!(rule q: V<9> = x:keep(a)? => uf_one(x); q e)) }
pub fn g_fno_r_ref() { r::drive(seq(map(opt(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_fno_s() { run(parser!((keep(a)?) e)) }
pub fn g_fno_s_ref() { r::drive(seq(one(opt(A)), E)) }
pub fn g_fno_t() { run(parser!((e keep(a)?))) }
pub fn g_fno_t_ref() { r::drive(seq(E, opt(A))) }
pub fn g_fno_u() { run(parser!(rule q: Option<V<1>> = keep(a)?; e q)) }
pub fn g_fno_u_ref() { r::drive(seq(E, one(opt(A)))) }
pub fn g_sf_a() { run(parser!(string(a))) }
pub fn g_sf_a_ref() { r::drive(text(A)) }
pub fn g_sf_b() { run(parser!(string(a) e)) }
pub fn g_sf_b_ref() { r::drive(seq(text(A), E)) }
pub fn g_sf_c() { run(parser!(e string(a))) }
pub fn g_sf_c_ref() { r::drive(seq(E, text(A))) }
pub fn g_sf_d() { run(parser!(e string(a) f)) }
pub fn g_sf_d_ref() { r::drive(seq(E, seq(text(A), F))) }
pub fn g_sf_e() { run(parser!(x:string(a) => uf_one(x))) }
pub fn g_sf_e_ref() { r::drive(map(text(A), |(x,)| (uf_one(x),))) }
pub fn g_sf_f() { run(parser!(x:string(a) y:e => uf_two(x, y))) }
pub fn g_sf_f_ref() { r::drive(map(seq(text(A), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sf_g() { run(parser!(y:e x:string(a) => uf_two(y, x))) }
pub fn g_sf_g_ref() { r::drive(map(seq(E, text(A)), |(y, x)| (uf_two(y, x),))) }
pub fn g_sf_h() { run(parser!(y:e x:string(a) w:f => uf_three(y, x, w))) }
pub fn g_sf_h_ref() { r::drive(map(seq(E, seq(text(A), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sf_i() { run(parser!(e x:string(a) f => uf_one(x))) }
pub fn g_sf_i_ref() { r::drive(map(seq(E, seq(text(A), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sf_j() { run(parser!(string(a) y:e => uf_one(y))) }
pub fn g_sf_j_ref() { r::drive(map(seq(text(A), E), |(_, y)| (uf_one(y),))) }
pub fn g_sf_k() { run(parser!(y:e string(a) => uf_one(y))) }
pub fn g_sf_k_ref() { r::drive(map(seq(E, text(A)), |(y, _)| (uf_one(y),))) }
pub fn g_sf_l() { run(parser!(string(a) => uf_zero())) }
pub fn g_sf_l_ref() { r::drive(map(text(A), |(_,)| (uf_zero(),))) }
pub fn g_sf_m() { run(parser!({x:e => uf_one(x), y:string(a) => uf_one(y)})) }
pub fn g_sf_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(text(A), |(y,)| (uf_one(y),)))) }
pub fn g_sf_n() { run(parser!({string(a) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sf_n_ref() { r::drive(seq(alt(map(text(A), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sf_o() { run(parser!(keep(string(a)) e)) }
pub fn g_sf_o_ref() { r::drive(seq(text(A), E)) }
pub fn g_sf_p() { run(parser!(last(e, string(a)))) }
pub fn g_sf_p_ref() { r::drive(text(A)) }
pub fn g_sf_q() { run(parser!(x:last(string(a), f,) y:e => uf_two(x, y))) }
pub fn g_sf_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sf_r() { run(parser!(rule q: V<9> = x:string(a) => uf_one(x); q e)) }
pub fn g_sf_r_ref() { r::drive(seq(map(text(A), |(x,)| (uf_one(x),)), E)) }
pub fn g_sf_s() { run(parser!((string(a)) e)) }
pub fn g_sf_s_ref() { r::drive(seq(one(text(A)), E)) }
pub fn g_sf_t() { run(parser!((e string(a)))) }
pub fn g_sf_t_ref() { r::drive(seq(E, text(A))) }
pub fn g_sf_u() { run(parser!(rule q: String = string(a); e q)) }
pub fn g_sf_u_ref() { r::drive(seq(E, one(text(A)))) }
pub fn g_sfs_a() { run(parser!(string(a)*)) }
pub fn g_sfs_a_ref() { r::drive(star(text(A))) }
pub fn g_sfs_b() { run(parser!(string(a)* e)) }
pub fn g_sfs_b_ref() { r::drive(seq(star(text(A)), E)) }
pub fn g_sfs_c() { run(parser!(e string(a)*)) }
pub fn g_sfs_c_ref() { r::drive(seq(E, star(text(A)))) }
pub fn g_sfs_d() { run(parser!(e string(a)* f)) }
pub fn g_sfs_d_ref() { r::drive(seq(E, seq(star(text(A)), F))) }
pub fn g_sfs_e() { run(parser!(x:string(a)* => uf_one(x))) }
pub fn g_sfs_e_ref() { r::drive(map(star(text(A)), |(x,)| (uf_one(x),))) }
pub fn g_sfs_f() { run(parser!(x:string(a)* y:e => uf_two(x, y))) }
pub fn g_sfs_f_ref() { r::drive(map(seq(star(text(A)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfs_g() { run(parser!(y:e x:string(a)* => uf_two(y, x))) }
pub fn g_sfs_g_ref() { r::drive(map(seq(E, star(text(A))), |(y, x)| (uf_two(y, x),))) }
pub fn g_sfs_h() { run(parser!(y:e x:string(a)* w:f => uf_three(y, x, w))) }
pub fn g_sfs_h_ref() { r::drive(map(seq(E, seq(star(text(A)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sfs_i() { run(parser!(e x:string(a)* f => uf_one(x))) }
pub fn g_sfs_i_ref() { r::drive(map(seq(E, seq(star(text(A)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sfs_j() { run(parser!(string(a)* y:e => uf_one(y))) }
pub fn g_sfs_j_ref() { r::drive(map(seq(star(text(A)), E), |(_, y)| (uf_one(y),))) }
pub fn g_sfs_k() { run(parser!(y:e string(a)* => uf_one(y))) }
pub fn g_sfs_k_ref() { r::drive(map(seq(E, star(text(A))), |(y, _)| (uf_one(y),))) }
pub fn g_sfs_l() { run(parser!(string(a)* => uf_zero())) }
pub fn g_sfs_l_ref() { r::drive(map(star(text(A)), |(_,)| (uf_zero(),))) }
pub fn g_sfs_m() { run(parser!({x:e => uf_one(x), y:string(a)* => uf_one(y)})) }
pub fn g_sfs_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(text(A)), |(y,)| (uf_one(y),)))) }
pub fn g_sfs_n() { run(parser!({string(a)* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sfs_n_ref() { r::drive(seq(alt(map(star(text(A)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sfs_o() { run(parser!(keep(string(a)*) e)) }
pub fn g_sfs_o_ref() { r::drive(seq(star(text(A)), E)) }
pub fn g_sfs_p() { run(parser!(last(e, string(a)*))) }
pub fn g_sfs_p_ref() { r::drive(star(text(A))) }
pub fn g_sfs_q() { run(parser!(x:last(string(a)*, f,) y:e => uf_two(x, y))) }
pub fn g_sfs_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfs_r() { run(parser!(rule q: V<9> = x:string(a)* => uf_one(x); q e)) }
pub fn g_sfs_r_ref() { r::drive(seq(map(star(text(A)), |(x,)| (uf_one(x),)), E)) }
pub fn g_sfs_s() { run(parser!((string(a)*) e)) }
pub fn g_sfs_s_ref() { r::drive(seq(one(star(text(A))), E)) }
pub fn g_sfs_t() { run(parser!((e string(a)*))) }
pub fn g_sfs_t_ref() { r::drive(seq(E, star(text(A)))) }
pub fn g_sfs_u() { run(parser!(rule q: Vec<String> = string(a)*; e q)) }
pub fn g_sfs_u_ref() { r::drive(seq(E, one(star(text(A))))) }
pub fn g_sfp_a() { run(parser!(string(a)+)) }
pub fn g_sfp_a_ref() { r::drive(plus(text(A))) }
pub fn g_sfp_b() { run(parser!(string(a)+ e)) }
pub fn g_sfp_b_ref() { r::drive(seq(plus(text(A)), E)) }
pub fn g_sfp_c() { run(parser!(e string(a)+)) }
pub fn g_sfp_c_ref() { r::drive(seq(E, plus(text(A)))) }
pub fn g_sfp_d() { run(parser!(e string(a)+ f)) }
pub fn g_sfp_d_ref() { r::drive(seq(E, seq(plus(text(A)), F))) }
pub fn g_sfp_e() { run(parser!(x:string(a)+ => uf_one(x))) }
pub fn g_sfp_e_ref() { r::drive(map(plus(text(A)), |(x,)| (uf_one(x),))) }
pub fn g_sfp_f() { run(parser!(x:string(a)+ y:e => uf_two(x, y))) }
pub fn g_sfp_f_ref() { r::drive(map(seq(plus(text(A)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfp_g() { run(parser!(y:e x:string(a)+ => uf_two(y, x))) }
pub fn g_sfp_g_ref() { r::drive(map(seq(E, plus(text(A))), |(y, x)| (uf_two(y, x),))) }
pub fn g_sfp_h() { run(parser!(y:e x:string(a)+ w:f => uf_three(y, x, w))) }
pub fn g_sfp_h_ref() { r::drive(map(seq(E, seq(plus(text(A)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sfp_i() { run(parser!(e x:string(a)+ f => uf_one(x))) }
pub fn g_sfp_i_ref() { r::drive(map(seq(E, seq(plus(text(A)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sfp_j() { run(parser!(string(a)+ y:e => uf_one(y))) }
pub fn g_sfp_j_ref() { r::drive(map(seq(plus(text(A)), E), |(_, y)| (uf_one(y),))) }
pub fn g_sfp_k() { run(parser!(y:e string(a)+ => uf_one(y))) }
pub fn g_sfp_k_ref() { r::drive(map(seq(E, plus(text(A))), |(y, _)| (uf_one(y),))) }
pub fn g_sfp_l() { run(parser!(string(a)+ => uf_zero())) }
pub fn g_sfp_l_ref() { r::drive(map(plus(text(A)), |(_,)| (uf_zero(),))) }
pub fn g_sfp_m() { run(parser!({x:e => uf_one(x), y:string(a)+ => uf_one(y)})) }
pub fn g_sfp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(text(A)), |(y,)| (uf_one(y),)))) }
pub fn g_sfp_n() { run(parser!({string(a)+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sfp_n_ref() { r::drive(seq(alt(map(plus(text(A)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sfp_o() { run(parser!(keep(string(a)+) e)) }
pub fn g_sfp_o_ref() { r::drive(seq(plus(text(A)), E)) }
pub fn g_sfp_p() { run(parser!(last(e, string(a)+))) }
pub fn g_sfp_p_ref() { r::drive(plus(text(A))) }
pub fn g_sfp_q() { run(parser!(x:last(string(a)+, f,) y:e => uf_two(x, y))) }
pub fn g_sfp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfp_r() { run(parser!(rule q: V<9> = x:string(a)+ => uf_one(x); q e)) }
pub fn g_sfp_r_ref() { r::drive(seq(map(plus(text(A)), |(x,)| (uf_one(x),)), E)) }
pub fn g_sfp_s() { run(parser!((string(a)+) e)) }
pub fn g_sfp_s_ref() { r::drive(seq(one(plus(text(A))), E)) }
pub fn g_sfp_t() { run(parser!((e string(a)+))) }
pub fn g_sfp_t_ref() { r::drive(seq(E, plus(text(A)))) }
pub fn g_sfp_u() { run(parser!(rule q: Vec<String> = string(a)+; e q)) }
pub fn g_sfp_u_ref() { r::drive(seq(E, one(plus(text(A))))) }
pub fn g_sfo_a() { run(parser!(string(a)?)) }
pub fn g_sfo_a_ref() { r::drive(opt(text(A))) }
pub fn g_sfo_b() { run(parser!(string(a)? e)) }
pub fn g_sfo_b_ref() { r::drive(seq(opt(text(A)), E)) }
pub fn g_sfo_c() { run(parser!(e string(a)?)) }
pub fn g_sfo_c_ref() { r::drive(seq(E, opt(text(A)))) }
pub fn g_sfo_d() { run(parser!(e string(a)? f)) }
pub fn g_sfo_d_ref() { r::drive(seq(E, seq(opt(text(A)), F))) }
pub fn g_sfo_e() { run(parser!(x:string(a)? => uf_one(x))) }
pub fn g_sfo_e_ref() { r::drive(map(opt(text(A)), |(x,)| (uf_one(x),))) }
pub fn g_sfo_f() { run(parser!(x:string(a)? y:e => uf_two(x, y))) }
pub fn g_sfo_f_ref() { r::drive(map(seq(opt(text(A)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfo_g() { run(parser!(y:e x:string(a)? => uf_two(y, x))) }
pub fn g_sfo_g_ref() { r::drive(map(seq(E, opt(text(A))), |(y, x)| (uf_two(y, x),))) }
pub fn g_sfo_h() { run(parser!(y:e x:string(a)? w:f => uf_three(y, x, w))) }
pub fn g_sfo_h_ref() { r::drive(map(seq(E, seq(opt(text(A)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_sfo_i() { run(parser!(e x:string(a)? f => uf_one(x))) }
pub fn g_sfo_i_ref() { r::drive(map(seq(E, seq(opt(text(A)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_sfo_j() { run(parser!(string(a)? y:e => uf_one(y))) }
pub fn g_sfo_j_ref() { r::drive(map(seq(opt(text(A)), E), |(_, y)| (uf_one(y),))) }
pub fn g_sfo_k() { run(parser!(y:e string(a)? => uf_one(y))) }
pub fn g_sfo_k_ref() { r::drive(map(seq(E, opt(text(A))), |(y, _)| (uf_one(y),))) }
pub fn g_sfo_l() { run(parser!(string(a)? => uf_zero())) }
pub fn g_sfo_l_ref() { r::drive(map(opt(text(A)), |(_,)| (uf_zero(),))) }
pub fn g_sfo_m() { run(parser!({x:e => uf_one(x), y:string(a)? => uf_one(y)})) }
pub fn g_sfo_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(text(A)), |(y,)| (uf_one(y),)))) }
pub fn g_sfo_n() { run(parser!({string(a)? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_sfo_n_ref() { r::drive(seq(alt(map(opt(text(A)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_sfo_o() { run(parser!(keep(string(a)?) e)) }
pub fn g_sfo_o_ref() { r::drive(seq(opt(text(A)), E)) }
pub fn g_sfo_p() { run(parser!(last(e, string(a)?))) }
pub fn g_sfo_p_ref() { r::drive(opt(text(A))) }
pub fn g_sfo_q() { run(parser!(x:last(string(a)?, f,) y:e => uf_two(x, y))) }
pub fn g_sfo_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_sfo_r() { run(parser!(rule q: V<9> = x:string(a)? => uf_one(x); q e)) }
pub fn g_sfo_r_ref() { r::drive(seq(map(opt(text(A)), |(x,)| (uf_one(x),)), E)) }
pub fn g_sfo_s() { run(parser!((string(a)?) e)) }
pub fn g_sfo_s_ref() { r::drive(seq(one(opt(text(A))), E)) }
pub fn g_sfo_t() { run(parser!((e string(a)?))) }
pub fn g_sfo_t_ref() { r::drive(seq(E, opt(text(A)))) }
pub fn g_sfo_u() { run(parser!(rule q: Option<String> = string(a)?; e q)) }
pub fn g_sfo_u_ref() { r::drive(seq(E, one(opt(text(A))))) }
pub fn g_f2_a() { run(parser!(last(a, b))) }
pub fn g_f2_a_ref() { r::drive(B) }
pub fn g_f2_b() { run(parser!(last(a, b) e)) }
pub fn g_f2_b_ref() { r::drive(seq(B, E)) }
pub fn g_f2_c() { run(parser!(e last(a, b))) }
pub fn g_f2_c_ref() { r::drive(seq(E, B)) }
pub fn g_f2_d() { run(parser!(e last(a, b) f)) }
pub fn g_f2_d_ref() { r::drive(seq(E, seq(B, F))) }
pub fn g_f2_e() { run(parser!(x:last(a, b) => uf_one(x))) }
pub fn g_f2_e_ref() { r::drive(map(B, |(x,)| (uf_one(x),))) }
pub fn g_f2_f() { run(parser!(x:last(a, b) y:e => uf_two(x, y))) }
pub fn g_f2_f_ref() { r::drive(map(seq(B, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2_g() { run(parser!(y:e x:last(a, b) => uf_two(y, x))) }
pub fn g_f2_g_ref() { r::drive(map(seq(E, B), |(y, x)| (uf_two(y, x),))) }
pub fn g_f2_h() { run(parser!(y:e x:last(a, b) w:f => uf_three(y, x, w))) }
pub fn g_f2_h_ref() { r::drive(map(seq(E, seq(B, F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_f2_i() { run(parser!(e x:last(a, b) f => uf_one(x))) }
pub fn g_f2_i_ref() { r::drive(map(seq(E, seq(B, F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_f2_j() { run(parser!(last(a, b) y:e => uf_one(y))) }
pub fn g_f2_j_ref() { r::drive(map(seq(B, E), |(_, y)| (uf_one(y),))) }
pub fn g_f2_k() { run(parser!(y:e last(a, b) => uf_one(y))) }
pub fn g_f2_k_ref() { r::drive(map(seq(E, B), |(y, _)| (uf_one(y),))) }
pub fn g_f2_l() { run(parser!(last(a, b) => uf_zero())) }
pub fn g_f2_l_ref() { r::drive(map(B, |(_,)| (uf_zero(),))) }
pub fn g_f2_m() { run(parser!({x:e => uf_one(x), y:last(a, b) => uf_one(y)})) }
pub fn g_f2_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(B, |(y,)| (uf_one(y),)))) }
pub fn g_f2_n() { run(parser!({last(a, b) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_f2_n_ref() { r::drive(seq(alt(map(B, |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_f2_o() { run(parser!(keep(last(a, b)) e)) }
pub fn g_f2_o_ref() { r::drive(seq(B, E)) }
pub fn g_f2_p() { run(parser!(last(e, last(a, b)))) }
pub fn g_f2_p_ref() { r::drive(B) }
pub fn g_f2_q() { run(parser!(x:last(last(a, b), f,) y:e => uf_two(x, y))) }
pub fn g_f2_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2_r() { run(parser!(rule q: V<9> = x:last(a, b) => uf_one(x); q e)) }
pub fn g_f2_r_ref() { r::drive(seq(map(B, |(x,)| (uf_one(x),)), E)) }
pub fn g_f2_s() { run(parser!((last(a, b)) e)) }
pub fn g_f2_s_ref() { r::drive(seq(one(B), E)) }
pub fn g_f2_t() { run(parser!((e last(a, b)))) }
pub fn g_f2_t_ref() { r::drive(seq(E, B)) }
pub fn g_f2_u() { run(parser!(rule q: V<2> = last(a, b); e q)) }
pub fn g_f2_u_ref() { r::drive(seq(E, one(B))) }
pub fn g_f2s_a() { run(parser!(last(a, b)*)) }
pub fn g_f2s_a_ref() { r::drive(star(B)) }
pub fn g_f2s_b() { run(parser!(last(a, b)* e)) }
pub fn g_f2s_b_ref() { r::drive(seq(star(B), E)) }
pub fn g_f2s_c() { run(parser!(e last(a, b)*)) }
pub fn g_f2s_c_ref() { r::drive(seq(E, star(B))) }
pub fn g_f2s_d() { run(parser!(e last(a, b)* f)) }
pub fn g_f2s_d_ref() { r::drive(seq(E, seq(star(B), F))) }
pub fn g_f2s_e() { run(parser!(x:last(a, b)* => uf_one(x))) }
pub fn g_f2s_e_ref() { r::drive(map(star(B), |(x,)| (uf_one(x),))) }
pub fn g_f2s_f() { run(parser!(x:last(a, b)* y:e => uf_two(x, y))) }
pub fn g_f2s_f_ref() { r::drive(map(seq(star(B), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2s_g() { run(parser!(y:e x:last(a, b)* => uf_two(y, x))) }
pub fn g_f2s_g_ref() { r::drive(map(seq(E, star(B)), |(y, x)| (uf_two(y, x),))) }
pub fn g_f2s_h() { run(parser!(y:e x:last(a, b)* w:f => uf_three(y, x, w))) }
pub fn g_f2s_h_ref() { r::drive(map(seq(E, seq(star(B), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_f2s_i() { run(parser!(e x:last(a, b)* f => uf_one(x))) }
pub fn g_f2s_i_ref() { r::drive(map(seq(E, seq(star(B), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_f2s_j() { run(parser!(last(a, b)* y:e => uf_one(y))) }
pub fn g_f2s_j_ref() { r::drive(map(seq(star(B), E), |(_, y)| (uf_one(y),))) }
pub fn g_f2s_k() { run(parser!(y:e last(a, b)* => uf_one(y))) }
pub fn g_f2s_k_ref() { r::drive(map(seq(E, star(B)), |(y, _)| (uf_one(y),))) }
pub fn g_f2s_l() { run(parser!(last(a, b)* => uf_zero())) }
pub fn g_f2s_l_ref() { r::drive(map(star(B), |(_,)| (uf_zero(),))) }
pub fn g_f2s_m() { run(parser!({x:e => uf_one(x), y:last(a, b)* => uf_one(y)})) }
pub fn g_f2s_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(B), |(y,)| (uf_one(y),)))) }
pub fn g_f2s_n() { run(parser!({last(a, b)* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_f2s_n_ref() { r::drive(seq(alt(map(star(B), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_f2s_o() { run(parser!(keep(last(a, b)*) e)) }
pub fn g_f2s_o_ref() { r::drive(seq(star(B), E)) }
pub fn g_f2s_p() { run(parser!(last(e, last(a, b)*))) }
pub fn g_f2s_p_ref() { r::drive(star(B)) }
pub fn g_f2s_q() { run(parser!(x:last(last(a, b)*, f,) y:e => uf_two(x, y))) }
pub fn g_f2s_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2s_r() { run(parser!(rule q: V<9> = x:last(a, b)* => uf_one(x); q e)) }
pub fn g_f2s_r_ref() { r::drive(seq(map(star(B), |(x,)| (uf_one(x),)), E)) }
pub fn g_f2s_s() { run(parser!((last(a, b)*) e)) }
pub fn g_f2s_s_ref() { r::drive(seq(one(star(B)), E)) }
pub fn g_f2s_t() { run(parser!((e last(a, b)*))) }
pub fn g_f2s_t_ref() { r::drive(seq(E, star(B))) }
pub fn g_f2s_u() { run(parser!(rule q: Vec<V<2>> = last(a, b)*; e q)) }
pub fn g_f2s_u_ref() { r::drive(seq(E, one(star(B)))) }
pub fn g_f2p_a() { run(parser!(last(a, b)+)) }
pub fn g_f2p_a_ref() { r::drive(plus(B)) }
pub fn g_f2p_b() { run(parser!(last(a, b)+ e)) }
pub fn g_f2p_b_ref() { r::drive(seq(plus(B), E)) }
pub fn g_f2p_c() { run(parser!(e last(a, b)+)) }
pub fn g_f2p_c_ref() { r::drive(seq(E, plus(B))) }
pub fn g_f2p_d() { run(parser!(e last(a, b)+ f)) }
pub fn g_f2p_d_ref() { r::drive(seq(E, seq(plus(B), F))) }
pub fn g_f2p_e() { run(parser!(x:last(a, b)+ => uf_one(x))) }
pub fn g_f2p_e_ref() { r::drive(map(plus(B), |(x,)| (uf_one(x),))) }
pub fn g_f2p_f() { run(parser!(x:last(a, b)+ y:e => uf_two(x, y))) }
pub fn g_f2p_f_ref() { r::drive(map(seq(plus(B), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2p_g() { run(parser!(y:e x:last(a, b)+ => uf_two(y, x))) }
pub fn g_f2p_g_ref() { r::drive(map(seq(E, plus(B)), |(y, x)| (uf_two(y, x),))) }
pub fn g_f2p_h() { run(parser!(y:e x:last(a, b)+ w:f => uf_three(y, x, w))) }
pub fn g_f2p_h_ref() { r::drive(map(seq(E, seq(plus(B), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_f2p_i() { run(parser!(e x:last(a, b)+ f => uf_one(x))) }
pub fn g_f2p_i_ref() { r::drive(map(seq(E, seq(plus(B), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_f2p_j() { run(parser!(last(a, b)+ y:e => uf_one(y))) }
pub fn g_f2p_j_ref() { r::drive(map(seq(plus(B), E), |(_, y)| (uf_one(y),))) }
pub fn g_f2p_k() { run(parser!(y:e last(a, b)+ => uf_one(y))) }
pub fn g_f2p_k_ref() { r::drive(map(seq(E, plus(B)), |(y, _)| (uf_one(y),))) }
pub fn g_f2p_l() { run(parser!(last(a, b)+ => uf_zero())) }
pub fn g_f2p_l_ref() { r::drive(map(plus(B), |(_,)| (uf_zero(),))) }
pub fn g_f2p_m() { run(parser!({x:e => uf_one(x), y:last(a, b)+ => uf_one(y)})) }
pub fn g_f2p_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(B), |(y,)| (uf_one(y),)))) }
pub fn g_f2p_n() { run(parser!({last(a, b)+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_f2p_n_ref() { r::drive(seq(alt(map(plus(B), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_f2p_o() { run(parser!(keep(last(a, b)+) e)) }
pub fn g_f2p_o_ref() { r::drive(seq(plus(B), E)) }
pub fn g_f2p_p() { run(parser!(last(e, last(a, b)+))) }
pub fn g_f2p_p_ref() { r::drive(plus(B)) }
pub fn g_f2p_q() { run(parser!(x:last(last(a, b)+, f,) y:e => uf_two(x, y))) }
pub fn g_f2p_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2p_r() { run(parser!(rule q: V<9> = x:last(a, b)+ => uf_one(x); q e)) }
pub fn g_f2p_r_ref() { r::drive(seq(map(plus(B), |(x,)| (uf_one(x),)), E)) }
pub fn g_f2p_s() { run(parser!((last(a, b)+) e)) }
pub fn g_f2p_s_ref() { r::drive(seq(one(plus(B)), E)) }
pub fn g_f2p_t() { run(parser!((e last(a, b)+))) }
pub fn g_f2p_t_ref() { r::drive(seq(E, plus(B))) }
pub fn g_f2p_u() { run(parser!(rule q: Vec<V<2>> = last(a, b)+; e q)) }
pub fn g_f2p_u_ref() { r::drive(seq(E, one(plus(B)))) }
pub fn g_f2o_a() { run(parser!(last(a, b)?)) }
pub fn g_f2o_a_ref() { r::drive(opt(B)) }
pub fn g_f2o_b() { run(parser!(last(a, b)? e)) }
pub fn g_f2o_b_ref() { r::drive(seq(opt(B), E)) }
pub fn g_f2o_c() { run(parser!(e last(a, b)?)) }
pub fn g_f2o_c_ref() { r::drive(seq(E, opt(B))) }
pub fn g_f2o_d() { run(parser!(e last(a, b)? f)) }
pub fn g_f2o_d_ref() { r::drive(seq(E, seq(opt(B), F))) }
pub fn g_f2o_e() { run(parser!(x:last(a, b)? => uf_one(x))) }
pub fn g_f2o_e_ref() { r::drive(map(opt(B), |(x,)| (uf_one(x),))) }
pub fn g_f2o_f() { run(parser!(x:last(a, b)? y:e => uf_two(x, y))) }
pub fn g_f2o_f_ref() { r::drive(map(seq(opt(B), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2o_g() { run(parser!(y:e x:last(a, b)? => uf_two(y, x))) }
pub fn g_f2o_g_ref() { r::drive(map(seq(E, opt(B)), |(y, x)| (uf_two(y, x),))) }
pub fn g_f2o_h() { run(parser!(y:e x:last(a, b)? w:f => uf_three(y, x, w))) }
pub fn g_f2o_h_ref() { r::drive(map(seq(E, seq(opt(B), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_f2o_i() { run(parser!(e x:last(a, b)? f => uf_one(x))) }
pub fn g_f2o_i_ref() { r::drive(map(seq(E, seq(opt(B), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_f2o_j() { run(parser!(last(a, b)? y:e => uf_one(y))) }
pub fn g_f2o_j_ref() { r::drive(map(seq(opt(B), E), |(_, y)| (uf_one(y),))) }
pub fn g_f2o_k() { run(parser!(y:e last(a, b)? => uf_one(y))) }
pub fn g_f2o_k_ref() { r::drive(map(seq(E, opt(B)), |(y, _)| (uf_one(y),))) }
pub fn g_f2o_l() { run(parser!(last(a, b)? => uf_zero())) }
pub fn g_f2o_l_ref() { r::drive(map(opt(B), |(_,)| (uf_zero(),))) }
pub fn g_f2o_m() { run(parser!({x:e => uf_one(x), y:last(a, b)? => uf_one(y)})) }
pub fn g_f2o_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(B), |(y,)| (uf_one(y),)))) }
pub fn g_f2o_n() { run(parser!({last(a, b)? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_f2o_n_ref() { r::drive(seq(alt(map(opt(B), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_f2o_o() { run(parser!(keep(last(a, b)?) e)) }
pub fn g_f2o_o_ref() { r::drive(seq(opt(B), E)) }
pub fn g_f2o_p() { run(parser!(last(e, last(a, b)?))) }
pub fn g_f2o_p_ref() { r::drive(opt(B)) }
pub fn g_f2o_q() { run(parser!(x:last(last(a, b)?, f,) y:e => uf_two(x, y))) }
pub fn g_f2o_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_f2o_r() { run(parser!(rule q: V<9> = x:last(a, b)? => uf_one(x); q e)) }
pub fn g_f2o_r_ref() { r::drive(seq(map(opt(B), |(x,)| (uf_one(x),)), E)) }
pub fn g_f2o_s() { run(parser!((last(a, b)?) e)) }
pub fn g_f2o_s_ref() { r::drive(seq(one(opt(B)), E)) }
pub fn g_f2o_t() { run(parser!((e last(a, b)?))) }
pub fn g_f2o_t_ref() { r::drive(seq(E, opt(B))) }
pub fn g_f2o_u() { run(parser!(rule q: Option<V<2>> = last(a, b)?; e q)) }
pub fn g_f2o_u_ref() { r::drive(seq(E, one(opt(B)))) }
pub fn g_gr_a() { run(parser!((a b))) }
pub fn g_gr_a_ref() { r::drive(one(seq(A, B))) }
pub fn g_gr_b() { run(parser!((a b) e)) }
pub fn g_gr_b_ref() { r::drive(seq(one(seq(A, B)), E)) }
pub fn g_gr_c() { run(parser!((e) (a b))) }
pub fn g_gr_c_ref() { r::drive(seq(E, one(seq(A, B)))) }
pub fn g_gr_d() { run(parser!((e) (a b) f)) }
pub fn g_gr_d_ref() { r::drive(seq(E, seq(one(seq(A, B)), F))) }
pub fn g_gr_e() { run(parser!(x:(a b) => uf_one(x))) }
pub fn g_gr_e_ref() { r::drive(map(one(seq(A, B)), |(x,)| (uf_one(x),))) }
pub fn g_gr_f() { run(parser!(x:(a b) y:e => uf_two(x, y))) }
pub fn g_gr_f_ref() { r::drive(map(seq(one(seq(A, B)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gr_g() { run(parser!(y:e x:(a b) => uf_two(y, x))) }
pub fn g_gr_g_ref() { r::drive(map(seq(E, one(seq(A, B))), |(y, x)| (uf_two(y, x),))) }
pub fn g_gr_h() { run(parser!(y:e x:(a b) w:f => uf_three(y, x, w))) }
pub fn g_gr_h_ref() { r::drive(map(seq(E, seq(one(seq(A, B)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_gr_i() { run(parser!(e x:(a b) f => uf_one(x))) }
pub fn g_gr_i_ref() { r::drive(map(seq(E, seq(one(seq(A, B)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_gr_j() { run(parser!((a b) y:e => uf_one(y))) }
pub fn g_gr_j_ref() { r::drive(map(seq(one(seq(A, B)), E), |(_, y)| (uf_one(y),))) }
pub fn g_gr_k() { run(parser!(y:(e) (a b) => uf_one(y))) }
pub fn g_gr_k_ref() { r::drive(map(seq(E, one(seq(A, B))), |(y, _)| (uf_one(y),))) }
pub fn g_gr_l() { run(parser!((a b) => uf_zero())) }
pub fn g_gr_l_ref() { r::drive(map(one(seq(A, B)), |(_,)| (uf_zero(),))) }
pub fn g_gr_m() { run(parser!({x:e => uf_one(x), y:(a b) => uf_one(y)})) }
pub fn g_gr_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(one(seq(A, B)), |(y,)| (uf_one(y),)))) }
pub fn g_gr_n() { run(parser!({(a b) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_gr_n_ref() { r::drive(seq(alt(map(one(seq(A, B)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_gr_o() { run(parser!(keep((a b)) e)) }
pub fn g_gr_o_ref() { r::drive(seq(one(seq(A, B)), E)) }
pub fn g_gr_p() { run(parser!(last(e, (a b)))) }
pub fn g_gr_p_ref() { r::drive(one(seq(A, B))) }
pub fn g_gr_q() { run(parser!(x:last((a b), f,) y:e => uf_two(x, y))) }
pub fn g_gr_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gr_r() { run(parser!(rule q: V<9> = x:(a b) => uf_one(x); q e)) }
pub fn g_gr_r_ref() { r::drive(seq(map(one(seq(A, B)), |(x,)| (uf_one(x),)), E)) }
pub fn g_gr_s() { run(parser!(((a b)) e)) }
pub fn g_gr_s_ref() { r::drive(seq(one(one(seq(A, B))), E)) }
pub fn g_gr_t() { run(parser!(((e) (a b)))) }
pub fn g_gr_t_ref() { r::drive(seq(E, one(seq(A, B)))) }
pub fn g_gr_u() { run(parser!(rule q: (V<1>, V<2>) = (a b); e q)) }
pub fn g_gr_u_ref() { r::drive(seq(E, one(one(seq(A, B))))) }
pub fn g_grs_a() { run(parser!((a b)*)) }
pub fn g_grs_a_ref() { r::drive(star(one(seq(A, B)))) }
pub fn g_grs_b() { run(parser!((a b)* e)) }
pub fn g_grs_b_ref() { r::drive(seq(star(one(seq(A, B))), E)) }
pub fn g_grs_c() { run(parser!((e) (a b)*)) }
pub fn g_grs_c_ref() { r::drive(seq(E, star(one(seq(A, B))))) }
pub fn g_grs_d() { run(parser!((e) (a b)* f)) }
pub fn g_grs_d_ref() { r::drive(seq(E, seq(star(one(seq(A, B))), F))) }
pub fn g_grs_e() { run(parser!(x:(a b)* => uf_one(x))) }
pub fn g_grs_e_ref() { r::drive(map(star(one(seq(A, B))), |(x,)| (uf_one(x),))) }
pub fn g_grs_f() { run(parser!(x:(a b)* y:e => uf_two(x, y))) }
pub fn g_grs_f_ref() { r::drive(map(seq(star(one(seq(A, B))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_grs_g() { run(parser!(y:e x:(a b)* => uf_two(y, x))) }
pub fn g_grs_g_ref() { r::drive(map(seq(E, star(one(seq(A, B)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_grs_h() { run(parser!(y:e x:(a b)* w:f => uf_three(y, x, w))) }
pub fn g_grs_h_ref() { r::drive(map(seq(E, seq(star(one(seq(A, B))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_grs_i() { run(parser!(e x:(a b)* f => uf_one(x))) }
pub fn g_grs_i_ref() { r::drive(map(seq(E, seq(star(one(seq(A, B))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_grs_j() { run(parser!((a b)* y:e => uf_one(y))) }
pub fn g_grs_j_ref() { r::drive(map(seq(star(one(seq(A, B))), E), |(_, y)| (uf_one(y),))) }
pub fn g_grs_k() { run(parser!(y:(e) (a b)* => uf_one(y))) }
pub fn g_grs_k_ref() { r::drive(map(seq(E, star(one(seq(A, B)))), |(y, _)| (uf_one(y),))) }
pub fn g_grs_l() { run(parser!((a b)* => uf_zero())) }
pub fn g_grs_l_ref() { r::drive(map(star(one(seq(A, B))), |(_,)| (uf_zero(),))) }
pub fn g_grs_m() { run(parser!({x:e => uf_one(x), y:(a b)* => uf_one(y)})) }
pub fn g_grs_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(one(seq(A, B))), |(y,)| (uf_one(y),)))) }
pub fn g_grs_n() { run(parser!({(a b)* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_grs_n_ref() { r::drive(seq(alt(map(star(one(seq(A, B))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_grs_o() { run(parser!(keep((a b)*) e)) }
pub fn g_grs_o_ref() { r::drive(seq(star(one(seq(A, B))), E)) }
pub fn g_grs_p() { run(parser!(last(e, (a b)*))) }
pub fn g_grs_p_ref() { r::drive(star(one(seq(A, B)))) }
pub fn g_grs_q() { run(parser!(x:last((a b)*, f,) y:e => uf_two(x, y))) }
pub fn g_grs_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_grs_r() { run(parser!(rule q: V<9> = x:(a b)* => uf_one(x); q e)) }
pub fn g_grs_r_ref() { r::drive(seq(map(star(one(seq(A, B))), |(x,)| (uf_one(x),)), E)) }
pub fn g_grs_s() { run(parser!(((a b)*) e)) }
pub fn g_grs_s_ref() { r::drive(seq(one(star(one(seq(A, B)))), E)) }
pub fn g_grs_t() { run(parser!(((e) (a b)*))) }
pub fn g_grs_t_ref() { r::drive(seq(E, star(one(seq(A, B))))) }
pub fn g_grs_u() { run(parser!(rule q: Vec<(V<1>, V<2>)> = (a b)*; e q)) }
pub fn g_grs_u_ref() { r::drive(seq(E, one(star(one(seq(A, B)))))) }
pub fn g_grp_a() { run(parser!((a b)+)) }
pub fn g_grp_a_ref() { r::drive(plus(one(seq(A, B)))) }
pub fn g_grp_b() { run(parser!((a b)+ e)) }
pub fn g_grp_b_ref() { r::drive(seq(plus(one(seq(A, B))), E)) }
pub fn g_grp_c() { run(parser!((e) (a b)+)) }
pub fn g_grp_c_ref() { r::drive(seq(E, plus(one(seq(A, B))))) }
pub fn g_grp_d() { run(parser!((e) (a b)+ f)) }
pub fn g_grp_d_ref() { r::drive(seq(E, seq(plus(one(seq(A, B))), F))) }
pub fn g_grp_e() { run(parser!(x:(a b)+ => uf_one(x))) }
pub fn g_grp_e_ref() { r::drive(map(plus(one(seq(A, B))), |(x,)| (uf_one(x),))) }
pub fn g_grp_f() { run(parser!(x:(a b)+ y:e => uf_two(x, y))) }
pub fn g_grp_f_ref() { r::drive(map(seq(plus(one(seq(A, B))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_grp_g() { run(parser!(y:e x:(a b)+ => uf_two(y, x))) }
pub fn g_grp_g_ref() { r::drive(map(seq(E, plus(one(seq(A, B)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_grp_h() { run(parser!(y:e x:(a b)+ w:f => uf_three(y, x, w))) }
pub fn g_grp_h_ref() { r::drive(map(seq(E, seq(plus(one(seq(A, B))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_grp_i() { run(parser!(e x:(a b)+ f => uf_one(x))) }
pub fn g_grp_i_ref() { r::drive(map(seq(E, seq(plus(one(seq(A, B))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_grp_j() { run(parser!((a b)+ y:e => uf_one(y))) }
pub fn g_grp_j_ref() { r::drive(map(seq(plus(one(seq(A, B))), E), |(_, y)| (uf_one(y),))) }
pub fn g_grp_k() { run(parser!(y:(e) (a b)+ => uf_one(y))) }
pub fn g_grp_k_ref() { r::drive(map(seq(E, plus(one(seq(A, B)))), |(y, _)| (uf_one(y),))) }
pub fn g_grp_l() { run(parser!((a b)+ => uf_zero())) }
pub fn g_grp_l_ref() { r::drive(map(plus(one(seq(A, B))), |(_,)| (uf_zero(),))) }
pub fn g_grp_m() { run(parser!({x:e => uf_one(x), y:(a b)+ => uf_one(y)})) }
pub fn g_grp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(one(seq(A, B))), |(y,)| (uf_one(y),)))) }
pub fn g_grp_n() { run(parser!({(a b)+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_grp_n_ref() { r::drive(seq(alt(map(plus(one(seq(A, B))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_grp_o() { run(parser!(keep((a b)+) e)) }
pub fn g_grp_o_ref() { r::drive(seq(plus(one(seq(A, B))), E)) }
pub fn g_grp_p() { run(parser!(last(e, (a b)+))) }
pub fn g_grp_p_ref() { r::drive(plus(one(seq(A, B)))) }
pub fn g_grp_q() { run(parser!(x:last((a b)+, f,) y:e => uf_two(x, y))) }
pub fn g_grp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_grp_r() { run(parser!(rule q: V<9> = x:(a b)+ => uf_one(x); q e)) }
pub fn g_grp_r_ref() { r::drive(seq(map(plus(one(seq(A, B))), |(x,)| (uf_one(x),)), E)) }
pub fn g_grp_s() { run(parser!(((a b)+) e)) }
pub fn g_grp_s_ref() { r::drive(seq(one(plus(one(seq(A, B)))), E)) }
pub fn g_grp_t() { run(parser!(((e) (a b)+))) }
pub fn g_grp_t_ref() { r::drive(seq(E, plus(one(seq(A, B))))) }
pub fn g_grp_u() { run(parser!(rule q: Vec<(V<1>, V<2>)> = (a b)+; e q)) }
pub fn g_grp_u_ref() { r::drive(seq(E, one(plus(one(seq(A, B)))))) }
pub fn g_gro_a() { run(parser!((a b)?)) }
pub fn g_gro_a_ref() { r::drive(opt(one(seq(A, B)))) }
pub fn g_gro_b() { run(parser!((a b)? e)) }
pub fn g_gro_b_ref() { r::drive(seq(opt(one(seq(A, B))), E)) }
pub fn g_gro_c() { run(parser!((e) (a b)?)) }
pub fn g_gro_c_ref() { r::drive(seq(E, opt(one(seq(A, B))))) }
pub fn g_gro_d() { run(parser!((e) (a b)? f)) }
pub fn g_gro_d_ref() { r::drive(seq(E, seq(opt(one(seq(A, B))), F))) }
pub fn g_gro_e() { run(parser!(x:(a b)? => uf_one(x))) }
pub fn g_gro_e_ref() { r::drive(map(opt(one(seq(A, B))), |(x,)| (uf_one(x),))) }
pub fn g_gro_f() { run(parser!(x:(a b)? y:e => uf_two(x, y))) }
pub fn g_gro_f_ref() { r::drive(map(seq(opt(one(seq(A, B))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gro_g() { run(parser!(y:e x:(a b)? => uf_two(y, x))) }
pub fn g_gro_g_ref() { r::drive(map(seq(E, opt(one(seq(A, B)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_gro_h() { run(parser!(y:e x:(a b)? w:f => uf_three(y, x, w))) }
pub fn g_gro_h_ref() { r::drive(map(seq(E, seq(opt(one(seq(A, B))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_gro_i() { run(parser!(e x:(a b)? f => uf_one(x))) }
pub fn g_gro_i_ref() { r::drive(map(seq(E, seq(opt(one(seq(A, B))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_gro_j() { run(parser!((a b)? y:e => uf_one(y))) }
pub fn g_gro_j_ref() { r::drive(map(seq(opt(one(seq(A, B))), E), |(_, y)| (uf_one(y),))) }
pub fn g_gro_k() { run(parser!(y:(e) (a b)? => uf_one(y))) }
pub fn g_gro_k_ref() { r::drive(map(seq(E, opt(one(seq(A, B)))), |(y, _)| (uf_one(y),))) }
pub fn g_gro_l() { run(parser!((a b)? => uf_zero())) }
pub fn g_gro_l_ref() { r::drive(map(opt(one(seq(A, B))), |(_,)| (uf_zero(),))) }
pub fn g_gro_m() { run(parser!({x:e => uf_one(x), y:(a b)? => uf_one(y)})) }
pub fn g_gro_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(one(seq(A, B))), |(y,)| (uf_one(y),)))) }
pub fn g_gro_n() { run(parser!({(a b)? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_gro_n_ref() { r::drive(seq(alt(map(opt(one(seq(A, B))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_gro_o() { run(parser!(keep((a b)?) e)) }
pub fn g_gro_o_ref() { r::drive(seq(opt(one(seq(A, B))), E)) }
pub fn g_gro_p() { run(parser!(last(e, (a b)?))) }
pub fn g_gro_p_ref() { r::drive(opt(one(seq(A, B)))) }
pub fn g_gro_q() { run(parser!(x:last((a b)?, f,) y:e => uf_two(x, y))) }
pub fn g_gro_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gro_r() { run(parser!(rule q: V<9> = x:(a b)? => uf_one(x); q e)) }
pub fn g_gro_r_ref() { r::drive(seq(map(opt(one(seq(A, B))), |(x,)| (uf_one(x),)), E)) }
pub fn g_gro_s() { run(parser!(((a b)?) e)) }
pub fn g_gro_s_ref() { r::drive(seq(one(opt(one(seq(A, B)))), E)) }
pub fn g_gro_t() { run(parser!(((e) (a b)?))) }
pub fn g_gro_t_ref() { r::drive(seq(E, opt(one(seq(A, B))))) }
pub fn g_gro_u() { run(parser!(rule q: Option<(V<1>, V<2>)> = (a b)?; e q)) }
pub fn g_gro_u_ref() { r::drive(seq(E, one(opt(one(seq(A, B)))))) }
pub fn g_gu_a() { run(parser!((u1))) }
pub fn g_gu_a_ref() { r::drive(one(U1)) }
pub fn g_gu_b() { run(parser!((u1) e)) }
pub fn g_gu_b_ref() { r::drive(seq(one(U1), E)) }
pub fn g_gu_c() { run(parser!((e) (u1))) }
pub fn g_gu_c_ref() { r::drive(seq(E, one(U1))) }
pub fn g_gu_d() { run(parser!((e) (u1) f)) }
pub fn g_gu_d_ref() { r::drive(seq(E, seq(one(U1), F))) }
pub fn g_gu_e() { run(parser!(x:(u1) => uf_one(x))) }
pub fn g_gu_e_ref() { r::drive(map(one(U1), |(x,)| (uf_one(x),))) }
pub fn g_gu_f() { run(parser!(x:(u1) y:e => uf_two(x, y))) }
pub fn g_gu_f_ref() { r::drive(map(seq(one(U1), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gu_g() { run(parser!(y:e x:(u1) => uf_two(y, x))) }
pub fn g_gu_g_ref() { r::drive(map(seq(E, one(U1)), |(y, x)| (uf_two(y, x),))) }
pub fn g_gu_h() { run(parser!(y:e x:(u1) w:f => uf_three(y, x, w))) }
pub fn g_gu_h_ref() { r::drive(map(seq(E, seq(one(U1), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_gu_i() { run(parser!(e x:(u1) f => uf_one(x))) }
pub fn g_gu_i_ref() { r::drive(map(seq(E, seq(one(U1), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_gu_j() { run(parser!((u1) y:e => uf_one(y))) }
pub fn g_gu_j_ref() { r::drive(map(seq(one(U1), E), |(_, y)| (uf_one(y),))) }
pub fn g_gu_k() { run(parser!(y:(e) (u1) => uf_one(y))) }
pub fn g_gu_k_ref() { r::drive(map(seq(E, one(U1)), |(y, _)| (uf_one(y),))) }
pub fn g_gu_l() { run(parser!((u1) => uf_zero())) }
pub fn g_gu_l_ref() { r::drive(map(one(U1), |(_,)| (uf_zero(),))) }
pub fn g_gu_m() { run(parser!({x:e => uf_one(x), y:(u1) => uf_one(y)})) }
pub fn g_gu_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(one(U1), |(y,)| (uf_one(y),)))) }
pub fn g_gu_n() { run(parser!({(u1) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_gu_n_ref() { r::drive(seq(alt(map(one(U1), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_gu_o() { run(parser!(keep((u1)) e)) }
pub fn g_gu_o_ref() { r::drive(seq(one(U1), E)) }
pub fn g_gu_p() { run(parser!(last(e, (u1)))) }
pub fn g_gu_p_ref() { r::drive(one(U1)) }
pub fn g_gu_q() { run(parser!(x:last((u1), f,) y:e => uf_two(x, y))) }
pub fn g_gu_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gu_r() { run(parser!(rule q: V<9> = x:(u1) => uf_one(x); q e)) }
pub fn g_gu_r_ref() { r::drive(seq(map(one(U1), |(x,)| (uf_one(x),)), E)) }
pub fn g_gu_s() { run(parser!(((u1)) e)) }
pub fn g_gu_s_ref() { r::drive(seq(one(one(U1)), E)) }
pub fn g_gu_t() { run(parser!(((e) (u1)))) }
pub fn g_gu_t_ref() { r::drive(seq(E, one(U1))) }
pub fn g_gu_u() { run(parser!(rule q: () = (u1); e q)) }
pub fn g_gu_u_ref() { r::drive(seq(E, one(one(U1)))) }
pub fn g_gus_a() { run(parser!((u1)*)) }
pub fn g_gus_a_ref() { r::drive(star(one(U1))) }
pub fn g_gus_b() { run(parser!((u1)* e)) }
pub fn g_gus_b_ref() { r::drive(seq(star(one(U1)), E)) }
pub fn g_gus_c() { run(parser!((e) (u1)*)) }
pub fn g_gus_c_ref() { r::drive(seq(E, star(one(U1)))) }
pub fn g_gus_d() { run(parser!((e) (u1)* f)) }
pub fn g_gus_d_ref() { r::drive(seq(E, seq(star(one(U1)), F))) }
pub fn g_gus_e() { run(parser!(x:(u1)* => uf_one(x))) }
pub fn g_gus_e_ref() { r::drive(map(star(one(U1)), |(x,)| (uf_one(x),))) }
pub fn g_gus_f() { run(parser!(x:(u1)* y:e => uf_two(x, y))) }
pub fn g_gus_f_ref() { r::drive(map(seq(star(one(U1)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gus_g() { run(parser!(y:e x:(u1)* => uf_two(y, x))) }
pub fn g_gus_g_ref() { r::drive(map(seq(E, star(one(U1))), |(y, x)| (uf_two(y, x),))) }
pub fn g_gus_h() { run(parser!(y:e x:(u1)* w:f => uf_three(y, x, w))) }
pub fn g_gus_h_ref() { r::drive(map(seq(E, seq(star(one(U1)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_gus_i() { run(parser!(e x:(u1)* f => uf_one(x))) }
pub fn g_gus_i_ref() { r::drive(map(seq(E, seq(star(one(U1)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_gus_j() { run(parser!((u1)* y:e => uf_one(y))) }
pub fn g_gus_j_ref() { r::drive(map(seq(star(one(U1)), E), |(_, y)| (uf_one(y),))) }
pub fn g_gus_k() { run(parser!(y:(e) (u1)* => uf_one(y))) }
pub fn g_gus_k_ref() { r::drive(map(seq(E, star(one(U1))), |(y, _)| (uf_one(y),))) }
pub fn g_gus_l() { run(parser!((u1)* => uf_zero())) }
pub fn g_gus_l_ref() { r::drive(map(star(one(U1)), |(_,)| (uf_zero(),))) }
pub fn g_gus_m() { run(parser!({x:e => uf_one(x), y:(u1)* => uf_one(y)})) }
pub fn g_gus_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(one(U1)), |(y,)| (uf_one(y),)))) }
pub fn g_gus_n() { run(parser!({(u1)* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_gus_n_ref() { r::drive(seq(alt(map(star(one(U1)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_gus_o() { run(parser!(keep((u1)*) e)) }
pub fn g_gus_o_ref() { r::drive(seq(star(one(U1)), E)) }
pub fn g_gus_p() { run(parser!(last(e, (u1)*))) }
pub fn g_gus_p_ref() { r::drive(star(one(U1))) }
pub fn g_gus_q() { run(parser!(x:last((u1)*, f,) y:e => uf_two(x, y))) }
pub fn g_gus_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gus_r() { run(parser!(rule q: V<9> = x:(u1)* => uf_one(x); q e)) }
pub fn g_gus_r_ref() { r::drive(seq(map(star(one(U1)), |(x,)| (uf_one(x),)), E)) }
pub fn g_gus_s() { run(parser!(((u1)*) e)) }
pub fn g_gus_s_ref() { r::drive(seq(one(star(one(U1))), E)) }
pub fn g_gus_t() { run(parser!(((e) (u1)*))) }
pub fn g_gus_t_ref() { r::drive(seq(E, star(one(U1)))) }
pub fn g_gus_u() { run(parser!(rule q: Vec<()> = (u1)*; e q)) }
pub fn g_gus_u_ref() { r::drive(seq(E, one(star(one(U1))))) }
pub fn g_gup_a() { run(parser!((u1)+)) }
pub fn g_gup_a_ref() { r::drive(plus(one(U1))) }
pub fn g_gup_b() { run(parser!((u1)+ e)) }
pub fn g_gup_b_ref() { r::drive(seq(plus(one(U1)), E)) }
pub fn g_gup_c() { run(parser!((e) (u1)+)) }
pub fn g_gup_c_ref() { r::drive(seq(E, plus(one(U1)))) }
pub fn g_gup_d() { run(parser!((e) (u1)+ f)) }
pub fn g_gup_d_ref() { r::drive(seq(E, seq(plus(one(U1)), F))) }
pub fn g_gup_e() { run(parser!(x:(u1)+ => uf_one(x))) }
pub fn g_gup_e_ref() { r::drive(map(plus(one(U1)), |(x,)| (uf_one(x),))) }
pub fn g_gup_f() { run(parser!(x:(u1)+ y:e => uf_two(x, y))) }
pub fn g_gup_f_ref() { r::drive(map(seq(plus(one(U1)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gup_g() { run(parser!(y:e x:(u1)+ => uf_two(y, x))) }
pub fn g_gup_g_ref() { r::drive(map(seq(E, plus(one(U1))), |(y, x)| (uf_two(y, x),))) }
pub fn g_gup_h() { run(parser!(y:e x:(u1)+ w:f => uf_three(y, x, w))) }
pub fn g_gup_h_ref() { r::drive(map(seq(E, seq(plus(one(U1)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_gup_i() { run(parser!(e x:(u1)+ f => uf_one(x))) }
pub fn g_gup_i_ref() { r::drive(map(seq(E, seq(plus(one(U1)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_gup_j() { run(parser!((u1)+ y:e => uf_one(y))) }
pub fn g_gup_j_ref() { r::drive(map(seq(plus(one(U1)), E), |(_, y)| (uf_one(y),))) }
pub fn g_gup_k() { run(parser!(y:(e) (u1)+ => uf_one(y))) }
pub fn g_gup_k_ref() { r::drive(map(seq(E, plus(one(U1))), |(y, _)| (uf_one(y),))) }
pub fn g_gup_l() { run(parser!((u1)+ => uf_zero())) }
pub fn g_gup_l_ref() { r::drive(map(plus(one(U1)), |(_,)| (uf_zero(),))) }
pub fn g_gup_m() { run(parser!({x:e => uf_one(x), y:(u1)+ => uf_one(y)})) }
pub fn g_gup_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(one(U1)), |(y,)| (uf_one(y),)))) }
pub fn g_gup_n() { run(parser!({(u1)+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_gup_n_ref() { r::drive(seq(alt(map(plus(one(U1)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_gup_o() { run(parser!(keep((u1)+) e)) }
pub fn g_gup_o_ref() { r::drive(seq(plus(one(U1)), E)) }
pub fn g_gup_p() { run(parser!(last(e, (u1)+))) }
pub fn g_gup_p_ref() { r::drive(plus(one(U1))) }
pub fn g_gup_q() { run(parser!(x:last((u1)+, f,) y:e => uf_two(x, y))) }
pub fn g_gup_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_gup_r() { run(parser!(rule q: V<9> = x:(u1)+ => uf_one(x); q e)) }
pub fn g_gup_r_ref() { r::drive(seq(map(plus(one(U1)), |(x,)| (uf_one(x),)), E)) }
pub fn g_gup_s() { run(parser!(((u1)+) e)) }
pub fn g_gup_s_ref() { r::drive(seq(one(plus(one(U1))), E)) }
pub fn g_gup_t() { run(parser!(((e) (u1)+))) }
pub fn g_gup_t_ref() { r::drive(seq(E, plus(one(U1)))) }
pub fn g_gup_u() { run(parser!(rule q: Vec<()> = (u1)+; e q)) }
pub fn g_gup_u_ref() { r::drive(seq(E, one(plus(one(U1))))) }
pub fn g_guo_a() { run(parser!((u1)?)) }
pub fn g_guo_a_ref() { r::drive(opt(one(U1))) }
pub fn g_guo_b() { run(parser!((u1)? e)) }
pub fn g_guo_b_ref() { r::drive(seq(opt(one(U1)), E)) }
pub fn g_guo_c() { run(parser!((e) (u1)?)) }
pub fn g_guo_c_ref() { r::drive(seq(E, opt(one(U1)))) }
pub fn g_guo_d() { run(parser!((e) (u1)? f)) }
pub fn g_guo_d_ref() { r::drive(seq(E, seq(opt(one(U1)), F))) }
pub fn g_guo_e() { run(parser!(x:(u1)? => uf_one(x))) }
pub fn g_guo_e_ref() { r::drive(map(opt(one(U1)), |(x,)| (uf_one(x),))) }
pub fn g_guo_f() { run(parser!(x:(u1)? y:e => uf_two(x, y))) }
pub fn g_guo_f_ref() { r::drive(map(seq(opt(one(U1)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_guo_g() { run(parser!(y:e x:(u1)? => uf_two(y, x))) }
pub fn g_guo_g_ref() { r::drive(map(seq(E, opt(one(U1))), |(y, x)| (uf_two(y, x),))) }
pub fn g_guo_h() { run(parser!(y:e x:(u1)? w:f => uf_three(y, x, w))) }
pub fn g_guo_h_ref() { r::drive(map(seq(E, seq(opt(one(U1)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_guo_i() { run(parser!(e x:(u1)? f => uf_one(x))) }
pub fn g_guo_i_ref() { r::drive(map(seq(E, seq(opt(one(U1)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_guo_j() { run(parser!((u1)? y:e => uf_one(y))) }
pub fn g_guo_j_ref() { r::drive(map(seq(opt(one(U1)), E), |(_, y)| (uf_one(y),))) }
pub fn g_guo_k() { run(parser!(y:(e) (u1)? => uf_one(y))) }
pub fn g_guo_k_ref() { r::drive(map(seq(E, opt(one(U1))), |(y, _)| (uf_one(y),))) }
pub fn g_guo_l() { run(parser!((u1)? => uf_zero())) }
pub fn g_guo_l_ref() { r::drive(map(opt(one(U1)), |(_,)| (uf_zero(),))) }
pub fn g_guo_m() { run(parser!({x:e => uf_one(x), y:(u1)? => uf_one(y)})) }
pub fn g_guo_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(one(U1)), |(y,)| (uf_one(y),)))) }
pub fn g_guo_n() { run(parser!({(u1)? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_guo_n_ref() { r::drive(seq(alt(map(opt(one(U1)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_guo_o() { run(parser!(keep((u1)?) e)) }
pub fn g_guo_o_ref() { r::drive(seq(opt(one(U1)), E)) }
pub fn g_guo_p() { run(parser!(last(e, (u1)?))) }
pub fn g_guo_p_ref() { r::drive(opt(one(U1))) }
pub fn g_guo_q() { run(parser!(x:last((u1)?, f,) y:e => uf_two(x, y))) }
pub fn g_guo_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_guo_r() { run(parser!(rule q: V<9> = x:(u1)? => uf_one(x); q e)) }
pub fn g_guo_r_ref() { r::drive(seq(map(opt(one(U1)), |(x,)| (uf_one(x),)), E)) }
pub fn g_guo_s() { run(parser!(((u1)?) e)) }
pub fn g_guo_s_ref() { r::drive(seq(one(opt(one(U1))), E)) }
pub fn g_guo_t() { run(parser!(((e) (u1)?))) }
pub fn g_guo_t_ref() { r::drive(seq(E, opt(one(U1)))) }
pub fn g_guo_u() { run(parser!(rule q: Option<()> = (u1)?; e q)) }
pub fn g_guo_u_ref() { r::drive(seq(E, one(opt(one(U1))))) }
pub fn g_al_a() { run(parser!({sa, sb})) }
pub fn g_al_a_ref() { r::drive(alt(SA, SB)) }
pub fn g_al_b() { run(parser!({sa, sb} e)) }
pub fn g_al_b_ref() { r::drive(seq(alt(SA, SB), E)) }
pub fn g_al_c() { run(parser!(e {sa, sb})) }
pub fn g_al_c_ref() { r::drive(seq(E, alt(SA, SB))) }
pub fn g_al_d() { run(parser!(e {sa, sb} f)) }
pub fn g_al_d_ref() { r::drive(seq(E, seq(alt(SA, SB), F))) }
pub fn g_al_e() { run(parser!(x:{sa, sb} => uf_one(x))) }
pub fn g_al_e_ref() { r::drive(map(alt(SA, SB), |(x,)| (uf_one(x),))) }
pub fn g_al_f() { run(parser!(x:{sa, sb} y:e => uf_two(x, y))) }
pub fn g_al_f_ref() { r::drive(map(seq(alt(SA, SB), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_al_g() { run(parser!(y:e x:{sa, sb} => uf_two(y, x))) }
pub fn g_al_g_ref() { r::drive(map(seq(E, alt(SA, SB)), |(y, x)| (uf_two(y, x),))) }
pub fn g_al_h() { run(parser!(y:e x:{sa, sb} w:f => uf_three(y, x, w))) }
pub fn g_al_h_ref() { r::drive(map(seq(E, seq(alt(SA, SB), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_al_i() { run(parser!(e x:{sa, sb} f => uf_one(x))) }
pub fn g_al_i_ref() { r::drive(map(seq(E, seq(alt(SA, SB), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_al_j() { run(parser!({sa, sb} y:e => uf_one(y))) }
pub fn g_al_j_ref() { r::drive(map(seq(alt(SA, SB), E), |(_, y)| (uf_one(y),))) }
pub fn g_al_k() { run(parser!(y:e {sa, sb} => uf_one(y))) }
pub fn g_al_k_ref() { r::drive(map(seq(E, alt(SA, SB)), |(y, _)| (uf_one(y),))) }
pub fn g_al_l() { run(parser!({sa, sb} => uf_zero())) }
pub fn g_al_l_ref() { r::drive(map(alt(SA, SB), |(_,)| (uf_zero(),))) }
pub fn g_al_m() { run(parser!({x:e => uf_one(x), y:{sa, sb} => uf_one(y)})) }
pub fn g_al_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(alt(SA, SB), |(y,)| (uf_one(y),)))) }
pub fn g_al_n() { run(parser!({{sa, sb} => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_al_n_ref() { r::drive(seq(alt(map(alt(SA, SB), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_al_o() { run(parser!(keep({sa, sb}) e)) }
pub fn g_al_o_ref() { r::drive(seq(alt(SA, SB), E)) }
pub fn g_al_p() { run(parser!(last(e, {sa, sb}))) }
pub fn g_al_p_ref() { r::drive(alt(SA, SB)) }
pub fn g_al_q() { run(parser!(x:last({sa, sb}, f,) y:e => uf_two(x, y))) }
pub fn g_al_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_al_r() { run(parser!(rule q: V<9> = x:{sa, sb} => uf_one(x); q e)) }
pub fn g_al_r_ref() { r::drive(seq(map(alt(SA, SB), |(x,)| (uf_one(x),)), E)) }
pub fn g_al_s() { run(parser!(({sa, sb}) e)) }
pub fn g_al_s_ref() { r::drive(seq(one(alt(SA, SB)), E)) }
pub fn g_al_t() { run(parser!((e {sa, sb}))) }
pub fn g_al_t_ref() { r::drive(seq(E, alt(SA, SB))) }
pub fn g_al_u() { run(parser!(rule q: V<0> = {sa, sb}; e q)) }
pub fn g_al_u_ref() { r::drive(seq(E, one(alt(SA, SB)))) }
pub fn g_als_a() { run(parser!({sa, sb}*)) }
pub fn g_als_a_ref() { r::drive(star(alt(SA, SB))) }
pub fn g_als_b() { run(parser!({sa, sb}* e)) }
pub fn g_als_b_ref() { r::drive(seq(star(alt(SA, SB)), E)) }
pub fn g_als_c() { run(parser!(e {sa, sb}*)) }
pub fn g_als_c_ref() { r::drive(seq(E, star(alt(SA, SB)))) }
pub fn g_als_d() { run(parser!(e {sa, sb}* f)) }
pub fn g_als_d_ref() { r::drive(seq(E, seq(star(alt(SA, SB)), F))) }
pub fn g_als_e() { run(parser!(x:{sa, sb}* => uf_one(x))) }
pub fn g_als_e_ref() { r::drive(map(star(alt(SA, SB)), |(x,)| (uf_one(x),))) }
pub fn g_als_f() { run(parser!(x:{sa, sb}* y:e => uf_two(x, y))) }
pub fn g_als_f_ref() { r::drive(map(seq(star(alt(SA, SB)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_als_g() { run(parser!(y:e x:{sa, sb}* => uf_two(y, x))) }
pub fn g_als_g_ref() { r::drive(map(seq(E, star(alt(SA, SB))), |(y, x)| (uf_two(y, x),))) }
pub fn g_als_h() { run(parser!(y:e x:{sa, sb}* w:f => uf_three(y, x, w))) }
pub fn g_als_h_ref() { r::drive(map(seq(E, seq(star(alt(SA, SB)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_als_i() { run(parser!(e x:{sa, sb}* f => uf_one(x))) }
pub fn g_als_i_ref() { r::drive(map(seq(E, seq(star(alt(SA, SB)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_als_j() { run(parser!({sa, sb}* y:e => uf_one(y))) }
pub fn g_als_j_ref() { r::drive(map(seq(star(alt(SA, SB)), E), |(_, y)| (uf_one(y),))) }
pub fn g_als_k() { run(parser!(y:e {sa, sb}* => uf_one(y))) }
pub fn g_als_k_ref() { r::drive(map(seq(E, star(alt(SA, SB))), |(y, _)| (uf_one(y),))) }
pub fn g_als_l() { run(parser!({sa, sb}* => uf_zero())) }
pub fn g_als_l_ref() { r::drive(map(star(alt(SA, SB)), |(_,)| (uf_zero(),))) }
pub fn g_als_m() { run(parser!({x:e => uf_one(x), y:{sa, sb}* => uf_one(y)})) }
pub fn g_als_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(alt(SA, SB)), |(y,)| (uf_one(y),)))) }
pub fn g_als_n() { run(parser!({{sa, sb}* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_als_n_ref() { r::drive(seq(alt(map(star(alt(SA, SB)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_als_o() { run(parser!(keep({sa, sb}*) e)) }
pub fn g_als_o_ref() { r::drive(seq(star(alt(SA, SB)), E)) }
pub fn g_als_p() { run(parser!(last(e, {sa, sb}*))) }
pub fn g_als_p_ref() { r::drive(star(alt(SA, SB))) }
pub fn g_als_q() { run(parser!(x:last({sa, sb}*, f,) y:e => uf_two(x, y))) }
pub fn g_als_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_als_r() { run(parser!(rule q: V<9> = x:{sa, sb}* => uf_one(x); q e)) }
pub fn g_als_r_ref() { r::drive(seq(map(star(alt(SA, SB)), |(x,)| (uf_one(x),)), E)) }
pub fn g_als_s() { run(parser!(({sa, sb}*) e)) }
pub fn g_als_s_ref() { r::drive(seq(one(star(alt(SA, SB))), E)) }
pub fn g_als_t() { run(parser!((e {sa, sb}*))) }
pub fn g_als_t_ref() { r::drive(seq(E, star(alt(SA, SB)))) }
pub fn g_als_u() { run(parser!(rule q: Vec<V<0>> = {sa, sb}*; e q)) }
pub fn g_als_u_ref() { r::drive(seq(E, one(star(alt(SA, SB))))) }
pub fn g_alp_a() { run(parser!({sa, sb}+)) }
pub fn g_alp_a_ref() { r::drive(plus(alt(SA, SB))) }
pub fn g_alp_b() { run(parser!({sa, sb}+ e)) }
pub fn g_alp_b_ref() { r::drive(seq(plus(alt(SA, SB)), E)) }
pub fn g_alp_c() { run(parser!(e {sa, sb}+)) }
pub fn g_alp_c_ref() { r::drive(seq(E, plus(alt(SA, SB)))) }
pub fn g_alp_d() { run(parser!(e {sa, sb}+ f)) }
pub fn g_alp_d_ref() { r::drive(seq(E, seq(plus(alt(SA, SB)), F))) }
pub fn g_alp_e() { run(parser!(x:{sa, sb}+ => uf_one(x))) }
pub fn g_alp_e_ref() { r::drive(map(plus(alt(SA, SB)), |(x,)| (uf_one(x),))) }
pub fn g_alp_f() { run(parser!(x:{sa, sb}+ y:e => uf_two(x, y))) }
pub fn g_alp_f_ref() { r::drive(map(seq(plus(alt(SA, SB)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_alp_g() { run(parser!(y:e x:{sa, sb}+ => uf_two(y, x))) }
pub fn g_alp_g_ref() { r::drive(map(seq(E, plus(alt(SA, SB))), |(y, x)| (uf_two(y, x),))) }
pub fn g_alp_h() { run(parser!(y:e x:{sa, sb}+ w:f => uf_three(y, x, w))) }
pub fn g_alp_h_ref() { r::drive(map(seq(E, seq(plus(alt(SA, SB)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_alp_i() { run(parser!(e x:{sa, sb}+ f => uf_one(x))) }
pub fn g_alp_i_ref() { r::drive(map(seq(E, seq(plus(alt(SA, SB)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_alp_j() { run(parser!({sa, sb}+ y:e => uf_one(y))) }
pub fn g_alp_j_ref() { r::drive(map(seq(plus(alt(SA, SB)), E), |(_, y)| (uf_one(y),))) }
pub fn g_alp_k() { run(parser!(y:e {sa, sb}+ => uf_one(y))) }
pub fn g_alp_k_ref() { r::drive(map(seq(E, plus(alt(SA, SB))), |(y, _)| (uf_one(y),))) }
pub fn g_alp_l() { run(parser!({sa, sb}+ => uf_zero())) }
pub fn g_alp_l_ref() { r::drive(map(plus(alt(SA, SB)), |(_,)| (uf_zero(),))) }
pub fn g_alp_m() { run(parser!({x:e => uf_one(x), y:{sa, sb}+ => uf_one(y)})) }
pub fn g_alp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(alt(SA, SB)), |(y,)| (uf_one(y),)))) }
pub fn g_alp_n() { run(parser!({{sa, sb}+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_alp_n_ref() { r::drive(seq(alt(map(plus(alt(SA, SB)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_alp_o() { run(parser!(keep({sa, sb}+) e)) }
pub fn g_alp_o_ref() { r::drive(seq(plus(alt(SA, SB)), E)) }
pub fn g_alp_p() { run(parser!(last(e, {sa, sb}+))) }
pub fn g_alp_p_ref() { r::drive(plus(alt(SA, SB))) }
pub fn g_alp_q() { run(parser!(x:last({sa, sb}+, f,) y:e => uf_two(x, y))) }
pub fn g_alp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_alp_r() { run(parser!(rule q: V<9> = x:{sa, sb}+ => uf_one(x); q e)) }
pub fn g_alp_r_ref() { r::drive(seq(map(plus(alt(SA, SB)), |(x,)| (uf_one(x),)), E)) }
pub fn g_alp_s() { run(parser!(({sa, sb}+) e)) }
pub fn g_alp_s_ref() { r::drive(seq(one(plus(alt(SA, SB))), E)) }
pub fn g_alp_t() { run(parser!((e {sa, sb}+))) }
pub fn g_alp_t_ref() { r::drive(seq(E, plus(alt(SA, SB)))) }
pub fn g_alp_u() { run(parser!(rule q: Vec<V<0>> = {sa, sb}+; e q)) }
pub fn g_alp_u_ref() { r::drive(seq(E, one(plus(alt(SA, SB))))) }
pub fn g_alo_a() { run(parser!({sa, sb}?)) }
pub fn g_alo_a_ref() { r::drive(opt(alt(SA, SB))) }
pub fn g_alo_b() { run(parser!({sa, sb}? e)) }
pub fn g_alo_b_ref() { r::drive(seq(opt(alt(SA, SB)), E)) }
pub fn g_alo_c() { run(parser!(e {sa, sb}?)) }
pub fn g_alo_c_ref() { r::drive(seq(E, opt(alt(SA, SB)))) }
pub fn g_alo_d() { run(parser!(e {sa, sb}? f)) }
pub fn g_alo_d_ref() { r::drive(seq(E, seq(opt(alt(SA, SB)), F))) }
pub fn g_alo_e() { run(parser!(x:{sa, sb}? => uf_one(x))) }
pub fn g_alo_e_ref() { r::drive(map(opt(alt(SA, SB)), |(x,)| (uf_one(x),))) }
pub fn g_alo_f() { run(parser!(x:{sa, sb}? y:e => uf_two(x, y))) }
pub fn g_alo_f_ref() { r::drive(map(seq(opt(alt(SA, SB)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_alo_g() { run(parser!(y:e x:{sa, sb}? => uf_two(y, x))) }
pub fn g_alo_g_ref() { r::drive(map(seq(E, opt(alt(SA, SB))), |(y, x)| (uf_two(y, x),))) }
pub fn g_alo_h() { run(parser!(y:e x:{sa, sb}? w:f => uf_three(y, x, w))) }
pub fn g_alo_h_ref() { r::drive(map(seq(E, seq(opt(alt(SA, SB)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_alo_i() { run(parser!(e x:{sa, sb}? f => uf_one(x))) }
pub fn g_alo_i_ref() { r::drive(map(seq(E, seq(opt(alt(SA, SB)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_alo_j() { run(parser!({sa, sb}? y:e => uf_one(y))) }
pub fn g_alo_j_ref() { r::drive(map(seq(opt(alt(SA, SB)), E), |(_, y)| (uf_one(y),))) }
pub fn g_alo_k() { run(parser!(y:e {sa, sb}? => uf_one(y))) }
pub fn g_alo_k_ref() { r::drive(map(seq(E, opt(alt(SA, SB))), |(y, _)| (uf_one(y),))) }
pub fn g_alo_l() { run(parser!({sa, sb}? => uf_zero())) }
pub fn g_alo_l_ref() { r::drive(map(opt(alt(SA, SB)), |(_,)| (uf_zero(),))) }
pub fn g_alo_m() { run(parser!({x:e => uf_one(x), y:{sa, sb}? => uf_one(y)})) }
pub fn g_alo_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(alt(SA, SB)), |(y,)| (uf_one(y),)))) }
pub fn g_alo_n() { run(parser!({{sa, sb}? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_alo_n_ref() { r::drive(seq(alt(map(opt(alt(SA, SB)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_alo_o() { run(parser!(keep({sa, sb}?) e)) }
pub fn g_alo_o_ref() { r::drive(seq(opt(alt(SA, SB)), E)) }
pub fn g_alo_p() { run(parser!(last(e, {sa, sb}?))) }
pub fn g_alo_p_ref() { r::drive(opt(alt(SA, SB))) }
pub fn g_alo_q() { run(parser!(x:last({sa, sb}?, f,) y:e => uf_two(x, y))) }
pub fn g_alo_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_alo_r() { run(parser!(rule q: V<9> = x:{sa, sb}? => uf_one(x); q e)) }
pub fn g_alo_r_ref() { r::drive(seq(map(opt(alt(SA, SB)), |(x,)| (uf_one(x),)), E)) }
pub fn g_alo_s() { run(parser!(({sa, sb}?) e)) }
pub fn g_alo_s_ref() { r::drive(seq(one(opt(alt(SA, SB))), E)) }
pub fn g_alo_t() { run(parser!((e {sa, sb}?))) }
pub fn g_alo_t_ref() { r::drive(seq(E, opt(alt(SA, SB)))) }
pub fn g_alo_u() { run(parser!(rule q: Option<V<0>> = {sa, sb}?; e q)) }
pub fn g_alo_u_ref() { r::drive(seq(E, one(opt(alt(SA, SB))))) }
pub fn g_mg_a() { run(parser!((z:a => uf_one(z)))) }
pub fn g_mg_a_ref() { r::drive(map(A, |(z,)| (uf_one(z),))) }
pub fn g_mg_b() { run(parser!((z:a => uf_one(z)) e)) }
pub fn g_mg_b_ref() { r::drive(seq(map(A, |(z,)| (uf_one(z),)), E)) }
pub fn g_mg_c() { run(parser!((e) (z:a => uf_one(z)))) }
pub fn g_mg_c_ref() { r::drive(seq(E, map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mg_d() { run(parser!((e) (z:a => uf_one(z)) f)) }
pub fn g_mg_d_ref() { r::drive(seq(E, seq(map(A, |(z,)| (uf_one(z),)), F))) }
pub fn g_mg_e() { run(parser!(x:(z:a => uf_one(z)) => uf_one(x))) }
pub fn g_mg_e_ref() { r::drive(map(map(A, |(z,)| (uf_one(z),)), |(x,)| (uf_one(x),))) }
pub fn g_mg_f() { run(parser!(x:(z:a => uf_one(z)) y:e => uf_two(x, y))) }
pub fn g_mg_f_ref() { r::drive(map(seq(map(A, |(z,)| (uf_one(z),)), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mg_g() { run(parser!(y:e x:(z:a => uf_one(z)) => uf_two(y, x))) }
pub fn g_mg_g_ref() { r::drive(map(seq(E, map(A, |(z,)| (uf_one(z),))), |(y, x)| (uf_two(y, x),))) }
pub fn g_mg_h() { run(parser!(y:e x:(z:a => uf_one(z)) w:f => uf_three(y, x, w))) }
pub fn g_mg_h_ref() { r::drive(map(seq(E, seq(map(A, |(z,)| (uf_one(z),)), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_mg_i() { run(parser!(e x:(z:a => uf_one(z)) f => uf_one(x))) }
pub fn g_mg_i_ref() { r::drive(map(seq(E, seq(map(A, |(z,)| (uf_one(z),)), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_mg_j() { run(parser!((z:a => uf_one(z)) y:e => uf_one(y))) }
pub fn g_mg_j_ref() { r::drive(map(seq(map(A, |(z,)| (uf_one(z),)), E), |(_, y)| (uf_one(y),))) }
pub fn g_mg_k() { run(parser!(y:(e) (z:a => uf_one(z)) => uf_one(y))) }
pub fn g_mg_k_ref() { r::drive(map(seq(E, map(A, |(z,)| (uf_one(z),))), |(y, _)| (uf_one(y),))) }
pub fn g_mg_l() { run(parser!((z:a => uf_one(z)) => uf_zero())) }
pub fn g_mg_l_ref() { r::drive(map(map(A, |(z,)| (uf_one(z),)), |(_,)| (uf_zero(),))) }
pub fn g_mg_m() { run(parser!({x:e => uf_one(x), y:(z:a => uf_one(z)) => uf_one(y)})) }
pub fn g_mg_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(map(A, |(z,)| (uf_one(z),)), |(y,)| (uf_one(y),)))) }
pub fn g_mg_n() { run(parser!({(z:a => uf_one(z)) => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_mg_n_ref() { r::drive(seq(alt(map(map(A, |(z,)| (uf_one(z),)), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_mg_o() { run(parser!(keep((z:a => uf_one(z))) e)) }
pub fn g_mg_o_ref() { r::drive(seq(map(A, |(z,)| (uf_one(z),)), E)) }
pub fn g_mg_p() { run(parser!(last(e, (z:a => uf_one(z))))) }
pub fn g_mg_p_ref() { r::drive(map(A, |(z,)| (uf_one(z),))) }
pub fn g_mg_q() { run(parser!(x:last((z:a => uf_one(z)), f,) y:e => uf_two(x, y))) }
pub fn g_mg_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mg_r() { run(parser!(rule q: V<9> = x:(z:a => uf_one(z)) => uf_one(x); q e)) }
pub fn g_mg_r_ref() { r::drive(seq(map(map(A, |(z,)| (uf_one(z),)), |(x,)| (uf_one(x),)), E)) }
pub fn g_mg_s() { run(parser!(((z:a => uf_one(z))) e)) }
pub fn g_mg_s_ref() { r::drive(seq(one(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mg_t() { run(parser!(((e) (z:a => uf_one(z))))) }
pub fn g_mg_t_ref() { r::drive(seq(E, map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mg_u() { run(parser!(rule q: V<9> = (z:a => uf_one(z)); e q)) }
pub fn g_mg_u_ref() { r::drive(seq(E, one(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgs_a() { run(parser!((z:a => uf_one(z))*)) }
pub fn g_mgs_a_ref() { r::drive(star(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgs_b() { run(parser!((z:a => uf_one(z))* e)) }
pub fn g_mgs_b_ref() { r::drive(seq(star(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgs_c() { run(parser!((e) (z:a => uf_one(z))*)) }
pub fn g_mgs_c_ref() { r::drive(seq(E, star(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgs_d() { run(parser!((e) (z:a => uf_one(z))* f)) }
pub fn g_mgs_d_ref() { r::drive(seq(E, seq(star(map(A, |(z,)| (uf_one(z),))), F))) }
pub fn g_mgs_e() { run(parser!(x:(z:a => uf_one(z))* => uf_one(x))) }
pub fn g_mgs_e_ref() { r::drive(map(star(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),))) }
pub fn g_mgs_f() { run(parser!(x:(z:a => uf_one(z))* y:e => uf_two(x, y))) }
pub fn g_mgs_f_ref() { r::drive(map(seq(star(map(A, |(z,)| (uf_one(z),))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgs_g() { run(parser!(y:e x:(z:a => uf_one(z))* => uf_two(y, x))) }
pub fn g_mgs_g_ref() { r::drive(map(seq(E, star(map(A, |(z,)| (uf_one(z),)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_mgs_h() { run(parser!(y:e x:(z:a => uf_one(z))* w:f => uf_three(y, x, w))) }
pub fn g_mgs_h_ref() { r::drive(map(seq(E, seq(star(map(A, |(z,)| (uf_one(z),))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_mgs_i() { run(parser!(e x:(z:a => uf_one(z))* f => uf_one(x))) }
pub fn g_mgs_i_ref() { r::drive(map(seq(E, seq(star(map(A, |(z,)| (uf_one(z),))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_mgs_j() { run(parser!((z:a => uf_one(z))* y:e => uf_one(y))) }
pub fn g_mgs_j_ref() { r::drive(map(seq(star(map(A, |(z,)| (uf_one(z),))), E), |(_, y)| (uf_one(y),))) }
pub fn g_mgs_k() { run(parser!(y:(e) (z:a => uf_one(z))* => uf_one(y))) }
pub fn g_mgs_k_ref() { r::drive(map(seq(E, star(map(A, |(z,)| (uf_one(z),)))), |(y, _)| (uf_one(y),))) }
pub fn g_mgs_l() { run(parser!((z:a => uf_one(z))* => uf_zero())) }
pub fn g_mgs_l_ref() { r::drive(map(star(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),))) }
pub fn g_mgs_m() { run(parser!({x:e => uf_one(x), y:(z:a => uf_one(z))* => uf_one(y)})) }
pub fn g_mgs_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(star(map(A, |(z,)| (uf_one(z),))), |(y,)| (uf_one(y),)))) }
pub fn g_mgs_n() { run(parser!({(z:a => uf_one(z))* => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_mgs_n_ref() { r::drive(seq(alt(map(star(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_mgs_o() { run(parser!(keep((z:a => uf_one(z))*) e)) }
pub fn g_mgs_o_ref() { r::drive(seq(star(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgs_p() { run(parser!(last(e, (z:a => uf_one(z))*))) }
pub fn g_mgs_p_ref() { r::drive(star(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgs_q() { run(parser!(x:last((z:a => uf_one(z))*, f,) y:e => uf_two(x, y))) }
pub fn g_mgs_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgs_r() { run(parser!(rule q: V<9> = x:(z:a => uf_one(z))* => uf_one(x); q e)) }
pub fn g_mgs_r_ref() { r::drive(seq(map(star(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),)), E)) }
pub fn g_mgs_s() { run(parser!(((z:a => uf_one(z))*) e)) }
pub fn g_mgs_s_ref() { r::drive(seq(one(star(map(A, |(z,)| (uf_one(z),)))), E)) }
pub fn g_mgs_t() { run(parser!(((e) (z:a => uf_one(z))*))) }
pub fn g_mgs_t_ref() { r::drive(seq(E, star(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgs_u() { run(parser!(rule q: Vec<V<9>> = (z:a => uf_one(z))*; e q)) }
pub fn g_mgs_u_ref() { r::drive(seq(E, one(star(map(A, |(z,)| (uf_one(z),)))))) }
pub fn g_mgp_a() { run(parser!((z:a => uf_one(z))+)) }
pub fn g_mgp_a_ref() { r::drive(plus(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgp_b() { run(parser!((z:a => uf_one(z))+ e)) }
pub fn g_mgp_b_ref() { r::drive(seq(plus(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgp_c() { run(parser!((e) (z:a => uf_one(z))+)) }
pub fn g_mgp_c_ref() { r::drive(seq(E, plus(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgp_d() { run(parser!((e) (z:a => uf_one(z))+ f)) }
pub fn g_mgp_d_ref() { r::drive(seq(E, seq(plus(map(A, |(z,)| (uf_one(z),))), F))) }
pub fn g_mgp_e() { run(parser!(x:(z:a => uf_one(z))+ => uf_one(x))) }
pub fn g_mgp_e_ref() { r::drive(map(plus(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),))) }
pub fn g_mgp_f() { run(parser!(x:(z:a => uf_one(z))+ y:e => uf_two(x, y))) }
pub fn g_mgp_f_ref() { r::drive(map(seq(plus(map(A, |(z,)| (uf_one(z),))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgp_g() { run(parser!(y:e x:(z:a => uf_one(z))+ => uf_two(y, x))) }
pub fn g_mgp_g_ref() { r::drive(map(seq(E, plus(map(A, |(z,)| (uf_one(z),)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_mgp_h() { run(parser!(y:e x:(z:a => uf_one(z))+ w:f => uf_three(y, x, w))) }
pub fn g_mgp_h_ref() { r::drive(map(seq(E, seq(plus(map(A, |(z,)| (uf_one(z),))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_mgp_i() { run(parser!(e x:(z:a => uf_one(z))+ f => uf_one(x))) }
pub fn g_mgp_i_ref() { r::drive(map(seq(E, seq(plus(map(A, |(z,)| (uf_one(z),))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_mgp_j() { run(parser!((z:a => uf_one(z))+ y:e => uf_one(y))) }
pub fn g_mgp_j_ref() { r::drive(map(seq(plus(map(A, |(z,)| (uf_one(z),))), E), |(_, y)| (uf_one(y),))) }
pub fn g_mgp_k() { run(parser!(y:(e) (z:a => uf_one(z))+ => uf_one(y))) }
pub fn g_mgp_k_ref() { r::drive(map(seq(E, plus(map(A, |(z,)| (uf_one(z),)))), |(y, _)| (uf_one(y),))) }
pub fn g_mgp_l() { run(parser!((z:a => uf_one(z))+ => uf_zero())) }
pub fn g_mgp_l_ref() { r::drive(map(plus(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),))) }
pub fn g_mgp_m() { run(parser!({x:e => uf_one(x), y:(z:a => uf_one(z))+ => uf_one(y)})) }
pub fn g_mgp_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(plus(map(A, |(z,)| (uf_one(z),))), |(y,)| (uf_one(y),)))) }
pub fn g_mgp_n() { run(parser!({(z:a => uf_one(z))+ => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_mgp_n_ref() { r::drive(seq(alt(map(plus(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_mgp_o() { run(parser!(keep((z:a => uf_one(z))+) e)) }
pub fn g_mgp_o_ref() { r::drive(seq(plus(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgp_p() { run(parser!(last(e, (z:a => uf_one(z))+))) }
pub fn g_mgp_p_ref() { r::drive(plus(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgp_q() { run(parser!(x:last((z:a => uf_one(z))+, f,) y:e => uf_two(x, y))) }
pub fn g_mgp_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgp_r() { run(parser!(rule q: V<9> = x:(z:a => uf_one(z))+ => uf_one(x); q e)) }
pub fn g_mgp_r_ref() { r::drive(seq(map(plus(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),)), E)) }
pub fn g_mgp_s() { run(parser!(((z:a => uf_one(z))+) e)) }
pub fn g_mgp_s_ref() { r::drive(seq(one(plus(map(A, |(z,)| (uf_one(z),)))), E)) }
pub fn g_mgp_t() { run(parser!(((e) (z:a => uf_one(z))+))) }
pub fn g_mgp_t_ref() { r::drive(seq(E, plus(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgp_u() { run(parser!(rule q: Vec<V<9>> = (z:a => uf_one(z))+; e q)) }
pub fn g_mgp_u_ref() { r::drive(seq(E, one(plus(map(A, |(z,)| (uf_one(z),)))))) }
pub fn g_mgo_a() { run(parser!((z:a => uf_one(z))?)) }
pub fn g_mgo_a_ref() { r::drive(opt(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgo_b() { run(parser!((z:a => uf_one(z))? e)) }
pub fn g_mgo_b_ref() { r::drive(seq(opt(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgo_c() { run(parser!((e) (z:a => uf_one(z))?)) }
pub fn g_mgo_c_ref() { r::drive(seq(E, opt(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgo_d() { run(parser!((e) (z:a => uf_one(z))? f)) }
pub fn g_mgo_d_ref() { r::drive(seq(E, seq(opt(map(A, |(z,)| (uf_one(z),))), F))) }
pub fn g_mgo_e() { run(parser!(x:(z:a => uf_one(z))? => uf_one(x))) }
pub fn g_mgo_e_ref() { r::drive(map(opt(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),))) }
pub fn g_mgo_f() { run(parser!(x:(z:a => uf_one(z))? y:e => uf_two(x, y))) }
pub fn g_mgo_f_ref() { r::drive(map(seq(opt(map(A, |(z,)| (uf_one(z),))), E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgo_g() { run(parser!(y:e x:(z:a => uf_one(z))? => uf_two(y, x))) }
pub fn g_mgo_g_ref() { r::drive(map(seq(E, opt(map(A, |(z,)| (uf_one(z),)))), |(y, x)| (uf_two(y, x),))) }
pub fn g_mgo_h() { run(parser!(y:e x:(z:a => uf_one(z))? w:f => uf_three(y, x, w))) }
pub fn g_mgo_h_ref() { r::drive(map(seq(E, seq(opt(map(A, |(z,)| (uf_one(z),))), F)), |(y, x, w)| (uf_three(y, x, w),))) }
pub fn g_mgo_i() { run(parser!(e x:(z:a => uf_one(z))? f => uf_one(x))) }
pub fn g_mgo_i_ref() { r::drive(map(seq(E, seq(opt(map(A, |(z,)| (uf_one(z),))), F)), |(_, x, _)| (uf_one(x),))) }
pub fn g_mgo_j() { run(parser!((z:a => uf_one(z))? y:e => uf_one(y))) }
pub fn g_mgo_j_ref() { r::drive(map(seq(opt(map(A, |(z,)| (uf_one(z),))), E), |(_, y)| (uf_one(y),))) }
pub fn g_mgo_k() { run(parser!(y:(e) (z:a => uf_one(z))? => uf_one(y))) }
pub fn g_mgo_k_ref() { r::drive(map(seq(E, opt(map(A, |(z,)| (uf_one(z),)))), |(y, _)| (uf_one(y),))) }
pub fn g_mgo_l() { run(parser!((z:a => uf_one(z))? => uf_zero())) }
pub fn g_mgo_l_ref() { r::drive(map(opt(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),))) }
pub fn g_mgo_m() { run(parser!({x:e => uf_one(x), y:(z:a => uf_one(z))? => uf_one(y)})) }
pub fn g_mgo_m_ref() { r::drive(alt(map(E, |(x,)| (uf_one(x),)), map(opt(map(A, |(z,)| (uf_one(z),))), |(y,)| (uf_one(y),)))) }
pub fn g_mgo_n() { run(parser!({(z:a => uf_one(z))? => uf_zero(), x:e => uf_one(x),} f)) }
pub fn g_mgo_n_ref() { r::drive(seq(alt(map(opt(map(A, |(z,)| (uf_one(z),))), |(_,)| (uf_zero(),)), map(E, |(x,)| (uf_one(x),))), F)) }
pub fn g_mgo_o() { run(parser!(keep((z:a => uf_one(z))?) e)) }
pub fn g_mgo_o_ref() { r::drive(seq(opt(map(A, |(z,)| (uf_one(z),))), E)) }
pub fn g_mgo_p() { run(parser!(last(e, (z:a => uf_one(z))?))) }
pub fn g_mgo_p_ref() { r::drive(opt(map(A, |(z,)| (uf_one(z),)))) }
pub fn g_mgo_q() { run(parser!(x:last((z:a => uf_one(z))?, f,) y:e => uf_two(x, y))) }
pub fn g_mgo_q_ref() { r::drive(map(seq(F, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_mgo_r() { run(parser!(rule q: V<9> = x:(z:a => uf_one(z))? => uf_one(x); q e)) }
pub fn g_mgo_r_ref() { r::drive(seq(map(opt(map(A, |(z,)| (uf_one(z),))), |(x,)| (uf_one(x),)), E)) }
pub fn g_mgo_s() { run(parser!(((z:a => uf_one(z))?) e)) }
pub fn g_mgo_s_ref() { r::drive(seq(one(opt(map(A, |(z,)| (uf_one(z),)))), E)) }
pub fn g_mgo_t() { run(parser!(((e) (z:a => uf_one(z))?))) }
pub fn g_mgo_t_ref() { r::drive(seq(E, opt(map(A, |(z,)| (uf_one(z),))))) }
pub fn g_mgo_u() { run(parser!(rule q: Option<V<9>> = (z:a => uf_one(z))?; e q)) }
pub fn g_mgo_u_ref() { r::drive(seq(E, one(opt(map(A, |(z,)| (uf_one(z),)))))) }
fn none() -> S<1> { sa }
fn pick10<P: Parser>(x0: P) -> P { x0 }
fn pick20<P: Parser, Q: Parser>(x0: P, x1: Q) -> P { x0 }
fn pick21<P: Parser, Q: Parser>(x0: P, x1: Q) -> Q { x1 }
fn pick30<P: Parser, Q: Parser, R: Parser>(x0: P, x1: Q, x2: R) -> P { x0 }
fn pick31<P: Parser, Q: Parser, R: Parser>(x0: P, x1: Q, x2: R) -> Q { x1 }
fn pick32<P: Parser, Q: Parser, R: Parser>(x0: P, x1: Q, x2: R) -> R { x2 }
fn pick40<P: Parser, Q: Parser, R: Parser, T: Parser>(x0: P, x1: Q, x2: R, x3: T) -> P { x0 }
fn pick41<P: Parser, Q: Parser, R: Parser, T: Parser>(x0: P, x1: Q, x2: R, x3: T) -> Q { x1 }
fn pick42<P: Parser, Q: Parser, R: Parser, T: Parser>(x0: P, x1: Q, x2: R, x3: T) -> R { x2 }
fn pick43<P: Parser, Q: Parser, R: Parser, T: Parser>(x0: P, x1: Q, x2: R, x3: T) -> T { x3 }
pub fn g_lb_0() { run(parser!(v:sa => uf_one((v,)))) }
pub fn g_lb_0_ref() { r::drive(map(SA, |(v,)| (uf_one((v,)),))) }
pub fn g_lb_1() { run(parser!(v:sa sb => uf_one((v,)))) }
pub fn g_lb_1_ref() { r::drive(map(seq(SA, SB), |(v, _)| (uf_one((v,)),))) }
pub fn g_lb_2() { run(parser!(sa w:sb => uf_one((w,)))) }
pub fn g_lb_2_ref() { r::drive(map(seq(SA, SB), |(_, w)| (uf_one((w,)),))) }
pub fn g_lb_3() { run(parser!(v:sa w:sb => uf_one((w, v,)))) }
pub fn g_lb_3_ref() { r::drive(map(seq(SA, SB), |(v, w)| (uf_one((w, v,)),))) }
pub fn g_lb_4() { run(parser!(v:sa sb sc => uf_one((v,)))) }
pub fn g_lb_4_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(v, _, _)| (uf_one((v,)),))) }
pub fn g_lb_5() { run(parser!(sa w:sb sc => uf_one((w,)))) }
pub fn g_lb_5_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(_, w, _)| (uf_one((w,)),))) }
pub fn g_lb_6() { run(parser!(v:sa w:sb sc => uf_one((w, v,)))) }
pub fn g_lb_6_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(v, w, _)| (uf_one((w, v,)),))) }
pub fn g_lb_7() { run(parser!(sa sb x:sc => uf_one((x,)))) }
pub fn g_lb_7_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(_, _, x)| (uf_one((x,)),))) }
pub fn g_lb_8() { run(parser!(v:sa sb x:sc => uf_one((x, v,)))) }
pub fn g_lb_8_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(v, _, x)| (uf_one((x, v,)),))) }
pub fn g_lb_9() { run(parser!(sa w:sb x:sc => uf_one((x, w,)))) }
pub fn g_lb_9_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(_, w, x)| (uf_one((x, w,)),))) }
pub fn g_lb_10() { run(parser!(v:sa w:sb x:sc => uf_one((x, w, v,)))) }
pub fn g_lb_10_ref() { r::drive(map(seq(SA, seq(SB, SC)), |(v, w, x)| (uf_one((x, w, v,)),))) }
pub fn g_lb_11() { run(parser!(v:sa sb sc sd => uf_one((v,)))) }
pub fn g_lb_11_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, _, _, _)| (uf_one((v,)),))) }
pub fn g_lb_12() { run(parser!(sa w:sb sc sd => uf_one((w,)))) }
pub fn g_lb_12_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, w, _, _)| (uf_one((w,)),))) }
pub fn g_lb_13() { run(parser!(v:sa w:sb sc sd => uf_one((w, v,)))) }
pub fn g_lb_13_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, w, _, _)| (uf_one((w, v,)),))) }
pub fn g_lb_14() { run(parser!(sa sb x:sc sd => uf_one((x,)))) }
pub fn g_lb_14_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, _, x, _)| (uf_one((x,)),))) }
pub fn g_lb_15() { run(parser!(v:sa sb x:sc sd => uf_one((x, v,)))) }
pub fn g_lb_15_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, _, x, _)| (uf_one((x, v,)),))) }
pub fn g_lb_16() { run(parser!(sa w:sb x:sc sd => uf_one((x, w,)))) }
pub fn g_lb_16_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, w, x, _)| (uf_one((x, w,)),))) }
pub fn g_lb_17() { run(parser!(v:sa w:sb x:sc sd => uf_one((x, w, v,)))) }
pub fn g_lb_17_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, w, x, _)| (uf_one((x, w, v,)),))) }
pub fn g_lb_18() { run(parser!(sa sb sc y:sd => uf_one((y,)))) }
pub fn g_lb_18_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, _, _, y)| (uf_one((y,)),))) }
pub fn g_lb_19() { run(parser!(v:sa sb sc y:sd => uf_one((y, v,)))) }
pub fn g_lb_19_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, _, _, y)| (uf_one((y, v,)),))) }
pub fn g_lb_20() { run(parser!(sa w:sb sc y:sd => uf_one((y, w,)))) }
pub fn g_lb_20_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, w, _, y)| (uf_one((y, w,)),))) }
pub fn g_lb_21() { run(parser!(v:sa w:sb sc y:sd => uf_one((y, w, v,)))) }
pub fn g_lb_21_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, w, _, y)| (uf_one((y, w, v,)),))) }
pub fn g_lb_22() { run(parser!(sa sb x:sc y:sd => uf_one((y, x,)))) }
pub fn g_lb_22_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, _, x, y)| (uf_one((y, x,)),))) }
pub fn g_lb_23() { run(parser!(v:sa sb x:sc y:sd => uf_one((y, x, v,)))) }
pub fn g_lb_23_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, _, x, y)| (uf_one((y, x, v,)),))) }
pub fn g_lb_24() { run(parser!(sa w:sb x:sc y:sd => uf_one((y, x, w,)))) }
pub fn g_lb_24_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(_, w, x, y)| (uf_one((y, x, w,)),))) }
pub fn g_lb_25() { run(parser!(v:sa w:sb x:sc y:sd => uf_one((y, x, w, v,)))) }
pub fn g_lb_25_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, SD))), |(v, w, x, y)| (uf_one((y, x, w, v,)),))) }
pub fn g_lb_26() { run(parser!(v:sa sb sc sd se => uf_one((v,)))) }
pub fn g_lb_26_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, _, _, _)| (uf_one((v,)),))) }
pub fn g_lb_27() { run(parser!(sa w:sb sc sd se => uf_one((w,)))) }
pub fn g_lb_27_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, _, _, _)| (uf_one((w,)),))) }
pub fn g_lb_28() { run(parser!(v:sa w:sb sc sd se => uf_one((w, v,)))) }
pub fn g_lb_28_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, _, _, _)| (uf_one((w, v,)),))) }
pub fn g_lb_29() { run(parser!(sa sb x:sc sd se => uf_one((x,)))) }
pub fn g_lb_29_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, x, _, _)| (uf_one((x,)),))) }
pub fn g_lb_30() { run(parser!(v:sa sb x:sc sd se => uf_one((x, v,)))) }
pub fn g_lb_30_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, x, _, _)| (uf_one((x, v,)),))) }
pub fn g_lb_31() { run(parser!(sa w:sb x:sc sd se => uf_one((x, w,)))) }
pub fn g_lb_31_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, x, _, _)| (uf_one((x, w,)),))) }
pub fn g_lb_32() { run(parser!(v:sa w:sb x:sc sd se => uf_one((x, w, v,)))) }
pub fn g_lb_32_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, x, _, _)| (uf_one((x, w, v,)),))) }
pub fn g_lb_33() { run(parser!(sa sb sc y:sd se => uf_one((y,)))) }
pub fn g_lb_33_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, _, y, _)| (uf_one((y,)),))) }
pub fn g_lb_34() { run(parser!(v:sa sb sc y:sd se => uf_one((y, v,)))) }
pub fn g_lb_34_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, _, y, _)| (uf_one((y, v,)),))) }
pub fn g_lb_35() { run(parser!(sa w:sb sc y:sd se => uf_one((y, w,)))) }
pub fn g_lb_35_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, _, y, _)| (uf_one((y, w,)),))) }
pub fn g_lb_36() { run(parser!(v:sa w:sb sc y:sd se => uf_one((y, w, v,)))) }
pub fn g_lb_36_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, _, y, _)| (uf_one((y, w, v,)),))) }
pub fn g_lb_37() { run(parser!(sa sb x:sc y:sd se => uf_one((y, x,)))) }
pub fn g_lb_37_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, x, y, _)| (uf_one((y, x,)),))) }
pub fn g_lb_38() { run(parser!(v:sa sb x:sc y:sd se => uf_one((y, x, v,)))) }
pub fn g_lb_38_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, x, y, _)| (uf_one((y, x, v,)),))) }
pub fn g_lb_39() { run(parser!(sa w:sb x:sc y:sd se => uf_one((y, x, w,)))) }
pub fn g_lb_39_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, x, y, _)| (uf_one((y, x, w,)),))) }
pub fn g_lb_40() { run(parser!(v:sa w:sb x:sc y:sd se => uf_one((y, x, w, v,)))) }
pub fn g_lb_40_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, x, y, _)| (uf_one((y, x, w, v,)),))) }
pub fn g_lb_41() { run(parser!(sa sb sc sd z:se => uf_one((z,)))) }
pub fn g_lb_41_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, _, _, z)| (uf_one((z,)),))) }
pub fn g_lb_42() { run(parser!(v:sa sb sc sd z:se => uf_one((z, v,)))) }
pub fn g_lb_42_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, _, _, z)| (uf_one((z, v,)),))) }
pub fn g_lb_43() { run(parser!(sa w:sb sc sd z:se => uf_one((z, w,)))) }
pub fn g_lb_43_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, _, _, z)| (uf_one((z, w,)),))) }
pub fn g_lb_44() { run(parser!(v:sa w:sb sc sd z:se => uf_one((z, w, v,)))) }
pub fn g_lb_44_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, _, _, z)| (uf_one((z, w, v,)),))) }
pub fn g_lb_45() { run(parser!(sa sb x:sc sd z:se => uf_one((z, x,)))) }
pub fn g_lb_45_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, x, _, z)| (uf_one((z, x,)),))) }
pub fn g_lb_46() { run(parser!(v:sa sb x:sc sd z:se => uf_one((z, x, v,)))) }
pub fn g_lb_46_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, x, _, z)| (uf_one((z, x, v,)),))) }
pub fn g_lb_47() { run(parser!(sa w:sb x:sc sd z:se => uf_one((z, x, w,)))) }
pub fn g_lb_47_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, x, _, z)| (uf_one((z, x, w,)),))) }
pub fn g_lb_48() { run(parser!(v:sa w:sb x:sc sd z:se => uf_one((z, x, w, v,)))) }
pub fn g_lb_48_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, x, _, z)| (uf_one((z, x, w, v,)),))) }
pub fn g_lb_49() { run(parser!(sa sb sc y:sd z:se => uf_one((z, y,)))) }
pub fn g_lb_49_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, _, y, z)| (uf_one((z, y,)),))) }
pub fn g_lb_50() { run(parser!(v:sa sb sc y:sd z:se => uf_one((z, y, v,)))) }
pub fn g_lb_50_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, _, y, z)| (uf_one((z, y, v,)),))) }
pub fn g_lb_51() { run(parser!(sa w:sb sc y:sd z:se => uf_one((z, y, w,)))) }
pub fn g_lb_51_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, _, y, z)| (uf_one((z, y, w,)),))) }
pub fn g_lb_52() { run(parser!(v:sa w:sb sc y:sd z:se => uf_one((z, y, w, v,)))) }
pub fn g_lb_52_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, _, y, z)| (uf_one((z, y, w, v,)),))) }
pub fn g_lb_53() { run(parser!(sa sb x:sc y:sd z:se => uf_one((z, y, x,)))) }
pub fn g_lb_53_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, _, x, y, z)| (uf_one((z, y, x,)),))) }
pub fn g_lb_54() { run(parser!(v:sa sb x:sc y:sd z:se => uf_one((z, y, x, v,)))) }
pub fn g_lb_54_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, _, x, y, z)| (uf_one((z, y, x, v,)),))) }
pub fn g_lb_55() { run(parser!(sa w:sb x:sc y:sd z:se => uf_one((z, y, x, w,)))) }
pub fn g_lb_55_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(_, w, x, y, z)| (uf_one((z, y, x, w,)),))) }
pub fn g_lb_56() { run(parser!(v:sa w:sb x:sc y:sd z:se => uf_one((z, y, x, w, v,)))) }
pub fn g_lb_56_ref() { r::drive(map(seq(SA, seq(SB, seq(SC, seq(SD, SE)))), |(v, w, x, y, z)| (uf_one((z, y, x, w, v,)),))) }
pub fn g_lb_57() { run(parser!(v:sa => uf_one((v,)))) }
pub fn g_lb_57_ref() { r::drive(map(SA, |(v,)| (uf_one((v,)),))) }
pub fn g_lb_58() { run(parser!(v:sa u2 => uf_one((v,)))) }
pub fn g_lb_58_ref() { r::drive(map(seq(SA, U2), |(v,)| (uf_one((v,)),))) }
pub fn g_lb_59() { run(parser!(sa w:u2 => uf_one((w,)))) }
pub fn g_lb_59_ref() { r::drive(map(seq(SA, U2), |(_,)| (uf_one(((),)),))) }
pub fn g_lb_60() { run(parser!(v:sa w:u2 => uf_one((w, v,)))) }
pub fn g_lb_60_ref() { r::drive(map(seq(SA, U2), |(v,)| (uf_one(((), v,)),))) }
pub fn g_lb_61() { run(parser!(v:sa u2 sc => uf_one((v,)))) }
pub fn g_lb_61_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(v, _)| (uf_one((v,)),))) }
pub fn g_lb_62() { run(parser!(sa w:u2 sc => uf_one((w,)))) }
pub fn g_lb_62_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_63() { run(parser!(v:sa w:u2 sc => uf_one((w, v,)))) }
pub fn g_lb_63_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(v, _)| (uf_one(((), v,)),))) }
pub fn g_lb_64() { run(parser!(sa u2 x:sc => uf_one((x,)))) }
pub fn g_lb_64_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_65() { run(parser!(v:sa u2 x:sc => uf_one((x, v,)))) }
pub fn g_lb_65_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(v, x)| (uf_one((x, v,)),))) }
pub fn g_lb_66() { run(parser!(sa w:u2 x:sc => uf_one((x, w,)))) }
pub fn g_lb_66_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_67() { run(parser!(v:sa w:u2 x:sc => uf_one((x, w, v,)))) }
pub fn g_lb_67_ref() { r::drive(map(seq(SA, seq(U2, SC)), |(v, x)| (uf_one((x, (), v,)),))) }
pub fn g_lb_68() { run(parser!(v:sa u2 sc u4 => uf_one((v,)))) }
pub fn g_lb_68_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, _)| (uf_one((v,)),))) }
pub fn g_lb_69() { run(parser!(sa w:u2 sc u4 => uf_one((w,)))) }
pub fn g_lb_69_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_70() { run(parser!(v:sa w:u2 sc u4 => uf_one((w, v,)))) }
pub fn g_lb_70_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, _)| (uf_one(((), v,)),))) }
pub fn g_lb_71() { run(parser!(sa u2 x:sc u4 => uf_one((x,)))) }
pub fn g_lb_71_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_72() { run(parser!(v:sa u2 x:sc u4 => uf_one((x, v,)))) }
pub fn g_lb_72_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, x)| (uf_one((x, v,)),))) }
pub fn g_lb_73() { run(parser!(sa w:u2 x:sc u4 => uf_one((x, w,)))) }
pub fn g_lb_73_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_74() { run(parser!(v:sa w:u2 x:sc u4 => uf_one((x, w, v,)))) }
pub fn g_lb_74_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, x)| (uf_one((x, (), v,)),))) }
pub fn g_lb_75() { run(parser!(sa u2 sc y:u4 => uf_one((y,)))) }
pub fn g_lb_75_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_76() { run(parser!(v:sa u2 sc y:u4 => uf_one((y, v,)))) }
pub fn g_lb_76_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, _)| (uf_one(((), v,)),))) }
pub fn g_lb_77() { run(parser!(sa w:u2 sc y:u4 => uf_one((y, w,)))) }
pub fn g_lb_77_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, _)| (uf_one(((), (),)),))) }
pub fn g_lb_78() { run(parser!(v:sa w:u2 sc y:u4 => uf_one((y, w, v,)))) }
pub fn g_lb_78_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, _)| (uf_one(((), (), v,)),))) }
pub fn g_lb_79() { run(parser!(sa u2 x:sc y:u4 => uf_one((y, x,)))) }
pub fn g_lb_79_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, x)| (uf_one(((), x,)),))) }
pub fn g_lb_80() { run(parser!(v:sa u2 x:sc y:u4 => uf_one((y, x, v,)))) }
pub fn g_lb_80_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, x)| (uf_one(((), x, v,)),))) }
pub fn g_lb_81() { run(parser!(sa w:u2 x:sc y:u4 => uf_one((y, x, w,)))) }
pub fn g_lb_81_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(_, x)| (uf_one(((), x, (),)),))) }
pub fn g_lb_82() { run(parser!(v:sa w:u2 x:sc y:u4 => uf_one((y, x, w, v,)))) }
pub fn g_lb_82_ref() { r::drive(map(seq(SA, seq(U2, seq(SC, U4))), |(v, x)| (uf_one(((), x, (), v,)),))) }
pub fn g_lb_83() { run(parser!(v:"ka" => uf_one((v,)))) }
pub fn g_lb_83_ref() { r::drive(map(lit("ka"), |_| (uf_one(((),)),))) }
pub fn g_lb_84() { run(parser!(v:"ka" sb => uf_one((v,)))) }
pub fn g_lb_84_ref() { r::drive(map(seq(lit("ka"), SB), |(_,)| (uf_one(((),)),))) }
pub fn g_lb_85() { run(parser!("ka" w:sb => uf_one((w,)))) }
pub fn g_lb_85_ref() { r::drive(map(seq(lit("ka"), SB), |(w,)| (uf_one((w,)),))) }
pub fn g_lb_86() { run(parser!(v:"ka" w:sb => uf_one((w, v,)))) }
pub fn g_lb_86_ref() { r::drive(map(seq(lit("ka"), SB), |(w,)| (uf_one((w, (),)),))) }
pub fn g_lb_87() { run(parser!(v:"ka" sb keep(sc) => uf_one((v,)))) }
pub fn g_lb_87_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_88() { run(parser!("ka" w:sb keep(sc) => uf_one((w,)))) }
pub fn g_lb_88_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(w, _)| (uf_one((w,)),))) }
pub fn g_lb_89() { run(parser!(v:"ka" w:sb keep(sc) => uf_one((w, v,)))) }
pub fn g_lb_89_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(w, _)| (uf_one((w, (),)),))) }
pub fn g_lb_90() { run(parser!("ka" sb x:keep(sc) => uf_one((x,)))) }
pub fn g_lb_90_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_91() { run(parser!(v:"ka" sb x:keep(sc) => uf_one((x, v,)))) }
pub fn g_lb_91_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_92() { run(parser!("ka" w:sb x:keep(sc) => uf_one((x, w,)))) }
pub fn g_lb_92_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(w, x)| (uf_one((x, w,)),))) }
pub fn g_lb_93() { run(parser!(v:"ka" w:sb x:keep(sc) => uf_one((x, w, v,)))) }
pub fn g_lb_93_ref() { r::drive(map(seq(lit("ka"), seq(SB, SC)), |(w, x)| (uf_one((x, w, (),)),))) }
pub fn g_lb_94() { run(parser!(v:u1 => uf_one((v,)))) }
pub fn g_lb_94_ref() { r::drive(map(U1, |_| (uf_one(((),)),))) }
pub fn g_lb_95() { run(parser!(v:u1 {(sb u2)} => uf_one((v,)))) }
pub fn g_lb_95_ref() { r::drive(map(seq(U1, seq(SB, U2)), |(_,)| (uf_one(((),)),))) }
pub fn g_lb_96() { run(parser!(u1 w:(sb u2) => uf_one((w,)))) }
pub fn g_lb_96_ref() { r::drive(map(seq(U1, seq(SB, U2)), |(w,)| (uf_one((w,)),))) }
pub fn g_lb_97() { run(parser!(v:u1 w:(sb u2) => uf_one((w, v,)))) }
pub fn g_lb_97_ref() { r::drive(map(seq(U1, seq(SB, U2)), |(w,)| (uf_one((w, (),)),))) }
pub fn g_lb_98() { run(parser!(v:u1 {(sb u2)} sc => uf_one((v,)))) }
pub fn g_lb_98_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_99() { run(parser!(u1 w:(sb u2) sc => uf_one((w,)))) }
pub fn g_lb_99_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(w, _)| (uf_one((w,)),))) }
pub fn g_lb_100() { run(parser!(v:u1 w:(sb u2) sc => uf_one((w, v,)))) }
pub fn g_lb_100_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(w, _)| (uf_one((w, (),)),))) }
pub fn g_lb_101() { run(parser!(u1 {(sb u2)} x:sc => uf_one((x,)))) }
pub fn g_lb_101_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_102() { run(parser!(v:u1 {(sb u2)} x:sc => uf_one((x, v,)))) }
pub fn g_lb_102_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_103() { run(parser!(u1 w:(sb u2) x:sc => uf_one((x, w,)))) }
pub fn g_lb_103_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(w, x)| (uf_one((x, w,)),))) }
pub fn g_lb_104() { run(parser!(v:u1 w:(sb u2) x:sc => uf_one((x, w, v,)))) }
pub fn g_lb_104_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), SC)), |(w, x)| (uf_one((x, w, (),)),))) }
pub fn g_lb_105() { run(parser!(v:u1 {(sb u2)} sc u4 => uf_one((v,)))) }
pub fn g_lb_105_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_106() { run(parser!(u1 w:(sb u2) sc u4 => uf_one((w,)))) }
pub fn g_lb_106_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, _)| (uf_one((w,)),))) }
pub fn g_lb_107() { run(parser!(v:u1 w:(sb u2) sc u4 => uf_one((w, v,)))) }
pub fn g_lb_107_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, _)| (uf_one((w, (),)),))) }
pub fn g_lb_108() { run(parser!(u1 {(sb u2)} x:sc u4 => uf_one((x,)))) }
pub fn g_lb_108_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_109() { run(parser!(v:u1 {(sb u2)} x:sc u4 => uf_one((x, v,)))) }
pub fn g_lb_109_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_110() { run(parser!(u1 w:(sb u2) x:sc u4 => uf_one((x, w,)))) }
pub fn g_lb_110_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, x)| (uf_one((x, w,)),))) }
pub fn g_lb_111() { run(parser!(v:u1 w:(sb u2) x:sc u4 => uf_one((x, w, v,)))) }
pub fn g_lb_111_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, x)| (uf_one((x, w, (),)),))) }
pub fn g_lb_112() { run(parser!(u1 {(sb u2)} sc y:u4 => uf_one((y,)))) }
pub fn g_lb_112_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_113() { run(parser!(v:u1 {(sb u2)} sc y:u4 => uf_one((y, v,)))) }
pub fn g_lb_113_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, _)| (uf_one(((), (),)),))) }
pub fn g_lb_114() { run(parser!(u1 w:(sb u2) sc y:u4 => uf_one((y, w,)))) }
pub fn g_lb_114_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, _)| (uf_one(((), w,)),))) }
pub fn g_lb_115() { run(parser!(v:u1 w:(sb u2) sc y:u4 => uf_one((y, w, v,)))) }
pub fn g_lb_115_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, _)| (uf_one(((), w, (),)),))) }
pub fn g_lb_116() { run(parser!(u1 {(sb u2)} x:sc y:u4 => uf_one((y, x,)))) }
pub fn g_lb_116_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, x)| (uf_one(((), x,)),))) }
pub fn g_lb_117() { run(parser!(v:u1 {(sb u2)} x:sc y:u4 => uf_one((y, x, v,)))) }
pub fn g_lb_117_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(_, x)| (uf_one(((), x, (),)),))) }
pub fn g_lb_118() { run(parser!(u1 w:(sb u2) x:sc y:u4 => uf_one((y, x, w,)))) }
pub fn g_lb_118_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, x)| (uf_one(((), x, w,)),))) }
pub fn g_lb_119() { run(parser!(v:u1 w:(sb u2) x:sc y:u4 => uf_one((y, x, w, v,)))) }
pub fn g_lb_119_ref() { r::drive(map(seq(U1, seq(seq(SB, U2), seq(SC, U4))), |(w, x)| (uf_one(((), x, w, (),)),))) }
pub fn g_lb_120() { run(parser!(v:string(sa) => uf_one((v,)))) }
pub fn g_lb_120_ref() { r::drive(map(text(SA), |(v,)| (uf_one((v,)),))) }
pub fn g_lb_121() { run(parser!(v:string(sa) 'b' => uf_one((v,)))) }
pub fn g_lb_121_ref() { r::drive(map(seq(text(SA), lit("b")), |(v,)| (uf_one((v,)),))) }
pub fn g_lb_122() { run(parser!(string(sa) w:'b' => uf_one((w,)))) }
pub fn g_lb_122_ref() { r::drive(map(seq(text(SA), lit("b")), |(_,)| (uf_one(((),)),))) }
pub fn g_lb_123() { run(parser!(v:string(sa) w:'b' => uf_one((w, v,)))) }
pub fn g_lb_123_ref() { r::drive(map(seq(text(SA), lit("b")), |(v,)| (uf_one(((), v,)),))) }
pub fn g_lb_124() { run(parser!(v:string(sa) 'b' sc? => uf_one((v,)))) }
pub fn g_lb_124_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(v, _)| (uf_one((v,)),))) }
pub fn g_lb_125() { run(parser!(string(sa) w:'b' sc? => uf_one((w,)))) }
pub fn g_lb_125_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(_, _)| (uf_one(((),)),))) }
pub fn g_lb_126() { run(parser!(v:string(sa) w:'b' sc? => uf_one((w, v,)))) }
pub fn g_lb_126_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(v, _)| (uf_one(((), v,)),))) }
pub fn g_lb_127() { run(parser!(string(sa) 'b' x:sc? => uf_one((x,)))) }
pub fn g_lb_127_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(_, x)| (uf_one((x,)),))) }
pub fn g_lb_128() { run(parser!(v:string(sa) 'b' x:sc? => uf_one((x, v,)))) }
pub fn g_lb_128_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(v, x)| (uf_one((x, v,)),))) }
pub fn g_lb_129() { run(parser!(string(sa) w:'b' x:sc? => uf_one((x, w,)))) }
pub fn g_lb_129_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(_, x)| (uf_one((x, (),)),))) }
pub fn g_lb_130() { run(parser!(v:string(sa) w:'b' x:sc? => uf_one((x, w, v,)))) }
pub fn g_lb_130_ref() { r::drive(map(seq(text(SA), seq(lit("b"), opt(SC))), |(v, x)| (uf_one((x, (), v,)),))) }
pub fn g_lb_131() { run(parser!(v:{sa, sh} => uf_one((v,)))) }
pub fn g_lb_131_ref() { r::drive(map(alt(SA, SH), |(v,)| (uf_one((v,)),))) }
pub fn g_lb_132() { run(parser!(v:{sa, sh} sb => uf_one((v,)))) }
pub fn g_lb_132_ref() { r::drive(map(seq(alt(SA, SH), SB), |(v, _)| (uf_one((v,)),))) }
pub fn g_lb_133() { run(parser!({sa, sh} w:sb => uf_one((w,)))) }
pub fn g_lb_133_ref() { r::drive(map(seq(alt(SA, SH), SB), |(_, w)| (uf_one((w,)),))) }
pub fn g_lb_134() { run(parser!(v:{sa, sh} w:sb => uf_one((w, v,)))) }
pub fn g_lb_134_ref() { r::drive(map(seq(alt(SA, SH), SB), |(v, w)| (uf_one((w, v,)),))) }
pub fn g_lb_135() { run(parser!(v:{sa, sh} sb {sc, sh} => uf_one((v,)))) }
pub fn g_lb_135_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(v, _, _)| (uf_one((v,)),))) }
pub fn g_lb_136() { run(parser!({sa, sh} w:sb {sc, sh} => uf_one((w,)))) }
pub fn g_lb_136_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(_, w, _)| (uf_one((w,)),))) }
pub fn g_lb_137() { run(parser!(v:{sa, sh} w:sb {sc, sh} => uf_one((w, v,)))) }
pub fn g_lb_137_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(v, w, _)| (uf_one((w, v,)),))) }
pub fn g_lb_138() { run(parser!({sa, sh} sb x:{sc, sh} => uf_one((x,)))) }
pub fn g_lb_138_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(_, _, x)| (uf_one((x,)),))) }
pub fn g_lb_139() { run(parser!(v:{sa, sh} sb x:{sc, sh} => uf_one((x, v,)))) }
pub fn g_lb_139_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(v, _, x)| (uf_one((x, v,)),))) }
pub fn g_lb_140() { run(parser!({sa, sh} w:sb x:{sc, sh} => uf_one((x, w,)))) }
pub fn g_lb_140_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(_, w, x)| (uf_one((x, w,)),))) }
pub fn g_lb_141() { run(parser!(v:{sa, sh} w:sb x:{sc, sh} => uf_one((x, w, v,)))) }
pub fn g_lb_141_ref() { r::drive(map(seq(alt(SA, SH), seq(SB, alt(SC, SH))), |(v, w, x)| (uf_one((x, w, v,)),))) }
pub fn g_cc_0() { run(parser!(sa sb)) }
pub fn g_cc_0_ref() { r::drive(seq(SA, SB)) }
pub fn g_cc_1() { run(parser!(sa u2)) }
pub fn g_cc_1_ref() { r::drive(seq(SA, U2)) }
pub fn g_cc_2() { run(parser!(sa "kb")) }
pub fn g_cc_2_ref() { r::drive(seq(SA, lit("kb"))) }
pub fn g_cc_3() { run(parser!(sa {(sb u2)})) }
pub fn g_cc_3_ref() { r::drive(seq(SA, seq(SB, U2))) }
pub fn g_cc_4() { run(parser!(u1 sb)) }
pub fn g_cc_4_ref() { r::drive(seq(U1, SB)) }
pub fn g_cc_5() { run(parser!(u1 {(sb u2)})) }
pub fn g_cc_5_ref() { r::drive(seq(U1, seq(SB, U2))) }
pub fn g_cc_6() { run(parser!("ka" sb)) }
pub fn g_cc_6_ref() { r::drive(seq(lit("ka"), SB)) }
pub fn g_cc_7() { run(parser!("ka" (sb u2))) }
pub fn g_cc_7_ref() { r::drive(seq(lit("ka"), seq(SB, U2))) }
pub fn g_cc_8() { run(parser!((sa u1) sb)) }
pub fn g_cc_8_ref() { r::drive(seq(seq(SA, U1), SB)) }
pub fn g_cc_9() { run(parser!((sa u1) u2)) }
pub fn g_cc_9_ref() { r::drive(seq(seq(SA, U1), U2)) }
pub fn g_cc_10() { run(parser!((sa u1) "kb")) }
pub fn g_cc_10_ref() { r::drive(seq(seq(SA, U1), lit("kb"))) }
pub fn g_cc_11() { run(parser!((sa u1) (sb u2))) }
pub fn g_cc_11_ref() { r::drive(seq(seq(SA, U1), seq(SB, U2))) }
pub fn g_cc_12() { run(parser!(sa sb sc)) }
pub fn g_cc_12_ref() { r::drive(seq(SA, seq(SB, SC))) }
pub fn g_cc_13() { run(parser!(sa sb u3)) }
pub fn g_cc_13_ref() { r::drive(seq(SA, seq(SB, U3))) }
pub fn g_cc_14() { run(parser!(sa sb "kc")) }
pub fn g_cc_14_ref() { r::drive(seq(SA, seq(SB, lit("kc")))) }
pub fn g_cc_15() { run(parser!(sa sb {(sc u3)})) }
pub fn g_cc_15_ref() { r::drive(seq(SA, seq(SB, seq(SC, U3)))) }
pub fn g_cc_16() { run(parser!(sa u2 sc)) }
pub fn g_cc_16_ref() { r::drive(seq(SA, seq(U2, SC))) }
pub fn g_cc_17() { run(parser!(sa u2 u3)) }
pub fn g_cc_17_ref() { r::drive(seq(SA, seq(U2, U3))) }
pub fn g_cc_18() { run(parser!(sa u2 "kc")) }
pub fn g_cc_18_ref() { r::drive(seq(SA, seq(U2, lit("kc")))) }
pub fn g_cc_19() { run(parser!(sa u2 {(sc u3)})) }
pub fn g_cc_19_ref() { r::drive(seq(SA, seq(U2, seq(SC, U3)))) }
pub fn g_cc_20() { run(parser!(sa "kb" sc)) }
pub fn g_cc_20_ref() { r::drive(seq(SA, seq(lit("kb"), SC))) }
pub fn g_cc_21() { run(parser!(sa "kb" u3)) }
pub fn g_cc_21_ref() { r::drive(seq(SA, seq(lit("kb"), U3))) }
pub fn g_cc_22() { run(parser!(sa {(sb u2)} sc)) }
pub fn g_cc_22_ref() { r::drive(seq(SA, seq(seq(SB, U2), SC))) }
pub fn g_cc_23() { run(parser!(sa {(sb u2)} u3)) }
pub fn g_cc_23_ref() { r::drive(seq(SA, seq(seq(SB, U2), U3))) }
pub fn g_cc_24() { run(parser!(sa {(sb u2)} (sc u3))) }
pub fn g_cc_24_ref() { r::drive(seq(SA, seq(seq(SB, U2), seq(SC, U3)))) }
pub fn g_cc_25() { run(parser!(u1 sb sc)) }
pub fn g_cc_25_ref() { r::drive(seq(U1, seq(SB, SC))) }
pub fn g_cc_26() { run(parser!(u1 sb u3)) }
pub fn g_cc_26_ref() { r::drive(seq(U1, seq(SB, U3))) }
pub fn g_cc_27() { run(parser!(u1 sb "kc")) }
pub fn g_cc_27_ref() { r::drive(seq(U1, seq(SB, lit("kc")))) }
pub fn g_cc_28() { run(parser!(u1 sb {(sc u3)})) }
pub fn g_cc_28_ref() { r::drive(seq(U1, seq(SB, seq(SC, U3)))) }
pub fn g_cc_29() { run(parser!(u1 u2 sc)) }
pub fn g_cc_29_ref() { r::drive(seq(U1, seq(U2, SC))) }
pub fn g_cc_30() { run(parser!(u1 u2 {(sc u3)})) }
pub fn g_cc_30_ref() { r::drive(seq(U1, seq(U2, seq(SC, U3)))) }
pub fn g_cc_31() { run(parser!(u1 "kb" sc)) }
pub fn g_cc_31_ref() { r::drive(seq(U1, seq(lit("kb"), SC))) }
pub fn g_cc_32() { run(parser!(u1 {(sb u2)} sc)) }
pub fn g_cc_32_ref() { r::drive(seq(U1, seq(seq(SB, U2), SC))) }
pub fn g_cc_33() { run(parser!(u1 {(sb u2)} u3)) }
pub fn g_cc_33_ref() { r::drive(seq(U1, seq(seq(SB, U2), U3))) }
pub fn g_cc_34() { run(parser!(u1 {(sb u2)} (sc u3))) }
pub fn g_cc_34_ref() { r::drive(seq(U1, seq(seq(SB, U2), seq(SC, U3)))) }
pub fn g_cc_35() { run(parser!("ka" sb sc)) }
pub fn g_cc_35_ref() { r::drive(seq(lit("ka"), seq(SB, SC))) }
pub fn g_cc_36() { run(parser!("ka" sb u3)) }
pub fn g_cc_36_ref() { r::drive(seq(lit("ka"), seq(SB, U3))) }
pub fn g_cc_37() { run(parser!("ka" u2 sc)) }
pub fn g_cc_37_ref() { r::drive(seq(lit("ka"), seq(U2, SC))) }
pub fn g_cc_38() { run(parser!((sa u1) sb sc)) }
pub fn g_cc_38_ref() { r::drive(seq(seq(SA, U1), seq(SB, SC))) }
pub fn g_cc_39() { run(parser!((sa u1) sb u3)) }
pub fn g_cc_39_ref() { r::drive(seq(seq(SA, U1), seq(SB, U3))) }
pub fn g_cc_40() { run(parser!((sa u1) sb {(sc u3)})) }
pub fn g_cc_40_ref() { r::drive(seq(seq(SA, U1), seq(SB, seq(SC, U3)))) }
pub fn g_cc_41() { run(parser!((sa u1) u2 sc)) }
pub fn g_cc_41_ref() { r::drive(seq(seq(SA, U1), seq(U2, SC))) }
pub fn g_cc_42() { run(parser!((sa u1) u2 u3)) }
pub fn g_cc_42_ref() { r::drive(seq(seq(SA, U1), seq(U2, U3))) }
pub fn g_cc_43() { run(parser!((sa u1) u2 {(sc u3)})) }
pub fn g_cc_43_ref() { r::drive(seq(seq(SA, U1), seq(U2, seq(SC, U3)))) }
pub fn g_cc_44() { run(parser!((sa u1) (sb u2) sc)) }
pub fn g_cc_44_ref() { r::drive(seq(seq(SA, U1), seq(seq(SB, U2), SC))) }
pub fn g_cc_45() { run(parser!((sa u1) (sb u2) u3)) }
pub fn g_cc_45_ref() { r::drive(seq(seq(SA, U1), seq(seq(SB, U2), U3))) }
pub fn g_cc_46() { run(parser!((sa u1) (sb u2) (sc u3))) }
pub fn g_cc_46_ref() { r::drive(seq(seq(SA, U1), seq(seq(SB, U2), seq(SC, U3)))) }
pub fn g_cc_47() { run(parser!(sa sb sc sd)) }
pub fn g_cc_47_ref() { r::drive(seq(SA, seq(SB, seq(SC, SD)))) }
pub fn g_cc_48() { run(parser!(sa sb sc u4)) }
pub fn g_cc_48_ref() { r::drive(seq(SA, seq(SB, seq(SC, U4)))) }
pub fn g_cc_49() { run(parser!(sa sb u3 sd)) }
pub fn g_cc_49_ref() { r::drive(seq(SA, seq(SB, seq(U3, SD)))) }
pub fn g_cc_50() { run(parser!(sa sb u3 u4)) }
pub fn g_cc_50_ref() { r::drive(seq(SA, seq(SB, seq(U3, U4)))) }
pub fn g_cc_51() { run(parser!(sa u2 sc sd)) }
pub fn g_cc_51_ref() { r::drive(seq(SA, seq(U2, seq(SC, SD)))) }
pub fn g_cc_52() { run(parser!(sa u2 sc u4)) }
pub fn g_cc_52_ref() { r::drive(seq(SA, seq(U2, seq(SC, U4)))) }
pub fn g_cc_53() { run(parser!(sa u2 u3 sd)) }
pub fn g_cc_53_ref() { r::drive(seq(SA, seq(U2, seq(U3, SD)))) }
pub fn g_cc_54() { run(parser!(sa u2 u3 u4)) }
pub fn g_cc_54_ref() { r::drive(seq(SA, seq(U2, seq(U3, U4)))) }
pub fn g_cc_55() { run(parser!(u1 sb sc sd)) }
pub fn g_cc_55_ref() { r::drive(seq(U1, seq(SB, seq(SC, SD)))) }
pub fn g_cc_56() { run(parser!(u1 sb sc u4)) }
pub fn g_cc_56_ref() { r::drive(seq(U1, seq(SB, seq(SC, U4)))) }
pub fn g_cc_57() { run(parser!(u1 sb u3 sd)) }
pub fn g_cc_57_ref() { r::drive(seq(U1, seq(SB, seq(U3, SD)))) }
pub fn g_cc_58() { run(parser!(u1 sb u3 u4)) }
pub fn g_cc_58_ref() { r::drive(seq(U1, seq(SB, seq(U3, U4)))) }
pub fn g_cc_59() { run(parser!(u1 u2 sc sd)) }
pub fn g_cc_59_ref() { r::drive(seq(U1, seq(U2, seq(SC, SD)))) }
pub fn g_cc_60() { run(parser!(u1 u2 sc u4)) }
pub fn g_cc_60_ref() { r::drive(seq(U1, seq(U2, seq(SC, U4)))) }
pub fn g_cc_61() { run(parser!(u1 u2 u3 sd)) }
pub fn g_cc_61_ref() { r::drive(seq(U1, seq(U2, seq(U3, SD)))) }
pub fn g_cc_62() { run(parser!(sa sb sc sd se)) }
pub fn g_cc_62_ref() { r::drive(seq(SA, seq(SB, seq(SC, seq(SD, SE))))) }
pub fn g_cc_63() { run(parser!(sa sb sc sd u5)) }
pub fn g_cc_63_ref() { r::drive(seq(SA, seq(SB, seq(SC, seq(SD, U5))))) }
pub fn g_cc_64() { run(parser!(sa sb sc u4 se)) }
pub fn g_cc_64_ref() { r::drive(seq(SA, seq(SB, seq(SC, seq(U4, SE))))) }
pub fn g_cc_65() { run(parser!(sa sb sc u4 u5)) }
pub fn g_cc_65_ref() { r::drive(seq(SA, seq(SB, seq(SC, seq(U4, U5))))) }
pub fn g_cc_66() { run(parser!(sa sb u3 sd se)) }
pub fn g_cc_66_ref() { r::drive(seq(SA, seq(SB, seq(U3, seq(SD, SE))))) }
pub fn g_cc_67() { run(parser!(sa sb u3 sd u5)) }
pub fn g_cc_67_ref() { r::drive(seq(SA, seq(SB, seq(U3, seq(SD, U5))))) }
pub fn g_cc_68() { run(parser!(sa sb u3 u4 se)) }
pub fn g_cc_68_ref() { r::drive(seq(SA, seq(SB, seq(U3, seq(U4, SE))))) }
pub fn g_cc_69() { run(parser!(sa sb u3 u4 u5)) }
pub fn g_cc_69_ref() { r::drive(seq(SA, seq(SB, seq(U3, seq(U4, U5))))) }
pub fn g_cc_70() { run(parser!(sa u2 sc sd se)) }
pub fn g_cc_70_ref() { r::drive(seq(SA, seq(U2, seq(SC, seq(SD, SE))))) }
pub fn g_cc_71() { run(parser!(sa u2 sc sd u5)) }
pub fn g_cc_71_ref() { r::drive(seq(SA, seq(U2, seq(SC, seq(SD, U5))))) }
pub fn g_cc_72() { run(parser!(sa u2 sc u4 se)) }
pub fn g_cc_72_ref() { r::drive(seq(SA, seq(U2, seq(SC, seq(U4, SE))))) }
pub fn g_cc_73() { run(parser!(sa u2 sc u4 u5)) }
pub fn g_cc_73_ref() { r::drive(seq(SA, seq(U2, seq(SC, seq(U4, U5))))) }
pub fn g_cc_74() { run(parser!(sa u2 u3 sd se)) }
pub fn g_cc_74_ref() { r::drive(seq(SA, seq(U2, seq(U3, seq(SD, SE))))) }
pub fn g_cc_75() { run(parser!(sa u2 u3 sd u5)) }
pub fn g_cc_75_ref() { r::drive(seq(SA, seq(U2, seq(U3, seq(SD, U5))))) }
pub fn g_cc_76() { run(parser!(sa u2 u3 u4 se)) }
pub fn g_cc_76_ref() { r::drive(seq(SA, seq(U2, seq(U3, seq(U4, SE))))) }
pub fn g_cc_77() { run(parser!(sa u2 u3 u4 u5)) }
pub fn g_cc_77_ref() { r::drive(seq(SA, seq(U2, seq(U3, seq(U4, U5))))) }
pub fn g_cc_78() { run(parser!(u1 sb sc sd se)) }
pub fn g_cc_78_ref() { r::drive(seq(U1, seq(SB, seq(SC, seq(SD, SE))))) }
pub fn g_cc_79() { run(parser!(u1 sb sc sd u5)) }
pub fn g_cc_79_ref() { r::drive(seq(U1, seq(SB, seq(SC, seq(SD, U5))))) }
pub fn g_cc_80() { run(parser!(u1 sb sc u4 se)) }
pub fn g_cc_80_ref() { r::drive(seq(U1, seq(SB, seq(SC, seq(U4, SE))))) }
pub fn g_cc_81() { run(parser!(u1 sb sc u4 u5)) }
pub fn g_cc_81_ref() { r::drive(seq(U1, seq(SB, seq(SC, seq(U4, U5))))) }
pub fn g_cc_82() { run(parser!(u1 sb u3 sd se)) }
pub fn g_cc_82_ref() { r::drive(seq(U1, seq(SB, seq(U3, seq(SD, SE))))) }
pub fn g_cc_83() { run(parser!(u1 sb u3 sd u5)) }
pub fn g_cc_83_ref() { r::drive(seq(U1, seq(SB, seq(U3, seq(SD, U5))))) }
pub fn g_cc_84() { run(parser!(u1 sb u3 u4 se)) }
pub fn g_cc_84_ref() { r::drive(seq(U1, seq(SB, seq(U3, seq(U4, SE))))) }
pub fn g_cc_85() { run(parser!(u1 sb u3 u4 u5)) }
pub fn g_cc_85_ref() { r::drive(seq(U1, seq(SB, seq(U3, seq(U4, U5))))) }
pub fn g_cc_86() { run(parser!(u1 u2 sc sd se)) }
pub fn g_cc_86_ref() { r::drive(seq(U1, seq(U2, seq(SC, seq(SD, SE))))) }
pub fn g_cc_87() { run(parser!(u1 u2 sc sd u5)) }
pub fn g_cc_87_ref() { r::drive(seq(U1, seq(U2, seq(SC, seq(SD, U5))))) }
pub fn g_cc_88() { run(parser!(u1 u2 sc u4 se)) }
pub fn g_cc_88_ref() { r::drive(seq(U1, seq(U2, seq(SC, seq(U4, SE))))) }
pub fn g_cc_89() { run(parser!(u1 u2 sc u4 u5)) }
pub fn g_cc_89_ref() { r::drive(seq(U1, seq(U2, seq(SC, seq(U4, U5))))) }
pub fn g_cc_90() { run(parser!(u1 u2 u3 sd se)) }
pub fn g_cc_90_ref() { r::drive(seq(U1, seq(U2, seq(U3, seq(SD, SE))))) }
pub fn g_cc_91() { run(parser!(u1 u2 u3 sd u5)) }
pub fn g_cc_91_ref() { r::drive(seq(U1, seq(U2, seq(U3, seq(SD, U5))))) }
pub fn g_cc_92() { run(parser!(u1 u2 u3 u4 se)) }
pub fn g_cc_92_ref() { r::drive(seq(U1, seq(U2, seq(U3, seq(U4, SE))))) }
pub fn g_cc_93() { run(parser!(a b c d e f)) }
pub fn g_cc_93_ref() { r::drive(seq(A, seq(B, seq(C, seq(D, seq(E, F)))))) }
pub fn g_cc_94() { run(parser!(a b c d e f g)) }
pub fn g_cc_94_ref() { r::drive(seq(A, seq(B, seq(C, seq(D, seq(E, seq(F, G))))))) }
pub fn g_cc_95() { run(parser!(a b c d e f g h)) }
pub fn g_cc_95_ref() { r::drive(seq(A, seq(B, seq(C, seq(D, seq(E, seq(F, seq(G, H)))))))) }
pub fn g_ga_0() { run(parser!({sa})) }
pub fn g_ga_0_ref() { r::drive(SA) }
pub fn g_ga_1() { run(parser!({sa,})) }
pub fn g_ga_1_ref() { r::drive(SA) }
pub fn g_ga_2() { run(parser!({sa} h)) }
pub fn g_ga_2_ref() { r::drive(seq(SA, H)) }
pub fn g_ga_3() { run(parser!({sa, sb})) }
pub fn g_ga_3_ref() { r::drive(alt(SA, SB)) }
pub fn g_ga_4() { run(parser!({sa, sb,})) }
pub fn g_ga_4_ref() { r::drive(alt(SA, SB)) }
pub fn g_ga_5() { run(parser!({sa, sb} h)) }
pub fn g_ga_5_ref() { r::drive(seq(alt(SA, SB), H)) }
pub fn g_ga_6() { run(parser!({sa, sb, sc})) }
pub fn g_ga_6_ref() { r::drive(alt(SA, alt(SB, SC))) }
pub fn g_ga_7() { run(parser!({sa, sb, sc,})) }
pub fn g_ga_7_ref() { r::drive(alt(SA, alt(SB, SC))) }
pub fn g_ga_8() { run(parser!({sa, sb, sc} h)) }
pub fn g_ga_8_ref() { r::drive(seq(alt(SA, alt(SB, SC)), H)) }
pub fn g_ga_9() { run(parser!({sa, sb, sc, sd})) }
pub fn g_ga_9_ref() { r::drive(alt(SA, alt(SB, alt(SC, SD)))) }
pub fn g_ga_10() { run(parser!({sa, sb, sc, sd,})) }
pub fn g_ga_10_ref() { r::drive(alt(SA, alt(SB, alt(SC, SD)))) }
pub fn g_ga_11() { run(parser!({sa, sb, sc, sd} h)) }
pub fn g_ga_11_ref() { r::drive(seq(alt(SA, alt(SB, alt(SC, SD))), H)) }
pub fn g_ga_12() { run(parser!({sa, sb, sc, sd, se})) }
pub fn g_ga_12_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, SE))))) }
pub fn g_ga_13() { run(parser!({sa, sb, sc, sd, se,})) }
pub fn g_ga_13_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, SE))))) }
pub fn g_ga_14() { run(parser!({sa, sb, sc, sd, se} h)) }
pub fn g_ga_14_ref() { r::drive(seq(alt(SA, alt(SB, alt(SC, alt(SD, SE)))), H)) }
pub fn g_ga_15() { run(parser!({sa, sb, sc, sd, se, sf})) }
pub fn g_ga_15_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, SF)))))) }
pub fn g_ga_16() { run(parser!({sa, sb, sc, sd, se, sf,})) }
pub fn g_ga_16_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, SF)))))) }
pub fn g_ga_17() { run(parser!({sa, sb, sc, sd, se, sf} h)) }
pub fn g_ga_17_ref() { r::drive(seq(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, SF))))), H)) }
pub fn g_ga_18() { run(parser!({sa, sb, sc, sd, se, sf, sg})) }
pub fn g_ga_18_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, alt(SF, SG))))))) }
pub fn g_ga_19() { run(parser!({sa, sb, sc, sd, se, sf, sg,})) }
pub fn g_ga_19_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, alt(SF, SG))))))) }
pub fn g_ga_20() { run(parser!({sa, sb, sc, sd, se, sf, sg} h)) }
pub fn g_ga_20_ref() { r::drive(seq(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, alt(SF, SG)))))), H)) }
pub fn g_ga_21() { run(parser!({v:sa => uf_one(v), sb => uf_zero()})) }
pub fn g_ga_21_ref() { r::drive(alt(map(SA, |(v,)| (uf_one(v),)), map(SB, |_| (uf_zero(),)))) }
pub fn g_ga_22() { run(parser!(a {sa u1, sb} h)) }
pub fn g_ga_22_ref() { r::drive(seq(A, seq(alt(seq(SA, U1), SB), H))) }
pub fn g_ga_23() { run(parser!({{sa, sg}, sb})) }
pub fn g_ga_23_ref() { r::drive(alt(alt(SA, SG), SB)) }
pub fn g_ga_24() { run(parser!({sa?,} h)) }
pub fn g_ga_24_ref() { r::drive(seq(opt(SA), H)) }
pub fn g_ga_25() { run(parser!({sa => uf_zero(), v:sb => uf_one(v)})) }
pub fn g_ga_25_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), map(SB, |(v,)| (uf_one(v),)))) }
pub fn g_ga_26() { run(parser!(a {sa, sb u2} h)) }
pub fn g_ga_26_ref() { r::drive(seq(A, seq(alt(SA, seq(SB, U2)), H))) }
pub fn g_ga_27() { run(parser!({sa, {sb, sg}})) }
pub fn g_ga_27_ref() { r::drive(alt(SA, alt(SB, SG))) }
pub fn g_ga_28() { run(parser!({sa?, sb?,} h)) }
pub fn g_ga_28_ref() { r::drive(seq(alt(opt(SA), opt(SB)), H)) }
pub fn g_ga_29() { run(parser!({v:sa => uf_one(v), sb => uf_zero(), sc => uf_zero()})) }
pub fn g_ga_29_ref() { r::drive(alt(map(SA, |(v,)| (uf_one(v),)), alt(map(SB, |_| (uf_zero(),)), map(SC, |_| (uf_zero(),))))) }
pub fn g_ga_30() { run(parser!(a {sa u1, sb, sc} h)) }
pub fn g_ga_30_ref() { r::drive(seq(A, seq(alt(seq(SA, U1), alt(SB, SC)), H))) }
pub fn g_ga_31() { run(parser!({{sa, sg}, sb, sc})) }
pub fn g_ga_31_ref() { r::drive(alt(alt(SA, SG), alt(SB, SC))) }
pub fn g_ga_32() { run(parser!({sa?,} h)) }
pub fn g_ga_32_ref() { r::drive(seq(opt(SA), H)) }
pub fn g_ga_33() { run(parser!({sa => uf_zero(), v:sb => uf_one(v), sc => uf_zero()})) }
pub fn g_ga_33_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |(v,)| (uf_one(v),)), map(SC, |_| (uf_zero(),))))) }
pub fn g_ga_34() { run(parser!(a {sa, sb u2, sc} h)) }
pub fn g_ga_34_ref() { r::drive(seq(A, seq(alt(SA, alt(seq(SB, U2), SC)), H))) }
pub fn g_ga_35() { run(parser!({sa, {sb, sg}, sc})) }
pub fn g_ga_35_ref() { r::drive(alt(SA, alt(alt(SB, SG), SC))) }
pub fn g_ga_36() { run(parser!({sa?, sb?,} h)) }
pub fn g_ga_36_ref() { r::drive(seq(alt(opt(SA), opt(SB)), H)) }
pub fn g_ga_37() { run(parser!({sa => uf_zero(), sb => uf_zero(), v:sc => uf_one(v)})) }
pub fn g_ga_37_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), map(SC, |(v,)| (uf_one(v),))))) }
pub fn g_ga_38() { run(parser!(a {sa, sb, sc u3} h)) }
pub fn g_ga_38_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, seq(SC, U3))), H))) }
pub fn g_ga_39() { run(parser!({sa, sb, {sc, sg}})) }
pub fn g_ga_39_ref() { r::drive(alt(SA, alt(SB, alt(SC, SG)))) }
pub fn g_ga_40() { run(parser!({sa?, sb?, sc?,} h)) }
pub fn g_ga_40_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), opt(SC))), H)) }
pub fn g_ga_41() { run(parser!({v:sa => uf_one(v), sb => uf_zero(), sc => uf_zero(), sd => uf_zero()})) }
pub fn g_ga_41_ref() { r::drive(alt(map(SA, |(v,)| (uf_one(v),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |_| (uf_zero(),)), map(SD, |_| (uf_zero(),)))))) }
pub fn g_ga_42() { run(parser!(a {sa u1, sb, sc, sd} h)) }
pub fn g_ga_42_ref() { r::drive(seq(A, seq(alt(seq(SA, U1), alt(SB, alt(SC, SD))), H))) }
pub fn g_ga_43() { run(parser!({{sa, sg}, sb, sc, sd})) }
pub fn g_ga_43_ref() { r::drive(alt(alt(SA, SG), alt(SB, alt(SC, SD)))) }
pub fn g_ga_44() { run(parser!({sa?,} h)) }
pub fn g_ga_44_ref() { r::drive(seq(opt(SA), H)) }
pub fn g_ga_45() { run(parser!({sa => uf_zero(), v:sb => uf_one(v), sc => uf_zero(), sd => uf_zero()})) }
pub fn g_ga_45_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |(v,)| (uf_one(v),)), alt(map(SC, |_| (uf_zero(),)), map(SD, |_| (uf_zero(),)))))) }
pub fn g_ga_46() { run(parser!(a {sa, sb u2, sc, sd} h)) }
pub fn g_ga_46_ref() { r::drive(seq(A, seq(alt(SA, alt(seq(SB, U2), alt(SC, SD))), H))) }
pub fn g_ga_47() { run(parser!({sa, {sb, sg}, sc, sd})) }
pub fn g_ga_47_ref() { r::drive(alt(SA, alt(alt(SB, SG), alt(SC, SD)))) }
pub fn g_ga_48() { run(parser!({sa?, sb?,} h)) }
pub fn g_ga_48_ref() { r::drive(seq(alt(opt(SA), opt(SB)), H)) }
pub fn g_ga_49() { run(parser!({sa => uf_zero(), sb => uf_zero(), v:sc => uf_one(v), sd => uf_zero()})) }
pub fn g_ga_49_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |(v,)| (uf_one(v),)), map(SD, |_| (uf_zero(),)))))) }
pub fn g_ga_50() { run(parser!(a {sa, sb, sc u3, sd} h)) }
pub fn g_ga_50_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, alt(seq(SC, U3), SD))), H))) }
pub fn g_ga_51() { run(parser!({sa, sb, {sc, sg}, sd})) }
pub fn g_ga_51_ref() { r::drive(alt(SA, alt(SB, alt(alt(SC, SG), SD)))) }
pub fn g_ga_52() { run(parser!({sa?, sb?, sc?,} h)) }
pub fn g_ga_52_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), opt(SC))), H)) }
pub fn g_ga_53() { run(parser!({sa => uf_zero(), sb => uf_zero(), sc => uf_zero(), v:sd => uf_one(v)})) }
pub fn g_ga_53_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |_| (uf_zero(),)), map(SD, |(v,)| (uf_one(v),)))))) }
pub fn g_ga_54() { run(parser!(a {sa, sb, sc, sd u4} h)) }
pub fn g_ga_54_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, alt(SC, seq(SD, U4)))), H))) }
pub fn g_ga_55() { run(parser!({sa, sb, sc, {sd, sg}})) }
pub fn g_ga_55_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, SG))))) }
pub fn g_ga_56() { run(parser!({sa?, sb?, sc?, sd?,} h)) }
pub fn g_ga_56_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), alt(opt(SC), opt(SD)))), H)) }
pub fn g_ga_57() { run(parser!({v:sa => uf_one(v), sb => uf_zero(), sc => uf_zero(), sd => uf_zero(), se => uf_zero()})) }
pub fn g_ga_57_ref() { r::drive(alt(map(SA, |(v,)| (uf_one(v),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |_| (uf_zero(),)), alt(map(SD, |_| (uf_zero(),)), map(SE, |_| (uf_zero(),))))))) }
pub fn g_ga_58() { run(parser!(a {sa u1, sb, sc, sd, se} h)) }
pub fn g_ga_58_ref() { r::drive(seq(A, seq(alt(seq(SA, U1), alt(SB, alt(SC, alt(SD, SE)))), H))) }
pub fn g_ga_59() { run(parser!({{sa, sg}, sb, sc, sd, se})) }
pub fn g_ga_59_ref() { r::drive(alt(alt(SA, SG), alt(SB, alt(SC, alt(SD, SE))))) }
pub fn g_ga_60() { run(parser!({sa?,} h)) }
pub fn g_ga_60_ref() { r::drive(seq(opt(SA), H)) }
pub fn g_ga_61() { run(parser!({sa => uf_zero(), v:sb => uf_one(v), sc => uf_zero(), sd => uf_zero(), se => uf_zero()})) }
pub fn g_ga_61_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |(v,)| (uf_one(v),)), alt(map(SC, |_| (uf_zero(),)), alt(map(SD, |_| (uf_zero(),)), map(SE, |_| (uf_zero(),))))))) }
pub fn g_ga_62() { run(parser!(a {sa, sb u2, sc, sd, se} h)) }
pub fn g_ga_62_ref() { r::drive(seq(A, seq(alt(SA, alt(seq(SB, U2), alt(SC, alt(SD, SE)))), H))) }
pub fn g_ga_63() { run(parser!({sa, {sb, sg}, sc, sd, se})) }
pub fn g_ga_63_ref() { r::drive(alt(SA, alt(alt(SB, SG), alt(SC, alt(SD, SE))))) }
pub fn g_ga_64() { run(parser!({sa?, sb?,} h)) }
pub fn g_ga_64_ref() { r::drive(seq(alt(opt(SA), opt(SB)), H)) }
pub fn g_ga_65() { run(parser!({sa => uf_zero(), sb => uf_zero(), v:sc => uf_one(v), sd => uf_zero(), se => uf_zero()})) }
pub fn g_ga_65_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |(v,)| (uf_one(v),)), alt(map(SD, |_| (uf_zero(),)), map(SE, |_| (uf_zero(),))))))) }
pub fn g_ga_66() { run(parser!(a {sa, sb, sc u3, sd, se} h)) }
pub fn g_ga_66_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, alt(seq(SC, U3), alt(SD, SE)))), H))) }
pub fn g_ga_67() { run(parser!({sa, sb, {sc, sg}, sd, se})) }
pub fn g_ga_67_ref() { r::drive(alt(SA, alt(SB, alt(alt(SC, SG), alt(SD, SE))))) }
pub fn g_ga_68() { run(parser!({sa?, sb?, sc?,} h)) }
pub fn g_ga_68_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), opt(SC))), H)) }
pub fn g_ga_69() { run(parser!({sa => uf_zero(), sb => uf_zero(), sc => uf_zero(), v:sd => uf_one(v), se => uf_zero()})) }
pub fn g_ga_69_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |_| (uf_zero(),)), alt(map(SD, |(v,)| (uf_one(v),)), map(SE, |_| (uf_zero(),))))))) }
pub fn g_ga_70() { run(parser!(a {sa, sb, sc, sd u4, se} h)) }
pub fn g_ga_70_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, alt(SC, alt(seq(SD, U4), SE)))), H))) }
pub fn g_ga_71() { run(parser!({sa, sb, sc, {sd, sg}, se})) }
pub fn g_ga_71_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(alt(SD, SG), SE))))) }
pub fn g_ga_72() { run(parser!({sa?, sb?, sc?, sd?,} h)) }
pub fn g_ga_72_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), alt(opt(SC), opt(SD)))), H)) }
pub fn g_ga_73() { run(parser!({sa => uf_zero(), sb => uf_zero(), sc => uf_zero(), sd => uf_zero(), v:se => uf_one(v)})) }
pub fn g_ga_73_ref() { r::drive(alt(map(SA, |_| (uf_zero(),)), alt(map(SB, |_| (uf_zero(),)), alt(map(SC, |_| (uf_zero(),)), alt(map(SD, |_| (uf_zero(),)), map(SE, |(v,)| (uf_one(v),))))))) }
pub fn g_ga_74() { run(parser!(a {sa, sb, sc, sd, se u5} h)) }
pub fn g_ga_74_ref() { r::drive(seq(A, seq(alt(SA, alt(SB, alt(SC, alt(SD, seq(SE, U5))))), H))) }
pub fn g_ga_75() { run(parser!({sa, sb, sc, sd, {se, sg}})) }
pub fn g_ga_75_ref() { r::drive(alt(SA, alt(SB, alt(SC, alt(SD, alt(SE, SG)))))) }
pub fn g_ga_76() { run(parser!({sa?, sb?, sc?, sd?, se?,} h)) }
pub fn g_ga_76_ref() { r::drive(seq(alt(opt(SA), alt(opt(SB), alt(opt(SC), alt(opt(SD), opt(SE))))), H)) }
pub fn g_ar_0() { run(parser!(none())) }
pub fn g_ar_0_ref() { r::drive(SA) }
pub fn g_ar_1() { run(parser!(none() e)) }
pub fn g_ar_1_ref() { r::drive(seq(SA, E)) }
pub fn g_ar_2() { run(parser!(x:none() y:e => uf_two(x, y))) }
pub fn g_ar_2_ref() { r::drive(map(seq(SA, E), |(x, y)| (uf_two(x, y),))) }
pub fn g_ar_3() { run(parser!(pick10(sa))) }
pub fn g_ar_3_ref() { r::drive(SA) }
pub fn g_ar_4() { run(parser!(pick10(sa,) e)) }
pub fn g_ar_4_ref() { r::drive(seq(SA, E)) }
pub fn g_ar_5() { run(parser!(h pick10(sa u2))) }
pub fn g_ar_5_ref() { r::drive(seq(H, seq(SA, U2))) }
pub fn g_ar_6() { run(parser!(h pick10({sa, sf}))) }
pub fn g_ar_6_ref() { r::drive(seq(H, alt(SA, SF))) }
pub fn g_ar_7() { run(parser!(h pick10(keep(sa)))) }
pub fn g_ar_7_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_8() { run(parser!(h pick10(v:sa => uf_one(v)))) }
pub fn g_ar_8_ref() { r::drive(seq(H, map(SA, |(v,)| (uf_one(v),)))) }
pub fn g_ar_9() { run(parser!(pick20(sa, sb))) }
pub fn g_ar_9_ref() { r::drive(SA) }
pub fn g_ar_10() { run(parser!(pick20(sa, sb,) e)) }
pub fn g_ar_10_ref() { r::drive(seq(SA, E)) }
pub fn g_ar_11() { run(parser!(h pick20(sa u2, sb))) }
pub fn g_ar_11_ref() { r::drive(seq(H, seq(SA, U2))) }
pub fn g_ar_12() { run(parser!(h pick20({sa, sf}, sb))) }
pub fn g_ar_12_ref() { r::drive(seq(H, alt(SA, SF))) }
pub fn g_ar_13() { run(parser!(h pick20(keep(sa), sb))) }
pub fn g_ar_13_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_14() { run(parser!(h pick20(v:sa => uf_one(v), sb))) }
pub fn g_ar_14_ref() { r::drive(seq(H, map(SA, |(v,)| (uf_one(v),)))) }
pub fn g_ar_15() { run(parser!(h pick20(sa, sb u2))) }
pub fn g_ar_15_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_16() { run(parser!(h pick20(sa, sb*))) }
pub fn g_ar_16_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_17() { run(parser!(h pick20(sa, {sb, sf}))) }
pub fn g_ar_17_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_18() { run(parser!(h pick20(sa, keep(sb)))) }
pub fn g_ar_18_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_19() { run(parser!(h pick20(sa, "k"))) }
pub fn g_ar_19_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_20() { run(parser!(h pick20(sa, v:sb => uf_one(v)))) }
pub fn g_ar_20_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_21() { run(parser!(pick21(sa, sb))) }
pub fn g_ar_21_ref() { r::drive(SB) }
pub fn g_ar_22() { run(parser!(pick21(sa, sb,) e)) }
pub fn g_ar_22_ref() { r::drive(seq(SB, E)) }
pub fn g_ar_23() { run(parser!(h pick21(sa u2, sb))) }
pub fn g_ar_23_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_24() { run(parser!(h pick21(sa*, sb))) }
pub fn g_ar_24_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_25() { run(parser!(h pick21({sa, sf}, sb))) }
pub fn g_ar_25_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_26() { run(parser!(h pick21(keep(sa), sb))) }
pub fn g_ar_26_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_27() { run(parser!(h pick21("k", sb))) }
pub fn g_ar_27_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_28() { run(parser!(h pick21(v:sa => uf_one(v), sb))) }
pub fn g_ar_28_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_29() { run(parser!(h pick21(sa, sb u2))) }
pub fn g_ar_29_ref() { r::drive(seq(H, seq(SB, U2))) }
pub fn g_ar_30() { run(parser!(h pick21(sa, {sb, sf}))) }
pub fn g_ar_30_ref() { r::drive(seq(H, alt(SB, SF))) }
pub fn g_ar_31() { run(parser!(h pick21(sa, keep(sb)))) }
pub fn g_ar_31_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_32() { run(parser!(h pick21(sa, v:sb => uf_one(v)))) }
pub fn g_ar_32_ref() { r::drive(seq(H, map(SB, |(v,)| (uf_one(v),)))) }
pub fn g_ar_33() { run(parser!(pick30(sa, sb, sc))) }
pub fn g_ar_33_ref() { r::drive(SA) }
pub fn g_ar_34() { run(parser!(pick30(sa, sb, sc,) e)) }
pub fn g_ar_34_ref() { r::drive(seq(SA, E)) }
pub fn g_ar_35() { run(parser!(h pick30(sa u2, sb, sc))) }
pub fn g_ar_35_ref() { r::drive(seq(H, seq(SA, U2))) }
pub fn g_ar_36() { run(parser!(h pick30({sa, sf}, sb, sc))) }
pub fn g_ar_36_ref() { r::drive(seq(H, alt(SA, SF))) }
pub fn g_ar_37() { run(parser!(h pick30(keep(sa), sb, sc))) }
pub fn g_ar_37_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_38() { run(parser!(h pick30(v:sa => uf_one(v), sb, sc))) }
pub fn g_ar_38_ref() { r::drive(seq(H, map(SA, |(v,)| (uf_one(v),)))) }
pub fn g_ar_39() { run(parser!(h pick30(sa, sb u2, sc))) }
pub fn g_ar_39_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_40() { run(parser!(h pick30(sa, sb*, sc))) }
pub fn g_ar_40_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_41() { run(parser!(h pick30(sa, {sb, sf}, sc))) }
pub fn g_ar_41_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_42() { run(parser!(h pick30(sa, keep(sb), sc))) }
pub fn g_ar_42_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_43() { run(parser!(h pick30(sa, "k", sc))) }
pub fn g_ar_43_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_44() { run(parser!(h pick30(sa, v:sb => uf_one(v), sc))) }
pub fn g_ar_44_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_45() { run(parser!(h pick30(sa, sb, sc u2))) }
pub fn g_ar_45_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_46() { run(parser!(h pick30(sa, sb, sc*))) }
pub fn g_ar_46_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_47() { run(parser!(h pick30(sa, sb, {sc, sf}))) }
pub fn g_ar_47_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_48() { run(parser!(h pick30(sa, sb, keep(sc)))) }
pub fn g_ar_48_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_49() { run(parser!(h pick30(sa, sb, "k"))) }
pub fn g_ar_49_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_50() { run(parser!(h pick30(sa, sb, v:sc => uf_one(v)))) }
pub fn g_ar_50_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_51() { run(parser!(pick31(sa, sb, sc))) }
pub fn g_ar_51_ref() { r::drive(SB) }
pub fn g_ar_52() { run(parser!(pick31(sa, sb, sc,) e)) }
pub fn g_ar_52_ref() { r::drive(seq(SB, E)) }
pub fn g_ar_53() { run(parser!(h pick31(sa u2, sb, sc))) }
pub fn g_ar_53_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_54() { run(parser!(h pick31(sa*, sb, sc))) }
pub fn g_ar_54_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_55() { run(parser!(h pick31({sa, sf}, sb, sc))) }
pub fn g_ar_55_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_56() { run(parser!(h pick31(keep(sa), sb, sc))) }
pub fn g_ar_56_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_57() { run(parser!(h pick31("k", sb, sc))) }
pub fn g_ar_57_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_58() { run(parser!(h pick31(v:sa => uf_one(v), sb, sc))) }
pub fn g_ar_58_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_59() { run(parser!(h pick31(sa, sb u2, sc))) }
pub fn g_ar_59_ref() { r::drive(seq(H, seq(SB, U2))) }
pub fn g_ar_60() { run(parser!(h pick31(sa, {sb, sf}, sc))) }
pub fn g_ar_60_ref() { r::drive(seq(H, alt(SB, SF))) }
pub fn g_ar_61() { run(parser!(h pick31(sa, keep(sb), sc))) }
pub fn g_ar_61_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_62() { run(parser!(h pick31(sa, v:sb => uf_one(v), sc))) }
pub fn g_ar_62_ref() { r::drive(seq(H, map(SB, |(v,)| (uf_one(v),)))) }
pub fn g_ar_63() { run(parser!(h pick31(sa, sb, sc u2))) }
pub fn g_ar_63_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_64() { run(parser!(h pick31(sa, sb, sc*))) }
pub fn g_ar_64_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_65() { run(parser!(h pick31(sa, sb, {sc, sf}))) }
pub fn g_ar_65_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_66() { run(parser!(h pick31(sa, sb, keep(sc)))) }
pub fn g_ar_66_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_67() { run(parser!(h pick31(sa, sb, "k"))) }
pub fn g_ar_67_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_68() { run(parser!(h pick31(sa, sb, v:sc => uf_one(v)))) }
pub fn g_ar_68_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_69() { run(parser!(pick32(sa, sb, sc))) }
pub fn g_ar_69_ref() { r::drive(SC) }
pub fn g_ar_70() { run(parser!(pick32(sa, sb, sc,) e)) }
pub fn g_ar_70_ref() { r::drive(seq(SC, E)) }
pub fn g_ar_71() { run(parser!(h pick32(sa u2, sb, sc))) }
pub fn g_ar_71_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_72() { run(parser!(h pick32(sa*, sb, sc))) }
pub fn g_ar_72_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_73() { run(parser!(h pick32({sa, sf}, sb, sc))) }
pub fn g_ar_73_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_74() { run(parser!(h pick32(keep(sa), sb, sc))) }
pub fn g_ar_74_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_75() { run(parser!(h pick32("k", sb, sc))) }
pub fn g_ar_75_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_76() { run(parser!(h pick32(v:sa => uf_one(v), sb, sc))) }
pub fn g_ar_76_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_77() { run(parser!(h pick32(sa, sb u2, sc))) }
pub fn g_ar_77_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_78() { run(parser!(h pick32(sa, sb*, sc))) }
pub fn g_ar_78_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_79() { run(parser!(h pick32(sa, {sb, sf}, sc))) }
pub fn g_ar_79_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_80() { run(parser!(h pick32(sa, keep(sb), sc))) }
pub fn g_ar_80_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_81() { run(parser!(h pick32(sa, "k", sc))) }
pub fn g_ar_81_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_82() { run(parser!(h pick32(sa, v:sb => uf_one(v), sc))) }
pub fn g_ar_82_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_83() { run(parser!(h pick32(sa, sb, sc u2))) }
pub fn g_ar_83_ref() { r::drive(seq(H, seq(SC, U2))) }
pub fn g_ar_84() { run(parser!(h pick32(sa, sb, {sc, sf}))) }
pub fn g_ar_84_ref() { r::drive(seq(H, alt(SC, SF))) }
pub fn g_ar_85() { run(parser!(h pick32(sa, sb, keep(sc)))) }
pub fn g_ar_85_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_86() { run(parser!(h pick32(sa, sb, v:sc => uf_one(v)))) }
pub fn g_ar_86_ref() { r::drive(seq(H, map(SC, |(v,)| (uf_one(v),)))) }
pub fn g_ar_87() { run(parser!(pick40(sa, sb, sc, sd))) }
pub fn g_ar_87_ref() { r::drive(SA) }
pub fn g_ar_88() { run(parser!(pick40(sa, sb, sc, sd,) e)) }
pub fn g_ar_88_ref() { r::drive(seq(SA, E)) }
pub fn g_ar_89() { run(parser!(h pick40(sa u2, sb, sc, sd))) }
pub fn g_ar_89_ref() { r::drive(seq(H, seq(SA, U2))) }
pub fn g_ar_90() { run(parser!(h pick40({sa, sf}, sb, sc, sd))) }
pub fn g_ar_90_ref() { r::drive(seq(H, alt(SA, SF))) }
pub fn g_ar_91() { run(parser!(h pick40(keep(sa), sb, sc, sd))) }
pub fn g_ar_91_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_92() { run(parser!(h pick40(v:sa => uf_one(v), sb, sc, sd))) }
pub fn g_ar_92_ref() { r::drive(seq(H, map(SA, |(v,)| (uf_one(v),)))) }
pub fn g_ar_93() { run(parser!(h pick40(sa, sb u2, sc, sd))) }
pub fn g_ar_93_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_94() { run(parser!(h pick40(sa, sb*, sc, sd))) }
pub fn g_ar_94_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_95() { run(parser!(h pick40(sa, {sb, sf}, sc, sd))) }
pub fn g_ar_95_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_96() { run(parser!(h pick40(sa, keep(sb), sc, sd))) }
pub fn g_ar_96_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_97() { run(parser!(h pick40(sa, "k", sc, sd))) }
pub fn g_ar_97_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_98() { run(parser!(h pick40(sa, v:sb => uf_one(v), sc, sd))) }
pub fn g_ar_98_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_99() { run(parser!(h pick40(sa, sb, sc u2, sd))) }
pub fn g_ar_99_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_100() { run(parser!(h pick40(sa, sb, sc*, sd))) }
pub fn g_ar_100_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_101() { run(parser!(h pick40(sa, sb, {sc, sf}, sd))) }
pub fn g_ar_101_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_102() { run(parser!(h pick40(sa, sb, keep(sc), sd))) }
pub fn g_ar_102_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_103() { run(parser!(h pick40(sa, sb, "k", sd))) }
pub fn g_ar_103_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_104() { run(parser!(h pick40(sa, sb, v:sc => uf_one(v), sd))) }
pub fn g_ar_104_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_105() { run(parser!(h pick40(sa, sb, sc, sd u2))) }
pub fn g_ar_105_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_106() { run(parser!(h pick40(sa, sb, sc, sd*))) }
pub fn g_ar_106_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_107() { run(parser!(h pick40(sa, sb, sc, {sd, sf}))) }
pub fn g_ar_107_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_108() { run(parser!(h pick40(sa, sb, sc, keep(sd)))) }
pub fn g_ar_108_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_109() { run(parser!(h pick40(sa, sb, sc, "k"))) }
pub fn g_ar_109_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_110() { run(parser!(h pick40(sa, sb, sc, v:sd => uf_one(v)))) }
pub fn g_ar_110_ref() { r::drive(seq(H, SA)) }
pub fn g_ar_111() { run(parser!(pick41(sa, sb, sc, sd))) }
pub fn g_ar_111_ref() { r::drive(SB) }
pub fn g_ar_112() { run(parser!(pick41(sa, sb, sc, sd,) e)) }
pub fn g_ar_112_ref() { r::drive(seq(SB, E)) }
pub fn g_ar_113() { run(parser!(h pick41(sa u2, sb, sc, sd))) }
pub fn g_ar_113_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_114() { run(parser!(h pick41(sa*, sb, sc, sd))) }
pub fn g_ar_114_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_115() { run(parser!(h pick41({sa, sf}, sb, sc, sd))) }
pub fn g_ar_115_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_116() { run(parser!(h pick41(keep(sa), sb, sc, sd))) }
pub fn g_ar_116_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_117() { run(parser!(h pick41("k", sb, sc, sd))) }
pub fn g_ar_117_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_118() { run(parser!(h pick41(v:sa => uf_one(v), sb, sc, sd))) }
pub fn g_ar_118_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_119() { run(parser!(h pick41(sa, sb u2, sc, sd))) }
pub fn g_ar_119_ref() { r::drive(seq(H, seq(SB, U2))) }
pub fn g_ar_120() { run(parser!(h pick41(sa, {sb, sf}, sc, sd))) }
pub fn g_ar_120_ref() { r::drive(seq(H, alt(SB, SF))) }
pub fn g_ar_121() { run(parser!(h pick41(sa, keep(sb), sc, sd))) }
pub fn g_ar_121_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_122() { run(parser!(h pick41(sa, v:sb => uf_one(v), sc, sd))) }
pub fn g_ar_122_ref() { r::drive(seq(H, map(SB, |(v,)| (uf_one(v),)))) }
pub fn g_ar_123() { run(parser!(h pick41(sa, sb, sc u2, sd))) }
pub fn g_ar_123_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_124() { run(parser!(h pick41(sa, sb, sc*, sd))) }
pub fn g_ar_124_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_125() { run(parser!(h pick41(sa, sb, {sc, sf}, sd))) }
pub fn g_ar_125_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_126() { run(parser!(h pick41(sa, sb, keep(sc), sd))) }
pub fn g_ar_126_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_127() { run(parser!(h pick41(sa, sb, "k", sd))) }
pub fn g_ar_127_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_128() { run(parser!(h pick41(sa, sb, v:sc => uf_one(v), sd))) }
pub fn g_ar_128_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_129() { run(parser!(h pick41(sa, sb, sc, sd u2))) }
pub fn g_ar_129_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_130() { run(parser!(h pick41(sa, sb, sc, sd*))) }
pub fn g_ar_130_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_131() { run(parser!(h pick41(sa, sb, sc, {sd, sf}))) }
pub fn g_ar_131_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_132() { run(parser!(h pick41(sa, sb, sc, keep(sd)))) }
pub fn g_ar_132_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_133() { run(parser!(h pick41(sa, sb, sc, "k"))) }
pub fn g_ar_133_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_134() { run(parser!(h pick41(sa, sb, sc, v:sd => uf_one(v)))) }
pub fn g_ar_134_ref() { r::drive(seq(H, SB)) }
pub fn g_ar_135() { run(parser!(pick42(sa, sb, sc, sd))) }
pub fn g_ar_135_ref() { r::drive(SC) }
pub fn g_ar_136() { run(parser!(pick42(sa, sb, sc, sd,) e)) }
pub fn g_ar_136_ref() { r::drive(seq(SC, E)) }
pub fn g_ar_137() { run(parser!(h pick42(sa u2, sb, sc, sd))) }
pub fn g_ar_137_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_138() { run(parser!(h pick42(sa*, sb, sc, sd))) }
pub fn g_ar_138_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_139() { run(parser!(h pick42({sa, sf}, sb, sc, sd))) }
pub fn g_ar_139_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_140() { run(parser!(h pick42(keep(sa), sb, sc, sd))) }
pub fn g_ar_140_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_141() { run(parser!(h pick42("k", sb, sc, sd))) }
pub fn g_ar_141_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_142() { run(parser!(h pick42(v:sa => uf_one(v), sb, sc, sd))) }
pub fn g_ar_142_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_143() { run(parser!(h pick42(sa, sb u2, sc, sd))) }
pub fn g_ar_143_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_144() { run(parser!(h pick42(sa, sb*, sc, sd))) }
pub fn g_ar_144_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_145() { run(parser!(h pick42(sa, {sb, sf}, sc, sd))) }
pub fn g_ar_145_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_146() { run(parser!(h pick42(sa, keep(sb), sc, sd))) }
pub fn g_ar_146_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_147() { run(parser!(h pick42(sa, "k", sc, sd))) }
pub fn g_ar_147_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_148() { run(parser!(h pick42(sa, v:sb => uf_one(v), sc, sd))) }
pub fn g_ar_148_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_149() { run(parser!(h pick42(sa, sb, sc u2, sd))) }
pub fn g_ar_149_ref() { r::drive(seq(H, seq(SC, U2))) }
pub fn g_ar_150() { run(parser!(h pick42(sa, sb, {sc, sf}, sd))) }
pub fn g_ar_150_ref() { r::drive(seq(H, alt(SC, SF))) }
pub fn g_ar_151() { run(parser!(h pick42(sa, sb, keep(sc), sd))) }
pub fn g_ar_151_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_152() { run(parser!(h pick42(sa, sb, v:sc => uf_one(v), sd))) }
pub fn g_ar_152_ref() { r::drive(seq(H, map(SC, |(v,)| (uf_one(v),)))) }
pub fn g_ar_153() { run(parser!(h pick42(sa, sb, sc, sd u2))) }
pub fn g_ar_153_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_154() { run(parser!(h pick42(sa, sb, sc, sd*))) }
pub fn g_ar_154_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_155() { run(parser!(h pick42(sa, sb, sc, {sd, sf}))) }
pub fn g_ar_155_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_156() { run(parser!(h pick42(sa, sb, sc, keep(sd)))) }
pub fn g_ar_156_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_157() { run(parser!(h pick42(sa, sb, sc, "k"))) }
pub fn g_ar_157_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_158() { run(parser!(h pick42(sa, sb, sc, v:sd => uf_one(v)))) }
pub fn g_ar_158_ref() { r::drive(seq(H, SC)) }
pub fn g_ar_159() { run(parser!(pick43(sa, sb, sc, sd))) }
pub fn g_ar_159_ref() { r::drive(SD) }
pub fn g_ar_160() { run(parser!(pick43(sa, sb, sc, sd,) e)) }
pub fn g_ar_160_ref() { r::drive(seq(SD, E)) }
pub fn g_ar_161() { run(parser!(h pick43(sa u2, sb, sc, sd))) }
pub fn g_ar_161_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_162() { run(parser!(h pick43(sa*, sb, sc, sd))) }
pub fn g_ar_162_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_163() { run(parser!(h pick43({sa, sf}, sb, sc, sd))) }
pub fn g_ar_163_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_164() { run(parser!(h pick43(keep(sa), sb, sc, sd))) }
pub fn g_ar_164_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_165() { run(parser!(h pick43("k", sb, sc, sd))) }
pub fn g_ar_165_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_166() { run(parser!(h pick43(v:sa => uf_one(v), sb, sc, sd))) }
pub fn g_ar_166_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_167() { run(parser!(h pick43(sa, sb u2, sc, sd))) }
pub fn g_ar_167_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_168() { run(parser!(h pick43(sa, sb*, sc, sd))) }
pub fn g_ar_168_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_169() { run(parser!(h pick43(sa, {sb, sf}, sc, sd))) }
pub fn g_ar_169_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_170() { run(parser!(h pick43(sa, keep(sb), sc, sd))) }
pub fn g_ar_170_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_171() { run(parser!(h pick43(sa, "k", sc, sd))) }
pub fn g_ar_171_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_172() { run(parser!(h pick43(sa, v:sb => uf_one(v), sc, sd))) }
pub fn g_ar_172_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_173() { run(parser!(h pick43(sa, sb, sc u2, sd))) }
pub fn g_ar_173_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_174() { run(parser!(h pick43(sa, sb, sc*, sd))) }
pub fn g_ar_174_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_175() { run(parser!(h pick43(sa, sb, {sc, sf}, sd))) }
pub fn g_ar_175_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_176() { run(parser!(h pick43(sa, sb, keep(sc), sd))) }
pub fn g_ar_176_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_177() { run(parser!(h pick43(sa, sb, "k", sd))) }
pub fn g_ar_177_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_178() { run(parser!(h pick43(sa, sb, v:sc => uf_one(v), sd))) }
pub fn g_ar_178_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_179() { run(parser!(h pick43(sa, sb, sc, sd u2))) }
pub fn g_ar_179_ref() { r::drive(seq(H, seq(SD, U2))) }
pub fn g_ar_180() { run(parser!(h pick43(sa, sb, sc, {sd, sf}))) }
pub fn g_ar_180_ref() { r::drive(seq(H, alt(SD, SF))) }
pub fn g_ar_181() { run(parser!(h pick43(sa, sb, sc, keep(sd)))) }
pub fn g_ar_181_ref() { r::drive(seq(H, SD)) }
pub fn g_ar_182() { run(parser!(h pick43(sa, sb, sc, v:sd => uf_one(v)))) }
pub fn g_ar_182_ref() { r::drive(seq(H, map(SD, |(v,)| (uf_one(v),)))) }
pub fn g_ru_0() { run(parser!(rule r0: V<0> = sa; r0)) }
pub fn g_ru_0_ref() { r::drive(SA) }
pub fn g_ru_1() { run(parser!(rule r0: V<0> = sa; {r0} h)) }
pub fn g_ru_1_ref() { r::drive(seq(SA, H)) }
pub fn g_ru_2() { run(parser!(rule r0: V<9> = v:sa w:sh => uf_two(v, w); e r0)) }
pub fn g_ru_2_ref() { r::drive(seq(E, map(seq(SA, SH), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_3() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; r0 r1)) }
pub fn g_ru_3_ref() { r::drive(seq(SA, SB)) }
pub fn g_ru_4() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; {r0, r1} h)) }
pub fn g_ru_4_ref() { r::drive(seq(alt(SA, SB), H)) }
pub fn g_ru_5() { run(parser!(rule r0: V<9> = v:sa w:keep(r1) => uf_two(v, w); rule r1: V<9> = v:sb w:sh => uf_two(v, w); e r0)) }
pub fn g_ru_5_ref() { r::drive(seq(E, map(seq(SA, map(seq(SB, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_6() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; r1 r0)) }
pub fn g_ru_6_ref() { r::drive(seq(SB, SA)) }
pub fn g_ru_7() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; {r1, r0} h)) }
pub fn g_ru_7_ref() { r::drive(seq(alt(SB, SA), H)) }
pub fn g_ru_8() { run(parser!(rule r0: V<9> = v:sa w:sh => uf_two(v, w); rule r1: V<9> = v:sb w:keep(r0) => uf_two(v, w); e r1)) }
pub fn g_ru_8_ref() { r::drive(seq(E, map(seq(SB, map(seq(SA, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_9() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r0 r1 r2)) }
pub fn g_ru_9_ref() { r::drive(seq(SA, seq(SB, SC))) }
pub fn g_ru_10() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r0, r1, r2} h)) }
pub fn g_ru_10_ref() { r::drive(seq(alt(SA, alt(SB, SC)), H)) }
pub fn g_ru_11() { run(parser!(rule r0: V<9> = v:sa w:keep(r1) => uf_two(v, w); rule r1: V<9> = v:sb w:keep(r2) => uf_two(v, w); rule r2: V<9> = v:sc w:sh => uf_two(v, w); e r0)) }
pub fn g_ru_11_ref() { r::drive(seq(E, map(seq(SA, map(seq(SB, map(seq(SC, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_12() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r0 r2 r1)) }
pub fn g_ru_12_ref() { r::drive(seq(SA, seq(SC, SB))) }
pub fn g_ru_13() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r0, r2, r1} h)) }
pub fn g_ru_13_ref() { r::drive(seq(alt(SA, alt(SC, SB)), H)) }
pub fn g_ru_14() { run(parser!(rule r0: V<9> = v:sa w:keep(r2) => uf_two(v, w); rule r1: V<9> = v:sb w:sh => uf_two(v, w); rule r2: V<9> = v:sc w:keep(r1) => uf_two(v, w); e r0)) }
pub fn g_ru_14_ref() { r::drive(seq(E, map(seq(SA, map(seq(SC, map(seq(SB, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_15() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r1 r0 r2)) }
pub fn g_ru_15_ref() { r::drive(seq(SB, seq(SA, SC))) }
pub fn g_ru_16() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r1, r0, r2} h)) }
pub fn g_ru_16_ref() { r::drive(seq(alt(SB, alt(SA, SC)), H)) }
pub fn g_ru_17() { run(parser!(rule r0: V<9> = v:sa w:keep(r2) => uf_two(v, w); rule r1: V<9> = v:sb w:keep(r0) => uf_two(v, w); rule r2: V<9> = v:sc w:sh => uf_two(v, w); e r1)) }
pub fn g_ru_17_ref() { r::drive(seq(E, map(seq(SB, map(seq(SA, map(seq(SC, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_18() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r1 r2 r0)) }
pub fn g_ru_18_ref() { r::drive(seq(SB, seq(SC, SA))) }
pub fn g_ru_19() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r1, r2, r0} h)) }
pub fn g_ru_19_ref() { r::drive(seq(alt(SB, alt(SC, SA)), H)) }
pub fn g_ru_20() { run(parser!(rule r0: V<9> = v:sa w:sh => uf_two(v, w); rule r1: V<9> = v:sb w:keep(r2) => uf_two(v, w); rule r2: V<9> = v:sc w:keep(r0) => uf_two(v, w); e r1)) }
pub fn g_ru_20_ref() { r::drive(seq(E, map(seq(SB, map(seq(SC, map(seq(SA, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_21() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r2 r0 r1)) }
pub fn g_ru_21_ref() { r::drive(seq(SC, seq(SA, SB))) }
pub fn g_ru_22() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r2, r0, r1} h)) }
pub fn g_ru_22_ref() { r::drive(seq(alt(SC, alt(SA, SB)), H)) }
pub fn g_ru_23() { run(parser!(rule r0: V<9> = v:sa w:keep(r1) => uf_two(v, w); rule r1: V<9> = v:sb w:sh => uf_two(v, w); rule r2: V<9> = v:sc w:keep(r0) => uf_two(v, w); e r2)) }
pub fn g_ru_23_ref() { r::drive(seq(E, map(seq(SC, map(seq(SA, map(seq(SB, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
pub fn g_ru_24() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; r2 r1 r0)) }
pub fn g_ru_24_ref() { r::drive(seq(SC, seq(SB, SA))) }
pub fn g_ru_25() { run(parser!(rule r0: V<0> = sa; rule r1: V<0> = sb; rule r2: V<0> = sc; {r2, r1, r0} h)) }
pub fn g_ru_25_ref() { r::drive(seq(alt(SC, alt(SB, SA)), H)) }
pub fn g_ru_26() { run(parser!(rule r0: V<9> = v:sa w:sh => uf_two(v, w); rule r1: V<9> = v:sb w:keep(r0) => uf_two(v, w); rule r2: V<9> = v:sc w:keep(r1) => uf_two(v, w); e r2)) }
pub fn g_ru_26_ref() { r::drive(seq(E, map(seq(SC, map(seq(SB, map(seq(SA, SH), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),))), |(v, w)| (uf_two(v, w),)))) }
