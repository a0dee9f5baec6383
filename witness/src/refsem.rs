//! The reference meaning of patterns: what properties.jsonl says, written down
//! as plainly as possible, independently of the library's own code.
//!
//! A `Ref` starts at `pos` in `src`, reports failures to `cx`, and yields
//! matches in order of preference. `ix` is the round of the enclosing
//! repetition (0 outside of repetitions).
use crate::sym::*;

/// Where errors go: the furthest one, the first met among equals.
#[derive(Clone, Copy)]
pub struct Cx {
    pub best: Option<(usize, &'static str, bool)>,
}
impl Cx {
    pub fn new() -> Cx { Cx { best: None } }
    pub fn report(&mut self, at: usize, tag: &'static str) { self.put(at, tag, false) }
    /// The failure of a literal: the report names it.
    pub fn report_lit(&mut self, at: usize, text: &'static str) { self.put(at, text, true) }
    fn put(&mut self, at: usize, tag: &'static str, is_lit: bool) {
        match self.best {
            None => self.best = Some((at, tag, is_lit)),
            Some((b, _, _)) => if at > b { self.best = Some((at, tag, is_lit)) },
        }
    }
}

pub trait Ref {
    type V;
    type It;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It>;
    fn end(&self, it: &Self::It) -> usize;
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool;
    fn conv(&self, it: &Self::It, src: &'static str) -> Self::V;
}

macro_rules! rleaf {
    ($name:ident, $v:ty, $report:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name<const N: usize>;
        impl<const N: usize> Ref for $name<N> {
            type V = $v;
            type It = Handle;
            fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Handle> {
                let r = rf_start(N, src, pos, ix);
                if $report {
                    match ev_failpos(N, src, pos, r.is_none()) {
                        Some(at) => cx.report(at, leaf_tag::<N>()),
                        None => {}
                    }
                }
                r
            }
            fn end(&self, it: &Handle) -> usize { ev_end(it) }
            fn back(&self, it: &mut Handle, cx: &mut Cx, src: &'static str) -> bool {
                let r = ev_back(it);
                if $report {
                    match ev_backpos(it) {
                        Some(at) => cx.report(at, leaf_tag::<N>()),
                        None => {}
                    }
                }
                r
            }
            fn conv(&self, it: &Handle, _src: &'static str) -> $v { ev_conv::<$v>(it) }
        }
    };
}
#[derive(Clone, Copy)]
pub struct RQ<const N: usize>;
impl<const N: usize> Ref for RQ<N> {
    type V = (V<N>,);
    type It = Handle;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Handle> {
        let r = rf_start(N, src, pos, ix);
        if r.is_none() { cx.report(pos, leaf_tag::<N>()) }
        r
    }
    fn end(&self, it: &Handle) -> usize { ev_end(it) }
    fn back(&self, it: &mut Handle, cx: &mut Cx, src: &'static str) -> bool { ev_back(it) }
    fn conv(&self, it: &Handle, _src: &'static str) -> (V<N>,) { ev_conv::<(V<N>,)>(it) }
}
#[derive(Clone, Copy)]
pub struct RK<const N: usize>;
impl<const N: usize> Ref for RK<N> {
    type V = (V<N>,);
    type It = Handle;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Handle> {
        let r = rf_start(N, src, pos, ix);
        if r.is_none() { cx.report(pos, leaf_tag::<N>()) }
        r
    }
    fn end(&self, it: &Handle) -> usize { ev_end(it) }
    fn back(&self, it: &mut Handle, cx: &mut Cx, src: &'static str) -> bool { ev_back(it) }
    fn conv(&self, it: &Handle, _src: &'static str) -> (V<N>,) { ev_conv::<(V<N>,)>(it) }
}
#[derive(Clone, Copy)]
pub struct RSK<const N: usize>;
impl<const N: usize> Ref for RSK<N> {
    type V = (V<0>,);
    type It = Handle;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Handle> {
        let r = rf_start(N, src, pos, ix);
        if r.is_none() { cx.report(pos, leaf_tag::<N>()) }
        r
    }
    fn end(&self, it: &Handle) -> usize { ev_end(it) }
    fn back(&self, it: &mut Handle, cx: &mut Cx, src: &'static str) -> bool { ev_back(it) }
    fn conv(&self, it: &Handle, _src: &'static str) -> (V<0>,) { ev_conv::<(V<0>,)>(it) }
}
// their values are raw tuples
rleaf!(RL, (V<N>,), false);
rleaf!(RU, (), false);
rleaf!(RT2, (V<N>, V<N>), false);
rleaf!(RT3, (V<N>, V<N>, V<N>), false);
rleaf!(RR, (V<N>,), true);
rleaf!(RS, (V<0>,), false);
rleaf!(RSR, (V<0>,), true);

/// A leaf's user value (what `Parser::Output` is).
pub trait User { type U; fn user(self) -> Self::U; }
impl User for () { type U = (); fn user(self) {} }
impl<A> User for (A,) { type U = A; fn user(self) -> A { self.0 } }
impl<A, B> User for (A, B) { type U = (A, B); fn user(self) -> (A, B) { self } }
impl<A, B, C> User for (A, B, C) { type U = (A, B, C); fn user(self) -> (A, B, C) { self } }
impl<A, B, C, D> User for (A, B, C, D) { type U = Self; fn user(self) -> Self { self } }
impl<A, B, C, D, E> User for (A, B, C, D, E) { type U = Self; fn user(self) -> Self { self } }
impl<A, B, C, D, E, F> User for (A, B, C, D, E, F) { type U = Self; fn user(self) -> Self { self } }
impl<A, B, C, D, E, F, G> User for (A, B, C, D, E, F, G) { type U = Self; fn user(self) -> Self { self } }
impl<A, B, C, D, E, F, G, H> User for (A, B, C, D, E, F, G, H) { type U = Self; fn user(self) -> Self { self } }

/// p then q; `J` says what becomes of the two values.
pub trait Join<A, B> { type V; fn join(a: A, b: B) -> Self::V; }
#[derive(Clone, Copy)]
pub struct Seq<P, Q, J>(pub P, pub Q, pub J);
impl<P: Ref, Q: Ref, J: Join<P::V, Q::V>> Seq<P, Q, J> {
    fn later(&self, a: &mut P::It, cx: &mut Cx, src: &'static str, ix: usize) -> Option<Q::It> {
        loop {
            match self.1.start(cx, src, self.0.end(a), ix) {
                Some(b) => return Some(b),
                None => if !self.0.back(a, cx, src) { return None },
            }
        }
    }
}
impl<P: Ref, Q: Ref, J: Join<P::V, Q::V>> Ref for Seq<P, Q, J> {
    type V = J::V;
    type It = (P::It, Q::It, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It> {
        match self.0.start(cx, src, pos, ix) {
            None => None,
            Some(mut a) => match self.later(&mut a, cx, src, ix) {
                None => None,
                Some(b) => Some((a, b, ix)),
            },
        }
    }
    fn end(&self, it: &Self::It) -> usize { self.1.end(&it.1) }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool {
        if self.1.back(&mut it.1, cx, src) { return true }
        if !self.0.back(&mut it.0, cx, src) { return false }
        match self.later(&mut it.0, cx, src, it.2) {
            None => false,
            Some(b) => { it.1 = b; true }
        }
    }
    fn conv(&self, it: &Self::It, src: &'static str) -> J::V {
        let a = self.0.conv(&it.0, src);
        let b = self.1.conv(&it.1, src);
        J::join(a, b)
    }
}
/// Flat concatenation of raw tuples.
#[derive(Clone, Copy)]
pub struct Flat;
macro_rules! flat {
    ($(($($a:ident)*) ($($b:ident)*);)*) => { $(
        #[allow(non_snake_case)]
        impl<$($a,)* $($b,)*> Join<($($a,)*), ($($b,)*)> for Flat {
            type V = ($($a,)* $($b,)*);
            fn join(($($a,)*): ($($a,)*), ($($b,)*): ($($b,)*)) -> Self::V { ($($a,)* $($b,)*) }
        }
    )* };
}
flat! {
    () (); () (A); () (A B); () (A B C); () (A B C D); () (A B C D E); () (A B C D E F);
    (A) (B C D E F); (A) (B C D E F G); (A) (B C D E F G H);
    (A) (); (A) (B); (A) (B C); (A) (B C D); (A) (B C D E);
    (A B) (); (A B) (C); (A B) (C D); (A B) (C D E); (A B) (C D E F);
    (A B C) (); (A B C) (D); (A B C) (D E); (A B C) (D E F);
    (A B C D) (); (A B C D) (E);
    (A B C D E) (); (A B C D E) (F);
}
/// A pair of user values.
#[derive(Clone, Copy)]
pub struct Pair;
impl<A: User, B: User> Join<A, B> for Pair {
    type V = (A::U, B::U);
    fn join(a: A, b: B) -> Self::V { (a.user(), b.user()) }
}

/// p, and after all of p's matches q. The values are joined by `F`.
pub trait Either<A, B> { type V; fn left(a: A) -> Self::V; fn right(b: B) -> Self::V; }
#[derive(Clone, Copy)]
pub struct Alt<P, Q, F>(pub P, pub Q, pub F);
pub struct AltIt<A, B> { pos: usize, ix: usize, first: Option<A>, second: Option<B> }
impl<P: Ref, Q: Ref, F: Either<P::V, Q::V>> Ref for Alt<P, Q, F> {
    type V = F::V;
    type It = AltIt<P::It, Q::It>;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It> {
        match self.0.start(cx, src, pos, ix) {
            Some(a) => Some(AltIt { pos, ix, first: Some(a), second: None }),
            None => match self.1.start(cx, src, pos, ix) {
                Some(b) => Some(AltIt { pos, ix, first: None, second: Some(b) }),
                None => None,
            },
        }
    }
    fn end(&self, it: &Self::It) -> usize {
        match (&it.first, &it.second) {
            (Some(a), _) => self.0.end(a),
            (None, Some(b)) => self.1.end(b),
            (None, None) => loop {},
        }
    }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool {
        if let Some(a) = &mut it.first {
            if self.0.back(a, cx, src) { return true }
            it.first = None;
            it.second = self.1.start(cx, src, it.pos, it.ix);
            return it.second.is_some();
        }
        match &mut it.second {
            Some(b) => self.1.back(b, cx, src),
            None => false,
        }
    }
    fn conv(&self, it: &Self::It, src: &'static str) -> F::V {
        match (&it.first, &it.second) {
            (Some(a), _) => F::left(self.0.conv(a, src)),
            (None, Some(b)) => F::right(self.1.conv(b, src)),
            (None, None) => loop {},
        }
    }
}
/// { p, q }: a single value
#[derive(Clone, Copy)]
pub struct OneOf;
impl<A: User, B: User<U = A::U>> Either<A, B> for OneOf {
    type V = (A::U,);
    fn left(a: A) -> Self::V { (a.user(),) }
    fn right(b: B) -> Self::V { (b.user(),) }
}
/// p?
#[derive(Clone, Copy)]
pub struct Maybe;
impl<A: User> Either<A, ()> for Maybe {
    type V = (Option<A::U>,);
    fn left(a: A) -> Self::V { (Some(a.user()),) }
    fn right(_: ()) -> Self::V { (None,) }
}
pub fn opt<P>(p: P) -> Alt<P, Nothing, Maybe> { Alt(p, Nothing, Maybe) }

/// The empty match.
#[derive(Clone, Copy)]
pub struct Nothing;
impl Ref for Nothing {
    type V = ();
    type It = usize;
    fn start(&self, _cx: &mut Cx, _src: &'static str, pos: usize, _ix: usize) -> Option<usize> { Some(pos) }
    fn end(&self, it: &usize) -> usize { *it }
    fn back(&self, _it: &mut usize, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, _it: &usize, _src: &'static str) {}
}

/// p, sep, p, sep, …, p, at least `2` times p.
#[derive(Clone, Copy)]
pub struct Rep<P, S>(pub P, pub S, pub usize);
pub struct RepIt<A, B> {
    pos: usize,
    /// p and the sep after it
    rounds: Vec<(A, B)>,
    /// p with no sep after it
    last: Option<A>,
}
impl<P: Ref, S: Ref> Rep<P, S> where P::V: User {
    fn round_end(&self, it: &RepIt<P::It, S::It>, n: usize) -> usize {
        if n == 0 { it.pos } else { self.1.end(&it.rounds[n - 1].1) }
    }
    fn extend(&self, it: &mut RepIt<P::It, S::It>, cx: &mut Cx, src: &'static str) {
        loop {
            let n = it.rounds.len();
            let at = self.round_end(it, n);
            if it.last.is_none() {
                // a round that consumed nothing is the last one
                if n > 0 && at == self.round_end(it, n - 1) { note("empty round"); return }
                it.last = self.0.start(cx, src, at, n);
            }
            match it.last.take() {
                None => return,
                Some(a) => match self.1.start(cx, src, self.0.end(&a), n) {
                    None => { it.last = Some(a); return }
                    Some(b) => it.rounds.push((a, b)),
                },
            }
        }
    }
    fn is_match(&self, it: &RepIt<P::It, S::It>) -> bool {
        match it.last {
            Some(_) => it.rounds.len() + 1 >= self.2,
            None => it.rounds.len() == 0 && self.2 == 0,
        }
    }
    fn shorter(&self, it: &mut RepIt<P::It, S::It>, cx: &mut Cx, src: &'static str) -> bool {
        note("");
        loop {
            if let Some(a) = &mut it.last {
                if self.0.back(a, cx, src) { self.extend(it, cx, src) } else { it.last = None }
            } else {
                match it.rounds.pop() {
                    None => return false,
                    Some((a, mut b)) => if self.1.back(&mut b, cx, src) {
                        it.rounds.push((a, b));
                        self.extend(it, cx, src)
                    } else {
                        it.last = Some(a)
                    },
                }
            }
            if self.is_match(it) { return true }
        }
    }
}
impl<P: Ref, S: Ref> Ref for Rep<P, S> where P::V: User {
    type V = (Vec<<P::V as User>::U>,);
    type It = RepIt<P::It, S::It>;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        let mut it = RepIt { pos, rounds: Vec::new(), last: None };
        self.extend(&mut it, cx, src);
        if self.is_match(&it) || self.shorter(&mut it, cx, src) { Some(it) } else { None }
    }
    fn end(&self, it: &Self::It) -> usize {
        match &it.last {
            Some(a) => self.0.end(a),
            None => self.round_end(it, it.rounds.len()),
        }
    }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool { self.shorter(it, cx, src) }
    fn conv(&self, it: &Self::It, src: &'static str) -> Self::V {
        let mut v = Vec::new();
        let mut k = 0;
        while k < it.rounds.len() {
            v.push(self.0.conv(&it.rounds[k].0, src).user());
            k += 1;
        }
        if let Some(a) = &it.last { v.push(self.0.conv(a, src).user()) }
        (v,)
    }
}

/// line(p)
#[derive(Clone, Copy)]
pub struct Line<P>(pub P);
/// section(p)
#[derive(Clone, Copy)]
pub struct Section<P>(pub P);

fn whole<P: Ref>(p: &P, cx: &mut Cx, src: &'static str, from: usize, to: usize, tag: &'static str) -> Option<P::It> {
    let inner = &src[from..to];
    let mut icx = Cx::new();
    let mut got = p.start(&mut icx, inner, 0, 0);
    loop {
        match got {
            None => break,
            Some(mut it) => {
                let e = p.end(&it);
                if e == to - from { return Some(it) }
                icx.report(e, tag);
                if p.back(&mut it, &mut icx, inner) { got = Some(it) } else { got = None }
            }
        }
    }
    match icx.best {
        None => {}
        Some((at, tag, is_lit)) => cx.put(from + at, tag, is_lit),
    }
    None
}

impl<P: Ref> Ref for Line<P> where P::V: User {
    type V = (<P::V as User>::U,);
    type It = (P::It, usize, usize, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        if pos > 0 && !src[..pos].ends_with('\n') { cx.report(pos, "not at line start"); return None }
        let (to, end) = match src[pos..].find('\n') {
            Some(k) => (pos + k, pos + k + 1),
            None => {
                if pos == src.len() { cx.report(pos, "expected line"); return None }
                (src.len(), src.len())
            }
        };
        match whole(&self.0, cx, src, pos, to, "line extra") {
            None => None,
            Some(it) => Some((it, pos, to, end)),
        }
    }
    fn end(&self, it: &Self::It) -> usize { it.3 }
    fn back(&self, _it: &mut Self::It, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, it: &Self::It, src: &'static str) -> Self::V { (self.0.conv(&it.0, &src[it.1..it.2]).user(),) }
}

impl<P: Ref> Ref for Section<P> where P::V: User {
    type V = (<P::V as User>::U,);
    type It = (P::It, usize, usize, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        let at_start = pos == 0 || (src[..pos].ends_with('\n') && (pos == 1 || src[..pos - 1].ends_with('\n')));
        if !at_start { cx.report(pos, "not at section start"); return None }
        let (to, end) = if src[pos..].starts_with('\n') {
            (pos, pos + 1)
        } else {
            match src[pos..].find("\n\n") {
                Some(k) => (pos + k + 1, pos + k + 2),
                None => {
                    if pos == src.len() { cx.report(pos, "expected section"); return None }
                    (src.len(), src.len())
                }
            }
        };
        match whole(&self.0, cx, src, pos, to, "section extra") {
            None => None,
            Some(it) => Some((it, pos, to, end)),
        }
    }
    fn end(&self, it: &Self::It) -> usize { it.3 }
    fn back(&self, _it: &mut Self::It, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, it: &Self::It, src: &'static str) -> Self::V { (self.0.conv(&it.0, &src[it.1..it.2]).user(),) }
}

/// string(p)
#[derive(Clone, Copy)]
pub struct Text<P>(pub P);
impl<P: Ref> Ref for Text<P> {
    type V = (String,);
    type It = (P::It, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It> {
        match self.0.start(cx, src, pos, ix) { None => None, Some(it) => Some((it, pos)) }
    }
    fn end(&self, it: &Self::It) -> usize { self.0.end(&it.0) }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool { self.0.back(&mut it.0, cx, src) }
    fn conv(&self, it: &Self::It, src: &'static str) -> (String,) { (String::from(&src[it.1..self.0.end(&it.0)]),) }
}

/// p with its value changed by `F`, which takes raw values to raw values.
pub trait Change<A> { type V; fn change(&self, a: A) -> Self::V; }
impl<A, B, F: Fn(A) -> B> Change<A> for F { type V = B; fn change(&self, a: A) -> B { self(a) } }
#[derive(Clone, Copy)]
pub struct Map<P, F>(pub P, pub F);
impl<P: Ref, F: Change<P::V>> Ref for Map<P, F> {
    type V = F::V;
    type It = P::It;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It> { self.0.start(cx, src, pos, ix) }
    fn end(&self, it: &Self::It) -> usize { self.0.end(it) }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool { self.0.back(it, cx, src) }
    fn conv(&self, it: &Self::It, src: &'static str) -> F::V { self.1.change(self.0.conv(it, src)) }
}
/// ( p )
#[derive(Clone, Copy)]
pub struct Single;
pub fn group<P>(p: P) -> One<P> { One(p) }
#[derive(Clone, Copy)]
pub struct One<P>(pub P);
impl<P: Ref> Ref for One<P> where P::V: User {
    type V = (<P::V as User>::U,);
    type It = P::It;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, ix: usize) -> Option<Self::It> { self.0.start(cx, src, pos, ix) }
    fn end(&self, it: &Self::It) -> usize { self.0.end(it) }
    fn back(&self, it: &mut Self::It, cx: &mut Cx, src: &'static str) -> bool { self.0.back(it, cx, src) }
    fn conv(&self, it: &Self::It, src: &'static str) -> Self::V { (self.0.conv(it, src).user(),) }
}

/// An exact string.
#[derive(Clone, Copy)]
pub struct Lit(pub &'static str);
impl Ref for Lit {
    type V = ();
    type It = usize;
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<usize> {
        if src[pos..].starts_with(self.0) { Some(pos + self.0.len()) } else { cx.report_lit(pos, self.0); None }
    }
    fn end(&self, it: &usize) -> usize { *it }
    fn back(&self, _it: &mut usize, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, _it: &usize, _src: &'static str) {}
}

/// The longest text of a language, read by `F`.
#[derive(Clone, Copy)]
pub struct Num<F>(pub &'static str, pub F);
impl<T: Clone, E, F: Fn(&'static str) -> Result<T, E>> Ref for Num<F> {
    type V = (T,);
    type It = (T, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        match rx_find(self.0, src, pos) {
            None => { cx.report(pos, "number"); None }
            Some(end) => match (self.1)(&src[pos..end]) {
                Ok(v) => Some((v, end)),
                Err(_) => { cx.report(pos, "number"); None }
            },
        }
    }
    fn end(&self, it: &Self::It) -> usize { it.1 }
    fn back(&self, _it: &mut Self::It, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, it: &Self::It, _src: &'static str) -> (T,) { (it.0.clone(),) }
}
pub fn num<T: Clone, E, F: Fn(&'static str) -> Result<T, E>>(lang: &'static str, f: F) -> Num<F> { Num(lang, f) }

/// One character of a class.
#[derive(Clone, Copy)]
pub struct CharIs<F>(pub F, pub &'static str);
impl<F: Fn(char) -> bool> Ref for CharIs<F> {
    type V = (char,);
    type It = (char, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        match src[pos..].chars().next() {
            Some(c) if self.0(c) => Some((c, pos + c.len_utf8())),
            _ => { cx.report(pos, self.1); None }
        }
    }
    fn end(&self, it: &Self::It) -> usize { it.1 }
    fn back(&self, _it: &mut Self::It, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, it: &Self::It, _src: &'static str) -> (char,) { (it.0,) }
}

/// One character of a list; its index there.
#[derive(Clone, Copy)]
pub struct OneCharOf(pub &'static str);
impl Ref for OneCharOf {
    type V = (usize,);
    type It = (usize, usize);
    fn start(&self, cx: &mut Cx, src: &'static str, pos: usize, _ix: usize) -> Option<Self::It> {
        if let Some(c) = src[pos..].chars().next() {
            let mut k = 0;
            let mut rest = self.0.chars();
            while let Some(x) = rest.next() {
                if x == c { return Some((k, pos + c.len_utf8())) }
                k += 1;
            }
        }
        cx.report_lit(pos, self.0);
        None
    }
    fn end(&self, it: &Self::It) -> usize { it.1 }
    fn back(&self, _it: &mut Self::It, _cx: &mut Cx, _src: &'static str) -> bool { false }
    fn conv(&self, it: &Self::It, _src: &'static str) -> (usize,) { (it.0,) }
}

/// Ask for all matches; convert any one of them.
pub fn drive<P: Ref>(p: P) where P::V: User {
    let src = any_str();
    let mut cx = Cx::new();
    let pos = any_start(src);
    hs_start(src, pos);
    match p.start(&mut cx, src, pos, 0) {
        None => obs_fail(),
        Some(mut it) => loop {
            obs_match(p.end(&it));
            if choose() {
                hs_conv();
                obs_value(p.conv(&it, src).user());
                return;
            }
            hs_back();
            if !p.back(&mut it, &mut cx, src) {
                obs_fail();
                return;
            }
        },
    }
}

/// What parse() returns.
pub fn parse<P: Ref>(p: P) where P::V: User {
    let src = any_str();
    hs_parse(src);
    let mut cx = Cx::new();
    match p.start(&mut cx, src, 0, 0) {
        None => {}
        Some(mut it) => loop {
            let e = p.end(&it);
            if e == src.len() {
                obs_value(p.conv(&it, src).user());
                return;
            }
            cx.report(e, "extra");
            if !p.back(&mut it, &mut cx, src) { break }
        },
    }
    match cx.best {
        None => obs_no_error(),
        Some((at, tag, is_lit)) => obs_err(src, at, tag, is_lit),
    }
}

// ---- how patterns are put together
pub fn seq<P, Q>(p: P, q: Q) -> Seq<P, Q, Flat> { Seq(p, q, Flat) }
pub fn star<P>(p: P) -> Rep<P, Nothing> { Rep(p, Nothing, 0) }
pub fn plus<P>(p: P) -> Rep<P, Nothing> { Rep(p, Nothing, 1) }
pub fn one<P>(p: P) -> One<P> { One(p) }
pub fn alt<P, Q>(p: P, q: Q) -> Alt<P, Q, OneOf> { Alt(p, q, OneOf) }
pub fn map<P: Ref, B, F: Fn(P::V) -> B>(p: P, f: F) -> Map<P, F> { Map(p, f) }
pub fn rsep<P, Q>(p: P, q: Q) -> Rep<P, Q> { Rep(p, q, 0) }
pub fn text<P>(p: P) -> Text<P> { Text(p) }
pub fn lit(s: &'static str) -> Lit { Lit(s) }
pub fn line<P>(p: P) -> Line<P> { Line(p) }
pub fn section<P>(p: P) -> Section<P> { Section(p) }
pub fn deque<T>(v: Vec<T>) -> std::collections::VecDeque<T> {
    let mut q = crate::model::coll_new::<std::collections::VecDeque<T>>();
    for x in v { crate::model::coll_push(&mut q, x) }
    q
}
/// All of the values, put into the collection one by one.
pub fn coll<B, T>(v: Vec<T>) -> B {
    let mut q = crate::model::coll_new::<B>();
    for x in v { crate::model::coll_push(&mut q, x) }
    q
}
pub fn cls<F: Fn(char) -> bool>(f: F, tag: &'static str) -> CharIs<F> { CharIs(f, tag) }

/// Integers written in some base.
pub trait Radix: Sized { type E; fn radix(s: &str, b: u32) -> Result<Self, Self::E>; }
macro_rules! radix {
    ($($t:ty)*) => { $( impl Radix for $t { type E = std::num::ParseIntError; fn radix(s: &str, b: u32) -> Result<$t, Self::E> { <$t>::from_str_radix(s, b) } } )* };
}
radix! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Radix for num_bigint::BigInt { type E = num_bigint::ParseBigIntError; fn radix(s: &str, b: u32) -> Result<Self, Self::E> { <Self as num_traits::Num>::from_str_radix(s, b) } }
impl Radix for num_bigint::BigUint { type E = num_bigint::ParseBigIntError; fn radix(s: &str, b: u32) -> Result<Self, Self::E> { <Self as num_traits::Num>::from_str_radix(s, b) } }
