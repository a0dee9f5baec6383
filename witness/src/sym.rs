//! Opaque leaf parsers and the driving harness.
use aoc_parse::{ParseContext, ParseError, ParseIter, Parser, Reported};

/// A match of a leaf: named by the engine.
pub struct Handle(usize);
/// The value of a match of leaf N.
pub struct V<const N: usize>(usize);
// values are arbitrary, and so is which of them are equal
impl<const N: usize> std::hash::Hash for V<N> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { loop {} } }
impl<const N: usize> PartialEq for V<N> { fn eq(&self, o: &Self) -> bool { veq(self, o) } }
impl<const N: usize> Eq for V<N> {}
impl<const N: usize> PartialOrd for V<N> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { loop {} } }
impl<const N: usize> Ord for V<N> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { loop {} } }
#[inline(never)] pub fn veq<const N: usize>(a: &V<N>, b: &V<N>) -> bool { loop {} }

#[inline(never)] pub fn ev_start(n: usize, source: &str, start: usize) -> Option<Handle> { loop {} }
#[inline(never)] pub fn ev_end(h: &Handle) -> usize { loop {} }
#[inline(never)] pub fn ev_back(h: &Handle) -> bool { loop {} }
#[inline(never)] pub fn ev_conv<T>(h: &Handle) -> T { loop {} }
/// Where the leaf met a failure (it must have met one if `must`): anywhere from
/// `start` to the end of `source`.
#[inline(never)] pub fn ev_failpos(n: usize, source: &str, start: usize, must: bool) -> Option<usize> { loop {} }
/// Where the leaf met a failure while looking for its next match.
#[inline(never)] pub fn ev_backpos(h: &Handle) -> Option<usize> { loop {} }
/// As ev_start, for the reference: `ix` is the round of the repetition.
#[inline(never)] pub fn rf_start(n: usize, source: &str, start: usize, ix: usize) -> Option<Handle> { loop {} }
/// What the reference is about (for the reports).
#[inline(never)] pub fn note(what: &'static str) { loop {} }
pub const fn leaf_tag<const N: usize>() -> &'static str {
    match N { 1 => "leaf one", 2 => "leaf two", 3 => "leaf three", 4 => "leaf four", _ => "other leaf" }
}

#[inline(never)] pub fn any_str() -> &'static str { loop {} }
#[inline(never)] pub fn any_start(source: &str) -> usize { loop {} }
/// Some text (what is in it does not matter).
#[inline(never)] pub fn some_text() -> &'static str { loop {} }
/// A formatter that writes to a string.
#[inline(never)] pub fn formatter<'a>(s: &'a mut String) -> &'a mut std::fmt::Formatter<'a> { loop {} }
/// The text ends with what the reference says.
#[inline(never)] pub fn obs_tail(s: String) { loop {} }
#[inline(never)] pub fn choose() -> bool { loop {} }
#[inline(never)] pub fn hs_start(source: &str, start: usize) { loop {} }
#[inline(never)] pub fn hs_back() { loop {} }
#[inline(never)] pub fn hs_conv() { loop {} }
#[inline(never)] pub fn obs_fail() { loop {} }
#[inline(never)] pub fn obs_match(end: usize) { loop {} }
#[inline(never)] pub fn obs_value<T>(v: T) { loop {} }
#[inline(never)] pub fn hs_parse(source: &str) { loop {} }
#[inline(never)] pub fn obs_err(source: &str, location: usize, tag: &str, is_lit: bool) { loop {} }
#[inline(never)] pub fn obs_parse_error(e: &ParseError, source: &str, location: usize) { loop {} }
#[inline(never)] pub fn obs_no_error() { loop {} }

/// As most basic parsers: when it does not match, the error is where it was tried.
#[derive(Clone, Copy)]
pub struct Q<const N: usize>;
impl<const N: usize> Parser for Q<N> {
    type Output = V<N>;
    type RawOutput = (V<N>,);
    type Iter<'parse> = LIter<N>;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<LIter<N>, Reported> {
        match ev_start(N, context.source(), start) {
            Some(h) => Ok(LIter { h }),
            None => Err(context.error_expected(start, leaf_tag::<N>())),
        }
    }
}
/// Matches in at most one way (the engine sees to it: N > 50); reports as Q does.
#[derive(Clone, Copy)]
pub struct K<const N: usize>;
pub struct KIter<const N: usize> { h: Handle }
impl<const N: usize> Parser for K<N> {
    type Output = V<N>;
    type RawOutput = (V<N>,);
    type Iter<'parse> = KIter<N>;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<KIter<N>, Reported> {
        match ev_start(N, context.source(), start) {
            Some(h) => Ok(KIter { h }),
            None => Err(context.error_expected(start, leaf_tag::<N>())),
        }
    }
}
impl<'parse, const N: usize> ParseIter<'parse> for KIter<N> {
    type RawOutput = (V<N>,);
    fn match_end(&self) -> usize { ev_end(&self.h) }
    fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> { if ev_back(&self.h) { Ok(()) } else { Err(Reported) } }
    fn convert(&self) -> (V<N>,) { ev_conv::<(V<N>,)>(&self.h) }
}
/// Matches in at most one way (the engine sees to it: N > 50); reports as Q does; values of one type.
#[derive(Clone, Copy)]
pub struct SK<const N: usize>;
pub struct SKIter<const N: usize> { h: Handle }
impl<const N: usize> Parser for SK<N> {
    type Output = V<0>;
    type RawOutput = (V<0>,);
    type Iter<'parse> = SKIter<N>;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<SKIter<N>, Reported> {
        match ev_start(N, context.source(), start) {
            Some(h) => Ok(SKIter { h }),
            None => Err(context.error_expected(start, leaf_tag::<N>())),
        }
    }
}
impl<'parse, const N: usize> ParseIter<'parse> for SKIter<N> {
    type RawOutput = (V<0>,);
    fn match_end(&self) -> usize { ev_end(&self.h) }
    fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> { if ev_back(&self.h) { Ok(()) } else { Err(Reported) } }
    fn convert(&self) -> (V<0>,) { ev_conv::<(V<0>,)>(&self.h) }
}
macro_rules! leaf {
    ($name:ident, $iter:ident, $raw:ty, $out:ty, $report:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name<const N: usize>;
        pub struct $iter<const N: usize> { h: Handle }
        impl<const N: usize> Parser for $name<N> {
            type Output = $out;
            type RawOutput = $raw;
            type Iter<'parse> = $iter<N>;
            fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<$iter<N>, Reported> {
                let source = context.source();
                let r = ev_start(N, source, start);
                if $report {
                    match ev_failpos(N, source, start, r.is_none()) {
                        Some(at) => { context.error_expected(at, leaf_tag::<N>()); }
                        None => {}
                    }
                }
                match r {
                    Some(h) => Ok($iter { h }),
                    None => Err(Reported),
                }
            }
        }
        impl<'parse, const N: usize> ParseIter<'parse> for $iter<N> {
            type RawOutput = $raw;
            fn match_end(&self) -> usize { ev_end(&self.h) }
            fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> {
                let r = ev_back(&self.h);
                if $report {
                    match ev_backpos(&self.h) {
                        Some(at) => { context.error_expected(at, leaf_tag::<N>()); }
                        None => {}
                    }
                }
                if r { Ok(()) } else { Err(Reported) }
            }
            fn convert(&self) -> $raw { ev_conv::<$raw>(&self.h) }
        }
    };
}
// one value
leaf!(L, LIter, (V<N>,), V<N>, false);
// no value
leaf!(U, UIter, (), (), false);
// a two-tuple and a three-tuple
leaf!(T2, T2Iter, (V<N>, V<N>), (V<N>, V<N>), false);
leaf!(T3, T3Iter, (V<N>, V<N>, V<N>), (V<N>, V<N>, V<N>), false);
// as L, but reports its failures
leaf!(R, RIter, (V<N>,), V<N>, true);
// one value, of the same type for every N
leaf!(S, SIter, (V<0>,), V<0>, false);
leaf!(SR, SRIter, (V<0>,), V<0>, true);

/// Ask `p` at `start` for all its matches, and convert any one of them.
pub fn drive<'p, O, P: Parser<RawOutput = (O,)>>(p: &'p P, ctx: &mut ParseContext<'p>) {
    let start = any_start(ctx.source());
    hs_start(ctx.source(), start);
    match p.parse_iter(ctx, start) {
        Err(_) => obs_fail(),
        Ok(mut it) => loop {
            obs_match(it.match_end());
            if choose() {
                hs_conv();
                obs_value(it.convert().0);
                return;
            }
            hs_back();
            if it.backtrack(ctx).is_err() {
                obs_fail();
                return;
            }
        },
    }
}

pub fn run<O, P: Parser<RawOutput = (O,)>>(p: P) {
    let mut ctx = ParseContext::new(any_str());
    drive(&p, &mut ctx);
}

pub fn run_parse<P: Parser>(p: P) {
    let source = any_str();
    hs_parse(source);
    match p.parse(source) {
        Ok(v) => obs_value(v),
        Err(e) => obs_parse_error(&e, &e.source, e.location),
    }
}

/// The longest match of the language at `pos` (the reference's view of a search).
#[inline(never)] pub fn rx_find(lang: &'static str, source: &str, pos: usize) -> Option<usize> { loop {} }

/// Of its parse() nothing is known, but what it is given.
#[derive(Clone, Copy)]
pub struct Whole;
#[inline(never)] pub fn ev_parse<T, E>(source: &str) -> Result<T, E> { loop {} }
pub struct NoIter;
impl Parser for Whole {
    type Output = V<1>;
    type RawOutput = (V<1>,);
    type Iter<'parse> = NoIter;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<NoIter, Reported> { loop {} }
    fn parse(&self, source: &str) -> Result<V<1>, ParseError> { ev_parse(source) }
}
impl<'parse> ParseIter<'parse> for NoIter {
    type RawOutput = (V<1>,);
    fn match_end(&self) -> usize { loop {} }
    fn backtrack(&mut self, context: &mut ParseContext<'parse>) -> Result<(), Reported> { loop {} }
    fn convert(&self) -> (V<1>,) { loop {} }
}
