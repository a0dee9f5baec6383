//! Programs whose MIR is analysed. Nothing here is ever executed.
#![allow(dead_code, unused_variables, unconditional_recursion, non_upper_case_globals, clippy::all)]
pub mod sym;
pub mod refsem;
pub mod model;
pub mod leaves;
#[cfg(feature = "core_w")]
pub mod core_w;
#[cfg(feature = "parse_w")]
pub mod parse_w;
#[cfg(feature = "macro_w")]
pub mod macro_w;
#[cfg(feature = "chars_w")]
pub mod chars_w;
#[cfg(feature = "nums_w")]
pub mod nums_w;
#[cfg(feature = "coll_w")]
pub mod coll_w;
#[cfg(feature = "util_w")]
pub mod util_w;
#[cfg(feature = "disp_w")]
pub mod disp_w;
#[cfg(feature = "gen_w")]
pub mod gen_w;
