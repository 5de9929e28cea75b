//! Appended to the copy of the crate that is handed to the compiler: one function per arm of the public macros, so
//! that the code the macros expand to is compiled, and verified, like any other function.
#![allow(unused, dead_code)]
use crate::matcher::*;
use crate::parser_context::ParserContextRef;
use crate::source_range::SourceRange;
use crate::token::TokenRef;
use crate::*;
use std::ops::Range;

pub fn assert_if(m: MatcherRef, msg: &'static str) -> MatcherRef { crate::AssertIf!(m, msg) }
pub fn assert_if_not(m: MatcherRef, msg: &'static str) -> MatcherRef { crate::AssertIfNot!(m, msg) }
pub fn fatal_if(m: MatcherRef, msg: &'static str) -> MatcherRef { crate::FatalIf!(m, msg) }
pub fn fatal_if_not(m: MatcherRef, msg: &'static str) -> MatcherRef { crate::FatalIfNot!(m, msg) }
pub fn map_both(m: MatcherRef) -> MatcherRef { crate::Map!(m, |t, _, __| Ok(MatcherSuccess::Token(t)), |f, _, __| Err(f)) }
pub fn map_one(m: MatcherRef) -> MatcherRef { crate::Map!(m, |t, _, __| Ok(MatcherSuccess::Token(t))) }
pub fn break_named(n: &str) -> MatcherRef { crate::Break!(n) }
pub fn break_any() -> MatcherRef { crate::Break!() }
pub fn discard(m: MatcherRef) -> MatcherRef { crate::Discard!(m) }
pub fn equals(t: &'static str) -> MatcherRef { crate::Equals!(t) }
pub fn equals_named(t: &str) -> MatcherRef { crate::Equals!("a name"; t) }
pub fn error(t: &str) -> MatcherRef { crate::Error!(t) }
pub fn error_result(c: ParserContextRef, t: &str, r: &SourceRange) -> Result<MatcherSuccess, MatcherFailure> { crate::ErrorTokenResult!(c, t, r) }
pub fn expand_range(m: MatcherRef) -> MatcherRef { crate::ExpandRange!(m) }
pub fn fetch() -> crate::matchers::fetch::FetchPattern { crate::Fetch!("a name") }
pub fn matches(t: &str) -> MatcherRef { crate::Matches!(t) }
pub fn matches_named(t: &str) -> MatcherRef { crate::Matches!("a name"; t) }
pub fn not(m: MatcherRef) -> MatcherRef { crate::Not!(m) }
pub fn null() -> MatcherRef { crate::Null!() }
pub fn optional(m: MatcherRef) -> MatcherRef { crate::Optional!(m) }
pub fn panic(t: &str) -> MatcherRef { crate::Panic!(t) }
pub fn program0() -> MatcherRef { crate::Program!() }
pub fn program(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Program!(a, b, c) }
pub fn program_named(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Program!("a name"; a, b, c) }
pub fn switch0() -> MatcherRef { crate::Switch!() }
pub fn switch(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Switch!(a, b, c) }
pub fn switch_named(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Switch!("a name"; a, b, c) }
pub fn loop0() -> MatcherRef { crate::Loop!() }
pub fn loop_any(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Loop!(a, b, c) }
pub fn loop_range(r: Range<usize>, a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Loop!(r; a, b, c) }
pub fn loop_range_named(r: Range<usize>, a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Loop!(r; "a name"; a, b, c) }
pub fn loop_named(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Loop!("a name"; a, b, c) }
pub fn pin0() -> MatcherRef { crate::Pin!() }
pub fn pin(a: MatcherRef) -> MatcherRef { crate::Pin!(a) }
pub fn pin_at(a: MatcherRef, n: &str, o: &'static str) -> MatcherRef { crate::Pin!(n, o; a) }
pub fn pin_named(a: MatcherRef, n: &str) -> MatcherRef { crate::Pin!(n; a) }
pub fn pin_at0(n: &str, o: &'static str) -> MatcherRef { crate::Pin!(n, o;) }
pub fn pin_named0(n: &str) -> MatcherRef { crate::Pin!(n;) }
pub fn proxy_children(a: MatcherRef) -> MatcherRef { crate::ProxyChildren!(a) }
pub fn proxy_children_named(a: MatcherRef) -> MatcherRef { crate::ProxyChildren!("a name"; a) }
pub fn reference(n: &'static str) -> MatcherRef { crate::Ref!(n) }
pub fn reference_named(n: &'static str) -> MatcherRef { crate::Ref!("a name".to_string(); n) }
pub fn register(a: MatcherRef, b: MatcherRef, c: MatcherRef) -> MatcherRef { crate::Register!(a, b, c) }
pub fn sequence(a: &'static str, b: &'static str, c: &'static str) -> MatcherRef { crate::Sequence!(a, b, c) }
pub fn sequence_named(a: &'static str, b: &'static str, c: &'static str) -> MatcherRef { crate::Sequence!("a name"; a, b, c) }
pub fn set_scope(a: MatcherRef) -> MatcherRef { crate::SetScope!(a) }
pub fn set_scope_to(s: crate::scope_context::ScopeContextRef, a: MatcherRef) -> MatcherRef { crate::SetScope!(s, a) }
pub fn store_text() -> MatcherRef { crate::Store!("a name"; "a text") }
pub fn store(n: &str, a: MatcherRef) -> MatcherRef { crate::Store!(n; a) }
pub fn catch(a: MatcherRef) -> MatcherRef { crate::Catch!(a, |_, __| Err(MatcherFailure::Fail)) }
pub fn debug0() -> MatcherRef { crate::Debug!() }
pub fn debug(a: MatcherRef) -> MatcherRef { crate::Debug!(a) }
pub fn debug_mode(a: MatcherRef) -> MatcherRef { crate::Debug!(2; a) }
pub fn debug_mode0() -> MatcherRef { crate::Debug!(2;) }
pub fn token_result(t: TokenRef) -> Result<MatcherSuccess, MatcherFailure> { crate::TokenResult!(t) }
