//! The code under test: builds the real matchers for a pattern, runs them, and prints what is observable.
use crate::oracle::{self as o, place, Tpl, F, K, P, PR, TT};
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::*;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::{AssertIf, AssertIfNot, FatalIf, FatalIfNot, Map};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn dump(t: &TokenRef, path: &mut Vec<TokenRef>, out: &mut String) {
  let b = t.borrow();
  let par = match b.get_parent() {
    None => "-".to_string(),
    Some(p) => match path.iter().rev().position(|q| Rc::ptr_eq(&p, q)) { Some(k) => format!("^{}", k), None => format!("!{}", p.borrow().get_name()) },
  };
  let mut fl = 0u8;
  for i in 0..8 { if b.flags_enabled(1 << i) { fl |= 1 << i; } }
  let at: BTreeMap<&String, &String> = b.get_attributes().iter().collect();
  let (c, m) = (b.get_captured_range(), b.get_matched_range());
  out.push_str(&format!("{}[{}..{} {}..{} v={:?} c={:?} m={:?} f={}{} p={} {:?}", b.get_name(), c.start, c.end, m.start, m.end,
    b.get_value(), b.get_captured_value(), b.get_matched_value(), fl, if b.should_discard() { "D" } else { "" }, par, at));
  if path.len() > 60 { out.push_str(" too deep]"); return; }
  path.push(t.clone());
  for k in b.get_children() { out.push(' '); dump(k, path, out); }
  path.pop();
  out.push(']');
}

pub type MRes = Result<MatcherSuccess, MatcherFailure>;
pub fn show_s(r: &MatcherSuccess) -> String {
  match r {
    MatcherSuccess::Token(t) => { let mut s = "Token ".to_string(); dump(t, &mut vec![], &mut s); s }
    MatcherSuccess::ProxyChildren(t) => { let mut s = "Proxy ".to_string(); dump(t, &mut vec![], &mut s); s }
    MatcherSuccess::Skip(n) => format!("Skip({})", n),
    MatcherSuccess::Break((n, r)) => format!("Break({:?}, {})", n, show_s(r)),
    MatcherSuccess::Continue((n, r)) => format!("Continue({:?}, {})", n, show_s(r)),
    MatcherSuccess::None => "None".into(), MatcherSuccess::Stop => "Stop".into(),
  }
}
pub fn show_f(f: &MatcherFailure) -> String {
  match f { MatcherFailure::Fail => "Fail".into(), MatcherFailure::Error(e) => format!("Error({:?}, {:?})", e.message, e.range.map(|r| (r.start, r.end))) }
}
pub fn show(r: &MRes) -> String { match r { Ok(s) => show_s(s), Err(f) => show_f(f) } }

pub struct Ctl { pub log: RefCell<Vec<String>>, pub counts: RefCell<BTreeMap<usize, usize>>, pub names: Vec<String>, pub built: RefCell<Vec<(MatcherRef, usize)>>, pub src: String }

pub fn depth(s: &ScopeContextRef) -> usize {
  let mut c = s.borrow().clone();
  let mut n = 0;
  while c.pop().is_some() { n += 1; if n > 1000 { break; } }
  n
}
impl Ctl {
  pub fn uid(&self, m: &MatcherRef) -> String {
    match self.built.borrow().iter().find(|x| Rc::ptr_eq(&x.0, m)) { Some(x) => format!("{}", x.1), None => "?".into() }
  }
  pub fn scope_line(&self, s: &ScopeContextRef) -> String {
    let mut out = format!("d{}", depth(s));
    for n in &self.names {
      match s.borrow().get(n) {
        None => {}
        Some(VariableType::Token(t)) => { out.push_str(&format!(" {}=T ", n)); dump(&t, &mut vec![], &mut out); }
        Some(VariableType::String(v)) => out.push_str(&format!(" {}={:?}", n, v)),
        Some(VariableType::Matcher(m)) => out.push_str(&format!(" {}=M{}", n, self.uid(&m))),
      }
    }
    out
  }
}

pub fn rg(r: o::Rg) -> SourceRange { SourceRange::new(r.0, r.1) }

struct Script { uid: usize, tpls: Vec<Tpl>, consuming: bool, name: Option<String>, set: Option<(String, String)>, ctl: Rc<Ctl> }
pub fn mktok(parser: &adextopa_core::parser::ParserRef, src: &str, t: &TT, win: o::Rg) -> TokenRef {
  let (cap, mat) = place(src, win, t);
  let k = if t.pin { pin::PinToken::new_with_matched_range(parser, t.name.clone(), rg(cap), rg(mat)) } else { StandardToken::new_with_matched_range(parser, t.name.clone(), rg(cap), rg(mat)) };
  if t.err { k.borrow_mut().enable_flags(2); }
  if let Some((a, b)) = &t.attr { k.borrow_mut().set_attribute(a, b); }
  for c in &t.kids { let c2 = mktok(parser, src, c, win); if c.parented { c2.borrow_mut().set_parent(Some(k.clone())); } k.borrow_mut().add_child(c2); }
  k
}
impl Script {
  fn inst(&self, cx: &ParserContextRef, t: &Tpl, win: o::Rg) -> MRes {
    let parser = cx.borrow().parser.clone();
    let src = &self.ctl.src;
    Ok(match t {
      Tpl::Tok(t) => MatcherSuccess::Token(mktok(&parser, src, t, win)),
      Tpl::Proxy(t) => MatcherSuccess::ProxyChildren(mktok(&parser, src, t, win)),
      Tpl::Skip(n) => MatcherSuccess::Skip(*n),
      Tpl::Break(n, p) => MatcherSuccess::Break((n.clone(), Box::new(self.inst(cx, p, win)?))),
      Tpl::Cont(n, p) => MatcherSuccess::Continue((n.clone(), Box::new(self.inst(cx, p, win)?))),
      Tpl::Stop => MatcherSuccess::Stop, Tpl::None => MatcherSuccess::None,
      Tpl::Fail => return Err(MatcherFailure::Fail),
      Tpl::Err(m, r) => return Err(MatcherFailure::Error(ParseError { message: m.clone(), range: r.map(rg) })),
    })
  }
}
impl Matcher for Script {
  fn exec(&self, this: MatcherRef, cx: ParserContextRef, s: ScopeContextRef) -> MRes {
    self.before_exec(this.clone(), cx.clone(), s.clone());
    let win = { let c = cx.borrow(); (c.offset.start, c.offset.end) };
    let line = format!("{}@{}-{} {}", self.ctl.uid(&this), win.0, win.1, self.ctl.scope_line(&s));
    self.ctl.log.borrow_mut().push(line);
    if self.ctl.log.borrow().len() > 5000 { panic!("too many calls"); }
    let n = { let mut c = self.ctl.counts.borrow_mut(); let e = c.entry(self.uid).or_insert(0); *e += 1; *e - 1 };
    if let Some((k, v)) = &self.set { s.borrow_mut().set(k, VariableType::String(v.clone())); }
    self.inst(&cx, &self.tpls[std::cmp::min(n, self.tpls.len() - 1)], win)
  }
  fn get_name(&self) -> &str { self.name.as_deref().unwrap_or("Script") }
  fn set_name(&mut self, n: &str) { self.name = Some(n.to_string()); }
  fn has_custom_name(&self) -> bool { self.name.is_some() }
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> { None }
  fn to_string(&self) -> String { "Script".into() }
  fn is_consuming(&self) -> bool { self.consuming }
}

macro_rules! fetchable { ($f:expr, $c:expr, |$v:ident| $e:expr) => { match $f {
  F::Lit(x) => { let $v = x.clone(); $e }
  F::Var(x) => { let $v = fetch::FetchPattern::new(x); $e }
  F::Mat(m) => { let $v: MatcherRef = build(m, $c); $e }
} } }

fn s3(a: &F, b: &F, d: &F, n: &Option<String>) -> MatcherRef {
  // the three texts of a sequence share one type: all literal or all fetched
  match (a, b, d) {
    (F::Var(a), F::Var(b), F::Var(d)) => {
      let (a, b, d) = (fetch::FetchPattern::new(a), fetch::FetchPattern::new(b), fetch::FetchPattern::new(d));
      match n { Some(n) => sequence::SequencePattern::new_with_name(n, a, b, d), None => sequence::SequencePattern::new(a, b, d) }
    }
    _ => {
      let l = |f: &F| if let F::Lit(x) = f { x.clone() } else { panic!("mixed sequence") };
      let (a, b, d) = (l(a), l(b), l(d));
      match n { Some(n) => sequence::SequencePattern::new_with_name(n, a, b, d), None => sequence::SequencePattern::new(a, b, d) }
    }
  }
}

pub fn build(p: &PR, c: &Rc<Ctl>) -> MatcherRef {
  if let Some(x) = c.built.borrow().iter().find(|x| x.1 == p.uid) { return x.0.clone(); }
  let m = build_(p, c);
  c.built.borrow_mut().push((m.clone(), p.uid));
  m
}
fn kids(ps: &[PR], c: &Rc<Ctl>) -> Vec<MatcherRef> { ps.iter().map(|p| build(p, c)).collect() }

fn build_(p: &P, c: &Rc<Ctl>) -> MatcherRef {
  use program::{MatchAction, ProgramPattern};
  match &p.k {
    K::Script { tpls, consuming, name, set } => Rc::new(RefCell::new(Box::new(Script { uid: p.uid, tpls: tpls.clone(), consuming: *consuming, name: name.clone(), set: set.clone(), ctl: c.clone() }))),
    K::Equals(f, n) => fetchable!(f, c, |v| match n { Some(n) => equals::EqualsPattern::new_with_name(n, v), None => equals::EqualsPattern::new(v) }),
    K::Matches(r, n) => { let r = regex::Regex::new(r).unwrap(); match n { Some(n) => matches::MatchesPattern::new_with_name(n, r), None => matches::MatchesPattern::new(r) } }
    K::Sequence(a, b, d, n) => s3(a, b, d, n),
    K::Program(ps, n) => match n { Some(n) => ProgramPattern::new_program_with_name(kids(ps, c), n.clone(), MatchAction::Continue), None => ProgramPattern::new_program(kids(ps, c), MatchAction::Continue) },
    K::Switch(ps, n) => match n { Some(n) => ProgramPattern::new_program_with_name(kids(ps, c), n.clone(), MatchAction::Stop), None => ProgramPattern::new_program(kids(ps, c), MatchAction::Stop) },
    K::Loop(ps, n, lo, hi) => {
      // the same bounds, written in different ways
      use std::ops::Bound::{Excluded, Included, Unbounded};
      let a = if *lo == 0 && p.uid % 3 == 0 { Unbounded } else if *lo > 0 && p.uid % 5 == 1 { Excluded(*lo - 1) } else { Included(*lo) };
      let b = if *hi == usize::MAX && p.uid % 3 != 1 { Unbounded } else if p.uid % 4 == 2 { Included(*hi) } else { Excluded(*hi) };
      match n { Some(n) => ProgramPattern::new_loop_with_name_and_range(kids(ps, c), n.clone(), (a, b)), None => ProgramPattern::new_loop(kids(ps, c), (a, b)) }
    }
    K::Optional(q) => optional::OptionalPattern::new(build(q, c)),
    K::Not(q) => not::NotPattern::new(build(q, c)),
    K::Discard(q) => discard::DiscardPattern::new(build(q, c)),
    K::Proxy(q, n) => match n { Some(n) => proxy_children::ProxyChildrenPattern::new_with_name(build(q, c), n), None => proxy_children::ProxyChildrenPattern::new(build(q, c)) },
    K::Expand(q) => expand_range::ExpandRange::new(build(q, c)),
    K::Store(n, q) => store::StorePattern::new_as_matcher_type(n, build(q, c)),
    K::StoreS(n, v) => store::StorePattern::new_as_string_type(n, v),
    K::Ref(f, n) => fetchable!(f, c, |v| match n { Some(n) => r#ref::RefPattern::new_with_name(v, n.clone()), None => r#ref::RefPattern::new(v) }),
    K::Map(q, sm, fm) => {
      let (sm, fm, c1, c2) = (*sm, *fm, c.clone(), c.clone());
      map::MapPattern::new(build(q, c),
        move |t: TokenRef, cx: ParserContextRef, s: ScopeContextRef| {
          let w = cx.borrow().offset;
          let (n, m) = { let t = t.borrow(); (t.get_name().clone(), *t.get_matched_range()) };
          let line = format!("map+ {} {:?} {:?} {}", n, (m.start, m.end), (w.start, w.end), c1.scope_line(&s));
          c1.log.borrow_mut().push(line);
          match sm { 0 => { t.borrow_mut().set_attribute("m", "1"); Ok(MatcherSuccess::Token(t)) } 1 => Ok(MatcherSuccess::Skip(1)), 2 => Err(MatcherFailure::Fail), 3 => Ok(MatcherSuccess::ProxyChildren(t)), _ => Err(MatcherFailure::Error(ParseError::new("mapped"))) }
        },
        move |f: MatcherFailure, cx: ParserContextRef, s: ScopeContextRef| {
          let w = cx.borrow().offset;
          let line = format!("map- {} {:?} {}", show_f(&f), (w.start, w.end), c2.scope_line(&s));
          c2.log.borrow_mut().push(line);
          match fm { 0 => Err(f), 1 => Ok(MatcherSuccess::Skip(0)), 2 => Ok(MatcherSuccess::Stop), _ => Err(MatcherFailure::Error(ParseError::new("mapped"))) }
        })
    }
    K::Catch(q, fm) => {
      let (fm, c1) = (*fm, c.clone());
      catch::CatchPattern::new(build(q, c), move |cx: ParserContextRef, f: MatcherFailure| {
        let w = cx.borrow().offset;
        c1.log.borrow_mut().push(format!("catch {} {:?}", show_f(&f), (w.start, w.end)));
        match fm { 0 => Err(f), 1 => Ok(MatcherSuccess::Skip(0)), 2 => Ok(MatcherSuccess::Stop), _ => Err(MatcherFailure::Error(ParseError::new("mapped"))) }
      })
    }
    K::Error(m) => error::ErrorPattern::new(m),
    K::Panic(m) => panic::PanicPattern::new(m),
    K::FatalIf(q) => { let q = build(q, c); FatalIf!(q, o::MSG) }
    K::FatalIfNot(q) => { let q = build(q, c); FatalIfNot!(q, o::MSG) }
    K::AssertIf(q) => { let q = build(q, c); AssertIf!(q, o::MSG) }
    K::AssertIfNot(q) => { let q = build(q, c); AssertIfNot!(q, o::MSG) }
    K::Null => null::NullPattern::new(),
    K::Break(n) => r#break::BreakPattern::new(n),
    K::Register(ps) => { let r = register::RegisterPattern::new_blank(); for q in ps { r.borrow_mut().add_pattern(build(q, c)); } r }
    K::SetScope(q) => set_scope::SetScopePattern::new(build(q, c)),
    K::SetScopeOwn(q, vars) => {
      let s = ScopeContext::new();
      for (k, v) in vars { s.borrow_mut().set(k, VariableType::String(v.clone())); }
      set_scope::SetScopePattern::new_with_scope(s, build(q, c))
    }
    K::Pin(q, f, n) => {
      let q = q.as_ref().map(|q| build(q, c));
      fetchable!(f, c, |v| match n { Some(n) => pin::PinPattern::new_with_name(q.clone(), n, v), None => pin::PinPattern::new(q.clone(), v) })
    }
    K::Attrs(..) | K::Rename(..) | K::SetScopeShared(..) => { let q = match &p.k { K::Attrs(q, _) | K::Rename(q, _) | K::SetScopeShared(q, _) => q, _ => unreachable!() }; Map!(build(q, c), |t: TokenRef, _, _| Ok(MatcherSuccess::Token(t))) }
  }
}


pub fn context(src: &str, file: &str, win: o::Rg) -> ParserContextRef {
  let p = adextopa_core::parser::Parser::new_with_file_name(src, file);
  ParserContext::new_with_offset(&p, rg(win), "Test")
}
