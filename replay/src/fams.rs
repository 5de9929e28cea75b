use crate::gen::*;
use crate::oracle::*;
use crate::real::{self, Ctl};
use crate::{Case, Rng};
use adextopa_core::matcher::{MatcherFailure, MatcherSuccess};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope as RScope, VariableType};
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::token_visitor::TokenVisitor;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    format!("panic: {}", m)
  })
}

fn verdict(input: impl FnOnce() -> String, expected: String, actual: Result<String, String>) -> Case {
  let actual = actual.unwrap_or_else(|e| e);
  if expected == actual { return Case::Ok; }
  if expected.starts_with("Error(*)") && actual.starts_with("Error(") && expected["Error(*)".len()..] == actual[actual.find('\n').unwrap_or(actual.len())..] { return Case::Ok; }
  Case::Bad { input: input(), expected, actual }
}

pub struct Setup { pub src: String, pub file: String, pub win: Rg, pub p: PR, pub layers: Vec<Vec<(String, SV)>>, pub arg_scope: Option<Vec<Vec<(String, SV)>>>, pub tokenize: bool }
#[derive(Clone, Debug)]
pub enum SV { Str(String), Tok(TT), Mat(PR) }

const NAMES: &[&str] = &["A", "B", "L", "M", "V", "W", "Loop", "Error", "Equals", "Matches", "Sequence", "Program", "Script", "Pin", "Store", "S", "Q", "Ref", "Register"];

/// run one matcher on both sides and compare result, call log, caller's window, scopes
pub fn both(s: &Setup) -> Case {
  let names: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
  let w = World { src: s.src.clone(), file: s.file.clone(), log: RefCell::new(vec![]), counts: RefCell::new(BTreeMap::new()), fuel: Cell::new(3000), names: names.clone(), shared: RefCell::new(vec![]), own: RefCell::new(BTreeMap::new()) };
  let mk = |layers: &Vec<Vec<(String, SV)>>| -> ScopeC {
    let sc: ScopeC = Rc::new(RefCell::new(vec![]));
    for l in layers {
      sc.borrow_mut().push(Rc::new(RefCell::new(BTreeMap::new())));
      for (k, v) in l { sc_set(&sc, k, match v { SV::Str(x) => V::Str(x.clone()), SV::Mat(p) => V::Mat(p.clone()), SV::Tok(t) => {
        let (cap, mat) = place(&s.src, (0, s.src.len()), t);
        V::Tok(T::new(&s.src, &t.name, cap, mat, false)) } }); }
    }
    sc
  };
  let (cs, as_) = (mk(&s.layers), s.arg_scope.as_ref().map(|l| mk(l)));
  let cx = Cx { win: s.win, stack: vec![], scope: cs.clone() };
  let er = if s.tokenize { w.tokenize(&s.p, &cx) } else { w.run(&s.p, &cx, as_.as_ref().unwrap_or(&cs)) };
  let er = match er { Ok(r) => r, Err(_) => return Case::Skip };
  let mut expected = show(&er);
  expected.push_str(&format!("\nwindow {}..{}\n{}", s.win.0, s.win.1, w.scope_line(&cs)));
  if let Some(a) = &as_ { expected.push_str(&format!("\narg {}", w.scope_line(a))); }
  for l in w.log.borrow().iter() { expected.push('\n'); expected.push_str(l); }
  let actual = guarded(|| {
    let ctl = Rc::new(Ctl { log: RefCell::new(vec![]), counts: RefCell::new(BTreeMap::new()), names, built: RefCell::new(vec![]), src: s.src.clone() });
    let cx = real::context(&s.src, &s.file, s.win);
    let parser = cx.borrow().parser.clone();
    let fill = |sc: &ScopeContextRef, layers: &Vec<Vec<(String, SV)>>| {
      for l in layers {
        sc.borrow_mut().push(RScope::new());
        for (k, v) in l { let v = match v { SV::Str(x) => VariableType::String(x.clone()), SV::Mat(p) => VariableType::Matcher(real::build(p, &ctl)), SV::Tok(t) => {
          let (cap, mat) = place(&s.src, (0, s.src.len()), t);
          VariableType::Token(StandardToken::new_with_matched_range(&parser, t.name.clone(), real::rg(cap), real::rg(mat))) } };
          sc.borrow_mut().set(k, v); }
      }
    };
    let cs = cx.borrow().get_scope();
    fill(&cs, &s.layers);
    let as_ = s.arg_scope.as_ref().map(|l| { let sc = ScopeContext::new(); fill(&sc, l); sc });
    let m = real::build(&s.p, &ctl);
    let mut out = if s.tokenize { match ParserContext::tokenize(cx.clone(), m) { Ok(t) => real::show_s(&MatcherSuccess::Token(t)), Err(f) => real::show_f(&f) } }
      else { let r = m.borrow().exec(m.clone(), cx.clone(), as_.clone().unwrap_or(cs.clone())); real::show(&r) };
    let o = cx.borrow().offset;
    out.push_str(&format!("\nwindow {}..{}\n{}", o.start, o.end, ctl.scope_line(&cs)));
    if let Some(a) = &as_ { out.push_str(&format!("\narg {}", ctl.scope_line(a))); }
    for l in ctl.log.borrow().iter() { out.push('\n'); out.push_str(l); }
    out
  });
  verdict(|| format!("source {:?} window {:?} scopes {:?} arg scope {:?} tokenize {} matcher {:?}", s.src, s.win, s.layers, s.arg_scope, s.tokenize, s.p), expected, actual)
}

fn layers(g: &mut G, n: usize) -> Vec<Vec<(String, SV)>> {
  let k = g.r.below(n + 1);
  (0..k).map(|_| {
    let m = g.r.below(4);
    (0..m).map(|_| match g.r.below(4) {
      0..=1 => { let n = g.r.pick(&["S", "V", "W", "A"]).to_string(); g.vars.push((n.clone(), 0)); (n, SV::Str(g.lit())) }
      2 => { let n = g.r.pick(&["Q", "B"]).to_string(); g.vars.push((n.clone(), 1)); let mut t = g.tt(0); t.err = false; t.abs = Some(g.range()); (n, SV::Tok(t)) }
      _ => { let n = g.r.pick(&["M", "L"]).to_string(); g.vars.push((n.clone(), 0)); let p = if g.r.chance(60) { g.script(2) } else { g.leaf() }; g.mats.push(p.clone()); (n, SV::Mat(p)) }
    }).collect()
  }).collect()
}

pub fn matcher_case(prop: &str, r: &mut Rng) -> Case {
  let src = source(r, if prop == "C03" { 14 } else { 9 });
  let win = window(r, &src);
  let mut g = G { r, uid: 0, src: src.clone(), vars: vec![], mats: vec![], loops: vec![] };
  let ls = layers(&mut g, 3);
  let arg = if g.r.chance(20) { Some(layers(&mut g, 2)) } else { None };
  let mut tokenize = false;
  let k = match prop {
    "C01" => { let n = g.oname(); let mut f = g.f();
      if g.r.chance(70) { // aim at the window start
        let b: Vec<usize> = bounds(&src).into_iter().filter(|x| *x >= win.0).collect(); let e = b[g.r.below(b.len().min(4))]; f = F::Lit(src[win.0..e].to_string()); }
      K::Equals(f, n) }
    "C02" => { let n = g.oname(); K::Matches(g.regex(), n) }
    "C03" => {
      let n = g.oname();
      if g.r.chance(15) { K::Sequence(F::Var(g.var()), F::Var(g.var()), F::Var(g.var()), n) } else {
        let b = bounds(&src); let b: Vec<usize> = b.into_iter().filter(|x| *x >= win.0 && *x <= win.1).collect();
        let st = if g.r.chance(80) && b.len() > 1 { src[b[0]..b[1 + g.r.below((b.len() - 1).min(2))]].to_string() } else { g.lit() };
        let en = g.lit(); let es = if g.r.chance(20) { String::new() } else { g.lit() };
        K::Sequence(F::Lit(st), F::Lit(en), F::Lit(es), n) } }
    "C04" => { let n = g.oname(); let k = 1 + g.r.below(4); let ps = (0..k).map(|_| if g.r.chance(8) { // a token lying anywhere before the end of the window
        let mut t = g.tt(1); let (mut a, mut b) = g.range(); let cut = |x: &mut Rg| { x.0 = x.0.min(win.1); x.1 = x.1.min(win.1); }; cut(&mut a); cut(&mut b); t.abs = Some((a, b)); let t = if g.r.chance(70) { Tpl::Tok(t) } else { Tpl::Proxy(t) }; g.mk(K::Script { tpls: vec![t], consuming: true, name: None, set: None }) } else if g.r.chance(60) { g.walker() } else if g.r.chance(60) { g.script(1) } else { g.leaf() }).collect(); K::Program(ps, n) }
    "C05" => { let n = g.oname(); let k = 1 + g.r.below(4); let ps = (0..k).map(|_| { let q = g.script(1); if g.r.chance(50) { let K::Script { consuming, name, .. } = &q.k else { unreachable!() }; let t = if g.r.chance(50) { Tpl::Fail } else if g.r.chance(50) { Tpl::Skip(0) } else { let mut t = g.tt(1); t.pin = true; Tpl::Tok(t) }; let (c, nn) = (*consuming, name.clone()); g.mk(K::Script { tpls: vec![t], consuming: c, name: nn, set: None }) } else { q } }).collect(); K::Switch(ps, n) }
    "C06" => { let n = g.oname(); g.loops.push(n.clone().unwrap_or("Loop".into())); let k = 1 + g.r.below(3); let ps = (0..k).map(|_| if g.r.chance(75) { g.walker() } else if g.r.chance(60) { g.script(3) } else { g.leaf() }).collect(); let lo = g.r.below(4); let hi = if g.r.chance(30) { usize::MAX } else { g.r.below(5) }; K::Loop(ps, n, lo, hi) }
    "C07" => { let c = g.script(1); if g.r.chance(50) { K::Optional(c) } else { K::Not(c) } }
    "C08" => {
      let e = { let t = g.errt(); g.mk(K::Script { tpls: vec![t], consuming: true, name: None, set: None }) };
      let before = g.walker(); let after = g.script(1);
      let n = g.oname();
      match g.r.below(16) {
        0 => K::Program(vec![before, e, after], n), 1 => K::Switch(vec![{ let t = if g.r.chance(50) { Tpl::Fail } else { Tpl::Skip(0) }; g.mk(K::Script { tpls: vec![t], consuming: true, name: None, set: None }) }, e, after], n),
        2 | 3 => { let t = g.walker(); let lo = g.r.below(3); let e2 = g.mk(K::Script { tpls: vec![Tpl::Skip(0), Tpl::Skip(0), g_err(&e)], consuming: true, name: None, set: None }); K::Loop(vec![t, e2, after], n, lo, 5) }
        4 => K::Optional(e), 5 => K::Not(e), 6 => K::Discard(e), 7 => K::Proxy(e, n), 8 => K::Expand(e), 9 => K::Store("S".into(), e), 10 => K::Ref(F::Mat(e), n),
        11 => K::Pin(Some(e), F::Lit("+0".into()), n), 12 => K::SetScope(e), 13 => K::AssertIf(e), 14 => K::AssertIfNot(e), _ => { tokenize = true; K::Program(vec![before, e], n) }
      }
    }
    "C09" => { let c = g.script(1); if g.r.chance(60) { let mut t = g.tt(3); t.lead = 0; let t = if g.r.chance(50) { Tpl::Tok(t) } else { Tpl::Proxy(t) }; let t = if g.r.chance(30) { Tpl::Break("L".into(), Box::new(t)) } else if g.r.chance(30) { Tpl::Cont("L".into(), Box::new(t)) } else { t }; let c = g.mk(K::Script { tpls: vec![t], consuming: true, name: None, set: None }); K::Discard(c) } else { K::Discard(c) } }
    "C10" if g.r.chance(10) => { // one scope handed to the same matcher again after a failure inside it
      let (t, set) = (if g.r.chance(70) { Tpl::Fail } else { Tpl::Skip(0) }, if g.r.chance(40) { Some(("V".into(), "set".into())) } else { None });
      let first = g.mk(K::Script { tpls: vec![t, Tpl::Skip(0)], consuming: true, name: None, set });
      let w = g.lit(); let e = g.mk(K::Equals(F::Var("V".into()), None)); let body = g.mk(K::Program(vec![first, e], None));
      let s = if g.r.chance(75) { g.mk(K::SetScopeOwn(body, vec![("V".into(), w)])) } else { g.mk(K::SetScope(body)) };
      let o = g.mk(K::Optional(s)); let t = g.walker(); K::Loop(vec![o, t], None, 0, 4) }
    "C10" => { let c = if g.r.chance(30) { let c = g.script(2); g.mk(K::SetScope(c)) } else if g.r.chance(40) { let (a, b) = (g.mk(K::StoreS("S".into(), "in".into())), g.script(2)); g.mk(K::Program(vec![a, b], None)) } else { g.script(1) }; if g.r.chance(70) { K::SetScope(c) } else { K::SetScopeOwn(c, vec![("V".into(), "own".into())]) } }
    "C11" => {
      let n = g.oname();
      match g.r.below(9) {
        0 => { let c = g.script(1); K::Store("S".into(), c) }
        1 => K::StoreS("S".into(), g.lit()),
        2 => { let f = g.f(); K::Ref(f, n) }
        3 => { let f = if g.r.chance(50) { F::Lit("M".into()) } else { F::Var(g.r.pick(&["M", "L"]).to_string()) }; K::Ref(f, n) }
        4 => { let c = g.script(1); K::Ref(F::Mat(c), n) }
        5 => { let a = g.script(1); let b = g.leaf(); K::Register(vec![a, b]) }
        6 => K::Equals(F::Var(g.var()), n),
        7 => { let t = g.walker(); let st = g.mk(K::Store("S".into(), t)); let v = format!("S.{}", g.r.pick(&["captured_value", "matched_value", "start", "end"])); let e = g.mk(K::Equals(F::Var(v), n.clone())); K::Program(vec![st, e], n) }
        _ => { let a = g.leaf(); let nm = name_of(&a); let reg = g.mk(K::Register(vec![a])); let rf = g.mk(K::Ref(F::Lit(nm), n.clone())); let w = g.walker(); K::Program(vec![reg, rf, w], n) }
      }
    }
    "C15" => { tokenize = true; let mut t = g.tt(4); if g.r.chance(60) { t.err = false; t.name = "A".into(); } let t = match g.r.below(8) { 0..=3 => Tpl::Tok(t), 4 => Tpl::Proxy(t), 5 => Tpl::Break("L".into(), Box::new(if g.r.chance(60) { Tpl::Tok(t) } else { g.tpl(1, false) })), 6 => Tpl::Cont("".into(), Box::new(if g.r.chance(60) { Tpl::Tok(t) } else { g.tpl(1, false) })), _ => g.tpl(3, true) }; K::Script { tpls: vec![t], consuming: true, name: None, set: None } }
    "C18" => {
      let n = g.oname(); let b = bounds(&src);
      let one = |g: &mut G, base: usize| -> (String, usize) { let t = *g.r.pick(&b); match g.r.below(5) { 0 => (t.to_string(), t), 1 | 2 => if t >= base { (format!("+{}", t - base), t) } else { (format!("-{}", base - t), t) }, 3 => (g.r.pick(&["", "+", "-", "+0", "-0"]).to_string(), base), _ => (format!("{}", t), t) } };
      let (a, at) = one(&mut g, win.0);
      let o = if g.r.chance(60) { let (e, _) = one(&mut g, at); format!("{}..{}", a, e) } else { a };
      let f = if g.r.chance(20) { F::Var(g.var()) } else { F::Lit(o) };
      let c = if g.r.chance(60) { Some(g.script(1)) } else { None };
      let pin = K::Pin(c, f, n);
      if g.r.chance(25) { let p = g.mk(pin); let (a, b) = (g.walker(), g.script(1)); K::Program(vec![a, p, b], None) } else { pin }
    }
    "C19" => {
      let c = g.script(1);
      match g.r.below(11) { 0..=2 => { let (a, b) = (g.r.below(5) as u8, g.r.below(4) as u8); K::Map(c, a, b) } 3..=4 => K::Catch(c, g.r.below(4) as u8), 5 => K::Error("oops".into()), 6 => if g.r.chance(40) { K::Panic("oops".into()) } else { let p = g.mk(K::Panic("oops".into())); let w = g.walker(); K::Program(vec![w, p], None) }, 7 => K::FatalIf(c), 8 => K::FatalIfNot(c), 9 => K::AssertIf(c), _ => K::AssertIfNot(c) }
    }
    "C20" => { let c = g.script(1); let n = g.oname(); if g.r.chance(50) { K::Proxy(c, n) } else { K::Expand(c) } }
    _ => K::Null,
  };
  let k = if prop == "C09" && g.r.chance(30) { let d = g.mk(k); let (a, b) = (g.walker(), g.script(1)); K::Program(vec![a, d, b], None) } else { k };
  let p = g.mk(k);
  let file = g.r.pick(&["", "f.axo"]).to_string();
  both(&Setup { src, file, win, p, layers: ls, arg_scope: arg, tokenize })
}
fn g_err(p: &PR) -> Tpl { match &p.k { K::Script { tpls, .. } => tpls[0].clone(), _ => Tpl::Fail } }

fn scope_case(r: &mut Rng) -> Case {
  if r.chance(50) { return matcher_case("C10", r); }
  let keys = ["a", "b", "", "é", "_", "a.x"];
  let mut model: Vec<BTreeMap<String, String>> = vec![];
  let n = 1 + r.below(14);
  let mut ops = vec![];
  for _ in 0..n { ops.push((r.below(6), r.below(6), r.below(9))); }
  if r.chance(10) { for _ in 0..r.below(300) { ops.insert(1, (0, 0, 0)); } }
  let mut exp = String::new();
  for (o, k, v) in &ops {
    match o {
      0 => model.push(BTreeMap::new()),
      1 => { exp.push_str(&format!("{} ", model.pop().is_some())); }
      2 | 3 => { if model.is_empty() { model.push(BTreeMap::new()); } let old = model.last_mut().unwrap().insert(keys[*k].to_string(), v.to_string()); exp.push_str(&format!("{:?} ", old)); }
      _ => { exp.push_str(&format!("{:?} ", model.iter().rev().find_map(|m| m.get(keys[*k])))); }
    }
    exp.push_str(&format!("{} ", model.len()));
    for k in keys { exp.push_str(&format!("{:?}", model.iter().rev().find_map(|m| m.get(k)))); }
  }
  let act = guarded(|| {
    let sc = ScopeContext::new();
    let mut out = String::new();
    // a value is a text, a token or a matcher, known by its number
    let parser = adextopa_core::parser::Parser::new("x");
    let toks: Vec<TokenRef> = (0..9).map(|_| StandardToken::new(&parser, "T".into(), SourceRange::new(0, 1))).collect();
    let mats: Vec<adextopa_core::matcher::MatcherRef> = (0..9).map(|i| if i == 4 { adextopa_core::Program!(adextopa_core::Null!()) } else { adextopa_core::Equals!("x") }).collect();
    let mk = |v: usize| match v % 3 { 0 => VariableType::String(v.to_string()), 1 => VariableType::Matcher(mats[v].clone()), _ => VariableType::Token(toks[v].clone()) };
    let sh = |v: Option<VariableType>| -> Option<String> { v.map(|v| match v {
      VariableType::String(s) => s,
      VariableType::Token(t) => toks.iter().position(|x| Rc::ptr_eq(x, &t)).map(|i| i.to_string()).unwrap_or("?".into()),
      VariableType::Matcher(m) => mats.iter().position(|x| Rc::ptr_eq(x, &m)).map(|i| i.to_string()).unwrap_or("?".into()) }) };
    for (o, k, v) in &ops {
      match o {
        0 => sc.borrow_mut().push(RScope::new()),
        1 => { let x = sc.borrow_mut().pop(); out.push_str(&format!("{} ", x.is_some())); }
        2 | 3 => { let x = sc.borrow_mut().set(keys[*k], mk(*v)); out.push_str(&format!("{:?} ", sh(x))); }
        _ => { let x = sc.borrow().get(keys[*k]); out.push_str(&format!("{:?} ", sh(x))); }
      }
      out.push_str(&format!("{} ", real::depth(&sc)));
      for k in keys { let x = sc.borrow().get(k); out.push_str(&format!("{:?}", sh(x))); }
    }
    out
  });
  verdict(|| format!("scope operations (0 push, 1 pop, 2/3 set, 4/5 get; key; value) {:?}", ops), exp, act)
}

/// the variable and matcher functions of a context
fn context_case(r: &mut Rng) -> Case {
  let names = ["a", "bb", "", "é", "_", "Equals", "Program", "Reg"];
  let n = 1 + r.below(8);
  let ops: Vec<(usize, usize, usize, usize)> = (0..n).map(|_| (r.below(7), r.below(names.len()), r.below(6), r.below(6))).collect();
  // values: 0..2 text, 3..5 token, 6..11 matcher
  let own = ["Equals", "Equals", "Program", "é", "Optional", "Reg"];
  let mut model: BTreeMap<String, usize> = BTreeMap::new();
  let mut exp = String::new();
  for (o, k, a, b) in &ops {
    match o {
      0 => { model.insert(names[*k].to_string(), *a); }
      1 => { model.insert(names[*k].to_string(), 6 + a); }
      2 => { model.insert(own[*a].to_string(), 6 + a); }
      3 => { model.insert(own[*a].to_string(), 6 + a); model.insert(own[*b].to_string(), 6 + b); }
      4 => { model.insert(names[*k].to_string(), 6 + a); model.insert(format!("{}x", names[*k]), 6 + b); }
      _ => {}
    }
    for n in names { exp.push_str(&format!("{:?}/{:?} ", model.get(n), model.get(n).filter(|v| **v >= 6).map(|v| v - 6))); }
    exp.push_str(&format!("{} ", if model.is_empty() { 0 } else { 1 }));
  }
  let act = guarded(|| {
    use adextopa_core::matcher::MatcherRef;
    let parser = adextopa_core::parser::Parser::new("x");
    let ctx = ParserContext::new(&parser, "C");
    let toks: Vec<TokenRef> = (0..3).map(|_| StandardToken::new(&parser, "T".into(), SourceRange::new(0, 1))).collect();
    let mats: Vec<MatcherRef> = vec![adextopa_core::Equals!("x"), adextopa_core::Equals!("y"), adextopa_core::Program!(adextopa_core::Null!()),
      adextopa_core::Equals!("é"; "x"), adextopa_core::Optional!(adextopa_core::Equals!("x")), adextopa_core::Program!("Reg"; adextopa_core::Equals!("x"))];
    let sh = |v: VariableType| -> usize { match v {
      VariableType::String(s) => s.parse().unwrap_or(99),
      VariableType::Token(t) => toks.iter().position(|x| Rc::ptr_eq(x, &t)).map(|i| i + 3).unwrap_or(99),
      VariableType::Matcher(m) => mats.iter().position(|x| Rc::ptr_eq(x, &m)).map(|i| i + 6).unwrap_or(99) } };
    let mut out = String::new();
    for (o, k, a, b) in &ops {
      match o {
        0 => { let v = if *a < 3 { VariableType::String(a.to_string()) } else { VariableType::Token(toks[a - 3].clone()) }; ctx.borrow_mut().set_scope_variable(names[*k], v); }
        1 => ctx.borrow().register_matcher_with_name(names[*k], mats[*a].clone()),
        2 => ctx.borrow().register_matcher(mats[*a].clone()),
        3 => ctx.borrow().register_matchers(vec![mats[*a].clone(), mats[*b].clone()]),
        4 => { let other = format!("{}x", names[*k]); let mut h: std::collections::HashMap<&str, MatcherRef> = Default::default(); h.insert(names[*k], mats[*a].clone()); h.insert(&other, mats[*b].clone()); ctx.borrow().register_matchers_with_names(h) }
        _ => {}
      }
      for n in names { let v = ctx.borrow().get_scope_variable(n).map(&sh); let m = ctx.borrow().get_registered_matcher(n).map(|m| mats.iter().position(|x| Rc::ptr_eq(x, &m)).unwrap_or(99)); out.push_str(&format!("{:?}/{:?} ", v, m)); }
      out.push_str(&format!("{} ", real::depth(&ctx.borrow().get_scope())));
    }
    out
  });
  verdict(|| format!("context operations (0 variable, 1 matcher under a name, 2 matcher, 3 two matchers, 4 two matchers under names; name; which; which) {:?} names {:?}", ops, names), exp, act)
}

fn lines_case(r: &mut Rng) -> Case {
  let pool = ["\n", "\r", "\r\n", "a", "é", "字b", " ", "\n\n", "\u{2028}", "\u{85}", "\x0b", "\u{feff}"];
  let k = r.below(9);
  let src: String = (0..k).map(|_| *r.pick(&pool)).collect();
  let b = bounds(&src);
  let (i, j) = (r.below(b.len()), r.below(b.len()));
  let rg = (b[i.min(j)], b[i.max(j)]);
  let split = splits_crlf(&src, rg.0) || splits_crlf(&src, rg.1);
  let disk = r.chance(2);
  let file = if disk { let f = scratch().join("l.axo"); std::fs::write(&f, &src).unwrap(); f.to_str().unwrap().to_string() } else { r.pick(&["", "x/y.axo"]).to_string() };
  let msg = r.pick(&["", "m", "a: {}"]).to_string();
  let mut exp = format!("{:?}", lines(&src, rg));
  if !split { exp.push_str(&format!(" {:?} {}", columns(&src, rg), errstr(&file, &src, &msg, rg).unwrap())); }
  let act = guarded(|| {
    let cx = if disk { ParserContext::new(&adextopa_core::parser::Parser::new_from_file(&file).unwrap(), "C") } else { real::context(&src, &file, (0, src.len())) };
    let cx = cx.borrow();
    let r = SourceRange::new(rg.0, rg.1);
    let mut o = format!("{:?}", cx.get_lines(&r));
    if !split { o.push_str(&format!(" {:?} {}", cx.get_columns(&r), cx.get_error_as_string(&msg, &r))); }
    o
  });
  verdict(|| format!("source {:?} range {:?} file {:?} message {:?}", src, rg, file, msg), exp, act)
}

fn token_case(r: &mut Rng) -> Case {
  let src = source(r, 7);
  let mut uid = 0;
  let b = bounds(&src);
  let rng = |r: &mut Rng| { let (i, j) = (r.below(b.len()), r.below(b.len())); (b[i.min(j)], b[i.max(j)]) };
  let _ = &mut uid;
  let (c0, m0) = (rng(r), rng(r));
  let same = r.chance(40);
  let pin = r.chance(20);
  let m0 = if same { c0 } else { m0 };
  let n = r.below(10);
  let strs = ["", "x", "__value", "é", "A", "B", "__matched_value"];
  let ops: Vec<(usize, usize, usize, Rg)> = (0..n).map(|_| (r.below(13), r.below(7), r.below(7), rng(r))).collect();
  let t = T::new(&src, "A", c0, m0, pin);
  let mut exp = String::new();
  let obs = |t: &TokR| { let mut s = String::new(); dump(t, &mut vec![], &mut s); s };
  let find = |t: &TokR, n: &str| t.borrow().kids.iter().position(|k| k.borrow().name == n);
  exp.push_str(&obs(&t));
  let mut stop = false;
  for (o, a, b2, rg) in &ops {
    let (sa, sb) = (strs[*a], strs[*b2]);
    match o {
      0 => { if pin { stop = true; break; } let mut q = t.borrow_mut(); q.set_cap(&src, *rg); }
      1 => { if pin { stop = true; break; } let mut q = t.borrow_mut(); q.set_mat(&src, *rg); }
      2 => t.borrow_mut().value = if sa.is_empty() { None } else { Some(sa.to_string()) },
      3 => { let old = t.borrow_mut().attrs.insert(sa.to_string(), sb.to_string()); exp.push_str(&format!("{:?}", old)); }
      4 => t.borrow_mut().flags = (*a * 37 + *b2) as u8,
      5 => t.borrow_mut().flags |= (*a * 37 + *b2) as u8,
      6 => { let f = (*a * 37 + *b2) as u8; let mut q = t.borrow_mut(); q.flags &= !f; }
      7 => t.borrow_mut().name = sa.to_string(),
      8 => { let c = T::new(&src, sa, *rg, *rg, rg.0 % 3 == 1); t.borrow_mut().kids.push(c); }
      9 => { let c = T::new(&src, sa, *rg, *rg, rg.0 % 3 == 1); let d = T::new(&src, sb, *rg, *rg, rg.0 % 3 == 1); t.borrow_mut().kids = vec![c, d]; }
      10 => { let p = if *a == 0 { None } else { Some(T::new(&src, sa, *rg, *rg, rg.0 % 3 == 1)) }; t.borrow_mut().parent = p; }
      11 => { let f = (*a * 37 + *b2) as u8; let q = t.borrow(); exp.push_str(&format!("{} {:?} {}", q.flags & f != 0, q.attrs.get(sa), q.attrs.get(sa).map(|x| x == sb).unwrap_or(false))); }
      _ => exp.push_str(&format!("{:?} {} {:?}", find(&t, sa), find(&t, sa).is_some(), t.borrow().kids.iter().position(|k| k.borrow().name.starts_with('_')))),
    }
    exp.push('|'); exp.push_str(&obs(&t));
  }
  if stop { return Case::Skip; }
  let act = guarded(|| {
    let parser = adextopa_core::parser::Parser::new(&src);
    let sr = |r: Rg| SourceRange::new(r.0, r.1);
    use adextopa_core::matchers::pin::PinToken;
    let t: TokenRef = match (pin, same) { (false, true) => StandardToken::new(&parser, "A".into(), sr(c0)), (false, false) => StandardToken::new_with_matched_range(&parser, "A".into(), sr(c0), sr(m0)), (true, true) => PinToken::new(&parser, "A".into(), sr(c0)), (true, false) => PinToken::new_with_matched_range(&parser, "A".into(), sr(c0), sr(m0)) };
    let mk = |n: &str, r: Rg| if r.0 % 3 == 1 { PinToken::new(&parser, n.to_string(), sr(r)) } else { StandardToken::new(&parser, n.to_string(), sr(r)) };
    let mut out = String::new();
    let obs = |t: &TokenRef| { let mut s = String::new(); real::dump(t, &mut vec![], &mut s); s };
    out.push_str(&obs(&t));
    for (o, a, b2, rg) in &ops {
      let (sa, sb) = (strs[*a], strs[*b2]);
      let f = (*a * 37 + *b2) as u8;
      let pos = |c: Option<TokenRef>| c.map(|c| t.borrow().get_children().iter().position(|k| Rc::ptr_eq(k, &c)).unwrap());
      match o {
        0 => t.borrow_mut().set_captured_range(sr(*rg)),
        1 => t.borrow_mut().set_matched_range(sr(*rg)),
        2 => t.borrow_mut().set_value(sa),
        3 => { let old = t.borrow_mut().set_attribute(sa, sb); out.push_str(&format!("{:?}", old)); }
        4 => t.borrow_mut().set_flags(f), 5 => t.borrow_mut().enable_flags(f), 6 => t.borrow_mut().disable_flags(f),
        7 => t.borrow_mut().set_name(sa),
        8 => t.borrow_mut().add_child(mk(sa, *rg)),
        9 => t.borrow_mut().set_children(vec![mk(sa, *rg), mk(sb, *rg)]),
        10 => { let p = if *a == 0 { None } else { Some(mk(sa, *rg)) }; t.borrow_mut().set_parent(p); }
        11 => { let q = t.borrow(); out.push_str(&format!("{} {:?} {}", q.flags_enabled(f), q.get_attribute(sa), q.attribute_equals(sa, sb))); }
        _ => { let (x, h) = { let q = t.borrow(); (q.find_child(sa), q.has_child(sa)) }; let y = { let q = t.borrow(); q.find_child_fuzzy(&regex::Regex::new("^_").unwrap()) }; out.push_str(&format!("{:?} {} {:?}", pos(x), h, pos(y))); }
      }
      out.push('|'); out.push_str(&obs(&t));
    }
    out
  });
  verdict(|| format!("source {:?} captured {:?} matched {:?} pin {} operations {:?} over {:?}", src, c0, m0, pin, ops, strs), exp, act)
}

fn visitor_case(r: &mut Rng) -> Case {
  let src = "abcdef".to_string();
  let mut g = G { r, uid: 0, src: src.clone(), vars: vec![], mats: vec![], loops: vec![] };
  let mut t = g.tt(4);
  fn rename(g: &mut G, t: &mut TT) { t.name = g.r.pick(&["A", "B", "C", "*", "A", "B", "", "Error", "a", " A", "é"]).to_string(); for k in &mut t.kids { rename(g, k); } }
  if g.r.chance(25) { let k = if g.r.chance(4) { 60 + g.r.below(80) } else { 3 + g.r.below(5) }; for _ in 0..k { let x = g.tt(1); t.kids.push(x); } }
  rename(&mut g, &mut t);
  let nh = g.r.below(5);
  let hooks: Vec<(String, usize)> = (0..nh).map(|_| (g.r.pick(&["A", "B", "*", "D", "A", "*", "", "Error", "a", " A", "A ", "é"]).to_string(), if g.r.chance(70) { usize::MAX } else { g.r.below(4) })).collect();
  let errs: Vec<(String, Option<(usize, usize)>)> = (0..nh).map(|i| ((*g.r.pick(&["h", "", "x", "*"])).replace("h", &format!("h{}", i)), *g.r.pick(&[None, None, Some((0, 0)), Some((1, 3)), Some((6, 6))]))).collect();
  // model
  let mut log: Vec<String> = vec![];
  let mut counts = vec![0usize; nh];
  fn number(t: &TT, n: &mut usize, out: &mut Vec<(usize, String, Vec<usize>)>) -> usize { let me = *n; *n += 1; let at = out.len(); out.push((me, t.name.clone(), vec![])); let mut ks = vec![]; for k in &t.kids { ks.push(number(k, n, out)); } out[at].2 = ks; me }
  let mut nodes = vec![]; number(&t, &mut 0, &mut nodes);
  let dflt = hooks.iter().position(|h| h.0 == "*");
  let mut res = "Ok".to_string();
  for (id, name, _) in &nodes {
    if let Some(h) = hooks.iter().position(|h| h.0 == *name).or(dflt) {
      log.push(format!("{}:{}", h, id));
      let c = counts[h]; counts[h] += 1;
      if c == hooks[h].1 { res = format!("Err({:?})", errs[h]); break; }
    }
  }
  let exp = format!("{} {:?}", res, log);
  let act = guarded(|| {
    let parser = adextopa_core::parser::Parser::new(&src);
    let tok = real::mktok(&parser, &src, &t, (0, src.len()));
    let mut order: Vec<TokenRef> = vec![];
    fn pre(t: &TokenRef, o: &mut Vec<TokenRef>) { o.push(t.clone()); for k in t.borrow().get_children() { pre(k, o); } }
    pre(&tok, &mut order);
    let log = RefCell::new(Vec::<String>::new());
    let counts: Vec<Cell<usize>> = (0..nh).map(|_| Cell::new(0)).collect();
    let res = {
      let mut v = TokenVisitor::new();
      for (i, h) in hooks.iter().enumerate() {
        let (log, counts, order, at, err) = (&log, &counts, &order, h.1, &errs[i]);
        v.add_visitor(&h.0, Box::new(move |t: TokenRef| {
          let id = order.iter().position(|x| Rc::ptr_eq(x, &t)).unwrap();
          log.borrow_mut().push(format!("{}:{}", i, id));
          let c = counts[i].get(); counts[i].set(c + 1);
          if c == at { Err(match err.1 { None => ParseError::new(&err.0), Some(r) => ParseError::new_with_range(&err.0, SourceRange::new(r.0, r.1)) }) } else { Ok(()) }
        }));
      }
      v.visit(tok.clone())
    };
    format!("{} {:?}", match res { Ok(()) => "Ok".to_string(), Err(e) => format!("Err({:?})", (e.message.clone(), e.range.map(|r| (r.start, r.end)))) }, log.borrow())
  });
  verdict(|| format!("tree {:?} hooks (name, call that fails) {:?}", t, hooks), exp, act)
}

// ---- scripts -------------------------------------------------------------------------------------------------
struct Sg<'a> { r: &'a mut Rng, uid: usize, names: Vec<String> }
impl<'a> Sg<'a> {
  fn mk(&mut self, k: K) -> PR { self.uid += 1; Rc::new(P { uid: self.uid, k }) }
  fn quoted(&mut self, dflt: &[&str]) -> (String, String) {
    let v = self.r.pick(dflt).to_string();
    (format!("'{}'", v.replace('\\', "\\\\").replace('\'', "\\'")), v)
  }
  /// inner matcher: text, pattern given the name ("" keeps the default)
  fn inner(&mut self, name: &str, depth: usize) -> (String, PR) {
    let n = if name.is_empty() { None } else { Some(name.to_string()) };
    match if !self.names.is_empty() && self.r.chance(15) { 5 } else { self.r.below(if depth > 0 { 9 } else { 6 }) } {
      0 | 1 => { let (t, v) = self.quoted(&["a", "b", "ab", "é", "'", "\\", "aa", "x y"]); (format!("={}", t), self.mk(K::Equals(F::Lit(v), n))) }
      2 | 3 => { let re = *self.r.pick(&["a+", "[ab]", "[ab]+", "\\w", "b", "ab?", "\\s", "[^/]", "x\\/y", "A", "a.", "[/]", "[b]a", "[\\]a]", "[^\\]/]+", "a{1,2}"]); let fl = *self.r.pick(&["", "", "i", "s", "is", "im", "U"]); let full = if fl.is_empty() { re.to_string() } else { format!("(?{}){}", fl, re) }; (format!("/{}/{}", re, fl), self.mk(K::Matches(full, n))) }
      4 => { let (a, av) = self.quoted(&["'", "[", "a", "ab"]); let (b, bv) = self.quoted(&["'", "]", "b"]); let (c, cv) = self.quoted(&["\\", "", "a"]); let (sep, sep2) = (*self.r.pick(&[",", ", ", " , ", "\n,\t"]), *self.r.pick(&[",", ", ", " , ", "\n,\t"])); (format!("%{}{}{}{}{}{}", self.r.pick(&["", "", " "]), a, sep, b, sep2, c), self.mk(K::Sequence(F::Lit(av), F::Lit(bv), F::Lit(cv), n))) }
      5 => { if self.names.is_empty() { return self.inner(name, depth); } let t = self.r.pick(&self.names).clone(); (t.clone(), self.mk(K::Ref(F::Lit(t), n))) }
      k => {
        let m = 1 + self.r.below(3);
        let (mut ts, mut ps) = (vec![], vec![]);
        for _ in 0..m { let (t, p) = self.pattern(depth - 1); ts.push(t); ps.push(p); }
        if k == 6 { (format!("[{}{}{}]", self.r.pick(&["", "", " ", "\n"]), ts.join(*self.r.pick(&["|", " | ", "\n| ", " |\n"])), self.r.pick(&["", "", " ", "\n"])), self.mk(K::Switch(ps, n))) } else { (format!("{{{}{}{}}}", self.r.pick(&["", "", " ", "\n"]), ts.join(*self.r.pick(&["", " ", "\n"])), self.r.pick(&["", "", " ", "\n"])), self.mk(K::Program(ps, n))) }
      }
    }
  }
  fn def(&mut self, name: &str, depth: usize) -> (String, PR) {
    let (t, mut p) = self.inner(name, depth);
    let mut attrs = String::new();
    if self.r.chance(35) {
      let mut at: Vec<(String, String)> = vec![];
      for k in ["k", "hello", "value", "name", "z9"] { if !self.r.chance(40) { continue; } let (q, v) = self.quoted(&["v", "w w", "é", "", "A", "it's", "\\"]); let (a, b) = (*self.r.pick(&[" ", " ", "\n", "\t "]), *self.r.pick(&["=", "=", " = ", "\t="])); attrs.push_str(&format!("{}{}{}{}", a, k, b, q)); at.push((k.to_string(), v)); }
      if at.is_empty() { attrs.push_str(" k='v'"); at.push(("k".into(), "v".into())); }
      // the last value given for an attribute counts
      if self.r.chance(15) { let k = at[0].0.clone(); attrs.push_str(&format!(" {}='last'", k)); at[0].1 = "last".into(); }
      p = self.mk(K::Attrs(p, at));
    }
    let io = self.r.below(8);
    let ins = match io { 0 => { p = self.mk(K::Optional(p)); "?" } 1 => { p = self.mk(K::Not(p)); "!" } _ => "" };
    let mut rep = String::new();
    if self.r.chance(40) {
      let (x, y) = if self.r.chance(8) { (10 + self.r.below(3), 10 + self.r.below(9)) } else { (self.r.below(3), self.r.below(4)) };
      let sp = *self.r.pick(&["", " "]);
      let (t, lo, hi) = match self.r.below(5) { 0 => ("*".to_string(), 0, usize::MAX), 1 => ("+".into(), 1, usize::MAX), 2 => (format!("{{{}{},{}{}{}}}", sp, x, sp, x + y, sp), x, x + y), 3 => (format!("{{{}{},{}}}", sp, x, sp), x, usize::MAX), _ => (format!("{{{}{}{}}}", sp, y, sp), 0, y) };
      rep = t;
      p = self.mk(K::Loop(vec![p], None, lo, hi));
    }
    let oo = self.r.below(8);
    let out = match oo { 0 => { p = self.mk(K::Optional(p)); "?" } 1 => { p = self.mk(K::Not(p)); "!" } _ => "" };
    let sp = *self.r.pick(&["", "", " ", "\n"]);
    (format!("{}<{}{}{}{}{}>{}", out, ins, sp, t, attrs, if attrs.is_empty() { "" } else { sp }, rep), p)
  }
  fn pattern(&mut self, depth: usize) -> (String, PR) {
    if self.r.chance(60) {
      let named = self.r.chance(15);
      let (t, p) = self.def(if named { "Name" } else { "" }, depth);
      // known finding: a pattern named in a script is called Name, whatever name it is given
      let (a, b) = (*self.r.pick(&["", "", "", " ", "\n"]), *self.r.pick(&["", "", "", " ", "\n"]));
      (if named { format!("({}?'nm' {}{})", a, t, b) } else { format!("({}{}{})", a, t, b) }, p)
    } else { let (t, p) = self.def("", depth); (t, self.mk(K::Discard(p))) }
  }
}

/// a directory of this process for scripts in files; it lies beside the result file
fn scratch() -> std::path::PathBuf {
  let d = crate::SCRATCH.get().unwrap().clone();
  std::fs::create_dir_all(&d).unwrap();
  d
}

type Compiled = Result<(adextopa_core::matcher::MatcherRef, Option<ScopeContextRef>), Vec<ParseError>>;
fn compile(script: &str, libs: &[Lib], how: usize, flags: u32) -> Result<Compiled, String> {
  use adextopa_core::{parser::Parser, script::current::parser as cp};
  if libs.is_empty() && how != 2 {
    return guarded(|| if how == 1 { cp::compile_script_from_str(script, "Root".into(), flags).map(|m| (m, None)) } else { cp::compile_script(Parser::new(script), "Root".into(), None, flags).map(|c| (c.1, Some(c.2))) });
  }
  let d = scratch();
  for l in libs { std::fs::write(d.join(&l.0), &l.1).unwrap(); }
  let f = d.join("main.adx"); std::fs::write(&f, script).unwrap();
  let f = f.to_str().unwrap();
  guarded(|| if how == 1 { cp::compile_script_from_file(f, flags).map(|m| (m, None)) } else { cp::compile_script(Parser::new_from_file(f).unwrap(), "Root".into(), Some(f), flags).map(|c| (c.1, Some(c.2))) })
}

/// a script that is imported: file name, text, names it defines, names of the scope it was imported from
struct Lib(String, String, Vec<(String, PR)>);

fn compiled(script: &str, libs: &[Lib], srcs: &[(String, usize)], targets: &[(String, Option<PR>)], root: &PR, scope: &[(String, PR)], how: usize) -> Case {
  let told = || format!("script {:?}{}", script, libs.iter().map(|l| format!(" with {}: {:?}", l.0, l.1)).collect::<String>());
  let c = match compile(script, libs, how & 15, how as u32 >> 4) { Ok(Ok(c)) => c, Ok(Err(e)) => return Case::Bad { input: told(), expected: "compiles".into(), actual: format!("{:?}", e) }, Err(e) => return Case::Bad { input: told(), expected: "compiles".into(), actual: e } };
  // names registered by a run stay in the definitions' scope, on both sides
  let shared: Vec<ScopeC> = std::iter::once(scope).chain(libs.iter().map(|l| &l.2[..])).map(|x| { let sc: ScopeC = Rc::new(RefCell::new(vec![])); for (k, v) in x { sc_set(&sc, k, V::Mat(v.clone())); } sc }).collect();
  let sc = shared[0].clone();
  for (src, at) in srcs {
    for (t, p) in targets {
      let w = World { src: src.clone(), file: "".into(), log: RefCell::new(vec![]), counts: RefCell::new(BTreeMap::new()), fuel: Cell::new(3000), names: vec![], shared: RefCell::new(shared.clone()), own: RefCell::new(BTreeMap::new()) };
      if p.is_some() && c.1.is_none() { continue; }
      let cs: ScopeC = Rc::new(RefCell::new(vec![]));
      let cx = Cx { win: (*at, src.len()), stack: vec![], scope: cs.clone() };
      let er = match p { Some(_) => match sc_get(&sc, t) { Some(V::Mat(m)) => w.run(&m, &cx, &sc), _ => return Case::Skip }, None => w.run(root, &cx, &cs) };
      let exp = match er { Ok(e) => show(&e), Err(_) => return Case::Ok };
      let act = guarded(|| {
        let cx = real::context(src, "", (*at, src.len()));
        let r = match p {
          Some(_) => match c.1.as_ref().unwrap().borrow().get(t) { Some(VariableType::Matcher(m)) => Some(m), _ => None },
          None => Some(c.0.clone()),
        };
        match r { None => format!("{} is not bound to a matcher", t), Some(m) => { let s = if p.is_some() { c.1.clone().unwrap() } else { cx.borrow().get_scope() }; let r = m.borrow().exec(m.clone(), cx.clone(), s); real::show(&r) } }
      });
      match verdict(|| format!("{} matcher {:?} on sources {:?} (here {:?} at {})", told(), if p.is_some() { t.as_str() } else { "(root)" }, srcs, src, at), exp, act) { Case::Ok => {} b => return b }
    }
  }
  Case::Ok
}

fn sources(r: &mut Rng) -> Vec<(String, usize)> {
  let pool = ["a", "b", "ab", "aab", "é", "'", "\\", "x/y", "[", "]", " ", "A", "x y", "aaaa", "\n"];
  (0..4).map(|i| { let k = r.below(6); let s: String = if i == 0 { "aaaaaaa"[..r.below(8)].to_string() } else { (0..k).map(|_| *r.pick(&pool)).collect() }; let b = bounds(&s); let at = if r.chance(70) { 0 } else { *r.pick(&b) }; (s, at) }).collect()
}

/// a literal with a repetition: text, literal, the number of times it says (None: it says none)
fn repeated(g: &mut Sg) -> (String, String, Option<(usize, usize)>) {
  let x = if g.r.chance(20) { 10 + g.r.below(3) } else { g.r.below(5) }; let y = if g.r.chance(30) { 10 + g.r.below(5) } else { g.r.below(5) };
  let big = *g.r.pick(&["99999999999999999999999", "18446744073709551616"]);
  let s = *g.r.pick(&["", " ", "  "]);
  let (rep, want): (String, Option<(usize, usize)>) = match g.r.below(8) {
    0 => ("*".into(), Some((0, usize::MAX))), 1 => ("+".into(), Some((1, usize::MAX))),
    2 | 3 => (format!("{{{}{}{},{}{}{}}}", s, x, s, s, y, s), if x <= y { Some((x, y)) } else { None }),
    4 => (format!("{{{}{}{},{}}}", s, x, s, s), Some((x, usize::MAX))), 5 => (format!("{{{}{}{}}}", s, x, s), Some((0, x))),
    6 => (format!("{{{},{}}}", x, big), None), _ => (if g.r.chance(40) { format!("{{{}}}", big) } else if g.r.chance(30) { format!("{{{},}}", big) } else { (*g.r.pick(&["{2 3}", "{,3}", "{}", "{,}", "{-1}", "{1,2,3}", "{1.2}", "{1", "{1,x}", "**", "{a}", "{1 , 2", "{0x1}", "{3 1}"])).to_string() }, None),
  };
  let (t, v) = g.quoted(&["a", "aa", "b"]);
  (format!("<={}>{}", t, rep), v, want)
}

fn script_case(prop: &str, r: &mut Rng) -> Case {
  let srcs = sources(r);
  let mut g = Sg { r, uid: 0, names: vec![] };
  if prop == "C16" {
    let (d, v, want) = repeated(&mut g);
    let Some(first) = want else {
      let script = if g.r.chance(50) { format!("<!--[adextopa version='1']\nX = {}\n-->\n(<='z'>)", d) } else { format!("<!--[adextopa version='1']-->\n({})", d) };
      let c = guarded(|| match adextopa_core::script::current::parser::compile_script(adextopa_core::parser::Parser::new(&script), "Root".into(), None, 0) { Ok(_) => "accepted".to_string(), Err(_) => "rejected".to_string() });
      return verdict(|| format!("script {:?}", script), "rejected".into(), c);
    };
    // several definitions in one script: compiling it is what takes the time
    let mut text = String::from("<!--[adextopa version='1']\n# c\n"); let mut scope = vec![];
    for i in 0..6 {
      let (d, v, want) = repeated(&mut g);
      let Some((lo, hi)) = want else { continue };
      let n = format!("X{}", i);
      let e = g.mk(K::Equals(F::Lit(v), Some(n.clone())));
      let l = g.mk(K::Loop(vec![e], None, lo, hi));
      text.push_str(&format!("{} = {}\n", n, d)); scope.push((n, l));
    }
    let e = g.mk(K::Equals(F::Lit(v.clone()), None));
    let l = g.mk(K::Loop(vec![e], None, first.0, first.1));
    let inner = g.mk(K::Program(vec![l], None)); let px = g.mk(K::Proxy(inner, None)); let ss = g.mk(K::SetScopeShared(px, 0)); let root = g.mk(K::Program(vec![ss], Some("Root".into())));
    let srcs: Vec<(String, usize)> = (0..8).map(|_| ((*g.r.pick(&[v.as_str(), "a", "b"])).repeat(if g.r.chance(40) { 8 + g.r.below(9) } else { g.r.below(8) }) + g.r.pick(&["", "b", "c"]), 0)).collect();
    let mut targets: Vec<(String, Option<PR>)> = scope.iter().map(|(n, p)| (n.clone(), Some(p.clone()))).collect();
    targets.push(("".into(), None));
    return compiled(&format!("{}-->\n({})", text, d), &[], &srcs, &targets, &root, &scope, 0);
  }
  let whole = |g: &mut Sg, imports: &[(String, PR)], head: &str, tag: &str, ix: usize, name: &str| -> (String, Vec<(String, PR)>, PR) {
    let mut text = head.to_string();
    let mut scope: Vec<(String, PR)> = imports.to_vec();
    for i in 0..[0, 1, 4, 6, 8][g.r.below(5)] {
      let nm = format!("{}{}{}{}", g.r.pick(&["", "", "", "$", "z"]), tag, i, g.r.pick(&["", "", "", "$", "_x", "$1a"]));
      let eq = *g.r.pick(&[" = ", " = ", "=", "\n  = ", " =\n"]);
      if g.r.chance(15) && !g.names.is_empty() { let t = g.r.pick(&g.names).clone(); text.push_str(&format!("  {}{}{}\n", nm, eq, t)); let p = g.mk(K::Ref(F::Lit(t), None)); scope.push((nm.clone(), p)); }
      else { let (t, p) = g.def(&nm, 1); text.push_str(&format!("  {}{}{}{}", nm, eq, t, g.r.pick(&["\n", "\n", "\r\n", " # é <='a'>\n", "\n# c\r"]))); scope.push((nm.clone(), p)); }
      g.names.push(nm);
    }
    if g.r.chance(12) && !g.names.is_empty() {
      // a name bound again: the last definition counts, also for those that refer to it
      let nm = g.r.pick(&g.names).clone();
      let kept = std::mem::take(&mut g.names);
      let (t, p) = g.def(&nm, 1); text.push_str(&format!("  {} = {}\n", nm, t)); scope.push((nm, p));
      g.names = kept;
    }
    if g.r.chance(30) {
      // attributes a token already has stay as they are
      let v: Vec<usize> = (0..4).map(|_| g.r.below(3)).collect();
      let at = |t: usize| -> Vec<(String, String)> { ["k", "hello", "z9", "u"].iter().enumerate().filter(|(i, _)| v[*i] & (1 << t) == 0).map(|(_, k)| (k.to_string(), format!("v{}", t))).collect() };
      let show = |a: &[(String, String)]| a.iter().map(|(k, v)| format!(" {}='{}'", k, v)).collect::<String>();
      let (a0, a1) = (at(0), at(1));
      let e = g.mk(K::Equals(F::Lit("a".into()), Some(format!("{}A", tag)))); let p = if a0.is_empty() { e } else { g.mk(K::Attrs(e, a0.clone())) };
      text.push_str(&format!("{}A = <='a'{}>\n", tag, show(&a0))); scope.push((format!("{}A", tag), p));
      let e = g.mk(K::Ref(F::Lit(format!("{}A", tag)), Some(format!("{}B", tag)))); let p = if a1.is_empty() { e } else { g.mk(K::Attrs(e, a1.clone())) };
      text.push_str(&format!("{}B = <{}A{}>\n", tag, tag, show(&a1))); scope.push((format!("{}B", tag), p));
    }
    text.push_str("-->\n");
    let np = 1 + g.r.below(3);
    let mut ps = vec![];
    for _ in 0..np { let (t, p) = g.pattern(2); text.push_str(&t); text.push_str(g.r.pick(&["", "\n", " ", "\n# c\n"])); ps.push(p); }
    let inner = g.mk(K::Program(ps, None)); let px = g.mk(K::Proxy(inner, None)); let ss = g.mk(K::SetScopeShared(px, ix)); let root = g.mk(K::Program(vec![ss], Some(name.into())));
    (text, scope, root)
  };
  let extra = *g.r.pick(&["", "", " title='x'", " title=''"]);
  let named = g.r.chance(70);
  let top = format!("<!--[adextopa{}version='1'{}{}]\n# head{}", g.r.pick(&[" ", " ", "\t", "  "]), if named { " name='Top'" } else { "" }, extra, g.r.pick(&["\n", "\n", "\r\n", "\r"]));
  if g.r.chance(20) { return unusable(&mut g, &top); }
  let mut libs = vec![]; let mut imports: Vec<(String, PR)> = vec![]; let mut head = top.clone();
  if g.r.chance(30) {
    let lname = if g.r.chance(50) { " name='LibTop'" } else { "" };
    let (lt, ls, lroot) = whole(&mut g, &[], &format!("<!--[adextopa version='1'{}]\n# lib\n", lname), "L", 1, "I");
    g.names.clear();
    let mut ids = vec![];
    if g.r.chance(50) { let K::Program(ps, _) = &lroot.k else { unreachable!() }; let ps = ps.clone(); let r = g.mk(K::Program(ps, Some("I".into()))); imports.push(("I".into(), r)); ids.push("_ as I".to_string()); }
    for (i, (n, p)) in ls.iter().enumerate() {
      if g.r.chance(20) || ls[i + 1..].iter().any(|x| x.0 == *n) { continue; }
      let a = if g.r.chance(60) { let a = format!("As{}", n); ids.push(format!("{}{}as{}{}", n, g.r.pick(&[" ", " ", "\n", "  "]), g.r.pick(&[" ", " ", "\t"]), a)); a } else { ids.push(n.clone()); n.clone() };
      let m = g.mk(K::Rename(p.clone(), a.clone())); let s = g.mk(K::SetScopeShared(m, 1)); imports.push((a, s));
    }
    if !ids.is_empty() {
      head.push_str(&format!("import {{ {} }} from './lib.adx'\n", ids.join(*g.r.pick(&[", ", ",", ",\n  "]))));
      g.names = imports.iter().map(|x| x.0.clone()).collect();
      libs.push(Lib("lib.adx".into(), lt, ls));
    }
  }
  let (text, scope, root) = whole(&mut g, &imports, &head, "N", 0, if named { "Top" } else { "Root" });
  let mut targets: Vec<(String, Option<PR>)> = scope.iter().map(|(n, p)| (n.clone(), Some(p.clone()))).collect();
  targets.push(("".into(), None));
  let how = if named && g.r.chance(20) { 1 } else { *g.r.pick(&[0, 0, 0, 2]) };
  let how = if g.r.chance(15) { how | 16 } else { how };
  compiled(&text, &libs, &srcs, &targets, &root, &scope, how)
}

/// what the tokens of a script carry, and scripts that hold nothing or end in junk
fn grammar_case(r: &mut Rng) -> Case {
  let pad = |r: &mut Rng| (*r.pick(&["", " ", "\n", "# é\n", " \n\t"])).to_string();
  let kind = r.below(4);
  if kind == 0 {
    let junk = *r.pick(&["junk", "é", ")", "<", "(", "= <='a'>", "X = <='a'>"]);
    let mut src = pad(r);
    if r.chance(70) { src += &"(<='a'>) ".repeat(r.below(3)); src += junk; } else { src += &pad(r); }
    let c = guarded(|| match adextopa_core::script::current::parser::compile_script(adextopa_core::parser::Parser::new(&src), "Root".into(), None, 0) { Ok(_) => "accepted".to_string(), Err(_) => "rejected".to_string() });
    return verdict(|| format!("script {:?}", src), "rejected".into(), c);
  }
  let (src, m, want) = if kind == 1 {
    let at: Vec<(&str, &str)> = (0..r.below(6)).map(|_| (*r.pick(&["k", "k", "version", "b", "kk"]), *r.pick(&["1", "", "é", "a b", "\n", "x", "<>"]))).collect();
    let src = format!("{}<='a'{}>", r.pick(&["?", "!", ""]), at.iter().map(|(k, v)| format!("{}{}='{}'", r.pick(&[" ", "\n"]), k, v)).collect::<String>());
    let v: std::collections::BTreeMap<String, String> = at.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    (src, adextopa_core::ScriptPatternDefinition!(), format!("{:?}", v))
  } else {
    let body: String = (0..r.below(6)).map(|_| *r.pick(&["a", "é", "\\/", "\\\\", "[/]", "[\\]]", "[a-z]", ".*", "\\d", "'", ">", "i", " "])).collect();
    (format!("/{}/{}", body, r.pick(&["", "i", "im", "s"])), adextopa_core::ScriptRegexMatcher!(), format!("{:?}", body))
  };
  let act = guarded(|| {
    let cx = ParserContext::new(&adextopa_core::parser::Parser::new(&src), "t");
    match ParserContext::tokenize(cx, m.clone()) {
      Ok(t) if kind == 1 => format!("{:?}", t.borrow().get_attributes().iter().filter(|x| !x.0.starts_with("__")).map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::BTreeMap<String, String>>()),
      Ok(t) => format!("{:?}", t.borrow().get_value()),
      Err(e) => format!("{:?}", e),
    }
  });
  verdict(|| format!("script grammar ({}) on {:?}", ["", "definition", "regular expression", "regular expression"][kind as usize], src), want, act)
}

/// scripts with one definition that cannot be used
fn unusable(g: &mut Sg, top: &str) -> Case {
  let bad = *g.r.pick(&["/(/", "/*/", "/(?P<1>a)/", "/a{2,1}/", "//", "//i", "%'','b','c'", "%'a','','c'", "='a'{3,2}", "='a'{3,99999999999999999999}"]);
  let rep = bad.find("'{").map_or("", |i| &bad[i + 1..]);
  let bad = format!("<{}>{}", &bad[..bad.len() - rep.len()], rep);
  let (good, _) = g.def("", 1);
  let wrapped = match g.r.below(4) { 0 => format!("<[({})|({})]>", good, bad), 1 => format!("<{{({})({})}}>", good, bad), 2 => format!("<[{}|({})]>", bad, good), _ => bad.clone() };
  let mut libs = vec![]; let mut how = 0; let mut bare = false;
  let (script, range) = match g.r.below(9) {
    8 => { // a file that is not there, or that is no text
      std::fs::write(scratch().join("bytes.adx"), [0xff, 0xfe, b'a']).unwrap();
      let f = *g.r.pick(&["./gone.adx", "gone/lib.adx", "..//gone.adx", ".", "./bytes.adx", ""]);
      if g.r.chance(30) && f != "" {
        let d = scratch().join(f); let d = d.to_str().unwrap();
        let act = guarded(|| adextopa_core::script::current::parser::compile_script_from_file(d, 0).map(|_| ()));
        return verdict(|| format!("compile_script_from_file of {}, which cannot be read", d), "rejected".into(), act.map(|a| match a { Err(es) if !es.is_empty() => "rejected".to_string(), x => format!("{:?}", x) }));
      }
      how = 2; bare = true; (format!("{}import {{ X }} from '{}'\n  N0 = <='a'>\n-->\n(<N0>)", top, f), Some(1)) }
    0 | 1 => (format!("{}N0 = {}\nN1 = {}\n-->\n(<='a'>)", top, good, wrapped), None),
    2 | 3 => (format!("{}N0 = {}\n-->\n({})({})", top, good, good, wrapped), None),
    4 => (format!("{}-->\n{} (<='a'>)", top, wrapped), None),
    5 => { let s = format!("{}import {{ X }} from './lib.adx'\n-->\n(<='a'>)", top); (s, Some(0)) }
    6 => { libs.push(Lib("lib.adx".into(), "<!--[adextopa version='1']\nX = <='a'>\n-->\n(<='b'>)".into(), vec![])); let what = *g.r.pick(&["Y", "X, Y", "Y as X", "_", "X as Y, _"]); if g.r.chance(20) { libs[0].1 = (*g.r.pick(&["", "<!--[adextopa version='1']\n-->", "<!--", " "])).into(); bare = true; } (format!("{}import {{ {} }} from './lib.adx'\n-->\n(<='a'>)", top, what), Some(1)) }
    _ => { libs.push(Lib("lib.adx".into(), format!("<!--[adextopa version='1']\nX = {}\n-->\n(<='b'>)", wrapped), vec![])); (format!("{}import {{ X }} from './lib.adx'\n-->\n(<='a'>)", top), Some(2)) }
  };
  // a header without a version is an error of its own, beside that of a pattern
  let script = if script.starts_with(&format!("{}-->\n<", top)) && g.r.chance(30) { script.replace("version='1'", "other='1'") } else { script };
  if libs.is_empty() && range.is_none() && how == 0 { how = *g.r.pick(&[0, 1, 2]); }
  let got = compile(&script, &libs, how & 15, how as u32 >> 4);
  let act = match got {
    Err(e) => e, Ok(Ok(_)) => "accepted".into(),
    Ok(Err(es)) => {
      // an error of a definition has no range of its own; those of imports point at the statement or the name
      let at = |x: &ParseError| x.range.map(|r| (r.start, r.end));
      let ok = if bare || !rep.is_empty() { !es.is_empty() } else { es.iter().any(|e| e.message.starts_with("Error: ") && match range {
        None | Some(2) => at(e) == Some((0, 0)),
        Some(0) => { let i = script.find("import").unwrap(); at(e).map_or(false, |r| r.0 == i) }
        _ => at(e).map_or(false, |r| ["Y", "_"].contains(&&script[r.0..r.1])) }) };
      if ok { "rejected".into() } else { format!("rejected with {:?}", es) }
    }
  };
  verdict(|| format!("script {:?}{}", script, libs.iter().map(|l| format!(" with {}: {:?}", l.0, l.1)).collect::<String>()), "rejected".into(), Ok(act))
}

pub fn case(prop: &str, r: &mut Rng) -> Case {
  match prop {
    "C10" => scope_case(r), "C12" => lines_case(r), "C13" => token_case(r), "C14" => visitor_case(r),
    "C17" if r.chance(12) => grammar_case(r),
    "C16" | "C17" => script_case(prop, r),
    "C11" if r.chance(25) => context_case(r),
    p => matcher_case(p, r),
  }
}
#[allow(dead_code)]
pub type Unused = (MatcherFailure,);
