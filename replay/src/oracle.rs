//! Independent reference evaluator: what every matcher must do, written from the property statements over its own
//! token, scope and pattern types. It shares no code with the crate under test.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Rg = (usize, usize);
pub type TokR = Rc<RefCell<T>>;

pub struct T {
  pub name: String,
  pub cap: Rg,
  pub mat: Rg,
  pub capv: String,
  pub matv: String,
  pub value: Option<String>,
  pub attrs: BTreeMap<String, String>,
  pub flags: u8,
  pub kids: Vec<TokR>,
  pub parent: Option<TokR>,
  pub pin: bool,
}

pub fn text(src: &str, r: Rg) -> String {
  src.get(r.0..std::cmp::min(r.1, src.len())).unwrap_or("").to_string()
}

impl T {
  pub fn new(src: &str, name: &str, cap: Rg, mat: Rg, pin: bool) -> TokR {
    Rc::new(RefCell::new(T {
      name: name.to_string(), cap, mat, capv: text(src, cap), matv: text(src, mat), value: None,
      attrs: BTreeMap::new(), flags: 0, kids: vec![], parent: None, pin,
    }))
  }
  pub fn set_cap(&mut self, src: &str, r: Rg) { self.cap = r; if !self.pin { self.capv = text(src, r); } }
  pub fn set_mat(&mut self, src: &str, r: Rg) { self.mat = r; if !self.pin { self.matv = text(src, r); } }
  pub fn get_capv(&self) -> String {
    if self.pin { if let Some(v) = self.attrs.get("__value") { return v.clone(); } }
    self.capv.clone()
  }
  pub fn get_matv(&self) -> String {
    if self.pin { if let Some(v) = self.attrs.get("__matched_value") { return v.clone(); } }
    self.matv.clone()
  }
  pub fn get_value(&self) -> String {
    if let Some(v) = self.attrs.get("__value") { return v.clone(); }
    match &self.value { Some(v) => v.clone(), None => self.get_capv() }
  }
  pub fn is_err(&self) -> bool { self.flags & 2 != 0 }
}

pub fn dump(t: &TokR, path: &mut Vec<TokR>, out: &mut String) {
  let b = t.borrow();
  let par = match &b.parent {
    None => "-".to_string(),
    Some(p) => match path.iter().rev().position(|q| Rc::ptr_eq(p, q)) {
      Some(k) => format!("^{}", k),
      None => format!("!{}", p.borrow().name),
    },
  };
  out.push_str(&format!("{}[{}..{} {}..{} v={:?} c={:?} m={:?} f={}{} p={} {:?}", b.name, b.cap.0, b.cap.1, b.mat.0, b.mat.1,
    b.get_value(), b.get_capv(), b.get_matv(), b.flags, if b.pin { "D" } else { "" }, par, b.attrs));
  path.push(t.clone());
  for k in &b.kids { out.push(' '); dump(k, path, out); }
  path.pop();
  out.push(']');
}

#[derive(Clone)]
pub enum R {
  Tok(TokR), Proxy(TokR), Skip(isize), Break(String, Box<R>), Cont(String, Box<R>), None, Stop,
  Fail, Err(String, Option<Rg>),
  /// a fatal error whose wording is not part of any property
  ErrAny,
}

pub fn show(r: &R) -> String {
  match r {
    R::Tok(t) => { let mut s = "Token ".to_string(); dump(t, &mut vec![], &mut s); s }
    R::Proxy(t) => { let mut s = "Proxy ".to_string(); dump(t, &mut vec![], &mut s); s }
    R::Skip(n) => format!("Skip({})", n),
    R::Break(n, r) => format!("Break({:?}, {})", n, show(r)),
    R::Cont(n, r) => format!("Continue({:?}, {})", n, show(r)),
    R::None => "None".into(), R::Stop => "Stop".into(), R::Fail => "Fail".into(),
    R::Err(m, r) => format!("Error({:?}, {:?})", m, r),
    R::ErrAny => "Error(*)".into(),
  }
}

/// Result template of a scripted child
#[derive(Clone, Debug)]
pub enum Tpl { Tok(TT), Proxy(TT), Skip(isize), Break(String, Box<Tpl>), Cont(String, Box<Tpl>), Stop, None, Fail, Err(String, Option<Rg>) }
#[derive(Clone, Debug)]
pub struct TT { pub name: String, pub lead: usize, pub clen: usize, pub tail: usize, pub abs: Option<(Rg, Rg)>, pub err: bool, pub pin: bool, pub attr: Option<(String, String)>, pub kids: Vec<TT>, pub parented: bool }

/// Where a template's token lies for a given source and window (shared arithmetic of both sides)
pub fn place(src: &str, win: Rg, t: &TT) -> (Rg, Rg) {
  if let Some(x) = t.abs { return x; }
  let b: Vec<usize> = (win.0..=win.1).filter(|i| src.is_char_boundary(*i)).collect();
  let at = |k: usize| b[std::cmp::min(k, b.len() - 1)];
  ((at(t.lead), at(t.lead + t.clen)), (win.0, at(t.lead + t.clen + t.tail)))
}

#[derive(Clone, Debug)]
pub enum F { Lit(String), Var(String), Mat(PR) }

pub type PR = Rc<P>;
#[derive(Debug)]
pub struct P { pub uid: usize, pub k: K }
#[derive(Debug)]
pub enum K {
  Script { tpls: Vec<Tpl>, consuming: bool, name: Option<String>, set: Option<(String, String)> },
  Equals(F, Option<String>),
  Matches(String, Option<String>),
  Sequence(F, F, F, Option<String>),
  Program(Vec<PR>, Option<String>),
  Switch(Vec<PR>, Option<String>),
  Loop(Vec<PR>, Option<String>, usize, usize),
  Optional(PR), Not(PR), Discard(PR), Proxy(PR, Option<String>), Expand(PR),
  Store(String, PR), StoreS(String, String), Ref(F, Option<String>),
  Map(PR, u8, u8), Catch(PR, u8), Attrs(PR, Vec<(String, String)>), Rename(PR, String),
  Error(String), Panic(String), FatalIf(PR), FatalIfNot(PR), AssertIf(PR), AssertIfNot(PR),
  Null, Break(String), Register(Vec<PR>), SetScope(PR), SetScopeOwn(PR, Vec<(String, String)>), Pin(Option<PR>, F, Option<String>),
  /// scope known to the oracle only by reference (compiled scripts)
  SetScopeShared(PR, usize),
}
pub const MSG: &str = "msg";

#[derive(Clone)]
pub enum V { Tok(TokR), Str(String), Mat(PR) }
pub type Scope = Rc<RefCell<BTreeMap<String, V>>>;
pub type ScopeC = Rc<RefCell<Vec<Scope>>>;

pub fn sc_get(s: &ScopeC, n: &str) -> Option<V> {
  for x in s.borrow().iter().rev() { if let Some(v) = x.borrow().get(n) { return Some(v.clone()); } }
  None
}
pub fn sc_set(s: &ScopeC, n: &str, v: V) {
  let mut b = s.borrow_mut();
  if b.is_empty() { b.push(Rc::new(RefCell::new(BTreeMap::new()))); }
  b.last().unwrap().borrow_mut().insert(n.to_string(), v);
}

#[derive(Clone)]
pub struct Cx { pub win: Rg, pub stack: Vec<TokR>, pub scope: ScopeC }

/// outside the preconditions (the property says nothing)
pub struct U;
type Res = Result<R, U>;

pub struct World {
  pub src: String,
  pub file: String,
  pub log: RefCell<Vec<String>>,
  pub counts: RefCell<BTreeMap<usize, usize>>,
  pub fuel: Cell<usize>,
  pub names: Vec<String>,
  pub shared: RefCell<Vec<ScopeC>>,
  /// the scope each SetScopeOwn was made with, which outlives its runs
  pub own: RefCell<BTreeMap<usize, ScopeC>>,
}

pub fn breaks(s: &str) -> Vec<Rg> {
  let b = s.as_bytes();
  let mut out = vec![];
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { out.push((i, i + 2)); i += 2; }
    else if b[i] == b'\r' || b[i] == b'\n' { out.push((i, i + 1)); i += 1; }
    else { i += 1; }
  }
  out
}
pub fn lines(src: &str, r: Rg) -> (usize, usize) { (breaks(&src[..r.0]).len() + 1, breaks(&src[..r.1]).len() + 1) }
pub fn columns(src: &str, r: Rg) -> (usize, usize) {
  let col = |p: usize| p - breaks(&src[..p]).last().map(|x| x.1).unwrap_or(0) + 1;
  let (a, b) = (col(r.0), col(r.1));
  (a, std::cmp::max(a, b))
}
pub fn splits_crlf(src: &str, p: usize) -> bool { p > 0 && p < src.len() && src.as_bytes()[p - 1] == b'\r' && src.as_bytes()[p] == b'\n' }
pub fn errstr(file: &str, src: &str, msg: &str, r: Rg) -> Option<String> {
  if r.0 > r.1 || r.1 > src.len() || !src.is_char_boundary(r.0) || !src.is_char_boundary(r.1) || splits_crlf(src, r.0) || splits_crlf(src, r.1) { return None; }
  let (l, c) = (lines(src, r), columns(src, r));
  let f = |x: (usize, usize)| if x.0 == x.1 { format!("{}", x.0) } else { format!("{}-{}", x.0, x.1) };
  Some(format!("Error: {}@[{}:{}]: {}", file, f(l), f(c), msg))
}

pub fn custom_name(p: &P) -> Option<&String> {
  match &p.k {
    K::Script { name, .. } => name.as_ref(),
    K::Equals(_, n) | K::Matches(_, n) | K::Sequence(_, _, _, n) | K::Program(_, n) | K::Switch(_, n) | K::Loop(_, n, _, _) | K::Proxy(_, n) | K::Ref(_, n) | K::Pin(_, _, n) => n.as_ref(),
    K::Store(n, _) | K::StoreS(n, _) => Some(n),
    _ => None,
  }
}
pub fn name_of(p: &P) -> String {
  if let Some(n) = custom_name(p) { return n.clone(); }
  match &p.k {
    K::Script { .. } => "Script", K::Equals(..) => "Equals", K::Matches(..) => "Matches", K::Sequence(..) => "Sequence",
    K::Program(..) => "Program", K::Switch(..) => "Switch", K::Loop(..) => "Loop", K::Optional(..) => "Optional", K::Not(..) => "Not",
    K::Discard(..) => "Discard", K::Proxy(..) => "ProxyChildren", K::Expand(..) => "Catch", K::Ref(..) => "Ref", K::Map(..) | K::Attrs(..) | K::Rename(..) => "Map",
    K::FatalIf(..) | K::FatalIfNot(..) | K::AssertIf(..) | K::AssertIfNot(..) => "Map", K::Catch(..) => "Catch", K::Error(..) | K::Panic(..) => "Error",
    K::Null => "Null", K::Break(..) => "Break", K::Register(..) => "Register", K::SetScope(..) | K::SetScopeOwn(..) | K::SetScopeShared(..) => "SetScope", K::Pin(..) => "Pin",
    _ => "?",
  }.to_string()
}
pub fn consuming(p: &P) -> bool {
  match &p.k { K::Script { consuming, .. } => *consuming, K::Null | K::Register(..) | K::Pin(..) | K::StoreS(..) => false, _ => true }
}

fn cover(a: &mut Rg, b: Rg) { if b.0 < a.0 { a.0 = b.0; } if b.1 > a.1 { a.1 = b.1; } }

struct Acc { tok: TokR, pos: usize, start: usize, cap: Rg, mat: Rg, kids: Vec<TokR> }

impl World {
  fn tok(&self, t: &TT, win: Rg) -> TokR {
    let (cap, mat) = place(&self.src, win, t);
    let k = T::new(&self.src, &t.name, cap, mat, t.pin);
    if t.err { k.borrow_mut().flags |= 2; }
    if let Some((a, b)) = &t.attr { k.borrow_mut().attrs.insert(a.clone(), b.clone()); }
    for c in &t.kids { let c2 = self.tok(c, win); if c.parented { c2.borrow_mut().parent = Some(k.clone()); } k.borrow_mut().kids.push(c2); }
    k
  }
  fn inst(&self, t: &Tpl, win: Rg) -> R {
    match t {
      Tpl::Tok(t) => R::Tok(self.tok(t, win)), Tpl::Proxy(t) => R::Proxy(self.tok(t, win)), Tpl::Skip(n) => R::Skip(*n),
      Tpl::Break(n, p) => R::Break(n.clone(), Box::new(self.inst(p, win))), Tpl::Cont(n, p) => R::Cont(n.clone(), Box::new(self.inst(p, win))),
      Tpl::Stop => R::Stop, Tpl::None => R::None, Tpl::Fail => R::Fail, Tpl::Err(m, r) => R::Err(m.clone(), *r),
    }
  }
  pub fn scope_line(&self, s: &ScopeC) -> String {
    let mut out = format!("d{}", s.borrow().len());
    for n in &self.names {
      match sc_get(s, n) {
        None => {}
        Some(V::Tok(t)) => { out.push_str(&format!(" {}=T ", n)); dump(&t, &mut vec![], &mut out); }
        Some(V::Str(v)) => out.push_str(&format!(" {}={:?}", n, v)),
        Some(V::Mat(p)) => out.push_str(&format!(" {}=M{}", n, p.uid)),
      }
    }
    out
  }
  fn fetch(&self, f: &F, s: &ScopeC) -> Result<Result<String, PR>, U> {
    match f {
      F::Lit(x) => Ok(Ok(x.clone())),
      F::Mat(p) => Ok(Err(p.clone())),
      F::Var(n) => {
        let parts: Vec<&str> = n.split('.').collect();
        match sc_get(s, parts[0]) {
          None => Err(U),
          Some(V::Mat(p)) => Ok(Err(p)),
          Some(V::Str(v)) => if parts.len() == 1 { Ok(Ok(v)) } else { Err(U) },
          Some(V::Tok(t)) => {
            if parts.len() != 2 { return Err(U); }
            let t = t.borrow();
            Ok(Ok(match parts[1] {
              "captured_value" => t.get_value(), "matched_value" => t.get_matv(),
              "start" => t.mat.0.to_string(), "end" => t.mat.1.to_string(),
              "captured_start" => t.cap.0.to_string(), "captured_end" => t.cap.1.to_string(),
              "range" => format!("{}..{}", t.mat.0, t.mat.1), "captured_range" => format!("{}..{}", t.cap.0, t.cap.1),
              _ => return Err(U),
            }))
          }
        }
      }
    }
  }
  fn window<'a>(&'a self, w: Rg) -> Result<&'a str, U> { if w.0 <= w.1 { self.src.get(w.0..w.1).ok_or(U) } else { Err(U) } }
  pub fn err_tok(&self, msg: &str, r: Rg) -> Result<TokR, U> {
    let t = T::new(&self.src, "Error", r, r, false);
    let m = errstr(&self.file, &self.src, msg, r).ok_or(U)?;
    t.borrow_mut().attrs.insert("__message".into(), m);
    t.borrow_mut().flags |= 2;
    Ok(t)
  }
  fn fatal(&self, msg: &str, r: Rg) -> Res { Ok(R::Err(errstr(&self.file, &self.src, msg, r).ok_or(U)?, Some(r))) }

  pub fn run(&self, p: &PR, cx: &Cx, s: &ScopeC) -> Res {
    if self.fuel.get() == 0 { return Err(U); }
    self.fuel.set(self.fuel.get() - 1);
    self.window(cx.win)?;
    if let Some(n) = custom_name(p) { sc_set(s, n, V::Mat(p.clone())); }
    let name = name_of(p);
    match &p.k {
      K::Script { tpls, set, .. } => {
        self.log.borrow_mut().push(format!("{}@{}-{} {}", p.uid, cx.win.0, cx.win.1, self.scope_line(s)));
        let n = { let mut c = self.counts.borrow_mut(); let e = c.entry(p.uid).or_insert(0); *e += 1; *e - 1 };
        if let Some((k, v)) = set { sc_set(s, k, V::Str(v.clone())); }
        Ok(self.inst(&tpls[std::cmp::min(n, tpls.len() - 1)], cx.win))
      }
      K::Equals(f, _) => match self.fetch(f, s)? {
        Err(_) => Ok(R::ErrAny),
        Ok(v) => {
          let w = self.window(cx.win)?;
          if !v.is_empty() && w.len() >= v.len() && w.as_bytes()[..v.len()] == *v.as_bytes() {
            let r = (cx.win.0, cx.win.0 + v.len());
            Ok(R::Tok(T::new(&self.src, &name, r, r, false)))
          } else { Ok(R::Fail) }
        }
      },
      K::Matches(re, _) => {
        let w = self.window(cx.win)?.to_string();
        match regex::Regex::new(re).unwrap().find(&w) {
          Some(m) if m.start() == 0 && m.end() > 0 => { let r = (cx.win.0, cx.win.0 + m.end()); Ok(R::Tok(T::new(&self.src, &name, r, r, false))) }
          Some(m) if m.start() == 0 => Ok(R::Skip(0)),
          _ => Ok(R::Fail),
        }
      }
      K::Sequence(a, b, c, _) => {
        for x in [self.fetch(a, s)?, self.fetch(b, s)?] { if let Ok(x) = x { if x.is_empty() { return Err(U); } } }
        let (a, b, c) = match (self.fetch(a, s)?, self.fetch(b, s)?, self.fetch(c, s)?) { (Ok(a), Ok(b), Ok(c)) => (a, b, c), _ => return Ok(R::ErrAny) };
        if a.is_empty() || b.is_empty() { return Err(U); }
        let w = self.window(cx.win)?;
        if !w.starts_with(&a) { return Ok(R::Fail); }
        let body: Vec<(usize, char)> = w[a.len()..].char_indices().map(|(i, c)| (i + a.len(), c)).collect();
        let mut i = 0; // index into body
        let mut val = String::new();
        loop {
          if i >= body.len() { return Ok(R::Fail); }
          let rest = &w[body[i].0..];
          if rest.starts_with(&b) {
            let e = body[i].0;
            let t = T::new(&self.src, &name, (cx.win.0 + a.len(), cx.win.0 + e), (cx.win.0, cx.win.0 + e + b.len()), false);
            t.borrow_mut().attrs.insert("__value".into(), val);
            return Ok(R::Tok(t));
          }
          if !c.is_empty() && rest.starts_with(&c) {
            i += c.chars().count();
            if i < body.len() { val.push(body[i].1); }
            i += 1;
          } else { val.push(body[i].1); i += 1; }
        }
      }
      K::Program(ps, _) => self.program(p, ps, &name, None, false, cx, s),
      K::Switch(ps, _) => self.program(p, ps, &name, None, true, cx, s),
      K::Loop(ps, _, lo, hi) => self.program(p, ps, &name, Some((*lo, *hi)), false, cx, s),
      K::Optional(c) => Ok(match self.run(c, cx, s)? { R::Fail => R::Skip(0), r => r }),
      K::Not(c) => Ok(match self.run(c, cx, s)? { R::Fail => R::Skip(0), R::Tok(_) | R::Proxy(_) => R::Fail, R::Skip(n) if n != 0 => R::Fail, r => r }),
      K::Discard(c) => {
        let r = self.run(c, cx, s)?;
        self.discard(r, cx.win.0, true)
      }
      K::Proxy(c, _) => Ok(match self.run(c, cx, s)? {
        R::Tok(t) => R::Proxy(t),
        R::Break(n, b) => R::Break(n, match *b { R::Tok(t) => Box::new(R::Proxy(t)), x => Box::new(x) }),
        R::Cont(n, b) => R::Cont(n, match *b { R::Tok(t) => Box::new(R::Proxy(t)), x => Box::new(x) }),
        r => r }),
      K::Expand(c) => Ok(match self.run(c, cx, s)? {
        R::Tok(t) => { let r = t.borrow().mat; let w = T::new(&self.src, "ExpandRange", r, r, false); w.borrow_mut().kids.push(t); R::Proxy(w) }
        R::Proxy(t) => { let r = t.borrow().mat; t.borrow_mut().set_cap(&self.src, r); R::Proxy(t) }
        r => r }),
      K::Store(n, c) => {
        let r = self.run(c, cx, s)?;
        if let R::Tok(t) = &r { sc_set(s, n, V::Tok(t.clone())); }
        Ok(r)
      }
      K::StoreS(n, v) => { sc_set(s, n, V::Str(v.clone())); Ok(R::Skip(0)) }
      K::Ref(f, _) => match self.fetch(f, s)? {
        Err(m) => self.run(&m, cx, s),
        Ok(n) => match sc_get(s, &n) { Some(V::Mat(m)) => self.run(&m, cx, s), _ => Ok(R::ErrAny) },
      },
      K::Map(c, sm, fm) => match self.run(c, cx, s)? {
        R::Tok(t) | R::Proxy(t) => {
          self.log.borrow_mut().push(format!("map+ {} {:?} {:?} {}", t.borrow().name, t.borrow().mat, cx.win, self.scope_line(s)));
          Ok(match sm { 0 => { t.borrow_mut().attrs.insert("m".into(), "1".into()); R::Tok(t) } 1 => R::Skip(1), 2 => R::Fail, 3 => R::Proxy(t), _ => R::Err("mapped".into(), None) })
        }
        r @ (R::Fail | R::Err(..) | R::ErrAny) => {
          if let R::ErrAny = r { return Err(U); }
          self.log.borrow_mut().push(format!("map- {} {:?} {}", show(&r), cx.win, self.scope_line(s)));
          Ok(match fm { 0 => r, 1 => R::Skip(0), 2 => R::Stop, _ => R::Err("mapped".into(), None) })
        }
        r => Ok(r),
      },
      K::Attrs(c, at) => Ok(match self.run(c, cx, s)? {
        R::Tok(t) | R::Proxy(t) => { for (k, v) in at { t.borrow_mut().attrs.entry(k.clone()).or_insert(v.clone()); } R::Tok(t) }
        r => r }),
      K::Rename(c, n) => Ok(match self.run(c, cx, s)? { R::Tok(t) | R::Proxy(t) => { t.borrow_mut().name = n.clone(); R::Tok(t) } r => r }),
      K::Catch(c, fm) => match self.run(c, cx, s)? {
        R::ErrAny => Err(U),
        r @ (R::Fail | R::Err(..)) => {
          self.log.borrow_mut().push(format!("catch {} {:?}", show(&r), cx.win));
          Ok(match fm { 0 => r, 1 => R::Skip(0), 2 => R::Stop, _ => R::Err("mapped".into(), None) })
        }
        r => Ok(r),
      },
      K::Error(m) => Ok(R::Tok(self.err_tok(m, (cx.win.0, cx.win.0))?)),
      K::Panic(m) => {
        let r = match cx.stack.last() { Some(t) => (t.borrow().mat.0, cx.win.0), None => (cx.win.0, cx.win.0) };
        self.fatal(m, r)
      }
      K::FatalIf(c) => match self.run(c, cx, s)? { R::Tok(t) | R::Proxy(t) => { let r = t.borrow().mat; self.fatal(MSG, r) } R::Fail => Ok(R::Skip(0)), r => Ok(r) },
      K::FatalIfNot(c) => match self.run(c, cx, s)? { R::Tok(_) | R::Proxy(_) => Ok(R::Skip(0)), R::Fail => self.fatal(MSG, cx.win), r => Ok(r) },
      K::AssertIf(c) => match self.run(c, cx, s)? { R::Tok(t) | R::Proxy(t) => { let r = t.borrow().mat; Ok(R::Tok(self.err_tok(MSG, r)?)) } R::Fail => Ok(R::Skip(0)), r => Ok(r) },
      K::AssertIfNot(c) => match self.run(c, cx, s)? { R::Tok(_) | R::Proxy(_) => Ok(R::Skip(0)), R::Fail => Ok(R::Tok(self.err_tok(MSG, (cx.win.0, cx.win.0))?)), r => Ok(r) },
      K::Null => Ok(R::Skip(0)),
      K::Break(n) => Ok(R::Break(n.clone(), Box::new(R::None))),
      K::Register(ps) => { for q in ps { sc_set(s, &name_of(q), V::Mat(q.clone())); } Ok(R::Skip(0)) }
      K::SetScope(c) => {
        cx.scope.borrow_mut().push(Rc::new(RefCell::new(BTreeMap::new())));
        let sc = cx.scope.clone();
        let r = self.run(c, cx, &sc);
        cx.scope.borrow_mut().pop();
        r
      }
      K::SetScopeOwn(c, vars) => {
        let known = self.own.borrow().get(&p.uid).cloned();
        let sc = match known { Some(sc) => sc, None => {
          let sc: ScopeC = Rc::new(RefCell::new(vec![]));
          for (k, v) in vars { sc_set(&sc, k, V::Str(v.clone())); }
          self.own.borrow_mut().insert(p.uid, sc.clone());
          sc
        } };
        self.run(c, cx, &sc)
      }
      K::SetScopeShared(c, i) => { let sc = self.shared.borrow().get(*i).cloned().ok_or(U)?; self.run(c, cx, &sc) }
      K::Pin(c, f, _) => {
        let o = match self.fetch(f, s)? { Ok(o) => o, Err(_) => return Ok(R::ErrAny) };
        let mut it = o.split("..");
        let start = pin_off(it.next().unwrap(), cx.win.0, cx.win.0)?;
        let end = match it.next() { Some(x) => pin_off(x, start, cx.win.1)?, None => cx.win.1 };
        self.window((start, end))?;
        match c {
          Some(c) => self.run(c, &Cx { win: (start, end), stack: cx.stack.clone(), scope: cx.scope.clone() }, s),
          None => Ok(R::Tok(T::new(&self.src, &name, (start, end), (start, end), true))),
        }
      }
    }
  }

  fn discard(&self, r: R, start: usize, top: bool) -> Res {
    Ok(match r {
      R::Tok(t) | R::Proxy(t) => {
        let end = t.borrow().mat.1;
        let mut errs = vec![];
        fn walk(t: &TokR, out: &mut Vec<TokR>) { if t.borrow().is_err() { out.push(t.clone()); } for k in &t.borrow().kids { walk(k, out); } }
        walk(&t, &mut errs);
        if errs.is_empty() { R::Skip(end as isize - start as isize) } else {
          let e = T::new(&self.src, "Error", (start, end), (start, end), false);
          let mut m = (start, end);
          for x in &errs { cover(&mut m, x.borrow().mat); }
          e.borrow_mut().set_mat(&self.src, m);
          e.borrow_mut().kids = errs;
          R::Tok(e)
        }
      }
      R::Break(n, b) => { if !top { return Err(U); } R::Break(n, Box::new(self.discard(*b, start, false)?)) }
      R::Cont(n, b) => { if !top { return Err(U); } R::Cont(n, Box::new(self.discard(*b, start, false)?)) }
      r => r,
    })
  }

  fn add(&self, a: &mut Acc, t: &TokR, forward: bool, update: bool) -> Result<(), U> {
    if a.kids.iter().any(|k| Rc::ptr_eq(k, t)) || Rc::ptr_eq(t, &a.tok) { return Err(U); }
    if !t.borrow().is_err() {
      if forward && update && t.borrow().mat.1 == a.pos { return Err(U); }
    } else {
      let m = t.borrow().mat;
      if m.0 == m.1 && a.mat.0 != usize::MAX { let r = (a.mat.0, m.1); let mut b = t.borrow_mut(); b.set_cap(&self.src, r); b.set_mat(&self.src, r); }
    }
    if update { cover(&mut a.cap, t.borrow().cap); cover(&mut a.mat, t.borrow().mat); a.pos = t.borrow().mat.1; }
    t.borrow_mut().parent = Some(a.tok.clone());
    a.kids.push(t.clone());
    Ok(())
  }
  fn flat(&self, a: &mut Acc, t: &TokR, update: bool) -> Result<(), U> {
    let upd = update && !t.borrow().pin;
    if upd { cover(&mut a.cap, t.borrow().cap); cover(&mut a.mat, t.borrow().mat); }
    let kids: Vec<TokR> = t.borrow().kids.clone();
    for k in &kids { if k.borrow().pin { continue; } self.add(a, k, false, upd)?; }
    if upd { a.pos = t.borrow().mat.1; }
    Ok(())
  }
  fn skip(&self, a: &mut Acc, n: isize) -> Result<(), U> {
    let q = a.pos as isize + n;
    if q < 0 { return Err(U); }
    a.pos = q as usize;
    let r = (a.start, a.pos);
    cover(&mut a.mat, r);
    Ok(())
  }
  fn finish(&self, a: Acc) -> R {
    if a.cap.0 == usize::MAX || a.mat.0 == usize::MAX || a.kids.is_empty() { return R::Fail; }
    { let mut b = a.tok.borrow_mut(); b.kids = a.kids; b.set_cap(&self.src, a.cap); b.set_mat(&self.src, a.mat); }
    R::Tok(a.tok)
  }

  fn program(&self, _p: &PR, ps: &[PR], name: &str, range: Option<(usize, usize)>, stop: bool, cx: &Cx, s: &ScopeC) -> Res {
    let tok = T::new(&self.src, name, (0, 0), (0, 0), false);
    let mut a = Acc { tok: tok.clone(), pos: cx.win.0, start: cx.win.0, cap: (usize::MAX, 0), mat: (usize::MAX, 0), kids: vec![] };
    let max = range.map(|r| r.1).unwrap_or(1);
    let mut runs = 0;
    'outer: while runs < max {
      if self.fuel.get() == 0 { return Err(U); }
      self.fuel.set(self.fuel.get() - 1);
      for q in ps {
        let mut stack = cx.stack.clone(); stack.push(tok.clone());
        let r = self.run(q, &Cx { win: (a.pos, cx.win.1), stack, scope: cx.scope.clone() }, s)?;
        match r {
          R::Tok(t) => {
            if t.borrow().pin { continue; }
            if stop { return Ok(R::Tok(t)); }
            let c = consuming(q);
            self.add(&mut a, &t, c, c)?;
          }
          R::Proxy(t) => {
            if t.borrow().pin { continue; }
            if stop { return Ok(R::Proxy(t)); }
            self.flat(&mut a, &t, consuming(q))?;
          }
          R::Skip(n) => {
            if n > 0 && stop { return Ok(R::Skip(n)); }
            if consuming(q) { self.skip(&mut a, n)?; }
          }
          R::Fail => {
            if stop { continue; }
            match range {
              None => return Ok(R::Fail),
              Some((lo, _)) => { if runs < lo { return Ok(R::Fail); } return Ok(self.finish(a)); }
            }
          }
          R::Err(..) | R::ErrAny => return Ok(r),
          R::Stop => break 'outer,
          R::None => return Err(U),
          R::Break(..) | R::Cont(..) => {
            if stop { return Ok(r); }
            let (is_break, n, pay) = match r { R::Break(n, b) => (true, n, b), R::Cont(n, b) => (false, n, b), _ => unreachable!() };
            match &*pay {
              R::Tok(t) => { let upd = !t.borrow().pin; self.add(&mut a, t, false, upd)?; }
              R::Proxy(t) => self.flat(&mut a, t, true)?,
              R::Skip(k) => self.skip(&mut a, *k)?,
              _ => {}
            }
            let mine = range.is_some() && (n == name || n.is_empty());
            if mine { if is_break { return Ok(self.finish(a)); } break; }
            return Ok(match self.finish(a) { R::Fail => R::Fail, x => if is_break { R::Break(n, Box::new(x)) } else { R::Cont(n, Box::new(x)) } });
          }
        }
      }
      runs += 1;
    }
    if let Some((lo, _)) = range {
      if lo == 0 && runs == 0 && a.kids.is_empty() { return Ok(R::Skip(0)); }
      if runs < lo { return Ok(R::Fail); }
    }
    Ok(self.finish(a))
  }

  pub fn tokenize(&self, p: &PR, cx: &Cx) -> Res {
    let sc = cx.scope.clone();
    let r = self.run(p, cx, &sc)?;
    let t = match r {
      R::Tok(t) | R::Proxy(t) => t,
      R::Break(_, b) | R::Cont(_, b) => match *b { R::Tok(t) => t, _ => return Ok(R::Fail) },
      R::Fail | R::Err(..) | R::ErrAny => return Ok(r),
      _ => return Ok(R::Fail),
    };
    // errors below the top level's children move to the top, inner ones first
    fn sweep(t: &TokR, out: &mut Vec<TokR>) {
      let kids = t.borrow().kids.clone();
      for k in &kids { sweep(k, out); }
      t.borrow_mut().kids = kids.iter().filter(|k| !k.borrow().is_err()).cloned().collect();
      out.extend(kids.iter().filter(|k| k.borrow().is_err()).cloned());
    }
    let mut moved = vec![];
    let top = t.borrow().kids.clone();
    for k in &top { sweep(k, &mut moved); }
    t.borrow_mut().kids.extend(moved);
    Ok(R::Tok(t))
  }
}

pub fn pin_off(o: &str, base: usize, dflt: usize) -> Result<usize, U> {
  if o.is_empty() || o == "+" || o == "-" || o == "+0" || o == "-0" { return Ok(dflt); }
  let num = |x: &str| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { x.parse::<usize>().map_err(|_| U) } else { Err(U) };
  if let Some(x) = o.strip_prefix('+') { base.checked_add(num(x)?).ok_or(U) }
  else if let Some(x) = o.strip_prefix('-') { base.checked_sub(num(x)?).ok_or(U) }
  else { num(o) }
}
