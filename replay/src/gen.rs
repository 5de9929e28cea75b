use crate::oracle::*;
use crate::Rng;
use std::rc::Rc;

pub struct G<'a> { pub r: &'a mut Rng, pub uid: usize, pub src: String, pub vars: Vec<(String, u8)>, pub mats: Vec<PR>, pub loops: Vec<String> }

pub const POOL: &[&str] = &["a", "b", "ab", "\\", "'", "é", "字", " ", "\n", "\r\n", "\r", "aa", "ba", "[", "]", ",", "😀", "x"];

pub fn source(r: &mut Rng, n: usize) -> String { let k = r.below(n + 1); (0..k).map(|_| *r.pick(POOL)).collect() }
pub fn bounds(s: &str) -> Vec<usize> { (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect() }
pub fn window(r: &mut Rng, s: &str) -> Rg {
  let b = bounds(s);
  if r.chance(40) { return (0, s.len()); }
  let i = r.below(b.len()); let j = i + r.below(b.len() - i);
  (b[i], if r.chance(50) { s.len() } else { b[j] })
}

impl<'a> G<'a> {
  pub fn mk(&mut self, k: K) -> PR { self.uid += 1; Rc::new(P { uid: self.uid, k }) }
  pub fn lit(&mut self) -> String {
    let b = bounds(&self.src);
    if self.r.chance(60) && b.len() > 1 { let i = self.r.below(b.len() - 1); let k = 1 + self.r.below(std::cmp::min(3, b.len() - 1 - i)); return self.src[b[i]..b[i + k]].to_string(); }
    if self.r.chance(5) { return String::new(); }
    (0..1 + self.r.below(2)).map(|_| *self.r.pick(POOL)).collect()
  }
  pub fn nm(&mut self) -> String { if self.r.chance(6) { return self.r.pick(&["Null", "Register", "Pin", "Fetch", "Store", "Program", "Switch", "Equals", "Matches", "Discard", ""]).to_string(); }
    self.r.pick(&["A", "B", "L", "M", "Loop", "Error"]).to_string() }
  pub fn oname(&mut self) -> Option<String> { if self.r.chance(50) { Some(self.nm()) } else { None } }
  pub fn range(&mut self) -> (Rg, Rg) {
    let b = bounds(&self.src);
    let mut f = || { let (i, j) = (self.r.below(b.len()), self.r.below(b.len())); (b[i.min(j)], b[i.max(j)]) };
    let (x, y) = (f(), f());
    (x, y)
  }
  pub fn tt(&mut self, depth: usize) -> TT {
    let n = if depth == 0 { 0 } else if self.r.chance(5) { 4 + self.r.below(4) } else { *self.r.pick(&[0, 0, 1, 2, 3]) };
    let err = self.r.chance(20);
    let kids = (0..n).map(|_| { let mut t = self.tt(depth - 1); if self.r.chance(75) { t.abs = Some(self.range()); } t }).collect();
    TT { name: if err { "Error".into() } else { self.nm() }, lead: self.r.below(2), clen: self.r.below(3), tail: self.r.below(2), abs: None, err,
      pin: self.r.chance(10), attr: if self.r.chance(15) { Some((self.r.pick(&["__value", "k", "__matched_value"]).to_string(), self.lit())) } else { None }, kids, parented: self.r.chance(50) }
  }
  pub fn errt(&mut self) -> Tpl { let r = if self.r.chance(50) { Some(self.range().0) } else { None }; Tpl::Err(self.r.pick(&["boom", "bang", ""]).to_string(), r) }
  pub fn tpl(&mut self, depth: usize, sig: bool) -> Tpl {
    match self.r.below(if sig { 24 } else { 14 }) {
      0..=5 => Tpl::Tok(self.tt(depth)),
      6..=8 => Tpl::Proxy(self.tt(depth.max(1))),
      9 => Tpl::Skip(0),
      10..=11 => Tpl::Skip(self.r.below(4) as isize),
      12 => if self.r.chance(30) { Tpl::Skip(-(self.r.below(3) as isize)) } else { Tpl::Skip(1) },
      13 => Tpl::None,
      14..=17 => Tpl::Fail,
      18 => self.errt(),
      19 => Tpl::Stop,
      _ => {
        let n = if self.r.chance(30) { String::new() } else if self.r.chance(60) && !self.loops.is_empty() { self.r.pick(&self.loops).clone() } else { self.nm() };
        let p = loop { let p = self.tpl(depth, false); if !matches!(p, Tpl::Fail | Tpl::Err(..)) { break p; } };
        let p = if self.r.chance(35) { Tpl::None } else if self.r.chance(5) { Tpl::Stop } else { p };
        if self.r.chance(50) { Tpl::Break(n, Box::new(p)) } else { Tpl::Cont(n, Box::new(p)) }
      }
    }
  }
  /// scripted child; `n` results, then the last one for ever
  pub fn script(&mut self, n: usize) -> PR {
    let tpls = (0..n).map(|_| loop { let t = self.tpl(2, true); if !matches!(t, Tpl::None) { break t; } }).collect();
    let name = if self.r.chance(10) { Some(self.nm()) } else { None };
    let set = if self.r.chance(12) { Some((self.r.pick(&["V", "W", "A"]).to_string(), self.lit())) } else { None };
    let consuming = self.r.chance(85);
    self.mk(K::Script { tpls, consuming, name, set })
  }
  /// scripted child that mostly advances, as loops and programs meet them
  pub fn walker(&mut self) -> PR {
    let k = 1 + self.r.below(4);
    let mut tpls = vec![];
    for _ in 0..k {
      let mut t = match self.r.below(10) { 0..=6 => { let mut t = self.tt(1); t.err = self.r.chance(10); t.pin = self.r.chance(6); t.clen = 1 + self.r.below(2); t.lead = self.r.below(2); Tpl::Tok(t) } 7 => { let mut t = self.tt(2); if t.clen + t.lead == 0 { t.clen = 1; } Tpl::Proxy(t) } 8 => Tpl::Skip(self.r.below(2) as isize), _ => self.tpl(1, true) };
      if let Tpl::None = t { t = Tpl::Fail; }
      tpls.push(t);
    }
    if self.r.chance(60) { tpls.push(if self.r.chance(80) { Tpl::Fail } else { let t = self.tpl(1, true); if let Tpl::None = t { Tpl::Stop } else { t } }); }
    let name = if self.r.chance(5) { Some(self.nm()) } else { None };
    let consuming = self.r.chance(85);
    self.mk(K::Script { tpls, consuming, name, set: None })
  }
  pub fn var(&mut self) -> String {
    if self.vars.is_empty() { return "V".into(); }
    let (n, k) = self.r.pick(&self.vars).clone();
    if k == 0 { n } else { format!("{}.{}", n, self.r.pick(&["captured_value", "matched_value", "start", "end", "captured_start", "captured_end", "range", "captured_range"])) }
  }
  pub fn f(&mut self) -> F { if self.r.chance(75) { F::Lit(self.lit()) } else { F::Var(self.var()) } }
  pub fn regex(&mut self) -> String {
    self.r.pick(&["[ab]+", "a+", "a*", "b?", "\\w+", "\\s*", "\\s+", "é|字", "(?i)AB?", "^a", "b$", "a\\b", "\\Bb", ".", "(?s).+", "x|", "[^a]+", "\\Aab", "b", "a|ab", "(?m)^b", "$", "aab|b", "[\\r\\n]+", "(?m)a$", "\\z", "a.*b", "(?-u:\\b)a", "\\b", "é"]).to_string()
  }
  pub fn leaf(&mut self) -> PR {
    let k = match self.r.below(10) {
      0..=3 => { let n = self.oname(); K::Equals(F::Lit(self.lit()), n) }
      4..=6 => { let n = self.oname(); K::Matches(self.regex(), n) }
      7 => { let n = self.oname(); K::Sequence(F::Lit(self.r.pick(&["'", "[", "a"]).to_string()), F::Lit(self.r.pick(&["'", "]", "b"]).to_string()), F::Lit(self.r.pick(&["\\", "", "a"]).to_string()), n) }
      8 => K::Break(if self.r.chance(50) { String::new() } else { self.nm() }),
      _ => K::Null,
    };
    self.mk(k)
  }
}
