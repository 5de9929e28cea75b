//! Appended to the copy of the crate that is handed to the compiler: reference definitions of iterator methods, by
//! what the standard library documents.  A call of such a method is dumped as a call of the definition here (the
//! library's own bodies step through raw pointers); this is an assumed contract on the standard library.
#![allow(unused, dead_code)]

pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
  while let Some(x) = it.next() {
    if f(&x) {
      return Some(x);
    }
  }
  None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
  while let Some(x) = it.next() {
    let y = f(x);
    if y.is_some() {
      return y;
    }
  }
  None
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() {
    if f(x) {
      return true;
    }
  }
  false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() {
    if !f(x) {
      return false;
    }
  }
  true
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
  let mut i = 0;
  while let Some(x) = it.next() {
    if f(x) {
      return Some(i);
    }
    i += 1;
  }
  None
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  while let Some(x) = it.next() {
    f(x);
  }
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
  let mut acc = init;
  while let Some(x) = it.next() {
    acc = f(acc, x);
  }
  acc
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
  let mut n = 0;
  while let Some(_) = it.next() {
    n += 1;
  }
  n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut last = None;
  while let Some(x) = it.next() {
    last = Some(x);
  }
  last
}
pub fn iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
  let mut v = Vec::new();
  while let Some(x) = it.next() {
    v.push(x);
  }
  v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
  for x in it {
    v.push(x);
  }
}
