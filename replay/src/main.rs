//! replay PROP SEED FIRST STEP SECONDS MAXCASES OUT : searches for a concrete input on which the code under test and the
//! reference evaluator disagree.  One case is determined by (PROP, SEED, case number).
mod gen;
mod oracle;
mod real;
mod fams;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
  pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
  pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

pub enum Case { Skip, Ok, Bad { input: String, expected: String, actual: String } }

pub static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
static CUR: AtomicU64 = AtomicU64::new(u64::MAX);

fn rss() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let (prop, seed, first, step, secs, max, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<f64>().unwrap(), a[6].parse::<u64>().unwrap(), a[7].clone());
  SCRATCH.set(std::path::PathBuf::from(format!("{}.d", out))).unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  let write = move |ran: u64, skipped: u64, next: u64, bad: Option<(u64, String, String, String)>| {
    let mut f = std::fs::File::create(&out).unwrap();
    let b = match bad { None => "null".to_string(), Some((n, i, e, g)) => format!("{{\"case\": {}, \"input\": {}, \"expected\": {}, \"actual\": {}}}", n, esc(&i), esc(&e), esc(&g)) };
    write!(f, "{{\"ran\": {}, \"skipped\": {}, \"next\": {}, \"bad\": {}}}", ran, skipped, next, b).unwrap();
  };
  // a case that does not come back is a failing input too
  let w2 = write.clone();
  std::thread::spawn(move || {
    let (mut last, mut since) = (u64::MAX, Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(200));
      let c = CUR.load(Ordering::SeqCst);
      if c != last { last = c; since = Instant::now(); }
      else if c != u64::MAX && since.elapsed() > Duration::from_secs(20) { w2(0, 0, c, Some((c, "see case number".into(), "the call returns".into(), "the call did not return within 20 s".into()))); std::process::exit(0); }
    }
  });
  let body = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
    let t0 = Instant::now();
    let (mut ran, mut skipped, mut n) = (0u64, 0u64, first);
    let mut bad = None;
    let trace = std::env::var("REPLAY_TRACE").ok();
    while ran + skipped < max && t0.elapsed().as_secs_f64() < secs {
      CUR.store(n, Ordering::SeqCst);
      if let Some(t) = &trace { std::fs::write(t, n.to_string()).unwrap(); }
      let mut r = Rng(seed.wrapping_mul(1_000_003).wrapping_add(n).wrapping_mul(0x2545F4914F6CDD1D));
      r.next();
      match fams::case(&prop, &mut r) {
        Case::Skip => skipped += 1,
        Case::Ok => ran += 1,
        Case::Bad { input, expected, actual } => { bad = Some((n, input, expected, actual)); break; }
      }
      n += step;
      // trees of tokens are cycles of counted references and are never freed: another process carries on
      if (ran + skipped) % 64 == 0 && rss() > 1_500_000_000 { break; }
    }
    if SCRATCH.get().unwrap().exists() { let _ = std::fs::remove_dir_all(SCRATCH.get().unwrap()); }
    write(ran, skipped, n, bad);
  }).unwrap();
  body.join().unwrap();
}
