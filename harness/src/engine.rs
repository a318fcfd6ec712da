//! Choice-sequence generation, statistics and shrinking.
//!
//! A test case is a pure function of a sequence of integer choices.  While searching, choices come
//! from a pseudo random generator and are recorded; while shrinking and replaying, they come from a
//! given sequence (missing choices are 0, which every generator maps to its simplest value).

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ b.len() as u64);
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        h = mix(h ^ v);
    }
    h
}

pub const MAX_CHOICES: usize = 400_000;

pub struct Gen {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    /// choices are also written here at once, to survive a crash of the process
    sink: Option<std::fs::File>,
}

fn record_sink() -> Option<std::fs::File> {
    std::env::var("VERIF_RECORD").ok().and_then(|p| std::fs::File::create(p).ok())
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { state: seed, replay: None, pos: 0, rec: vec![], spans: vec![], sink: record_sink() }
    }
    pub fn replay(v: Vec<u64>) -> Gen {
        Gen { state: 0, replay: Some(v), pos: 0, rec: vec![], spans: vec![], sink: record_sink() }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
    /// A number in 0..n (0 is the simplest).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.rec.len() >= MAX_CHOICES {
            0
        } else if let Some(r) = &self.replay {
            let v = r.get(self.pos).cloned().unwrap_or(0);
            if v >= n { v % n } else { v }
        } else {
            let r = self.raw();
            ((r as u128 * n as u128) >> 64) as u64
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.us(b - a + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// index by weight; the first alternative is simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn sel(&mut self, v: &[&'static str]) -> &'static str {
        v[self.us(v.len())]
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    /// Marks the choices drawn inside as one unit for the shrinker.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Gen) -> T) -> T {
        let s = self.rec.len();
        let r = f(self);
        let e = self.rec.len();
        if e > s {
            self.spans.push((s, e));
        }
        r
    }
    /// Repeats `f` a number of times between min and max, average about `avg`; every repetition is
    /// one unit for the shrinker.
    pub fn many(&mut self, min: usize, max: usize, avg: usize, mut f: impl FnMut(&mut Gen, usize)) {
        let extra = (avg.max(min) - min).max(1) as u64;
        let mut i = 0;
        loop {
            if i >= max {
                break;
            }
            let s = self.rec.len();
            if i >= min {
                let more = self.below(extra + 1) > 0;
                if !more {
                    break;
                }
            }
            f(self, i);
            let e = self.rec.len();
            if e > s {
                self.spans.push((s, e));
            }
            i += 1;
        }
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    Violation(String),
    Discard,
}
pub type Res<T> = Result<T, Fail>;

#[macro_export]
macro_rules! vio {
    ($($a:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail::Violation(format!($($a)*))) } };
}

/// Converts an error of the code under test into a violation.
pub trait OrVio<T> {
    fn or_vio(self, what: &str) -> Res<T>;
}
impl<T, E: std::fmt::Display> OrVio<T> for Result<T, E> {
    fn or_vio(self, what: &str) -> Res<T> {
        self.map_err(|e| Fail::Violation(format!("{}: unexpected error: {}", what, e)))
    }
}
pub trait OrVioOpt<T> {
    fn or_vio(self, what: &str) -> Res<T>;
}
impl<T> OrVioOpt<T> for Option<T> {
    fn or_vio(self, what: &str) -> Res<T> {
        self.ok_or_else(|| Fail::Violation(format!("{}: unexpected None", what)))
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub discards: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub excluded: BTreeMap<String, u64>,
}

pub struct Cx {
    pub scratch: PathBuf,
    seq: u64,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub counters: Vec<(String, u64)>,
    pub sample: Option<String>,
    pub excluded: Vec<String>,
    pub case_hash: Option<u64>,
    pub thorough: bool,
    pub trace: bool,
}

impl Cx {
    pub fn new(scratch: &Path, seq: u64, thorough: bool) -> Cx {
        Cx {
            scratch: scratch.to_path_buf(), seq, nontrivial: false, labels: vec![], counters: vec![],
            sample: None, excluded: vec![], case_hash: None, thorough, trace: false,
        }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn count(&mut self, s: &str, n: u64) {
        self.counters.push((s.to_string(), n));
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// a fresh directory, unique over the life of the process (caches in the code under test are
    /// keyed by path); removed after the case
    pub fn dir(&mut self) -> PathBuf {
        static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = self.scratch.join(format!("c{}_{}", self.seq, n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    }
}

pub type CaseFn = fn(&mut Gen, &mut Cx) -> Res<()>;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}
static OTHER_PANIC: once_cell::sync::Lazy<std::sync::Mutex<Option<String>>> = once_cell::sync::Lazy::new(|| std::sync::Mutex::new(None));

/// panics of all threads so far
pub static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if let Ok(mut g) = OTHER_PANIC.lock() {
            *g = Some(text);
        }
    }));
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take()).or_else(|| OTHER_PANIC.lock().ok().and_then(|mut g| g.take()))
}

/// Runs code under test, turning a panic into Err(text).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_last_panic().unwrap_or_else(|| "panic".to_string())),
    }
}

pub enum Outcome {
    Pass,
    Discard,
    Fail(String),
}

pub fn clean_dir(p: &Path) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let path = e.path();
            if path.is_dir() {
                let _ = std::fs::remove_dir_all(&path);
            } else {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
}

pub fn run_once(f: CaseFn, g: &mut Gen, cx: &mut Cx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(g, cx)));
    let out = match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Fail::Discard)) => Outcome::Discard,
        Ok(Err(Fail::Violation(s))) => Outcome::Fail(s),
        Err(_) => Outcome::Fail(take_last_panic().unwrap_or_else(|| "panic".to_string())),
    };
    clean_dir(&cx.scratch);
    out
}

/// Shrinks a failing choice sequence in-process. `test` returns Some(message) while it still fails.
pub fn shrink(
    start: Vec<u64>,
    spans: Vec<(usize, usize)>,
    budget: Duration,
    mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>, String)>,
) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_spans = spans;
    let mut evals = 0u64;
    let trim = |v: &mut Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    trim(&mut best);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if t0.elapsed() > budget {
                return (best, evals);
            }
            evals += 1;
            match test(&cand) {
                Some((mut rec, spans, _msg)) => {
                    trim(&mut rec);
                    // only accept if simpler in shortlex order
                    let simpler = rec.len() < best.len() || (rec.len() == best.len() && rec < best);
                    if simpler {
                        best = rec;
                        best_spans = spans;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = (best.len(), best.clone());
        // 1. remove whole spans, largest first
        let mut spans: Vec<(usize, usize)> = best_spans.clone();
        spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
        let mut i = 0;
        while i < spans.len() {
            let (s, e) = spans[i];
            if e <= best.len() && s < e {
                let mut c = best.clone();
                c.drain(s..e);
                if attempt!(c) {
                    spans = best_spans.clone();
                    spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
                    continue;
                }
            }
            i += 1;
        }
        // 2. remove blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut pos = 0;
            while pos < best.len() {
                let e = (pos + size).min(best.len());
                let mut c = best.clone();
                c.drain(pos..e);
                if !attempt!(c) {
                    pos += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 3. zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut pos = 0;
            while pos < best.len() {
                let e = (pos + size).min(best.len());
                if best[pos..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[pos..e] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                pos += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 4. lower single choices
        let mut pos = 0;
        while pos < best.len() {
            let mut lo = 0u64;
            let mut hi = best[pos];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if pos >= c.len() {
                    break;
                }
                c[pos] = mid;
                if attempt!(c) {
                    if pos >= best.len() {
                        break;
                    }
                    hi = best[pos].min(mid);
                } else {
                    lo = mid + 1;
                }
                if hi - lo > 1 << 20 && t0.elapsed() > budget {
                    break;
                }
            }
            pos += 1;
        }
        if before == (best.len(), best.clone()) {
            return (best, evals);
        }
    }
}
