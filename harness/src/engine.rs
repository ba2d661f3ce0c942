//! Property-based testing engine: deterministic choice-sequence generation (one sequence of bounded
//! integers per case), classification, integrated shrinking over the choice sequence, replay files
//! and evidence.  A property is a function from a choice source to Ok / Fail; everything random in a
//! case is drawn from the source, so a case is identified by its choice sequence alone.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/* ---------------------------------------------------------------- choice source */

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    // classification
    labels: Vec<&'static str>,
    nontrivial: bool,
    want_note: bool,
    notes: Vec<String>,
    tag: u64,
}

impl Src {
    fn generate(seed: u64, want_note: bool) -> Self {
        Src { rng: Rng(seed), replay: None, pos: 0, rec: Vec::new(), labels: vec![], nontrivial: false, want_note, notes: vec![], tag: 0 }
    }
    fn replaying(choices: Vec<u64>) -> Self {
        Src { rng: Rng(0), replay: Some(choices), pos: 0, rec: Vec::new(), labels: vec![], nontrivial: false, want_note: true, notes: vec![], tag: 0 }
    }
    /// A value in 0..n (n >= 1). 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &self.replay {
            None => {
                if n == 1 {
                    0
                } else {
                    // multiply-shift; bias is irrelevant here
                    ((u128::from(self.rng.next()) * u128::from(n)) >> 64) as u64
                }
            }
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.below(256) as u8).collect()
    }
    /// small sizes are likely, `max` is reachable
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[6, 3, 1]) {
            0 => self.idx(max.min(4) + 1),
            1 => self.idx(max.min(24) + 1),
            _ => self.idx(max + 1),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /* classification */
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Extra material for the identity of a case (cases are distinct by their choices otherwise).
    pub fn tag(&mut self, bytes: &[u8]) {
        let mut h = self.tag ^ 0xcbf2_9ce4_8422_2325;
        for b in bytes {
            h ^= u64::from(*b);
            h = h.wrapping_mul(0x0100_0000_01b3);
        }
        self.tag = h;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let mut s = f();
            if s.len() > 2000 {
                let mut cut = 2000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.notes.push(s);
        }
    }
}

/* ---------------------------------------------------------------- failures */

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature of the root cause as far as the oracle can tell; known findings match on it.
    pub sig: String,
    pub msg: String,
    /// The harness itself is wrong (never reported as a violation).
    pub harness: bool,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into(), harness: false })
}
#[allow(dead_code)]
pub fn harness_bug<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: "harness".into(), msg: msg.into(), harness: true })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

/* ---------------------------------------------------------------- panics */

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let cap = CAPTURE.with(Cell::get);
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !cap {
            default(info);
        }
    }));
}

/// Marker payload used by the tests' own callbacks when they need to panic (none do at present).
fn run_guarded(f: fn(&mut Src) -> R, src: &mut Src) -> R {
    CAPTURE.with(|c| c.set(true));
    crate::alloc_guard::begin_case();
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    crate::alloc_guard::end_case();
    CAPTURE.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Panics located in this harness' own sources are harness errors; everything else is
            // raised by rsasl or by a dependency it calls into.
            let own = loc.starts_with("src/") || loc.contains("/verif/harness/");
            Err(Fail { sig: "panic".into(), msg: format!("panic at {loc}: {msg}"), harness: own })
        }
    }
}

/// Catches a panic of the code under test inside a property, e.g. to go on after it.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let own = loc.starts_with("src/") || loc.contains("/verif/harness/");
            Err(Fail { sig: "panic".into(), msg: format!("panic at {loc}: {msg}"), harness: own })
        }
    }
}

/// Runs a case of another property inside this one, without judging it; what it found and the most memory
/// that every one of three further runs of the same case left behind.
pub fn nested(f: PropFn, src: &mut Src) -> (Result<R, Fail>, i64) {
    let at = src.rec.len();
    let labels = src.labels.len();
    let first = guarded(|| f(src));
    src.labels.truncate(labels);
    let choices = src.rec[at..].to_vec();
    let mut left = i64::MAX;
    for _ in 0..3 {
        let before = crate::alloc_guard::mark();
        {
            let mut again = Src::replaying(choices.clone());
            again.want_note = false;
            let _ = guarded(|| f(&mut again));
        }
        left = left.min(crate::alloc_guard::mark() - before);
        if left <= 0 {
            break;
        }
    }
    (first, left)
}

/* ---------------------------------------------------------------- suites */

pub type PropFn = fn(&mut Src) -> R;

pub struct Suite {
    pub name: &'static str,
    pub f: PropFn,
    /// cases in the quick tier; the thorough tier multiplies them
    pub quick: u64,
    pub thorough: u64,
    /// run the cases of this suite on one thread (for process-global observations)
    pub serial: bool,
}
pub fn suite(name: &'static str, f: PropFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, f, quick, thorough, serial: false }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
    /// labels that must occur in a healthy run (generator health); missing ones are a check error
    pub expect_labels: &'static [&'static str],
}
impl Prop {
    /// Seconds after which a case counts as stuck. A case normally takes milliseconds, except where it
    /// builds something.
    pub fn stuck_s(&self) -> u64 {
        if self.id == "C28" {
            450
        } else {
            100
        }
    }
}

pub struct RunCfg {
    pub seed: u64,
    pub tier: &'static str,
    pub threads: usize,
    pub scale: f64,
    pub progress: Option<String>,
    pub only: Option<(String, u64)>,
}

pub fn case_seed(seed: u64, id: &str, suite: &str, i: u64) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in id.bytes().chain([b'/']).chain(suite.bytes()) {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    let mut r = Rng(h ^ i.wrapping_mul(0xD1B5_4A32_D192_ED03));
    r.next()
}

pub struct Found {
    pub suite: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub fail: Fail,
    pub notes: Vec<String>,
    pub reproducible: bool,
    pub shrunk_from: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known_hits: BTreeMap<String, u64>,
    /// suite -> (cases, seconds)
    pub per_suite: BTreeMap<String, (u64, f64)>,
}

fn hash_choices(rec: &[u64], tag: u64) -> u64 {
    let mut h: u64 = 0x84222325_cbf29ce4 ^ tag;
    for c in rec {
        h ^= *c;
        h = h.wrapping_mul(0x0100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

pub struct Progress {
    ptr: *mut AtomicU64,
    slots: usize,
}
unsafe impl Sync for Progress {}
unsafe impl Send for Progress {}
impl Progress {
    /// A small file shared with the supervising process: per thread the case being executed.
    pub fn open(path: &str, slots: usize) -> Option<Progress> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len((slots * 16) as u64).ok()?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), slots * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Progress { ptr: p.cast(), slots })
    }
    fn set(&self, slot: usize, suite: u64, case: u64) {
        if slot < self.slots {
            unsafe {
                (*self.ptr.add(slot * 2)).store(suite + 1, Ordering::SeqCst);
                (*self.ptr.add(slot * 2 + 1)).store(case, Ordering::SeqCst);
            }
        }
    }
    pub fn get(&self) -> Vec<(u64, u64)> {
        (0..self.slots)
            .filter_map(|s| unsafe {
                let a = (*self.ptr.add(s * 2)).load(Ordering::SeqCst);
                let b = (*self.ptr.add(s * 2 + 1)).load(Ordering::SeqCst);
                (a > 0).then(|| (a - 1, b))
            })
            .collect()
    }
}

pub fn run_prop(prop: &Prop, cfg: &RunCfg, known: &[String]) -> Result<(Stats, Option<Found>), Fail> {
    let mut total = Stats::default();
    let progress = cfg.progress.as_deref().and_then(|p| Progress::open(p, cfg.threads));
    for (si, s) in prop.suites.iter().enumerate() {
        let n = match cfg.tier {
            "thorough" => s.thorough,
            _ => s.quick,
        };
        let n = ((n as f64 * cfg.scale) as u64).max(1);
        let only = match &cfg.only {
            Some((name, i)) => {
                if name != s.name {
                    continue;
                }
                Some(*i)
            }
            None => None,
        };
        let t0 = std::time::Instant::now();
        let next = AtomicU64::new(only.unwrap_or(0));
        let end = only.map_or(n, |i| i + 1);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
        let merged: Mutex<Vec<Stats>> = Mutex::new(vec![]);
        let threads = if s.serial { 1 } else { cfg.threads };
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, found, merged, progress) = (&next, &stop, &found, &merged, &progress);
                std::thread::Builder::new()
                    // what a thread has by default
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        'outer: loop {
                            // few cases means expensive cases
                            let chunk = if s.serial || n < 2000 { 1 } else { 16 };
                            let start = next.fetch_add(chunk, Ordering::SeqCst);
                            if start >= end || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            for i in start..(start + chunk).min(end) {
                                if let Some(p) = progress {
                                    p.set(t, si as u64, i);
                                }
                                let want = i % ((n / 3).max(1)) == 0;
                                let mut src = Src::generate(case_seed(cfg.seed, prop.id, s.name, i), want);
                                let r = run_guarded(s.f, &mut src);
                                st.evaluations += 1;
                                for l in &src.labels {
                                    *st.labels.entry(format!("{}:{}", s.name, l)).or_default() += 1;
                                }
                                if src.nontrivial {
                                    st.nontrivial += 1;
                                    st.distinct.insert(hash_choices(&src.rec, src.tag) ^ (si as u64) << 60);
                                }
                                if want && st.samples.len() < 3 {
                                    st.samples.push(serde_json::json!({"suite": s.name, "case": i, "choices": src.rec.len(), "trace": src.notes}));
                                }
                                if let Err(f) = r {
                                    if !f.harness && known.iter().any(|k| *k == f.sig) {
                                        *st.known_hits.entry(f.sig.clone()).or_default() += 1;
                                        continue;
                                    }
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                        *g = Some((i, src.rec.clone(), f));
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                        }
                        merged.lock().unwrap().push(st);
                    })
                    .expect("spawn");
            }
        });
        for st in merged.into_inner().unwrap() {
            total.evaluations += st.evaluations;
            let e = total.per_suite.entry(s.name.to_string()).or_default();
            e.0 += st.evaluations;
            e.1 = t0.elapsed().as_secs_f64();
            total.nontrivial += st.nontrivial;
            total.distinct.extend(st.distinct);
            for (k, v) in st.labels {
                *total.labels.entry(k).or_default() += v;
            }
            for (k, v) in st.known_hits {
                *total.known_hits.entry(k).or_default() += v;
            }
            total.samples.extend(st.samples);
        }
        if let Some((index, choices, f)) = found.into_inner().unwrap() {
            if f.harness {
                return Err(f);
            }
            let found = shrink(s, index, choices, f, known);
            return Ok((total, Some(found)));
        }
    }
    total.samples.sort_by_key(|v| (v["suite"].as_str().unwrap_or("").to_string(), v["case"].as_u64()));
    total.samples.truncate(12);
    Ok((total, None))
}

fn attempt(s: &Suite, choices: &[u64], known: &[String]) -> Option<(Vec<u64>, Fail, Vec<String>)> {
    let mut src = Src::replaying(choices.to_vec());
    match run_guarded(s.f, &mut src) {
        Err(f) if !f.harness && !known.iter().any(|k| *k == f.sig) => Some((src.rec, f, src.notes)),
        _ => None,
    }
}

/// Integrated shrinking over the choice sequence: delete blocks, zero blocks, lower values.
fn shrink(s: &Suite, index: u64, choices: Vec<u64>, fail: Fail, known: &[String]) -> Found {
    let shrunk_from = choices.len();
    let mut best: Option<(Vec<u64>, Fail, Vec<String>)> = None;
    for _ in 0..8 {
        best = attempt(s, &choices, known);
        if best.is_some() {
            break;
        }
    }
    let Some(mut best) = best else {
        return Found { suite: s.name, index, choices, fail, notes: vec!["not reproduced when replayed (depends on the library's own randomness)".into()], reproducible: false, shrunk_from };
    };
    let t0 = std::time::Instant::now();
    let mut tries = 0u32;
    let budget = |tries: u32| tries < 4000 && t0.elapsed().as_secs() < 40;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut progress = true;
    while progress && budget(tries) {
        progress = false;
        // delete blocks
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.0.len() && budget(tries) {
                let mut c = best.0.clone();
                c.drain(i..i + size);
                tries += 1;
                match attempt(s, &c, known) {
                    Some(r) if better(&r.0, &best.0) => {
                        best = r;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.0.len() && budget(tries) {
                if best.0[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.0.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    tries += 1;
                    if let Some(r) = attempt(s, &c, known) {
                        if better(&r.0, &best.0) {
                            best = r;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.0.len() && budget(tries) {
            let v = best.0[i];
            for cand in [v / 2, v.saturating_sub(1)] {
                if cand < v {
                    let mut c = best.0.clone();
                    c[i] = cand;
                    tries += 1;
                    if let Some(r) = attempt(s, &c, known) {
                        if better(&r.0, &best.0) {
                            best = r;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    Found { suite: s.name, index, choices: best.0, fail: best.1, notes: best.2, reproducible: true, shrunk_from }
}

/// Replays a choice sequence several times (the library's own nonces differ between runs).
pub fn replay(prop: &Prop, suite: &str, choices: &[u64]) -> Option<(Fail, Vec<String>)> {
    let s = prop.suites.iter().find(|s| s.name == suite)?;
    for _ in 0..20 {
        if let Some((_, f, n)) = attempt(s, choices, &[]) {
            return Some((f, n));
        }
    }
    None
}
