//! Exhaustive, parallel, shortest-first enumeration of bounded input spaces,
//! with a watchdog: an input which never finishes is reported like any other
//! violation.
use std::{
    collections::{BTreeMap, HashSet},
    hash::{BuildHasherDefault, Hash, Hasher},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const THREADS: usize = 8;
/// An input of a few hundred bytes which takes this long is not going to finish
pub const HANG: Duration = Duration::from_secs(60);

/// Hashes are already uniformly distributed
#[derive(Default)]
pub struct Same(u64);
impl Hasher for Same {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, n: u64) { self.0 = n }
}
pub type Set = HashSet<u64, BuildHasherDefault<Same>>;

#[derive(Default, Clone, Copy)]
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) }
    }
}
pub fn hash_from(seed: u64, x: &impl Hash) -> u64 {
    let mut h = Fnv(seed ^ 0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

/// All concatenations of up to `n` words of an alphabet, placed inside of a frame
#[derive(Clone, Debug)]
pub struct Space {
    pub name: String,
    pub alpha: Vec<String>,
    pub pre: String,
    pub suf: String,
    pub n: u32,
}

impl Space {
    pub fn new(name: &str, alpha: &[&str], n: u32) -> Self {
        Space { name: name.into(), alpha: alpha.iter().map(|s| s.to_string()).collect(), pre: String::new(), suf: String::new(), n }
    }
    pub fn framed(mut self, pre: &str, suf: &str) -> Self {
        self.pre = pre.into();
        self.suf = suf.into();
        self
    }
    fn level(&self, len: u32) -> u64 { (self.alpha.len() as u64).pow(len) }
    pub fn size(&self) -> u64 { (0..=self.n).map(|l| self.level(l)).sum() }
    pub fn nth(&self, len: u32, mut i: u64, out: &mut String) {
        out.clear();
        out.push_str(&self.pre);
        // Most significant word first: neighbours share a prefix
        let mut div = self.level(len.saturating_sub(1));
        for _ in 0..len {
            out.push_str(&self.alpha[(i / div) as usize]);
            i %= div;
            div = (div / self.alpha.len() as u64).max(1);
        }
        out.push_str(&self.suf);
    }
}

/// What a run counted. Every counter is named by the check.
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub sets: BTreeMap<&'static str, Set>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, name: &'static str, n: u64) { *self.counts.entry(name).or_insert(0) += n }
    pub fn see(&mut self, name: &'static str, h: u64) { self.sets.entry(name).or_default().insert(h); }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { let s = f(); self.samples.push(s) } }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts { *self.counts.entry(k).or_insert(0) += v }
        for (k, v) in o.sets {
            let s = self.sets.entry(k).or_default();
            if s.is_empty() { *s = v } else { s.extend(v) }
        }
        self.samples.extend(o.samples);
    }
    pub fn get(&self, n: &str) -> u64 { self.counts.get(n).copied().unwrap_or(0) }
    pub fn distinct(&self, n: &str) -> u64 { self.sets.get(n).map_or(0, |s| s.len() as u64) }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub input: String,
    pub what: String,
}

/// What a worker is busy with, for the watchdog
struct Busy {
    since: AtomicU64,
    on: Mutex<String>,
}
static BUSY: [Busy; THREADS] = [const { Busy { since: AtomicU64::new(0), on: Mutex::new(String::new()) } }; THREADS];
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now() -> u64 { EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }

thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

static SLOWEST: AtomicU64 = AtomicU64::new(0);
/// Milliseconds taken by the slowest case
pub fn slowest() -> u64 { SLOWEST.load(SeqCst) }

/// Where to write down each case before it runs, if it is expected to kill the process
static JOURNAL: std::sync::OnceLock<Option<std::path::PathBuf>> = std::sync::OnceLock::new();

/// Announce the case the current worker is about to run
pub fn on(case: &str) {
    let me = ME.with(|m| m.get());
    let b = &BUSY[me];
    let t = now();
    let was = b.since.swap(t, SeqCst);
    if was != 0 && t - was > SLOWEST.load(Relaxed) { SLOWEST.fetch_max(t - was, SeqCst); }
    let mut g = b.on.lock().unwrap();
    g.clear();
    g.push_str(case);
    if let Some(dir) = JOURNAL.get_or_init(|| std::env::var_os("YARY_MC_JOURNAL").map(|d| d.into())) {
        std::fs::write(dir.join(me.to_string()), case).ok();
    }
}
fn off() { BUSY[ME.with(|m| m.get())].since.store(0, SeqCst) }

/// Findings which are reported, but do not fail the check
static KNOWN: Mutex<Vec<(String, String, bool)>> = Mutex::new(Vec::new());
pub fn allow(v: Vec<(String, String)>) { *KNOWN.lock().unwrap() = v.into_iter().map(|(a, b)| (a, b, false)).collect() }
pub fn seen_known() -> Vec<(String, String)> { KNOWN.lock().unwrap().iter().filter(|k| k.2).map(|k| (k.0.clone(), k.1.clone())).collect() }
fn is_known(v: &Violation) -> bool {
    let input = format!("{:?}", v.input);
    let mut k = KNOWN.lock().unwrap();
    match k.iter_mut().find(|k| k.0 == input && v.what.contains(&k.1)) {
        Some(k) => {
            k.2 = true;
            true
        }
        None => false,
    }
}

/// Report a case which never finished, from another thread. Never returns if it finds one.
pub fn watchdog(report: impl Fn(&Violation) + Send + 'static) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for b in &BUSY {
            let since = b.since.load(SeqCst);
            if since != 0 && now() > since + HANG.as_millis() as u64 {
                let input = b.on.lock().unwrap().clone();
                let what = format!("no result after {} s: the library does not terminate, or not in reasonable time and space", HANG.as_secs());
                report(&Violation { input, what });
                std::process::exit(1);
            }
        }
    });
}

/// Run `f` over every index below `n`, in parallel, in ascending blocks.
pub fn each<F>(n: u64, stats: &mut Stats, f: F) -> Result<(), Violation>
where
    F: Fn(u64, &mut Stats) -> Result<(), Violation> + Sync,
{
    let block = (n / (THREADS as u64 * 16)).clamp(1, 8192);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
    let id = AtomicUsize::new(0);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        let mut workers = vec![];
        for _ in 0..THREADS {
            let worker = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    ME.with(|m| m.set(id.fetch_add(1, SeqCst)));
                    let mut st = Stats::default();
                    'out: while !stop.load(Relaxed) {
                        let at = next.fetch_add(block, SeqCst);
                        if at >= n { break }
                        for i in at..(at + block).min(n) {
                            if let Err(v) = f(i, &mut st) {
                                if is_known(&v) { continue }
                                let mut b = bad.lock().unwrap();
                                if b.as_ref().map_or(true, |(j, _)| i < *j) { *b = Some((i, v)) }
                                stop.store(true, Relaxed);
                                break 'out;
                            }
                        }
                    }
                    off();
                    all.lock().unwrap().push(st);
                });
            workers.push(worker.unwrap());
        }
        // Not left to the scope: it detaches them, which glibc gets wrong for a
        // thread that ends at that moment and had a stack too big to be kept
        for w in workers {
            if let Err(e) = w.join() { std::panic::resume_unwind(e) }
        }
    });
    for st in all.into_inner().unwrap() { stats.merge(st) }
    match bad.into_inner().unwrap() {
        Some((_, v)) => Err(v),
        None => Ok(()),
    }
}

/// Run `f` on every input of every space, shortest inputs first.
pub fn explore<F>(spaces: &[Space], stats: &mut Stats, f: F) -> Result<(), Violation>
where
    F: Fn(&str, &mut Stats) -> Result<(), String> + Sync,
{
    let deepest = spaces.iter().map(|s| s.n).max().unwrap_or(0);
    for len in 0..=deepest {
        for s in spaces.iter().filter(|s| len <= s.n) {
            each(s.level(len), stats, |i, st| {
                let mut input = String::new();
                s.nth(len, i, &mut input);
                on(&input);
                st.add("inputs", 1);
                f(&input, st).map_err(|what| Violation { input, what })
            })?;
        }
    }
    Ok(())
}
