//! Execution of stages: journalled cases, panic capture, counters, distinct-case hashes.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub trivial: u64,
    pub hashes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// one per case: (stage, case, hash)
    pub outcomes: Vec<(u32, u64, u32)>,
    pub violations: Vec<(String, u64, String)>,
    pub harness_errors: Vec<String>,
    pub stages: BTreeMap<String, u64>,
}

pub struct Ctx<'s> {
    pub rng: Rng,
    pub idx: u64,
    pub stage: u32,
    pub thorough: bool,
    pub stats: &'s mut Stats,
    stage_samples: usize,
}

const MAX_HASHES: usize = 3_000_000;

impl Ctx<'_> {
    /// one oracle evaluation on a non-trivial case identified by `h`
    pub fn eval(&mut self, h: u64) {
        self.stats.evals += 1;
        if self.stats.hashes.len() < MAX_HASHES {
            self.stats.hashes.insert(h);
        }
    }
    pub fn eval_trivial(&mut self) {
        self.stats.evals += 1;
        self.stats.trivial += 1;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.stats.counters.get_mut(k) {
            *c += n;
        } else {
            self.stats.counters.insert(k.to_string(), n);
        }
    }
    /// largest value seen
    pub fn peak(&mut self, k: &str, n: u64) {
        let c = self.stats.counters.entry(format!("max:{k}")).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stage_samples > 0 && self.stats.samples.len() < 40 {
            self.stage_samples -= 1;
            let s: String = f().chars().take(400).collect();
            self.stats.samples.push(s);
        }
    }
    pub fn outcome(&mut self, h: u64) {
        let h = (h ^ (h >> 32)) as u32;
        match self.stats.outcomes.last_mut() {
            Some(l) if l.0 == self.stage && l.1 == self.idx => l.2 = l.2.rotate_left(5).wrapping_mul(0x9e37_79b1) ^ h,
            _ => self.stats.outcomes.push((self.stage, self.idx, h)),
        }
    }
}

pub type R = Result<(), String>;

pub struct Stage {
    pub name: &'static str,
    pub n: u64,
    pub f: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}

pub fn stage(name: &'static str, n: u64, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Stage {
    Stage { name, n, f: Box::new(f) }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    let n = b.len().min(600);
    for x in &b[..n] {
        s.push_str(&format!("{x:02x}"));
    }
    if n < b.len() {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.starts_with("unsafe precondition") {
            // cannot unwind: say it before the abort
            eprintln!("VMON-ABORT {msg} at {loc}");
        }
        if std::env::var_os("VMON_PANICS").is_some() {
            eprintln!("VMON-PANIC {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// run `f`; a panic becomes Err((message, is_harness))
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, bool)> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        // zoo.rs and pq.rs hold nothing but macro-generated code under test
        let ours = loc.starts_with("src/") && !loc.starts_with("src/zoo.rs") && !loc.starts_with("src/pq.rs");
        let harness = ours && !msg.starts_with("ORACLE");
        (format!("panic: {msg} at {loc}"), harness)
    })
}

pub fn seed_of(seed: u64, stage: &str, idx: u64) -> u64 {
    mix(mix(seed, crate::rng::hash_bytes(7, stage.as_bytes())), idx)
}

pub fn run_case(st: &Stage, si: u32, seed: u64, idx: u64, thorough: bool, stats: &mut Stats, samples: usize) -> usize {
    let mut ctx = Ctx { rng: Rng::new(seed_of(seed, st.name, idx)), idx, stage: si, thorough, stats, stage_samples: samples };
    let r = guarded(|| (st.f)(&mut ctx));
    let left = ctx.stage_samples;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => stats.violations.push((st.name.to_string(), idx, m)),
        Err((m, false)) => stats.violations.push((st.name.to_string(), idx, m)),
        Err((m, true)) => stats.harness_errors.push(format!("{} #{idx}: {m}", st.name)),
    }
    left
}

/// Position of the running case, visible to the supervisor even if this process dies.
pub trait Journal {
    fn at(&mut self, stage: u64, idx: u64);
}
pub struct NoJournal;
impl Journal for NoJournal {
    fn at(&mut self, _: u64, _: u64) {}
}
pub struct ErrJournal;
impl Journal for ErrJournal {
    fn at(&mut self, s: u64, i: u64) {
        eprintln!("VMON-CASE {s} {i}");
    }
}

#[cfg(all(unix, not(miri)))]
pub mod mapped {
    use std::ffi::c_void;
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    }
    pub struct Mapped(*mut u64, u64);
    impl Mapped {
        pub fn open(path: &str) -> Self {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("journal");
            f.set_len(4096).unwrap();
            let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
            assert!(p as isize != -1);
            Mapped(p as *mut u64, 0)
        }
    }
    impl super::Journal for Mapped {
        fn at(&mut self, s: u64, i: u64) {
            self.1 += 1;
            unsafe {
                self.0.write_volatile(s);
                self.0.add(1).write_volatile(i);
                self.0.add(2).write_volatile(self.1);
            }
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    pub deadline: Option<std::time::Instant>,
    pub start: (u64, u64),
    pub max_violations: usize,
    pub only: Option<String>,
    pub scale: f64,
}

/// Runs this shard's cases. Returns false if the deadline cut it short.
pub fn run_stages(stages: &[Stage], o: &Opts, stats: &mut Stats, j: &mut dyn Journal) -> bool {
    for (si, st) in stages.iter().enumerate() {
        if (si as u64) < o.start.0 || st.n == 0 {
            continue;
        }
        if let Some(f) = &o.only {
            if f != st.name {
                continue;
            }
        }
        let least = std::env::var("VMON_LEAST").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let n = if o.scale == 1.0 { st.n } else { ((st.n as f64 * o.scale).ceil() as u64).max(least.min(st.n)) };
        // spread a scaled-down stage over its whole range
        let stride = (st.n / n).max(1);
        let mut samples = 3;
        let mut done = 0;
        let mut k = o.shard;
        while k < n {
            let i = if n == st.n { k } else { k * stride + o.seed % stride };
            if si as u64 == o.start.0 && i < o.start.1 {
                k += o.nshards;
                continue;
            }
            j.at(si as u64, i);
            samples = run_case(st, si as u32, o.seed, i, o.thorough, stats, samples);
            done += 1;
            if stats.violations.len() >= o.max_violations || stats.harness_errors.len() >= 20 {
                *stats.stages.entry(st.name.to_string()).or_insert(0) += done;
                return true;
            }
            if done % 64 == 0 {
                if let Some(d) = o.deadline {
                    if std::time::Instant::now() > d {
                        *stats.stages.entry(st.name.to_string()).or_insert(0) += done;
                        return false;
                    }
                }
            }
            k += o.nshards;
        }
        *stats.stages.entry(st.name.to_string()).or_insert(0) += done;
    }
    true
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn json(s: &Stats, complete: bool) -> String {
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    format!(
        "{{\"evals\":{},\"trivial\":{},\"distinct\":{},\"complete\":{},\"counters\":{{{}}},\"stages\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"harness_errors\":[{}]}}",
        s.evals,
        s.trivial,
        s.hashes.len(),
        complete,
        map(&s.counters),
        map(&s.stages),
        s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        s.violations.iter().map(|(a, b, c)| format!("{{\"stage\":{},\"case\":{},\"msg\":{}}}", js(a), b, js(c))).collect::<Vec<_>>().join(","),
        s.harness_errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
    )
}
