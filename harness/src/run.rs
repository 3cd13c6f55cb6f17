//! Case driver: seeded cases, three-valued verdicts, evidence counters.
//!
//! Every case derives its own generator from (seed, property, stage, index),
//! so that a single case can be replayed alone.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// splitmix64
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// a size beyond or at the edge of 16-bit indices, blocks and buffers
    pub fn huge(&mut self) -> usize {
        match self.below(4) {
            0 => (1usize << (14 + self.below(4))) + self.below(3) - 1,
            1 => 65_536 + self.below(9),
            2 => 65_536 + self.below(70_000),
            _ => 30_000 + self.below(40_000),
        }
    }
    /// a shape with one huge dimension, or both large
    pub fn huge_shape(&mut self) -> (usize, usize) {
        let (n, k) = (self.huge(), 1 + self.below(3));
        match self.below(5) {
            0 | 1 => (n / k, k),
            2 | 3 => (k, n / k),
            _ => {
                let a = 200 + self.below(200);
                (a, n / a)
            }
        }
    }
    /// hostile size distribution: small sizes, around powers of two, large
    pub fn size(&mut self, max: usize) -> usize {
        let s = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=5 => self.below(9),
            6..=7 => self.below(24),
            8 => {
                let p = 1usize << self.below(9);
                (p + self.below(3)).saturating_sub(1)
            }
            _ => self.below(max + 1),
        };
        s.min(max)
    }
}

#[derive(Default)]
pub struct Log {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub findings: Vec<(String, String)>,
    sample_cap: usize,
}
impl Log {
    /// Records one evaluated case; `key` identifies it, `nontrivial` by the rule.
    pub fn case(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 400_000 {
            self.distinct.insert(key);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, v: u64) {
        let e = self.counters.entry(format!("max:{name}")).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.sample_cap {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// A violation that may be listed in known_findings.json under `key`.
    pub fn finding(&mut self, key: &str, msg: String) {
        self.findings.push((key.to_string(), msg));
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: RefCell<u32> = const { RefCell::new(0) };
}

/// Payload for errors of the harness itself (never a violation).
pub struct HarnessError(pub String);
pub fn harness_error(msg: impl Into<String>) -> ! {
    std::panic::panic_any(HarnessError(msg.into()))
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, returning Err(message) if it panics.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if let Some(h) = e.downcast_ref::<HarnessError>() {
                let m = h.0.clone();
                std::panic::panic_any(HarnessError(m));
            }
            Err(last_panic())
        }
    }
}

struct Violation {
    stage: String,
    idx: u64,
    msg: String,
}

pub struct Run {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    rule: &'static str,
    start: Instant,
    deadline: Instant,
    log: Mutex<Log>,
    violations: Mutex<Vec<Violation>>,
    errors: Mutex<Vec<String>>,
    stop: AtomicBool,
    replay: Option<(String, u64)>,
    threads: usize,
    floors: Mutex<Vec<(String, u64)>>,
    known: BTreeSet<String>,
    capped: AtomicBool,
}

pub fn known_keys(prop: &str) -> BTreeSet<String> {
    // known_findings.txt: lines "known: property=<id> key=<key> ..." ; other lines ignored
    let path = std::env::var("VERIF_KNOWN")
        .unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.txt").into());
    let mut out = BTreeSet::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.split_whitespace();
                if it.next() == Some(&format!("property={prop}")) {
                    if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                        out.insert(k.to_string());
                    }
                }
            }
        }
    }
    out
}

impl Run {
    pub fn new(prop: &'static str, rule: &'static str) -> Run {
        let ev = |k: &str| std::env::var(k).ok();
        let thorough = ev("VERIF_TIER").as_deref() == Some("thorough");
        let seed = ev("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let budget: f64 = ev("VERIF_BUDGET_S")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 300.0 } else { 120.0 });
        let replay = ev("VERIF_REPLAY").and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let threads = ev("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "(non-string panic)".into());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
        }));
        let start = Instant::now();
        Run {
            prop,
            thorough,
            seed,
            rule,
            start,
            deadline: start + Duration::from_secs_f64(budget),
            log: Mutex::new(Log::default()),
            violations: Mutex::default(),
            errors: Mutex::default(),
            stop: AtomicBool::new(false),
            replay,
            threads,
            floors: Mutex::default(),
            known: known_keys(prop),
            capped: AtomicBool::new(false),
        }
    }

    /// number of cases by tier; VERIF_SCALE (percent) shrinks it, e.g. for Miri
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // properties with cheap cases get more of them
        let boost = match self.prop {
            "C16" | "C28" | "C30" => 20,
            "C05" | "C07" | "C08" | "C23" => 12,
            "C04" | "C22" | "C24" | "C29" => 8,
            "C10" | "C12" | "C13" | "C14" | "C19" | "C20" | "C26" => 5,
            "C01" | "C02" | "C06" | "C15" | "C31" => 4,
            "C17" | "C25" => 2,
            _ => 1,
        };
        let base = boost * if self.thorough { 20 * thorough } else { 40 * quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(p) => ((base as f64 * p / 100.0) as u64).max(1),
            None => base,
        }
    }

    /// The run is inconclusive (exit 2) unless counter `name` reaches `min`.
    pub fn require(&self, name: &str, min: u64) {
        self.floors.lock().unwrap().push((name.to_string(), min));
    }

    pub fn cases<F>(&self, stage: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, &mut Log) -> Res + Sync,
    {
        self.cases_i(stage, n, |_, r, l| f(r, l))
    }

    /// As `cases`; the closure also gets the case index.
    pub fn cases_i<F>(&self, stage: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Log) -> Res + Sync,
    {
        let (lo, hi) = match &self.replay {
            Some((s, i)) if s == stage => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let t0 = Instant::now();
        let base = mix(self.seed ^ hash_str(self.prop)) ^ hash_str(stage);
        let workers = self.threads.min((hi - lo) as usize).max(1);
        let done_flag = Arc::new(AtomicBool::new(false));
        // watchdog: a case (they take milliseconds) that burns CPU_LIMIT_S of
        // CPU time does not terminate, which is a violation; one that only
        // waits makes the run inconclusive
        let beats: Arc<Vec<Beat>> = Arc::new((0..workers).map(|_| Beat::default()).collect());
        if !cfg!(miri) {
            let (df, bt, st) = (done_flag.clone(), beats.clone(), stage.to_string());
            let limit = std::env::var("VERIF_HANG_S")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(300u64);
            let (prop, seed, rule) = (self.prop, self.seed, self.rule);
            let judge_cpu = !matches!(std::env::var("VERIF_VARIANT").as_deref(), Ok("asan" | "tsan"));
            std::thread::spawn(move || {
                // (beat, wall seconds in this case, CPU time at its first sighting)
                let mut last: Vec<(u64, u64, f64)> = vec![(0, 0, 0.0); bt.len()];
                while !df.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(1000));
                    for (i, b) in bt.iter().enumerate() {
                        let v = b.n.load(Ordering::Relaxed);
                        let cpu = thread_cpu_s(b.tid.load(Ordering::Relaxed));
                        if v == 0 || v == u64::MAX || v != last[i].0 {
                            last[i] = (v, 0, cpu.unwrap_or(f64::MAX));
                            continue;
                        }
                        last[i].1 += 1;
                        if df.load(Ordering::Relaxed) {
                            return;
                        }
                        let used = cpu.map_or(0.0, |c| c - last[i].2);
                        if judge_cpu && used > CPU_LIMIT_S {
                            let idx = b.case.load(Ordering::Relaxed);
                            let msg = format!("no result after {used:.0} s of CPU time: the operation does not terminate");
                            println!("violated [{}] stage={st} case={idx} seed={seed}: {msg}", profile());
                            if let Ok(p) = std::env::var("VERIF_OUT") {
                                let _ = std::fs::write(p, format!(
                                    "{{\"property\":{},\"profile\":{},\"seed\":{seed},\"evals\":{v},\"distinct\":0,\"wall_s\":{used},\"capped\":true,\"rule\":{},\"samples\":[],\"counters\":{{}},\"violations\":[{{\"stage\":{},\"idx\":{idx},\"msg\":{}}}],\"inconclusive\":[]}}",
                                    js(prop), js(profile()), js(rule), js(&st), js(&msg)));
                            }
                            std::process::exit(1);
                        }
                        if last[i].1 > limit {
                            println!("INCONCLUSIVE: a case of stage {st} ran for over {limit} s");
                            std::process::exit(2);
                        }
                    }
                }
            });
        }
        let worker = |w: usize| {
            let mut log = Log { sample_cap: 2, ..Log::default() };
            beats[w].tid.store(own_tid(), Ordering::Relaxed);
            loop {
                if self.stop.load(Ordering::Relaxed) {
                    break;
                }
                if Instant::now() > self.deadline {
                    self.capped.store(true, Ordering::Relaxed);
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= hi {
                    break;
                }
                beats[w].case.store(i, Ordering::Relaxed);
                beats[w].n.fetch_add(1, Ordering::Relaxed);
                let mut rng = Rng::new(base ^ mix(i));
                let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rng, &mut log)));
                let msg = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(m)) => Some(m),
                    Err(e) => {
                        if let Some(h) = e.downcast_ref::<HarnessError>() {
                            self.errors.lock().unwrap().push(format!("{stage}:{i}: {}", h.0));
                            self.stop.store(true, Ordering::Relaxed);
                            None
                        } else {
                            Some(format!("operation that must succeed {}", last_panic()))
                        }
                    }
                };
                if let Some(msg) = msg {
                    self.violations.lock().unwrap().push(Violation {
                        stage: stage.to_string(),
                        idx: i,
                        msg,
                    });
                    self.stop.store(true, Ordering::Relaxed);
                }
                for (key, msg) in std::mem::take(&mut log.findings) {
                    self.report_finding(&key, stage, i, msg);
                }
            }
            beats[w].n.store(u64::MAX, Ordering::Relaxed);
            self.absorb(stage, log);
        };
        if cfg!(miri) {
            worker(0);
        } else {
            // large stacks: by-value matrices make large frames
            std::thread::scope(|s| {
                for w in 0..workers {
                    let wk = &worker;
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, move || wk(w))
                        .expect("spawning a worker");
                }
            });
        }
        done_flag.store(true, Ordering::Relaxed);
        if std::env::var("VERIF_TIMES").is_ok() {
            eprintln!("stage {stage}: {:.2} s", t0.elapsed().as_secs_f64());
        }
    }

    fn report_finding(&self, key: &str, stage: &str, idx: u64, msg: String) {
        if self.known.contains(key) {
            let mut log = self.log.lock().unwrap();
            let e = log.counters.entry(format!("known-finding:{key}")).or_insert(0);
            *e += 1;
            if *e == 1 {
                println!("KNOWN-FINDING: property={} key={} {}", self.prop, key, msg);
            }
        } else {
            self.violations.lock().unwrap().push(Violation {
                stage: stage.to_string(),
                idx,
                msg: format!("[{key}] {msg}"),
            });
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    fn absorb(&self, stage: &str, l: Log) {
        let mut g = self.log.lock().unwrap();
        g.evals += l.evals;
        g.distinct.extend(l.distinct);
        *g.counters.entry(format!("evals:{stage}")).or_insert(0) += l.evals;
        for (k, v) in l.counters {
            let e = g.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max:") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        let pre = format!("{stage}: ");
        let have = g.samples.iter().filter(|s| s.starts_with(&pre)).count();
        for s in l.samples.into_iter().take(2usize.saturating_sub(have)) {
            g.samples.push(format!("{pre}{s}"));
        }
    }

    pub fn finish(self) -> ! {
        let code = self.finish_code();
        std::process::exit(code)
    }

    pub fn finish_code(self) -> i32 {
        let log = self.log.into_inner().unwrap();
        let violations = self.violations.into_inner().unwrap();
        let errors = self.errors.into_inner().unwrap();
        let profile = profile();
        let mut inconclusive = errors;
        if self.replay.is_none() && violations.is_empty() {
            if log.evals == 0 {
                inconclusive.push("nothing was evaluated".into());
            }
            for (name, min) in self.floors.lock().unwrap().iter() {
                let have = log.counters.get(name).copied().unwrap_or(0);
                if have < *min {
                    inconclusive.push(format!("observed {have} of {name}, need {min}"));
                }
            }
        }
        let mut j = String::from("{");
        let _ = write!(
            j,
            "\"property\":{},\"profile\":{},\"seed\":{},\"evals\":{},\"distinct\":{},\"wall_s\":{:.3},\"capped\":{},\"rule\":{}",
            js(self.prop), js(profile), self.seed, log.evals, log.distinct.len(),
            self.start.elapsed().as_secs_f64(), self.capped.load(Ordering::Relaxed), js(self.rule)
        );
        let _ = write!(j, ",\"samples\":[{}]", log.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(
            j, ",\"counters\":{{{}}}",
            log.counters.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
        );
        let _ = write!(
            j, ",\"violations\":[{}]",
            violations.iter().map(|v| format!("{{\"stage\":{},\"idx\":{},\"msg\":{}}}", js(&v.stage), v.idx, js(&v.msg))).collect::<Vec<_>>().join(",")
        );
        let _ = write!(j, ",\"inconclusive\":[{}]}}", inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        if let Ok(p) = std::env::var("VERIF_OUT") {
            let _ = std::fs::write(&p, &j);
            let mut b = Vec::with_capacity(log.distinct.len() * 8);
            for d in &log.distinct {
                b.extend_from_slice(&d.to_le_bytes());
            }
            let _ = std::fs::write(format!("{p}.distinct"), b);
        } else {
            println!("{j}");
        }
        for v in &violations {
            println!("violated [{profile}] stage={} case={} seed={}: {}", v.stage, v.idx, self.seed, v.msg);
        }
        for e in &inconclusive {
            println!("INCONCLUSIVE: {e}");
        }
        if !violations.is_empty() {
            1
        } else if !inconclusive.is_empty() {
            2
        } else {
            0
        }
    }
}

/// CPU seconds after which a single case counts as not terminating; the
/// longest legitimate one takes well under a second.
const CPU_LIMIT_S: f64 = 60.0;

#[derive(Default)]
struct Beat {
    n: AtomicU64,
    case: AtomicU64,
    tid: AtomicU64,
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

/// Kernel id of the calling thread (0 if unknown).
fn own_tid() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

/// User plus system time of a thread of this process, in seconds.
fn thread_cpu_s(tid: u64) -> Option<f64> {
    if tid == 0 {
        return None;
    }
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    // fields 14 and 15 of proc(5), in ticks of 1/100 s
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Hash of a Debug rendering, used to tell cases apart.
pub fn key_of(x: &impl std::fmt::Debug) -> u64 {
    struct H(u64);
    impl std::fmt::Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
            }
            Ok(())
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    let _ = write!(h, "{x:?}");
    mix(h.0)
}
