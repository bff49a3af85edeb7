//! Shared explorer: exhaustive sweeps over finite case spaces executed on the real library,
//! violation artefacts, known findings, evidence.
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one explored case looked like.
pub struct Obs {
    /// hash of the abstract observed outcome (used to count distinct outcomes / states)
    pub outcome: u64,
    /// does the case exercise the property (as opposed to e.g. an empty result)?
    pub nontrivial: bool,
    /// number of calls into the implementation / model steps made for the case
    pub steps: u64,
}
impl Obs {
    pub fn new(outcome: u64, nontrivial: bool, steps: u64) -> Self {
        Obs { outcome, nontrivial, steps }
    }
}
pub type CaseResult = Result<Obs, String>;

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    root: String,
    start: Instant,
    evals: AtomicU64,
    steps: AtomicU64,
    nontrivial: AtomicU64,
    ambiguous: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    sweeps: Mutex<Vec<(String, usize)>>,
    notes: Mutex<Vec<(String, String)>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<usize>>,
    only: Option<(String, usize)>,
    pub rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    capped: AtomicBool,
    pub hang_limit: Duration,
    pub threads: usize,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// FNV-1a over arbitrary bytes; deterministic (never the std RandomState).
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> Self {
        H(0xcbf29ce484222325)
    }
    pub fn b(mut self, bytes: &[u8]) -> Self {
        for &x in bytes {
            self.0 ^= x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn u(self, v: u64) -> Self {
        self.b(&v.to_le_bytes())
    }
    pub fn f(self, v: f32) -> Self {
        self.u(v.to_bits() as u64)
    }
    pub fn s(self, v: &str) -> Self {
        self.b(v.as_bytes()).u(v.len() as u64)
    }
    pub fn fs(mut self, v: &[f32]) -> Self {
        for x in v {
            self = self.f(*x);
        }
        self.u(v.len() as u64)
    }
    pub fn us(mut self, v: &[usize]) -> Self {
        for x in v {
            self = self.u(*x as u64);
        }
        self.u(v.len() as u64)
    }
    pub fn done(self) -> u64 {
        self.0
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run real code; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

impl Ctx {
    pub fn new(id: &'static str, tier: Tier, root: String) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let only = std::env::var("MC_CASE").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
            // KNOWN-FINDING property=<id> case=<sweep>/<description> :: <what>
            for l in t.lines() {
                let l = l.trim();
                if let Some(r) = l.strip_prefix(&format!("finding: property={} case=", id)) {
                    if let Some((c, w)) = r.split_once(" :: ") {
                        known.push((c.trim().to_string(), w.trim().to_string()));
                    }
                }
            }
        }
        Ctx {
            id,
            tier,
            seed,
            root,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            ambiguous: AtomicU64::new(0),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            sweeps: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(HashSet::new()),
            only,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            hang_limit: Duration::from_secs(60),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        }
    }
    pub fn root(&self) -> &str {
        &self.root
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: impl std::fmt::Display) {
        self.notes.lock().unwrap().push((k.into(), v.to_string()));
    }
    pub fn ambiguous(&self) {
        self.ambiguous.fetch_add(1, SeqCst);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }

    /// Exhaustively execute cases 0..n of a finite space on all cores.
    pub fn sweep(
        &self,
        name: &str,
        n: usize,
        describe: impl Fn(usize) -> String + Sync,
        body: impl Fn(usize) -> CaseResult + Sync,
    ) {
        self.sweep_on(self.threads, name, n, describe, body)
    }

    pub fn sweep_on(
        &self,
        threads: usize,
        name: &str,
        n: usize,
        describe: impl Fn(usize) -> String + Sync,
        body: impl Fn(usize) -> CaseResult + Sync,
    ) {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        self.sweeps.lock().unwrap().push((name.to_string(), n));
        if self.stopped() || n == 0 {
            return;
        }
        let next = AtomicUsize::new(0);
        let nthreads = threads.min(n).max(1);
        // per worker: (case index + 1, start in ms); 0 = idle
        let cur: Vec<(AtomicUsize, AtomicU64)> =
            (0..nthreads).map(|_| (AtomicUsize::new(0), AtomicU64::new(0))).collect();
        let live = AtomicUsize::new(nthreads);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for w in 0..nthreads {
                let (next, cur, live, describe, body) = (&next, &cur, &live, &describe, &body);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local: HashSet<u64> = HashSet::new();
                        let (mut ev, mut st, mut nt) = (0u64, 0u64, 0u64);
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n {
                                break;
                            }
                            if let Some((_, k)) = &self.only {
                                if *k != i {
                                    continue;
                                }
                            }
                            cur[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                            cur[w].0.store(i + 1, SeqCst);
                            let r = match guarded(|| body(i)) {
                                Ok(r) => r,
                                Err(p) => Err(p),
                            };
                            cur[w].0.store(0, SeqCst);
                            ev += 1;
                            match r {
                                Ok(o) => {
                                    st += o.steps;
                                    if o.nontrivial {
                                        nt += 1;
                                    }
                                    local.insert(H::new().s(name).u(o.outcome).done());
                                }
                                Err(m) => self.violation(name, i, &describe(i), &m),
                            }
                            if i == 0 || (i == n / 2 && n > 2) {
                                let mut s = self.samples.lock().unwrap();
                                if s.len() < 24 {
                                    s.push(format!("{}:{} {}", name, i, describe(i)));
                                }
                            }
                        }
                        self.evals.fetch_add(ev, SeqCst);
                        self.steps.fetch_add(st, SeqCst);
                        self.nontrivial.fetch_add(nt, SeqCst);
                        self.outcomes.lock().unwrap().extend(local);
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let (cur, live, describe) = (&cur, &live, &describe);
            sc.spawn(move || {
                while live.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64;
                    for c in cur.iter() {
                        let i = c.0.load(SeqCst);
                        if i > 0 {
                            let st = c.1.load(SeqCst);
                            if now.saturating_sub(st) > self.hang_limit.as_millis() as u64
                                && c.0.load(SeqCst) == i
                                && c.1.load(SeqCst) == st
                            {
                                let d = describe(i - 1);
                                self.violation(
                                    name,
                                    i - 1,
                                    &d,
                                    &format!("no answer within {:?} (hang)", self.hang_limit),
                                );
                                // a hung worker cannot be joined: report and leave
                                let code = self.finish();
                                std::process::exit(code);
                            }
                        }
                    }
                }
            });
        });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{}] sweep {:<28} n={:<8} {:.2}s", self.id, name, n, t0.elapsed().as_secs_f64());
        }
    }

    pub fn violation(&self, sweep: &str, idx: usize, desc: &str, msg: &str) {
        let key = format!("{}/{}", sweep, desc);
        for (k, (c, _)) in self.known.iter().enumerate() {
            if *c == key {
                self.known_hit.lock().unwrap().insert(k);
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push((format!("{}:{}", sweep, idx), format!("{}\n  {}", desc, msg)));
        }
        if v.len() >= 5 && std::env::var("MC_ALL").is_err() {
            self.stop.store(true, SeqCst);
        }
    }

    pub fn cap_hit(&self) {
        self.capped.store(true, SeqCst);
    }

    pub fn finish(&self) -> i32 {
        let viol = self.violations.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let evals = self.evals.load(SeqCst);
        let mut j = String::new();
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let distinct = self.outcomes.lock().unwrap().len();
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let sweeps: Vec<String> = self
            .sweeps
            .lock()
            .unwrap()
            .iter()
            .map(|(n, c)| format!("{}: {}", jstr(n), c))
            .collect();
        let notes: String = self
            .notes
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!(",\n    {}: {}", jstr(k), jstr(v)))
            .collect();
        let assumptions: Vec<String> =
            self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let exhaustive = viol.is_empty()
            && self.only.is_none()
            && !self.stopped()
            && !self.capped.load(SeqCst);
        j.push_str(&format!(
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"distinct_nontrivial\": {},\n    \"ambiguous_skipped\": {},\n    \"rule\": {},\n    \"exhaustive\": {},\n    \"sweeps\": {{{}}},\n    \"samples\": [{}]{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            jstr(self.id), tier, self.seed, distinct, self.steps.load(SeqCst), evals,
            self.nontrivial.load(SeqCst), self.ambiguous.load(SeqCst),
            jstr(&self.rule.lock().unwrap()), exhaustive, sweeps.join(", "), samples.join(", "),
            notes, assumptions.join(", "), wall, viol.len()
        ));
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            if let Ok(mut f) = std::fs::File::create(format!("{}/{}.json", dir, self.id)) {
                let _ = f.write_all(j.as_bytes());
            }
        }
        println!(
            "{} {}: cases={} steps={} distinct_outcomes={} nontrivial={} ambiguous={} wall={:.1}s",
            self.id, tier, evals, self.steps.load(SeqCst), distinct,
            self.nontrivial.load(SeqCst), self.ambiguous.load(SeqCst), wall
        );
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} :: {}", self.id, self.known[*k].0, self.known[*k].1);
        }
        if viol.is_empty() {
            if evals == 0 {
                eprintln!("no case executed");
                return 3;
            }
            return 0;
        }
        let rdir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}.txt", rdir, self.id);
        let mut t = format!("property {}  ({} violating cases recorded)\n", self.id, viol.len());
        for (c, d) in viol.iter() {
            t.push_str(&format!(
                "\ncase {}\n  {}\n  replay: MC_CASE='{}' bash {}/run.sh {} {}\n",
                c, d, c, self.root, self.id, tier
            ));
        }
        let _ = std::fs::write(&path, &t);
        for (c, d) in viol.iter().take(5) {
            println!("  case {}: {}", c, d);
        }
        println!("VIOLATION property={} replay={}", self.id, path);
        1
    }
}

/// Mixed-radix decoding of a case index.
pub struct Ix(pub usize);
impl Ix {
    pub fn take(&mut self, radix: usize) -> usize {
        let r = self.0 % radix;
        self.0 /= radix;
        r
    }
    pub fn of<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        let i = self.take(a.len());
        &a[i]
    }
}

/// relative/absolute closeness
pub fn close(a: f32, b: f32, rel: f32, abs: f32) -> bool {
    if a == b {
        return true;
    }
    let d = (a - b).abs();
    d <= abs || d <= rel * a.abs().max(b.abs())
}
pub fn closed(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    let d = (a - b).abs();
    d <= abs || d <= rel * a.abs().max(b.abs())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
