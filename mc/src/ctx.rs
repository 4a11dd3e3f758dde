//! Shared plumbing of every check: tier, counters, violations, known findings, evidence, replay files.
use json::JsonValue;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub what: String,
    pub case: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: i64,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    start: Instant,
    stop: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
    known: Vec<(String, String)>, // (signature, text)
    known_hits: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, JsonValue>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    pub only: Option<String>,
}

impl Ctx {
    pub fn new(id: &'static str) -> Self {
        let verif = PathBuf::from(std::env::var("FEM2D_VERIF").unwrap_or_else(|_| "/verif".into()));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let scratch = std::env::temp_dir().join(format!("fem2d mc.é_{}_{}", id, std::process::id()));
        std::fs::create_dir_all(&scratch).expect("cannot create the scratch directory");
        let known = read_known(&verif, id);
        Self {
            id,
            tier,
            seed,
            verif,
            scratch,
            start: Instant::now(),
            stop: AtomicBool::new(false),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            violations: Mutex::new(Vec::new()),
            nviol: AtomicU64::new(0),
            known,
            known_hits: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            extra: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(BTreeMap::new()),
            only: std::env::var("FEM2D_ONLY").ok(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// pick a bound by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn state(&self) {
        self.states.fetch_add(1, Relaxed);
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn valid(&self) {
        self.validated.fetch_add(1, Relaxed);
    }
    /// record a distinct outcome class (to show that the exploration is not vacuous)
    pub fn outcome(&self, key: &str) {
        let mut o = self.outcomes.lock().unwrap();
        if let Some(n) = o.get_mut(key) {
            *n += 1;
        } else {
            o.insert(key.to_string(), 1);
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut t = s();
            if t.len() > 1500 {
                t.truncate(1500);
            }
            v.push(t);
        }
    }
    pub fn extra(&self, key: &str, v: impl Into<JsonValue>) {
        self.extra.lock().unwrap().insert(key.to_string(), v.into());
    }
    pub fn violate(&self, case: impl Into<String>, what: impl Into<String>) {
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push(Violation { what: what.into(), case: case.into() });
        }
        self.stop.store(true, Relaxed);
    }
    /// A deviation that carries a signature: it is a known finding if the committed list has that signature.
    pub fn deviate(&self, signature: &str, case: impl Into<String>, what: impl Into<String>) {
        if self.known.iter().any(|(s, _)| s == signature) {
            *self.known_hits.lock().unwrap().entry(signature.to_string()).or_insert(0) += 1;
        } else {
            self.violate(case, format!("[{}] {}", signature, what.into()));
        }
    }
    pub fn check(&self, case: &dyn Fn() -> String, r: Result<(), String>) -> bool {
        match r {
            Ok(()) => true,
            Err(e) => {
                self.violate(case(), e);
                false
            }
        }
    }
    pub fn finish(self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let _ = std::fs::remove_dir_all(&self.scratch);
        let mut viols = self.violations.into_inner().unwrap();
        viols.sort_by_key(|v| v.case.len());
        let mut cov = json::object! {
            "states": self.states.load(Relaxed),
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": self.validated.load(Relaxed),
            "rule": rule,
            "samples": JsonValue::from(self.samples.into_inner().unwrap()),
        };
        let mut outs = JsonValue::new_object();
        for (k, n) in self.outcomes.into_inner().unwrap() {
            outs[k] = n.into();
        }
        if !outs.is_empty() {
            cov["distinct_outcomes"] = outs;
        }
        for (k, v) in self.extra.into_inner().unwrap() {
            cov[k] = v;
        }
        let hits = self.known_hits.into_inner().unwrap();
        let mut kj = JsonValue::new_object();
        for (k, n) in &hits {
            kj[k.as_str()] = (*n).into();
        }
        if !hits.is_empty() {
            cov["known_finding_hits"] = kj;
        }
        let ev = json::object! {
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": JsonValue::from(assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
            "wall_s": wall,
            "violations": self.nviol.load(Relaxed),
        };
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), ev.pretty(1)) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        println!(
            "{}: states={} transitions={} validated={} wall={:.1}s",
            self.id,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.validated.load(Relaxed),
            wall
        );
        for (sig, n) in &hits {
            let text = &self.known.iter().find(|(s, _)| s == sig).unwrap().1;
            println!("KNOWN-FINDING: property={} {} ({} cases this run)", self.id, text, n);
        }
        if let Some(v) = viols.first() {
            let rdir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}.txt", self.id));
            let body = format!(
                "property={}\ntier={:?}\ncase={}\nwhat={}\nreplay: cd /verif && FEM2D_ONLY='{}' ./check.sh {} {}\n",
                self.id,
                self.tier,
                v.case,
                v.what,
                v.case,
                self.id,
                if self.tier == Tier::Quick { "quick" } else { "thorough" }
            );
            let _ = std::fs::write(&path, &body);
            for v in viols.iter().take(3) {
                println!("  case: {}\n  what: {}", v.case, v.what);
            }
            println!("VIOLATION property={} replay={}", self.id, path.display());
            1
        } else {
            0
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}

/// known-findings.txt: lines "known: property=<id> signature=<sig> <text>" (and "fixed: ..." lines, which suppress nothing)
fn read_known(verif: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("");
            let t = it.next().unwrap_or("");
            if p.strip_prefix("property=") == Some(id) {
                if let Some(sig) = s.strip_prefix("signature=") {
                    out.push((sig.to_string(), t.to_string()));
                }
            }
        }
    }
    out
}

/// run `f` over the items on all cores; stops early once a violation is recorded
pub fn par_for<T: Sync>(ctx: &Ctx, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicU64::new(0);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= items.len() || ctx.stopped() {
                    break;
                }
                f(&items[i]);
            });
        }
    });
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        } else {
            default(info)
        }
    }));
}

/// Run code of the library; a panic becomes Err(message). (Panics inside rayon worker threads are re-thrown here by rayon.)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|e| {
        let m = LAST_PANIC.with(|p| p.replace(String::new()));
        if m.is_empty() {
            if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            }
        } else {
            m
        }
    })
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
}

/// Run f in a forked child in which no file can grow beyond `limit` bytes (writes beyond it fail with EFBIG).
/// Ok(true/false) is what f returned; a panic or any other end of the child is an Err. Call it while this process has one thread.
pub fn with_file_size_limit(limit: u64, f: impl FnOnce() -> bool) -> Result<bool, String> {
    unsafe {
        let pid = fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            signal(25, 1); // SIGXFSZ ignored
            setrlimit(1, &[limit, limit]); // RLIMIT_FSIZE
            let code = match guard(f) {
                Ok(true) => 10,
                Ok(false) => 11,
                Err(_) => 12,
            };
            _exit(code);
        }
        let mut st = 0;
        if waitpid(pid, &mut st, 0) != pid {
            return Err("waitpid failed".into());
        }
        match (st & 0x7f, st >> 8 & 0xff) {
            (0, 10) => Ok(true),
            (0, 11) => Ok(false),
            (0, 12) => Err("panicked".into()),
            _ => Err(format!("the process ended with wait status {st}")),
        }
    }
}

/// end this process by a signal (without leaving a core file)
pub fn die_by(sig: i32) -> ! {
    unsafe {
        setrlimit(4, &[0, 0]);
        signal(sig, 0);
        kill(getpid(), sig);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(5));
            _exit(99);
        }
    }
}
