//! Case runner: sharded exhaustive enumeration with crash-proof reporting.
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Fail {
    /// "" for an ordinary violation, otherwise the key of a possible known finding
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: String::new(), msg: msg.to_string() }
    }
}
pub fn known(key: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail { key: key.into(), msg: msg.into() }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::rt::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::rt::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)));
        }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_text(p: Box<dyn Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    if loc.is_empty() { m } else { loc }
}

/// Runs code under test; a panic becomes Err(text).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("crashed: {}", panic_text(p)))
}

// Shared with the parent through a small mmapped file: tells what was running
// when a worker died.
const SHM: usize = 8192;
static SHM_PTR: AtomicU64 = AtomicU64::new(0);
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_ON: AtomicBool = AtomicBool::new(false);

fn shm_write(on: bool, index: u64, desc: &str) {
    let p = SHM_PTR.load(SeqCst) as *mut u8;
    if p.is_null() {
        return;
    }
    unsafe {
        let n = desc.len().min(SHM - 32);
        std::ptr::copy_nonoverlapping(index.to_le_bytes().as_ptr(), p.add(8), 8);
        std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), p.add(16), 8);
        std::ptr::copy_nonoverlapping(desc.as_ptr(), p.add(24), n);
        *p = on as u8;
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    pub scratch: PathBuf,
    index: u64,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    violations: Vec<Value>,
    max_viol: usize,
    pub verbose: bool,
}

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// Claims the next case index; true if this worker has to run it.
    fn claim(&mut self) -> Option<u64> {
        let i = self.index;
        self.index += 1;
        if let Some(o) = self.only {
            return (o == i).then_some(i);
        }
        (i % self.nshards == self.shard).then_some(i)
    }
    /// Will the next case be run by this worker? (lets callers skip costly setup)
    pub fn mine(&self) -> bool {
        match self.only {
            Some(o) => o == self.index,
            None => self.index % self.nshards == self.shard,
        }
    }
    pub fn skip(&mut self) {
        self.index += 1;
    }
    /// One case of the enumeration.  `sig` identifies what makes it distinct.
    pub fn case<D: FnOnce() -> String>(&mut self, desc: D, f: impl FnOnce(&mut Ctx) -> R) {
        let Some(i) = self.claim() else { return };
        if self.violations.len() >= self.max_viol {
            return;
        }
        let d = desc();
        CASE_START.store(now_ms(), SeqCst);
        CASE_ON.store(true, SeqCst);
        shm_write(true, i, &d);
        self.evaluations += 1;
        let hd = h64(&d);
        let fresh = self.distinct.insert(hd);
        if fresh && self.samples.len() < 3 {
            self.samples.push(json!(d));
        }
        let r = match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => r,
            Err(p) => Err(Fail::from(format!("crashed: {}", panic_text(p)))),
        };
        shm_write(false, i, &d);
        CASE_ON.store(false, SeqCst);
        if self.verbose {
            println!("case {i}: {d}");
        }
        if let Err(e) = r {
            self.report(i, &d, &e.key, &e.msg);
        }
    }
    fn report(&mut self, i: u64, d: &str, key: &str, msg: &str) {
        if !key.is_empty() {
            // keep one instance per key
            if self.violations.iter().any(|v| v["key"] == key) {
                *self.counters.entry(format!("known:{key}")).or_default() += 1;
                return;
            }
        }
        self.violations.push(json!({"case": i, "desc": d, "key": key, "msg": msg}));
        if key.is_empty() {
            self.max_viol = self.violations.len().max(1).min(self.max_viol);
        } else {
            self.max_viol += 1;
        }
    }
    pub fn soft(&mut self, f: Fail) {
        // a known-finding candidate noticed inside a case that goes on
        let i = self.index.saturating_sub(1);
        self.report(i, "within the case", &f.key, &f.msg);
    }
    pub fn state(&mut self, s: &impl Hash) -> bool {
        self.states.insert(h64(s))
    }
    pub fn nstates(&self) -> usize {
        self.states.len()
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_string()).or_default() += n;
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.counters.entry(format!("max:{what}")).or_default();
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, s: &impl Hash) {
        self.distinct.insert(h64(s));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    /// A fresh scratch directory (removed and recreated).
    pub fn dir(&self, name: &str) -> PathBuf {
        let p = self.scratch.join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}

pub fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("panic '{m}' at {loc}"));
    }));
}

pub const HANG_MS: u64 = 180_000;

pub type PropFn = fn(&mut Ctx);

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: PropFn,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub assumptions: &'static [&'static str],
    pub shards: u64,
}

fn scratch_base() -> PathBuf {
    for b in ["/dev/shm", "/tmp"] {
        let p = Path::new(b).join(format!("vmc-probe-{}", std::process::id()));
        if std::fs::create_dir(&p).is_ok() {
            let _ = std::fs::remove_dir(&p);
            return b.into();
        }
    }
    "/tmp".into()
}

fn mmap_file(path: &Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(SHM as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

pub fn worker(prop: &Prop, tier: Tier, shard: u64, nshards: u64, base: &Path, only: Option<u64>) {
    install_hook();
    let scratch = base.join(format!("w{shard}"));
    std::fs::create_dir_all(&scratch).unwrap();
    let p = mmap_file(&base.join(format!("shm{shard}")));
    SHM_PTR.store(p as u64, SeqCst);
    let out = base.join(format!("out{shard}.json"));
    // hang watchdog
    {
        let base = base.to_path_buf();
        std::thread::spawn(move || {
            vsched::exempt();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if CASE_ON.load(SeqCst) && now_ms().saturating_sub(CASE_START.load(SeqCst)) > HANG_MS {
                    let _ = std::fs::write(base.join(format!("hang{shard}")), b"1");
                    std::process::abort();
                }
            }
        });
    }
    let mut ctx = Ctx {
        prop: prop.id.into(),
        tier,
        shard,
        nshards,
        only,
        scratch: scratch.clone(),
        index: 0,
        evaluations: 0,
        distinct: HashSet::new(),
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        samples: vec![],
        counters: BTreeMap::new(),
        violations: vec![],
        max_viol: 3,
        verbose: only.is_some(),
    };
    (prop.run)(&mut ctx);
    let v = json!({
        "cases": ctx.index,
        "evaluations": ctx.evaluations,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "samples": ctx.samples,
        "counters": ctx.counters,
        "violations": ctx.violations,
    });
    for (n, set) in [("distinct", &ctx.distinct), ("states", &ctx.states)] {
        let b: Vec<u8> = set.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(base.join(format!("{n}{shard}")), b).unwrap();
    }
    let mut f = std::fs::File::create(out).unwrap();
    f.write_all(v.to_string().as_bytes()).unwrap();
    drop(f);
    // databases still open in leaked threads etc. must not delay the exit
    unsafe { libc::_exit(0) };
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let Ok(s) = std::fs::read_to_string(verif_root().join("KNOWN_FINDINGS.json")) else { return m };
    let v: Value = serde_json::from_str(&s).expect("KNOWN_FINDINGS.json");
    for e in v["findings"].as_array().cloned().unwrap_or_default() {
        if e["property"] == prop {
            m.insert(e["key"].as_str().unwrap().into(), e["what"].as_str().unwrap().into());
        }
    }
    m
}

/// Runs the property over all shards; returns the exit code.
pub fn parent(prop: &Prop, tier: Tier, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let base = scratch_base().join(format!("vmc-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n = if only.is_some() { 1 } else { prop.shards };
    let mut kids = vec![];
    for s in 0..n {
        let mut c = std::process::Command::new(&exe);
        c.arg("worker").arg(prop.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
        c.arg(s.to_string()).arg(n.to_string()).arg(&base);
        if let Some(o) = only {
            c.arg(o.to_string());
        }
        c.current_dir(&base);
        c.stdin(std::process::Stdio::null());
        if only.is_none() {
            // println! in the code under test must not mix with our protocol
            let f = std::fs::File::create(base.join(format!("log{s}"))).unwrap();
            c.stdout(std::process::Stdio::from(f.try_clone().unwrap()));
            c.stderr(std::process::Stdio::from(f));
        }
        kids.push(c.spawn().unwrap());
    }
    let limit = Duration::from_secs(if tier == Tier::Quick { 840 } else { 6 * 3600 });
    let mut viol: Vec<Value> = vec![];
    let mut infra: Vec<String> = vec![];
    let mut merged: Vec<Value> = vec![];
    for (s, mut k) in kids.into_iter().enumerate() {
        let st = loop {
            if let Some(st) = k.try_wait().unwrap() {
                break Some(st);
            }
            if t0.elapsed() > limit {
                let _ = k.kill();
                let _ = k.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let out = base.join(format!("out{s}.json"));
        match st {
            Some(st) if st.success() && out.exists() => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(out).unwrap()).unwrap();
                viol.extend(v["violations"].as_array().unwrap().iter().cloned());
                merged.push(v);
            }
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                let p = mmap_file(&base.join(format!("shm{s}")));
                let (on, idx, desc) = unsafe {
                    let b = std::slice::from_raw_parts(p, SHM);
                    let n = u64::from_le_bytes(b[16..24].try_into().unwrap()) as usize;
                    (b[0] == 1, u64::from_le_bytes(b[8..16].try_into().unwrap()), String::from_utf8_lossy(&b[24..24 + n.min(SHM - 32)]).to_string())
                };
                let hang = base.join(format!("hang{s}")).exists();
                let log = std::fs::read_to_string(base.join(format!("log{s}"))).unwrap_or_default();
                let tail: String = log.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
                let sig = st.signal().unwrap_or(0);
                if on && (hang || [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig)) {
                    let m = if hang { "did not terminate".to_string() } else { format!("process died with signal {sig}: {tail}") };
                    viol.push(json!({"case": idx, "desc": desc, "key": "", "msg": m}));
                } else {
                    infra.push(format!("worker {s} ended with {st:?} (in case: {on} {idx} {desc}): {tail}"));
                }
            }
            None => infra.push(format!("worker {s} exceeded the time limit")),
        }
    }
    // a wait that did not end may be an overloaded machine: such a verdict has to repeat itself
    let mut dropped = 0;
    let mut confirmed = false;
    if only.is_none() {
        viol.retain(|v| {
            let m = v["msg"].as_str().unwrap();
            let timed = m.contains("deadlock:") || m.contains("livelock:") || m == "did not terminate";
            let again = !timed || confirmed || (0..2).any(|_| {
                let mut c = std::process::Command::new(&exe);
                c.arg("again").arg(prop.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(v["case"].to_string());
                c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                c.status().map_or(true, |s| s.code() == Some(1))
            });
            dropped += !again as u64;
            confirmed |= timed && again;
            again
        });
    }
    let known = known_findings(prop.id);
    viol.sort_by_key(|v| v["case"].as_u64());
    let mut real = vec![];
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for v in viol {
        let k = v["key"].as_str().unwrap().to_string();
        match known.get(&k) {
            Some(w) if !k.is_empty() => {
                seen.insert(k, w.clone());
            }
            _ => real.push(v),
        }
    }
    for (k, w) in &seen {
        println!("KNOWN-FINDING: property={} {} [{}]", prop.id, w, k);
    }
    let sum = |f: &str| merged.iter().map(|v| v[f].as_u64().unwrap()).sum::<u64>();
    let uniq = |f: &str| {
        let mut all: Vec<u64> = vec![];
        for s in 0..n {
            let b = std::fs::read(base.join(format!("{f}{s}"))).unwrap_or_default();
            all.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        all.len() as u64
    };
    let (n_distinct, n_states) = (uniq("distinct"), uniq("states"));
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    for m in &merged {
        for (k, v) in m["counters"].as_object().unwrap() {
            let v = v.as_u64().unwrap();
            let e = counters.entry(k.clone()).or_default();
            *e = if k.starts_with("max:") { (*e).max(v) } else { *e + v };
        }
    }
    if dropped > 0 {
        counters.insert("capped: waits that did not end, and did when repeated".into(), dropped);
    }
    let mut samples: Vec<Value> = merged.iter().flat_map(|v| v["samples"].as_array().unwrap().iter().cloned().take(2)).collect();
    samples.truncate(8);
    if only.is_none() {
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(sum("evaluations")));
        cov.insert("distinct_nontrivial".into(), json!(n_distinct));
        cov.insert("rule".into(), json!(prop.rule));
        if sum("transitions") > 0 || prop.level == "model_checking" {
            cov.insert("states".into(), json!(n_states));
            cov.insert("transitions".into(), json!(sum("transitions")));
            cov.insert("traces_validated_against_impl".into(), json!(sum("traces")));
        }
        cov.insert("samples".into(), json!(samples));
        cov.insert("exhaustive".into(), json!(prop.exhaustive && infra.is_empty() && real.is_empty() && !counters.keys().any(|k| k.starts_with("capped"))));
        if !counters.is_empty() {
            cov.insert("counters".into(), json!(counters));
        }
        let ev = json!({
            "property": prop.id,
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": prop.level,
            "coverage": cov,
            "assumptions": prop.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": real.len(),
        });
        let d = verif_root().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!(
            "{} {}: {} cases, {} distinct, {} states, {} transitions, {:.1}s",
            prop.id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            sum("evaluations"),
            n_distinct,
            n_states,
            sum("transitions"),
            t0.elapsed().as_secs_f64()
        );
        if std::env::var_os("MC_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&base);
        }
    } else {
        let _ = std::fs::remove_dir_all(&base);
    }
    for i in &infra {
        println!("ERROR: {i}");
    }
    if !real.is_empty() {
        let d = verif_root().join("replays");
        let _ = std::fs::create_dir_all(&d);
        for (n, v) in real.iter().take(5).enumerate() {
            let f = d.join(format!("{}-{}.json", prop.id, n));
            if only.is_none() {
                let r = json!({"property": prop.id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "case": v["case"], "desc": v["desc"], "msg": v["msg"]});
                let _ = std::fs::write(&f, serde_json::to_string_pretty(&r).unwrap());
            }
            println!("VIOLATION property={} replay={}", prop.id, f.display());
            println!("  case {}: {}", v["case"], v["desc"].as_str().unwrap_or(""));
            println!("  {}", v["msg"].as_str().unwrap_or(""));
        }
        return 1;
    }
    if !infra.is_empty() {
        return 2;
    }
    0
}
