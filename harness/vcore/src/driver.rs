//! Runs generated cases.
//!
//! Every case is a pure function of (seed, stream name, index): a `TestRunner` seeded from these
//! three generates a proptest value tree. The cases of a stream are dealt to forked workers, so
//! that a crash of the code under test (SIGSEGV on a guard page, abort) is attributed to the case
//! that was running and can be shrunk like any other failure.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Map, Value as Json};
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

pub trait Case: Clone + Debug + Hash + 'static {
    fn to_json(&self) -> Json;
    fn from_json(v: &Json) -> Self;
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name)
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.classes.entry(name).or_insert(0) += n;
    }
}

pub type CheckResult = Result<(), String>;
pub type Gen<C> = Box<dyn Fn(&mut TestRunner, u64) -> Box<dyn ValueTree<Value = C>>>;

pub struct Stream<C: Case> {
    pub name: &'static str,
    pub cases: u64,
    pub gen: Gen<C>,
    pub check: fn(&C, &mut Obs) -> CheckResult,
}

/// A stream of cases drawn from a strategy.
pub fn stream<C: Case, S: Strategy<Value = C> + 'static>(
    name: &'static str,
    cases: u64,
    strat: S,
    check: fn(&C, &mut Obs) -> CheckResult,
) -> Box<dyn DynStream>
where
    S::Tree: 'static,
{
    Box::new(Stream {
        name,
        cases,
        gen: Box::new(move |r, _| Box::new(strat.new_tree(r).expect("generator"))),
        check,
    })
}

/// A stream whose cases depend on the index as well (enumerations).
pub fn stream_indexed<C: Case, S: Strategy<Value = C> + 'static>(
    name: &'static str,
    cases: u64,
    strat: impl Fn(u64) -> S + 'static,
    check: fn(&C, &mut Obs) -> CheckResult,
) -> Box<dyn DynStream>
where
    S::Tree: 'static,
{
    Box::new(Stream {
        name,
        cases,
        gen: Box::new(move |r, i| Box::new(strat(i).new_tree(r).expect("generator"))),
        check,
    })
}

pub trait DynStream {
    fn name(&self) -> &'static str;
    fn cases(&self) -> u64;
    /// Runs case `idx`; returns the hash of the case and the verdict.
    fn run(&self, seed: u64, idx: u64, obs: &mut Obs) -> (u64, CheckResult);
    fn sample(&self, seed: u64, idx: u64) -> Json;
    /// Shrinks the failing case `idx`; returns the smallest failing case and its message.
    fn shrink(&self, seed: u64, idx: u64, first: String) -> (Json, String, u64);
    fn replay(&self, case: &Json) -> CheckResult;
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_runner(seed: u64, stream: &str, idx: u64) -> TestRunner {
    let mut s = [0u8; 32];
    let mut x = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(fnv(stream.as_bytes()))
        .wrapping_add(idx.wrapping_mul(0xD1B54A32D192ED03));
    for chunk in s.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &s),
    )
}

#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

fn guarded<C: Case>(f: fn(&C, &mut Obs) -> CheckResult, c: &C, obs: &mut Obs) -> CheckResult {
    match catch_unwind(AssertUnwindSafe(|| f(c, obs))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(e))),
    }
}

impl<C: Case> DynStream for Stream<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self) -> u64 {
        self.cases
    }
    fn run(&self, seed: u64, idx: u64, obs: &mut Obs) -> (u64, CheckResult) {
        let tree = (self.gen)(&mut case_runner(seed, self.name, idx), idx);
        let c = tree.current();
        let mut h = H(fnv(self.name.as_bytes()));
        c.hash(&mut h);
        (h.finish(), guarded(self.check, &c, obs))
    }
    fn sample(&self, seed: u64, idx: u64) -> Json {
        let tree = (self.gen)(&mut case_runner(seed, self.name, idx), idx);
        json!({"stream": self.name, "index": idx, "case": tree.current().to_json()})
    }
    fn shrink(&self, seed: u64, idx: u64, first: String) -> (Json, String, u64) {
        let mut tree = (self.gen)(&mut case_runner(seed, self.name, idx), idx);
        let check = self.check;
        let (mut best, mut msg) = (tree.current(), first);
        let mut tried = 0;
        let end = Instant::now() + Duration::from_secs(60);
        while tree.simplify() {
            loop {
                if tried >= 3000 || Instant::now() > end {
                    return (best.to_json(), msg, tried);
                }
                tried += 1;
                let c = tree.current();
                let r = in_child(Duration::from_secs(20), || {
                    guarded(check, &c, &mut Obs::default())
                });
                match r {
                    ChildResult::Fail(m) => {
                        best = c;
                        msg = m;
                        break;
                    }
                    _ => {
                        if !tree.complicate() {
                            return (best.to_json(), msg, tried);
                        }
                    }
                }
            }
        }
        (best.to_json(), msg, tried)
    }
    fn replay(&self, case: &Json) -> CheckResult {
        let c = C::from_json(case);
        match in_child(Duration::from_secs(60), || guarded(self.check, &c, &mut Obs::default())) {
            ChildResult::Pass => Ok(()),
            ChildResult::Fail(m) => Err(m),
            ChildResult::Timeout => {
                Err("does not end".into())
            }
        }
    }
}

pub enum ChildResult {
    Pass,
    Fail(String),
    Timeout,
}

/// Runs `f` in a forked child and reports its verdict, counting death by a signal as a failure.
pub fn in_child(timeout: Duration, f: impl FnOnce() -> CheckResult) -> ChildResult {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            quiet_panics();
            let code = match f() {
                Ok(()) => 0,
                Err(m) => {
                    let b = m.as_bytes();
                    libc::write(fds[1], b.as_ptr() as _, b.len().min(60000));
                    1
                }
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let end = Instant::now() + timeout;
        let mut status = 0;
        let mut spins = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
            if r == pid {
                break;
            }
            if Instant::now() > end {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                libc::close(fds[0]);
                return ChildResult::Timeout;
            }
            spins += 1;
            if spins > 20 {
                libc::usleep(if spins > 200 { 1000 } else { 100 });
            } else {
                libc::sched_yield();
            }
        }
        let mut m = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut m);
        if libc::WIFSIGNALED(status) {
            return ChildResult::Fail(signal_text(libc::WTERMSIG(status)));
        }
        match libc::WEXITSTATUS(status) {
            0 => ChildResult::Pass,
            _ => ChildResult::Fail(m),
        }
    }
}

pub fn signal_text(sig: i32) -> String {
    let n = match sig {
        libc::SIGSEGV => "SIGSEGV (access outside of mapped memory)",
        libc::SIGBUS => "SIGBUS",
        libc::SIGABRT => "SIGABRT (abort)",
        libc::SIGILL => "SIGILL (illegal instruction or trap)",
        libc::SIGFPE => "SIGFPE",
        libc::SIGTRAP => "SIGTRAP",
        _ => "signal",
    };
    format!("process killed by {n} [{sig}]")
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub struct Env {
    pub id: String,
    pub seed: u64,
    pub tier: String,
    /// Where evidence parts and replay files go.
    pub work: PathBuf,
    pub label: String,
}

impl Env {
    /// Command line: `<bin> <id> [--replay FILE] ...`; the rest comes from the environment.
    pub fn from_env() -> Env {
        let id = std::env::args().nth(1).expect("property id");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let work = PathBuf::from(std::env::var("VERIF_WORK").unwrap_or_else(|_| "work".into()));
        let label = std::env::var("VERIF_LABEL").unwrap_or_else(|_| "run".into());
        std::fs::create_dir_all(&work).unwrap();
        Env { id, seed, tier, work, label }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Scales a quick case count for the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn replay_arg(&self) -> Option<PathBuf> {
        let a: Vec<String> = std::env::args().collect();
        a.iter().position(|x| x == "--replay").map(|i| PathBuf::from(&a[i + 1]))
    }
}

/// Result of a part of a check, merged into the evidence file by the launcher.
pub struct Part {
    pub evaluations: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Json>,
    pub violation: Option<(Json, String)>,
    pub extra: Map<String, Json>,
}

impl Default for Part {
    fn default() -> Self {
        Part {
            evaluations: 0,
            distinct: 0,
            classes: BTreeMap::new(),
            samples: vec![],
            violation: None,
            extra: Map::new(),
        }
    }
}

impl Part {
    /// Writes the part and exits: 0 held, 1 violated.
    pub fn finish(self, env: &Env) -> ! {
        let mut out = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "classes": self.classes,
            "samples": self.samples,
        });
        for (k, v) in self.extra {
            out[k] = v;
        }
        let mut code = 0;
        if let Some((case, msg)) = self.violation {
            let path = env.work.join(format!("{}-{}-replay.json", env.id, env.label));
            let rec = json!({
                "property": env.id, "engine": env.label, "seed": env.seed, "tier": env.tier,
                "replay": case, "message": msg,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap()).unwrap();
            out["violation"] = json!({"replay": path, "message": msg});
            code = 1;
        }
        let f = env.work.join(format!("{}-{}-part.json", env.id, env.label));
        std::fs::write(f, serde_json::to_string(&out).unwrap()).unwrap();
        std::process::exit(code)
    }
}

/// Processor time of a process, in seconds.
fn cpu_of(pid: i32) -> f64 {
    unsafe {
        let mut id = 0;
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_getcpuclockid(pid, &mut id) != 0 || libc::clock_gettime(id, &mut t) != 0 {
            return 0.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

struct Shared {
    progress: [AtomicU64; WORKERS],
}

/// Runs all streams; stops at the first failure and shrinks it.
pub fn run_streams(env: &Env, streams: Vec<Box<dyn DynStream>>) -> Part {
    if let Some(f) = env.replay_arg() {
        quiet_panics();
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let r = &rec["replay"];
        let name = r["stream"].as_str().unwrap();
        let s = streams.iter().find(|s| s.name() == name).expect("stream of the replay file");
        let mut p = Part { evaluations: 1, distinct: 1, ..Part::default() };
        if let Err(m) = s.replay(&r["case"]) {
            p.violation = Some((r.clone(), m));
        }
        return p;
    }

    let shared: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const Shared)
    };
    let mut part = Part::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    for (si, s) in streams.iter().enumerate() {
        let t0 = Instant::now();
        let n = s.cases();
        let mut pids = vec![];
        for w in 0..WORKERS {
            shared.progress[w].store(0, SeqCst);
            let out = env.work.join(format!("{}-{}-w{}", env.id, env.label, w));
            unsafe {
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    worker(env, &**s, w, n, &shared.progress[w], &out);
                }
                pids.push((pid, out));
            }
        }
        let mut fails: Vec<(u64, String)> = vec![];
        let mut last = [(0u64, Instant::now()); WORKERS];
        let mut live: Vec<bool> = vec![true; WORKERS];
        let mut cpu: [Option<f64>; WORKERS] = [None; WORKERS];
        let mut endless = [false; WORKERS];
        while live.iter().any(|x| *x) {
            for w in 0..WORKERS {
                if !live[w] {
                    continue;
                }
                let mut status = 0;
                let r = unsafe { libc::waitpid(pids[w].0, &mut status, libc::WNOHANG) };
                if r == pids[w].0 {
                    live[w] = false;
                    let p = shared.progress[w].load(SeqCst);
                    if libc::WIFSIGNALED(status) {
                        let m = if endless[w] { "does not end".into() } else { signal_text(libc::WTERMSIG(status)) };
                        fails.push((p.saturating_sub(1), m));
                    } else if libc::WEXITSTATUS(status) != 0 {
                        eprintln!("worker {w} of stream {} failed", s.name());
                        std::process::exit(2);
                    } else {
                        let d: Json =
                            serde_json::from_slice(&std::fs::read(&pids[w].1).unwrap()).unwrap();
                        part.evaluations += d["done"].as_u64().unwrap();
                        for (k, v) in d["classes"].as_object().unwrap() {
                            *part.classes.entry(format!("{}: {}", s.name(), k)).or_insert(0) +=
                                v.as_u64().unwrap();
                        }
                        if let Some(m) = d["fail"].as_str() {
                            fails.push((p.saturating_sub(1), m.to_string()));
                        }
                        let hb = std::fs::read(pids[w].1.with_extension("h")).unwrap();
                        for c in hb.chunks(8) {
                            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        let _ = std::fs::remove_file(pids[w].1.with_extension("h"));
                    }
                    let _ = std::fs::remove_file(&pids[w].1);
                } else {
                    let p = shared.progress[w].load(SeqCst);
                    if p != last[w].0 {
                        last[w] = (p, Instant::now());
                        cpu[w] = None;
                    } else if last[w].1.elapsed() > Duration::from_secs(40) && {
                        // however busy the machine is, it is the case that takes this long
                        let now = cpu_of(pids[w].0);
                        now > *cpu[w].get_or_insert(now) + 60.0
                    } {
                        unsafe { libc::kill(pids[w].0, libc::SIGKILL) };
                        endless[w] = true;
                    } else if last[w].1.elapsed() > Duration::from_secs(300) {
                        eprintln!("no progress in stream {} at case {}", s.name(), p);
                        for (pid, _) in &pids {
                            unsafe { libc::kill(*pid, libc::SIGKILL) };
                        }
                        std::process::exit(2);
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        *part.classes.entry(format!("{}: cases", s.name())).or_insert(0) += n;
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("  {} {}: {} cases in {:.2}s", env.label, s.name(), n, t0.elapsed().as_secs_f64());
        }
        if !fails.is_empty() {
            fails.sort();
            let (idx, m) = fails[0].clone();
            let (case, msg, tried) = s.shrink(env.seed, idx, m);
            eprintln!("{}: stream {} case {} (shrunk in {} steps): {}", env.id, s.name(), idx, tried, msg);
            part.violation =
                Some((json!({"stream": s.name(), "index": idx, "case": case}), msg));
            part.samples.push(json!({"stream": s.name(), "index": idx, "case": case}));
            break;
        }
        // a few actual cases of this run
        let k = if streams.len() > 6 { 1 } else { 2 };
        for j in 0..k.min(n) {
            part.samples.push(s.sample(env.seed, (j * 7919 + si as u64 * 31 + 3) % n));
        }
    }
    part.distinct = hashes.len() as u64;
    part
}

fn worker(env: &Env, s: &dyn DynStream, w: usize, n: u64, prog: &AtomicU64, out: &PathBuf) -> ! {
    quiet_panics();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut done = 0u64;
    let mut fail = None;
    let mut i = w as u64;
    while i < n {
        prog.store(i + 1, SeqCst);
        let mut obs = Obs::default();
        let (h, r) = s.run(env.seed, i, &mut obs);
        done += 1;
        for (k, v) in obs.classes {
            *classes.entry(k).or_insert(0) += v;
        }
        if obs.nontrivial {
            seen.insert(h);
        }
        if let Err(m) = r {
            fail = Some(m);
            break;
        }
        i += WORKERS as u64;
    }
    let d = json!({"done": done, "classes": classes, "fail": fail});
    std::fs::write(out, serde_json::to_vec(&d).unwrap()).unwrap();
    let mut hb = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    let mut f = std::fs::File::create(out.with_extension("h")).unwrap();
    f.write_all(&hb).unwrap();
    drop(f);
    unsafe { libc::_exit(0) }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(200).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    format!("{t:?}")
}
/// Compares two byte strings and describes the first difference.
pub fn same(what: &str, got: &[u8], want: &[u8]) -> CheckResult {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |b: &[u8]| {
        let from = at.saturating_sub(16);
        show(&b[from..(at + 40).min(b.len())])
    };
    Err(format!(
        "{what}: differs at byte {at} (lengths {} and {}): got ..{} expected ..{}",
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    ))
}
