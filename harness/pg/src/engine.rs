//! Compiles generated cases into programs, runs them and compares what they output.
//!
//! A case is a function `run(v, out)` over run-time values `v`, with the expected value of every
//! field it outputs. Cases are compiled many to a program. A program that does not compile, panics
//! or dies is a failure of the case it can be pinned on.
use crate::vals::Vals;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, show, Env, Obs, Part};

/// What a field must be.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Eq(String),
    /// The same as another field of the same run.
    Same(usize),
    /// A document of this structure (see `html`).
    Html(Json),
    /// The first text, followed by some beginning of the second.
    Begins(String, String),
    Any,
}

impl Exp {
    fn to_json(&self) -> Json {
        match self {
            Exp::Eq(s) => json!({ "eq": s }),
            Exp::Same(n) => json!({ "same": n }),
            Exp::Html(j) => json!({ "html": j }),
            Exp::Begins(a, b) => json!({ "is": a, "then_beginning_of": b }),
            Exp::Any => json!({}),
        }
    }
    fn from_json(j: &Json) -> Exp {
        if let Some(s) = j["eq"].as_str() {
            Exp::Eq(s.into())
        } else if let Some(n) = j["same"].as_u64() {
            Exp::Same(n as usize)
        } else if let Some(s) = j["is"].as_str() {
            Exp::Begins(s.into(), j["then_beginning_of"].as_str().unwrap().into())
        } else if j.get("html").is_some() {
            Exp::Html(j["html"].clone())
        } else {
            Exp::Any
        }
    }
}

/// How a program is compiled.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ctx {
    pub edition: &'static str,
    /// The cases are a library without the standard library.
    pub no_std: bool,
    /// With laby's `decl_macro` feature.
    pub decl: bool,
    /// With the allocator that counts.
    pub count: bool,
    pub lints: bool,
    /// The `lib` of the cases is compiled to a crate of its own.
    pub lib: bool,
}

pub const CTX: Ctx = Ctx { edition: "2021", no_std: false, decl: false, count: false, lints: false, lib: false };

/// One case to compile and run.
#[derive(Clone, Debug)]
pub struct Job {
    pub ctx: Ctx,
    /// Items of the case's module in the crate `parts`.
    pub lib: String,
    /// Items of the case's module.
    pub items: String,
    /// Body of `fn run(v: &V, out: &mut Out)`.
    pub body: String,
    pub vals: Vec<Vals>,
    /// Per valuation, per field.
    pub exps: Vec<Vec<Exp>>,
    /// How the imports of the module are written.
    pub uses: &'static str,
    /// What must hold for a failure to be one: the same without the feature under test.
    pub alt: Option<Box<Job>>,
}

impl Job {
    pub fn source(&self, id: usize) -> String {
        format!(
            "pub mod c{id} {{\n{}\n{}\npub fn run(v: &h::V, out: &mut h::Out) {{\n{}\n}}\n}}\n",
            self.uses, self.items, self.body
        )
        .replace("@ID@", &id.to_string())
    }
    fn lib_source(&self, id: usize) -> String {
        format!("pub mod c{id} {{\n{}\n{}\n}}\n", self.uses, self.lib).replace("@ID@", &id.to_string())
    }
    fn to_json(&self) -> Json {
        json!({
            "edition": self.ctx.edition, "no_std": self.ctx.no_std, "decl": self.ctx.decl,
            "count": self.ctx.count, "lints": self.ctx.lints, "library": self.lib.split('\n').collect::<Vec<_>>(),
            "uses": self.uses.split('\n').collect::<Vec<_>>(),
            "items": self.items.split('\n').collect::<Vec<_>>(), "body": self.body.split('\n').collect::<Vec<_>>(),
            "values": self.vals.iter().map(|v| v.to_json()).collect::<Vec<_>>(),
            "alternative": self.alt.as_ref().map(|j| j.to_json()),
            "expected": self.exps.iter().map(|e| e.iter().map(|e| e.to_json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        })
    }
    fn from_json(j: &Json) -> Job {
        let text = |j: &Json| j.as_array().unwrap().iter().map(|l| l.as_str().unwrap()).collect::<Vec<_>>().join("\n");
        let edition = ["2018", "2021", "2024"].into_iter().find(|e| *e == j["edition"]).unwrap();
        Job {
            ctx: Ctx {
                edition,
                no_std: j["no_std"] == true,
                decl: j["decl"] == true,
                count: j["count"] == true,
                lints: j["lints"] == true,
                lib: text(&j["library"]) != "",
            },
            lib: text(&j["library"]),
            alt: j["alternative"].is_object().then(|| Box::new(Job::from_json(&j["alternative"]))),
            uses: Box::leak(text(&j["uses"]).into_boxed_str()),
            items: text(&j["items"]),
            body: text(&j["body"]),
            vals: j["values"].as_array().unwrap().iter().map(Vals::from_json).collect(),
            exps: j["expected"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| e.as_array().unwrap().iter().map(Exp::from_json).collect())
                .collect(),
        }
    }
}

pub const USES: &str = "use crate::h;\nuse laby::*;";

const HARNESS: &str = include_str!("harness.rs.txt");
const MAIN: &str = include_str!("main.rs.txt");
const LOG: &str = include_str!("log.rs.txt");
const COUNT: &str = include_str!("count.rs.txt");

/// What comes before the cases.
pub fn prelude(ctx: &Ctx) -> String {
    let mut s = String::new();
    if ctx.no_std {
        s.push_str("#![no_std]\nextern crate alloc;\n");
    }
    if ctx.decl {
        s.push_str("#![feature(decl_macro)]\n");
    }
    s.push_str(&HARNESS.replace("@STD@", if ctx.no_std { "alloc" } else { "std" }).replace("@LOG@", match (ctx.no_std, ctx.count) {
        (true, _) => "",
        (_, false) => "pub use super::hlog::*;",
        _ => "pub use super::hlog::*; pub use super::hcount::*;",
    }));
    if ctx.count {
        s.push_str(COUNT);
    }
    if !ctx.no_std {
        s.push_str(LOG);
    }
    s
}

pub struct Rustc {
    rlib: String,
    deps: String,
    decl: Option<(String, String)>,
    work: PathBuf,
    next: AtomicUsize,
    pub compiled: AtomicUsize,
}

#[derive(Debug, Clone)]
pub struct Diag {
    /// Lines of the main file this error is about (outermost expansion).
    pub lines: Vec<usize>,
    /// And where exactly.
    pub spans: Vec<Span>,
    pub text: String,
    pub code: String,
}

#[derive(Debug, Clone)]
pub struct Span {
    pub line: u32,
    pub col: u32,
    pub end_line: u32,
    pub end_col: u32,
}

pub struct Checked {
    pub ok: bool,
    pub errors: Vec<Diag>,
    pub hung: bool,
    pub died: bool,
    pub out: Vec<u8>,
    pub warnings: Vec<Diag>,
}

pub struct Compiled {
    pub ok: bool,
    pub errors: Vec<Diag>,
    pub exe: PathBuf,
}

impl Rustc {
    pub fn new(work: &Path) -> Rustc {
        let var = |k: &str| std::env::var(k).unwrap_or_default();
        let decl = (!var("LABY_DECL_RLIB").is_empty()).then(|| (var("LABY_DECL_RLIB"), var("LABY_DECL_DEPS")));
        Rustc {
            rlib: var("LABY_RLIB"),
            deps: var("LABY_DEPS"),
            decl,
            work: work.into(),
            next: AtomicUsize::new(0),
            compiled: AtomicUsize::new(0),
        }
    }

    fn command(&self, ctx: &Ctx, name: &str, src: &Path) -> Command {
        let mut c = Command::new("rustc");
        c.current_dir("/")
            .arg("--edition")
            .arg(ctx.edition)
            .args(["--crate-name", name, "--error-format=json"])
            .args(["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=4", "-C", "incremental=no"])
            .env("RUST_MIN_STACK", "268435456")
            .arg(src);
        if !ctx.lints {
            c.arg("--cap-lints=allow");
        }
        let (rlib, deps) = match (ctx.decl, &self.decl) {
            (true, Some((r, d))) => (r, d),
            (true, None) => panic!("no laby with decl_macro"),
            _ => (&self.rlib, &self.deps),
        };
        c.arg("--extern").arg(format!("laby={rlib}")).arg("-L").arg(format!("dependency={deps}"));
        if ctx.decl {
            // lets the stable compiler accept the feature
            c.env("RUSTC_BOOTSTRAP", "1");
        }
        c
    }

    fn run(&self, c: Command) -> (bool, Vec<Diag>) {
        let r = self.run_all(c);
        (r.ok, r.errors)
    }

    fn run_all(&self, mut c: Command) -> Checked {
        self.compiled.fetch_add(1, SeqCst);
        let out = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("rustc");
        let mut errors = vec![];
        let mut warnings = vec![];
        let text = String::from_utf8_lossy(&out.stderr);
        for line in text.lines() {
            let Ok(j) = serde_json::from_str::<Json>(line) else {
                if !line.trim().is_empty() && !out.status.success() {
                    errors.push(Diag { lines: vec![], spans: vec![], text: line.into(), code: String::new() });
                }
                continue;
            };
            let level = j["level"].as_str().unwrap_or("");
            if !level.starts_with("error") && level != "warning" {
                continue;
            }
            let msg = j["message"].as_str().unwrap_or("");
            if msg.starts_with("aborting due to") || msg.starts_with("could not compile") {
                continue;
            }
            let mut lines = vec![];
            let mut spans = vec![];
            for s in j["spans"].as_array().map(|a| &a[..]).unwrap_or(&[]) {
                if s["is_primary"] != true {
                    continue;
                }
                let mut s = s;
                let mut at = s;
                while s["expansion"].is_object() {
                    s = &s["expansion"]["span"];
                    at = s;
                }
                lines.push(at["line_start"].as_u64().unwrap_or(0) as usize);
                let n = |k: &str| at[k].as_u64().unwrap_or(0) as u32;
                spans.push(Span { line: n("line_start"), col: n("column_start"), end_line: n("line_end"), end_col: n("column_end") });
            }
            let to = if level == "warning" { &mut warnings } else { &mut errors };
            to.push(Diag {
                lines,
                spans,
                text: j["rendered"].as_str().unwrap_or(msg).to_string(),
                code: j["code"]["code"].as_str().unwrap_or("").to_string(),
            });
        }
        if !out.status.success() && errors.is_empty() {
            errors.push(Diag { lines: vec![], spans: vec![], text: format!("rustc ended with {}: {}", out.status, text), code: String::new() });
        }
        // as the shell and timeout report it
        let code = out.status.code().unwrap_or(128);
        Checked { ok: out.status.success(), errors, hung: code == 124 || code == 137, died: code >= 128 && code != 137, out: out.stdout, warnings }
    }

    fn dir(&self) -> PathBuf {
        let d = self.work.join(format!("p{}", self.next.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    /// Only checks whether a source compiles (a library).
    pub fn check(&self, ctx: &Ctx, source: &str) -> (bool, Vec<Diag>) {
        let d = self.dir();
        let src = d.join("cases.rs");
        std::fs::write(&src, source).unwrap();
        let mut c = self.command(ctx, "cases", &src);
        c.args(["--crate-type", "lib", "--emit=metadata", "-o"]).arg(d.join("libcases.rmeta"));
        let r = self.run(c);
        std::fs::remove_dir_all(&d).unwrap();
        r
    }

    /// Checks a source, or only expands it, for at most so many seconds.
    pub fn check_within(&self, ctx: &Ctx, source: &str, secs: u32, expand: bool) -> Checked {
        let d = self.dir();
        let src = d.join("cases.rs");
        std::fs::write(&src, source).unwrap();
        let c = self.command(ctx, "cases", &src);
        let mut t = Command::new("timeout");
        t.arg("-k").arg("5").arg(secs.to_string()).arg(c.get_program()).args(c.get_args()).current_dir("/");
        for (k, v) in c.get_envs() {
            if let Some(v) = v {
                t.env(k, v);
            }
        }
        t.args(["--crate-type", "lib"]);
        if expand {
            t.arg("-Zunpretty=expanded").env("RUSTC_BOOTSTRAP", "1");
        } else {
            t.args(["--emit=metadata", "-o"]).arg(d.join("libcases.rmeta"));
        }
        let r = self.run_all(t);
        std::fs::remove_dir_all(&d).unwrap();
        r
    }

    /// Compiles jobs (of the same context) into one program. The directory is the caller's to remove.
    fn build(&self, jobs: &[(usize, &Job)]) -> (Compiled, PathBuf, Vec<(usize, usize, usize)>) {
        let ctx = &jobs[0].1.ctx;
        let d = self.dir();
        let mut s = prelude(ctx);
        let mut ranges = vec![];
        let mut line = s.lines().count() + 1;
        for (id, j) in jobs {
            let t = j.source(*id);
            let n = t.matches('\n').count();
            ranges.push((*id, line, line + n - 1));
            line += n;
            s.push_str(&t);
        }
        let mut table = String::new();
        for (id, _) in jobs {
            table.push_str(&format!("        {id} => c{id}::run(v, out),\n"));
        }
        s.push_str(&format!(
            "pub fn dispatch(id: usize, v: &h::V, out: &mut h::Out) {{\n    match id {{\n{table}        _ => loop {{}},\n    }}\n}}\n"
        ));
        let src = d.join("cases.rs");
        let exe = d.join("prog");
        let parts = d.join("libparts.rlib");
        if ctx.lib {
            let mut s = String::new();
            if ctx.decl {
                s.push_str("#![feature(decl_macro)]\n");
            }
            s.push_str(&HARNESS.replace("@STD@", "std").replace("@LOG@", "pub use super::hlog::*;"));
            s.push_str(LOG);
            let mut ranges = vec![];
            let mut line = s.lines().count() + 1;
            for (id, j) in jobs {
                let t = j.lib_source(*id);
                let n = t.matches('\n').count();
                ranges.push((*id, line, line + n - 1));
                line += n;
                s.push_str(&t);
            }
            let src = d.join("parts.rs");
            std::fs::write(&src, &s).unwrap();
            let mut c = self.command(ctx, "parts", &src);
            c.args(["--crate-type", "rlib", "-o"]).arg(&parts);
            let r = self.run(c);
            if !r.0 {
                return (Compiled { ok: false, errors: r.1, exe }, d, ranges);
            }
        }
        let main = MAIN.to_string();
        let r = if ctx.no_std {
            std::fs::write(&src, &s).unwrap();
            let mut c = self.command(ctx, "cases", &src);
            let lib = d.join("libcases.rlib");
            c.args(["--crate-type", "rlib", "-o"]).arg(&lib);
            let r = self.run(c);
            if r.0 {
                let m = d.join("main.rs");
                std::fs::write(&m, format!("use cases::{{h, dispatch}};\n{main}")).unwrap();
                let mut c = self.command(&Ctx { edition: "2021", lints: false, ..ctx.clone() }, "prog", &m);
                c.arg("--extern").arg(format!("cases={}", lib.display())).arg("-o").arg(&exe);
                self.run(c)
            } else {
                r
            }
        } else {
            s.push_str(&main);
            std::fs::write(&src, &s).unwrap();
            let mut c = self.command(ctx, "prog", &src);
            if ctx.lib {
                c.arg("--extern").arg(format!("parts={}", parts.display()));
            }
            c.arg("-o").arg(&exe);
            self.run(c)
        };
        (Compiled { ok: r.0, errors: r.1, exe }, d, ranges)
    }
}

/// What became of a job.
#[derive(Clone, Debug)]
pub enum Verdict {
    Held,
    Failed(String),
    /// Not compiled or run because of other failures.
    Skipped,
}

fn judge(job: &Job, outs: &[Vec<Vec<u8>>]) -> Verdict {
    for (vi, (exps, got)) in job.exps.iter().zip(outs).enumerate() {
        if got.len() != exps.len() {
            return Verdict::Failed(format!(
                "with values {vi}: {} fields instead of {} (last: {})",
                got.len(),
                exps.len(),
                got.last().map(|b| show(b)).unwrap_or_default()
            ));
        }
        for (fi, e) in exps.iter().enumerate() {
            let r = match e {
                Exp::Eq(want) => vcore::driver::same(&format!("output {fi} with values {vi}"), &got[fi], want.as_bytes()),
                Exp::Same(n) => vcore::driver::same(&format!("output {fi} and output {n} with values {vi}"), &got[fi], &got[*n]),
                Exp::Html(want) => crate::html::compare(&got[fi], want).map_err(|m| format!("output {fi} with values {vi}: {m}; output {}", show(&got[fi]))),
                Exp::Begins(a, b) => {
                    let rest = got[fi].strip_prefix(a.as_bytes());
                    if rest.is_some_and(|r| b.as_bytes().starts_with(r) && b.is_char_boundary(r.len())) {
                        Ok(())
                    } else {
                        Err(format!("output {fi} with values {vi} is {}, not {} and then some beginning of {}", show(&got[fi]), show(a.as_bytes()), show(b.as_bytes())))
                    }
                }
                Exp::Any => Ok(()),
            };
            if let Err(m) = r {
                return Verdict::Failed(m);
            }
        }
    }
    Verdict::Held
}

/// Runs a program over its jobs; the output per job and valuation, up to where it died.
fn execute(exe: &Path, dir: &Path, jobs: &[(usize, &Job)]) -> (Vec<Vec<Vec<Vec<u8>>>>, Option<(usize, String)>) {
    let mut input = vec![];
    let total: usize = jobs.iter().map(|(_, j)| j.vals.len()).sum();
    input.extend_from_slice(&(total as u32).to_le_bytes());
    for (id, j) in jobs {
        for v in &j.vals {
            input.extend_from_slice(&(*id as u32).to_le_bytes());
            v.encode(&mut input);
        }
    }
    let inf = dir.join("input");
    let outf = dir.join("output");
    std::fs::write(&inf, &input).unwrap();
    let mut child = Command::new(exe)
        .arg(&inf)
        .arg(&outf)
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("program");
    let end = Instant::now() + Duration::from_secs(120);
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            eprintln!("generated program timed out");
            std::process::exit(2);
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    if status.code() == Some(3) {
        eprintln!("the harness of a generated program failed");
        std::process::exit(2);
    }
    let data = std::fs::read(&outf).unwrap_or_default();
    let mut res: Vec<Vec<Vec<Vec<u8>>>> = vec![];
    let mut p = 0usize;
    let take_num = |p: &mut usize| -> Option<usize> {
        let b = data.get(*p..*p + 4)?;
        *p += 4;
        Some(u32::from_le_bytes(b.try_into().unwrap()) as usize)
    };
    for (ji, (_, j)) in jobs.iter().enumerate() {
        let mut per = vec![];
        for _ in &j.vals {
            let Some(n) = take_num(&mut p) else {
                use std::os::unix::process::ExitStatusExt;
                let why = match status.signal() {
                    Some(s) => vcore::driver::signal_text(s),
                    None => format!("program ended with {status}"),
                };
                res.push(per);
                return (res, Some((ji, why)));
            };
            if n == u32::MAX as usize {
                let l = take_num(&mut p).unwrap();
                let m = String::from_utf8_lossy(&data[p..p + l]).into_owned();
                p += l;
                per.push(vec![format!("panicked: {m}").into_bytes()]);
                continue;
            }
            let mut fields = vec![];
            for _ in 0..n {
                let l = take_num(&mut p).unwrap();
                fields.push(data[p..p + l].to_vec());
                p += l;
            }
            per.push(fields);
        }
        res.push(per);
    }
    (res, None)
}

/// Keeps the program of the last source, as most steps of shrinking change only values.
#[derive(Default)]
struct Cache {
    source: String,
    program: Option<(PathBuf, PathBuf)>,
    error: Option<String>,
}

impl Cache {
    fn eval(&mut self, rc: &Rustc, j: &Job) -> Option<String> {
        let r = self.eval_one(rc, j);
        match (&j.alt, r) {
            (Some(a), Some(m)) => match batch_one(rc, &[(0, a)]).pop().unwrap() {
                Verdict::Held => Some(m),
                _ => None,
            },
            (_, r) => r,
        }
    }
    fn eval_one(&mut self, rc: &Rustc, j: &Job) -> Option<String> {
        let source = format!("{:?}{}{}", j.ctx, j.lib, j.source(0));
        if source != self.source {
            self.clear();
            self.source = source;
            let (c, dir, _) = rc.build(&[(0, j)]);
            if c.ok {
                self.program = Some((c.exe, dir));
            } else {
                std::fs::remove_dir_all(&dir).unwrap();
                self.error = Some(format!("does not compile: {}", c.errors.first().map(err_text).unwrap_or_default()));
            }
        }
        if self.error.is_some() {
            return self.error.clone();
        }
        let (exe, dir) = self.program.as_ref().unwrap();
        let (outs, died) = execute(exe, dir, &[(0, j)]);
        match died {
            Some((_, why)) => Some(why),
            None => match judge(j, &outs[0]) {
                Verdict::Failed(m) => Some(m),
                _ => None,
            },
        }
    }
    fn clear(&mut self) {
        if let Some((_, d)) = self.program.take() {
            std::fs::remove_dir_all(&d).unwrap();
        }
        self.error = None;
        self.source.clear();
    }
}

fn err_text(d: &Diag) -> String {
    let mut t = d.text.clone();
    if t.len() > 1500 {
        let mut n = 1500;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    t
}

/// Compiles and runs one batch of jobs of one context.
pub fn batch(rc: &Rustc, jobs: &[(usize, &Job)]) -> Vec<Verdict> {
    let mut vs = batch_one(rc, jobs);
    for ((_, j), v) in jobs.iter().zip(&mut vs) {
        if let (Verdict::Failed(_), Some(a)) = (&*v, &j.alt) {
            if !matches!(batch_one(rc, &[(0, a)])[0], Verdict::Held) {
                // fails just as well without
                *v = Verdict::Skipped;
            }
        }
    }
    vs
}

fn batch_one(rc: &Rustc, jobs: &[(usize, &Job)]) -> Vec<Verdict> {
    let mut verdicts = vec![Verdict::Skipped; jobs.len()];
    let mut live: Vec<usize> = (0..jobs.len()).collect();
    // compile, dropping the cases that do not compile
    for round in 0..6 {
        if live.is_empty() {
            break;
        }
        let sel: Vec<(usize, &Job)> = live.iter().map(|i| jobs[*i]).collect();
        let (c, dir, ranges) = rc.build(&sel);
        if c.ok {
            let (outs, died) = execute(&c.exe, &dir, &sel);
            std::fs::remove_dir_all(&dir).unwrap();
            for (k, i) in live.iter().enumerate() {
                if k < outs.len() && died.as_ref().map(|d| d.0 != k).unwrap_or(true) {
                    verdicts[*i] = judge(sel[k].1, &outs[k]);
                }
            }
            if let Some((k, why)) = died {
                verdicts[live[k]] = Verdict::Failed(why);
            }
            return verdicts;
        }
        std::fs::remove_dir_all(&dir).unwrap();
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        for e in &c.errors {
            for l in &e.lines {
                if let Some(k) = ranges.iter().position(|(_, a, b)| l >= a && l <= b) {
                    bad.entry(k).or_insert_with(|| format!("does not compile: {}", err_text(e)));
                }
            }
        }
        if bad.is_empty() || round == 5 {
            // cannot tell which: one by one
            if sel.len() == 1 {
                let m = c.errors.first().map(err_text).unwrap_or_default();
                verdicts[live[0]] = Verdict::Failed(format!("does not compile: {m}"));
                return verdicts;
            }
            for i in &live {
                verdicts[*i] = batch_one(rc, &[jobs[*i]]).pop().unwrap();
                if let Verdict::Failed(_) = verdicts[*i] {
                    break;
                }
            }
            return verdicts;
        }
        let mut keep = vec![];
        for (k, i) in live.iter().enumerate() {
            match bad.remove(&k) {
                Some(m) => verdicts[*i] = Verdict::Failed(m),
                None => keep.push(*i),
            }
        }
        live = keep;
    }
    verdicts
}

/// A stream of generated programs.
pub trait PStream: Sync {
    fn name(&self) -> &'static str;
    fn cases(&self) -> u64;
    /// Cases per program.
    fn chunk(&self) -> usize;
    fn job(&self, seed: u64, idx: u64, obs: &mut Obs) -> Job;
    fn shrink(&self, seed: u64, idx: u64, first: String, eval: &mut dyn FnMut(&Job) -> Option<String>) -> (Job, String, u64);
}

pub struct Prog<S> {
    pub name: &'static str,
    pub cases: u64,
    pub chunk: usize,
    pub gen: Box<dyn Fn(&mut TestRunner, u64) -> Box<dyn ValueTree<Value = S>> + Sync>,
    pub build: fn(&S, &mut Obs) -> Job,
}

pub fn prog<S: Debug + 'static, T: Strategy<Value = S> + 'static>(
    name: &'static str,
    cases: u64,
    chunk: usize,
    strat: impl Fn(u64) -> T + Sync + 'static,
    build: fn(&S, &mut Obs) -> Job,
) -> Box<dyn PStream>
where
    T::Tree: 'static,
{
    Box::new(Prog { name, cases, chunk, gen: Box::new(move |r, i| Box::new(strat(i).new_tree(r).expect("generator"))), build })
}

impl<S: Debug> PStream for Prog<S> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self) -> u64 {
        self.cases
    }
    fn chunk(&self) -> usize {
        self.chunk
    }
    fn job(&self, seed: u64, idx: u64, obs: &mut Obs) -> Job {
        let tree = (self.gen)(&mut case_runner(seed, self.name, idx), idx);
        (self.build)(&tree.current(), obs)
    }
    fn shrink(&self, seed: u64, idx: u64, first: String, eval: &mut dyn FnMut(&Job) -> Option<String>) -> (Job, String, u64) {
        let mut tree = (self.gen)(&mut case_runner(seed, self.name, idx), idx);
        let (mut best, mut msg) = ((self.build)(&tree.current(), &mut Obs::default()), first);
        let mut tried = 0;
        let end = Instant::now() + Duration::from_secs(45);
        while tree.simplify() {
            loop {
                if tried >= 2000 || Instant::now() > end {
                    return (best, msg, tried);
                }
                tried += 1;
                let j = (self.build)(&tree.current(), &mut Obs::default());
                match eval(&j) {
                    Some(m) => {
                        best = j;
                        msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            return (best, msg, tried);
                        }
                    }
                }
            }
        }
        (best, msg, tried)
    }
}

fn hash(job: &Job) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (&job.ctx, &job.lib, &job.items, &job.body, job.uses).hash(&mut h);
    format!("{:?}", job.vals).hash(&mut h);
    h.finish()
}

/// laby builds, and a trivial template compiles and runs.
pub fn sanity(rc: &Rustc) {
    for decl in [false, true] {
        if decl && rc.decl.is_none() {
            continue;
        }
        let j = Job {
            ctx: Ctx { decl, ..CTX },
            lib: String::new(),
            items: String::new(),
            body: "out.push(h::text(\"x\"));".into(),
            vals: vec![Vals::default()],
            exps: vec![vec![Exp::Eq("x".into())]],
            uses: "use crate::h;",
            alt: None,
        };
        if let Verdict::Failed(m) = &batch(rc, &[(0, &j)])[0] {
            eprintln!("the framework of generated programs does not work: {m}");
            std::process::exit(2);
        }
    }
}

pub fn run_programs(env: &Env, streams: Vec<Box<dyn PStream>>) -> Part {
    let rc = Rustc::new(&env.work);
    sanity(&rc);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        part.evaluations = 1;
        part.distinct = 1;
        if rec["replay"]["case"].is_null() {
            return part;
        }
        let j = Job::from_json(&rec["replay"]["case"]);
        match batch(&rc, &[(0, &j)]).pop().unwrap() {
            Verdict::Failed(m) => part.violation = Some((rec["replay"].clone(), m)),
            _ => {}
        }
        return part;
    }
    let mut hashes = HashSet::new();
    for s in &streams {
        let t0 = Instant::now();
        let n = s.cases();
        let nchunks = (n as usize + s.chunk() - 1) / s.chunk();
        let next = AtomicUsize::new(0);
        let stop = AtomicUsize::new(0);
        struct Shared {
            part: Part,
            hashes: HashSet<u64>,
            fails: Vec<(u64, String)>,
        }
        let sh = Mutex::new(Shared { part: Part::default(), hashes: HashSet::new(), fails: vec![] });
        std::thread::scope(|sc| {
            for _ in 0..vcore::driver::WORKERS {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= nchunks || stop.load(SeqCst) != 0 {
                            return;
                        }
                        let mut jobs = vec![];
                        // chunk k holds the cases k, k + nchunks, ..
                        let mut i = k as u64;
                        while i < n {
                            let mut obs = Obs::default();
                            let j = s.job(env.seed, i, &mut obs);
                            jobs.push((i as usize, j, obs));
                            i += nchunks as u64;
                        }
                        let mut groups: BTreeMap<Ctx, Vec<(usize, &Job)>> = BTreeMap::new();
                        for (i, j, _) in &jobs {
                            groups.entry(j.ctx.clone()).or_default().push((*i, j));
                        }
                        for (_, g) in groups {
                            let vs = batch(&rc, &g);
                            let mut sh = sh.lock().unwrap();
                            for ((i, j), v) in g.iter().zip(vs) {
                                match v {
                                    Verdict::Held => {}
                                    Verdict::Failed(m) => {
                                        stop.store(1, SeqCst);
                                        sh.fails.push((*i as u64, m));
                                    }
                                    Verdict::Skipped => continue,
                                }
                                let obs = &jobs.iter().find(|x| x.0 == *i).unwrap().2;
                                sh.part.evaluations += j.vals.len() as u64;
                                for (c, k) in &obs.classes {
                                    *sh.part.classes.entry(format!("{}: {}", s.name(), c)).or_insert(0) += k;
                                }
                                if obs.nontrivial {
                                    let h = hash(j);
                                    sh.hashes.insert(h);
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let sh = sh.into_inner().unwrap();
        part.evaluations += sh.part.evaluations;
        for (k, v) in sh.part.classes {
            *part.classes.entry(k).or_insert(0) += v;
        }
        *part.classes.entry(format!("{}: programs", s.name())).or_insert(0) += n;
        hashes.extend(sh.hashes);
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("  {} {}: {} programs in {:.2}s", env.label, s.name(), n, t0.elapsed().as_secs_f64());
        }
        let mut fails = sh.fails;
        if !fails.is_empty() {
            fails.sort();
            let (idx, m) = fails[0].clone();
            if std::env::var("VERIF_VERBOSE").is_ok() {
                for (i, m) in &fails {
                    eprintln!("  case {i}: {m}");
                }
                eprintln!("{}", listing(&s.job(env.seed, idx, &mut Obs::default())));
            }
            let mut cache = Cache::default();
            let (job, msg, tried) = s.shrink(env.seed, idx, m, &mut |j| cache.eval(&rc, j));
            cache.clear();
            eprintln!("{}: stream {} case {} (shrunk in {} steps): {}\n{}", env.id, s.name(), idx, tried, msg, listing(&job));
            let rep = json!({"stream": s.name(), "index": idx, "case": job.to_json()});
            part.samples.push(rep.clone());
            part.violation = Some((rep, format!("{msg}\nin program:\n{}", listing(&job))));
            break;
        }
        for k in 0..2.min(n) {
            let idx = (k * 7919 + 3) % n;
            let j = s.job(env.seed, idx, &mut Obs::default());
            part.samples.push(json!({"stream": s.name(), "index": idx, "items": clip(&j.items), "body": clip(&j.body),
                "expected": j.exps.first().map(|e| e.iter().map(|e| clip(&e.to_json().to_string())).collect::<Vec<_>>())}));
        }
    }
    part.distinct = hashes.len() as u64;
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}

fn listing(j: &Job) -> String {
    if j.lib.is_empty() {
        j.source(0)
    } else {
        format!("// crate parts\n{}\n// the program\n{}", j.lib_source(0), j.source(0))
    }
}

fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(600).collect();
    if t.len() < s.len() {
        t.push_str(" ...");
    }
    t
}
