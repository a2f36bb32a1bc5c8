//! C26: a macro expands to the same code, or fails with the same errors, in every run of the compiler.
use crate::engine::*;
use crate::{reject, soup};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, Env as RunEnv, Obs, Part};

#[derive(Clone, Debug)]
enum Case {
    /// Correct code next to a misuse.
    Pair(reject::Case, bool),
    /// Markup or branches, correct or edited.
    Soup(soup::Soup),
}

/// A module, and whether it compiles.
#[derive(Clone, Debug, PartialEq)]
struct Text {
    module: String,
    good: bool,
}

fn case(i: u64) -> BoxedStrategy<Case> {
    match i % 4 {
        0 | 1 => (reject::case(i / 4), Just(i % 8 < 4)).prop_map(|(c, good)| Case::Pair(c, good)).boxed(),
        2 => soup::untouched(i / 4).prop_map(Case::Soup).boxed(),
        _ => soup::case(i / 4).prop_map(Case::Soup).boxed(),
    }
}

fn build(c: &Case, obs: &mut Obs) -> Text {
    let t = match c {
        Case::Pair(c, good) => {
            let p = reject::build(c, &mut Obs::default());
            Text { module: if *good { p.good } else { p.bad }, good: *good }
        }
        Case::Soup(s) => Text { module: soup::build(s, &mut Obs::default()).module, good: s.correct() },
    };
    obs.nontrivial = true;
    obs.class(if t.good { "correct code" } else { "errors" });
    t
}

fn file(ms: &[&Text]) -> String {
    let mut text = prelude(&CTX);
    for (i, m) in ms.iter().enumerate() {
        text.push_str(&format!("pub mod m{i} {{\n{}}}\n", m.module));
    }
    text
}

/// Without the names of directories.
fn plain(s: &str) -> String {
    let mut o = String::new();
    for l in s.split_inclusive('\n') {
        match l.find("/cases.rs") {
            Some(i) => {
                let a = l[..i].rfind(' ').map_or(0, |k| k + 1);
                o.push_str(&l[..a]);
                o.push_str(&l[i..]);
            }
            None if l.contains("written to '") => {}
            None => o.push_str(l),
        }
    }
    o
}

/// What a run of the compiler makes of a file; nothing if it does not get so far.
fn answer(rc: &Rustc, text: &str, good: bool, secs: u32) -> Option<String> {
    let r = rc.check_within(&CTX, text, secs, good);
    if r.hung || r.died {
        return None;
    }
    if good && !r.ok && std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  correct code is not expanded: {}", r.errors[0].text);
    }
    Some(if good && r.ok {
        plain(&String::from_utf8_lossy(&r.out))
    } else {
        plain(&r.errors.iter().map(|e| format!("{}\n", e.text)).collect::<String>())
    })
}

fn differ(rc: &Rustc, ms: &[&Text], good: bool, runs: usize) -> Option<String> {
    if ms.is_empty() {
        return None;
    }
    let text = file(ms);
    let first = answer(rc, &text, good, 200)?;
    for _ in 1..runs {
        let next = answer(rc, &text, good, 200)?;
        if next != first {
            let at = first.lines().zip(next.lines()).position(|(a, b)| a != b).unwrap_or(0);
            let l = |s: &str| s.lines().skip(at).take(3).collect::<Vec<_>>().join("\n");
            return Some(format!(
                "two runs of the compiler {} the same code differently:\n{}\n--\n{}",
                if good { "expand" } else { "reject" },
                l(&first),
                l(&next)
            ));
        }
    }
    None
}

fn single(rc: &Rustc, t: &Text) -> Option<String> {
    differ(rc, &[t], t.good, 10)
}

fn chunk(rc: &Rustc, ts: &[Text]) -> Vec<(usize, String)> {
    let mut fails = vec![];
    for good in [true, false] {
        let ms: Vec<&Text> = ts.iter().filter(|t| t.good == good).collect();
        if let Some(m) = differ(rc, &ms, good, 2) {
            let mut found = false;
            for (i, t) in ts.iter().enumerate() {
                if t.good == good && t.module.contains("laby") {
                    if let Some(m) = single(rc, t) {
                        fails.push((i, m));
                        found = true;
                        break;
                    }
                }
            }
            if !found {
                eprintln!("C26: a difference that no module shows on its own: {m}");
            }
        }
    }
    fails
}

pub fn run(env: &RunEnv) -> Part {
    let rc = Rustc::new(&env.work);
    sanity(&rc);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let text = rec["replay"]["module"].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect::<String>();
        let t = Text { module: text, good: rec["replay"]["correct"] == true };
        part.evaluations = 1;
        part.distinct = 1;
        if let Some(m) = single(&rc, &t) {
            part.violation = Some((rec["replay"].clone(), m));
        }
        return part;
    }
    let n = env.n(4000, 60000);
    let per = 100;
    let nchunks = (n + per - 1) / per;
    let gen = |i: u64| case(i).new_tree(&mut case_runner(env.seed, "same", i)).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(n)).collect();
                    let mut all = vec![];
                    for i in &ids {
                        let mut obs = Obs::default();
                        let t = build(&gen(*i).current(), &mut obs);
                        all.push((t, obs));
                    }
                    let ts: Vec<Text> = all.iter().map(|x| x.0.clone()).collect();
                    let fails = chunk(&rc, &ts);
                    let mut sh = shared.lock().unwrap();
                    for (t, obs) in &all {
                        sh.0.evaluations += 2;
                        for (c, n) in &obs.classes {
                            *sh.0.classes.entry(c.to_string()).or_insert(0) += n;
                        }
                        sh.2.insert(t.module.clone());
                    }
                    for (i, m) in fails {
                        stop.store(1, SeqCst);
                        sh.1.push((ids[i], m));
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, seen) = shared.into_inner().unwrap();
    part = p;
    part.distinct = seen.len() as u64;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} same: {} in {:.2}s, {} rustc runs", env.label, n, t0.elapsed().as_secs_f64(), rc.compiled.load(SeqCst));
    }
    let record = |i: u64, t: &Text| json!({"stream": "same", "index": i, "module": t.module.lines().collect::<Vec<_>>(), "correct": t.good});
    fails.sort();
    if let Some((i, first)) = fails.first().cloned() {
        let mut tree = gen(i);
        let (mut best, mut msg) = (build(&tree.current(), &mut Obs::default()), first);
        let end = Instant::now() + Duration::from_secs(45);
        let mut last = best.clone();
        'out: while tree.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let t = build(&tree.current(), &mut Obs::default());
                let r = if t == last { None } else { single(&rc, &t) };
                last = t.clone();
                match r {
                    Some(m) => {
                        best = t;
                        msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            break 'out;
                        }
                    }
                }
            }
        }
        let rec = record(i, &best);
        part.samples.push(rec.clone());
        eprintln!("C26: case {i}: {msg}\n{}", best.module);
        part.violation = Some((rec, format!("{msg}\n{}", best.module)));
    }
    for k in 0..8 {
        part.samples.push(record(k, &build(&gen(k).current(), &mut Obs::default())));
    }
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}
