//! C17: misused macros do not compile, their correct neighbours do.
use crate::ast::*;
use crate::comp;
use crate::engine::*;
use crate::gen::{self, Cfg};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, Env as RunEnv, Obs, Part};

/// A misuse, and the same put right: the text of a module each.
#[derive(Clone, Debug)]
pub struct Pair {
    pub bad: String,
    pub good: String,
}

#[derive(Clone, Debug)]
pub struct Case {
    what: What,
    around: Vec<u8>,
    /// Whether the last step is a value of the function or rendered.
    end: u8,
}

#[derive(Clone, Debug)]
pub enum What {
    VoidChild { tag: u16, before: Vec<Item>, after: Vec<Item>, child: Ex, delim: u8, trail: bool, path: u8 },
    FragAttr { tag: u16, before: Vec<Item>, after: Vec<Item>, name: Name, value: Option<Ex>, boolean: Option<BoolCond>, delim: u8, path: u8 },
    /// `what`: 0 a condition, or something else.
    BoolPlace { place: u8, cond: BoolCond, delim: u8, what: u8 },
    BoolType { value: u8, tag: u16, name: Name, before: Vec<Item>, delim: u8, k: u8 },
    Call { case: comp::CompCase, how: comp::Misuse },
    TwoRest { case: comp::CompCase, at: (u8, u8), args: Vec<Ex>, generic: bool },
}

const NON_BOOL: [(&str, &str); 14] = [
    ("1", "integer literal"),
    ("\"true\"", "string literal"),
    ("'t'", "character literal"),
    ("1.0", "float literal"),
    ("()", "unit"),
    ("v.s[0].as_str()", "text"),
    ("v.i[0]", "integer"),
    ("&v.b[0]", "reference to a boolean"),
    ("Some(true)", "option"),
    ("v.o[0].clone()", "option"),
    ("true, false", "two values"),
    ("", "nothing"),
    ("(true,)", "tuple"),
    ("|| true", "closure"),
];

fn small() -> Cfg {
    Cfg { depth: 1, items: 3, comps: false, wraps: vec![W::Paren, W::Block, W::Some, W::Id], leaf_kinds: (0..LEAVES).filter(|k| *k != CELL && *k != 44).collect(), ..Cfg::default() }
}

fn void_child() -> BoxedStrategy<What> {
    let c = small();
    let attrs = || {
        prop::collection::vec(
            prop_oneof![
                2 => (gen::name(&small()), gen::atom(&small())).prop_map(|(n, v)| Item::Attr(n, v)),
                1 => (gen::name(&small()), gen::bool_cond(), 0u8..3).prop_map(|(n, c, d)| Item::Bool(n, c, d)),
            ],
            0..3,
        )
    };
    let child = prop_oneof![
        2 => gen::atom(&c),
        2 => gen::tree(&c),
        1 => Just(Ex::El { tag: FRAG, delim: 0, trail: false, path: 0, items: vec![] }),
        1 => Just(Ex::Leaf { kind: 30, k: 0, ev: 0, tr: false }),
    ];
    (101u16..115, attrs(), attrs(), child, 0u8..3, any::<bool>(), 0u8..6)
        .prop_map(|(tag, before, after, child, delim, trail, path)| What::VoidChild { tag, before, after, child, delim, trail, path })
        .boxed()
}

fn frag_attr() -> BoxedStrategy<What> {
    let kids = || prop::collection::vec(gen::atom(&small()).prop_map(Item::Child), 0..3);
    (
        prop_oneof![Just(FRAG), Just(CLASSES)],
        kids(),
        kids(),
        gen::name(&small()),
        gen::atom(&small()),
        prop::option::weighted(0.35, gen::bool_cond()),
        0u8..3,
        0u8..6,
    )
        .prop_map(|(tag, before, after, name, value, boolean, delim, path)| What::FragAttr {
            tag,
            before,
            after,
            name,
            value: Some(value),
            boolean,
            delim,
            path,
        })
        .boxed()
}

fn what(i: u64) -> BoxedStrategy<What> {
    match i % 8 {
        0 | 1 => void_child(),
        2 => frag_attr(),
        3 => (0u8..PLACES, gen::bool_cond(), 0u8..3, prop_oneof![3 => Just(0u8), 1 => 1u8..9]).prop_map(|(place, cond, delim, what)| What::BoolPlace { place, cond, delim, what }).boxed(),
        4 => {
            let items = prop::collection::vec((gen::name(&small()), gen::atom(&small())).prop_map(|(n, v)| Item::Attr(n, v)), 0..3);
            (0u8..NON_BOOL.len() as u8, gen::any_tag(), gen::name(&small()), items, 0u8..3, any::<u8>())
                .prop_map(|(value, tag, name, before, delim, k)| What::BoolType { value, tag: tag % 115, name, before, delim, k })
                .boxed()
        }
        5 | 6 => (comp::case(), comp::misuse()).prop_map(|(case, how)| What::Call { case, how }).boxed(),
        _ => (comp::case(), any::<(u8, u8)>(), prop::collection::vec(gen::atom(&small()), 0..4), any::<bool>())
            .prop_map(|(case, at, args, generic)| What::TwoRest { case, at, args, generic })
            .boxed(),
    }
}

pub fn case(i: u64) -> BoxedStrategy<Case> {
    let n = if i % 3 == 0 { 0..1 } else { 1..5 };
    (what(i), prop::collection::vec(0..AROUND, n), 0u8..4).prop_map(|(what, around, end)| Case { what, around, end }).boxed()
}

const AROUND: u8 = 20;
/// Correct markup around an expression.
fn wrap(k: u8, s: &str) -> String {
    match k % AROUND {
        0 => format!("div!({s})"),
        1 => format!("laby::ul!(\"a\", {s}, p!())"),
        2 => format!("frag!({s})"),
        3 => format!("div!(class = {s})"),
        4 => format!("frag_match!(if v.b[0] {{ {s} }} else {{ \"x\" }})"),
        5 => format!("frag_match!(match v.i[0] {{ 0 => {s}, _ => 1 }})"),
        6 => format!("({s})"),
        7 => format!("{{ let t = {s}; t }}"),
        8 => format!("Some({s})"),
        9 => format!("iter!([{s}])"),
        10 => format!("render!({s})"),
        11 => format!("classes!(\"a\", {s})"),
        12 => format!("(|| {s})()"),
        13 => format!("h::id({s})"),
        14 => format!("section!(({s}), span!(\"z\"))"),
        15 => format!("ok_!(x = {s})"),
        16 => format!("ok_!({s}, \"z\")"),
        17 => format!("title![id = \"i\", {s},]"),
        18 => format!("div!((frag!({s})) = 1)"),
        _ => format!("frag_match!(match v.b[1] {{ true => \"n\", false => frag! {{ b!({s}) }} }})"),
    }
}

const PLACES: u8 = 16;
/// Where a boolean marker does not belong.
fn place(k: u8, m: &str) -> String {
    match k % PLACES {
        0 => format!("div!({m})"),
        1 => format!("div!(class = \"a\", \"text\", {m}, p!())"),
        2 => format!("frag!({m})"),
        3 => format!("{{ let t = {m}; t }}"),
        4 => format!("render!({m})"),
        5 => format!("Some({m})"),
        6 => format!("h::id({m})"),
        7 => format!("ok_!(x = {m})"),
        8 => format!("ok_!({m})"),
        9 => format!("frag_match!(match v.i[0] {{ 0 => {m}, _ => false }})"),
        10 => format!("classes!(\"a\", {m})"),
        11 => format!("{{ let _ = {m}; 1 }}"),
        12 => format!("{{ if true {{ {m}; }} \"x\" }}"),
        13 => format!("div!(({m}))"),
        14 => format!("(|| {{ {m}; 1 }})()"),
        _ => format!("div!(x = h::id({m}))"),
    }
}

const OK: &str = "#[laby]\nfn ok_(#[default(\"d\")] x: impl Render, #[rest] c: impl Render) -> impl Render { p!(x, c) }\n";

fn module(items: &str, body: &str) -> String {
    format!("{USES}\n{OK}{items}\npub fn run(v: &h::V, out: &mut h::Out) {{\n{body}\n}}\n")
}

fn finish(c: &Case, em: &mut Em, bad: String, good: String) -> Pair {
    let st = em.take_stmts();
    let f = |mut s: String| {
        for k in &c.around {
            s = wrap(*k, &s);
        }
        let body = match c.end {
            0 => format!("{st}\nlet node = {s};\nout.push(render!(node));"),
            1 => format!("{st}\nlet f = || {{ render!({s}) }};\nout.push(f());"),
            2 => format!("{st}\nlet _ = {s};"),
            _ => format!("{st}\nout.push(render!({s}));"),
        };
        module(&em.items, &body)
    };
    Pair { bad: f(bad), good: f(good) }
}

fn parts(em: &mut Em, items: &[Item]) -> Vec<String> {
    items
        .iter()
        .map(|i| {
            // as written in an element
            let e = em.ex(&Ex::El { tag: 24, delim: 0, trail: false, path: 0, items: vec![i.clone()] });
            e["div!(".len()..e.len() - 1].to_string()
        })
        .collect()
}

pub fn build(c: &Case, obs: &mut Obs) -> Pair {
    obs.nontrivial = true;
    let mut em = Em::new();
    em.temps = false;
    let lab = |p: u8| match p {
        4 => "laby::",
        5 => "::laby::",
        _ => "",
    };
    match &c.what {
        What::VoidChild { tag, before, after, child, delim, trail, path } => {
            obs.class("child of a void element");
            let b = parts(&mut em, before);
            let a = parts(&mut em, after);
            let k = em.ex(child);
            let name = format!("{}{}", lab(*path), tag_name(*tag));
            let w = |kid: Option<&String>| {
                let mut v = b.clone();
                v.extend(kid.cloned());
                v.extend(a.clone());
                let mut s = v.join(", ");
                if *trail && !s.is_empty() {
                    s.push(',');
                }
                delimit(&name, &s, *delim)
            };
            let (bad, good) = (w(Some(&k)), w(None));
            finish(c, &mut em, bad, good)
        }
        What::FragAttr { tag, before, after, name, value, boolean, delim, path } => {
            obs.class(if boolean.is_some() { "boolean attribute of a fragment or class list" } else { "attribute of a fragment or class list" });
            let b = parts(&mut em, before);
            let a = parts(&mut em, after);
            let item = match boolean {
                Some(x) => Item::Bool(name.clone(), x.clone(), 0),
                None => Item::Attr(name.clone(), value.clone().unwrap()),
            };
            let at = parts(&mut em, &[item]);
            let name = format!("{}{}", lab(*path), tag_name(*tag));
            let w = |x: bool| {
                let mut v = b.clone();
                if x {
                    v.extend(at.clone());
                }
                v.extend(a.clone());
                delimit(&name, &v.join(", "), *delim)
            };
            let (bad, good) = (w(true), w(false));
            finish(c, &mut em, bad, good)
        }
        What::BoolPlace { place: p, cond, delim, what } => {
            obs.class("boolean marker outside an attribute value");
            let x = match cond {
                BoolCond::Const(b, w) => wrap_lit(&b.to_string(), *w),
                BoolCond::Dyn(c) => em.cond(c),
            };
            let y = ["", "", "1", "true, true", "\"x\"", "true,", "(), ()", "x = true", "if"][*what as usize];
            let bad = delimit("bool", if *what == 0 { &x } else { y }, *delim);
            let (bad, good) = (place(*p, &bad), place(*p, &format!("({x})")));
            finish(c, &mut em, bad, good)
        }
        What::BoolType { value, tag, name, before, delim, k } => {
            obs.class("boolean marker on a value that is not boolean");
            let b = parts(&mut em, before);
            let n = {
                let p = parts(&mut em, &[Item::Bool(name.clone(), BoolCond::Const(true, 0), 0)]);
                p[0].strip_suffix(" = bool!(true)").unwrap().to_string()
            };
            let w = |x: &str| {
                let mut v = b.clone();
                v.insert(*k as usize % (v.len() + 1), format!("{n} = {}", delimit("bool", x, *delim)));
                delimit(tag_name(*tag), &v.join(", "), k / 3)
            };
            let (bad, good) = (w(NON_BOOL[*value as usize].0), w(if k % 2 == 0 { "true" } else { "v.b[0]" }));
            finish(c, &mut em, bad, good)
        }
        What::Call { case, how } => match comp::misused(case, how, &mut em, obs) {
            Some((items, bad, good)) => {
                em.items.push_str(&items);
                finish(c, &mut em, bad, good)
            }
            // the function has no such parameter
            None => build(&Case { what: What::BoolPlace { place: how.k, cond: BoolCond::Const(true, 0), delim: 0, what: 0 }, ..c.clone() }, obs),
        },
        What::TwoRest { case, at, args, generic } => {
            obs.class("two rest parameters");
            let (items, bad, good) = comp::two_rests(case, *at, args, *generic, &mut em);
            let mut p = finish(c, &mut em, bad, good);
            p.bad = p.bad.replace("@DECL@", &items.0);
            p.good = p.good.replace("@DECL@", &items.1);
            p
        }
    }
}

struct File {
    text: String,
    /// First line, last line per module.
    ranges: Vec<(usize, usize)>,
}

fn file(modules: &[String]) -> File {
    let mut text = prelude(&CTX);
    let mut line = text.lines().count() + 1;
    let mut ranges = vec![];
    for (i, m) in modules.iter().enumerate() {
        let t = format!("pub mod m{i} {{\n{m}}}\n");
        let n = t.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        text.push_str(&t);
    }
    File { text, ranges }
}

/// Whether the misuse is rejected and the rest is not.
fn single(rc: &Rustc, p: &Pair) -> Option<String> {
    let (ok, errors) = rc.check(&CTX, &file(&[p.good.clone()]).text);
    if !ok {
        return Some(format!("correct code is rejected: {}", errors.first().map(|d| d.text.clone()).unwrap_or_default()));
    }
    let (ok, _) = rc.check(&CTX, &file(&[p.bad.clone()]).text);
    if ok {
        return Some("misuse compiles".into());
    }
    None
}

/// The cases of a chunk that fail; how many were decided.
fn chunk(rc: &Rustc, ps: &[Pair]) -> Vec<(usize, String)> {
    let mut fails = vec![];
    let mut live: Vec<usize> = (0..ps.len()).collect();
    // misuses are rejected in different phases of the compiler
    for _ in 0..8 {
        if live.is_empty() {
            break;
        }
        let mut mods: Vec<String> = ps.iter().map(|p| p.good.clone()).collect();
        mods.extend(live.iter().map(|i| ps[*i].bad.clone()));
        let f = file(&mods);
        let (ok, errors) = rc.check(&CTX, &f.text);
        let mut suspects: HashSet<usize> = HashSet::new();
        let mut gone: HashSet<usize> = HashSet::new();
        if ok {
            suspects.extend(live.iter().copied());
        }
        for e in &errors {
            for l in &e.lines {
                if let Some(k) = f.ranges.iter().position(|(a, b)| l >= a && l <= b) {
                    if k < ps.len() {
                        suspects.insert(k);
                    } else {
                        gone.insert(live[k - ps.len()]);
                    }
                }
            }
        }
        if !ok && gone.is_empty() && suspects.is_empty() {
            suspects.extend(0..ps.len());
        }
        for s in &suspects {
            // on its own
            if let Some(m) = single(rc, &ps[*s]) {
                fails.push((*s, m));
            }
        }
        live.retain(|i| !gone.contains(i) && !suspects.contains(i));
        if !fails.is_empty() || !suspects.is_empty() && gone.is_empty() {
            return fails;
        }
    }
    // the correct ones all together
    let f = file(&ps.iter().map(|p| p.good.clone()).collect::<Vec<_>>());
    if !rc.check(&CTX, &f.text).0 {
        for (i, p) in ps.iter().enumerate() {
            if let Some(m) = single(rc, p) {
                fails.push((i, m));
            }
        }
    }
    fails
}

pub fn run(env: &RunEnv) -> Part {
    let rc = Rustc::new(&env.work);
    sanity(&rc);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let text = |k: &str| rec["replay"][k].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect::<String>();
        let p = Pair { bad: text("misuse"), good: text("correct") };
        part.evaluations = 1;
        part.distinct = 1;
        if let Some(m) = single(&rc, &p) {
            part.violation = Some((rec["replay"].clone(), m));
        }
        return part;
    }
    let n = env.n(4000, 40000);
    let per = 50;
    let nchunks = (n + per - 1) / per;
    let gen = |i: u64| case(i).new_tree(&mut case_runner(env.seed, "misuses", i)).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(n)).collect();
                    let mut all = vec![];
                    for i in &ids {
                        let mut obs = Obs::default();
                        let p = build(&gen(*i).current(), &mut obs);
                        all.push((p, obs));
                    }
                    let ps: Vec<Pair> = all.iter().map(|x| x.0.clone()).collect();
                    let fails = chunk(&rc, &ps);
                    let mut sh = shared.lock().unwrap();
                    for (p, obs) in &all {
                        sh.0.evaluations += 2;
                        for (c, n) in &obs.classes {
                            *sh.0.classes.entry(c.to_string()).or_insert(0) += n;
                        }
                        sh.2.insert(p.bad.clone());
                    }
                    for (i, m) in fails {
                        stop.store(1, SeqCst);
                        sh.1.push((ids[i], m));
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, seen) = shared.into_inner().unwrap();
    part = p;
    part.distinct = seen.len() as u64;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} misuses: {} in {:.2}s", env.label, n, t0.elapsed().as_secs_f64());
    }
    let record = |i: u64, p: &Pair| {
        let lines = |s: &str| s.lines().map(|l| l.to_string()).collect::<Vec<_>>();
        json!({"stream": "misuses", "index": i, "misuse": lines(&p.bad), "correct": lines(&p.good)})
    };
    fails.sort();
    if let Some((i, first)) = fails.first().cloned() {
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (i, m) in &fails {
                eprintln!("  case {i}: {m}\n{}", build(&gen(*i).current(), &mut Obs::default()).bad);
            }
        }
        let mut tree = gen(i);
        let (mut best, mut msg) = (build(&tree.current(), &mut Obs::default()), first);
        let end = Instant::now() + Duration::from_secs(45);
        let mut last = best.clone();
        'out: while tree.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let p = build(&tree.current(), &mut Obs::default());
                let r = if p.bad == last.bad && p.good == last.good { None } else { single(&rc, &p) };
                last = p.clone();
                match r {
                    Some(m) => {
                        best = p;
                        msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            break 'out;
                        }
                    }
                }
            }
        }
        let rec = record(i, &best);
        part.samples.push(rec.clone());
        let shown = if msg == "misuse compiles" { &best.bad } else { &best.good };
        eprintln!("C17: case {i}: {msg}\n{shown}");
        part.violation = Some((rec, format!("{msg}\n{shown}")));
    }
    for k in 0..8 {
        part.samples.push(record(k, &build(&gen(k).current(), &mut Obs::default())));
    }
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}
