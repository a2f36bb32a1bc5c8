//! C28: expanded code is proportional to what is written.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, Env as RunEnv, Part};

/// A level of nesting.
#[derive(Clone, Debug)]
enum Level {
    El { tag: u16, before: Vec<Item>, after: Vec<Item>, attr: bool },
    Wrap(W),
    If { before: Vec<(Cond, Ex)>, cond: Cond, els: Option<Ex>, last: bool },
    Match { scrut: Scrut, before: Vec<(Pat, Option<Cond>, Ex)>, after: Ex, last: bool },
    Comp { shape: u8, order: u8, before: Vec<Ex>, after: Vec<Ex> },
    Iter { l: u8, delim: u8 },
}

#[derive(Clone, Debug)]
struct Param {
    kind: u8,
    default: u8,
    given: bool,
}

#[derive(Clone, Debug)]
enum Shape {
    /// Items of an element, again and again.
    Items { tag: u16, unit: Vec<Item>, around: Vec<Level> },
    Nest { levels: Vec<Level>, core: Ex },
    Arms { scrut: Scrut, unit: Vec<(Pat, Option<Cond>, Ex)>, last: Ex },
    Ifs { unit: Vec<(Cond, Ex)>, els: Option<Ex> },
    Params { unit: Vec<Param>, reverse: bool, rest: u8, calls: bool, named: bool },
    /// Arguments of a component that go where it wants them, those of its rest again and again.
    Rest { shape: u8, order: u8, unit: Vec<Ex> },
}

#[derive(Clone, Debug)]
struct Case {
    shape: Shape,
    /// Of little parts, so that there can be many.
    flat: bool,
}

fn level(cfg: &Cfg) -> BoxedStrategy<Level> {
    // the parameters of a function would be all variables around
    let wraps: Vec<W> = cfg.wraps.iter().copied().filter(|w| *w != W::Func).collect();
    let few = Cfg { items: 2, wraps: wraps.clone(), ..cfg.clone() };
    let inner = gen::tree(&Cfg { depth: 1, ..few.clone() });
    let items = || gen::items(&few, inner.clone());
    let opt = || prop::option::of(inner.clone());
    prop_oneof![
        6 => (gen::any_tag(), items(), items(), prop::bool::weighted(0.2)).prop_map(|(tag, before, after, attr)| Level::El { tag: if is_void(tag) && !attr { tag - 101 } else { tag }, before, after, attr: attr && !is_frag(tag) }),
        3 => select(wraps).prop_map(Level::Wrap),
        2 => (prop::collection::vec((gen::cond(COND_ALL), inner.clone()), 0..2), gen::cond(COND_ALL), opt(), any::<bool>())
            .prop_map(|(before, cond, els, last)| Level::If { before, cond, els, last }),
        2 => ((0..SCRUTS, any::<u8>()), prop::collection::vec(((0u8..6).prop_map(Pat), prop::option::weighted(0.3, gen::cond(COND_PLAIN)), inner.clone()), 0..2), inner.clone(), any::<bool>())
            .prop_map(|((kind, k), before, after, last)| Level::Match { scrut: Scrut { kind, k, ev: 0 }, before, after, last }),
        3 => (0u8..4, any::<u8>(), prop::collection::vec(inner.clone(), 0..2), prop::collection::vec(inner.clone(), 0..2))
            .prop_map(|(shape, order, before, after)| Level::Comp { shape, order, before, after }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(l, delim)| Level::Iter { l, delim }),
    ]
    .boxed()
}

fn case(i: u64) -> BoxedStrategy<Case> {
    let cfg = Cfg { depth: 2, items: 3, ..Cfg::default() };
    let tree = gen::tree(&cfg);
    let small = gen::tree(&Cfg { depth: 1, items: 2, ..cfg.clone() });
    let tag = prop_oneof![3 => gen::any_tag(), 1 => Just(FRAG), 1 => Just(CLASSES)];
    match i % 10 {
        0..=2 => (tag, gen::items(&cfg, tree).prop_filter("something", |v| !v.is_empty()), prop::collection::vec(level(&cfg), 0..2))
            .prop_map(|(tag, unit, around)| Shape::Items { tag, unit, around })
            .boxed(),
        3 => {
            let atom = gen::atom(&cfg);
            let few = Cfg { depth: 1, items: 1, ..cfg.clone() };
            return prop_oneof![
                3 => (gen::any_tag(), gen::item(&cfg, gen::tree(&few), atom.clone())).prop_map(|(tag, it)| Shape::Items { tag, unit: vec![it], around: vec![] }),
                3 => (0u8..4, any::<u8>(), prop::collection::vec(atom.clone(), 1..3)).prop_map(|(shape, order, unit)| Shape::Rest { shape, order, unit }),
                2 => ((0..SCRUTS, any::<u8>()), (0u8..7).prop_map(Pat), prop::option::weighted(0.2, gen::cond(COND_PLAIN)), atom.clone(), atom.clone())
                    .prop_map(|((kind, k), p, g, e, last)| Shape::Arms { scrut: Scrut { kind, k, ev: 0 }, unit: vec![(p, g, e)], last }),
                2 => (gen::cond(COND_ALL), atom.clone(), prop::option::of(atom)).prop_map(|(c, e, els)| Shape::Ifs { unit: vec![(c, e)], els }),
            ]
            .prop_map(|shape| Case { shape, flat: true })
            .boxed();
        }
        4 | 5 => (prop::collection::vec(level(&cfg), 1..4), gen::atom(&cfg)).prop_map(|(levels, core)| Shape::Nest { levels, core }).boxed(),
        6 => (
            (0..SCRUTS, any::<u8>()),
            prop::collection::vec(((0u8..7).prop_map(Pat), prop::option::weighted(0.4, gen::cond(COND_PLAIN)), small.clone()), 1..4),
            small,
        )
            .prop_map(|((kind, k), unit, last)| Shape::Arms { scrut: Scrut { kind, k, ev: 0 }, unit, last })
            .boxed(),
        7 => (prop::collection::vec((gen::cond(COND_ALL), small.clone()), 1..4), prop::option::of(small)).prop_map(|(unit, els)| Shape::Ifs { unit, els }).boxed(),
        _ => (
            prop::collection::vec((0u8..7, 0u8..6, any::<bool>()).prop_map(|(kind, default, given)| Param { kind, default, given }), 1..5),
            any::<bool>(),
            0u8..3,
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(unit, reverse, rest, calls, named)| Shape::Params { unit, reverse, rest, calls, named })
            .boxed(),
    }
    .prop_map(|shape| Case { shape, flat: false })
    .boxed()
}

fn inside(l: &Level, e: Ex) -> Ex {
    match l {
        Level::El { tag, before, after, attr } => {
            let mut items = before.clone();
            items.push(if *attr { Item::Attr(Name::Ident(0), e) } else { Item::Child(e) });
            items.extend(after.iter().cloned());
            Ex::El { tag: *tag, delim: 0, trail: false, path: 0, items }
        }
        Level::Wrap(w) => Ex::Wrap(*w, Box::new(e), 0),
        Level::If { before, cond, els, last } => {
            let mut arms = before.clone();
            if *last {
                arms.push((cond.clone(), els.clone().unwrap_or(Ex::Bind(0))));
                Ex::If { arms, els: Some(Box::new(e)) }
            } else {
                arms.push((cond.clone(), e));
                Ex::If { arms, els: els.clone().map(Box::new) }
            }
        }
        Level::Match { scrut, before, after, last } => {
            let mut arms = before.clone();
            if *last {
                arms.push((Pat(2), None, after.clone()));
                Ex::Match { scrut: scrut.clone(), arms, last: Box::new(e) }
            } else {
                arms.push((Pat(2), None, e));
                Ex::Match { scrut: scrut.clone(), arms, last: Box::new(after.clone()) }
            }
        }
        Level::Comp { shape, order, before, after } => {
            let mut args = before.clone();
            args.push(e);
            args.extend(after.iter().cloned());
            Ex::Comp { shape: *shape, order: *order, args }
        }
        Level::Iter { l, delim } => Ex::IterMap { l: *l, delim: *delim, body: Box::new(e) },
    }
}

fn template(e: &Ex) -> String {
    let mut em = Em::new();
    em.temps = false;
    let s = em.ex(e);
    let st = em.take_stmts();
    format!("{}\npub fn run(v: &h::V, out: &mut h::Out) {{\n{st}\nout.push(render!({s}));\n}}\n", em.items)
}

fn times<T: Clone>(unit: &[T], n: usize) -> Vec<T> {
    (0..n).flat_map(|_| unit.iter().cloned()).collect()
}

/// The items of a module, with everything n times.
fn write(c: &Case, n: usize) -> String {
    match &c.shape {
        Shape::Items { tag, unit, around } => {
            let mut e = Ex::El { tag: *tag, delim: 0, trail: false, path: 0, items: times(unit, n) };
            for l in around {
                e = inside(l, e);
            }
            template(&e)
        }
        Shape::Nest { levels, core } => {
            let mut e = core.clone();
            for i in 0..n {
                e = inside(&levels[i % levels.len()], e);
            }
            template(&e)
        }
        Shape::Arms { scrut, unit, last } => template(&Ex::Match { scrut: scrut.clone(), arms: times(unit, n), last: Box::new(last.clone()) }),
        Shape::Ifs { unit, els } => template(&Ex::If { arms: times(unit, n), els: els.clone().map(Box::new) }),
        Shape::Rest { shape, order, unit } => {
            let mut em = Em::new();
            em.temps = false;
            em.ex(&Ex::Comp { shape: *shape, order: *order, args: vec![] });
            let args: String = times(unit, n).iter().map(|e| format!("{}, ", em.ex(e))).collect();
            let (name, first) = [("card", "title = 1, "), ("wrapper", ""), ("wrapper", "class = \"a\", "), ("flagged", "")][*shape as usize % 4];
            em.ex(&Ex::Comp { shape: [0, 1, 1, 3][*shape as usize % 4], order: 0, args: vec![] });
            let st = em.take_stmts();
            format!("{}\npub fn run(v: &h::V, out: &mut h::Out) {{\n{st}\nout.push(render!({name}!({first}{args})));\n}}\n", em.items)
        }
        Shape::Params { unit, reverse, rest, calls, named } => {
            let (mut params, mut generics, mut bounds, mut args, mut body) = (vec![], vec![], vec![], vec![], vec![]);
            for (i, p) in times(unit, n).iter().enumerate() {
                let name = format!("{}{i}", if *named { "some_rather_long_name_of_a_parameter_" } else { "p" });
                let ty = match p.kind {
                    0 => "impl Render".to_string(),
                    1 => "&str".into(),
                    2 => "Option<u32>".into(),
                    3 => "Vec<(u8, [i32; 3])>".into(),
                    4 => {
                        generics.push(format!("T{i}"));
                        bounds.push(format!("T{i}: Render + Default"));
                        format!("T{i}")
                    }
                    5 => {
                        generics.push(format!("U{i}: Render"));
                        format!("(U{i})")
                    }
                    _ => "Box<dyn Fn(&str) -> String>".into(),
                };
                let d = match p.default {
                    0 => "#[default] ",
                    1 => "#[default(h::text(\"a\"))] ",
                    _ => "",
                };
                params.push(format!("{d}{name}: {ty}"));
                if p.default > 1 || p.given {
                    args.push(format!("{name} = {}", if i % 2 == 0 { "h::text(\"x\")" } else { "span!(v.i[0])" }));
                }
                body.push(name);
            }
            if *reverse {
                args.reverse();
            }
            if *rest > 0 {
                params.insert(params.len() / *rest as usize, "#[rest] rest: impl Render".into());
                args.extend(vec!["p!(\"a\", v.i[1])".to_string(); n]);
                body.push("rest".into());
            }
            let g = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
            let w = if bounds.is_empty() { String::new() } else { format!(" where {}", bounds.join(", ")) };
            let call = format!("out.push(render!(many!({})));\n", args.join(", "));
            format!(
                "#[laby]\nfn many{g}({}) -> impl Render{w} {{ div!({}) }}\npub fn run(v: &h::V, out: &mut h::Out) {{\n{}}}\n",
                params.join(", "),
                body.join(", "),
                call.repeat(if *calls { 3 } else { 1 })
            )
        }
    }
}

fn kind(c: &Case) -> &'static str {
    match &c.shape {
        Shape::Items { .. } => "items",
        Shape::Nest { .. } => "nesting",
        Shape::Arms { .. } => "arms of a match",
        Shape::Ifs { .. } => "branches of an if",
        Shape::Params { .. } => "parameters",
        Shape::Rest { .. } => "arguments of the rest",
    }
}

const SMALL: [usize; 3] = [3, 6, 12];
const LARGE: [usize; 3] = [24, 48, 96];
const FLAT: [usize; 3] = [150, 300, 600];

fn sizes(c: &Case, large: bool) -> [usize; 3] {
    match (large, c.flat) {
        (false, _) => SMALL,
        (true, false) => LARGE,
        _ => FLAT,
    }
}

/// Three sizes of a module.
type Text = [String; 3];

fn text(c: &Case, sizes: [usize; 3]) -> Text {
    sizes.map(|n| format!("{USES}\n{}", write(c, n)))
}

/// The lengths of the modules after expansion, in characters that are no space.
fn lengths(rc: &Rustc, ts: &[&Text], secs: u32) -> Result<Vec<[usize; 3]>, String> {
    let mut s = format!("#![recursion_limit = \"4096\"]\n{}", prelude(&CTX));
    for (i, t) in ts.iter().enumerate() {
        for (j, m) in t.iter().enumerate() {
            s.push_str(&format!("pub mod m{i}_{j} {{\n{m}}}\n"));
        }
    }
    let r = rc.check_within(&CTX, &s, secs, true);
    if r.hung || r.died {
        return Err("it takes the compiler too long, or too much memory".into());
    }
    if !r.ok {
        return Err(r.errors.first().map_or(String::new(), |e| e.text.clone()));
    }
    let mut at = None;
    let mut out = vec![[0usize; 3]; ts.len()];
    for l in String::from_utf8_lossy(&r.out).lines() {
        if let Some(l) = l.strip_prefix("pub mod m") {
            let mut p = l.trim_end_matches(" {").split('_').map(|n| n.parse::<usize>().unwrap_or(usize::MAX));
            at = Some((p.next().unwrap(), p.next().unwrap_or(usize::MAX)));
        }
        if let Some((i, j)) = at {
            out[i][j] += l.chars().filter(|c| !c.is_whitespace()).count();
        }
    }
    Ok(out)
}

fn judge(n: [usize; 3], l: &[usize; 3]) -> Option<String> {
    let (a, b) = (l[1].saturating_sub(l[0]), l[2].saturating_sub(l[1]));
    let most = if n == SMALL { 3 * a + 400 } else { a * 5 / 2 + 200 };
    (b > most).then(|| format!("written {}, {} and {} times, the code after expansion has {}, {} and {} characters", n[0], n[1], n[2], l[0], l[1], l[2]))
}

fn single(rc: &Rustc, t: &Text, n: [usize; 3]) -> Option<String> {
    match lengths(rc, &[t], 20) {
        Ok(l) => judge(n, &l[0]),
        Err(e) if e.starts_with("it takes") => Some(e),
        Err(_) => None, // correct templates that are rejected are others' business
    }
}

fn whole(rc: &Rustc, c: &Case) -> Option<(String, Text, [usize; 3])> {
    for large in [false, true] {
        let n = sizes(c, large);
        let t = text(c, n);
        if let Some(m) = single(rc, &t, n) {
            return Some((m, t, n));
        }
    }
    None
}

fn chunk(rc: &Rustc, cs: &[Case]) -> Vec<(usize, String)> {
    let mut fails = vec![];
    let mut left: Vec<usize> = (0..cs.len()).collect();
    for large in [false, true] {
        let ns: Vec<[usize; 3]> = left.iter().map(|i| sizes(&cs[*i], large)).collect();
        let ts: Vec<Text> = left.iter().zip(&ns).map(|(i, n)| text(&cs[*i], *n)).collect();
        match lengths(rc, &ts.iter().collect::<Vec<_>>(), 90) {
            Ok(l) => {
                for (k, i) in left.iter().enumerate() {
                    if let Some(m) = judge(ns[k], &l[k]) {
                        fails.push((*i, m));
                    }
                }
            }
            Err(e) => {
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("  not expanded together: {e}");
                }
                for (k, i) in left.iter().enumerate() {
                    if let Some(m) = single(rc, &ts[k], ns[k]) {
                        fails.push((*i, m));
                        break;
                    }
                }
            }
        }
        left.retain(|i| !fails.iter().any(|f| f.0 == *i));
    }
    fails
}

pub fn run(env: &RunEnv) -> Part {
    let rc = Rustc::new(&env.work);
    sanity(&rc);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let r = &rec["replay"];
        let t: Vec<String> =
            r["modules"].as_array().unwrap().iter().map(|m| m.as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect()).collect();
        let n: Vec<usize> = r["times"].as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect();
        part.evaluations = 1;
        part.distinct = 1;
        if let Some(m) = single(&rc, &t.try_into().unwrap(), n.try_into().unwrap()) {
            part.violation = Some((r.clone(), m));
        }
        return part;
    }
    let n = env.n(1000, 30000);
    let per = 25;
    let nchunks = (n + per - 1) / per;
    let gen = |i: u64| case(i).new_tree(&mut case_runner(env.seed, "grow", i)).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(n)).collect();
                    let cs: Vec<Case> = ids.iter().map(|i| gen(*i).current()).collect();
                    let fails = chunk(&rc, &cs);
                    let mut sh = shared.lock().unwrap();
                    for c in &cs {
                        sh.0.evaluations += 1;
                        *sh.0.classes.entry(kind(c).to_string()).or_insert(0) += 1;
                        sh.2.insert(write(c, 2));
                    }
                    for (i, m) in fails {
                        stop.store(1, SeqCst);
                        sh.1.push((ids[i], m));
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, seen) = shared.into_inner().unwrap();
    part = p;
    part.distinct = seen.len() as u64;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} grow: {} in {:.2}s, {} rustc runs", env.label, n, t0.elapsed().as_secs_f64(), rc.compiled.load(SeqCst));
    }
    let lines = |t: &Text| t.iter().map(|m| m.lines().map(String::from).collect::<Vec<_>>()).collect::<Vec<_>>();
    let record = |i: u64, t: &Text, n: [usize; 3]| json!({"stream": "grow", "index": i, "modules": lines(t), "times": n});
    fails.sort();
    if let Some((i, _)) = fails.first().cloned() {
        let mut tree = gen(i);
        let mut best = whole(&rc, &tree.current());
        let end = Instant::now() + Duration::from_secs(45);
        let mut last = String::new();
        'out: while best.is_some() && tree.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let c = tree.current();
                let s = write(&c, 2);
                let r = if s == last { None } else { whole(&rc, &c) };
                last = s;
                if r.is_some() {
                    best = r;
                    break;
                }
                if !tree.complicate() {
                    break 'out;
                }
            }
        }
        if let Some((m, t, n)) = best {
            let rec = record(i, &t, n);
            part.samples.push(rec.clone());
            eprintln!("C28: case {i}: {m}\n{}", t[0]);
            part.violation = Some((rec, format!("{m}\n{}", t[0])));
        }
    }
    for k in 0..10 {
        part.samples.push(record(k, &text(&gen(k).current(), [1, 2, 3]), [1, 2, 3]));
    }
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}
