//! C32: what the macros expand to gives the compiler nothing to warn of.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, Env as RunEnv, Obs, Part};

/// What is on in the user's crate, besides what is on by default.
const LINTS: &str = "unused, nonstandard_style, unsafe_code, missing_docs, trivial_casts, trivial_numeric_casts, rust_2018_idioms";

#[derive(Clone, Debug)]
struct Param {
    ty: u8,
    mark: u8,
    mutable: bool,
    name: u8,
    unused: u8,
}

#[derive(Clone, Debug)]
struct Comp {
    params: Vec<Param>,
    /// Which of the parameters is the rest, if any.
    rest: Option<u8>,
    upper: bool,
    vis: u8,
    attr: u8,
    ret: u8,
    generic: u8,
    /// Of each call, the order and what is left out.
    calls: Vec<(Vec<u8>, u64, u8)>,
}

#[derive(Clone, Debug)]
struct Case {
    ex: Ex,
    comps: Vec<Comp>,
    place: u8,
    how: u8,
}

fn cfg() -> Cfg {
    Cfg {
        // no parentheses or braces without need
        wraps: vec![W::Let, W::Hoist, W::Func, W::Closure, W::Some, W::IterOne, W::Id, W::FragOne, W::Stmts],
        iter_map: true,
        matches: true,
        lits: false,
        lit_names: false,
        leaf_kinds: (0..LEAVES).filter(|k| ![CELL, EFFECT, 8, 9].contains(k)).collect(),
        ..Cfg::default()
    }
}


/// Without what is itself warned of.
fn clean(e: &mut Ex) {
    e.walk(&mut |e| match e {
        Ex::Lit(_, w) => *w = 0,
        Ex::El { items, .. } => {
            for i in items {
                match i {
                    Item::Attr(n, _) => name(n),
                    Item::Bool(n, c, _) => {
                        name(n);
                        match c {
                            BoolCond::Const(_, w) => *w = 0,
                            BoolCond::Dyn(c) => cond(c),
                        }
                    }
                    _ => {}
                }
            }
        }
        Ex::If { arms, .. } => arms.iter_mut().for_each(|a| cond(&mut a.0)),
        Ex::Match { arms, .. } => arms.iter_mut().for_each(|a| {
            if let Some(c) = &mut a.1 {
                cond(c)
            }
        }),
        _ => {}
    })
}

fn name(n: &mut Name) {
    match n {
        Name::Lit(_, w) => *w = 0,
        Name::Dyn { kind, .. } if matches!(*kind % NAMES, 1 | 2) => *kind = 0,
        _ => {}
    }
}

fn cond(c: &mut Cond) {
    if c.kind < COND_PLAIN && matches!(c.kind, 10 | 22) {
        c.kind = 0
    }
}

const ATTRS: [&str; 8] = [
    "", "#[inline]\n", "#[must_use]\n", "#[inline(always)]\n", "#[allow(unused_variables, unused_mut)]\n", "#[allow(unused)]\n",
    "#[inline(never)]\n#[must_use = \"to be rendered\"]\n", "#[allow(unused_variables)]\n",
];
const PARAMS: [(&str, &str); 12] = [
    ("title", "title"), ("class", "class"), ("r#type", "type"), ("n", "n"), ("items", "items"), ("x", "x"),
    ("children", "children"), ("value", "value"), ("style", "style"), ("key", "key"), ("r#for", "for"), ("data_x", "data_x"),
];
/// Type, argument, default, what is done if it is mutable, and how it is used.
const TYPES: [(&str, &str, &str, &str, &str); 10] = [
    ("impl Render", "p!(\"x\", v.i[0])", "\"<\"", "", "@"),
    ("u32", "3", "1 + 2", "@ += 1;", "@"),
    ("&str", "v.s[0].as_str()", "\"d\"", "", "@"),
    ("String", "v.s[1].clone()", "String::from(\"d\")", "@.push('!');", "@"),
    ("Option<u32>", "Some(4)", "Some(2)", "@ = @.map(|t| t * 2);", "@"),
    ("impl Fn(u32) -> String", "|t| t.to_string()", "|t| (t + 1).to_string()", "", "@(3)"),
    ("bool", "v.b[0]", "true", "", "span!(hidden = bool!(@))"),
    ("[u32; 2]", "[1, 2]", "[0; 2]", "@[0] += 1;", "iter!(@)"),
    ("&[String]", "&v.l[0]", "&[]", "", "@.len()"),
    ("Vec<i64>", "v.i.clone()", "vec![1]", "@.push(1);", "iter!(\", \", @)"),
];

/// Generics, a parameter that they are about, a clause, how it is used, and an argument.
const GENERICS: [(&str, &str, &str, &str, &str); 10] = [
    ("", "", "", "", ""),
    ("", "", "", "", ""),
    ("", "", "", "", ""),
    ("", "", "", "", ""),
    ("<L: Into<String>>", "given: L, ", "", "given.into()", "\"g\""),
    ("<L>", "given: L, ", "where L: Into<String> ", "given.into()", "\"g\""),
    ("<'a>", "given: &'a str, ", "", "{ let g: &'a str = given; g.len() }", "v.s[0].as_str()"),
    ("<const N: usize>", "given: [u32; N], ", "", "(given.len() + N)", "[1, 2, 3]"),
    ("<F, R>", "given: F, ", "where F: FnOnce(u8) -> R, R: std::fmt::Display ", "given(2).to_string()", "|x| x + 1"),
    ("", "given: (impl Render, u8), ", "", "given.1, given.0", "(br!(), 1)"),
];

/// The declaration of a component and calls of it.
fn component(c: &Comp, at: usize) -> (String, Vec<String>) {
    let mut ps: Vec<(&str, usize, &Param)> = vec![];
    for p in &c.params {
        let n = PARAMS[p.name as usize % PARAMS.len()].0;
        if ps.iter().all(|q| q.0 != n) {
            ps.push((n, p.ty as usize % TYPES.len(), p));
        }
    }
    let rest = c.rest.filter(|_| !ps.is_empty()).map(|r| r as usize % ps.len());
    if let Some(r) = rest {
        ps[r].1 = 0;
    }
    let refs = ps.iter().any(|p| TYPES[p.1].0.starts_with('&')) || GENERICS[c.generic as usize % GENERICS.len()].2.contains("'a");
    let mut d = String::new();
    // a name against convention is allowed where it is given
    d.push_str(match (c.upper, c.attr / 64 % 2) {
        (false, _) => "/// A component.\n#[laby]\n",
        (true, 0) => "/// A component.\n#[laby]\n#[allow(non_snake_case)]\n",
        _ => "#[allow(non_snake_case)]\n#[laby]\n/// A component.\n",
    });
    d.push_str(ATTRS[c.attr as usize % ATTRS.len()]);
    let lax = ATTRS[c.attr as usize % ATTRS.len()].contains("unused");
    let name = match c.upper {
        true => format!("Widget{at}"),
        false => format!("widget{at}"),
    };
    // one that is for others need not be called
    let vis = if c.calls.is_empty() { "pub " } else { ["pub ", "pub(crate) ", ""][c.vis as usize % 3] };
    let (generics, param, clause, used, arg) = GENERICS[c.generic as usize % GENERICS.len()];
    write!(d, "{vis}fn {name}{generics}({param}").unwrap();
    let mut before = String::new();
    let mut uses = vec![];
    if !used.is_empty() {
        uses.push(used.into());
    }
    for (i, (n, t, p)) in ps.iter().enumerate() {
        let (ty, _, default, change, used) = TYPES[*t];
        // what is not used is allowed not to be, by the function or here
        let unused = p.unused % 4 == 0;
        let allow = if !unused { "" } else if !lax { "#[allow(unused_variables)] " } else { ["", "#[allow(unused)] "][p.unused as usize / 4 % 2] };
        let first = p.unused / 8 % 2 == 0;
        d.push_str(if first { allow } else { "" });
        if rest == Some(i) {
            d.push_str("#[rest] ");
        } else {
            match p.mark % 4 {
                1 => write!(d, "#[default({default})] ").unwrap(),
                2 if !ty.starts_with("impl") => d.push_str("#[default] "),
                _ => {}
            }
        }
        d.push_str(if first { "" } else { allow });
        if p.mutable && !change.is_empty() && !unused {
            d.push_str("mut ");
            write!(before, "    {}\n", change.replace('@', n)).unwrap();
        }
        write!(d, "{n}: {ty}, ").unwrap();
        if !unused {
            uses.push(used.replace('@', n));
        }
    }
    let frag = format!("frag!({})", uses.join(", "));
    let (ret, value) = match c.ret % 3 {
        0 if !refs => ("impl Render", frag),
        1 => ("Option<String>", format!("Some(render!({frag}))")),
        _ => ("String", format!("render!({frag})")),
    };
    write!(d, ") -> {ret} {clause}{{\n{before}    {value}\n}}\n").unwrap();
    let mut calls = vec![];
    for (order, leave, form) in &c.calls {
        if form % 4 == 3 {
            // as the function that it is
            let mut args: Vec<String> = if arg.is_empty() { vec![] } else { vec![arg.into()] };
            args.extend(ps.iter().map(|p| TYPES[p.1].1.to_string()));
            calls.push(format!("{name}({})", args.join(", ")));
            continue;
        }
        let mut args: Vec<(u8, String)> = vec![];
        if !arg.is_empty() {
            args.push((order.get(8).copied().unwrap_or(100), format!("given = {arg}")));
        }
        for (i, (n, t, p)) in ps.iter().enumerate() {
            let o = order.get(i).copied().unwrap_or(i as u8);
            if rest == Some(i) {
                for k in 0..leave >> 60 & 3 {
                    args.push((order.get(i + k as usize).copied().unwrap_or(9), ["v.i[1]", "\"text\"", "p!(1)"][k as usize % 3].into()));
                }
            } else if (p.mark % 4 == 0 || p.mark % 4 == 3 || p.mark % 4 == 2 && TYPES[*t].0.starts_with("impl")) || leave >> i & 1 == 0 {
                args.push((o, format!("{n} = {}", TYPES[*t].1)));
            }
        }
        args.sort_by_key(|a| a.0);
        let args = args.into_iter().map(|a| a.1).collect::<Vec<_>>().join(", ");
        let call = match form / 4 % 3 {
            0 => format!("{name}!({args})"),
            1 => format!("{name}![{args}]"),
            _ => format!("{name}! {{ {args} }}"),
        };
        calls.push(if form / 12 % 2 == 0 { call } else { format!("div!(class = {call}, {call})") });
    }
    (d, calls)
}

fn comp() -> BoxedStrategy<Comp> {
    let param = (any::<u8>(), any::<u8>(), any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(ty, mark, mutable, name, unused)| Param { ty, mark, mutable, name, unused: unused.wrapping_add(1) });
    let call = (prop::collection::vec(any::<u8>(), 0..9), any::<u64>(), any::<u8>());
    (prop::collection::vec(param, 0..7), prop::option::of(any::<u8>()), any::<bool>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), prop::collection::vec(call, 0..4))
        .prop_map(|(params, rest, upper, vis, attr, ret, generic, calls)| Comp { params, rest, upper, vis, attr, ret, generic, calls })
        .boxed()
}

fn case() -> BoxedStrategy<Case> {
    (gen::root(&cfg()), prop::collection::vec(comp(), 0..3), 0u8..PLACES, any::<u8>())
        .prop_map(|(mut ex, comps, place, how)| {
            clean(&mut ex);
            Case { ex, comps, place, how }
        })
        .boxed()
}

const PLACES: u8 = 9;
fn build(c: &Case, obs: &mut Obs) -> String {
    let mut em = Em::new();
    let e = em.ex(&c.ex);
    let st = em.take_stmts();
    let n = c.ex.count(&mut |e| match e {
        Ex::El { .. } => 1,
        Ex::If { .. } | Ex::Match { .. } => 2,
        _ => 0,
    });
    c.ex.count(&mut |e| {
        match e {
            Ex::If { .. } | Ex::Match { .. } => obs.class("branches"),
            Ex::IterMap { .. } => obs.class("nodes in iterators"),
            _ => {}
        }
        0
    });
    obs.class_if(!c.comps.is_empty(), "components declared");
    obs.nontrivial = n + c.comps.len() >= 2;
    let mut decls = String::new();
    let mut calls = String::new();
    for (i, k) in c.comps.iter().enumerate() {
        let (d, cs) = component(k, i);
        decls.push_str(&d);
        for k in cs {
            write!(calls, "    out.push(render!({k}));\n").unwrap();
        }
    }
    let how = match c.how % 3 {
        0 => format!("out.push(render!({e}));"),
        1 => format!("let mut b = laby::internal::Buffer::new(); Render::render({e}, &mut b); out.push(b.into_string());"),
        _ => format!("out.push(render!({e}, br!()));"),
    };
    let body = match c.place % PLACES {
        0 | 1 => format!("{st}{how}"),
        2 => format!("let f = |v: &h::V, out: &mut h::Out| {{ {st}{how} }};\nf(v, out);"),
        3 => format!("struct T;\nimpl T {{ fn show(&self, v: &h::V, out: &mut h::Out) {{ {st}{how} }} }}\nT.show(v, out);"),
        4 => format!("fn show<'a, T: Copy>(t: T, v: &'a h::V, out: &mut h::Out) -> T {{ {st}{how} t }}\nlet _ = show(1, v, out);"),
        5 => format!("trait T {{ fn show(&self, v: &h::V, out: &mut h::Out) {{ {st}{how} }} }}\nimpl T for u8 {{}}\n1u8.show(v, out);"),
        6 => format!("for i in 0..v.i.len() {{ if i == 1 {{ {st}{how} }} }}"),
        7 => format!("async fn show(v: &h::V, out: &mut h::Out) {{ {st}{how} }}\nlet _ = show(v, out);"),
        _ => format!("mod inner {{ use super::*; pub(super) fn show(v: &h::V, out: &mut h::Out) {{ {st}{how} }} }}\ninner::show(v, out);"),
    };
    format!("//! Templates.\n#![warn({LINTS})]\n{USES}\n{}\n{decls}\n/// Renders.\npub fn run(v: &h::V, out: &mut h::Out) {{\n{body}\n    out.push(render!(br!()));\n{calls}}}\n", em.items)
}

/// Of each module, what there is to warn of in it.
fn warned(rc: &Rustc, ms: &[&str], secs: u32) -> Vec<Option<String>> {
    let mut text = prelude(&CTX);
    let mut line = text.lines().count() + 1;
    let mut first = vec![];
    for (i, m) in ms.iter().enumerate() {
        let t = format!("pub mod m{i} {{\n{m}}}\n");
        first.push(line);
        line += t.matches('\n').count();
        text.push_str(&t);
    }
    first.push(line);
    let lines: Vec<&str> = text.lines().collect();
    let snippet = |s: &Span| -> String {
        let l = |k: u32| lines.get(k as usize - 1).copied().unwrap_or("");
        if s.line == s.end_line {
            l(s.line).chars().skip(s.col as usize - 1).take((s.end_col - s.col) as usize).collect()
        } else {
            (s.line..=s.end_line).map(l).collect::<Vec<_>>().join("\n")
        }
    };
    let r = rc.check_within(&Ctx { lints: true, ..CTX }, &text, secs, false);
    let mut out = vec![None; ms.len()];
    for w in r.warnings.iter().chain(&r.errors) {
        // names and patterns of the user's own
        let own = match w.code.as_str() {
            "unreachable_patterns" | "overlapping_range_endpoints" => w.spans.iter().all(|s| !snippet(s).contains('!')),
            "unused_variables" => w.spans.iter().all(|s| {
                let s = snippet(s);
                s == "v" || ["it", "x"].iter().any(|p| s.strip_prefix(p).is_some_and(|r| r.parse::<u32>().is_ok()))
            }),
            _ => false,
        };
        if own || w.spans.is_empty() {
            continue;
        }
        for (i, o) in out.iter_mut().enumerate() {
            if o.is_none() && w.lines.iter().any(|l| (first[i]..first[i + 1]).contains(l)) {
                *o = Some(format!("the compiler warns of correct code ({}): {}", w.code, w.text));
            }
        }
    }
    out
}


fn single(rc: &Rustc, t: &str) -> Option<String> {
    warned(rc, &[t], 60).pop().unwrap()
}

/// A branch that does not return.
const DIVERGING: &str = "//! Templates.\n#![warn(unused)]\nuse laby::*;\n/// Renders.\npub fn run(n: Option<u8>) -> String {\n    render!(frag_match!(match n {\n        Some(n) => n,\n        None => return String::new(),\n    }))\n}\n";

const KNOWN: &str = "a branch of frag_match! that does not return, such as `None => return x`, raises the warning unreachable_code (unreachable call)";

pub fn run(env: &RunEnv) -> Part {
    let rc = Rustc::new(&env.work);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let text = rec["replay"]["module"].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect::<String>();
        part.evaluations = 1;
        part.distinct = 1;
        if let Some(m) = single(&rc, &text) {
            part.violation = Some((rec["replay"].clone(), m));
        }
        return part;
    }
    match single(&rc, DIVERGING) {
        Some(m) if m.contains("(unreachable_code): warning: unreachable call") => drop(part.extra.insert("known_findings".into(), json!([KNOWN]))),
        Some(m) => {
            let rec = json!({"stream": "example", "module": DIVERGING.lines().collect::<Vec<_>>()});
            part.violation = Some((rec, format!("{m}\n{DIVERGING}")));
            return part;
        }
        None => {}
    }
    let known = part.extra;
    let n = env.n(2400, 30000);
    let per = 50;
    let nchunks = (n + per - 1) / per;
    let gen = |i: u64| case().new_tree(&mut case_runner(env.seed, "warnings", i)).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(n)).collect();
                    let all: Vec<(String, Obs)> = ids
                        .iter()
                        .map(|i| {
                            let mut obs = Obs::default();
                            (build(&gen(*i).current(), &mut obs), obs)
                        })
                        .collect();
                    let ms: Vec<&str> = all.iter().map(|x| &x.0[..]).collect();
                    let mut bad = None;
                    for (j, w) in warned(&rc, &ms, 200).into_iter().enumerate() {
                        if w.is_some() && bad.is_none() {
                            // on its own
                            bad = single(&rc, ms[j]).map(|m| (ids[j], m));
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    for (t, obs) in &all {
                        sh.0.evaluations += 1;
                        for (c, n) in &obs.classes {
                            *sh.0.classes.entry(c.to_string()).or_insert(0) += n;
                        }
                        if obs.nontrivial && sh.2.insert(t.clone()) {
                            sh.0.distinct += 1;
                        }
                    }
                    if let Some(b) = bad {
                        stop.store(1, SeqCst);
                        sh.1.push(b);
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, _) = shared.into_inner().unwrap();
    part = p;
    part.extra = known;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} warnings: {} in {:.2}s, {} rustc runs", env.label, n, t0.elapsed().as_secs_f64(), rc.compiled.load(SeqCst));
    }
    let record = |i: u64, t: &str| json!({"stream": "warnings", "index": i, "module": t.lines().collect::<Vec<_>>()});
    fails.sort();
    if let Some((i, first)) = fails.first().cloned() {
        let mut tree = gen(i);
        let (mut best, mut msg) = (build(&tree.current(), &mut Obs::default()), first);
        let end = Instant::now() + Duration::from_secs(40);
        let mut last = best.clone();
        'out: while tree.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let mut c = tree.current();
                clean(&mut c.ex);
                let t = build(&c, &mut Obs::default());
                let r = if t == last { None } else { single(&rc, &t) };
                last = t.clone();
                match r {
                    Some(m) => {
                        best = t;
                        msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            break 'out;
                        }
                    }
                }
            }
        }
        let rec = record(i, &best);
        part.samples.push(rec.clone());
        eprintln!("C32: case {i}: {msg}\n{best}");
        part.violation = Some((rec, format!("{msg}\n{best}")));
    }
    for k in 0..8 {
        part.samples.push(record(k, &build(&gen(k).current(), &mut Obs::default())));
    }
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}
