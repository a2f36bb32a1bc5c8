//! C30: what is written in a template keeps its place in the source.
use crate::engine::*;
use crate::vals::Vals;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcore::driver::{case_runner, Env as RunEnv, Obs, Part};

/// An expression of a template, written over several lines.
#[derive(Clone, Debug)]
pub enum T {
    /// An expression that knows where it is.
    Hole(u8),
    Lit(u8),
    El { tag: u8, delim: u8, attrs: Vec<(u8, T)>, kids: Vec<T> },
    Comp { x: Box<T>, kids: Vec<T>, form: u8 },
    If { arms: Vec<T>, taken: u8, last: bool },
    Match { arms: Vec<T>, taken: u8 },
    Wrap(u8, Box<T>),
}

#[derive(Clone, Debug)]
pub struct Case {
    tree: T,
    space: Vec<u8>,
    end: u8,
    edition: u8,
    pick: u16,
    wrong: u8,
}

const HOLES: u8 = 8;
const WRAPS: u8 = 16;
const TAGS: [&str; 12] = ["div", "p", "frag", "classes", "laby::ul", "::laby::section", "a", "b", "table", "title", "i", "laby::frag"];

fn tree() -> BoxedStrategy<T> {
    let leaf = prop_oneof![4 => (0..HOLES).prop_map(T::Hole), 1 => (0u8..6).prop_map(T::Lit)];
    leaf.prop_recursive(4, 20, 4, |t| {
        let b = || t.clone().prop_map(Box::new);
        let many = |n: std::ops::Range<usize>| prop::collection::vec(t.clone(), n);
        prop_oneof![
            4 => (0u8..TAGS.len() as u8, 0u8..3, prop::collection::vec((0u8..7, t.clone()), 0..3), many(0..4))
                .prop_map(|(tag, delim, attrs, kids)| T::El { tag, delim, attrs, kids }),
            2 => (b(), many(0..3), 0u8..4).prop_map(|(x, kids, form)| T::Comp { x, kids, form }),
            1 => (many(1..4), 0u8..4, any::<bool>()).prop_map(|(arms, taken, last)| T::If { arms, taken, last }),
            1 => (many(1..4), 0u8..4).prop_map(|(arms, taken)| T::Match { arms, taken }),
            2 => (0..WRAPS, b()).prop_map(|(k, t)| T::Wrap(k, t)),
        ]
    })
    .boxed()
}

pub fn case() -> BoxedStrategy<Case> {
    (tree(), prop::collection::vec(any::<u8>(), 1..40), 0u8..3, 0u8..3, any::<u16>(), 0..WRONG.len() as u8)
        .prop_map(|(tree, space, end, edition, pick, wrong)| Case { tree, space, end, edition, pick, wrong })
        .boxed()
}

const ITEMS: &str = "#[laby] fn c_(x: impl Render, #[default(\"d\")] y: impl Render, #[rest] c: impl Render) -> impl Render { p!(x, y, c) }
#[laby] fn d_(x: impl Render) -> impl Render { p!(x) }
#[laby] fn list_(#[rest] c: impl Render) -> impl Render { p!(\"[\", c, \"]\") }
macro_rules! w_ { ($e:expr) => { div!(class = \"w\", $e) } }
macro_rules! t_ { ($($t:tt)*) => { p!($($t)*) } }
macro_rules! m_ { ($e:expr) => { frag_match!(match 0 { _ => $e }) } }
macro_rules! n_ { ($n:expr) => { c_!(x = \"n\", y = $n) } }
";

/// Text as written, with the places in it.
struct W<'a> {
    s: String,
    line: u32,
    col: u32,
    space: &'a [u8],
    spaces: usize,
    k: u32,
    places: Vec<(u32, u32, u32)>,
    /// Place of the hole to be wrong, and what is there.
    wrong: Option<(u32, &'static str)>,
    range: Option<(u32, u32, u32, u32)>,
    dead: u32,
}

impl W<'_> {
    fn put(&mut self, t: &str) {
        for c in t.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
        self.s.push_str(t);
    }
    fn gap(&mut self) {
        let k = self.space[self.spaces % self.space.len()];
        self.spaces += 1;
        self.put(match k % 12 {
            0..=3 => "",
            4 | 5 => " ",
            6 | 7 => "\n",
            8 => "\n        ",
            9 => " /* \u{e9}< */ ",
            10 => "\n\n  ",
            _ => " // there\n ",
        })
    }
    /// A token that is in its place now.
    fn here(&mut self, k: u32) {
        if self.dead == 0 {
            self.places.push((k, self.line, self.col));
        }
    }
    fn hole(&mut self, kind: u8) {
        self.k += 1;
        let k = self.k;
        if let Some((n, wrong)) = self.wrong {
            if n == k {
                let (l, c) = (self.line, self.col);
                self.put(wrong);
                self.range = Some((l, c, self.line, self.col));
            } else {
                self.put("1u8");
            }
            return;
        }
        match kind % HOLES {
            0 => {
                self.here(k);
                self.put(&format!("h::at({k})"))
            }
            1 => {
                self.put(&format!("h::A({k})"));
                self.gap();
                self.put(".");
                self.here(k);
                self.put("at()")
            }
            2 => {
                self.put(&format!("h::place({k}, "));
                let (l, c) = (self.line, self.col);
                self.put("line!(), ");
                if self.dead == 0 {
                    self.places.push((k, l, self.col));
                }
                let _ = c;
                self.put("column!())")
            }
            3 => {
                self.put("(|| ");
                self.gap();
                self.here(k);
                self.put(&format!("h::at({k}))()"))
            }
            4 => {
                self.put("h::id(");
                self.gap();
                self.here(k);
                self.put(&format!("h::at({k}))"))
            }
            5 => {
                self.put(&format!("h::caught({k}, || {{"));
                self.gap();
                self.here(k);
                self.put("panic!(\"x\") })")
            }
            6 => {
                self.put(&format!("h::caught({k}, || drop(None::<u8>."));
                self.here(k);
                self.put("unwrap()))")
            }
            _ => {
                self.put("{ let t =");
                self.gap();
                self.put(" ");
                self.here(k);
                self.put(&format!("h::at({k}); t }}"))
            }
        }
    }
    fn call(&mut self, name: &str, delim: u8, f: impl FnOnce(&mut Self)) {
        let (a, z) = [("!(", ")"), ("![", "]"), ("! {", "}")][delim as usize % 3];
        self.put(name);
        self.put(a);
        self.gap();
        f(self);
        self.gap();
        self.put(z);
    }
    fn list(&mut self, first: bool, ts: &[T]) {
        for (i, t) in ts.iter().enumerate() {
            if i > 0 || first {
                self.put(",");
                self.gap();
            }
            self.t(t);
        }
    }
    fn branch(&mut self, alive: bool, t: &T) {
        if !alive {
            self.dead += 1;
        }
        self.t(t);
        if !alive {
            self.dead -= 1;
        }
    }
    fn t(&mut self, t: &T) {
        match t {
            T::Hole(k) => self.hole(*k),
            T::Lit(k) => self.put(["\"a\u{e9}<\"", "1", "'\"'", "true", "1.5", "\"two\nlines\""][*k as usize]),
            T::El { tag, delim, attrs, kids } => {
                let name = TAGS[*tag as usize];
                let list = name.ends_with("frag") || name == "classes";
                self.call(name, *delim, |w| {
                    let mut any = false;
                    for (k, x) in attrs.iter().filter(|_| !list) {
                        if any {
                            w.put(",");
                            w.gap();
                        }
                        any = true;
                        match k {
                            0 => w.put("class"),
                            1 => w.put("\"data-x\""),
                            2 => w.hole(0),
                            3 => w.put("r#type"),
                            4 => w.hole(7),
                            _ => w.put("id"),
                        }
                        w.gap();
                        w.put("=");
                        w.gap();
                        match (k, x) {
                            (5 | 6, T::Hole(n)) => {
                                w.put("bool!(");
                                w.gap();
                                if w.wrong.is_none() {
                                    // also at the top of the condition, where its tokens are in no group
                                    let (a, z) = [("h::yes(", ")"), ("", " == 1"), ("1 == ", ""), ("true && ", " > 0"), ("h::yes(", ")")][w.k as usize % 5];
                                    w.put(a);
                                    w.hole(*n);
                                    w.put(z);
                                } else {
                                    w.put("true");
                                }
                                w.put(")");
                            }
                            _ => w.t(x),
                        }
                    }
                    w.list(any, kids);
                })
            }
            T::Comp { x, kids, form } => match form {
                0 => self.call("c_", 0, |w| {
                    w.put("x =");
                    w.gap();
                    w.t(x);
                    w.list(true, kids)
                }),
                1 => self.call("c_", 1, |w| {
                    w.list(false, kids);
                    w.put(if kids.is_empty() { "y = 1, x = " } else { ", y = 1, x = " });
                    w.t(x)
                }),
                2 => self.call("list_", 2, |w| {
                    w.t(x);
                    w.list(true, kids)
                }),
                _ => self.call("d_", 0, |w| {
                    w.put("x = ");
                    w.gap();
                    w.t(x)
                }),
            },
            T::If { arms, taken, last } => {
                let n = arms.len() as u8;
                let taken = taken % n;
                self.call("frag_match", 0, |w| {
                    for (i, a) in arms.iter().enumerate() {
                        let i = i as u8;
                        if i > 0 {
                            w.put(" else ");
                        }
                        if i == 0 || i + 1 < n || !last {
                            w.put(if i == taken { "if h::id(true) {" } else { "if h::id(false) {" });
                        } else {
                            w.put("{");
                        }
                        w.gap();
                        w.branch(i == taken, a);
                        w.gap();
                        w.put("}");
                    }
                })
            }
            T::Match { arms, taken } => {
                let n = arms.len();
                let taken = *taken as usize % n;
                self.call("frag_match", 2, |w| {
                    w.put(&format!("match h::id({taken}) {{"));
                    for (i, a) in arms.iter().enumerate() {
                        w.gap();
                        w.put(&if i + 1 == n { "_ => ".to_string() } else { format!("{i} => ") });
                        w.branch(i == taken, a);
                        w.put(",");
                    }
                    w.put("}");
                })
            }
            T::Wrap(k, t) => {
                let (a, z) = [
                    ("((0, ", ").1)"),
                    ("{ let t = ", "; t }"),
                    ("Some(", ")"),
                    ("iter!([", "])"),
                    ("iter!(\", \", [", ", h::none()])"),
                    ("iter!((0..1).map(|_| ", "))"),
                    ("iter_lines!([", "])"),
                    ("render!(", ")"),
                    ("render!(", ", \"z\")"),
                    ("raw!(h::text(\"r\")), (", ")"),
                    ("w_!(", ")"),
                    ("t_!(\"t\", ", ")"),
                    ("m_!(", ")"),
                    ("n_!(", ")"),
                    ("h::id_mac!(", ")"),
                    ("(|| ", ")()"),
                ][*k as usize];
                // items of one type
                let (a, z) = match *k {
                    4 => ("iter!(\", \", [", "])"),
                    9 => ("{ ", " }"),
                    _ => (a, z),
                };
                self.put(a);
                self.gap();
                self.t(t);
                self.gap();
                self.put(z);
            }
        }
    }
}

fn writer(c: &Case) -> W<'_> {
    W { s: String::new(), line: 0, col: 1, space: &c.space, spaces: 0, k: 0, places: vec![], wrong: None, range: None, dead: 0 }
}

fn body(c: &Case, w: &mut W) {
    w.put("h::base(line!());\n");
    match c.end {
        0 => {
            w.put("let node = ");
            w.gap();
            w.t(&c.tree);
            w.put(";\nlet _ = render!(node);\n");
        }
        1 => {
            w.put("let _ = render!(");
            w.gap();
            w.t(&c.tree);
            w.gap();
            w.put(");\n");
        }
        _ => {
            w.put("let f = || ");
            w.gap();
            w.t(&c.tree);
            w.put(";\nlet _ = render!(\"a\", f(), \"b\");\n");
        }
    }
    w.put("out.push(h::places());");
}

fn build(c: &Case, obs: &mut Obs) -> Job {
    let mut w = writer(c);
    body(c, &mut w);
    w.places.sort();
    obs.nontrivial = !w.places.is_empty();
    obs.class_if(w.places.len() > 3, "more than three places");
    obs.class_if(w.places.iter().any(|p| p.1 > 4), "over several lines");
    let want = w.places.iter().map(|(k, l, c)| format!("{k}:{l}:{c}")).collect::<Vec<_>>().join(" ");
    Job {
        ctx: Ctx { edition: ["2018", "2021", "2024"][c.edition as usize], ..CTX },
        lib: String::new(),
        items: ITEMS.into(),
        body: w.s,
        vals: vec![Vals::default()],
        exps: vec![vec![Exp::Eq(want)]],
        uses: USES,
        alt: None,
    }
}

pub fn streams(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![prog("places", env.n(3000, 40000), 75, |_| case(), build)]
}

/// What does not compile, by the phase of the compiler that finds it.
const WRONG: [(u8, &str); 21] = [
    (0, "h::id(nope_)"),
    (0, "h::nope_(1)"),
    (0, "(\"a\".len() + nope_)"),
    (0, "{ let t = nope_; t }"),
    (0, "div!(\n  \"a\",\n  id = nope_)"),
    (1, "(1u8 +\n \"a\")"),
    (1, "\"a\".nope_()"),
    (1, "{ let t: u8 = \"a\"; t }"),
    (1, "h::text(1)"),
    (1, "span!(h::text('a'))"),
    (2, "br!(\"a\")"),
    (2, "hr![id = 1,\n \"b\"]"),
    (2, "frag!(a = 1)"),
    (2, "classes! { \"a\", b = 1 }"),
    (2, "c_!(x = 1, nope_ = 2)"),
    (2, "d_!(1)"),
    (2, "d_!()"),
    (2, "d_!(x.y = 1)"),
    (2, "p!(a b)"),
    (2, "p!(\"a\", = 1)"),
    (3, "p!(bool!(true))"),
    ];

#[derive(Clone, Debug)]
struct Fault {
    text: String,
    range: (u32, u32, u32, u32),
}

fn fault(c: &Case, wrong: usize, obs: &mut Obs) -> Fault {
    obs.nontrivial = true;
    obs.class(["name that is not known", "type error", "misuse", "marker"][WRONG[wrong].0 as usize]);
    let mut count = writer(c);
    count.wrong = Some((0, ""));
    body(c, &mut count);
    let mut c = c.clone();
    if count.k == 0 {
        // none to be wrong
        c.tree = T::Hole(0);
        count.k = 1;
    }
    let at = c.pick as u32 % count.k + 1;
    let mut w = writer(&c);
    w.wrong = Some((at, WRONG[wrong].1));
    let head = format!("{USES}\n{ITEMS}pub fn run(v: &h::V, out: &mut h::Out) {{\n");
    w.line = head.matches('\n').count() as u32;
    w.s = head;
    body(&c, &mut w);
    w.put("\n}\n");
    Fault { range: w.range.expect("a place"), text: w.s }
}

/// Compiles the modules together; of each, whether an error is in the place.
fn located(rc: &Rustc, fs: &[Fault]) -> Vec<Result<(), String>> {
    let mut text = prelude(&CTX);
    let mut line = text.lines().count() as u32 + 1;
    let mut first = vec![];
    for (i, f) in fs.iter().enumerate() {
        let t = format!("pub mod m{i} {{\n{}}}\n", f.text);
        first.push(line + 1);
        line += t.matches('\n').count() as u32;
        text.push_str(&t);
    }
    first.push(line + 1);
    let (_, errors) = rc.check(&CTX, &text);
    fs.iter()
        .enumerate()
        .map(|(i, f)| {
            let r = (f.range.0 + first[i], f.range.1, f.range.2 + first[i], f.range.3);
            let inside = |s: &Span| (s.line, s.col) >= (r.0, r.1) && (s.end_line, s.end_col) <= (r.2, r.3);
            if errors.iter().any(|e| e.spans.iter().any(inside)) {
                return Ok(());
            }
            let of = |e: &&Diag| e.lines.iter().any(|l| (*l as u32) >= first[i] && (*l as u32) < first[i + 1]);
            let seen: Vec<String> = errors.iter().filter(of).take(2).map(|e| e.text.clone()).collect();
            Err(match seen.is_empty() {
                true => "no error is reported".into(),
                false => format!("the error is reported elsewhere: {}", seen.join("\n")),
            })
        })
        .collect()
}

fn single(rc: &Rustc, f: &Fault) -> Option<String> {
    located(rc, &[f.clone()]).pop().unwrap().err()
}

fn record(i: u64, f: &Fault) -> Json {
    json!({"stream": "errors", "index": i, "text": f.text.lines().collect::<Vec<_>>(), "range": [f.range.0, f.range.1, f.range.2, f.range.3]})
}

pub fn errors(env: &RunEnv, part: &mut Part) {
    let rc = Rustc::new(&env.work);
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        if rec["replay"]["stream"] != "errors" {
            return;
        }
        let text = rec["replay"]["text"].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect();
        let n = |k: usize| rec["replay"]["range"][k].as_u64().unwrap() as u32;
        if let Some(m) = single(&rc, &Fault { text, range: (n(0), n(1), n(2), n(3)) }) {
            part.violation = Some((rec["replay"].clone(), m));
        }
        return;
    }
    let total = env.n(3000, 30000);
    let per = 60;
    let nchunks = (total + per - 1) / per;
    let tree = |i: u64| case().new_tree(&mut case_runner(env.seed, "errors", i)).unwrap();
    // a phase at a time, as the compiler stops after one with errors
    let phase = |k: u64| (k % 4) as u8;
    let wrong = |k: u64, c: &Case| {
        let of: Vec<usize> = (0..WRONG.len()).filter(|w| WRONG[*w].0 == phase(k)).collect();
        of[c.wrong as usize % of.len()]
    };
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(total)).collect();
                    let all: Vec<(Fault, Obs)> = ids
                        .iter()
                        .map(|i| {
                            let mut o = Obs::default();
                            let c = tree(*i).current();
                            (fault(&c, wrong(k, &c), &mut o), o)
                        })
                        .collect();
                    let fs: Vec<Fault> = all.iter().map(|x| x.0.clone()).collect();
                    let mut bad = vec![];
                    for (i, r) in located(&rc, &fs).into_iter().enumerate() {
                        if r.is_err() {
                            // on its own
                            if let Some(m) = single(&rc, &fs[i]) {
                                bad.push((ids[i], m));
                                break;
                            }
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    for (f, o) in &all {
                        sh.0.evaluations += 1;
                        for (c, n) in &o.classes {
                            *sh.0.classes.entry(format!("errors: {c}")).or_insert(0) += n;
                        }
                        sh.2.insert(f.text.clone());
                    }
                    if !bad.is_empty() {
                        stop.store(1, SeqCst);
                        sh.1.extend(bad);
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, seen) = shared.into_inner().unwrap();
    part.evaluations += p.evaluations;
    part.distinct += seen.len() as u64;
    for (c, n) in p.classes {
        *part.classes.entry(c).or_insert(0) += n;
    }
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} errors: {} in {:.2}s", env.label, total, t0.elapsed().as_secs_f64());
    }
    fails.sort();
    if let Some((i, first)) = fails.first().cloned() {
        let k = i / per;
        let make = |c: &Case| fault(c, wrong(k, c), &mut Obs::default());
        let mut t = tree(i);
        let (mut best, mut msg) = (make(&t.current()), first);
        let end = Instant::now() + Duration::from_secs(45);
        'out: while t.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let f = make(&t.current());
                match single(&rc, &f) {
                    Some(m) => {
                        best = f;
                        msg = m;
                        break;
                    }
                    None => {
                        if !t.complicate() {
                            break 'out;
                        }
                    }
                }
            }
        }
        let rec = record(i, &best);
        part.samples.push(rec.clone());
        eprintln!("C30: case {i}: {msg}\n{}", best.text);
        part.violation = Some((rec, format!("{msg}\n{}", best.text)));
    }
    for i in [0, per, 2 * per] {
        let c = tree(i).current();
        part.samples.push(record(i, &fault(&c, wrong(i / per, &c), &mut Obs::default())));
    }
}
