//! C12 (composition), C13 (structure), C14 (evaluation), C15 (boolean attributes), C19 (joining).
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::html;
use crate::markup::{consume, Tree};
use crate::vals::{vals, Texts, Vals};
use proptest::prelude::*;
use proptest::sample::select;
use vcore::driver::{Env as RunEnv, Obs};

// ---- C12 ----

#[derive(Clone, Debug)]
pub struct Variants {
    ex: Ex,
    changes: Vec<Vec<(u16, Change)>>,
    vals: Vec<Vals>,
}

#[derive(Clone, Copy, Debug)]
pub enum Change {
    Wrap(W),
    Path(u8),
    Delim(u8),
    /// Puts a run of children into a fragment.
    Group(u8, u8),
    /// Puts an empty fragment among the children.
    Empty(u8),
}

fn plain_cfg() -> Cfg {
    Cfg {
        wraps: vec![],
        paths: false,
        leaf_kinds: (0..LEAVES).filter(|k| *k != CELL && *k != 44).collect(),
        ..Cfg::default()
    }
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        6 => select(vec![W::Paren, W::Block, W::Let, W::Hoist, W::Func, W::Closure, W::Some, W::IterOne, W::Id, W::FragOne, W::MatchOne, W::Stmts]).prop_map(Change::Wrap),
        1 => (1u8..3).prop_map(Change::Path),
        1 => (0u8..3).prop_map(Change::Delim),
        3 => any::<(u8, u8)>().prop_map(|(a, b)| Change::Group(a, b)),
        1 => any::<u8>().prop_map(Change::Empty),
    ]
    .boxed()
}

fn apply(ex: &mut Ex, at: u16, c: Change, obs: &mut Obs) {
    // values (not items) in the order of a walk; elements for the changes of elements
    let total = ex.count(&mut |e| applies(e, c) as usize);
    if total == 0 {
        return;
    }
    let target = at as usize % total;
    let mut i = 0;
    ex.walk(&mut |e| {
        if !applies(e, c) {
            return;
        }
        i += 1;
        if i - 1 != target {
            return;
        }
        obs.class(match c {
            Change::Wrap(W::Stmts) => "after a statement in a block",
            Change::Wrap(W::Hoist | W::Let) => "through a variable",
            Change::Wrap(W::Block) => "through a block",
            Change::Wrap(W::Paren) => "through parentheses",
            Change::Wrap(W::Func | W::Closure | W::Id) => "through a function",
            Change::Wrap(W::Some) => "through an optional value",
            Change::Wrap(W::IterOne) => "through an iterator",
            Change::Wrap(W::FragOne) => "through a fragment",
            Change::Wrap(_) => "through a match",
            Change::Path(_) => "through a path",
            Change::Delim(_) => "other delimiters",
            Change::Group(..) => "children grouped in a fragment",
            Change::Empty(_) => "an empty fragment added",
        });
        match c {
            Change::Wrap(w) => {
                let inner = std::mem::replace(e, Ex::Bind(0));
                *e = Ex::Wrap(w, Box::new(inner), 0);
            }
            Change::Path(p) => {
                if let Ex::El { path, .. } = e {
                    *path = p
                }
            }
            Change::Delim(d) => {
                if let Ex::El { delim, trail, .. } = e {
                    *delim = d;
                    *trail = !*trail;
                }
            }
            Change::Group(a, n) => {
                if let Ex::El { items, .. } = e {
                    let kids: Vec<usize> = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Child(_))).map(|(i, _)| i).collect();
                    let from = a as usize % kids.len();
                    let len = 1 + n as usize % (kids.len() - from);
                    let run: Vec<usize> = kids[from..from + len].to_vec();
                    let mut group = vec![];
                    for k in run.iter().rev() {
                        group.insert(0, items.remove(*k));
                    }
                    items.insert(run[0], Item::Child(Ex::El { tag: FRAG, delim: n % 3, trail: a % 2 == 0, path: 0, items: group }));
                }
            }
            Change::Empty(a) => {
                if let Ex::El { items, .. } = e {
                    let at = a as usize % (items.len() + 1);
                    items.insert(at, Item::Child(Ex::El { tag: FRAG, delim: 0, trail: false, path: 0, items: vec![] }));
                }
            }
        }
    });
}

fn applies(e: &Ex, c: Change) -> bool {
    match (e, c) {
        (Ex::Diverge(_), _) => false,
        (_, Change::Wrap(_)) => true,
        (Ex::El { .. }, Change::Path(_) | Change::Delim(_)) => true,
        (Ex::El { tag, items, .. }, Change::Group(..)) => {
            !is_void(*tag) && *tag != CLASSES && items.iter().any(|i| matches!(i, Item::Child(_)))
        }
        (Ex::El { tag, .. }, Change::Empty(_)) => !is_void(*tag) && *tag != CLASSES,
        _ => false,
    }
}

fn variants(depth: u32) -> BoxedStrategy<Variants> {
    (
        gen::root(&Cfg { depth, ..plain_cfg() }),
        prop::collection::vec(prop::collection::vec((any::<u16>(), change()), 1..6), 3),
        prop::collection::vec(vals(Texts::Mixed), 2),
    )
        .prop_map(|(ex, changes, vals)| Variants { ex, changes, vals })
        .boxed()
}

fn build_variants(t: &Variants, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    em.temps = false;
    let mut body = String::new();
    let e = em.ex(&t.ex);
    body.push_str(&format!("{}\nout.push(render!({e}));\n", em.take_stmts()));
    let mut exps = vec![Exp::Any];
    for cs in &t.changes {
        let mut x = t.ex.clone();
        for (at, c) in cs {
            apply(&mut x, *at, *c, obs);
        }
        obs.nontrivial |= x != t.ex;
        let e = em.ex(&x);
        body.push_str(&format!("{}\nout.push(render!({e}));\n", em.take_stmts()));
        exps.push(Exp::Same(0));
    }
    Job { ctx: CTX, items: em.items, body, exps: vec![exps; t.vals.len()], vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c12(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("variants", env.n(900, 15000), 20, |i| variants(2 + (i % 2) as u32), build_variants),
        prog("deep", env.n(60, 1000), 4, |_| variants(4), build_variants),
    ]
}

// ---- C13 ----

fn structure_cfg(depth: u32) -> Cfg {
    Cfg {
        depth,
        raw: false,
        raw_delims: false,
        lit_names: false,
        el_in_attr: false,
        leaf_kinds: (0..LEAVES).filter(|k| !matches!(*k, CELL | 32)).collect(),
        ..Cfg::default()
    }
}

fn build_structure(t: &Tree, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    let e = em.ex(&t.ex);
    let st = em.take_stmts();
    let mut exps = vec![];
    for v in &t.vals {
        let mut env = Env::new(v);
        let h = env.ex(&t.ex).unwrap();
        let mut text = String::new();
        crate::ast::html(&h, &mut text);
        obs.class_if(text.contains("&lt;"), "documents with an escaped <");
        obs.class_if(text.contains("=\"") && text.contains("&quot;"), "documents with attributes and an escaped quote");
        obs.nontrivial |= text.contains('<') && (text.contains("&lt;") || text.contains("&quot;") || text.contains("&amp;"));
        exps.push(vec![Exp::Html(html::expected(&h))]);
    }
    Job { ctx: CTX, items: em.items, body: format!("{st}\n{}", consume(&e, t.how % 3, "")), exps, vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c13(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    let gen = |d: u32| (gen::root(&structure_cfg(d)), prop::collection::vec(vals(Texts::Hostile), 8), 0u8..6).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed();
    vec![
        prog("shallow", env.n(700, 12000), 24, move |_| gen(2), build_structure),
        prog("deeper", env.n(500, 8000), 24, move |_| gen(3 + 0), build_structure),
    ]
}

// ---- C14 ----

fn eval_cfg(depth: u32) -> Cfg {
    let mut kinds: Vec<u8> = (0..LEAVES).filter(|k| !matches!(*k, 44)).collect();
    kinds.extend([CELL; 12]);
    kinds.extend([EFFECT; 3]);
    Cfg {
        depth,
        iter_map: false,
        wraps: vec![W::Paren, W::Block, W::Let, W::Hoist, W::Func, W::Closure, W::Some, W::IterOne, W::Id, W::FragOne, W::MatchOne, W::Ev, W::Ev, W::Stmts, W::Stmts],
        leaf_kinds: kinds,
        ..Cfg::default()
    }
}

fn build_eval(t: &Tree, obs: &mut Obs) -> Job {
    let mut ex = t.ex.clone();
    let mut n = 0;
    let (how, alike) = (t.how % 6, [0, 2, 0, 5][t.how as usize / 6 % 4]);
    obs.class_if(t.how % 5 == 0 && ex.tick(), "conditions that change");
    ex.number(&mut n, true, alike, [0, 0, 0, 3, 6][t.vals[0].s[0].len() % 5]);
    obs.class_if(alike > 0, "evaluations written alike");
    obs.nontrivial = n >= 2;
    obs.count("logged evaluations", n as u64);
    let mut em = Em::new();
    em.temps = false;
    let e1 = em.ex(&ex);
    let s1 = em.take_stmts();
    let e2 = em.ex(&ex);
    let s2 = em.take_stmts();
    // all is evaluated before any is rendered, also of several nodes rendered at once
    let several = t.how % 2 == 0;
    let (e3, s3) = if several { (em.ex(&ex), em.take_stmts()) } else { Default::default() };
    let render = match how % 3 {
        0 => "render!(node)",
        1 => "render!(div!(node, p!()), node2)",
        _ => "{ let mut b = laby::internal::Buffer::new(); laby::Render::render(node, &mut b); b.into_string() }",
    };
    let (render, pre) = if how % 3 == 1 { ("render!(div!(node))", "") } else { (render, "") };
    // rendered, with the variables changed before
    let mut body = format!(
        "h::set_cells(100);\n{pre}{s1}\nlet node = {e1};\nout.push(h::take_log());\nh::set_cells(900);\nout.push({render});\nout.push(h::take_log());\n"
    );
    // discarded
    let discard = match how / 3 {
        0 => "drop(node);",
        _ => "{ let unused = ul!(li!(node), \"x\"); }",
    };
    body.push_str(&format!("h::set_cells(100);\n{s2}\nlet node = {e2};\nout.push(h::take_log());\n{discard}\nout.push(h::take_log());\n"));
    if several {
        let ask = "{ seen.push(h::take_log()); \"|\" }";
        let list = [format!("{e3}, {ask}"), format!("{ask}, {e3}, {ask}"), format!("{ask}, {ask}, {e3}, {ask}")];
        body.push_str(&format!(
            "h::set_cells(100);\n{s3}\nlet mut seen = vec![];\nlet text = render!({});\nlet after = h::take_log();\nout.push(text);\nout.push(h::rendered(&seen));\nseen.push(after);\nout.push(h::union(seen));\n",
            list[t.how as usize / 2 % 3]
        ));
    }
    let mut exps = vec![];
    for v in &t.vals {
        let mut env = Env::new(v);
        env.temps = false;
        let inner = env.text(&ex).unwrap();
        let text = inner.clone();
        let text = if how % 3 == 1 { format!("<div>{text}</div>") } else { text };
        env.log.sort();
        env.drops.sort();
        let mut after = env.rendered.clone();
        after.extend(env.drops.iter().cloned());
        after.sort();
        obs.count("values dropped", env.drops.len() as u64);
        let mut exp = vec![
            Exp::Eq(env.log.join(" ")),
            Exp::Eq(text),
            Exp::Eq(after.join(" ")),
            Exp::Eq(env.log.join(" ")),
            Exp::Eq(env.drops.join(" ")),
        ];
        if several {
            exp.push(Exp::Eq([format!("{inner}|"), format!("|{inner}|"), format!("||{inner}|")][t.how as usize / 2 % 3].clone()));
            exp.push(Exp::Eq(String::new()));
            let mut all = [env.log.clone(), after].concat();
            all.sort();
            exp.push(Exp::Eq(all.join(" ")));
        }
        exps.push(exp);
    }
    Job { ctx: CTX, items: em.items, body, exps, vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c14(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    let gen = |d: u32| {
        (gen::root(&eval_cfg(d)), prop::collection::vec(vals(Texts::Mixed), 2), 0u8..24).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed()
    };
    vec![
        prog("shallow", env.n(800, 12000), 20, move |_| gen(2), build_eval),
        prog("deeper", env.n(400, 6000), 16, move |_| gen(3), build_eval),
    ]
}

// ---- C29 ----

/// Up to which evaluation and step of rendering there are panics.
const FUSES: usize = 7;

fn build_panics(t: &Tree, obs: &mut Obs) -> Job {
    let mut ex = t.ex.clone();
    let mut n = 0;
    let how = t.how % 6;
    ex.number(&mut n, true, 0, 0);
    let mut em = Em::new();
    em.temps = false;
    let e1 = em.ex(&ex);
    let s1 = em.take_stmts();
    let e2 = em.ex(&ex);
    let s2 = em.take_stmts();
    let e3 = em.ex(&ex);
    let s3 = em.take_stmts();
    let catch = "let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||";
    let around = |e: &str| match how % 3 {
        0 => e.to_string(),
        1 => format!("div!({e}, id = 1)"),
        _ => format!("frag!(\"<\", Some({e}))"),
    };
    let render = match how {
        3 => format!("{{ let s = render!({}); b.push_str(&s) }}", around("node")),
        _ => format!("::laby::Render::render({}, &mut b)", around("node")),
    };
    // a panic while it is rendered, one while it is made, and neither
    let body = format!(
        "for k in 1..={FUSES} {{
h::set_cells(100);
h::fuse(k, true);
{s1}
let node = {e1};
let mut b = ::laby::internal::Buffer::from(\"before<\");
{catch} {render}));
out.push(if r.is_err() {{ \"panic\" }} else {{ \"no panic\" }});
let t = b.as_str().to_string();
::laby::Render::render(p!(\"after\", 1), &mut b);
out.push(&b.as_str()[t.len()..]);
out.push(t);
out.push(h::made());
out.push(h::dropped());
}}
for k in 1..={FUSES} {{
h::set_cells(100);
h::fuse(k, false);
{catch} {{
{s2}
let node = {e2};
let _ = render!(node);
}}));
out.push(if r.is_err() {{ \"panic\" }} else {{ \"no panic\" }});
out.push(h::made());
out.push(h::dropped());
}}
h::set_cells(100);
h::fuse(0, true);
{s3}
let node = {e3};
out.push(render!({}));
",
        around("node")
    );
    let mut exps = vec![];
    for v in &t.vals {
        let mut env = Env::new(v);
        env.temps = false;
        let text = env.text(&ex).unwrap();
        let text = match how % 3 {
            0 => text,
            1 => format!("<div id=\"1\">{text}</div>"),
            _ => format!("&lt;{text}"),
        };
        env.drops.sort();
        let steps = 2 * env.rendered.len();
        let made = env.log.len();
        obs.nontrivial |= steps > 0;
        obs.count("panics while rendering", steps.min(FUSES) as u64);
        obs.count("panics while evaluating", made.min(FUSES) as u64);
        let mut e = vec![];
        for k in 1..=FUSES {
            let hit = k <= steps;
            e.push(Exp::Eq(if hit { "panic" } else { "no panic" }.into()));
            e.push(Exp::Eq("<p>after1</p>".into()));
            e.push(if hit { Exp::Begins("before<".into(), text.clone()) } else { Exp::Eq(format!("before<{text}")) });
            e.push(Exp::Eq(env.drops.join(" ")));
            e.push(Exp::Eq(env.drops.join(" ")));
        }
        for k in 1..=FUSES {
            let at = e.len();
            e.push(Exp::Eq(if k <= made { "panic" } else { "no panic" }.into()));
            e.push(Exp::Any);
            e.push(Exp::Same(at + 1));
        }
        e.push(Exp::Eq(text));
        exps.push(e);
    }
    Job { ctx: CTX, items: em.items, body, exps, vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c29(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    let gen = |d: u32| {
        (gen::root(&eval_cfg(d)), prop::collection::vec(vals(Texts::Mixed), 3), 0u8..24).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed()
    };
    vec![
        prog("panics, shallow", env.n(500, 8000), 20, move |_| gen(2), build_panics),
        prog("panics, deeper", env.n(300, 5000), 16, move |_| gen(3), build_panics),
    ]
}

// ---- C15 ----

fn bool_tree() -> BoxedStrategy<Tree> {
    let cfg = Cfg { depth: 1, ..Cfg::default() };
    let bools = Cfg { leaf_kinds: vec![14, 15, 16, 17], ..cfg.clone() };
    let c2 = cfg.clone();
    let item = move || {
        let cfg = c2.clone();
        let plain_bool = prop_oneof![
            2 => gen::leaf(&bools),
            1 => (crate::lits::boolean(), 0u8..8).prop_map(|(l, w)| Ex::Lit(l, w)),
        ];
        prop_oneof![
            6 => (gen::name(&cfg), gen::bool_cond(), 0u8..3).prop_map(|(n, c, d)| Item::Bool(n, c, d)),
            2 => (gen::name(&cfg), plain_bool).prop_map(|(n, v)| Item::Attr(n, v)),
            1 => (gen::name(&cfg), gen::atom(&cfg)).prop_map(|(n, v)| Item::Attr(n, v)),
            1 => gen::atom(&cfg).prop_map(Item::Child),
        ]
        .boxed()
    };
    let tag = prop_oneof![1 => 0u16..115, 1 => select(vec!["input", "option", "video", "div", "hr"]).prop_map(tag_of)].boxed();
    let el = gen::element(&cfg, tag.clone(), prop::collection::vec(item(), 1..9).boxed());
    let nested = gen::element(&cfg, gen::any_tag(), prop::collection::vec(prop_oneof![el.clone().prop_map(Item::Child), item()], 1..5).boxed());
    (prop_oneof![2 => el, 1 => nested], prop::collection::vec(vals(Texts::Mixed), 8), 0u8..6)
        .prop_map(|(ex, vals, how)| Tree { ex, vals, how })
        .boxed()
}

/// Every kind of name with every kind of condition, alone and between others.
fn bool_combo(i: u64) -> BoxedStrategy<Tree> {
    let names: Vec<Name> = {
        let l = |src: &str, plain: &str| crate::lits::Lit { src: src.into(), plain: plain.into(), kind: "string" };
        let mut v = vec![Name::Ident(1), Name::Raw(0), Name::Raw(2)];
        for w in 0..5 {
            v.push(Name::Lit(l("\"data-x\"", "data-x"), w));
        }
        v.push(Name::Lit(l("r#\"raw\"#", "raw"), 0));
        v.push(Name::Lit(l("'c'", "c"), 0));
        v.push(Name::Lit(l("12", "12"), 0));
        v.push(Name::Lit(l("\"a<b\"", "a<b"), 0));
        for kind in 0..NAMES {
            v.push(Name::Dyn { kind, k: 1, ev: 0, tr: false });
        }
        v
    };
    let mut conds = vec![];
    for b in [true, false] {
        for w in 0..5 {
            conds.push(BoolCond::Const(b, w));
        }
    }
    for kind in 0..COND_PLAIN {
        conds.push(BoolCond::Dyn(Cond { kind, k: (i / 760 + i / 20) as u8, k2: (i / 760 + 2) as u8, ev: 0 }));
    }
    let n = names[i as usize % names.len()].clone();
    let c = conds[(i as usize / names.len()) % conds.len()].clone();
    let it = Item::Bool(n, c, (i % 3) as u8);
    let cfg = Cfg { depth: 1, ..Cfg::default() };
    let around = prop::collection::vec(gen::item(&cfg, gen::atom(&cfg), gen::atom(&cfg)), 0..4);
    (around.clone(), around, any::<u16>(), prop::collection::vec(vals(Texts::Mixed), 8))
        .prop_map(move |(mut a, b, tag, vals)| {
            a.push(it.clone());
            a.extend(b);
            Tree { ex: Ex::El { tag: tag % 115, delim: 0, trail: tag % 2 == 0, path: 0, items: a }, vals, how: 0 }
        })
        .boxed()
}

fn build_bool(t: &Tree, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    em.temps = t.how % 6 != 5;
    let temps = em.temps;
    let e = em.ex(&t.ex);
    let st = em.take_stmts();
    t.ex.count(&mut |e| {
        if let Ex::El { items, .. } = e {
            for i in items {
                if let Item::Bool(n, c, _) = i {
                    obs.nontrivial = true;
                    let constant = !matches!(n, Name::Dyn { .. });
                    obs.class(match (constant, c) {
                        (true, BoolCond::Const(true, _)) => "constant name, constantly true",
                        (true, BoolCond::Const(false, _)) => "constant name, constantly false",
                        (false, BoolCond::Const(true, _)) => "computed name, constantly true",
                        (false, BoolCond::Const(false, _)) => "computed name, constantly false",
                        (true, _) => "constant name, computed condition",
                        (false, _) => "computed name, computed condition",
                    });
                }
            }
        }
        0
    });
    let e = if t.how % 6 == 5 { format!("({e})") } else { e };
    let exps = t
        .vals
        .iter()
        .map(|v| {
            let mut env = Env::new(v);
            env.temps = temps;
            vec![Exp::Eq(env.text(&t.ex).unwrap())]
        })
        .collect();
    Job { ctx: CTX, items: em.items, body: format!("{st}\n{}", consume(&e, t.how, "")), exps, vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

/// Boolean attributes whose conditions are written alike, but change from one to the next.
#[derive(Clone, Debug)]
struct Alike {
    /// The group of each, how its name is written, and after how many levels it stands.
    attrs: Vec<(u8, u8, bool)>,
    forms: [u8; 4],
    tags: Vec<u16>,
    delim: u8,
}

fn alike_bools() -> BoxedStrategy<Alike> {
    (
        prop::collection::vec((0u8..4, 0u8..6, prop::bool::weighted(0.2)), 1..14),
        any::<[u8; 4]>(),
        prop::collection::vec(prop_oneof![0u16..101, 0u16..115], 14),
        0u8..3,
    )
        .prop_map(|(attrs, forms, tags, delim)| Alike { attrs, forms, tags, delim })
        .boxed()
}

/// As in the log.
fn nth(g: usize, at: u32) -> bool {
    ((g as u64 + 3).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (20 + at % 40)) & 1 == 1
}

fn build_alike(c: &Alike, obs: &mut Obs) -> Job {
    let form = |g: usize| match c.forms[g] % 9 {
        0 | 1 => (format!("h::nth({g})"), false),
        2 => (format!("!h::nth({g})"), true),
        3 => (format!("{{ h::nth({g}) }}"), false),
        4 => (format!("(h::nth({g}))"), false),
        5 => (format!("h::nth({g}) && true"), false),
        6 => (format!("h::id::<::core::primitive::bool>(h::nth({g}))"), false),
        7 => (format!("h::nth({g}) == false"), true),
        _ => (format!("if h::nth({g}) {{ true }} else {{ false }}"), false),
    };
    // elements in one another, each with some of the attributes
    let mut levels: Vec<Vec<String>> = vec![vec![]];
    let mut names: Vec<Vec<String>> = vec![vec![]; 4];
    for (i, (g, n, next)) in c.attrs.iter().enumerate() {
        let g = *g as usize % 4;
        if *next {
            levels.push(vec![]);
        }
        let name = format!("g{g}x{i:02}");
        let written = match n {
            0 | 1 => name.clone(),
            2 => format!("\"{name}\""),
            3 => format!("h::id(\"{name}\")"),
            4 => format!("frag!(\"g{g}x\", h::id(\"{i:02}\"))"),
            _ => format!("r\"{name}\""),
        };
        levels.last_mut().unwrap().push(format!("{written} = {}", delimit("bool", &form(g).0, c.delim)));
        names[g].push(name);
    }
    obs.class_if(levels.len() > 1, "in elements in one another");
    obs.nontrivial = names.iter().any(|n| n.len() > 1);
    let (mut e, mut bare) = (String::new(), String::new());
    for (i, attrs) in levels.iter().enumerate().rev() {
        let tag = c.tags[i];
        let tag = if is_void(tag) && !e.is_empty() { tag_of("div") } else { tag };
        let mut parts = attrs.clone();
        if !e.is_empty() {
            parts.insert(c.tags[i] as usize % (parts.len() + 1), e);
        }
        e = format!("{}!({})", tag_name(tag), parts.join(", "));
        bare = format!("<{}>{bare}{}", tag_name(tag), if is_void(tag) { String::new() } else { format!("</{}>", tag_name(tag)) });
    }
    let mut body = format!("let mut s = render!({e});\n");
    let mut exps = vec![];
    for (g, names) in names.iter().enumerate() {
        if names.is_empty() {
            continue;
        }
        let neg = form(g).1;
        let n = (0..names.len()).filter(|k| nth(g, *k as u32) != neg).count();
        obs.class_if(n > 0 && n < names.len(), "conditions that change");
        body.push_str(&format!("out.push(s.matches(\" g{g}x\").count().to_string());\n"));
        exps.push(Exp::Eq(n.to_string()));
        body.push_str(&format!("for n in {names:?} {{ s = s.replacen(&format!(\" {{}}\", n), \"\", 1); }}\n"));
    }
    body.push_str("out.push(s);\nh::no_ticks();");
    exps.push(Exp::Eq(bare));
    Job {
        ctx: CTX,
        items: String::new(),
        body: format!("h::no_ticks();\n{body}"),
        exps: vec![exps],
        vals: vec![Vals::default()],
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

pub fn c15(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("alike", env.n(300, 6000), 40, |_| alike_bools(), build_alike),
        prog("combinations", env.n(20 * 38, 20 * 38 * 5), 30, bool_combo, build_bool),
        prog("elements", env.n(900, 15000), 30, |_| bool_tree(), build_bool),
    ]
}

// ---- C19 ----

#[derive(Clone, Debug)]
pub struct Join {
    parts: Vec<Ex>,
    vals: Vec<Vals>,
    how: u8,
}

fn joins(max: usize, depth: u32) -> BoxedStrategy<Join> {
    let cfg = Cfg { depth, comps: false, ..Cfg::default() };
    // values that render to nothing matter around delimiters
    let nothing = select(vec![30u8, 19, 45]).prop_flat_map(|k| any::<u8>().prop_map(move |n| Ex::Leaf { kind: k, k: n, ev: 0, tr: false }));
    let atom = prop_oneof![5 => gen::atom(&cfg), 2 => nothing.boxed()].boxed();
    let mut s = atom.clone();
    let c = cfg.clone();
    for _ in 0..depth {
        let tag = prop_oneof![3 => Just(FRAG), 4 => Just(CLASSES), 1 => Just(tag_of("b"))].boxed();
        let items = prop::collection::vec(
            prop_oneof![
                8 => s.clone().prop_map(Item::Child),
                1 => s.clone().prop_map(|e| Item::Child(Ex::Wrap(W::Hoist, Box::new(e), 0))),
                1 => s.clone().prop_map(|e| Item::Attr(Name::Ident(0), e)),
            ],
            0..=max,
        )
        .boxed();
        let el = gen::element(&c, tag, items);
        s = prop_oneof![
            3 => atom.clone(),
            6 => el,
            1 => (any::<u8>(), 0u8..4, s.clone()).prop_map(|(l, delim, b)| Ex::IterMap { l, delim, body: Box::new(b) }),
            1 => gen::if_node(&c, s.clone()),
        ]
        .boxed();
    }
    let few = if max > 20 { 2 } else { max };
    (prop::collection::vec(s, 0..=few), prop::collection::vec(vals(Texts::Mixed), 3), any::<u8>())
        .prop_map(|(parts, vals, how)| Join { parts, vals, how })
        .boxed()
}

fn build_join(t: &Join, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    // several values end up in a function argument each
    em.temps = false;
    let mut ps: Vec<String> = vec![];
    for p in &t.parts {
        ps.push(em.ex(p));
        p.count(&mut |e| {
            if let Ex::El { tag, items, .. } = e {
                obs.class_if(*tag == CLASSES && items.len() > 1, "class lists of several values");
                obs.class_if(*tag == FRAG && items.len() > 1, "fragments of several values");
                obs.nontrivial |= is_frag(*tag) && items.len() > 1;
                for i in items {
                    if let Item::Child(Ex::El { tag: t2, .. }) = i {
                        obs.class_if(*tag == CLASSES && *t2 == FRAG, "fragment directly in a class list");
                        obs.class_if(*tag == FRAG && *t2 == CLASSES, "class list directly in a fragment");
                        obs.class_if(*tag == CLASSES && *t2 == CLASSES, "class list directly in a class list");
                    }
                }
            }
            0
        });
    }
    obs.class_if(t.parts.is_empty(), "rendering no value");
    obs.class_if(t.parts.len() > 1, "rendering several values");
    obs.nontrivial |= t.parts.len() > 1;
    let st = em.take_stmts();
    let list = ps.join(", ");
    let comma = if t.how % 2 == 0 && !ps.is_empty() { "," } else { "" };
    let (call, delim) = match t.how / 2 % 3 {
        0 => (delimit("render", &format!("{list}{comma}"), t.how / 6), ""),
        1 => (format!("render!({})", delimit("frag", &format!("{list}{comma}"), t.how / 6)), ""),
        _ => (format!("render!({})", delimit("classes", &format!("{list}{comma}"), t.how / 6)), " "),
    };
    let exps = t
        .vals
        .iter()
        .map(|v| {
            let mut env = Env::new(v);
            env.temps = false;
            let texts: Vec<String> = t.parts.iter().map(|p| env.text(p).unwrap()).collect();
            vec![Exp::Eq(texts.join(delim))]
        })
        .collect();
    Job { ctx: CTX, items: em.items, body: format!("{st}\nout.push({call});"), exps, vals: t.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c19(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("joins", env.n(1400, 20000), 30, |i| joins(6, 1 + (i % 3) as u32), build_join),
        prog("long", env.n(40, 400), 3, |_| joins(120, 1), build_join),
    ]
}
