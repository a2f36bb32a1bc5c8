//! C10: markup.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::vals::{vals, Texts, Vals};
use crate::lits;
use proptest::prelude::*;
use proptest::sample::select;
use vcore::driver::{Env as RunEnv, Obs};

#[derive(Clone, Debug)]
pub struct Tree {
    pub ex: Ex,
    pub vals: Vec<Vals>,
    pub how: u8,
}

fn classes(ex: &Ex, obs: &mut Obs) {
    let mut els = 0u64;
    ex.count(&mut |e| {
        match e {
            Ex::El { tag, items, path, delim, trail, .. } => {
                els += 1;
                if is_void(*tag) {
                    obs.class("void elements");
                }
                obs.class_if(*path > 0, "path-qualified macros");
                obs.class_if(*delim > 0, "other delimiters");
                obs.class_if(*trail, "trailing commas");
                let attrs = items.iter().any(|i| !matches!(i, Item::Child(_)));
                let kids = items.iter().any(|i| matches!(i, Item::Child(_)));
                obs.class_if(attrs && kids, "elements with attributes and children");
                let first_attr = items.iter().position(|i| !matches!(i, Item::Child(_)));
                let first_kid = items.iter().position(|i| matches!(i, Item::Child(_)));
                obs.class_if(matches!((first_attr, first_kid), (Some(a), Some(k)) if k < a), "children before attributes");
            }
            Ex::Lit(..) => obs.class("literals"),
            Ex::Leaf { .. } => obs.class("expressions"),
            Ex::Wrap(..) => obs.class("wrapped nodes"),
            Ex::IterMap { .. } => obs.class("nodes in iterators"),
            Ex::If { .. } | Ex::Match { .. } => obs.class("wrapped branches"),
            Ex::Comp { .. } => obs.class("components"),
            _ => {}
        }
        0
    });
    obs.count("elements", els);
    obs.nontrivial = els >= 2;
}

/// The ways to render a template.
pub fn consume(e: &str, how: u8, lab: &str) -> String {
    match how % 6 {
        0 | 1 => format!("out.push({lab}render!({e}));"),
        2 => format!("out.push({lab}render!({e},));"),
        3 => format!("out.push({{ let mut b = laby::internal::Buffer::new(); laby::Render::render({e}, &mut b); b.into_string() }});"),
        4 => format!("out.push({{ let mut b = laby::internal::Buffer::from(\"pre<\"); laby::Render::render({e}, &mut b); b.into_string().split_off(4) }});"),
        _ => format!("out.push({{ let mut b = laby::internal::Buffer::new(); {{ use laby::Render as _; {e}.render(&mut b); }} b.into_string() }});"),
    }
}

pub fn build_tree(t: &Tree, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    em.temps = t.how % 6 != 5;
    let e = em.ex(&t.ex);
    let temps = em.temps;
    let st = em.take_stmts();
    // a method call needs an expression that can take one
    let e = if t.how % 6 == 5 { format!("({e})") } else { e };
    classes(&t.ex, obs);
    Job {
        ctx: CTX,
        items: em.items,
        body: format!("{st}\n{}", consume(&e, t.how, "")),
        exps: t
            .vals
            .iter()
            .map(|v| {
                let mut env = Env::new(v);
                env.temps = temps;
                vec![Exp::Eq(env.text(&t.ex).unwrap())]
            })
            .collect(),
        vals: t.vals.clone(),
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

pub fn trees(cfg: Cfg, texts: Texts, nvals: usize) -> BoxedStrategy<Tree> {
    (gen::root(&cfg), prop::collection::vec(vals(texts), nvals), 0u8..6).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed()
}

/// Every tag in every position.
fn tag_case(i: u64) -> BoxedStrategy<Tree> {
    let tag = (i % 117) as u16;
    let cfg = Cfg { depth: 1, items: 4, ..Cfg::default() };
    let inner = gen::element(&cfg, Just(tag).boxed(), gen::items(&cfg, gen::atom(&cfg)));
    let how = i / 117 % 3;
    let ex = match how {
        0 => inner,
        1 => (gen::any_tag(), inner.clone(), gen::atom(&cfg), inner)
            .prop_map(|(t, a, b, c)| Ex::El {
                tag: if is_void(t) { tag_of("div") } else { t },
                delim: 0,
                trail: false,
                path: 0,
                items: vec![Item::Child(a), Item::Child(b), Item::Child(c)],
            })
            .boxed(),
        _ => (gen::items(&cfg, inner)).prop_map(move |items| Ex::El { tag, delim: 0, trail: true, path: 0, items }).boxed(),
    };
    (ex, prop::collection::vec(vals(Texts::Mixed), 2), 0u8..6).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed()
}

/// Many items, or deep nesting.
fn large_case(i: u64) -> BoxedStrategy<Tree> {
    let cfg = Cfg { depth: 1, items: 2, ..Cfg::default() };
    let ex = if i % 2 == 0 {
        let n = [20usize, 64, 130, 300][(i / 2 % 4) as usize];
        let child = gen::node(&Cfg { items: 1, ..cfg.clone() }, gen::atom(&cfg));
        let its = prop::collection::vec(gen::item(&cfg, child, gen::atom(&cfg)), n / 2..n).boxed();
        gen::element(&cfg, gen::any_tag(), its)
    } else {
        let depth = [10usize, 20, 40, 60][(i / 2 % 4) as usize];
        let level = (gen::any_tag(), prop::collection::vec(gen::item(&cfg, gen::atom(&cfg), gen::atom(&cfg)), 0..3), any::<bool>(), prop_oneof![8 => Just(0u8), 1 => Just(1u8)]);
        (prop::collection::vec(level, 1..depth), gen::atom(&cfg))
            .prop_map(|(levels, mut e)| {
                for (t, mut its, first, path) in levels {
                    let t = if is_void(t) { tag_of("p") } else { t };
                    let at = if first { 0 } else { its.len() };
                    its.insert(at, Item::Child(e));
                    e = Ex::El { tag: t, delim: 0, trail: first, path, items: its };
                }
                e
            })
            .boxed()
    };
    (ex, prop::collection::vec(vals(Texts::Mixed), 1)).prop_map(|(ex, vals)| Tree { ex, vals, how: 0 }).boxed()
}

/// Text of words and white space.
fn wordy(n: usize, every: u64, mut x: u64) -> String {
    const SPACES: [char; 8] = [' ', ' ', ' ', '\n', '\t', '\u{a0}', '\r', '\u{3000}'];
    const LETTERS: [char; 12] = ['a', 'z', '0', 'é', '中', '𝄞', '<', '&', '"', '\\', '{', '}'];
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = x >> 33;
            if r % every == 0 {
                SPACES[(r / 64 % 8) as usize]
            } else if r % 16 < 3 {
                LETTERS[(r / 64 % 12) as usize]
            } else {
                (b'a' + (r / 64 % 26) as u8) as char
            }
        })
        .collect()
}

/// Nothing but literals and markup, up to a lot of it in a row.
fn literal_case(i: u64) -> BoxedStrategy<Tree> {
    let max = [60usize, 400, 3000, 20000][(i % 4) as usize];
    let lit = (0..max, select(vec![1u64, 2, 3, 8, 1000]), any::<u64>(), prop::collection::vec(0u8..12, 0..4))
        .prop_map(|(n, every, x, how)| {
            let plain = wordy(n, every, x);
            Ex::Lit(lits::Lit { src: lits::str_src(&plain, &how), plain, kind: "string" }, 0)
        })
        .boxed();
    let it = prop_oneof![
        8 => lit.clone().prop_map(Item::Child),
        2 => (gen::name(&Cfg { dyn_names: false, ..Cfg::default() }), lit.clone()).prop_map(|(n, l)| Item::Attr(n, l)),
        1 => any::<u8>().prop_map(|k| Item::Bool(Name::Ident(k), BoolCond::Const(k % 2 == 0, 0), 0)),
        1 => gen::leaf(&Cfg::default()).prop_map(Item::Child),
    ]
    .boxed();
    let many = if max > 3000 { 5 } else { 24 };
    let cfg = Cfg { depth: 1, items: 3, ..Cfg::default() };
    let inner = gen::element(&cfg, gen::any_tag(), prop::collection::vec(it.clone(), 0..6).boxed());
    let its = prop::collection::vec(prop_oneof![2 => it, 1 => inner.prop_map(Item::Child)], 1..many).boxed();
    (gen::element(&cfg, gen::any_tag(), its), prop::collection::vec(vals(Texts::Mixed), 1), 0u8..6).prop_map(|(ex, vals, how)| Tree { ex, vals, how }).boxed()
}

pub fn streams(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("tags", env.n(117 * 3, 117 * 30), 24, tag_case, build_tree),
        prog("trees", env.n(500, 12000), 24, |_| trees(Cfg::default(), Texts::Mixed, 3), build_tree),
        prog("literals", env.n(160, 3000), 8, literal_case, build_tree),
        prog("large", env.n(32, 400), 2, large_case, build_tree),
    ]
}
