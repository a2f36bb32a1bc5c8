//! Generators of templates.
use crate::ast::*;
use crate::lits::{self, Lit};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;

#[derive(Clone)]
pub struct Cfg {
    pub depth: u32,
    /// Most items of an element.
    pub items: usize,
    pub raw: bool,
    pub wraps: Vec<W>,
    pub iter_map: bool,
    pub matches: bool,
    pub comps: bool,
    pub paths: bool,
    pub lits: bool,
    pub lit_names: bool,
    /// Elements inside attribute values.
    pub el_in_attr: bool,
    pub dyn_names: bool,
    pub diverge: bool,
    pub leaf_kinds: Vec<u8>,
    /// Iterator delimiters that are not text.
    pub raw_delims: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            depth: 3,
            items: 6,
            raw: true,
            wraps: vec![W::Paren, W::Block, W::Let, W::Hoist, W::Func, W::Closure, W::Some, W::IterOne, W::Id, W::FragOne, W::MatchOne, W::Stmts],
            iter_map: true,
            matches: true,
            comps: true,
            paths: true,
            lits: true,
            lit_names: true,
            el_in_attr: true,
            dyn_names: true,
            diverge: false,
            leaf_kinds: (0..LEAVES).filter(|k| *k != CELL).collect(),
            raw_delims: true,
        }
    }
}

pub fn leaf(cfg: &Cfg) -> BoxedStrategy<Ex> {
    let kinds: Vec<u8> = cfg.leaf_kinds.iter().copied().filter(|k| cfg.raw || !leaf_is_raw(*k)).collect();
    // what templates mostly consist of
    let common: Vec<u8> = [0u8, 0, 0, 2, 3, 19, 11, 17].into_iter().filter(|k| kinds.contains(k)).collect();
    let kind = if common.is_empty() { select(kinds).boxed() } else { prop_oneof![4 => select(kinds), 1 => select(common)].boxed() };
    (kind, any::<u8>()).prop_map(|(kind, k)| Ex::Leaf { kind, k, ev: 0, tr: false }).boxed()
}

pub fn lit() -> BoxedStrategy<Ex> {
    (lits::tree_lit(), 0u8..8).prop_map(|(l, w)| Ex::Lit(l, w)).boxed()
}

fn small_lit() -> BoxedStrategy<Ex> {
    select(vec!["a", "text", "", " ", "x < y", "\"quoted\" & 'more'", "&amp;"])
        .prop_map(|s| Ex::Lit(Lit { src: lits::str_src(s, &[]), plain: s.into(), kind: "string" }, 0))
        .boxed()
}

pub fn atom(cfg: &Cfg) -> BoxedStrategy<Ex> {
    let mut arms = vec![(5, leaf(cfg)), (1, any::<u8>().prop_map(Ex::Bind).boxed())];
    if cfg.lits {
        arms.push((3, lit()));
    }
    arms.push((2, small_lit()));
    Union::new_weighted(arms).boxed()
}

pub fn cond(max: u8) -> BoxedStrategy<Cond> {
    (0..max, any::<u8>(), any::<u8>()).prop_map(|(kind, k, k2)| Cond { kind, k, k2, ev: 0 }).boxed()
}

fn guard() -> BoxedStrategy<Cond> {
    prop_oneof![
        4 => cond(COND_PLAIN),
        // a variable, or of the variables bound
        1 => (select(vec![26u8, 26, 5, 0]), any::<u8>()).prop_map(|(kind, k)| Cond { kind, k, k2: 1, ev: 0 }),
    ]
    .boxed()
}

pub fn bool_cond() -> BoxedStrategy<BoolCond> {
    prop_oneof![
        1 => (any::<bool>(), 0u8..8).prop_map(|(b, w)| BoolCond::Const(b, w)),
        2 => cond(COND_PLAIN).prop_map(BoolCond::Dyn),
    ]
    .boxed()
}

fn name_lit() -> BoxedStrategy<Lit> {
    prop_oneof![
        4 => select(vec!["data-x", "aria-label", "class", "id", "@click", "xlink:href", "x", "data-1", ":bind"])
            .prop_map(|s| Lit { src: lits::str_src(s, &[]), plain: s.into(), kind: "string" }),
        1 => select(vec![("r#\"data-raw\"#", "data-raw"), ("r\"raw\"", "raw")]).prop_map(|(s, p)| Lit { src: s.into(), plain: p.into(), kind: "raw string" }),
        1 => select(vec!['x', 'é']).prop_map(|c| Lit { src: format!("'{c}'"), plain: c.to_string(), kind: "character" }),
        1 => (0u32..100).prop_map(|n| Lit { src: n.to_string(), plain: n.to_string(), kind: "decimal integer" }),
    ]
    .boxed()
}

pub fn name(cfg: &Cfg) -> BoxedStrategy<Name> {
    let mut arms = vec![
        (5, any::<u8>().prop_map(Name::Ident).boxed()),
        (1, any::<u8>().prop_map(Name::Raw).boxed()),
        (2, (name_lit(), 0u8..8).prop_map(|(l, w)| Name::Lit(l, w)).boxed()),
    ];
    if cfg.lit_names {
        // names that need escaping
        arms.push((1, (lits::any_lit(), 0u8..8).prop_map(|(l, w)| if l.kind == "negative" { Name::Ident(0) } else { Name::Lit(l, w) }).boxed()));
    }
    if cfg.dyn_names {
        arms.push((3, (0..NAMES, any::<u8>()).prop_map(|(kind, k)| Name::Dyn { kind, k, ev: 0, tr: false }).boxed()));
    }
    Union::new_weighted(arms).boxed()
}

pub fn any_tag() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => 0u16..101,
        2 => 101u16..115,
        2 => Just(FRAG),
        1 => Just(CLASSES),
        3 => select(vec!["div", "p", "span", "ul", "li", "a"]).prop_map(tag_of),
    ]
    .boxed()
}

pub fn item(cfg: &Cfg, child: BoxedStrategy<Ex>, value: BoxedStrategy<Ex>) -> BoxedStrategy<Item> {
    prop_oneof![
        5 => child.prop_map(Item::Child),
        3 => (name(cfg), value).prop_map(|(n, v)| Item::Attr(n, v)),
        1 => (name(cfg), bool_cond(), 0u8..3).prop_map(|(n, c, d)| Item::Bool(n, c, d)),
    ]
    .boxed()
}

pub fn element(cfg: &Cfg, tag: BoxedStrategy<u16>, items: BoxedStrategy<Vec<Item>>) -> BoxedStrategy<Ex> {
    let paths = cfg.paths;
    (tag, prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)], any::<bool>(), 0u8..8, items)
        .prop_map(move |(tag, delim, trail, path, items)| Ex::El {
            tag,
            delim,
            trail,
            path: if paths && path >= 6 { path - 5 } else { 0 },
            items,
        })
        .boxed()
}

pub fn items(cfg: &Cfg, child: BoxedStrategy<Ex>) -> BoxedStrategy<Vec<Item>> {
    let value = value(cfg, child.clone());
    let it = item(cfg, child, value);
    let max = cfg.items;
    prop_oneof![
        5 => prop::collection::vec(it.clone(), 0..=max),
        // the same again and again
        1 => alike(it, 2..=max.max(2)),
    ]
    .boxed()
}

/// Few different items, repeated.
pub fn alike(it: BoxedStrategy<Item>, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Item>> {
    (prop::collection::vec(it, 1..4), prop::collection::vec(any::<u8>(), n))
        .prop_map(|(pool, at)| at.into_iter().map(|i| pool[i as usize % pool.len()].clone()).collect())
        .boxed()
}

fn value(cfg: &Cfg, child: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    let a = atom(cfg);
    if cfg.el_in_attr {
        prop_oneof![5 => a, 1 => child].boxed()
    } else {
        let c = Cfg { wraps: cfg.wraps.clone(), ..cfg.clone() };
        let tag = prop_oneof![Just(FRAG), Just(CLASSES)].boxed();
        let kids = prop::collection::vec(a.clone().prop_map(Item::Child), 0..4).boxed();
        let joined = element(&c, tag, kids);
        prop_oneof![5 => a, 2 => joined].boxed()
    }
}

pub fn tree(cfg: &Cfg) -> BoxedStrategy<Ex> {
    let mut s = atom(cfg);
    for _ in 0..cfg.depth {
        s = node(cfg, s);
    }
    s
}

/// A template whose root is an element, fragment or class list.
pub fn root(cfg: &Cfg) -> BoxedStrategy<Ex> {
    let mut c = cfg.clone();
    c.depth -= 1;
    let s = tree(&c);
    element(cfg, any_tag(), items(cfg, s))
}

fn branch(cfg: &Cfg, inner: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    if cfg.diverge {
        prop_oneof![7 => inner, 1 => (0u8..3).prop_map(Ex::Diverge)].boxed()
    } else {
        inner
    }
}

pub fn if_node(cfg: &Cfg, inner: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    if_sized(cfg, inner, 3)
}

pub fn if_sized(cfg: &Cfg, inner: BoxedStrategy<Ex>, max: usize) -> BoxedStrategy<Ex> {
    let b = branch(cfg, inner);
    (prop::collection::vec((cond(COND_ALL), b.clone()), 1..=max), prop::option::of(b), same())
        .prop_map(|(mut arms, els, same)| {
            for i in 1..arms.len() {
                if same >> i & 1 == 1 {
                    arms[i].1 = arms[i - 1].1.clone();
                }
            }
            Ex::If { arms, els: els.map(Box::new) }
        })
        .boxed()
}

/// Which branches are written as the one before.
fn same() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 2 => any::<u8>()].boxed()
}

pub fn match_node(cfg: &Cfg, inner: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    match_sized(cfg, inner, 4)
}

pub fn match_sized(cfg: &Cfg, inner: BoxedStrategy<Ex>, max: usize) -> BoxedStrategy<Ex> {
    let b = branch(cfg, inner);
    let b = prop_oneof![4 => b, 1 => any::<u8>().prop_map(Ex::Bind)].boxed();
    (
        (0..SCRUTS, any::<u8>(), same()),
        prop::collection::vec((prop_oneof![6 => 0u8..6, 1 => Just(6u8)].prop_map(Pat), prop::option::weighted(0.4, guard()), b.clone()), 0..=max),
        b,
    )
        .prop_map(|((kind, k, same), mut arms, last)| {
            for i in 1..arms.len() {
                if same >> i % 8 & 1 == 1 {
                    arms[i].2 = arms[i - 1].2.clone();
                }
            }
            Ex::Match { scrut: Scrut { kind, k, ev: 0 }, arms, last: Box::new(last) }
        })
        .boxed()
}

pub fn node(cfg: &Cfg, inner: BoxedStrategy<Ex>) -> BoxedStrategy<Ex> {
    let mut arms: Vec<(u32, BoxedStrategy<Ex>)> = vec![(2, inner.clone()), (9, element(cfg, any_tag(), items(cfg, inner.clone())))];
    if !cfg.wraps.is_empty() {
        arms.push((
            3,
            (select(cfg.wraps.clone()), inner.clone()).prop_map(|(w, e)| Ex::Wrap(w, Box::new(e), 0)).boxed(),
        ));
    }
    if cfg.iter_map {
        arms.push((1, (any::<u8>(), select(if cfg.raw_delims { vec![0u8, 1, 2, 3] } else { vec![0, 1, 3] }), inner.clone()).prop_map(|(l, delim, b)| Ex::IterMap { l, delim, body: Box::new(b) }).boxed()));
    }
    if cfg.matches {
        arms.push((1, if_node(cfg, inner.clone())));
        arms.push((1, match_node(cfg, inner.clone())));
    }
    if cfg.comps {
        let el_in_attr = cfg.el_in_attr;
        arms.push((
            1,
            (0u8..4, any::<u8>(), prop::collection::vec(inner.clone(), 0..4))
                .prop_map(move |(shape, order, args)| {
                    // the second one puts a value in an attribute
                    let order = if shape == 1 && !el_in_attr { order / 3 * 3 } else { order };
                    Ex::Comp { shape, order, args }
                })
                .boxed(),
        ));
    }
    Union::new_weighted(arms).boxed()
}
