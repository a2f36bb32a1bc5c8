//! C11: literals.
use crate::ast::wrap_lit;
use crate::engine::*;
use crate::lits::{self, Lit};
use crate::vals::Vals;
use proptest::prelude::*;
use vcore::driver::{Env as RunEnv, Obs};

#[derive(Clone, Debug)]
pub struct Lits {
    /// literal, how it is wrapped, where it is
    lits: Vec<(Lit, u8, u8)>,
}

const PLACES: u8 = 16;

/// The template with the literal, and with a variable `x` in its place.
fn place(l: &str, other: &str, k: u8) -> String {
    match k % PLACES {
        0 => format!("render!(div!({l}))"),
        1 => format!("render!(div!(class = {l}))"),
        2 => format!("render!(div!({l} = \"v\"))"),
        3 => format!("render!(div!({l} = bool!(v.b[0]), id = bool!(v.b[1])))"),
        4 => format!("render!(div!({l} = bool!(true), \"c\"))"),
        5 => format!("render!(ul!(li!({l}), frag!(\"a\", {l}, b!({l}))))"),
        6 => format!("render!(classes!(\"a\", {l}, \"b\"))"),
        7 => format!("render!({l})"),
        8 => format!("render!({l}, {l})"),
        9 => format!("render!(card!(title = {l}, {l}, \"x\"))"),
        10 => format!("render!(frag_match!(match v.b[0] {{ true => {l}, false => () }}))"),
        11 => format!("render!(p!({other}, {l}, a = {l}, {other}))"),
        12 => format!("render!(p!(class = classes!({l}, {other}), {l} = {l}))"),
        13 => format!("render!(input!(value = {l}, {l} = {other}))"),
        14 => format!("render!(laby::p!({l}, ::laby::span!({l})))"),
        _ => format!("render!(p!(frag!(frag!({l})), {l}))"),
    }
}

fn build(t: &Lits, obs: &mut Obs) -> Job {
    let mut body = String::new();
    let mut exps = vec![];
    for (i, (l, w, k)) in t.lits.iter().enumerate() {
        let other = &t.lits[(i + 1) % t.lits.len()].0.src;
        let around = l.kind == "expression around a literal";
        let named = matches!(k % PLACES, 2 | 3 | 4 | 12 | 13);
        let a = place(&wrap_lit(&l.src, if around && named { 1 } else { *w }), other, *k);
        // a bare variable as a name would be the name
        let name = matches!(k % PLACES, 2 | 3 | 4 | 12 | 13);
        let b = place(if name { "(x)" } else { "x" }, "y", *k);
        body.push_str(&format!("out.push({a});\n{{ let x = {}; let y = {other}; out.push({b}); }}\n", l.src));
        exps.push(Exp::Any);
        exps.push(Exp::Same(i * 2));
        obs.class(l.kind);
        obs.class_if(w % 8 > 0 && w % 8 < 5, "in parentheses or braces");
        obs.nontrivial = true;
    }
    let vals = vec![Vals { b: vec![true, true, false, true, false, true], ..Vals::default() }, Vals { b: vec![false; 6], ..Vals::default() }];
    Job {
        ctx: CTX,
        items: "#[laby]\nfn card(title: impl Render, #[rest] children: impl Render) -> impl Render { article!(h1!(title), children) }".into(),
        body,
        exps: vec![exps; vals.len()],
        vals,
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

fn many(l: impl Fn() -> BoxedStrategy<Lit>) -> BoxedStrategy<Lits> {
    prop::collection::vec((l(), 0u8..8, 0..PLACES), 1..8).prop_map(|lits| Lits { lits }).boxed()
}

pub fn c11(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("all", env.n(500, 10000), 20, |_| many(lits::any_lit), build),
        prog("numbers", env.n(500, 10000), 20, |i| many(if i % 2 == 0 { lits::float } else { lits::integer }), build),
        prog("text", env.n(300, 6000), 20, |i| many(if i % 3 == 0 { lits::character } else { lits::string }), build),
        prog("around literals", env.n(400, 8000), 20, |i| many(if i % 3 == 0 { lits::negative } else { lits::around }), build),
        prog("long", env.n(60, 900), 6, |_| many(|| prop_oneof![4 => lits::long(), 1 => lits::any_lit()].boxed()), build),
        prog("bytes and booleans", env.n(60, 600), 20, |i| many(if i % 3 == 0 { lits::boolean } else { lits::byte }), build),
    ]
}
