//! C18: wrapped branches.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::vals::{vals, Texts, Vals, NB, NI, NL, NO, NS};
use proptest::prelude::*;
use proptest::strategy::Union;
use vcore::driver::{Env as RunEnv, Obs};

#[derive(Clone, Debug)]
pub struct Case {
    ex: Ex,
    vals: Vec<Vals>,
    how: u8,
    /// How branches that diverge do.
    kind: u8,
    /// Whether conditions change.
    tick: bool,
    /// How much is not logged.
    sparse: u32,
}

fn cfg(depth: u32, diverge: bool) -> Cfg {
    let mut wraps = vec![W::Paren, W::Block, W::Let, W::Hoist, W::Some, W::IterOne, W::Id, W::FragOne, W::MatchOne, W::Ev, W::Stmts];
    if !diverge {
        wraps.extend([W::Func, W::Closure]);
    }
    Cfg {
        depth,
        items: 4,
        iter_map: false,
        diverge,
        wraps,
        leaf_kinds: (0..LEAVES).filter(|k| *k != 44).collect(),
        ..Cfg::default()
    }
}

fn tree(depth: u32, arms: usize, diverge: bool) -> BoxedStrategy<Ex> {
    let c = cfg(depth, diverge);
    let atom = gen::atom(&c);
    let mut s = atom.clone();
    for _ in 0..depth {
        s = Union::new_weighted(vec![
            (3, gen::if_sized(&c, s.clone(), arms)),
            (4, gen::match_sized(&c, s.clone(), arms)),
            (2, gen::element(&c, gen::any_tag(), gen::items(&c, s.clone()))),
            (1, gen::node(&Cfg { matches: false, ..c.clone() }, s.clone())),
            (1, atom.clone()),
        ])
        .boxed();
    }
    prop_oneof![gen::if_sized(&c, s.clone(), arms), gen::match_sized(&c, s, arms)].boxed()
}

fn case(depth: u32, arms: usize, diverge: bool) -> BoxedStrategy<Case> {
    (tree(depth, arms, diverge), prop::collection::vec(vals(Texts::Mixed), 6), 0u8..6, 0u8..3, prop::bool::weighted(0.3), prop_oneof![Just(0u32), Just(4), Just(8)])
        .prop_map(move |(ex, vals, how, kind, tick, sparse)| Case { ex, vals, how, kind, tick, sparse })
        .boxed()
}

fn build(c: &Case, obs: &mut Obs) -> Job {
    let mut ex = c.ex.clone();
    // all alike, so that it does not matter which comes first
    ex.walk(&mut |e| {
        if let Ex::Diverge(k) = e {
            *k = c.kind
        }
    });
    obs.class_if(c.tick && ex.tick(), "conditions that change");
    let plain_ex = ex.clone();
    let mut n = 0;
    ex.number(&mut n, false, 0, c.sparse);
    let mut em = Em::new();
    em.temps = false;
    let around = |e: &str| match c.how {
        0 | 1 => e.to_string(),
        2 => format!("div!({e})"),
        3 => format!("div!(id = {e}, \"z\")"),
        4 => format!("laby::p!(\"a\", {e})"),
        _ => format!("[{e}]"),
    };
    let render = |e: &str| match c.how {
        5 => format!("render!(iter!({e}))"),
        _ => format!("render!({e})"),
    };
    let e = em.ex(&ex);
    let st = em.take_stmts();
    let mut body = format!(
        "let r = h::run(|| -> ::std::string::String {{\n{st}\nlet node = {};\nh::mark();\n{}\n}});\nout.push(r);\nout.push(h::take_log());\n",
        around(&e),
        render("node")
    );
    em.plain = true;
    let e = em.ex(&plain_ex);
    let st = em.take_stmts();
    body.push_str(&format!("out.push(h::run(|| -> ::std::string::String {{\n{st}\nlet node = {};\n{}\n}}));\n", around(&e), render("node")));
    let mut exps = vec![];
    let (mut returns, mut panics, mut none) = (0, 0, 0);
    for v in &c.vals {
        let mut env = Env::new(v);
        env.temps = false;
        exps.push(match env.text(&ex) {
            Ok(t) => {
                none += t.is_empty() as u64;
                let t = match c.how {
                    2 => format!("<div>{t}</div>"),
                    3 => format!("<div id=\"{t}\">z</div>"),
                    4 => format!("<p>a{t}</p>"),
                    _ => t,
                };
                env.log.sort();
                vec![Exp::Eq(format!("ok:{t}")), Exp::Eq(format!("{}|", env.log.join(" "))), Exp::Same(0)]
            }
            Err(Halt::Return) => {
                returns += 1;
                vec![Exp::Eq("ok:early".into()), Exp::Any, Exp::Same(0)]
            }
            Err(Halt::Panic) => {
                panics += 1;
                vec![Exp::Eq("panic".into()), Exp::Any, Exp::Same(0)]
            }
        });
    }
    obs.count("values returning early", returns);
    obs.count("values panicking", panics);
    obs.count("values selecting nothing or nothing visible", none);
    let branches = c.ex.count(&mut |e| match e {
        Ex::If { arms, .. } => arms.len(),
        Ex::Match { arms, .. } => arms.len() + 1,
        _ => 0,
    });
    obs.count("branches", branches as u64);
    obs.class_if(c.ex.count(&mut |e| matches!(e, Ex::If { .. } | Ex::Match { .. }) as usize) > 1, "nested branches");
    obs.nontrivial = branches > 1;
    Job { ctx: CTX, items: em.items, body, exps, vals: c.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

// ---- forms: written once, with wrapped and with ordinary branches ----

/// `FM{..}` is the match or if, `B{..}` a branch, `ELSE` where there is no final else.
/// `@s`, `@s2`, `@i`, `@b`, `@o`, `@l` are values. The code pushes to `o: &mut String`.
const FORMS: &[(&str, &str)] = &[
    ("values bound by move", "let n = FM{match v.o[@o].clone() { Some(s) => B{s}, None => B{1} }}; o.push_str(&render!(n));"),
    ("bindings by reference", "let n = FM{match v.s[@s] { ref s if s.is_empty() => B{\"empty\"}, ref s => B{s.as_str()} }}; o.push_str(&render!(n));"),
    ("bindings by mutable reference", "let mut t = v.o[@o].clone(); let n = FM{match t { Some(ref mut s) => B{{ s.push('!'); s.as_str() }}, None => B{()} }}; o.push_str(&render!(n)); o.push_str(&format!(\"{:?}\", t));"),
    ("scrutinee borrowed mutably", "let mut t = (v.s[@s].clone(), v.i[@i]); let n = FM{match &mut t { (s, 0) => B{s.len()}, (s, i) => B{{ s.push('<'); *i = i.wrapping_add(1); s.as_str() }} }}; o.push_str(&render!(div!(n)));"),
    ("constants and ranges", "const LOW: i64 = -2; const HIGH: i64 = 3; let n = FM{match v.i[@i] { i64::MIN..=LOW => B{\"low\"}, 0 => B{0}, LOW..=HIGH => B{'m'}, 100.. => B{v.s[@s].as_str()}, x @ (4 | 5 | 99) => B{x}, x => B{x as i128} }}; o.push_str(&render!(n));"),
    ("constant paths", "let n = FM{match v.s[@s].as_str() { h::STR => B{\"const\"}, \"\" | \"a\" => B{()}, s @ (\"b\" | \"<b>\") => B{s}, s => B{s.len()} }}; o.push_str(&render!(n));"),
    ("local enum", "enum E<'a> { A, B(&'a str), C { x: i64, y: &'a str }, D(Box<E<'a>>) } use E::*;
        let e = match v.i[@i] { 0 => A, 1..=9 => E::B(&v.s[@s]), 10.. => C { x: v.i[@i], y: &v.s[@s2] }, _ => D(Box::new(E::B(&v.s[@s2]))) };
        let n = FM{match e { A => B{\"a\"}, E::B(s) if s.len() > 3 => B{p!(s)}, E::B(s) => B{s}, C { x: 10..=50, .. } => B{'c'}, C { x, y: name } => B{frag!(x, name)}, D(e) => B{FM{match *e { E::B(s) => B{i!(s)}, _ => B{0} }}} }}; o.push_str(&render!(n));"),
    ("continue and break", "for (k, x) in ll.iter().copied().enumerate() { let n = FM{match k { 0 => B{p!(x)}, 1 => continue, 3 => break, _ => B{x} }}; o.push_str(&render!(n)); } o.push('.');"),
    ("labelled breaks", "'outer: for k in 0..3 { for x in ll.iter().copied() { let n = FM{if x.is_empty() { continue 'outer } else if k == 2 { break 'outer } else { B{li!(k, x)} }}; o.push_str(&render!(ul!(n))); } o.push('/'); }"),
    ("break with a value", "let t = loop { let n = FM{match v.b[@b] { true => break 7, false => B{b!(\"no\")} }}; o.push_str(&render!(n)); break 8; }; o.push_str(&render!(t));"),
    ("labelled block", "let t = 'blk: { let n = FM{if v.b[@b] { break 'blk \"left\" } else { B{1} }}; o.push_str(&render!(n)); \"through\" }; o.push_str(t);"),
    ("question mark", "let f = || -> Option<String> { let n = FM{match v.i[@i] { 0 => B{v.o[@o].as_deref()?}, x if x < 0 => B{ll.first()?.len()}, _ => B{'x'} }}; Some(render!(n)) }; o.push_str(&format!(\"{:?}\", f()));"),
    ("question mark in the scrutinee", "let f = || -> Result<String, String> { let n = FM{match v.o[@o].as_ref().ok_or(\"none\".to_string())?.as_str() { \"\" => return Ok(\"empty\".into()), x => B{x} }}; Ok(render!(p!(n))) }; o.push_str(&format!(\"{:?}\", f()));"),
    ("returns from a function", "fn f(v: &h::V) -> String { let n = FM{match v.i[@i] { 0 => return h::text(\"zero\"), 1..=9 => B{small!(\"1\")}, x if x < 0 => return render!(x), _ => B{\"many\"} }}; render!(n, \"!\") } o.push_str(&f(v));"),
    ("or-patterns with bindings", "let r: Result<&str, &str> = if v.b[@b] { Ok(&v.s[@s]) } else { Err(&v.s[@s2]) }; let n = FM{match r { Ok(\"\") => B{0}, Ok(x) | Err(x) if x.len() > 2 => B{x}, Ok(_) | Err(_) => B{()} }}; o.push_str(&render!(n));"),
    ("nested or-patterns", "let n = FM{match (v.o[@o].as_deref(), v.b[@b]) { (Some(\"\" | \"a\"), _) => B{\"small\"}, (Some(x), true) | (Some(x), false) if x.len() < 4 => B{x}, (None, b) | (Some(_), b) => B{b} }}; o.push_str(&render!(n));"),
    ("characters", "let n = FM{match v.s[@s].chars().next() { Some('a'..='z') => B{\"lower\"}, Some(c @ ('A'..='Z' | '0'..='9')) => B{c}, Some('<' | '>' | '&') => B{\"special\"}, Some(c) => B{c as u32}, None => B{()} }}; o.push_str(&render!(n));"),
    ("slices", "let n = FM{match ll.as_slice() { [] => B{\"none\"}, [x] => B{*x}, [a, b] => B{frag!(*a, *b)}, [first, .., last] if first == last => B{\"same\"}, [first, rest @ ..] => B{p!(*first, rest.len())} }}; o.push_str(&render!(n));"),
    ("struct patterns", "let t = h::S { x: v.i[@i] }; let n = FM{match t { h::S { x: 0 } => B{\"zero\"}, h::S { x } if x < 0 => B{x}, h::S { x: y @ 1..=9 } => B{u!(y)}, h::S { .. } => B{'S'} }}; o.push_str(&render!(n));"),
    ("references and dereferences", "let t = &&v.i[@i]; let n = FM{match t { &&0 => B{0u8}, &&x if x % 2 == 0 => B{x}, _ => B{\"odd\"} }}; o.push_str(&render!(n));"),
    ("if let chains of else", "let n = FM{if let Some(x) = v.o[@o].as_deref() { B{x} } else if let [x, ..] = ll.as_slice() { B{b!(*x)} } else if v.b[@b] { B{1} } else if let Ok(x) = v.s[@s].parse::<u8>() { B{x} } else { B{'-'} }}; o.push_str(&render!(n));"),
    ("no final else", "let n = FM{if v.b[@b] { B{v.s[@s].as_str()} } else if v.i[@i] > 0 { B{v.i[@i]} }ELSE}; o.push_str(&render!(div!(n, \"|\")));"),
    ("no final else after if let", "let n = FM{if let Some(x) = &v.o[@o] { B{i!(&x[..])} }ELSE}; o.push_str(&render!(n, n2(v)));fn n2(_: &h::V) -> u8 { 1 }"),
    ("statements in branches", "let n = FM{match v.o[@o].as_deref() { Some(x) => { let k = x.len(); let k = k * 2; B{k} } None => { let t = v.s[@s].clone(); B{t} } }}; o.push_str(&render!(n));"),
    ("statements in branches of an if", "let n = FM{if v.i[@i] > 0 { let k = v.i[@i]; let _unused = 0; B{k} } else { let t = v.s[@s].clone(); let mut u = t; u.push('>'); B{u} }}; o.push_str(&render!(n));"),
    ("nothing in branches", "let n = FM{match v.i[@i] { 0 => B{()}, 1..=9 => B{{}}, _ => B{\"x\"} }}; o.push_str(&render!(n)); let n = FM{if v.b[@b] { B{()} } else { B{{}} }}; o.push_str(&render!(n));"),
    ("leading bars and blocks", "let n = FM{match v.i[@i] { | 0 | 1 => { B{\"a\"} } | 2..=99 if v.b[@b] => { B{2} } _ => { B{p!()} } }}; o.push_str(&render!(n));"),
    ("scrutinee with effects", "let mut k = v.i[@i] & 3; let n = FM{match { k += 1; k } { 1 => B{\"one\"}, 2 if { k = 7; v.b[@b] } => B{\"two\"}, x => B{x} }}; o.push_str(&render!(n)); o.push_str(&render!(k));"),
    ("guards with effects", "let mut log = vec![]; let n = FM{match v.i[@i] { _ if { log.push(1); v.b[@b] } => B{1}, x if { log.push(2); x > 3 } => B{x}, 0 => B{'0'}, _ if { log.push(3); false } => B{\"never\"}, _ => B{()} }}; o.push_str(&render!(n)); o.push_str(&format!(\"{:?}\", log));"),
    ("conditions with effects", "let mut log = vec![]; let n = FM{if { log.push(1); v.b[@b] } { log.push(10); B{1} } else if { log.push(2); v.i[@i] > 0 } { log.push(20); B{'2'} } else { log.push(30); B{\"3\"} }}; o.push_str(&render!(n)); o.push_str(&format!(\"{:?}\", log));"),
    ("moved into one branch each", "let t = v.s[@s].clone(); let n = FM{match v.i[@i] { 0 => B{t}, 1..=9 => B{Some(t)}, x if x < 0 => B{iter!([t])}, _ => B{div!(t)} }}; o.push_str(&render!(n));"),
    ("closures and iterators of different types", "let n = FM{match v.i[@i] { 0 => B{iter!(ll.iter().copied())}, 1..=9 => B{iter!(\", \", ll.iter().copied().map(|x| li!(x)))}, x if x < 0 => B{iter_lines!(ll.iter().copied().rev())}, _ => B{disp!(v.i[@i])} }}; o.push_str(&render!(ol!(n)));"),
    ("as an argument", "o.push_str(&render!(div!(class = FM{match v.b[@b] { true => B{\"on\"}, false => B{()} }}, id = FM{if v.i[@i] > 3 { B{v.i[@i]} } else { B{v.s[@s].as_str()} }}, FM{match v.o[@o].as_deref() { Some(x) => B{b!(x)}, None => B{br!()} }})));"),
    ("nested directly", "let n = FM{match v.i[@i] { 0 => B{FM{if v.b[@b] { B{1} } else { B{\"f\"} }}}, x if x > 3 => B{FM{match v.o[@o].as_deref() { Some(y) => B{frag!(x, y)}, None => B{FM{match x % 2 { 0 => B{'e'}, _ => B{\"odd\"} }}} }}}, _ => B{()} }}; o.push_str(&render!(n));"),
    ("names of the expansion's own kind", "let (variant_1, vars, decls, name, expr, buffer, t1) = (1, 2, 3, 4, &v.s[@s], 6, 7); let n = FM{match v.b[@b] { true => B{frag!(variant_1, vars, decls, name)}, false => B{p!(expr.as_str(), buffer, t1)} }}; o.push_str(&render!(n));"),
    ("within a match", "let n = FM{match (match v.i[@i] { 0 => None, x => Some(x) }) { Some(x) if x > 2 => B{match x % 2 { 0 => \"even\", _ => \"odd\" }}, Some(x) => B{if x > 0 { 'p' } else { 'n' }}, None => B{1.5} }}; o.push_str(&render!(n));"),
    ("values rendered later", "let mut all = Vec::new(); for x in ll.iter().copied() { all.push(FM{match x.len() { 0 => B{hr!()}, 1..=3 => B{p!(x)}, _ => B{x} }}); } all.reverse(); o.push_str(&render!(iter!(all)));"),
    ("booleans", "let n = FM{match (v.b[@b], v.i[@i] > 0) { (true, true) => B{1}, (true, false) => B{\"2\"}, (false, x) => B{x} }}; o.push_str(&render!(n));"),
    ("diverging in all but one", "let f = || -> String { let n = FM{match v.i[@i] { 0 => return h::text(\"r\"), 1..=9 => B{\"some\"}, x if x < -3 => return h::text(\"s\"), _ => return h::text(\"t\") }}; render!(n) }; o.push_str(&f());"),
    ("panicking", "let r = h::run(|| { let n = FM{match v.i[@i] { 0 => panic!(\"zero\"), x if x < 0 => unreachable!(\"{}\", x), 1..=9 => B{\"ok\"}, _ => todo!() }}; render!(n) }); o.push_str(&r);"),
];

#[derive(Clone, Debug)]
pub struct Form {
    which: usize,
    ks: [u8; 7],
    vals: Vec<Vals>,
}

fn form(i: u64) -> BoxedStrategy<Form> {
    (any::<[u8; 7]>(), prop::collection::vec(vals(Texts::Mixed), 8))
        .prop_map(move |(ks, vals)| Form { which: i as usize % FORMS.len(), ks, vals })
        .boxed()
}

/// Replaces every `tag{..}`, inner ones first.
fn replace(s: &str, tag: &str, f: &dyn Fn(&str) -> String) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(p) = find_word(rest, tag) {
        o.push_str(&rest[..p]);
        let from = p + tag.len();
        let mut d = 0;
        let mut end = from;
        for (i, c) in rest[from..].char_indices() {
            match c {
                '{' => d += 1,
                '}' => {
                    d -= 1;
                    if d == 0 {
                        end = from + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        o.push_str(&f(&replace(&rest[from + 1..end], tag, f)));
        rest = &rest[end + 1..];
    }
    o.push_str(rest);
    o
}

fn find_word(s: &str, tag: &str) -> Option<usize> {
    let t = format!("{tag}{{");
    s.match_indices(&t).map(|x| x.0).find(|p| !s[..*p].ends_with(|c: char| c.is_alphanumeric() || c == '_'))
}

fn build_form(c: &Form, obs: &mut Obs) -> Job {
    let (name, text) = FORMS[c.which];
    obs.class(name);
    obs.nontrivial = true;
    let mut t = text.to_string();
    for (a, k, n) in [("@s2", 1, NS), ("@s", 0, NS), ("@i", 2, NI), ("@b", 3, NB), ("@o", 4, NO), ("@l", 5, NL)] {
        t = t.replace(a, &(c.ks[k] % n).to_string());
    }
    let delim = c.ks[6];
    let path = ["", "laby::", "::laby::"][delim as usize / 3 % 3];
    let wrapped = replace(&replace(&t, "B", &|s| s.to_string()), "FM", &|s| delimit(&format!("{path}frag_match"), &s.replace("ELSE", ""), delim));
    let wrapped = wrapped.replace("}}ELSE", "}}");
    let plain = replace(&replace(&t, "B", &|s| format!("render!({s})")), "FM", &|s| format!("raw!({})", s.replace("ELSE", " else { h::text(\"\") }")));
    let ll = format!("let ll: Vec<&str> = v.l[{}].iter().map(|x| &x[..]).collect();", c.ks[5] % NL);
    let body = format!("{{\nlet mut oo = h::text(\"\"); let o = &mut oo; {ll}\n{wrapped}\nout.push(&oo);\n}}\n{{\nlet mut oo = h::text(\"\"); let o = &mut oo; {ll}\n{plain}\nout.push(&oo);\n}}\n");
    Job { ctx: CTX, items: String::new(), body, exps: vec![vec![Exp::Any, Exp::Same(0)]; c.vals.len()], vals: c.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

// ---- many branches ----

#[derive(Clone, Debug)]
pub struct Many {
    n: usize,
    bodies: Vec<u8>,
    k: u8,
    as_if: bool,
    vals: Vec<Vals>,
}

fn many() -> BoxedStrategy<Many> {
    (1usize..150, prop::collection::vec(0u8..7, 150), any::<u8>(), any::<bool>(), prop::collection::vec((vals(Texts::Mixed), any::<u8>()), 8))
        .prop_map(|(n, bodies, k, as_if, vs)| {
            let vals = vs
                .into_iter()
                .map(|(mut v, x)| {
                    // most values select a branch
                    v.i[(k % NI) as usize] = x as i64 % (n as i64 + 2);
                    v
                })
                .collect();
            Many { n, bodies, k, as_if, vals }
        })
        .boxed()
}

fn build_many(c: &Many, obs: &mut Obs) -> Job {
    obs.nontrivial = c.n > 1;
    obs.class_if(c.n >= 20, "20 branches or more");
    obs.class_if(c.n >= 100, "100 branches or more");
    let i = c.k % NI;
    let body = |j: usize| match c.bodies[j] {
        0 => format!("{j}"),
        1 => format!("\"<{j}>\""),
        2 => format!("p!({j})"),
        3 => format!("Some({j}u8)"),
        4 => format!("iter!([{j}])"),
        5 => format!("v.s[{}].as_str()", j % NS as usize),
        _ => "()".into(),
    };
    let text = |j: usize, v: &Vals| match c.bodies[j] {
        0 | 3 | 4 => j.to_string(),
        1 => format!("&lt;{j}&gt;"),
        2 => format!("<p>{j}</p>"),
        5 => vcore::text::esc(&v.s[j % NS as usize]),
        _ => String::new(),
    };
    let src = if c.as_if {
        let l: Vec<_> = (0..c.n).map(|j| format!("if v.i[{i}] == {j} {{ {} }}", body(j))).collect();
        l.join(" else ")
    } else {
        let l: Vec<_> = (0..c.n).map(|j| format!("{j} => {},", body(j))).collect();
        format!("match v.i[{i}] {{ {} _ => '*' }}", l.join(" "))
    };
    let exps = c
        .vals
        .iter()
        .map(|v| {
            let x = v.i[i as usize];
            let t = if x >= 0 && (x as usize) < c.n { text(x as usize, v) } else if c.as_if { String::new() } else { "*".into() };
            vec![Exp::Eq(format!("<div>{t}</div>"))]
        })
        .collect();
    Job { ctx: CTX, items: String::new(), body: format!("out.push(render!(div!(frag_match!({src}))));"), exps, vals: c.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c18(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("forms", env.n(FORMS.len() as u64 * 12, FORMS.len() as u64 * 150), 24, form, build_form),
        prog("trees", env.n(900, 15000), 20, |i| case(1 + (i % 2) as u32, 5, false), build),
        prog("deep", env.n(150, 3000), 10, |_| case(3, 3, false), build),
        prog("diverging", env.n(600, 10000), 20, |i| case(1 + (i % 2) as u32, 4, true), build),
        prog("many", env.n(120, 1500), 15, |_| many(), build_many),
    ]
}

/// The documented example with a diverging branch, with the lints a user's crate has.
const EXAMPLE: &str = r#"
use laby::*;
pub fn example() -> String {
    let mut vec = Vec::new();

    for value in ["div", "span", "img"] {
        vec.push(frag_match!(match value {
            "div" => div!(),
            "span" => span!(),
            "img" => img!(),
            _ => unreachable!(),
        }));
    }

    render!(iter!(vec))
}
"#;
const LINT: &str = "dependency_on_unit_never_type_fallback";

/// What the example fails with, if it does: the finding known, or something else.
pub fn probe(env: &RunEnv) -> Result<Option<String>, String> {
    let rc = Rustc::new(&env.work);
    let (ok, errors) = rc.check(&Ctx { lints: true, ..CTX }, EXAMPLE);
    if ok {
        return Ok(None);
    }
    if errors.iter().all(|e| e.code == LINT) {
        return Ok(Some(format!(
            "frag_match! with a branch of type `!` such as `_ => unreachable!()` (the documented example) is rejected by the lint {LINT}, denied by default, because the branch's Option has no type but the fallback"
        )));
    }
    Err(format!("the documented example does not compile: {}", errors.first().map(|e| e.text.clone()).unwrap_or_default()))
}
