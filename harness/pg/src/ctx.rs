//! C22: the same templates in crates and scopes of all kinds.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::vals::{vals, Texts, Vals, NS};
use proptest::prelude::*;
use vcore::driver::{Env as RunEnv, Obs};

/// Where a template is written and what is around.
#[derive(Clone, Debug)]
pub struct Place {
    edition: u8,
    no_std: bool,
    import: u8,
    container: u8,
    /// What shadows, as a set of the kinds below.
    shadows: u32,
    /// Local variables with telling names, used in the template.
    names: bool,
    lints: u8,
}

#[derive(Clone, Debug)]
pub struct Case {
    ex: Ex,
    place: Place,
    how: u8,
    vals: Vec<Vals>,
}

const EDITIONS: [&str; 3] = ["2018", "2021", "2024"];
const IMPORTS: [&str; 8] = ["glob", "by name", "by name with other macros renamed", "path", "absolute path", "renamed crate", "glob in the function", "glob through a prelude module"];
const CONTAINERS: [&str; 16] = [
    "function", "method", "closure", "generic function", "async function", "const generic function", "default method of a trait",
    "nested function", "macro of the caller", "async block", "argument of another macro", "move closure in a thread-like call",
    "operator implementation", "inner module", "unsafe and extern function", "struct and array",
];

/// Names of the caller, at module level.
const SHADOWS: [(&str, &str); 22] = [
    ("types named like those of the prelude", "pub struct Option; pub struct Vec; pub struct String; pub struct Box; pub struct Result; pub struct Rc; pub struct Cow;"),
    ("traits named like those of the prelude", "pub trait Iterator {} pub trait IntoIterator {} pub trait Into {} pub trait From {} pub trait Default {} pub trait Clone {} pub trait Copy {} pub trait Drop {} pub trait AsRef {} pub trait ToString {} pub trait Fn {} pub trait FnOnce {} pub trait FnMut {} pub trait Send {} pub trait Sync {} pub trait Sized {} pub trait Extend {} pub trait ToOwned {}"),
    ("generic types named like those of the prelude", "pub enum Option<A, B> { X(A), Y(B) } pub struct Vec<const N: i32>; pub enum Result<A> { Yes(A), No } pub struct String<'a>(&'a i32);"),
    ("variants named like those of the prelude", "pub enum Maybe { Some(i32, i32), None { x: i32 }, Ok, Err } pub use self::Maybe::*;"),
    ("constants and functions named like variants of the prelude", "pub const None: i32 = 3; pub fn Some(x: i32, y: i32) -> i32 { x + y } pub fn Ok() {} pub static Err: i32 = 1;"),
    ("functions named like those of the prelude", "pub fn drop(x: i32, y: i32) -> i32 { x + y } pub fn default() -> i32 { 1 } pub fn from(x: i32) -> i32 { x } pub fn into() {} pub fn size_of() {} pub fn align_of() {}"),
    ("functions named like elements", "pub fn div() -> i32 { 1 } pub fn p() {} pub fn html(x: i32) -> i32 { x } pub fn frag() {} pub fn classes() {} pub fn a() {} pub fn br() {} pub fn render() {} pub fn raw() {} pub fn iter() {} pub fn disp() {} pub fn escape() {}"),
    ("types named like elements", "pub struct div; pub struct p; pub enum html {} pub struct span<T>(T); pub trait ul {} pub struct laby_element; pub type a = i32;"),
    ("modules named like elements", "pub mod div { pub struct div; } pub mod p {} pub mod frag {} pub mod html {} pub mod a {} pub mod render {} pub mod classes {}"),
    ("modules named like crates", "pub mod core { pub struct option; } pub mod std { pub mod option { pub struct Option; } } pub mod alloc { pub mod string {} } pub mod laby_common {} pub mod laby_macros {} pub mod internal {}"),
    ("a module named laby", "pub mod laby { pub struct Render; pub mod internal { pub struct Buffer; } }"),
    ("macros named like those of the prelude", "@MACROS@"),
    ("types named like those of laby", "pub struct Render; pub struct Buffer; pub struct RenderIterator; pub struct RenderRaw; pub struct RenderDisplay; pub struct DocType; pub mod internal {}"),
    ("a trait with methods for everything", "pub trait Everything { fn render(&self, x: i32) -> i32 { x } fn fmt(&self) {} fn write_str(&self) {} fn escape(&self) {} fn len2(&self) {} fn borrow(&self) {} fn into_render(self) where Self: ::core::marker::Sized {} fn to_html(&self) {} fn write(&self) {} fn write_fmt(&self) {} } impl<X: ?::core::marker::Sized> Everything for X {}"),
    ("a trait with consuming methods for everything", "pub trait Consume: ::core::marker::Sized { fn render(self) -> i32 { 1 } fn render_into(self) {} fn build(self) {} fn finish(self) {} fn size_hint2(self) {} fn html(self) {} } impl<X> Consume for X {}"),
    ("primitive types", "pub struct str; pub struct bool; pub struct usize; pub struct u8; pub struct char;"),
    ("generic parameter names", "pub struct T1; pub struct T2; pub struct T; pub trait R {} pub struct S1; pub type T3 = T1; pub const T4: u32 = 0;"),
    ("associated names", "pub struct Node; pub struct Element; pub struct Attr; pub struct Fragment; pub struct Children; pub fn node() {} pub fn attr() {} pub fn element() {} pub fn children() {} pub fn tag() {}"),
    ("the caller's own Render trait", "pub trait Render { fn render(self) -> i32; } impl Render for i32 { fn render(self) -> i32 { self } } impl<'a> Render for &'a [i32] { fn render(self) -> i32 { 0 } } impl<X: Render> Render for (X,) { fn render(self) -> i32 { self.0.render() } }"),
    ("labels and statics", "pub static VARS: i32 = 1; pub static mut DECLS: i32 = 2; pub const NODE: i32 = 1; pub const BUFFER: i32 = 2; pub const T: i32 = 0; pub const VARIANT: i32 = 2;"),
    ("standard traits of other names", "pub use ::core::fmt::Write as _; pub use ::core::fmt::Display as Render2; pub use ::core::borrow::Borrow as _; pub use ::core::convert::AsRef as _; pub use ::core::iter::Iterator as _;"),
    ("blanket conversions", "pub struct Wild; impl ::core::convert::From<Wild> for &'static i32 { fn from(_: Wild) -> Self { &1 } } impl<X> ::core::cmp::PartialEq<X> for Wild { fn eq(&self, _: &X) -> ::core::primitive::bool { false } } impl ::core::convert::AsRef<Wild> for Wild { fn as_ref(&self) -> &Wild { self } } impl ::core::ops::Deref for Wild { type Target = (); fn deref(&self) -> &() { &() } }"),
];
const MACROS: [&str; 18] = [
    "concat", "format_args", "format", "write", "writeln", "vec", "matches", "panic", "assert", "assert_eq", "debug_assert", "unreachable", "todo",
    "stringify", "include_str", "line", "env", "cfg",
];
/// Not together with others: they define the same names.
const CONFLICTS: [(u32, u32); 9] = [(0, 2), (3, 4), (6, 7), (7, 8), (6, 16), (12, 18), (13, 14), (16, 19), (12, 9)];

/// Local variables.
const LOCALS: [&str; 24] = [
    "t1", "buffer", "b", "node", "tag", "name", "value", "children", "expr", "args", "string", "t2", "s", "n", "x", "vars", "decls", "variant_1", "render",
    "text", "out2", "ctx", "writer", "html_string",
];

fn place() -> BoxedStrategy<Place> {
    (
        0u8..3,
        prop::bool::weighted(0.25),
        0..IMPORTS.len() as u8,
        0..CONTAINERS.len() as u8,
        prop_oneof![2 => Just(0u32), 3 => (0..SHADOWS.len() as u32).prop_map(|k| 1 << k), 3 => any::<u32>(), 1 => Just(u32::MAX)],
        any::<bool>(),
        0u8..4,
    )
        .prop_map(|(edition, no_std, import, container, shadows, names, lints)| {
            let mut p = Place { edition, no_std, import, container, shadows, names, lints };
            p.settle();
            p
        })
        .boxed()
}

impl Place {
    fn has(&self, name: &str) -> bool {
        SHADOWS.iter().position(|s| s.0 == name).map(|k| self.shadows >> k & 1 == 1).unwrap()
    }
    fn drop(&mut self, name: &str) {
        let k = SHADOWS.iter().position(|s| s.0 == name).unwrap();
        self.shadows &= !(1 << k);
    }
    fn settle(&mut self) {
        for (a, b) in CONFLICTS {
            if self.shadows >> a & 1 == 1 && self.shadows >> b & 1 == 1 {
                self.shadows &= !(1 << if self.edition == 1 { a } else { b });
            }
        }
    }
    fn root(&self) -> &'static str {
        if self.import == 5 {
            return "html_lib";
        }
        if self.has("a module named laby") || self.import == 4 {
            "::laby"
        } else {
            "laby"
        }
    }
}

/// Kinds of leaves that are the same everywhere.
fn kinds() -> Vec<u8> {
    (0..LEAVES).filter(|k| ![CELL, 8, 12, 13, 42, 45, 46, 47, 20, 23, 24, 36, 41, 44].contains(k)).collect()
}

fn case() -> BoxedStrategy<Case> {
    let wraps = vec![W::Paren, W::Block, W::Let, W::Hoist, W::Closure, W::Some, W::IterOne, W::FragOne, W::MatchOne];
    let cfg = Cfg { depth: 2, items: 5, wraps, leaf_kinds: kinds(), ..Cfg::default() };
    (gen::root(&cfg), place(), any::<u8>(), prop::collection::vec(vals(Texts::Mixed), 2))
        .prop_map(|(ex, place, how, vals)| Case { ex, place, how, vals })
        .boxed()
}

/// Macros of laby called by name in a text.
fn used(text: &str) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    let names = NORMAL.iter().chain(&VOID).copied().chain(["frag", "classes", "frag_match", "render", "iter", "iter_lines", "raw", "disp"]);
    for n in names {
        for call in [format!("{n}!"), format!("{n} !")] {
            let found = text.match_indices(&call).any(|(p, _)| {
                let b = text[..p].chars().next_back();
                !b.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':' || c == '#')
            });
            if found && !r.contains(&n.to_string()) {
                r.push(n.into());
            }
        }
    }
    r
}

fn uses(p: &Place, texts: &str) -> String {
    let root = if p.has("a module named laby") { "::laby" } else { "laby" };
    let mut s = String::from("use crate::h;\n");
    match p.import {
        0 => s.push_str(&format!("use {root}::*;\n")),
        7 => s.push_str(&format!("mod prelude {{ pub use {root}::*; }}\nuse self::prelude::*;\n")),
        1 | 2 => {
            let l: Vec<String> = used(texts);
            if !l.is_empty() {
                s.push_str(&format!("use {root}::{{{}}};\n", l.join(", ")));
            }
            if p.import == 2 {
                s.push_str(&format!("use {root}::{{div as section_, p as div_, frag as nothing, render as write_it, Render as CanRender}};\n"));
            }
        }
        5 => s.push_str(&format!("use {root} as html_lib;\n")),
        _ => {}
    }
    s
}

fn shadow_items(p: &Place) -> String {
    let mut s = String::new();
    for (k, (_, t)) in SHADOWS.iter().enumerate() {
        if p.shadows >> k & 1 == 1 && *t != "@MACROS@" {
            s.push_str(t);
            s.push('\n');
        }
    }
    s
}

fn shadow_macros(p: &Place) -> String {
    let mut s = String::new();
    if p.has("macros named like those of the prelude") {
        for m in MACROS {
            s.push_str(&format!("macro_rules! {m} {{ ($($t:tt)*) => {{ the caller\'s own macro }}; }}\n"));
        }
        s = s.replace('\'', " ");
    }
    s
}

/// The code: items, and a body for `run` that outputs once.
fn write(c: &Case, p: &Place) -> (String, String, String) {
    let mut em = Em::new();
    em.temps = false;
    em.std = false;
    em.root = p.root();
    em.force = (3..=5).contains(&p.import);
    // 2018 had no captures in format strings; nothing else differs in what is written
    let e = em.ex(&c.ex);
    let mut st = em.take_stmts();
    let mut e = e;
    let mut items = em.items.clone();
    let lab = em.lab(0);
    let mut locals = String::new();
    let local_fits = p.names && ![13].contains(&p.container);
    if local_fits {
        // the texts through variables with telling names
        for (i, n) in LOCALS.iter().enumerate() {
            let from = i as u8 % NS;
            locals.push_str(&format!("let {n} = v.s[{from}].as_str();\n"));
        }
        let mut k = c.how as usize;
        let mut rename = |t: &str| {
            let mut o = t.to_string();
            for s in 0..NS {
                let names: Vec<&str> = LOCALS.iter().enumerate().filter(|(i, _)| *i as u8 % NS == s).map(|x| *x.1).collect();
                let pat = format!("v.s[{s}].as_str()");
                while let Some(at) = o.find(&pat) {
                    o.replace_range(at..at + pat.len(), &format!("{}", names[k % names.len()]));
                    k += 1;
                }
            }
            o
        };
        e = rename(&e);
        st = rename(&st);
    }
    let string = if p.no_std { "::alloc::string::String" } else { "::std::string::String" };
    let with_glob = if p.import == 6 { format!("use {}::*;\n", if p.has("a module named laby") { "::laby" } else { "laby" }) } else { String::new() };
    let root = p.root();
    let render = |e: &str| match c.how % 4 {
        0 | 1 => format!("{lab}render!({e})"),
        2 => format!("{{ let node = {e}; {lab}render!(node) }}"),
        _ => format!("{{ let mut buf = {root}::internal::Buffer::new(); {root}::Render::render({e}, &mut buf); buf.into_string() }}"),
    };
    let r = render(&e);
    // components are written where the macros are in scope
    let here = if p.import == 6 { std::mem::take(&mut items) } else { String::new() };
    let inside = format!("{with_glob}{here}{locals}{st}");
    let body = match p.container {
        0 => format!("{inside}\nlet r: {string} = {r};\nout.push(r);"),
        1 => {
            items.push_str(&format!("pub struct Page<'a> {{ v: &'a h::V, out: &'a ::core::primitive::u8 }}\nimpl<'a> Page<'a> {{ fn go(&self, extra: &h::V) -> {string} {{ let Self {{ v, .. }} = self;\n{inside}\n{r} }} }}\n"));
            "out.push(Page { v, out: &1 }.go(v));".into()
        }
        2 => format!("let mut f = |v: &h::V| -> {string} {{\n{inside}\n{r} }};\nout.push(f(v));"),
        3 => {
            items.push_str(&format!("fn generic<'x, T1, T2: ::core::convert::Into<::core::primitive::u64>, X: ?::core::marker::Sized>(v: &'x h::V, t: T1, t_2: T2, x: &X) -> {string} where T1: ::core::fmt::Debug {{\n{inside}\n{r} }}\n"));
            "out.push(generic(v, (1, '2'), 3 as ::core::primitive::u32, \"x\"));".into()
        }
        4 => {
            items.push_str(&format!("async fn ready() {{}}\nasync fn asynchronous(v: &h::V) -> {string} {{\n{inside}\nready().await;\nlet node = {e};\nready().await;\nlet r = {lab}render!(node);\nready().await; r }}\n"));
            "out.push(h::block_on(asynchronous(v)));".into()
        }
        5 => {
            items.push_str(&format!("fn counted<const N: ::core::primitive::usize, T: ::core::clone::Clone>(v: &h::V, n: [T; N]) -> {string} {{\n{inside}\n{r} }}\n"));
            "out.push(counted(v, ['x'; 3]));".into()
        }
        6 => {
            items.push_str(&format!("pub trait Show {{ const C: ::core::primitive::u8 = 1; fn v(&self) -> &h::V; fn show(&self) -> {string} {{ let v = self.v();\n{inside}\n{r} }} }}\nimpl Show for h::V {{ fn v(&self) -> &h::V {{ self }} }}\n"));
            "out.push(Show::show(v));".into()
        }
        7 => format!("fn outer(v: &h::V) -> {string} {{ fn inner(v: &h::V) -> {string} {{\n{inside}\n{r} }} let r = inner(v); r }}\nout.push(outer(v));"),
        8 => {
            // written in a macro of the caller, from the values on
            items.push_str(&format!("macro_rules! page_of {{ ($v:ident, $out:ident) => {{{{ let v = $v;\n{inside}\n$out.push({r}); }}}}; }}\n").replace("'lbl", "'label"));
            "page_of!(v, out);".into()
        }
        9 => format!("let f = async {{\n{inside}\nlet node = {e};\nasync {{}}.await;\n{lab}render!(node) }};\nout.push(h::block_on(f));"),
        10 => format!("{inside}\nout.push(h::id_mac!({r}));"),
        11 => format!("let f = move || -> {string} {{\n{inside}\n{r} }};\nfn call<R>(f: impl ::core::ops::FnOnce() -> R) -> R {{ f() }}\nout.push(call(f));"),
        12 => {
            items.push_str(&format!("pub struct Plus<'a>(&'a h::V);\nimpl<'a> ::core::ops::Add<i32> for Plus<'a> {{ type Output = {string}; fn add(self, b2: i32) -> {string} {{ let v = self.0;\n{inside}\n{r} }} }}\n"));
            "out.push(Plus(v) + 1);".into()
        }
        13 => {
            // with an import of its own
            let inner_uses = uses(p, &format!("{e}{st}{items}render!"));
            items = format!("pub mod inner {{\n{inner_uses}\n{items}\npub fn go(v: &h::V) -> {string} {{\n{inside}\n{r} }} }}\n");
            "out.push(self::inner::go(v));".into()
        }
        14 => {
            items.push_str(&format!("unsafe extern \"C\" fn outside(v: *const h::V) -> {string} {{ let v = unsafe {{ &*v }};\n{inside}\n{r} }}\n"));
            "out.push(unsafe { outside(v) });".into()
        }
        _ => format!("{inside}\nstruct Holder<R> {{ r: [R; 1] }}\nlet h2 = Holder {{ r: [{r}] }};\nlet [r] = h2.r;\nout.push(if v.b[0] {{ r }} else {{ (r, 1).0 }});"),
    };
    (items, body, format!("{e}{st}{}render!", em.items))
}

fn build(c: &Case, obs: &mut Obs) -> Job {
    let p = &c.place;
    obs.class(EDITIONS[p.edition as usize]);
    obs.class_if(p.no_std, "without the standard library");
    obs.class(IMPORTS[p.import as usize]);
    obs.class(CONTAINERS[p.container as usize]);
    let mut some = 0;
    for (k, s) in SHADOWS.iter().enumerate() {
        if p.shadows >> k & 1 == 1 {
            obs.class(s.0);
            some += 1;
        }
    }
    obs.class_if(p.names, "local variables");
    obs.nontrivial = some > 0 || p.edition != 1 || p.no_std || p.import > 0 || p.container > 0;
    let (items, body, texts) = write(c, p);
    let shadows = shadow_items(p);
    let macros = shadow_macros(p);
    let forbid = p.lints == 0 && p.container != 14 && p.container != 8;
    obs.class_if(forbid, "with unsafe code forbidden");
    let attr = if forbid { "#![forbid(unsafe_code)]\n" } else { "" };
    let header: &'static str = Box::leak(format!("{attr}{macros}{}", uses(p, &texts)).into_boxed_str());
    let exps: Vec<Vec<Exp>> = c
        .vals
        .iter()
        .map(|v| {
            let mut env = Env::new(v);
            env.temps = false;
            env.std = false;
            vec![Exp::Eq(env.text(&c.ex).unwrap())]
        })
        .collect();
    // the same in the simplest place
    let plain = Place { edition: 1, no_std: false, import: 0, container: 0, shadows: 0, names: false, lints: 0 };
    let (ai, ab, at) = write(c, &plain);
    let alt = Job {
        ctx: CTX,
        items: ai,
        body: ab,
        exps: exps.clone(),
        vals: c.vals.clone(),
        uses: Box::leak(uses(&plain, &at).into_boxed_str()),
        alt: None,
        lib: String::new(),
    };
    Job {
        ctx: Ctx { edition: EDITIONS[p.edition as usize], no_std: p.no_std, lints: forbid, ..CTX },
        items: format!("{shadows}{items}"),
        body,
        exps,
        vals: c.vals.clone(),
        uses: header,
        alt: Some(Box::new(alt)),
        lib: String::new(),
    }
}


// ---- macros of the caller around ----

/// Items, and two ways to write the same. `@s`, `@s2`, `@i`, `@b`, `@o` are values.
const FORMS: &[(&str, &str, &str, &str)] = &[
    ("expressions", "macro_rules! page { ($t:expr, $($c:expr),*) => { html!(head!(title!($t)), body!($($c),*)) } }", "page!(@s, p!(@s2), @i, br!())", "html!(head!(title!(@s)), body!(p!(@s2), @i, br!()))"),
    ("tokens", "macro_rules! section_of { ($($t:tt)*) => { section!(class = \"c\", $($t)*) } }", "section_of!(id = @s, p!(@i), hidden = bool!(@b))", "section!(class = \"c\", id = @s, p!(@i), hidden = bool!(@b))"),
    ("names of attributes", "macro_rules! with { ($n:ident = $v:expr) => { div!($n = $v, \"x\") } }", "with!(data_x = @s)", "div!(data_x = @s, \"x\")"),
    ("literals", "macro_rules! lit { ($($l:literal),*) => { p!($($l),*) } }", "lit!(\"a<\", 1u8, 'c', 1.5f32, true, -3)", "p!(\"a<\", 1u8, 'c', 1.5f32, true, -3)"),
    ("literals as names and values", "macro_rules! lit { ($n:literal, $l:literal) => { p!($n = $l, $n = bool!(true)) } }", "lit!(\"data-x\", 2.0)", "p!(\"data-x\" = 2.0, \"data-x\" = bool!(true))"),
    ("variables of the macro and of the caller", "macro_rules! mix { ($e:expr) => {{ let buffer = 1; let t1 = \"two\"; div!(buffer, $e, t1) }} }", "{ let buffer = @s; let t1 = @i; let r = mix!(frag!(buffer, t1, @s2)); r }", "div!(1, frag!(@s, @i, @s2), \"two\")"),
    ("blocks", "macro_rules! wrapped { ($b:block) => { div!($b, \"z\") } }", "wrapped!({ let x = @s; p!(x) })", "div!(p!(@s), \"z\")"),
    ("identifiers as values", "macro_rules! show { ($($i:ident),*) => { ul!($(li!(title = stringify!($i), $i)),*) } }", "{ let x = @s; let y = @i; show!(x, y) }", "ul!(li!(title = \"x\", @s), li!(title = \"y\", @i))"),
    ("types", "macro_rules! cast { ($e:expr, $t:ty) => { p!($e as $t) } }", "cast!(@i, u8)", "p!((@i) as u8)"),
    ("paths", "macro_rules! via { ($p:path, $e:expr) => { p!($p($e)) } }", "via!(h::id, @s)", "p!(@s)"),
    ("recursion", "macro_rules! list { (@acc [$($d:expr),*]) => { ul!($($d),*) }; (@acc [$($d:expr),*] $h:expr $(, $t:expr)*) => { list!(@acc [$($d,)* li!($h)] $($t),*) }; ($($t:expr),*) => { list!(@acc [] $($t),*) } }", "list!(@s, @i, @s2)", "ul!(li!(@s), li!(@i), li!(@s2))"),
    ("branches", "macro_rules! choose { ($c:expr, $a:expr, $b:expr) => { frag_match!(if $c { $a } else { $b }) } }", "choose!(@b, p!(@s), @i)", "frag_match!(if @b { p!(@s) } else { @i })"),
    ("branches with patterns", "macro_rules! choose { ($e:expr, $($p:pat => $r:expr),*) => { frag_match!(match $e { $($p => $r,)* _ => \"other\" }) } }", "choose!(@i, 0 => @s, 1..=9 => p!(@s2))", "frag_match!(match @i { 0 => @s, 1..=9 => p!(@s2), _ => \"other\" })"),
    ("bindings of the macro", "macro_rules! opt { ($e:expr, $x:ident => $r:expr) => { frag_match!(match $e { ::core::option::Option::Some($x) => $r, ::core::option::Option::None => () }) } }", "opt!(@o, x => b!(x))", "frag_match!(if let Some(x) = @o { b!(x) })"),
    ("branches in branches of macros", "macro_rules! outer { ($c:expr, $e:expr) => { frag_match!(match $c { true => $e, false => frag_match!(if $c { 1 } else { '2' }) }) } }", "outer!(@b, frag_match!(if @b { @s } else { @i }))", "frag_match!(if @b { @s } else { '2' })"),
    ("components", "#[laby] fn comp(a: impl Render, #[default(7)] n: u32, #[rest] c: impl Render) -> impl Render { div!(title = a, n, c) }\nmacro_rules! call { ($($t:tt)*) => { comp!($($t)*) } }", "call!(a = @s, p!(@i), @s2)", "div!(title = @s, 7, p!(@i), @s2)"),
    ("components by expression", "#[laby] fn comp(a: impl Render, #[default(7)] n: u32, #[rest] c: impl Render) -> impl Render { div!(title = a, n, c) }\nmacro_rules! call { ($a:expr, $($c:expr),*) => { comp!($($c,)* n = 3, a = $a) } }", "call!(@s, @i, p!(@s2))", "div!(title = @s, 3, @i, p!(@s2))"),
    ("components with names from the caller", "#[laby] fn comp(a: impl Render, b: impl Render) -> impl Render { frag!(a, '|', b) }\nmacro_rules! call { ($x:ident, $y:ident) => { comp!($x = 1, $y = 2) } }", "frag!(call!(a, b), call!(b, a))", "\"1|22|1\""),
    ("components defined by macros", "macro_rules! define { ($n:ident, $d:expr) => { #[laby] fn $n(x: impl Render, #[default($d)] y: &'static str) -> impl Render { p!(x, y) } } }\ndefine!(first, \"one\"); define!(second, \"two\");", "frag!(first!(x = @s), second!(x = @i, y = \"z\"))", "frag!(p!(@s, \"one\"), p!(@i, \"z\"))"),
    ("functions defined by macros", "macro_rules! view { ($n:ident($($a:ident: $t:ty),*) $b:block) => { fn $n($($a: $t),*) -> String { render!($b) } } }\nview!(show(x: &str, n: i64) { div!(id = n, x) });", "raw!(show(@s, @i))", "div!(id = @i, @s)"),
    ("rendering in macros", "macro_rules! html_of { ($($t:tt)*) => { render!($($t)*) } }", "raw!(html_of!(p!(@s), \"x\", @i))", "frag!(p!(@s), \"x\", @i)"),
    ("iterators in macros", "macro_rules! each { ($x:ident in $i:expr => $b:expr) => { iter!(\"; \", $i.map(move |$x| $b)) } }", "each!(k in 0..3 => li!(k, @i))", "frag!(li!(0, @i), \"; \", li!(1, @i), \"; \", li!(2, @i))"),
    ("macros nested in the caller's macros", "macro_rules! twice { ($m:ident) => { div!($m!(), $m!(class = \"k\")) } }", "twice!(p)", "div!(p!(), p!(class = \"k\"))"),
    ("macros given whole", "macro_rules! apply { ($m:ident, $($t:tt)*) => { $m!($($t)*) } }", "apply!(div, id = @s, apply!(span, @i))", "div!(id = @s, span!(@i))"),
    ("conditions", "macro_rules! when { ($c:expr) => { input!(checked = bool!($c), value = \"v\") } }", "when!(@b && @i > 0)", "input!(checked = bool!((@b) && (@i > 0)), value = \"v\")"),
    ("lifetimes and loops", "macro_rules! rows { ($l:lifetime, $e:expr) => {{ let mut r = ::std::vec::Vec::new(); $l: for i in 0..5u8 { if i == 3 { break $l } r.push(tr!(td!(i), $e)); } iter!(r) }} }", "rows!('rows, @i)", "frag!(tr!(td!(0), @i), tr!(td!(1), @i), tr!(td!(2), @i))"),
    ("visibility", "macro_rules! comp_of { ($v:vis $n:ident) => { #[laby] $v fn $n(#[rest] c: impl Render) -> impl Render { b!(c) } } }\nmod inner { use laby::*; comp_of!(pub(super) strong_of); comp_of!(pub wide); }\nuse inner::{strong_of, wide};", "frag!(strong_of!(@s), wide!(@i))", "frag!(b!(@s), b!(@i))"),
    ("optional parts", "macro_rules! link_to { ($h:expr $(, class = $c:expr)? $(; $($t:expr),+)?) => { a!(href = $h, $(class = $c,)? $($($t),+)?) } }", "frag!(link_to!(@s), link_to!(@s, class = @s2), link_to!(@s; @i, 'x'))", "frag!(a!(href = @s), a!(href = @s, class = @s2), a!(href = @s, @i, 'x'))"),
    ("macros of the standard library", "", "frag!(concat!(\"a\", 1), stringify!(x), vec![@s, @s2].len(), format!(\"{}<{}\", @i, @s), if matches!(@i, 1..=9) { \"few\" } else { env!(\"PATH\", \"\").len(); \"many\" }, line!() > 0)", "frag!(\"a1\", \"x\", 2, { let t = h::fmt2(&@i.to_string(), 0); let _ = t; format!(\"{}<{}\", @i, @s) }, if @i >= 1 && @i <= 9 { \"few\" } else { \"many\" }, true)"),
    ("assertions", "", "{ assert_eq!(render!(p!(@i)), format!(\"<p>{}</p>\", @i)); assert!(!render!(div!()).is_empty(), \"{}\", render!(br!())); raw!(format!(\"{}{}\", render!(p!(@s)), render!(@i))) }", "frag!(p!(@s), @i)"),
    ("macros of the caller named like those of laby, by path", "mod own { macro_rules! map { ($e:expr) => { $e }; } macro_rules! div { ($($t:tt)*) => { \"own<div>\" }; } macro_rules! frag { ($a:expr, $b:expr) => { $b }; } macro_rules! input { ($($t:tt)*) => { stringify!($($t)*) }; } macro_rules! classes { (@ $e:expr) => { $e }; } pub(crate) use map; pub(crate) use div; pub(crate) use frag; pub(crate) use input; pub(crate) use classes; }", "ul!(own::map!(@s), self::own::map!(@i), class = own::classes!(@ @s2), own::frag!(1, @s), self::own::div!(x = <>), li!(own::input!(a b), own::frag!(@i, p!(@s))), title = self::own::map!(@s))", "ul!(@s, @i, class = @s2, @s, \"own<div>\", li!(\"a b\", p!(@s)), title = @s)"),
    ("macros of the caller named like the marker and the branches, by path", "mod own { macro_rules! boolean { ($e:expr) => { $e }; } macro_rules! frag_match { ($e:expr) => { ($e, 1).0 }; } macro_rules! render { ($e:expr) => { $e }; } macro_rules! iter { ($e:expr) => { [$e; 2].len() }; } macro_rules! raw { ($e:expr) => { $e }; } pub(crate) use boolean as bool; pub(crate) use frag_match; pub(crate) use render; pub(crate) use iter; pub(crate) use raw; }", "p!(checked = own::bool!(@b), hidden = self::own::bool!(@s), own::frag_match!(if @b { @s } else { @s2 }), own::render!(@s), own::iter!(@i), own::raw!(@s), on = bool!(own::bool!(@b)))", "p!(checked = { let b = @b; b }, hidden = @s, { let x = if @b { @s } else { @s2 }; x }, @s, 2, @s, on = bool!(@b))"),
    ("macros of laby under other names", "use laby::{div as d, p as paragraph, frag as f, bool as _, classes as list, br as newline, frag_match as pick, title as h1, render as html_of};", "f!(d!(paragraph!(@s), class = list!(@s2, @i), newline!(), id = bool!(@b)), pick!(if @b { h1!(@i) } else { 'x' }), raw!(html_of!(d!(@s))))", "frag!(div!(p!(@s), class = classes!(@s2, @i), br!(), id = bool!(@b)), frag_match!(if @b { title!(@i) } else { 'x' }), div!(@s))"),
];
#[derive(Clone, Debug)]
pub struct Form {
    which: usize,
    edition: u8,
    shadows: u32,
    ks: [u8; 5],
    vals: Vec<Vals>,
}

fn form(i: u64) -> BoxedStrategy<Form> {
    let shadows = prop_oneof![1 => Just(0u32), 2 => any::<u32>()];
    (0u8..3, shadows, any::<[u8; 5]>(), prop::collection::vec(vals(Texts::Mixed), 4))
        .prop_map(move |(edition, shadows, ks, vals)| Form { which: i as usize % FORMS.len(), edition, shadows, ks, vals })
        .boxed()
}

/// The shadowing the forms themselves stand.
const FORM_SHADOWS: [&str; 8] = [
    "functions named like elements", "types named like elements", "modules named like crates", "a trait with methods for everything",
    "generic parameter names", "associated names", "traits named like those of the prelude", "labels and statics",
];

fn build_form(c: &Form, obs: &mut Obs) -> Job {
    let (name, items, one, other) = FORMS[c.which];
    obs.class(name);
    obs.class(EDITIONS[c.edition as usize]);
    obs.nontrivial = true;
    let mut p = Place { edition: c.edition, no_std: false, import: 0, container: 0, shadows: c.shadows, names: false, lints: 0 };
    for (name, _) in SHADOWS {
        if !FORM_SHADOWS.contains(&name) {
            p.drop(name);
        }
    }
    if items.contains("components") || name.contains("functions") || items.contains("mod inner") {
        p.drop("traits named like those of the prelude");
    }
    p.settle();
    let sub = |t: &str| {
        let mut t = t.to_string();
        for (a, x) in [
            ("@s2", format!("v.s[{}].as_str()", c.ks[1] % NS)),
            ("@s", format!("v.s[{}].as_str()", c.ks[0] % NS)),
            ("@i", format!("v.i[{}]", c.ks[2] % 4)),
            ("@b", format!("v.b[{}]", c.ks[3] % 6)),
            ("@o", format!("v.o[{}].as_deref()", c.ks[4] % 4)),
        ] {
            t = t.replace(a, &x);
        }
        t
    };
    let job = |e: &str, exps: Vec<Exp>, items: &str| Job {
        ctx: Ctx { edition: EDITIONS[c.edition as usize], ..CTX },
        items: format!("{}{}", shadow_items(&p), items),
        body: e.to_string(),
        exps: vec![exps; c.vals.len()],
        vals: c.vals.clone(),
        uses: USES,
        alt: None,
        lib: String::new(),
    };
    let alt = job(&format!("out.push(render!({}));", sub(other)), vec![Exp::Any], "");
    Job {
        alt: Some(Box::new(alt)),
        ..job(
            &format!("out.push(render!({}));\nout.push(render!({}));", sub(one), sub(other)),
            vec![Exp::Any, Exp::Same(0)],
            items,
        )
    }
}

// ---- the caller's own items in a template ----

/// Names after that of the element, in camel case, and others.
const OWN: [&str; 30] = [
    "@", "@", "@", "@Element", "@Node", "@_", "Html@", "@1", "Node", "Element", "Output", "Template", "Tag", "Child", "Attr", "Component",
    "Fragment", "View", "Props", "Children", "Builder", "T", "T1", "T2", "Value", "Item", "Html", "Markup", "Renderer", "Inner",
];
const OWN_LOWER: [&str; 24] = [
    "@", "@", "@", "@_", "@_element", "@_node", "el", "element", "node", "tag", "attrs", "children", "inner", "value", "item", "html", "this",
    "field", "t1", "t2", "buffer", "buf", "renderer", "output",
];

/// Macros that are not elements.
const NEAR: [&str; 24] = [
    "@_", "_@", "__@", "@s", "x@", "^", "@1", "my_@", "html_@", "@_html", "laby_@", "@x", "x_@", "@_match", "@__", "tag_@", "@_tag", "el_@", "bool_",
    "_bool", "boolean", "is_bool", "Bool", "bools",
];
fn tag_names(n: &str) -> bool {
    (0..117).any(|t| tag_name(t) == n)
}

#[derive(Clone, Debug)]
pub struct Own {
    tag: u16,
    /// Name, kind and place of each.
    names: Vec<(u8, u8, u8)>,
    outer: u16,
    local: bool,
    edition: u8,
    branch: u8,
}

fn own(i: u64) -> BoxedStrategy<Own> {
    (prop::collection::vec((any::<u8>(), 0u8..17, any::<u8>()), 1..6), 0u16..101, any::<bool>(), 0u8..3, 0u8..4)
        .prop_map(move |(mut names, outer, local, edition, branch)| {
            // one after the element
            names[0].0 %= 3;
            Own { tag: (i % 117) as u16, names, outer, local, edition, branch }
        })
        .boxed()
}

fn build_own(c: &Own, obs: &mut Obs) -> Job {
    let tag = tag_name(c.tag);
    let camel = tag[..1].to_uppercase() + &tag[1..];
    let mut items = String::new();
    let mut locals = String::new();
    let mut parts = vec![];
    let mut texts = vec![];
    let mut taken: Vec<String> = vec![];
    for (n, kind, at) in &c.names {
        let lower = *kind >= 8;
        let makro = *kind >= 14;
        let name = if lower { OWN_LOWER[*n as usize % OWN_LOWER.len()].replace('@', tag) } else { OWN[*n as usize % OWN.len()].replace('@', &camel) };
        let name = if makro { NEAR[*n as usize % NEAR.len()].replace('@', if at % 4 == 0 { "frag" } else { tag }).replace('^', &camel) } else { name };
        if makro && (tag_names(&name) || ["bool", "iter", "render", "raw", "disp", "laby", "frag_match", "iter_lines"].contains(&name.as_str())) {
            continue;
        }
        let name = if *kind == 7 { name.to_uppercase() } else { name };
        if taken.contains(&name) || ["Option", "Result", "Out", "v", "out", "h"].contains(&name.as_str()) && *kind != 1 {
            continue;
        }
        taken.push(name.clone());
        let t = format!("{name}-{kind}");
        let (item, e) = match kind {
            0 => (format!("pub struct {name};\nimpl {name} {{ pub fn text(&self) -> &'static str {{ {t:?} }} }}"), format!("{name}.text()")),
            1 => (format!("pub struct {name};\nimpl {name} {{ pub const TEXT: &'static str = {t:?}; pub fn new() -> &'static str {{ {t:?} }} }}"), if at % 2 == 0 { format!("{name}::TEXT") } else { format!("{name}::new()") }),
            2 => (format!("pub struct {name}<A>(pub A);"), format!("{name}({t:?}).0")),
            3 => (format!("pub enum {name} {{ A, B(&'static str) }}"), format!("match {name}::B({t:?}) {{ {name}::A => \"\", {name}::B(x) => x }}")),
            4 => (format!("pub struct {name} {{ pub t1: &'static str }}"), format!("{name} {{ t1: {t:?} }}.t1")),
            5 => (format!("pub type {name} = &'static str;"), format!("{{ let x: {name} = {t:?}; x }}")),
            6 => (format!("pub trait {name} {{ fn text(&self) -> &'static str {{ {t:?} }} }}\nimpl {name} for ::core::primitive::u8 {{}}"), format!("<u8 as {name}>::text(&1)")),
            7 => (format!("pub {} {name}: &str = {t:?};", if at % 2 == 0 { "const" } else { "static" }), name.clone()),
            8 | 9 => (format!("pub fn {name}(x: &str) -> &str {{ x }}"), format!("{name}({t:?})")),
            10 => (format!("pub mod {name} {{ pub fn text() -> &'static str {{ {t:?} }} }}"), format!("self::{name}::text()")),
            11 => {
                locals.push_str(&format!("let {name} = |x: &'static str| x;\n"));
                (String::new(), format!("{name}({t:?})"))
            }
            14.. => {
                let body = ["$x", "concat!($x, \"\")", "{ let x = $x; x }"][*at as usize / 4 % 3];
                (format!("#[allow(unused)] macro_rules! {name} {{ ($x:expr) => {{ {body} }}; ($y:literal $x:expr) => {{ $x }} }}"), match at % 3 {
                    0 => format!("{name}!({t:?})"),
                    1 => format!("{name}![{t:?}]"),
                    _ => format!("{name} ! {{ 'x' {t:?} }}"),
                })
            }
            _ => {
                locals.push_str(&format!("let {name} = {t:?};\n"));
                (String::new(), if at % 2 == 0 { name.clone() } else { format!("&{name}[..]") })
            }
        };
        // a module in a function is not found from `self`
        if c.local && *kind != 10 {
            locals.push_str(&item);
        } else {
            items.push_str(&item);
            items.push('\n');
        }
        obs.class(match kind {
            0..=4 => "types with values",
            5 => "type aliases",
            6 => "traits",
            7 => "constants and statics",
            8 | 9 => "functions",
            10 => "modules",
            14.. => "macros",
            _ => "local variables",
        });
        obs.nontrivial = true;
        parts.push((e, *at, *kind));
        texts.push(t);
    }
    obs.class_if(c.local, "declared in the function");
    let mut attrs: Vec<(usize, String)> = vec![];
    let (mut open, mut kids, mut list) = (String::new(), vec![], vec![]);
    for (k, ((e, at, kind), t)) in parts.into_iter().zip(&texts).enumerate() {
        let e = if c.branch == 1 { format!("frag_match!(if v.b[0] || true {{ {e} }} else {{ 1 }})") } else { e };
        // struct literals and the like stand anywhere; names alone are no attribute
        let _ = kind;
        if (at / 2 % 3 == 0 || is_void(c.tag)) && !is_frag(c.tag) {
            list.push(format!("a{k} = {e}"));
            open.push_str(&format!(" a{k}=\"{t}\""));
            attrs.push((k, t.clone()));
        } else {
            list.push(e);
            kids.push(t.clone());
        }
    }
    let inner = match c.tag {
        FRAG => kids.concat(),
        CLASSES => kids.join(" "),
        t if is_void(t) => format!("<{tag}{open}>"),
        _ => format!("<{tag}{open}>{}</{tag}>", kids.concat()),
    };
    let outer = tag_name(c.outer);
    let e = format!("{tag}!({})", list.join(", "));
    let e = if c.branch == 2 { format!("frag_match!(match v.i[0] {{ 0 if false => 1, _ => {e} }})") } else { e };
    let (e, want) = if c.branch == 3 { (e, inner) } else { (format!("{outer}!({e})"), format!("<{outer}>{inner}</{outer}>")) };
    Job {
        ctx: Ctx { edition: EDITIONS[c.edition as usize], ..CTX },
        items,
        body: format!("{locals}\nout.push(render!({e}));"),
        exps: vec![vec![Exp::Eq(want)]],
        vals: vec![Vals::default()],
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

pub fn c22(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("places", env.n(1200, 20000), 50, |_| case(), build),
        prog("items of the caller", env.n(117 * 6, 117 * 100), 50, own, build_own),
        prog("macros of the caller", env.n(FORMS.len() as u64 * 8, FORMS.len() as u64 * 100), 30, form, build_form),
    ]
}
