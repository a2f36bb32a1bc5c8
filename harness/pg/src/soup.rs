//! C25: whatever tokens a macro is given, it answers with code or with an error.
use crate::ast::*;
use crate::comp;
use crate::engine::*;
use crate::gen::{self, Cfg};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use syn::parse::Parser;
use vcore::driver::{case_runner, Env as RunEnv, Obs, Part};

/// Tokens that can be edited.
#[derive(Clone, Debug)]
enum Tk {
    T(String),
    G(u8, Vec<Tk>),
}

fn tokens(s: TokenStream) -> Vec<Tk> {
    let mut o: Vec<Tk> = vec![];
    let mut quote = false;
    for t in s {
        let t = match t {
            TokenTree::Group(g) => Tk::G(
                match g.delimiter() {
                    Delimiter::Parenthesis => 0,
                    Delimiter::Bracket => 1,
                    _ => 2,
                },
                tokens(g.stream()),
            ),
            // a lifetime is one token
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                quote = true;
                continue;
            }
            TokenTree::Punct(p) => Tk::T(format!("{}{}", p.as_char(), if p.spacing() == Spacing::Joint { "" } else { " " })),
            t => Tk::T(format!("{}{t} ", if quote { "'" } else { "" })),
        };
        quote = false;
        o.push(t);
    }
    o
}

fn show(ts: &[Tk], o: &mut String) {
    for t in ts {
        match t {
            Tk::T(s) => o.push_str(s),
            Tk::G(d, ts) => {
                let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][*d as usize % 3];
                o.push_str(a);
                show(ts, o);
                o.push_str(b);
                o.push(' ');
            }
        }
    }
}

/// Positions in a list of tokens, and in those inside its groups.
fn slots(ts: &[Tk]) -> usize {
    ts.len() + 1 + ts.iter().map(|t| if let Tk::G(_, x) = t { slots(x) } else { 0 }).sum::<usize>()
}

/// The list that has the n-th position, and the position in it.
fn at(ts: &mut Vec<Tk>, n: &mut usize) -> Option<(*mut Vec<Tk>, usize)> {
    if *n <= ts.len() {
        return Some((ts, *n));
    }
    *n -= ts.len() + 1;
    for t in ts {
        if let Tk::G(_, x) = t {
            if let Some(r) = at(x, n) {
                return Some(r);
            }
        }
    }
    None
}

const WORDS: [&str; 96] = [
    "x", "y", "self", "Self", "super", "crate", "_", "match", "if", "else", "let", "fn", "async", "await", "move", "unsafe", "const", "static",
    "dyn", "impl", "where", "loop", "while", "for", "in", "return", "break", "continue", "ref", "mut", "pub", "struct", "enum", "trait", "type",
    "use", "mod", "as", "true", "false", "box", "try", "yield", "r#fn", "macro", "union", "0", "1u8", "256u8", "0xffu128", "0b1", "0o7", "1_000",
    "1e999", "1.5f32", "1e400f64", "0x", "340282366920938463463374607431768211456", "\"\"", "\"x\"", "'x'", "b'x'", "b\"x\"", "r#\"x\"#", "br\"x\"",
    "'\\u{1f600}'", ",", ";", ":", "::", "=", "==", "=>", "+=", "..", "...", "..=", "&", "&&", "|", "||", "!", "?", "#", "$", "@", "<", ">", "-", "->",
    "+", "*", "'a", "~", "^", "%",
];
const SNIPPETS: [&str; 24] = [
    "()", "[]", "{}", "#[x]", "#![x]", "#[cfg(any())]", "bool!()", "bool!(true)", "div!()", "frag!(a = 1)", "br!(1)", "x = 1,", "x = y = 1", "a::b = 1",
    ".. x", "|x| x", "if true {}", "match x {}", "=> 1,", "else {}", "let x = 1", "fn f() {}", "#[default]", "#[rest]",
];

/// In the place of a parameter.
const PARAMS: [&str; 40] = [
    "self", "mut self", "&self", "&mut self", "&'a self", "&'a mut self", "self: Self", "self: Box<Self>", "mut self: &Self", "&&self", "r#self: u8", "_: u8",
    "(a, b): (u8, u8)", "[a, ..]: [u8; 2]", "S { a, .. }: S", "S(a): S", "S: S", "ref a: u8", "ref mut a: u8", "a @ _: u8", "a @ 1..=2: u8", "&a: &u8",
    "&mut a: &mut u8", "..: u8", "1: u8", "m!(): u8", "a", "a:", ": u8", "u8", "a: u8 = 1", "...", "a: ...", "mut a: u8", "const a: u8", "a | b: u8",
    "dyn a: u8", "a::b: u8", "(a): u8", "'a: u8",
];
/// Before a parameter.
const MARKS: [&str; 24] = [
    "#[default]", "#[rest]", "#[default = 1]", "#[default[1]]", "#[default{1}]", "#[default()]", "#[default(1, 2)]", "#[default(;)]", "#[default((1))]", "#[rest = x]",
    "#[rest()]", "#[rest(frag)]", "#[rest(frag!)]", "#[rest(::laby::frag!)]", "#[rest[1]]", "#![default]", "#![rest]", "#[default::x]", "#[rest::x(1)]", "#[default] #[default]",
    "#[default] #[rest]", "#[rest] #[rest]", "#[Default]", "#[r#default]",
];
/// Instead of a function.
const ITEMS: [&str; 32] = [
    "struct S;", "enum E {}", "const X: u8 = 1;", "static X: u8 = 1;", "mod m {}", "mod m;", "impl S { fn f() {} }", "trait T { fn f(); }", "fn f();",
    "fn f(x: u8) = 1;", "use x::y;", "type T = u8;", "macro_rules! m { () => {} }", "m!{}", "m!();", "extern \"C\" fn f(x: u8) {}", "unsafe fn f(x: u8) {}",
    "const fn f(x: u8) {}", "async fn f(x: u8) {}", "extern crate x;", "extern \"C\" { fn f(x: u8, ...); }", "unsafe extern \"C\" fn f(x: u8, mut a: ...) {}", "union U { a: u8 }",
    "fn f<'a, T: 'a, const N: usize>(x: &'a T) where T: Copy {}", "fn r#fn(r#type: u8) {}", "fn _f(_: u8) {}", "fn f(self) {}", "fn f(x: u8, x: u8) {}",
    "trait T = U;", "macro m() {}", "auto trait T {}", "pub(in crate::m) fn f() {}",
];

fn word(k: u16) -> Vec<Tk> {
    let k = k as usize % (WORDS.len() * 2 + SNIPPETS.len());
    let s = if k < WORDS.len() * 2 { WORDS[k / 2] } else { SNIPPETS[k - WORDS.len() * 2] };
    match s.parse::<TokenStream>() {
        Ok(s) => tokens(s),
        // not a token of its own
        _ => vec![Tk::T("0 ".into())],
    }
}

fn is(t: Option<&Tk>, s: &str) -> bool {
    matches!(t, Some(Tk::T(x)) if x.trim() == s)
}

#[derive(Clone, Debug)]
struct Edit {
    kind: u8,
    at: u16,
    k: u16,
}

fn edit(ts: &mut Vec<Tk>, e: &Edit) {
    let n = slots(ts);
    let mut i = e.at as usize % n;
    let Some((l, i)) = at(ts, &mut i) else { return };
    // the only reference to it
    let l = unsafe { &mut *l };
    match e.kind % 14 {
        0 if i < l.len() => drop(l.remove(i)),
        1 if i < l.len() => {
            let t = l[i].clone();
            l.insert(i, t);
        }
        2 if i + 1 < l.len() => l.swap(i, i + 1),
        3 if i < l.len() => drop(l.splice(i..i + 1, word(e.k))),
        4 | 5 => drop(l.splice(i..i, word(e.k))),
        6 => {
            if let Some(Tk::G(d, _)) = l[i..].iter_mut().find(|t| matches!(t, Tk::G(..))) {
                *d = (*d + 1 + e.k as u8 % 2) % 3;
            }
        }
        7 => {
            if let Some(k) = (i..l.len()).find(|k| matches!(l[*k], Tk::G(..))) {
                if let Tk::G(_, x) = l[k].clone() {
                    l.splice(k..k + 1, x);
                }
            }
        }
        8 => {
            let end = (i + e.k as usize % 6).min(l.len());
            let x: Vec<Tk> = l.drain(i..end).collect();
            l.insert(i, Tk::G(e.k as u8 % 3, x));
        }
        9 => l.truncate(i),
        10 | 11 => {
            // a missing comma
            if let Some(k) = (i..l.len()).find(|k| is(l.get(*k), ",")) {
                if e.k % 3 == 0 {
                    l[k] = Tk::T("; ".into());
                } else {
                    l.remove(k);
                }
            }
        }
        12 => {
            if let Some(k) = (i..l.len()).find(|k| is(l.get(*k), "=")) {
                l[k] = Tk::T([": ", "== ", "=> ", "+= ", "", "= = "][e.k as usize % 6].into());
            }
        }
        13 => {
            let x: Vec<Tk> = l.drain(..i).collect();
            l.extend(x);
        }
        _ => drop(l.splice(i..i, word(e.k))),
    }
}

#[derive(Clone, Debug)]
pub struct Soup {
    what: What,
    edits: Vec<Edit>,
}

#[derive(Clone, Debug)]
enum What {
    El(Ex),
    Branch(Ex),
    Call(comp::CompCase, comp::Misuse),
    Decl(comp::CompCase, comp::Misuse, u8),
    /// A declaration whose parameters or kind of item are edited.
    Params(comp::CompCase, comp::Misuse, Vec<(u8, u8)>),
    Helper(u8, Vec<Ex>),
    /// Tokens at random only.
    Words(u8, Vec<u16>),
}

const HELPERS: [&str; 6] = ["render", "iter", "iter_lines", "raw", "disp", "ok_"];

fn small() -> Cfg {
    Cfg { depth: 2, items: 4, comps: false, leaf_kinds: (0..LEAVES).filter(|k| *k != CELL && *k != 44).collect(), ..Cfg::default() }
}

fn what(i: u64) -> BoxedStrategy<What> {
    let c = small();
    match i % 8 {
        0..=2 => gen::root(&c).prop_map(What::El).boxed(),
        3 => {
            let inner = gen::tree(&Cfg { depth: 1, ..c.clone() });
            prop_oneof![gen::if_node(&c, inner.clone()), gen::match_node(&c, inner)].prop_map(What::Branch).boxed()
        }
        4 => (comp::case(), comp::misuse()).prop_map(|(c, m)| What::Call(c, m)).boxed(),
        5 => prop_oneof![
            (comp::case(), comp::misuse(), any::<u8>()).prop_map(|(c, m, k)| What::Decl(c, m, k)),
            (comp::case(), comp::misuse(), prop::collection::vec(any::<(u8, u8)>(), 0..4)).prop_map(|(c, m, p)| What::Params(c, m, p)),
        ]
        .boxed(),
        6 => (0u8..HELPERS.len() as u8, prop::collection::vec(gen::atom(&c), 0..4)).prop_map(|(k, v)| What::Helper(k, v)).boxed(),
        _ => (any::<u8>(), prop::collection::vec(any::<u16>(), 0..8)).prop_map(|(k, v)| What::Words(k, v)).boxed(),
    }
}

pub fn case(i: u64) -> BoxedStrategy<Soup> {
    let edit = (any::<u8>(), any::<u16>(), any::<u16>()).prop_map(|(kind, at, k)| Edit { kind, at, k });
    let few = prop_oneof![4 => 1usize..2, 2 => 2usize..4, 1 => 4usize..9];
    (what(i), few.prop_flat_map(move |n| prop::collection::vec(edit.clone(), n))).prop_map(|(what, edits)| Soup { what, edits }).boxed()
}

/// Without edits.
pub fn untouched(i: u64) -> BoxedStrategy<Soup> {
    what(i % 6).prop_map(|what| Soup { what, edits: vec![] }).boxed()
}

impl Soup {
    pub fn correct(&self) -> bool {
        self.edits.is_empty() && match &self.what {
            What::Decl(_, _, k) => k % 4 != 0,
            What::Params(_, _, p) => p.is_empty(),
            _ => true,
        }
    }
}

/// A module, and whether it must not compile.
#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub module: String,
    pub invalid: bool,
}

/// Neither version of the parser can read it. (The older one, which laby uses, reads `x: T` and `... x`, which rustc
/// rejects where they are kept; what neither reads can only be accepted by leaving something out.)
fn unreadable(s: TokenStream, list: bool) -> bool {
    if list {
        let p = syn1::punctuated::Punctuated::<syn1::Expr, syn1::Token![,]>::parse_terminated;
        list_ok(s.clone()).is_none() && syn1::parse::Parser::parse2(p, s).is_err()
    } else {
        syn::parse2::<syn::Expr>(s.clone()).is_err() && syn1::parse2::<syn1::Expr>(s).is_err()
    }
}

fn list_ok(s: TokenStream) -> Option<Vec<syn::Expr>> {
    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    Parser::parse2(p, s).ok().map(|l| l.into_iter().collect())
}

fn tag(p: &syn::Path) -> Option<String> {
    let n = p.segments.last()?.ident.to_string();
    let laby = p.segments.len() == 1 || p.segments.len() == 2 && p.segments[0].ident == "laby";
    laby.then_some(n)
}

fn expr_bad(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Macro(m) if m.attrs.is_empty() => tag(&m.mac.path).is_some_and(|t| macro_bad(&t, m.mac.tokens.clone())),
        syn::Expr::Assign(a) if a.attrs.is_empty() => expr_bad(&a.right),
        _ => false,
    }
}

fn arg_name(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Assign(a) => match &*a.left {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        },
        _ => None,
    }
}

/// The input is not what this macro takes, or that of one directly in it is not.
fn macro_bad(name: &str, input: TokenStream) -> bool {
    if name == "frag_match" {
        return unreadable(input, false);
    }
    if (0..117).any(|t| tag_name(t) == name) || name == "ok_" || name == "callee_" {
        return match list_ok(input.clone()) {
            None => unreadable(input, true),
            // of arguments of one name a component takes the last
            Some(l) if name.ends_with('_') => (0..l.len()).any(|i| {
                let taken = arg_name(&l[i]).map_or(true, |n| !l[i + 1..].iter().any(|e| arg_name(e).as_ref() == Some(&n)));
                taken && expr_bad(&l[i])
            }),
            Some(l) => l.iter().any(expr_bad),
        };
    }
    if HELPERS.contains(&name) {
        // `render!(,)` renders nothing
        return input.to_string() != "," && unreadable(input, true);
    }
    false
}

const OK: &str = "#[laby]\nfn ok_(#[default(\"d\")] x: impl Render, #[rest] c: impl Render) -> impl Render { p!(x, c) }\n";

pub fn build(c: &Soup, obs: &mut Obs) -> Text {
    let mut em = Em::new();
    em.temps = false;
    let mut items = String::new();
    // a macro call
    let call = match &c.what {
        What::Params(case, m, ps) => {
            obs.class("parameters");
            let decl = match comp::misused(case, m, &mut em, &mut Obs::default()) {
                Some((decl, _, _)) => decl,
                None => OK.replace("ok_", "okay_"),
            };
            let mut ts = tokens(decl.parse().unwrap_or_else(|e| panic!("{e}: {decl}")));
            let parse = |s: &str| tokens(s.parse().unwrap_or_default());
            for (k, at) in ps {
                let (k, at) = (*k as usize, *at as usize);
                if k % 16 == 15 {
                    // another item, with the attribute
                    let t = parse(ITEMS[at % ITEMS.len()]);
                    let mut n = 0;
                    while n < ts.len() && (is(ts.get(n), "#") || matches!(ts[n], Tk::G(1, _))) {
                        n += 1;
                    }
                    ts.truncate(n);
                    ts.extend(t);
                    continue;
                }
                // the first parentheses are the parameters
                if let Some(Tk::G(_, l)) = ts.iter_mut().find(|t| matches!(t, Tk::G(0, _))) {
                    let mut starts = vec![0];
                    starts.extend(l.iter().enumerate().filter(|(_, t)| is(Some(t), ",")).map(|(i, _)| i + 1));
                    let s = starts[at % starts.len()].min(l.len());
                    match k % 16 {
                        0..=5 => {
                            let mut t = parse(PARAMS[(k / 16 * 6 + at / 7 % 6) % 40].trim());
                            t.push(Tk::T(", ".into()));
                            l.splice(s..s, t);
                        }
                        6..=9 => {
                            let end = (s..l.len()).find(|i| is(l.get(*i), ",")).unwrap_or(l.len());
                            l.splice(s..end, parse(PARAMS[(k / 16 + at / 3) % 40]));
                        }
                        _ => drop(l.splice(s..s, parse(MARKS[(k / 16 + at / 3) % 24]))),
                    }
                }
            }
            let mut s = String::new();
            show(&ts, &mut s);
            s
        }
        What::El(e) => {
            obs.class("markup");
            em.ex(e)
        }
        What::Branch(e) => {
            obs.class("branches");
            em.ex(e)
        }
        What::Call(case, m) => {
            obs.class("component calls");
            match comp::misused(case, m, &mut em, &mut Obs::default()) {
                Some((decl, _, good)) => {
                    items = decl;
                    good
                }
                None => "ok_!(x = 1, \"a\")".into(),
            }
        }
        What::Decl(case, m, _) => {
            obs.class("component declarations");
            match comp::misused(case, m, &mut em, &mut Obs::default()) {
                Some((decl, _, _)) => decl,
                None => OK.replace("ok_", "okay_"),
            }
        }
        What::Helper(k, v) => {
            obs.class("helper macros");
            let v: Vec<String> = v.iter().map(|e| em.ex(e)).collect();
            format!("{}!({})", HELPERS[*k as usize], v.join(", "))
        }
        What::Words(k, v) => {
            obs.class("tokens at random");
            let mut s = String::new();
            for w in v {
                show(&word(*w), &mut s);
            }
            let name = match k % 5 {
                0 => HELPERS[*k as usize / 5 % HELPERS.len()],
                1 => "frag_match",
                _ => tag_name(*k as u16 * 7 % 117),
            };
            format!("{name}!({s})")
        }
    };
    let st = em.take_stmts();
    let mut ts = tokens(call.parse().unwrap_or_else(|e| panic!("{e}: {call}")));
    let mut invalid = false;
    let (body, decl) = if let What::Params(..) = &c.what {
        (String::new(), call)
    } else if let What::Decl(_, _, k) = &c.what {
        // the attribute takes no arguments
        let args = k % 4 == 0;
        invalid = args && k % 8 == 0;
        if !invalid {
            for e in &c.edits {
                edit(&mut ts, e);
            }
        }
        if args {
            // the arguments of the attribute
            for t in ts.iter_mut().take(4) {
                if let Tk::G(1, x) = t {
                    x.push(Tk::G(k / 4 % 3, word(*k as u16 * 31)));
                    break;
                }
            }
        }
        let mut s = String::new();
        show(&ts, &mut s);
        (String::new(), s)
    } else {
        // everything between the outermost delimiters
        let n = ts.len();
        let Tk::G(d, inner) = &mut ts[n - 1] else { panic!("no call: {call}") };
        for e in &c.edits {
            edit(inner, e);
        }
        let mut s = String::new();
        show(inner, &mut s);
        let d = *d;
        let path: String = {
            let mut o = String::new();
            show(&ts[..n - 1], &mut o);
            o
        };
        if let Ok(input) = s.parse::<TokenStream>() {
            let name = path.trim().trim_end_matches('!').trim().rsplit("::").next().unwrap().trim().to_string();
            let name = if matches!(c.what, What::Call(..)) { "callee_".to_string() } else { name };
            invalid = macro_bad(&name, input);
        }
        let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][d as usize % 3];
        (format!("{st}\nlet node_ = {path}{a}{s}{b};"), String::new())
    };
    obs.class_if(invalid, "must be rejected");
    obs.nontrivial = true;
    let decl = if decl.is_empty() { decl } else { format!("emit_! {{ {decl} }}\n") };
    Text {
        module: format!(
            "{USES}\n#[allow(unused)] macro_rules! emit_ {{ ($($t:tt)*) => {{ $($t)* }} }}\n{OK}{}{items}\n{decl}pub fn run(v: &h::V, out: &mut h::Out) {{\n{body}\n}}\n",
            em.items
        ),
        invalid,
    }
}

fn file(ms: &[&Text]) -> (String, Vec<(usize, usize)>) {
    let mut text = prelude(&CTX);
    let mut line = text.lines().count() + 1;
    let mut ranges = vec![];
    for (i, m) in ms.iter().enumerate() {
        let t = format!("pub mod m{i} {{\n{}}}\n", m.module);
        let n = t.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        text.push_str(&t);
    }
    (text, ranges)
}

fn crash(e: &Diag) -> bool {
    e.text.contains("macro panicked") || e.text.contains("attribute panicked")
}

/// What is wrong about one on its own.
fn single(rc: &Rustc, t: &Text) -> Option<String> {
    let f = file(&[t]).0;
    let r = rc.check_within(&CTX, &f, 60, false);
    if let Some(e) = r.errors.iter().find(|e| crash(e)) {
        return Some(format!("a macro panics: {}", e.text));
    }
    if r.errors.iter().any(|e| e.text.contains("internal compiler error")) {
        return None;
    }
    if r.hung || r.died {
        // whether it is the expansion
        let r = rc.check_within(&CTX, &f, 60, true);
        if r.hung {
            return Some("the expansion does not end".into());
        }
        if r.died {
            return Some("the compiler dies while expanding".into());
        }
        return None;
    }
    if r.ok && t.invalid {
        return Some("malformed input compiles".into());
    }
    None
}

fn chunk(rc: &Rustc, ts: &[Text]) -> Vec<(usize, String)> {
    let mut fails = vec![];
    let mut live: Vec<usize> = (0..ts.len()).collect();
    for _ in 0..10 {
        if live.is_empty() || !fails.is_empty() {
            break;
        }
        let (f, ranges) = file(&live.iter().map(|i| &ts[*i]).collect::<Vec<_>>());
        let r = rc.check_within(&CTX, &f, 200, false);
        let mut gone: HashSet<usize> = HashSet::new();
        let mut suspects: HashSet<usize> = HashSet::new();
        for e in &r.errors {
            for l in &e.lines {
                if let Some(k) = ranges.iter().position(|(a, b)| l >= a && l <= b) {
                    gone.insert(live[k]);
                    if crash(e) {
                        suspects.insert(live[k]);
                    }
                }
            }
        }
        if r.ok {
            suspects.extend(live.iter().copied().filter(|i| ts[*i].invalid));
            gone.extend(live.iter().copied());
        } else if gone.is_empty() || r.hung || r.died {
            suspects.extend(live.iter().copied());
            gone.extend(live.iter().copied());
        }
        let mut suspects: Vec<usize> = suspects.into_iter().collect();
        suspects.sort();
        for s in suspects {
            if let Some(m) = single(rc, &ts[s]) {
                fails.push((s, m));
                if fails.len() >= 3 {
                    break;
                }
            }
        }
        live.retain(|i| !gone.contains(i));
    }
    // rarely: errors of one kind hide the others
    if fails.is_empty() {
        for i in live {
            if let Some(m) = single(rc, &ts[i]) {
                fails.push((i, m));
            }
        }
    }
    fails
}

pub fn run(env: &RunEnv) -> Part {
    let rc = Rustc::new(&env.work);
    sanity(&rc);
    let mut part = Part::default();
    if let Some(f) = env.replay_arg() {
        let rec: Json = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let text = rec["replay"]["module"].as_array().unwrap().iter().map(|l| format!("{}\n", l.as_str().unwrap())).collect::<String>();
        let t = Text { module: text, invalid: rec["replay"]["must_be_rejected"] == true };
        part.evaluations = 1;
        part.distinct = 1;
        if let Some(m) = single(&rc, &t) {
            part.violation = Some((rec["replay"].clone(), m));
        }
        return part;
    }
    let n = env.n(12000, 400000);
    let per = 100;
    let nchunks = (n + per - 1) / per;
    let gen = |i: u64| case(i).new_tree(&mut case_runner(env.seed, "malformed", i)).unwrap();
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let shared = Mutex::new((Part::default(), Vec::<(u64, String)>::new(), HashSet::new()));
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..vcore::driver::WORKERS {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst) as u64;
                    if k >= nchunks || stop.load(SeqCst) != 0 {
                        return;
                    }
                    let ids: Vec<u64> = (k * per..((k + 1) * per).min(n)).collect();
                    let mut all = vec![];
                    for i in &ids {
                        let mut obs = Obs::default();
                        let t = build(&gen(*i).current(), &mut obs);
                        all.push((t, obs));
                    }
                    let ts: Vec<Text> = all.iter().map(|x| x.0.clone()).collect();
                    let fails = chunk(&rc, &ts);
                    let mut sh = shared.lock().unwrap();
                    for (t, obs) in &all {
                        sh.0.evaluations += 1;
                        for (c, n) in &obs.classes {
                            *sh.0.classes.entry(c.to_string()).or_insert(0) += n;
                        }
                        sh.2.insert({ use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); t.module.hash(&mut h); h.finish() });
                    }
                    for (i, m) in fails {
                        stop.store(1, SeqCst);
                        sh.1.push((ids[i], m));
                    }
                })
                .unwrap();
        }
    });
    let (p, mut fails, seen) = shared.into_inner().unwrap();
    part = p;
    part.distinct = seen.len() as u64;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("  {} malformed: {} in {:.2}s, {} rustc runs", env.label, n, t0.elapsed().as_secs_f64(), rc.compiled.load(SeqCst));
    }
    let record = |i: u64, t: &Text| {
        json!({"stream": "malformed", "index": i, "module": t.module.lines().collect::<Vec<_>>(), "must_be_rejected": t.invalid})
    };
    fails.sort();
    if let Some((i, first)) = fails.first().cloned() {
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (i, m) in &fails {
                eprintln!("  case {i}: {m}\n{}", build(&gen(*i).current(), &mut Obs::default()).module);
            }
        }
        let mut tree = gen(i);
        let (mut best, mut msg) = (build(&tree.current(), &mut Obs::default()), first);
        let end = Instant::now() + Duration::from_secs(45);
        let mut last = best.clone();
        'out: while tree.simplify() {
            loop {
                if Instant::now() > end {
                    break 'out;
                }
                let t = build(&tree.current(), &mut Obs::default());
                let r = if t == last { None } else { single(&rc, &t) };
                last = t.clone();
                match r {
                    Some(m) => {
                        best = t;
                        msg = m;
                        break;
                    }
                    None => {
                        if !tree.complicate() {
                            break 'out;
                        }
                    }
                }
            }
        }
        let rec = record(i, &best);
        part.samples.push(rec.clone());
        eprintln!("C25: case {i}: {msg}\n{}", best.module);
        part.violation = Some((rec, format!("{msg}\n{}", best.module)));
    }
    for k in 0..8 {
        part.samples.push(record(k, &build(&gen(k).current(), &mut Obs::default())));
    }
    part.extra.insert("extra".into(), json!({"rustc_runs": rc.compiled.load(SeqCst)}));
    part
}
