//! C16 (components by name), C23 (the same with decl_macro).
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::vals::{vals, Texts, Vals, NB, NI, NL, NO, NS};
use proptest::prelude::*;
use vcore::driver::{Env as RunEnv, Obs};
use vcore::text::esc;

/// Types of parameters.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    Str,
    StrA,
    String,
    Int,
    Bool,
    Impl,
    Generic,
    Opt,
    List,
    Func,
    Hrtb,
    Arr,
    Tuple,
    FnPtr,
    Dyn,
    MutRef,
}
use T::*;
const TYPES: [T; 16] = [Str, StrA, String, Int, Bool, Impl, Generic, Opt, List, Func, Hrtb, Arr, Tuple, FnPtr, Dyn, MutRef];

#[derive(Clone, Debug)]
pub struct Param {
    ty: T,
    name: u8,
    mutable: bool,
    /// 0: none, 1: of the type, 2..: an expression.
    default: u8,
    attr: u8,
}

#[derive(Clone, Debug)]
pub struct Arg {
    /// Which parameter, or an unnamed one.
    to: u8,
    kind: u8,
    k: u8,
    ex: Ex,
}

#[derive(Clone, Debug)]
pub struct CompCase {
    name: u8,
    params: Vec<Param>,
    /// Position of the rest parameter, if any.
    rest: Option<(u8, bool, bool)>,
    vis: u8,
    loc: u8,
    qual: u8,
    ret: u8,
    where_: u8,
    attrs: u8,
    /// Next to something else named laby.
    own: bool,
    calls: Vec<Call>,
    vals: Vec<Vals>,
}

#[derive(Clone, Debug)]
pub struct Call {
    args: Vec<Arg>,
    fill: Vec<Arg>,
    delim: u8,
    trail: bool,
    ctx: u8,
}

const COMPS: [&str; 9] = ["box_", "my_comp", "Widget", "r#loop", "été", "c", "laby_", "_x1", "default"];
const PARAMS: [&str; 36] = [
    "x", "title", "class", "children", "t1", "buffer", "call", "frag", "laby", "core", "r#type", "r#for", "_u", "été", "rest", "default",
    "args", "Some_", "zz", "a1", "Node", "v_", "k", "b",
    // like others
    "_title", "title_", "_x", "__x", "X", "xx", "type_", "_children", "Class", "class1", "_zz", "a",
];

fn param() -> BoxedStrategy<Param> {
    (0usize..TYPES.len(), any::<u8>(), any::<bool>(), prop_oneof![3 => Just(0u8), 1 => Just(1), 2 => 2u8..6], 0u8..8)
        .prop_map(|(t, name, mutable, default, attr)| Param { ty: TYPES[t], name, mutable, default, attr })
        .boxed()
}

fn arg(cfg: &Cfg) -> BoxedStrategy<Arg> {
    // also blocks of statements only
    let effect = any::<u8>().prop_map(|k| Ex::Leaf { kind: EFFECT, k, ev: 0, tr: false });
    let ex = prop_oneof![9 => gen::tree(cfg), 1 => effect];
    (any::<u8>(), any::<u8>(), any::<u8>(), ex).prop_map(|(to, kind, k, ex)| Arg { to, kind, k, ex }).boxed()
}

fn cfg() -> Cfg {
    // a variable moved in would be moved by each of the calls compared
    let wraps = Cfg::default().wraps.into_iter().filter(|w| *w != W::Hoist).collect();
    Cfg { depth: 1, items: 3, wraps, leaf_kinds: (0..LEAVES).filter(|k| *k != CELL && *k != 44).collect(), ..Cfg::default() }
}

pub fn case() -> BoxedStrategy<CompCase> {
    let cfg = cfg();
    let own = prop_oneof![3 => Just(false), 1 => Just(true)];
    let call = (prop::collection::vec(arg(&cfg), 0..7), prop::collection::vec(arg(&cfg), 12), 0u8..3, any::<bool>(), 0u8..12)
        .prop_map(|(args, fill, delim, trail, ctx)| Call { args, fill, delim, trail, ctx });
    (
        (any::<u8>(), prop_oneof![6 => prop::collection::vec(param(), 0..7), 1 => prop::collection::vec(param(), 8..15)], prop::option::of((any::<u8>(), any::<bool>(), any::<bool>()))),
        (0u8..6, 0u8..10, prop_oneof![5 => Just(0u8), 1 => 1u8..5], 0u8..4, 0u8..4, 0u8..6, own),
        prop::collection::vec(call, 1..4),
        prop::collection::vec(vals(Texts::Mixed), 2),
    )
        .prop_map(|((name, params, rest), (vis, loc, qual, ret, where_, attrs, own), calls, vals)| CompCase {
            name,
            params,
            rest,
            vis,
            loc,
            qual,
            ret,
            where_,
            attrs,
            own,
            calls,
            vals,
        })
        .boxed()
}

/// The source of an argument and what it shows.
fn arg_src(ty: T, a: &Arg) -> std::string::String {
    let (s, i, b, o, l) = (a.k % NS, a.k % NI, a.k % NB, a.k % NO, a.k % NL);
    match ty {
        Str | StrA => match a.kind % 6 {
            0 => format!("v.s[{s}].as_str()"),
            1 => "\"a<b\"".into(),
            2 => format!("&v.s[{s}].clone()"),
            3 => format!("if v.b[{b}] {{ \"yes\" }} else {{ &v.s[{s}] }}"),
            4 => format!("{{ let t = &v.s[{s}]; t }}"),
            _ => "concat!(\"x\", 1)".into(),
        },
        String => match a.kind % 4 {
            0 => format!("v.s[{s}].clone()"),
            1 => "h::text(\"a\")".into(),
            2 => format!("h::fmt2(&v.s[{s}], 3)"),
            _ => format!("match v.b[{b}] {{ true => v.s[{s}].clone(), _ => h::text(\"no\") }}"),
        },
        Int => match a.kind % 5 {
            0 => format!("v.i[{i}]"),
            1 => "5".into(),
            2 => "-3".into(),
            3 => "1 + 2 * 3".into(),
            _ => format!("v.s[{s}].len() as i64"),
        },
        Bool => match a.kind % 4 {
            0 => format!("v.b[{b}]"),
            1 => "true".into(),
            2 => format!("v.i[{i}] > 0"),
            _ => format!("!v.b[{b}]"),
        },
        Opt => match a.kind % 3 {
            0 => format!("v.o[{o}].as_deref()"),
            1 => "None".into(),
            _ => "Some(\"x\")".into(),
        },
        List => match a.kind % 3 {
            0 => format!("&v.l[{l}]"),
            1 => "&[]".into(),
            _ => "&[h::text(\"q\")]".into(),
        },
        Func => match a.kind % 3 {
            0 => format!("|n| h::fmt2(\"f\", n & v.i[{i}])"),
            1 => "move |n: i64| h::fmt2(\"m\", n)".into(),
            _ => "(|n| h::text(\"c\"))".into(),
        },
        Hrtb => match a.kind % 2 {
            0 => "|s: &str| h::fmt2(s, 2)".into(),
            _ => format!("|s: &str| h::fmt2(s, v.i[{i}])"),
        },
        Arr => match a.kind % 3 {
            0 => format!("[v.i[{i}]; 2]"),
            1 => "[1, 2, 3]".into(),
            _ => "[]".into(),
        },
        Tuple => format!("(v.i[{i}], &v.s[{s}])"),
        FnPtr => match a.kind % 2 {
            0 => "|n| n + 1".into(),
            _ => "i64::abs".into(),
        },
        Dyn => match a.kind % 3 {
            0 => format!("&v.i[{i}]"),
            1 => "&\"s\"".into(),
            _ => format!("&v.s[{s}]"),
        },
        MutRef => "&mut 40".into(),
        Impl | Generic => unreachable!(),
    }
}

fn arg_text(ty: T, a: &Arg, mutable: bool, v: &Vals) -> std::string::String {
    let (s, i, b, o, l) = (&v.s[(a.k % NS) as usize], v.i[(a.k % NI) as usize], v.b[(a.k % NB) as usize], &v.o[(a.k % NO) as usize], &v.l[(a.k % NL) as usize]);
    match ty {
        Str | StrA => match a.kind % 6 {
            0 | 2 | 4 => s.clone(),
            1 => "a<b".into(),
            3 => if b { "yes".into() } else { s.clone() },
            _ => "x1".into(),
        },
        String => {
            let mut t: std::string::String = match a.kind % 4 {
                0 => s.clone(),
                1 => "a".into(),
                2 => format!("{s}<3>"),
                _ => if b { s.clone() } else { "no".into() },
            };
            if mutable {
                t.push('!');
            }
            t
        }
        Int => {
            let n: i64 = match a.kind % 5 {
                0 => i,
                1 => 5,
                2 => -3,
                3 => 7,
                _ => s.len() as i64,
            };
            if mutable { n.wrapping_add(1) } else { n }.to_string()
        }
        Bool => match a.kind % 4 {
            0 => b,
            1 => true,
            2 => i > 0,
            _ => !b,
        }
        .to_string(),
        Opt => match a.kind % 3 {
            0 => o.clone().unwrap_or("-".into()),
            1 => "-".into(),
            _ => "x".into(),
        },
        List => match a.kind % 3 {
            0 => l.iter().map(|x| format!("{x},")).collect(),
            1 => "".into(),
            _ => "q,".into(),
        },
        Func => match a.kind % 3 {
            0 => format!("f<{}>", 7 & i),
            1 => "m<7>".into(),
            _ => "c".into(),
        },
        Hrtb => match a.kind % 2 {
            0 => "loc<2>".into(),
            _ => format!("loc<{i}>"),
        },
        Arr => match a.kind % 3 {
            0 => format!("{i};{i};2"),
            1 => "1;2;3;3".into(),
            _ => "0".into(),
        },
        Tuple => format!("{i}:{s}"),
        FnPtr => match a.kind % 2 {
            0 => "11".into(),
            _ => "10".into(),
        },
        Dyn => match a.kind % 3 {
            0 => i.to_string(),
            1 => "s".into(),
            _ => s.clone(),
        },
        MutRef => "41".into(),
        Impl | Generic => unreachable!(),
    }
}

/// A default expression, valid wherever the macro is called, and what it shows.
fn default_src(ty: T, d: u8, mutable: bool) -> Option<(std::string::String, std::string::String)> {
    let m = if mutable && ty == String { "!" } else { "" };
    if d == 0 {
        return None;
    }
    if d == 1 {
        let t: std::string::String = match ty {
            Str | StrA => "".into(),
            String => m.into(),
            Int => if mutable { "1" } else { "0" }.into(),
            Bool => "false".into(),
            Opt => "-".into(),
            List => "".into(),
            Tuple => "0:".into(),
            _ => return None,
        };
        return Some(("".into(), t));
    }
    let (e, t): (&str, std::string::String) = match (ty, d % 2) {
        (Str | StrA, 0) => ("\"dflt<\"", "dflt<".into()),
        (Str | StrA, _) => ("h::STR", "const<&>".into()),
        (String, 0) => ("h::text(\"t\")", format!("t{m}")),
        (String, _) => ("h::fmt2(\"f\", 1 + 1)", format!("f<2>{m}")),
        (Int, 0) => ("1 + 2", if mutable { "4" } else { "3" }.into()),
        (Int, _) => ("{ let a = 5; a * 2 }", if mutable { "11" } else { "10" }.into()),
        (Bool, 0) => ("true", "true".into()),
        (Bool, _) => ("h::FLAG", "true".into()),
        (Impl | Generic, 0) => ("()", "".into()),
        (Impl | Generic, _) => ("\"a & b\"", "a &amp; b".into()),
        (Opt, 0) => ("Some(\"some\")", "some".into()),
        (Opt, _) => ("if true { None } else { Some(\"\") }", "-".into()),
        (List, 0) => ("&[h::text(\"d\"), h::text(\"e\")]", "d,e,".into()),
        (List, _) => ("&[]", "".into()),
        (Func, _) => ("|n| h::fmt2(\"d\", n)", "d<7>".into()),
        (Hrtb, _) => ("|s: &str| h::text(s)", "loc".into()),
        (Arr, _) => ("[4, 5]", "4;5;2".into()),
        (Tuple, _) => ("(1, \"one\")", "1:one".into()),
        (FnPtr, _) => ("|n| n * 2", "20".into()),
        (Dyn, _) => ("&h::NUM", "4321".into()),
        (MutRef, _) => ("&mut 1", "2".into()),
    };
    // the evaluation is logged where that does not get in the way of inference
    let log = !matches!(ty, Func | Hrtb | FnPtr | MutRef | Arr | Opt) && d >= 4;
    Some((if log { format!("(h::ev({DEFAULT_EV}, {e}))") } else { format!("({e})") }, t))
}

const DEFAULT_EV: u32 = 7;

struct Sig {
    /// In the order of the parameters; the rest parameter has no type.
    ps: Vec<P>,
}

struct P {
    name: std::string::String,
    ty: T,
    mutable: bool,
    default: Option<(std::string::String, std::string::String)>,
    rest: bool,
    attr: u8,
}

fn sig(c: &CompCase) -> Sig {
    let mut used = vec![];
    let mut ps = vec![];
    let mut fresh = |n: u8| {
        let mut k = n as usize % PARAMS.len();
        while used.contains(&k) {
            k = (k + 1) % PARAMS.len();
        }
        used.push(k);
        PARAMS[k].to_string()
    };
    for p in &c.params {
        ps.push(P {
            name: fresh(p.name),
            ty: p.ty,
            mutable: p.mutable,
            default: default_src(p.ty, p.default, p.mutable),
            rest: false,
            attr: p.attr,
        });
    }
    if let Some((at, generic, mutable)) = c.rest {
        let name = fresh(3);
        let at = at as usize % (ps.len() + 1);
        ps.insert(at, P { name, ty: if generic { Generic } else { Impl }, mutable, default: None, rest: true, attr: at as u8 });
    }
    Sig { ps }
}

/// The declaration of the function.
fn declare(c: &CompCase, s: &Sig, name: &str) -> std::string::String {
    let (mut lifetimes, mut types, mut wheres) = (vec![], vec![], vec![]);
    let mut params = vec![];
    let mut body = std::string::String::from("let mut o_ = h::text(\"\");");
    for (i, p) in s.ps.iter().enumerate() {
        let n = &p.name;
        let bound = |types: &mut Vec<std::string::String>, wheres: &mut Vec<std::string::String>, b: &str| {
            if c.where_ % 2 == 0 {
                types.push(format!("T{i}: {b}"));
            } else {
                types.push(format!("T{i}"));
                wheres.push(format!("T{i}: {b}"));
            }
            format!("T{i}")
        };
        let ty = match p.ty {
            Str => "&str".into(),
            StrA => {
                lifetimes.push(format!("'a{i}"));
                format!("&'a{i} str")
            }
            String => "::std::string::String".into(),
            Int => "i64".into(),
            Bool => "bool".into(),
            Impl => "impl Render".into(),
            Generic => bound(&mut types, &mut wheres, "Render"),
            Opt => "Option<&str>".into(),
            List => "&[::std::string::String]".into(),
            Func => "impl Fn(i64) -> ::std::string::String".into(),
            Hrtb => bound(&mut types, &mut wheres, "for<'x> Fn(&'x str) -> ::std::string::String"),
            Arr => {
                types.push(format!("const N{i}: usize"));
                format!("[i64; N{i}]")
            }
            Tuple => "(i64, &str)".into(),
            FnPtr => "fn(i64) -> i64".into(),
            Dyn => "&dyn ::core::fmt::Display".into(),
            MutRef => "&mut i64".into(),
        };
        let mut attrs = vec![];
        if p.rest {
            attrs.push("#[rest]".to_string());
        }
        if let Some((e, _)) = &p.default {
            attrs.push(format!("#[default{e}]"));
        }
        match p.attr {
            1 => attrs.push("#[allow(unused_variables)]".into()),
            2 => attrs.insert(0, "#[allow(non_snake_case)]".into()),
            _ => {}
        }
        attrs.push(format!("{}{n}: {ty}", if p.mutable { "mut " } else { "" }));
        params.push(attrs.join(" "));
        if p.mutable {
            body.push_str(&match p.ty {
                String => format!("{n}.push('!');"),
                Int => format!("{n} = {n}.wrapping_add(1);"),
                _ => std::string::String::new(),
            });
        }
        body.push_str(&match p.ty {
            Str | StrA => format!("o_.push_str({n});"),
            String => format!("o_.push_str(&{n});"),
            Int | Bool | Dyn => format!("o_.push_str(&{n}.to_string());"),
            Impl | Generic => format!("o_.push_str(&render!({n}));"),
            Opt => format!("o_.push_str({n}.unwrap_or(\"-\"));"),
            List => format!("for x_ in {n} {{ o_.push_str(x_); o_.push(','); }}"),
            Func => format!("o_.push_str(&{n}(7));"),
            Hrtb => format!("{{ let loc = h::text(\"loc\"); o_.push_str(&{n}(&loc)); }}"),
            Arr => format!("for x_ in {n} {{ o_.push_str(&x_.to_string()); o_.push(';'); }} o_.push_str(&N{i}.to_string());"),
            Tuple => format!("o_.push_str(&format!(\"{{}}:{{}}\", {n}.0, {n}.1));"),
            FnPtr => format!("o_.push_str(&{n}(10).to_string());"),
            MutRef => format!("*{n} += 1; o_.push_str(&{n}.to_string());"),
        });
        body.push_str("o_.push('/');");
    }
    let mut generics = lifetimes;
    generics.extend(types);
    if c.where_ >= 2 {
        wheres.push("i64: Copy".into());
    }
    let g = if generics.is_empty() { std::string::String::new() } else { format!("<{}>", generics.join(", ")) };
    let w = if wheres.is_empty() { std::string::String::new() } else { format!(" where {}{}", wheres.join(", "), if c.attrs % 2 == 0 { "," } else { "" }) };
    let vis = match (c.loc, c.vis) {
        (0 | 1 | 8 | 9, v) => ["", "pub ", "pub(crate) ", "pub(self) ", "pub(in self) ", ""][v as usize],
        (2, v) => ["pub ", "pub(crate) ", "pub(super) ", "pub ", "pub(crate) ", "pub(super) "][v as usize],
        (3, v) => ["pub(in super::super) ", "pub ", "pub(in super::super) ", "pub(crate) ", "pub ", "pub "][v as usize],
        (_, v) => ["pub ", "pub(crate) ", "pub(super) ", "pub(in super) ", "pub ", "pub(crate) "][v as usize],
    };
    let attr = ["", "#[inline]\n", "/// Documented.\n", "#[allow(clippy::all)] #[must_use]\n", "#[doc = \"x\"] #[cold]\n", ""][c.attrs as usize];
    let qual = match c.qual {
        1 => "unsafe ",
        2 => "extern \"C\" ",
        3 => "async ",
        _ => "",
    };
    let (ret, last) = match ret(c) {
        0 => ("::std::string::String", "o_"),
        1 => ("impl Render", "raw!(o_)"),
        2 => ("Result<::std::string::String, ()>", "Ok(o_)"),
        _ => ("Vec<u8>", "o_.into_bytes()"),
    };
    // the attribute may stand before or after others
    let (pre, post) = if c.attrs % 2 == 0 { (attr, "#[laby]\n") } else { ("#[laby]\n", attr) };
    format!(
        "{pre}{post}{vis}{qual}fn {name}{g}({}{}) -> {ret}{w} {{ {body} {last} }}\n",
        params.join(", "),
        if c.attrs % 3 == 0 && !params.is_empty() { "," } else { "" }
    )
}

fn ret(c: &CompCase) -> u8 {
    // returned values of opaque types would keep the borrows
    if c.ret == 1 && c.qual == 3 {
        0
    } else {
        c.ret
    }
}

/// Arguments by parameter (the last of a name wins) and unnamed ones, as written.
enum Given<'a> {
    Named(usize, &'a Arg),
    Rest(&'a Arg),
}

fn give<'a>(s: &Sig, call: &'a Call) -> Vec<Given<'a>> {
    let mut out: Vec<Given> = vec![];
    let n = s.ps.len();
    let has_rest = s.ps.iter().any(|p| p.rest);
    for a in &call.args {
        let slots = n + if has_rest { 2 } else { 0 };
        if slots == 0 {
            continue;
        }
        let i = a.to as usize % slots;
        if i >= n || s.ps[i].rest {
            out.push(Given::Rest(a));
        } else {
            out.push(Given::Named(i, a));
        }
    }
    for (i, p) in s.ps.iter().enumerate() {
        if !p.rest && p.default.is_none() && !out.iter().any(|g| matches!(g, Given::Named(k, _) if *k == i)) {
            let a = &call.fill[i % call.fill.len()];
            let at = a.to as usize % (out.len() + 1);
            out.insert(at, Given::Named(i, a));
        }
    }
    out
}

struct Written {
    /// Statements, positional call, named call.
    stmts: std::string::String,
    pos: std::string::String,
    named: std::string::String,
}

fn write_call(c: &CompCase, s: &Sig, call: &Call, name: &str, pos_name: &str, em: &mut Em, obs: &mut Obs) -> Written {
    let given = give(s, call);
    let mut parts = vec![];
    let mut srcs: Vec<Option<std::string::String>> = s.ps.iter().map(|_| None).collect();
    let mut rests = vec![];
    for g in &given {
        match g {
            Given::Named(i, a) => {
                let p = &s.ps[*i];
                let e = match p.ty {
                    Impl | Generic => em.ex(&a.ex),
                    t => arg_src(t, a),
                };
                obs.class_if(srcs[*i].is_some(), "a repeated argument");
                parts.push(format!("{} = {e}", p.name));
                srcs[*i] = Some(e);
            }
            Given::Rest(a) => {
                let e = em.ex(&a.ex);
                parts.push(e.clone());
                rests.push(e);
            }
        }
    }
    let mut moved = false;
    let pos: Vec<_> = s
        .ps
        .iter()
        .zip(&srcs)
        .map(|(p, e)| {
            if p.rest {
                obs.class_if(rests.len() > 1, "several unnamed arguments");
                format!("frag!({})", rests.join(", "))
            } else if let Some(e) = e {
                e.clone()
            } else {
                moved = true;
                let d = p.default.as_ref().unwrap();
                if d.0.is_empty() {
                    "Default::default()".into()
                } else {
                    d.0.clone()
                }
            }
        })
        .collect();
    obs.class_if(moved, "an omitted argument");
    obs.class_if(
        given.iter().filter_map(|g| if let Given::Named(i, _) = g { Some(*i) } else { None }).collect::<Vec<_>>().windows(2).any(|w| w[0] > w[1]),
        "arguments out of order",
    );
    obs.nontrivial |= s.ps.len() > 1 && !given.is_empty();
    let mut list = parts.join(", ");
    if call.trail && !list.is_empty() {
        list.push(',');
    }
    let mut named = delimit(name, &list, call.delim);
    let mut pos = format!("{pos_name}({})", pos.join(", "));
    let _ = c;
    for x in [&mut named, &mut pos] {
        match c.qual {
            1 => *x = format!("unsafe {{ {x} }}"),
            3 => *x = format!("h::block_on({x})"),
            _ => {}
        }
        match ret(c) {
            2 => x.push_str(".unwrap()"),
            3 => *x = format!("::std::string::String::from_utf8({x}).unwrap()"),
            _ => {}
        }
    }
    Written { stmts: em.take_stmts(), pos, named }
}

fn text(c: &CompCase, s: &Sig, call: &Call, v: &Vals) -> std::string::String {
    let given = give(s, call);
    let mut env = Env::new(v);
    env.temps = false;
    let mut shown: Vec<Option<std::string::String>> = s.ps.iter().map(|_| None).collect();
    let mut rest = std::string::String::new();
    for g in given {
        match g {
            Given::Named(i, a) => {
                let p = &s.ps[i];
                shown[i] = Some(match p.ty {
                    Impl | Generic => env.text(&a.ex).unwrap(),
                    t => arg_text(t, a, p.mutable, v),
                });
            }
            Given::Rest(a) => rest.push_str(&env.text(&a.ex).unwrap()),
        }
    }
    let mut o = std::string::String::new();
    for (p, t) in s.ps.iter().zip(shown) {
        if p.rest {
            o.push_str(&rest);
        } else {
            match t {
                Some(t) => o.push_str(&t),
                None => o.push_str(&p.default.as_ref().unwrap().1),
            }
        }
        o.push('/');
    }
    let _ = c;
    o
}

const LOCS: [&str; 10] = [
    "in the module", "in the module", "in a module, imported by name", "two modules deep", "in a module, imported by glob",
    "in a module, imported by name", "in a module, imported by glob", "in a module, imported by path in the function", "in a function", "through another name",
];

type String_ = std::string::String;

/// The calls, each by position and by name, and what they output.
fn body(c: &CompCase, s: &Sig, call_name: &str, pos_name: &str, em: &mut Em, obs: &mut Obs) -> (String_, Vec<Vec<Exp>>) {
    let mut body = String_::new();
    let mut exps: Vec<Vec<Exp>> = c.vals.iter().map(|_| vec![]).collect();
    let opaque = ret(c) == 1;
    for call in &c.calls {
        let w = write_call(c, s, call, call_name, pos_name, em, obs);
        body.push_str(&format!("{{\n{}\n", w.stmts));
        body.push_str(&format!("out.push(render!({}));\n", w.pos));
        // an assembled value may borrow from temporaries of its arguments
        let n = &w.named;
        let stm = match call.ctx {
            0 | 1 => format!("h::take_log(); out.push(render!({n})); out.push(h::take_log());"),
            2 => format!("out.push(render!(div!({n})));"),
            3 => format!("out.push(render!(div!(class = {n}, \"x\")));"),
            4 => format!("out.push(render!(frag_match!(if v.b[0] {{ {} }} else {{ \"no\" }})));", if opaque { format!("render!({n})") } else { n.clone() }),
            5 => format!("out.push(render!(h::id({n})));"),
            6 => format!("out.push((|| render!({n}))());"),
            7 => format!("out.push(render!(iter!([1, 2].iter().map(|_| render!({n})))));"),
            8 => format!("out.push(holder!({n}, {n}));"),
            9 => format!("out.push(holder!(\"z\", a_ = {n}));"),
            10 => format!("out.push(render!(p!(id = \"i\", span!({n}), {n})));"),
            _ => format!("out.push(render!({n}, {n}));"),
        };
        body.push_str(&stm);
        body.push_str("\n}\n");
        for (v, e) in c.vals.iter().zip(&mut exps) {
            let t = text(c, s, call, v);
            let r = if opaque { t.clone() } else { esc(&t) };
            let e2 = if opaque { esc(&t) } else { esc(&esc(&t)) };
            e.push(Exp::Eq(r.clone()));
            let last = matches!(call.ctx, 0 | 1);
            e.push(Exp::Eq(match call.ctx {
                0 | 1 | 5 | 6 => r,
                2 => format!("<div>{r}</div>"),
                3 => format!("<div class=\"{r}\">x</div>"),
                4 if !v.b[0] => "no".into(),
                4 if opaque => e2,
                4 => r,
                7 => format!("{0}{0}", esc(&r)),
                8 => format!("-|{r}{r}"),
                9 => format!("{r}|z"),
                10 => format!("<p id=\"i\"><span>{r}</span>{r}</p>"),
                _ => format!("{r}{r}"),
            }));
            if last {
                let given = give(s, call);
                let omitted = s.ps.iter().enumerate().filter(|(i, p)| {
                    !p.rest && p.default.as_ref().is_some_and(|d| d.0.contains("h::ev")) && !given.iter().any(|g| matches!(g, Given::Named(k, _) if k == i))
                });
                let mut log: Vec<_> = omitted.map(|_| format!("e{DEFAULT_EV}")).collect();
                let mut env = Env::new(v);
                env.temps = false;
                for (at, g) in given.iter().enumerate() {
                    match g {
                        // the last of a name is the one that counts
                        Given::Named(i, _) if given[at + 1..].iter().any(|g| matches!(g, Given::Named(k, _) if k == i)) => {}
                        Given::Named(i, a) if matches!(s.ps[*i].ty, Impl | Generic) => drop(env.text(&a.ex)),
                        Given::Named(..) => {}
                        Given::Rest(a) => drop(env.text(&a.ex)),
                    }
                }
                log.extend(env.log);
                log.sort();
                e.push(Exp::Eq(log.join(" ")));
            }
        }
    }
    (body, exps)
}

fn build(c: &CompCase, obs: &mut Obs, decl: bool, by_path: bool) -> Job {
    let mut c = c.clone();
    let mut n = 100;
    for call in &mut c.calls {
        if matches!(call.ctx, 0 | 1) {
            call.args.iter_mut().chain(&mut call.fill).for_each(|a| a.ex.number(&mut n, false, 0, 0));
        }
    }
    let c = &c;
    let s = sig(c);
    let name = COMPS[c.name as usize % COMPS.len()];
    let mut em = Em::new();
    em.temps = false;
    let d = declare(c, &s, name);
    let mut items = std::string::String::new();
    let mut local = std::string::String::new();
    let mut call_name = name.to_string();
    let mut pos_name = name.to_string();
    obs.class(LOCS[c.loc as usize]);
    match c.loc {
        2 | 5 => items = format!("pub mod m {{ use super::*; {d} }}\n{}", if by_path { "".into() } else { format!("use m::{name};\n") }),
        3 => items = format!("mod m {{ pub mod n {{ use super::super::*; {d} }} }}\n{}", if by_path { "".into() } else { format!("use self::m::n::{name};\n") }),
        4 | 6 => items = format!("mod m {{ use super::*; {d} }}\n{}", if by_path { "" } else { "use self::m::*;\n" }),
        7 => {
            items = format!("mod m {{ use super::*; {d} }}\n");
            if !by_path {
                local = format!("use self::m::{name};\n");
            }
        }
        8 => local = d,
        9 => {
            items = format!("{d}use self::{name} as alias_;\n");
            call_name = "alias_".into();
        }
        _ => items = d,
    }
    if by_path {
        let path = match c.loc {
            2 | 5 | 4 | 6 => "m::",
            3 => "self::m::n::",
            7 => "self::m::",
            8 => "",
            _ => "self::",
        };
        obs.class_if(!path.is_empty(), "called by path");
        call_name = format!("{path}{call_name}");
        pos_name = format!("{path}{pos_name}");
    }
    items.push_str("#[laby] fn holder(#[rest] c_: impl Render, #[default(\"-\")] a_: impl Render) -> ::std::string::String { render!(a_, \"|\", c_) }\n");
    for p in &s.ps {
        obs.class(match p.ty {
            Str => "type &str",
            StrA => "type with a named lifetime",
            String => "type String",
            Int => "type i64",
            Bool => "type bool",
            Impl => "type impl Render",
            Generic => "type parameter",
            Opt => "type Option<&str>",
            List => "type slice",
            Func => "type impl Fn",
            Hrtb => "type parameter with a higher-ranked bound",
            Arr => "type with a const parameter",
            Tuple => "type tuple",
            FnPtr => "type function pointer",
            Dyn => "type trait object",
            MutRef => "type mutable reference",
        });
        obs.class_if(p.rest, "a rest parameter");
        obs.class_if(p.mutable, "a mutable binding");
    }
    obs.class_if(c.qual != 0 && c.qual < 4, "unsafe, extern or async");
    let (calls, exps) = body(c, &s, &call_name, &pos_name, &mut em, obs);
    let body = local + &calls;
    items.push_str(&em.items);
    Job { ctx: Ctx { decl, ..CTX }, items, body, exps, vals: c.vals.clone(), uses: USES, alt: None, lib: std::string::String::new() }
}

/// Paths to the crate, next to something else of that name.
fn absolute(s: &str) -> String_ {
    let mut o = String_::new();
    let mut rest = s;
    while let Some(at) = rest.find("laby::") {
        let before = &rest[..at];
        o.push_str(before);
        if !before.ends_with("::") && !before.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '#') {
            o.push_str("::");
        }
        o.push_str("laby::");
        rest = &rest[at + 6..];
    }
    o + rest
}

/// A module of the caller's that is named laby.
fn own(mut j: Job, c: &CompCase, obs: &mut Obs) -> Job {
    if c.own {
        obs.class("next to a module named laby");
        j.items = absolute(&j.items)
            + "\n#[allow(unused)] mod laby { pub struct Render; pub mod internal { pub struct Buffer; } pub fn render() {} macro_rules! frag { ($($x:tt)*) => { 0 } } pub(crate) use frag; }\n";
        j.body = absolute(&j.body);
        j.uses = "use crate::h;\nuse ::laby::*;";
    }
    j
}

fn build_named(c: &CompCase, obs: &mut Obs) -> Job {
    own(build(c, obs, false, false), c, obs)
}

fn build_decl(c: &CompCase, obs: &mut Obs) -> Job {
    let mut j = own(build(c, obs, true, false), c, obs);
    j.alt = Some(Box::new(build(c, &mut Obs::default(), false, false)));
    j
}

fn build_path(c: &CompCase, obs: &mut Obs) -> Job {
    let mut j = own(build(c, obs, true, true), c, obs);
    j.alt = Some(Box::new(build(c, &mut Obs::default(), false, false)));
    j
}

// ---- calls that must be rejected ----

#[derive(Clone, Debug)]
pub struct Misuse {
    kind: u8,
    pub k: u8,
    at: u8,
}

pub fn misuse() -> BoxedStrategy<Misuse> {
    (0u8..4, any::<u8>(), any::<u8>()).prop_map(|(kind, k, at)| Misuse { kind, k, at }).boxed()
}

const UNKNOWN: [&str; 8] = ["unknown_", "X", "title_", "r#fn", "xx", "é", "_", "Some"];
const NOT_NAMES: [&str; 14] = [
    "\"x\"", "a.b", "a::b", "a[0]", "f()", "(x)", "*x", "5", "(a, b)", "::x", "{ x }", "x::<i64>", "crate::x", "-x",
];

fn is_name(s: &str) -> bool {
    const KEYWORDS: [&str; 24] = [
        "as", "box", "do", "dyn", "else", "enum", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
        "ref", "self", "Self", "try", "type", "use",
    ];
    !s.is_empty() && s != "_" && !s.starts_with(|c: char| c.is_numeric()) && !KEYWORDS.contains(&s)
}

/// A name that no parameter has.
fn unlike(mut name: String_, s: &Sig) -> String_ {
    while s.ps.iter().any(|p| p.name.trim_start_matches("r#") == name.trim_start_matches("r#")) {
        name.push('q');
    }
    name
}

/// Declaration, misused call, correct call.
pub fn misused(c: &CompCase, m: &Misuse, em: &mut Em, obs: &mut Obs) -> Option<(String_, String_, String_)> {
    let mut c = c.clone();
    c.loc = 0;
    c.qual = 0;
    c.ret = 0;
    let mut s = sig(&c);
    if m.kind == 2 {
        // without a rest parameter
        c.rest = None;
        s = sig(&c);
    }
    let name = COMPS[c.name as usize % COMPS.len()];
    let call = &c.calls[0];
    let mut parts: Vec<(Option<usize>, String_)> = vec![];
    for g in give(&s, call) {
        match g {
            Given::Named(i, a) => {
                let p = &s.ps[i];
                let e = match p.ty {
                    Impl | Generic => em.ex(&a.ex),
                    t => arg_src(t, a),
                };
                parts.push((Some(i), format!("{} = {e}", p.name)));
            }
            Given::Rest(a) => {
                let e = em.ex(&a.ex);
                parts.push((None, e));
            }
        }
    }
    let w = |parts: &[(Option<usize>, String_)]| {
        let mut l = parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", ");
        if call.trail && !l.is_empty() {
            l.push(',');
        }
        delimit(name, &l, call.delim)
    };
    let good = w(&parts);
    let at = m.at as usize % (parts.len() + 1);
    match m.kind {
        0 => {
            obs.class("unknown argument name");
            let named: Vec<usize> = (0..parts.len()).filter(|k| parts[*k].0.is_some()).collect();
            if m.k % 2 == 0 && !named.is_empty() {
                // almost right
                let k = named[m.at as usize % named.len()];
                let p = s.ps[parts[k].0.unwrap()].name.clone();
                let value = parts[k].1[p.len()..].to_string();
                let plain = p.trim_start_matches("r#");
                let first = plain.chars().next().unwrap().len_utf8();
                let other_case = |s: &str| {
                    let u = s.to_uppercase();
                    if u == s {
                        s.to_lowercase()
                    } else {
                        u
                    }
                };
                let wrong = match m.k / 2 % 9 {
                    0 => format!("{p}_"),
                    1 => format!("_{plain}"),
                    2 => format!("{plain}2"),
                    3 => plain.to_uppercase() + "Z",
                    4 => other_case(plain),
                    5 => other_case(&plain[..first]) + &plain[first..],
                    6 => plain.replace('_', ""),
                    7 => plain.chars().take(plain.chars().count() - 1).collect(),
                    _ => format!("{plain}s"),
                };
                let wrong = if is_name(&wrong) { wrong } else { format!("{plain}_") };
                let wrong = unlike(wrong, &s);
                if m.k >= 128 {
                    // besides the right one
                    parts.insert(m.k as usize / 8 % (parts.len() + 1), (None, format!("{wrong}{value}")));
                } else {
                    parts[k].1 = format!("{wrong}{value}");
                }
            } else {
                let n = UNKNOWN[m.k as usize / 2 % UNKNOWN.len()];
                let n = unlike(if n == "_" { "u_" } else { n }.into(), &s);
                parts.insert(at, (None, format!("{n} = \"a\"")));
            }
        }
        1 => {
            let required: Vec<usize> = (0..s.ps.len()).filter(|i| !s.ps[*i].rest && s.ps[*i].default.is_none()).collect();
            if required.is_empty() {
                return None;
            }
            obs.class("required argument missing");
            let drop = required[m.k as usize % required.len()];
            parts.retain(|p| p.0 != Some(drop));
        }
        2 => {
            obs.class("unnamed argument without a rest parameter");
            let e = ["\"a\"", "p!()", "v.i[0]", "()", "frag!()", "v.s[0].as_str()", "{ 1 }", "v.i[0] == 1"][m.k as usize % 8];
            parts.insert(at, (None, e.into()));
        }
        _ => {
            obs.class("argument name that is not an identifier");
            let named: Vec<usize> = (0..parts.len()).filter(|k| parts[*k].0.is_some()).collect();
            if m.k % 4 != 0 && !named.is_empty() {
                // what would be right as an identifier
                let k = named[m.at as usize % named.len()];
                let p = s.ps[parts[k].0.unwrap()].name.clone();
                let value = parts[k].1[p.len()..].to_string();
                let wrong = match m.k / 4 % 11 {
                    0 => format!("({p})"),
                    1 => format!("\"{p}\""),
                    2 => format!("h::{p}"),
                    3 => format!("self::{p}"),
                    4 => format!("::{p}"),
                    5 => format!("{p}::<i64>"),
                    6 => format!("{p}.{p}"),
                    7 => format!("{p}[0]"),
                    8 => format!("*{p}"),
                    9 => format!("{{ {p} }}"),
                    _ => format!("{p}()"),
                };
                parts[k].1 = format!("{wrong}{value}");
            } else {
                let n = NOT_NAMES[m.k as usize / 4 % NOT_NAMES.len()];
                parts.insert(at, (None, format!("{n} = 1")));
            }
        }
    }
    Some((declare(&c, &s, name), w(&parts), good))
}

/// Declarations with two rest parameters and with one, and calls of them.
pub fn two_rests(c: &CompCase, at: (u8, u8), args: &[Ex], generic: bool, em: &mut Em) -> ((String_, String_), String_, String_) {
    let mut c = c.clone();
    c.loc = 0;
    c.qual = 0;
    c.ret = 0;
    c.rest = Some((at.0, generic, false));
    let s = sig(&c);
    let name = COMPS[c.name as usize % COMPS.len()];
    let call = &c.calls[0];
    let mut bad_sig = sig(&c);
    let second = P { name: "second_".into(), ty: if at.1 % 2 == 0 { Generic } else { Impl }, mutable: false, default: None, rest: true, attr: 0 };
    let k = at.1 as usize % (bad_sig.ps.len() + 1);
    bad_sig.ps.insert(k, second);
    let mut parts = vec![];
    for g in give(&s, call) {
        if let Given::Named(i, a) = g {
            let p = &s.ps[i];
            let e = match p.ty {
                Impl | Generic => em.ex(&a.ex),
                t => arg_src(t, a),
            };
            parts.push(format!("{} = {e}", p.name));
        }
    }
    for a in args {
        let e = em.ex(a);
        let k = at.0 as usize % (parts.len() + 1);
        parts.insert(k, e);
    }
    em.items.push_str("@DECL@");
    let call = delimit(name, &parts.join(", "), call.delim);
    ((declare(&c, &bad_sig, name), declare(&c, &s, name)), call.clone(), call)
}

// ---- components calling components ----

#[derive(Clone, Debug)]
pub struct Chain {
    /// Per component: where its arguments go in the next call, where it is declared.
    links: Vec<(Vec<u8>, u8, bool)>,
    width: u8,
    args: Vec<Ex>,
    rest: Vec<Ex>,
    levels: u8,
    vals: Vec<Vals>,
}

fn chain() -> BoxedStrategy<Chain> {
    (
        prop::collection::vec((prop::collection::vec(any::<u8>(), 4), 0u8..4, any::<bool>()), 1..6),
        1u8..5,
        prop::collection::vec(gen::tree(&cfg()), 4),
        prop::collection::vec(gen::tree(&cfg()), 0..4),
        0u8..6,
        prop::collection::vec(vals(Texts::Mixed), 2),
    )
        .prop_map(|(links, width, args, rest, levels, vals)| Chain { links, width, args, rest, levels, vals })
        .boxed()
}

/// A permutation of 0..n from arbitrary numbers.
fn perm(seed: &[u8], n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    seed[..n].iter().map(|s| left.remove(*s as usize % left.len())).collect()
}

fn build_chain(c: &Chain, obs: &mut Obs, decl: bool) -> Job {
    let n = c.width as usize;
    let mut em = Em::new();
    em.temps = false;
    let mut items = std::string::String::new();
    obs.nontrivial = true;
    obs.class_if(c.links.len() > 2, "chains of three or more");
    obs.class_if(c.levels > 2, "recursion three or more deep");
    for (i, (seed, place, end)) in c.links.iter().enumerate() {
        let p = perm(seed, n);
        let mut params: Vec<_> = (0..n).map(|k| format!("p{k}: impl Render")).collect();
        params.insert(seed[0] as usize % (n + 1), "#[rest] kids: impl Render".into());
        // argument k of the next is parameter p[k] of this one
        let mut args: Vec<_> = (0..n).map(|k| format!("p{k} = p{}", p[k])).collect();
        args.rotate_left(seed[1] as usize % n);
        args.insert(seed[2] as usize % (n + 1), "kids".into());
        let body = if i + 1 < c.links.len() {
            format!("section!(link{}!({}), {i})", i + 1, args.join(", "))
        } else {
            let l: Vec<_> = (0..n).map(|k| format!("p{}", p[k])).collect();
            format!("p!({}, \"/\", kids)", l.join(", "))
        };
        let d = format!("#[laby]\npub fn link{i}({}) -> impl Render {{ {body} }}\n", params.join(", "));
        let d = match place {
            0 | 1 => d,
            2 => format!("mod m{i} {{ use super::*; {d} }}\nuse m{i}::link{i};\n"),
            _ => format!("mod m{i} {{ use super::*; {d} }}\npub use self::m{i}::*;\n"),
        };
        if *end {
            items.push_str(&d);
        } else {
            items.insert_str(0, &d);
        }
    }
    items.push_str(
        "#[laby]\nfn rec(n: i64, a: &str, #[default(\"-\")] b: &str, #[rest] _kids: impl Render) -> ::std::string::String {
    if n <= 0 { render!(b!(a), b, _kids) } else { render!(raw!(rec!(b = a, render!(_kids), n = n - 1, a = b)), n) }
}\n",
    );
    let mut args = vec![];
    for k in 0..n {
        let e = em.ex(&c.args[k]);
        args.push(format!("p{k} = {e}"));
    }
    for e in &c.rest {
        let e = em.ex(e);
        args.push(e);
    }
    let len = args.len();
    args.rotate_left(c.levels as usize % len);
    // unnamed arguments keep their order when turned
    let turned = c.levels as usize % (n + c.rest.len());
    let mut order: Vec<usize> = (0..n + c.rest.len()).collect();
    order.rotate_left(turned);
    let order: Vec<usize> = order.into_iter().filter(|k| *k >= n).map(|k| k - n).collect();
    let body = format!(
        "{}\nout.push(render!(link0!({})));\nout.push(rec!(a = &v.s[0], n = {}, v.s[1].as_str(){}));",
        em.take_stmts(),
        args.join(", "),
        c.levels,
        if c.levels % 2 == 0 { ", b = &v.s[2]" } else { "" }
    );
    items.push_str(&em.items);
    let exps = c
        .vals
        .iter()
        .map(|v| {
            let mut env = Env::new(v);
            env.temps = false;
            let mut ts: Vec<std::string::String> = c.args[..n].iter().map(|a| env.text(a).unwrap()).collect();
            for (seed, _, _) in &c.links {
                let p = perm(seed, n);
                ts = p.iter().map(|k| ts[*k].clone()).collect();
            }
            let rests: Vec<std::string::String> = c.rest.iter().map(|a| env.text(a).unwrap()).collect();
            let kids: std::string::String = order.iter().map(|k| rests[*k].clone()).collect();
            let mut t = format!("<p>{}/{kids}</p>", ts.concat());
            for i in (0..c.links.len() - 1).rev() {
                t = format!("<section>{t}{i}</section>");
            }
            let (mut a, mut b) = (v.s[0].clone(), if c.levels % 2 == 0 { v.s[2].clone() } else { "-".into() });
            let mut k = esc(&v.s[1]);
            let mut tail = std::string::String::new();
            for l in (1..=c.levels).rev() {
                std::mem::swap(&mut a, &mut b);
                k = esc(&k);
                tail = format!("{l}{tail}");
            }
            let r = format!("<b>{}</b>{}{}{tail}", esc(&a), esc(&b), k);
            vec![Exp::Eq(t), Exp::Eq(r)]
        })
        .collect();
    Job { ctx: Ctx { decl, ..CTX }, items, body, exps, vals: c.vals.clone(), uses: USES, alt: None, lib: std::string::String::new() }
}

fn build_chain_named(c: &Chain, obs: &mut Obs) -> Job {
    build_chain(c, obs, false)
}
fn build_chain_decl(c: &Chain, obs: &mut Obs) -> Job {
    let mut j = build_chain(c, obs, true);
    j.alt = Some(Box::new(build_chain(c, &mut Obs::default(), false)));
    j
}

// ---- constant functions ----

#[derive(Clone, Debug)]
pub struct Konst {
    params: Vec<(u8, Option<u8>)>,
    args: Vec<(u8, u8)>,
    style: u8,
}

fn konst() -> BoxedStrategy<Konst> {
    (prop::collection::vec((0u8..3, prop::option::of(0u8..9)), 1..5), prop::collection::vec((any::<u8>(), 0u8..9), 0..6), any::<u8>())
        .prop_map(|(params, args, style)| Konst { params, args, style })
        .boxed()
}

fn build_konst(c: &Konst, obs: &mut Obs, decl: bool) -> Job {
    obs.nontrivial = true;
    let n = c.params.len();
    let mut ps = vec![];
    let mut body = std::string::String::from("0");
    let mut want: Vec<Option<u8>> = c.params.iter().map(|p| p.1).collect();
    for (i, (t, d)) in c.params.iter().enumerate() {
        let ty = ["u64", "u8", "&str"][*t as usize];
        let val = |x: u8| if *t == 2 { format!("\"{}\"", "x".repeat(x as usize)) } else { x.to_string() };
        let def = d.map(|x| format!("#[default({})] ", val(x))).unwrap_or_default();
        ps.push(format!("{def}a{i}: {ty}"));
        body = if *t == 2 { format!("({body}) * 10 + a{i}.len() as u64") } else { format!("({body}) * 10 + a{i} as u64") };
    }
    let mut args = vec![];
    let mut push = |i: usize, x: u8, want: &mut Vec<Option<u8>>| {
        args.push(format!("a{i} = {}", if c.params[i].0 == 2 { format!("\"{}\"", "x".repeat(x as usize)) } else { x.to_string() }));
        want[i] = Some(x);
    };
    for (to, x) in &c.args {
        push(*to as usize % n, *x, &mut want);
    }
    for i in 0..n {
        if want[i].is_none() {
            push(i, i as u8, &mut want);
        }
    }
    let value: u64 = want.iter().fold(0, |a, x| a * 10 + x.unwrap() as u64);
    let call = delimit("digits", &args.join(", "), c.style);
    let unsafe_ = c.style % 2 == 0;
    let call = if unsafe_ { format!("unsafe {{ {call} }}") } else { call };
    let items = format!("#[laby]\npub(crate) const {}fn digits({}) -> u64 {{ {body} }}\npub const K: u64 = {call};\nstatic S: [u8; {call} as usize % 50] = [0; {call} as usize % 50];\n", if unsafe_ { "unsafe " } else { "" }, ps.join(", "));
    let v = value.to_string();
    Job {
        ctx: Ctx { decl, ..CTX },
        items,
        body: format!("const L: u64 = K + {call};\nout.push(K.to_string()); out.push((L / 2).to_string()); out.push(S.len().to_string()); out.push(render!(p!({call})));"),
        exps: vec![vec![Exp::Eq(v.clone()), Exp::Eq(v.clone()), Exp::Eq((value % 50).to_string()), Exp::Eq(format!("<p>{v}</p>"))]],
        vals: vec![Vals::default()],
        uses: USES,
        alt: None,
        lib: std::string::String::new(),
    }
}
fn build_konst_named(c: &Konst, obs: &mut Obs) -> Job {
    build_konst(c, obs, false)
}
fn build_konst_decl(c: &Konst, obs: &mut Obs) -> Job {
    let mut j = build_konst(c, obs, true);
    j.alt = Some(Box::new(build_konst(c, &mut Obs::default(), false)));
    j
}

/// A public component in another crate.
fn build_crates(c: &CompCase, obs: &mut Obs) -> Job {
    let mut c = c.clone();
    // calls that do not look at the log, which is the other crate's
    for call in &mut c.calls {
        call.ctx = 2 + call.ctx % 10;
    }
    c.loc = if c.loc % 2 == 0 { 0 } else { 2 };
    // public
    c.vis = if c.loc == 0 { 1 } else { 0 };
    let path = if c.loc == 0 { "parts::c@ID@" } else { "parts::c@ID@::m" };
    let s = sig(&c);
    let name = COMPS[c.name as usize % COMPS.len()];
    let way = c.attrs / 2 % 3;
    obs.class(["by path from another crate", "by name from another crate", "by glob from another crate"][way as usize]);
    let d = declare(&c, &s, name);
    let mut j = {
        // the calls, as written for a component beside
        let mut near = c.clone();
        near.loc = 0;
        let mut j = build(&near, obs, true, false);
        let cut = j.items.find("#[laby] fn holder").unwrap();
        j.items = j.items[cut..].to_string();
        j
    };
    j.lib = if c.loc == 0 { d } else { format!("pub mod m {{ use super::*; {d} }}") };
    match way {
        0 => {
            // written by the same generator, with another name
            let mut em = Em::new();
            em.temps = false;
            let (mut n, mut p) = (String_::from(path), String_::from(path));
            n.push_str(&format!("::{name}"));
            p.push_str(&format!("::{name}"));
            j.body = body(&c, &s, &n, &p, &mut em, &mut Obs::default()).0;
            j.items = j.items[..j.items.find('\n').unwrap() + 1].to_string() + &em.items;
        }
        1 => j.items.push_str(&format!("use {path}::{name};\n")),
        _ => j.items.push_str(&format!("use {path}::*;\n")),
    }
    j.ctx.lib = true;
    j.alt = Some(Box::new(build(&c, &mut Obs::default(), false, false)));
    j
}

pub fn c16(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("signatures", env.n(1600, 25000), 25, |_| case(), build_named),
        prog("chains", env.n(300, 4000), 25, |_| chain(), build_chain_named),
        prog("constants", env.n(200, 2000), 40, |_| konst(), build_konst_named),
    ]
}

pub fn c23(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![
        prog("signatures", env.n(1000, 15000), 25, |_| case(), build_decl),
        prog("paths", env.n(700, 10000), 25, |_| case(), build_path),
        prog("crates", env.n(500, 8000), 25, |_| case(), build_crates),
        prog("chains", env.n(300, 4000), 25, |_| chain(), build_chain_decl),
        prog("constants", env.n(200, 2000), 40, |_| konst(), build_konst_decl),
    ]
}
