//! Values of all built-in renderable types: the specification of their rendering, and generators.
use crate::ints;
pub use crate::valcore::*;
use proptest::prelude::*;
#[allow(unused_imports)]
use std::num::*;
use vcore::text::*;
use vcore::*;
use Val::*;

impl Val {
    pub fn to_json(&self) -> Json {
        let l = |v: &Vec<Val>| Json::Array(v.iter().map(|x| x.to_json()).collect());
        match self {
            Unit => json!(["unit"]),
            Bool(b) => json!(["bool", b]),
            Char(c) => json!(["char", c.to_string()]),
            Str(s) => json!(["str", s]),
            Owned(s, n) => json!(["string", s, n]),
            Int(k, v) => json!(["int", k, v.to_string()]),
            F32(b) => json!(["f32", b]),
            F64(b) => json!(["f64", b.to_string()]),
            None => json!(["none"]),
            Some(v) => json!(["some", v.to_json()]),
            CowB(s) => json!(["cow-borrowed", s]),
            CowO(s) => json!(["cow-owned", s]),
            Fmt(p) => json!(["format_args", p]),
            Disp(p) => json!(["disp", p]),
            Raw(s, k) => json!(["raw", s, k]),
            Iter(v) => json!(["iter", l(v)]),
            IterDel(d, v) => json!(["iter-del", d, l(v)]),
            IterLines(v) => json!(["iter-lines", l(v)]),
            Doc => json!(["doctype"]),
            Tpl(k, v) => json!(["template", k, l(v)]),
            Nested(k, v) => json!(["nested", k, v.to_json()]),
        }
    }
    pub fn from_json(v: &Json) -> Val {
        let s = |i: usize| v[i].as_str().unwrap().to_string();
        let n = |i: usize| v[i].as_u64().unwrap();
        let l = |i: usize| v[i].as_array().unwrap().iter().map(Val::from_json).collect::<Vec<_>>();
        let p = |i: usize| {
            v[i].as_array()
                .unwrap()
                .iter()
                .map(|x| (x[0].as_u64().unwrap() as u8, x[1].as_str().unwrap().to_string()))
                .collect::<Vec<_>>()
        };
        match v[0].as_str().unwrap() {
            "unit" => Unit,
            "bool" => Bool(v[1].as_bool().unwrap()),
            "char" => Char(s(1).chars().next().unwrap()),
            "str" => Str(s(1)),
            "string" => Owned(s(1), n(2) as u8),
            "int" => Int(n(1) as u8, s(2).parse().unwrap()),
            "f32" => F32(n(1) as u32),
            "f64" => F64(s(1).parse().unwrap()),
            "none" => None,
            "some" => Some(Box::new(Val::from_json(&v[1]))),
            "cow-borrowed" => CowB(s(1)),
            "cow-owned" => CowO(s(1)),
            "format_args" => Fmt(p(1)),
            "disp" => Disp(p(1)),
            "raw" => Raw(s(1), n(2) as u8),
            "iter" => Iter(l(1)),
            "iter-del" => IterDel(s(1), l(2)),
            "iter-lines" => IterLines(l(1)),
            "doctype" => Doc,
            "template" => Tpl(n(1) as u8, l(2)),
            "nested" => Nested(n(1) as u8, Box::new(Val::from_json(&v[2]))),
            x => panic!("value {x}"),
        }
    }
}

fn float32(x: f32) -> String {
    if x.is_finite() {
        ryu::Buffer::new().format_finite(x).to_string()
    } else {
        nonfinite(x.is_nan(), x > 0.0)
    }
}
fn float64(x: f64) -> String {
    if x.is_finite() {
        ryu::Buffer::new().format_finite(x).to_string()
    } else {
        nonfinite(x.is_nan(), x > 0.0)
    }
}
fn nonfinite(nan: bool, pos: bool) -> String {
    if nan {
        "NaN".into()
    } else if pos {
        "inf".into()
    } else {
        "-inf".into()
    }
}

/// The specification: what the value renders to.
pub fn spec(v: &Val) -> String {
    let list = |v: &[Val], d: &str| v.iter().map(spec).collect::<Vec<_>>().join(d);
    match v {
        Unit | None => String::new(),
        Bool(x) => x.to_string(),
        Char(c) => esc(&c.to_string()),
        Str(s) | Owned(s, _) | CowB(s) | CowO(s) => esc(s),
        Int(k, v) => {
            macro_rules! go {
                ($e:expr) => {
                    format!("{}", $e)
                };
            }
            ints!(*k, *v, go)
        }
        F32(x) => float32(f32::from_bits(*x)),
        F64(x) => float64(f64::from_bits(*x)),
        Some(v) => spec(v),
        Fmt(p) => esc(&match p.len() % 4 {
            0 => format!("{}", Pieces(p)),
            1 => format!("<{}>&", Pieces(p)),
            2 => format!("{}'{}\"", Pieces(&p[..1]), Pieces(&p[1..])),
            _ => "a < b & \"c\"".to_string(),
        }),
        Disp(p) => esc(&Pieces(p).to_string()),
        Raw(s, _) => s.clone(),
        Iter(v) => list(v, ""),
        IterDel(d, v) => list(v, d),
        IterLines(v) => list(v, "\n"),
        Doc => "<!DOCTYPE html>".into(),
        Nested(k, v) => {
            let v = spec(v);
            match k % NESTS {
                0 => esc(&format!("<{v}>")),
                1 => esc(&format!("a<{v}>b<>")),
                2 => v,
                3 => format!("{v}{v}"),
                4 => format!("{}, , {}", esc(&format!("{v}&lt;0")), esc(&format!("{v}&lt;2"))),
                5 => format!("<li class=\"{}\">{v}</li>", esc(&format!("<{v}>"))),
                _ => format!("<i>{v}<p>{v}</p>{v}</i>"),
            }
        }
        Tpl(k, v) => {
            let g = |i: usize| v.get(i).map(spec).unwrap_or_default();
            match k % SHAPES {
                0 => format!("<div class=\"{}\">{}mid &lt; &amp; text<p>{}<img src=\"{}\"></p></div>", g(1), g(0), g(2), g(3)),
                1 => format!("{}<br>{}<b>x</b>", g(0), g(1)),
                2 => format!("<input type=\"checkbox\"{} value=\"{}\" disabled>", if v.len() > 1 { " checked" } else { "" }, g(0)),
                3 => format!("<ul class=\"a {}  {}\">{}</ul>", g(0), g(1), v.iter().map(|x| format!("<li>{}</li>", spec(x))).collect::<String>()),
                4 => match v.len() {
                    0 => "<p>none</p>".into(),
                    1 => format!("<span>{}</span>", g(0)),
                    _ => format!("{}{}", g(0), g(1)),
                },
                5 => format!("<article class=\"card true 7\"><h2>{}</h2>{}<em>{}</em></article>", g(0), g(1), g(2)),
                6 => format!("<table{}><tr><td>{}</td><td>{}</td></tr><tr><td>1ctrue2.5&lt;</td></tr></table>", if v.is_empty() { " hidden" } else { "" }, g(0), g(1)),
                _ => format!("<html><head><title>{}</title></head><body><pre>{}</pre><hr><a href=\"{}\">{}</a></body></html>", g(0), g(1), g(2), g(3)),
            }
        }
    }
}

/// Number of bytes the rendering may need to reserve beyond what it writes.
pub fn int_value() -> BoxedStrategy<u128> {
    let pow10 = (0u32..39, -2i32..3, any::<bool>()).prop_map(|(e, d, n)| {
        let v = 10u128.pow(e).wrapping_add(d as i128 as u128);
        if n {
            (v as i128).wrapping_neg() as u128
        } else {
            v
        }
    });
    let pow2 = (0u32..128, -2i32..3, any::<bool>()).prop_map(|(e, d, n)| {
        let v = (1u128 << e).wrapping_add(d as i128 as u128);
        if n {
            (v as i128).wrapping_neg() as u128
        } else {
            v
        }
    });
    let digits = (any::<u128>(), 0u32..128).prop_map(|(v, s)| v >> s);
    let small = any::<i16>().prop_map(|x| x as i128 as u128);
    let multiple = (any::<u64>(), 0u32..20).prop_map(|(v, e)| (v as u128 % 10u128.pow(19)).wrapping_mul(10u128.pow(e)));
    prop_oneof![3 => pow10, 3 => pow2, 3 => digits, 1 => any::<u128>(), 2 => small, 2 => multiple].boxed()
}

pub fn f32_bits() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<u32>(),
        2 => (-1_000_000i32..1_000_000, 0i32..8).prop_map(|(m, e)| (m as f32 / 10f32.powi(e)).to_bits()),
        2 => (any::<i16>(), -50i32..45).prop_map(|(m, e)| format!("{m}e{e}").parse::<f32>().unwrap().to_bits()),
        2 => (0u32..256, prop_oneof![Just(0u32), Just(1), Just(0x7fffff), 0u32..0x800000], any::<bool>())
            .prop_map(|(e, m, s)| (s as u32) << 31 | e << 23 | m),
        1 => prop::sample::select(vec![0f32, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 16777216.0, 16777217.0, 1e16, 1e15, 1e13, 1e12, 1e-5, 1e-6]).prop_map(f32::to_bits),
        1 => any::<i32>().prop_map(|i| (i as f32).to_bits()),
        2 => (-1100i32..1100, prop::sample::select(vec![1f32, 1.0, 2.0, 10.0, 0.001, 1e6])).prop_map(|(i, d)| (i as f32 / d).to_bits()),
    ]
    .boxed()
}
pub fn f64_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        2 => (-1_000_000_000i64..1_000_000_000, 0i32..12).prop_map(|(m, e)| (m as f64 / 10f64.powi(e)).to_bits()),
        2 => (any::<i32>(), -345i32..310).prop_map(|(m, e)| format!("{m}e{e}").parse::<f64>().unwrap().to_bits()),
        2 => (0u64..2048, prop_oneof![Just(0u64), Just(1), Just(0xfffffffffffff), 0u64..0x10000000000000], any::<bool>())
            .prop_map(|(e, m, s)| (s as u64) << 63 | e << 52 | m),
        1 => prop::sample::select(vec![0f64, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740992.0, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e-5, 1e-6, 1e-7]).prop_map(f64::to_bits),
        1 => any::<f32>().prop_map(|x| (x as f64).to_bits()),
        1 => any::<i64>().prop_map(|i| (i as f64).to_bits()),
        2 => (-1100i32..1100, prop::sample::select(vec![1f64, 1.0, 2.0, 10.0, 0.001, 1e6])).prop_map(|(i, d)| (i as f64 / d).to_bits()),
    ]
    .boxed()
}

pub fn pieces(max: usize) -> BoxedStrategy<Vec<(u8, String)>> {
    prop::collection::vec((0u8..5, any_text(max)), 0..6).boxed()
}

pub fn leaf(max: usize) -> BoxedStrategy<Val> {
    prop_oneof![
        1 => Just(Unit),
        1 => any::<bool>().prop_map(Bool),
        2 => ch().prop_map(Char),
        4 => any_text(max).prop_map(Str),
        2 => (any_text(max), prop_oneof![3 => 0u8..40, 1 => 200u8..=255]).prop_map(|(s, n)| Owned(s, n)),
        3 => (0u8..INT_KINDS, int_value()).prop_map(|(k, v)| Int(k, v)),
        1 => f32_bits().prop_map(F32),
        1 => f64_bits().prop_map(F64),
        1 => Just(None),
        1 => any_text(max).prop_map(CowB),
        1 => any_text(max).prop_map(CowO),
        2 => pieces(60).prop_map(Fmt),
        1 => pieces(60).prop_map(Disp),
        2 => (any_text(max), 0u8..5).prop_map(|(s, k)| Raw(s, k)),
        1 => Just(Doc),
    ]
    .boxed()
}

pub fn val(max: usize) -> BoxedStrategy<Val> {
    leaf(max)
        .prop_recursive(3, 24, 5, |inner| {
            prop_oneof![
                1 => inner.clone().prop_map(|v| Some(Box::new(v))),
                2 => prop::collection::vec(inner.clone(), 0..5).prop_map(Iter),
                2 => (any_text(20), prop::collection::vec(inner.clone(), 0..5)).prop_map(|(d, v)| IterDel(d, v)),
                1 => prop::collection::vec(inner.clone(), 0..5).prop_map(IterLines),
                4 => (0u8..SHAPES, prop::collection::vec(inner.clone(), 0..5)).prop_map(|(k, v)| Tpl(k, v)),
                2 => (0u8..NESTS, inner).prop_map(|(k, v)| Nested(k, Box::new(v))),
            ]
        })
        .boxed()
}
