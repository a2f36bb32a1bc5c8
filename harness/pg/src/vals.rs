//! Run-time values a generated program works on.
use proptest::prelude::*;
use proptest::sample::select;
use serde_json::{json, Value as Json};
use vcore::text;

#[derive(Clone, Debug, PartialEq)]
pub struct Vals {
    /// text
    pub s: Vec<String>,
    /// attribute names
    pub n: Vec<String>,
    pub i: Vec<i64>,
    pub b: Vec<bool>,
    pub c: Vec<char>,
    pub o: Vec<Option<String>>,
    pub l: Vec<Vec<String>>,
    pub f: Vec<f64>,
    pub g: Vec<f32>,
}

pub const NS: u8 = 6;
pub const NN: u8 = 4;
pub const NI: u8 = 4;
pub const NB: u8 = 6;
pub const NC: u8 = 3;
pub const NO: u8 = 4;
pub const NL: u8 = 3;
pub const NF: u8 = 2;

impl Default for Vals {
    fn default() -> Self {
        Vals {
            s: (0..NS).map(|i| format!("s{i}")).collect(),
            n: (0..NN).map(|i| format!("name{i}")).collect(),
            i: (0..NI as i64).collect(),
            b: (0..NB).map(|i| i % 2 == 0).collect(),
            c: vec!['c'; NC as usize],
            o: (0..NO).map(|i| (i % 2 == 0).then(|| format!("o{i}"))).collect(),
            l: (0..NL).map(|i| (0..i).map(|j| format!("l{i}{j}")).collect()).collect(),
            f: vec![0.5; NF as usize],
            g: vec![0.25; NF as usize],
        }
    }
}

impl Vals {
    pub fn to_json(&self) -> Json {
        json!({"s": self.s, "n": self.n, "i": self.i, "b": self.b, "c": self.c.iter().map(|c| *c as u32).collect::<Vec<_>>(),
            "o": self.o, "l": self.l, "f": self.f.iter().map(|x| x.to_bits()).collect::<Vec<_>>(),
            "g": self.g.iter().map(|x| x.to_bits()).collect::<Vec<_>>()})
    }
    pub fn from_json(j: &Json) -> Vals {
        let arr = |k: &str| j[k].as_array().unwrap().clone();
        let st = |x: &Json| x.as_str().unwrap().to_string();
        Vals {
            s: arr("s").iter().map(st).collect(),
            n: arr("n").iter().map(st).collect(),
            i: arr("i").iter().map(|x| x.as_i64().unwrap()).collect(),
            b: arr("b").iter().map(|x| x.as_bool().unwrap()).collect(),
            c: arr("c").iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect(),
            o: arr("o").iter().map(|x| x.as_str().map(|s| s.to_string())).collect(),
            l: arr("l").iter().map(|x| x.as_array().unwrap().iter().map(st).collect()).collect(),
            f: arr("f").iter().map(|x| f64::from_bits(x.as_u64().unwrap())).collect(),
            g: arr("g").iter().map(|x| f32::from_bits(x.as_u64().unwrap() as u32)).collect(),
        }
    }
    pub fn encode(&self, o: &mut Vec<u8>) {
        fn num(o: &mut Vec<u8>, n: usize) {
            o.extend_from_slice(&(n as u32).to_le_bytes())
        }
        fn st(o: &mut Vec<u8>, s: &str) {
            num(o, s.len());
            o.extend_from_slice(s.as_bytes());
        }
        num(o, self.s.len());
        self.s.iter().for_each(|s| st(o, s));
        num(o, self.n.len());
        self.n.iter().for_each(|s| st(o, s));
        num(o, self.i.len());
        self.i.iter().for_each(|x| o.extend_from_slice(&x.to_le_bytes()));
        num(o, self.b.len());
        self.b.iter().for_each(|x| num(o, *x as usize));
        num(o, self.c.len());
        self.c.iter().for_each(|x| num(o, *x as usize));
        num(o, self.o.len());
        for x in &self.o {
            num(o, x.is_some() as usize);
            if let Some(x) = x {
                st(o, x)
            }
        }
        num(o, self.l.len());
        for x in &self.l {
            num(o, x.len());
            x.iter().for_each(|s| st(o, s));
        }
        num(o, self.f.len());
        self.f.iter().for_each(|x| o.extend_from_slice(&x.to_bits().to_le_bytes()));
        num(o, self.g.len());
        self.g.iter().for_each(|x| o.extend_from_slice(&(x.to_bits() as u64).to_le_bytes()));
    }
}

/// How the texts look.
#[derive(Clone, Copy, PartialEq)]
pub enum Texts {
    Mixed,
    Hostile,
}

fn name() -> BoxedStrategy<String> {
    select(vec![
        "data-x", "aria-label", "id", "class", "xlink:href", "x", "data-very-long-attribute-name-1", "@click", "v-on:x.y", "ä",
    ])
    .prop_map(String::from)
    .boxed()
}

pub fn vals(t: Texts) -> BoxedStrategy<Vals> {
    let txt = match t {
        Texts::Mixed => prop_oneof![
            9 => text::text(70),
            6 => text::hostile(),
            1 => text::long_few(9000),
            3 => Just(String::new()),
            6 => select(vec!["a", "<b>", "x & y", "\"q\"", "it's"]).prop_map(String::from),
        ]
        .boxed(),
        Texts::Hostile => prop_oneof![
            12 => text::hostile(),
            6 => prop::collection::vec(text::ch(), 0..80).prop_map(|v| v.into_iter().collect::<String>()),
            1 => text::long_few(9000),
            3 => Just(String::new()),
        ]
        .boxed(),
    };
    let int = prop_oneof![
        4 => -3i64..10,
        1 => any::<i64>(),
        1 => select(vec![i64::MIN, i64::MAX, 0, 99, 100, 255, 256, -128, 65535]),
    ];
    (
        (
            prop::collection::vec(txt.clone(), NS as usize),
            prop::collection::vec(name(), NN as usize),
            prop::collection::vec(int, NI as usize),
            prop::collection::vec(any::<bool>(), NB as usize),
            prop::collection::vec(text::ch(), NC as usize),
        ),
        (
            prop::collection::vec(prop::option::of(txt.clone()), NO as usize),
            prop::collection::vec(prop::collection::vec(txt, 0..4), NL as usize),
            prop::collection::vec(float(), NF as usize),
            prop::collection::vec(float().prop_map(|x| x as f32), NF as usize),
        ),
    )
        .prop_map(|((s, n, i, b, c), (o, l, f, g))| Vals { s, n, i, b, c, o, l, f, g })
        .boxed()
}

fn float() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => select(vec![0.0, -0.0, 1.0, 0.1, 1.5, 1e16, 1e-7, 1e300, 123456.789]),
        1 => any::<u64>().prop_map(f64::from_bits).prop_filter("finite", |x| x.is_finite()),
        2 => (-1000i32..1000, 1..1000i32).prop_map(|(a, b)| a as f64 / b as f64),
    ]
    .boxed()
}
