//! C06 (integers), C07 (floats), C08 (text wrappers), C03 (memory), C20 and C21 for values.
use crate::escape::{buffer_with, esc_tight, memory_verdict, preempted, spare, check_esc_guarded, Esc};
use crate::galloc;
use crate::place::{self, Place};
use crate::val::*;
use laby::internal::Buffer;
use laby::{render, Render};
use proptest::prelude::*;
use std::sync::Mutex;
use vcore::text::*;
use vcore::*;

/// Rendering one value into a buffer that holds something and has some room.
#[derive(Clone, Debug, Hash)]
pub struct One {
    pub val: Val,
    pub prefix: String,
    pub spare: usize,
}
impl Case for One {
    fn to_json(&self) -> Json {
        json!({"value": self.val.to_json(), "prefix": self.prefix, "spare": self.spare})
    }
    fn from_json(v: &Json) -> Self {
        One {
            val: Val::from_json(&v["value"]),
            prefix: v["prefix"].as_str().unwrap().into(),
            spare: v["spare"].as_u64().unwrap() as usize,
        }
    }
}

fn run_one(c: &One) -> CheckResult {
    let want = spec(&c.val);
    let mut b = buffer_with(&c.prefix, c.spare);
    R(&c.val).render(&mut b);
    if b.len() > b.capacity() {
        return Err(format!("length {} beyond capacity {}", b.len(), b.capacity()));
    }
    if std::str::from_utf8(b.as_str().as_bytes()).is_err() {
        return Err("buffer does not hold valid UTF-8".into());
    }
    same("rendering", b.as_str().as_bytes(), format!("{}{}", c.prefix, want).as_bytes())?;
    same("rendering to a string", render!(R(&c.val)).as_bytes(), want.as_bytes())
}
fn one(v: BoxedStrategy<Val>) -> BoxedStrategy<One> {
    (v, text(20), spare()).prop_map(|(val, prefix, spare)| One { val, prefix, spare }).boxed()
}
/// Room in the buffer close to what the value needs.
fn one_tight(v: BoxedStrategy<Val>) -> BoxedStrategy<One> {
    (v, text(20), -45i64..=4)
        .prop_map(|(val, prefix, d)| {
            let need = spec(&val).len() as i64;
            One { val, prefix, spare: (need + d).max(0) as usize }
        })
        .boxed()
}

fn check_plain(c: &One, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    kind(&c.val, o);
    run_one(c)
}
fn kind(v: &Val, o: &mut Obs) {
    o.class(match v {
        Val::Int(12..=23, _) => "non-zero integer",
        Val::Int(6..=11, _) => "signed integer",
        Val::Int(..) => "unsigned integer",
        Val::F32(_) => "f32",
        Val::F64(_) => "f64",
        Val::Fmt(_) => "formatted arguments",
        Val::Disp(_) => "displayable",
        Val::Raw(..) => "raw",
        Val::Some(_) => "present option",
        Val::None => "absent option",
        Val::CowB(_) | Val::CowO(_) => "borrowed-or-owned",
        Val::Iter(_) | Val::IterDel(..) | Val::IterLines(_) => "iterator",
        Val::Tpl(..) => "template",
        Val::Nested(..) => "rendering within rendering",
        Val::Unit | Val::Bool(_) => "unit or boolean",
        _ => "text",
    });
}
fn check_guarded(c: &One, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    kind(&c.val, o);
    let before = galloc::live();
    let r = galloc::guarded(|| run_one(c));
    memory_verdict(before, r)
}

// ---- C06 ---------------------------------------------------------------------------------------

/// All values of an 8- or 16-bit type.
#[derive(Clone, Debug, Hash)]
struct Range(u8, u32);
impl Case for Range {
    fn to_json(&self) -> Json {
        json!([self.0, self.1])
    }
    fn from_json(v: &Json) -> Self {
        Range(v[0].as_u64().unwrap() as u8, v[1].as_u64().unwrap() as u32)
    }
}
const SMALL_KINDS: [u8; 8] = [0, 1, 6, 7, 12, 13, 18, 19];
fn check_range(c: &Range, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    let mut b = Buffer::new();
    for v in c.1 * 1024..(c.1 + 1) * 1024 {
        let v = Val::Int(c.0, v as u128);
        b.clear();
        R(&v).render(&mut b);
        same("integer", b.as_str().as_bytes(), spec(&v).as_bytes())?;
        o.count("values", 1);
    }
    Ok(())
}

pub fn c06(env: &Env) -> Vec<Box<dyn DynStream>> {
    let int = || (0u8..INT_KINDS, int_value()).prop_map(|(k, v)| Val::Int(k, v)).boxed();
    let small = || prop_oneof![Just(Val::Unit), any::<bool>().prop_map(Val::Bool)].boxed();
    vec![
        stream("integers of every type", env.n(600_000, 40_000_000), one(int()), check_plain),
        stream("integers into tight buffers, guarded memory", env.n(30_000, 1_000_000), one_tight(int()), check_guarded),
        stream_indexed(
            "every value of the 8- and 16-bit types",
            8 * 64,
            |i| Just(Range(SMALL_KINDS[(i / 64) as usize], (i % 64) as u32)),
            check_range,
        ),
        stream("booleans and unit", 2000, one(small()), check_plain),
    ]
}

// ---- C07 ---------------------------------------------------------------------------------------

fn digits(s: &str) -> usize {
    let m = s.split(['e', 'E']).next().unwrap();
    let d: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
    d.trim_start_matches('0').trim_end_matches('0').len().max(1)
}

macro_rules! float_spec {
    ($name:ident, $t:ty) => {
        /// The specification, apart from the exact layout.
        fn $name(x: $t, s: &str) -> CheckResult {
            if x.is_nan() || x.is_infinite() {
                let w = if x.is_nan() { "NaN" } else if x > 0.0 { "inf" } else { "-inf" };
                return same("non-finite float", s.as_bytes(), w.as_bytes());
            }
            let back: $t = s.parse().map_err(|_| format!("{s:?} does not parse as a float"))?;
            if back.to_bits() != x.to_bits() {
                return Err(format!("{x:?} renders as {s:?}, which reads back as {back:?}"));
            }
            if !s.contains('.') && !s.contains('e') {
                return Err(format!("{x:?} renders as {s:?}, without decimal point or exponent"));
            }
            let best = digits(&format!("{x:e}"));
            if digits(s) > best {
                return Err(format!("{x:?} renders as {s:?}; {best} digits are enough"));
            }
            let layout = ryu::Buffer::new().format_finite(x).to_string();
            same("layout of the float", s.as_bytes(), layout.as_bytes())
        }
    };
}
float_spec!(spec32, f32);
float_spec!(spec64, f64);

fn check_float(c: &One, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    kind(&c.val, o);
    let mut b = buffer_with(&c.prefix, c.spare);
    R(&c.val).render(&mut b);
    let s = &b.as_str()[c.prefix.len()..];
    o.class_if(s.contains('e'), "with exponent");
    o.class_if(s.starts_with('-'), "negative");
    match c.val {
        Val::F32(x) => {
            o.class_if(!f32::from_bits(x).is_finite(), "not finite");
            o.class_if(f32::from_bits(x).is_subnormal(), "subnormal");
            spec32(f32::from_bits(x), s)?
        }
        Val::F64(x) => {
            o.class_if(!f64::from_bits(x).is_finite(), "not finite");
            o.class_if(f64::from_bits(x).is_subnormal(), "subnormal");
            spec64(f64::from_bits(x), s)?
        }
        _ => unreachable!(),
    }
    run_one(c)
}
/// 65536 consecutive 32-bit patterns.
fn check_f32_block(c: &Range, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    let mut b = Buffer::new();
    for low in 0..65536u32 {
        let x = f32::from_bits(c.1 << 16 | low);
        b.clear();
        x.render(&mut b);
        spec32(x, b.as_str())?;
        o.count("values", 1);
    }
    Ok(())
}

pub fn c07(env: &Env) -> Vec<Box<dyn DynStream>> {
    let f32s = || f32_bits().prop_map(Val::F32).boxed();
    let f64s = || f64_bits().prop_map(Val::F64).boxed();
    let both = || prop_oneof![f32s(), f64s()].boxed();
    let mut v = vec![
        stream("32-bit floats", env.n(200_000, 4_000_000), one(f32s()), check_float),
        stream("64-bit floats", env.n(300_000, 40_000_000), one(f64s()), check_float),
        stream("floats into tight buffers, guarded memory", env.n(20_000, 1_000_000), one_tight(both()), check_guarded),
    ];
    if env.thorough() {
        v.push(stream_indexed("every 32-bit float", 65536, |i| Just(Range(0, i as u32)), check_f32_block));
    }
    v
}

// ---- C08 ---------------------------------------------------------------------------------------

pub fn c08(env: &Env) -> Vec<Box<dyn DynStream>> {
    let base = || {
        prop_oneof![
            4 => pieces(200).prop_map(Val::Fmt),
            3 => pieces(200).prop_map(Val::Disp),
            3 => (any_text(2000), 0u8..3).prop_map(|(s, k)| Val::Raw(s, k)),
            2 => any_text(500).prop_map(Val::CowB),
            2 => any_text(500).prop_map(Val::CowO),
            1 => Just(Val::None),
            3 => leaf(100),
        ]
    };
    let wrapped = base()
        .prop_recursive(4, 8, 1, |i| i.prop_map(|v| Val::Some(Box::new(v))).boxed())
        .boxed();
    let w2 = base().prop_recursive(3, 6, 1, |i| i.prop_map(|v| Val::Some(Box::new(v))).boxed()).boxed();
    vec![
        stream("wrappers", env.n(150_000, 8_000_000), one(wrapped), check_plain),
        stream("wrappers into tight buffers, guarded memory", env.n(15_000, 500_000), one_tight(w2), check_guarded),
    ]
}

// ---- C03 ---------------------------------------------------------------------------------------

/// Values rendered one after another into one buffer that is then used in some way.
#[derive(Clone, Debug, Hash)]
pub struct Seq {
    vals: Vec<Val>,
    prefix: String,
    spare: usize,
    end: u8,
}
impl Case for Seq {
    fn to_json(&self) -> Json {
        json!({"values": self.vals.iter().map(|v| v.to_json()).collect::<Vec<_>>(),
               "prefix": self.prefix, "spare": self.spare, "end": self.end})
    }
    fn from_json(v: &Json) -> Self {
        Seq {
            vals: v["values"].as_array().unwrap().iter().map(Val::from_json).collect(),
            prefix: v["prefix"].as_str().unwrap().into(),
            spare: v["spare"].as_u64().unwrap() as usize,
            end: v["end"].as_u64().unwrap() as u8,
        }
    }
}
fn seq(max: usize, text_max: usize) -> BoxedStrategy<Seq> {
    (prop::collection::vec(val(text_max), 1..max), text(60), spare(), 0u8..4)
        .prop_map(|(vals, prefix, spare, end)| Seq { vals, prefix, spare, end })
        .boxed()
}
fn run_seq(c: &Seq) -> CheckResult {
    let mut b = buffer_with(&c.prefix, c.spare);
    let mut want = c.prefix.clone();
    for (i, v) in c.vals.iter().enumerate() {
        R(v).render(&mut b);
        want.push_str(&spec(v));
        if b.len() > b.capacity() {
            return Err(format!("length {} beyond capacity {}", b.len(), b.capacity()));
        }
        if std::str::from_utf8(b.as_str().as_bytes()).is_err() {
            return Err("buffer does not hold valid UTF-8".into());
        }
        same(&format!("buffer after value {i}"), b.as_str().as_bytes(), want.as_bytes())?;
    }
    match c.end {
        0 => drop(b),
        1 => same("string", b.into_string().as_bytes(), want.as_bytes())?,
        2 => {
            let d = b.clone();
            drop(b);
            same("clone", d.as_str().as_bytes(), want.as_bytes())?
        }
        _ => {
            b.clear();
            R(&c.vals[0]).render(&mut b);
            same("after clearing", b.as_str().as_bytes(), spec(&c.vals[0]).as_bytes())?
        }
    }
    Ok(())
}
fn check_seq(c: &Seq, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.vals.len() > 1;
    o.class_if(c.vals.iter().any(|v| matches!(v, Val::Tpl(..))), "has a template");
    o.class_if(c.spare < 64, "little room");
    run_seq(c)
}
fn check_seq_guarded(c: &Seq, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.class_if(c.vals.iter().any(|v| matches!(v, Val::Tpl(..))), "has a template");
    o.class_if(c.spare < 64, "little room");
    let before = galloc::live();
    let r = galloc::guarded(|| run_seq(c));
    memory_verdict(before, r)
}

/// Pairs of strings in inaccessible surroundings, for every length.
fn placed(max: usize) -> BoxedStrategy<Esc> {
    (length(max), prop_oneof![Just(Place::End), Just(Place::Start)], 0usize..40, 0u8..crate::escape::ENTRIES, any::<u8>())
        .prop_map(|(n, place, spare, entry, k)| {
            let pat = [ "a", "<", "a<", "aaaaaaa&", "é", "\"'"][(k % 6) as usize];
            let mut t = String::new();
            while t.len() + pat.len() <= n {
                t.push_str(pat);
            }
            while t.len() < n {
                t.push('z');
            }
            Esc { text: t, place, prefix: String::new(), spare, entry }
        })
        .boxed()
}

pub fn c03(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream("texts next to unmapped memory, tight buffers", env.n(40_000, 2_000_000), esc_tight(3000), check_esc_guarded),
        stream("uniform texts next to unmapped memory", env.n(30_000, 1_000_000), placed(200), check_esc_guarded),
        stream("values into tight buffers", env.n(30_000, 1_000_000), one_tight(leaf(200)), check_guarded),
        stream("sequences of values", env.n(10_000, 500_000), seq(8, 300), check_seq_guarded),
        stream("buffer histories", env.n(10_000, 500_000), crate::buffer::histories(20), crate::buffer::check_history_guarded),
    ]
}

// ---- C21 ---------------------------------------------------------------------------------------

/// Several threads rendering, one of them stopped in the middle.
#[derive(Clone, Debug, Hash)]
struct Conc {
    vals: Vec<Val>,
    at: u16,
    warm: bool,
}
impl Case for Conc {
    fn to_json(&self) -> Json {
        json!({"values": self.vals.iter().map(|v| v.to_json()).collect::<Vec<_>>(), "at": self.at, "warm": self.warm})
    }
    fn from_json(v: &Json) -> Self {
        Conc {
            vals: v["values"].as_array().unwrap().iter().map(Val::from_json).collect(),
            at: v["at"].as_u64().unwrap() as u16,
            warm: v["warm"].as_bool().unwrap(),
        }
    }
}
fn in_fresh(f: impl FnOnce() -> CheckResult) -> CheckResult {
    match in_child(std::time::Duration::from_secs(60), f) {
        ChildResult::Pass => Ok(()),
        ChildResult::Fail(m) => Err(m),
        ChildResult::Timeout => {
            eprintln!("child process timed out");
            unsafe { libc::_exit(3) }
        }
    }
}
fn check_conc(c: &Conc, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.vals.len() >= 2 && c.vals.iter().all(|v| !spec(v).is_empty());
    in_fresh(|| {
        if c.warm {
            let mut b = Buffer::new();
            "a text of more than thirty-two bytes & more".render(&mut b);
        }
        let res: Vec<Mutex<Option<String>>> = c.vals.iter().map(|_| Default::default()).collect();
        let run = |i: usize| {
            let mut b = Buffer::new();
            R(&c.vals[i]).render(&mut b);
            let s = b.into_string();
            *res[i].lock().unwrap() = Some(s);
        };
        let run = &run;
        let others: Vec<Box<dyn Fn() + Send + Sync>> =
            (1..c.vals.len()).map(|i| Box::new(move || run(i)) as _).collect();
        preempted(c.at, || run(0), others);
        for (i, r) in res.iter().enumerate() {
            let got = r.lock().unwrap().clone().unwrap_or_default();
            same(&format!("value {i} rendered concurrently"), got.as_bytes(), spec(&c.vals[i]).as_bytes())?;
        }
        Ok(())
    })
}
/// Eight threads rendering the same sequence over and over.
fn check_threads(c: &Seq, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.vals.len() > 1;
    in_fresh(|| {
        let bar = std::sync::Barrier::new(8);
        let bad = Mutex::new(None);
        std::thread::scope(|s| {
            for w in 0..8 {
                let (bar, bad) = (&bar, &bad);
                s.spawn(move || {
                    let mut mine = c.clone();
                    let k = w % mine.vals.len();
                    mine.vals.rotate_left(k);
                    bar.wait();
                    for _ in 0..20 {
                        if let Err(m) = run_seq(&mine) {
                            *bad.lock().unwrap() = Some(m);
                        }
                    }
                });
            }
        });
        match bad.into_inner().unwrap() {
            Some(m) => Err(m),
            None => Ok(()),
        }
    })
}
/// The same value under several circumstances.
fn check_context(c: &Seq, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.vals.len() > 1;
    // each alone, into buffers of several capacities and contents
    let mut all = String::new();
    for (i, v) in c.vals.iter().enumerate() {
        let mut first: Option<String> = None;
        for cap in [0, 1, 7, 16, 33, c.spare, 16384] {
            for p in ["", c.prefix.as_str(), "<&\"", "x"] {
                let mut b = Buffer::with_capacity(cap);
                b.push_str(p);
                R(v).render(&mut b);
                if !b.as_str().starts_with(p) {
                    return Err(format!("value {i}: earlier contents {p:?} changed: {}", show(b.as_str().as_bytes())));
                }
                let got = b.as_str()[p.len()..].to_string();
                match &first {
                    None => first = Some(got),
                    Some(f) => same(&format!("value {i} with capacity {cap} and contents {p:?}"), got.as_bytes(), f.as_bytes())?,
                }
            }
        }
        all.push_str(&first.unwrap());
    }
    // all into one
    for cap in [0, c.spare, 16384] {
        let mut b = Buffer::with_capacity(cap);
        for v in &c.vals {
            R(v).render(&mut b);
        }
        same("sequence against concatenation", b.as_str().as_bytes(), all.as_bytes())?;
    }
    Ok(())
}

pub fn c21(env: &Env) -> Vec<Box<dyn DynStream>> {
    let conc = (prop::collection::vec(val(60), 2..4), any::<u16>(), any::<bool>())
        .prop_map(|(vals, at, warm)| Conc { vals, at, warm });
    vec![
        stream("sequences of values in one buffer", env.n(30_000, 1_500_000), seq(10, 500), check_seq),
        stream("values in buffers of all kinds", env.n(8_000, 400_000), seq(4, 200), check_context),
        stream("one thread stopped in the middle of rendering", env.n(1200, 40_000), conc, check_conc),
        stream("eight threads at once", env.n(400, 10_000), seq(6, 200), check_threads),
    ]
}

// ---- C20 ---------------------------------------------------------------------------------------

fn check_alloc(c: &One, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    kind(&c.val, o);
    let want = spec(&c.val);
    // enough free capacity: six bytes for every byte of input, and what numbers reserve
    let room = want.len() * 6 + 4096;
    let mut b = Buffer::with_capacity(c.prefix.len() + room);
    b.push_str(&c.prefix);
    let p = b.as_mut_ptr();
    let ((), n, m) = galloc::count(|| R(&c.val).render(&mut b));
    let n = n + m;
    if n != 0 || b.as_mut_ptr() != p {
        return Err(format!("{n} allocations while rendering into a buffer with {room} bytes free"));
    }
    same("rendering", &b.as_str().as_bytes()[c.prefix.len()..], want.as_bytes())
}
/// Values whose very construction in `R` does not allocate.
fn alloc_free() -> BoxedStrategy<Val> {
    let l = || {
        prop_oneof![
            1 => Just(Val::Unit),
            1 => any::<bool>().prop_map(Val::Bool),
            2 => ch().prop_map(Val::Char),
            4 => any_text(3000).prop_map(Val::Str),
            3 => (0u8..INT_KINDS, int_value()).prop_map(|(k, v)| Val::Int(k, v)),
            1 => f32_bits().prop_map(Val::F32),
            1 => f64_bits().prop_map(Val::F64),
            1 => Just(Val::None),
            1 => any_text(100).prop_map(Val::CowB),
            2 => pieces(60).prop_map(Val::Fmt),
            1 => pieces(60).prop_map(Val::Disp),
            2 => (any_text(100), prop::sample::select(vec![0u8, 2])).prop_map(|(s, k)| Val::Raw(s, k)),
            1 => Just(Val::Doc),
        ]
    };
    l().prop_recursive(3, 16, 5, |inner| {
        prop_oneof![
            1 => inner.clone().prop_map(|v| Val::Some(Box::new(v))),
            2 => prop::collection::vec(inner.clone(), 0..5).prop_map(Val::Iter),
            2 => (any_text(20), prop::collection::vec(inner.clone(), 0..5)).prop_map(|(d, v)| Val::IterDel(d, v)),
            4 => (0u8..SHAPES, prop::collection::vec(inner, 0..5)).prop_map(|(k, v)| Val::Tpl(k, v)),
        ]
    })
    .boxed()
}
/// Values with texts of up to 300 kB.
fn large() -> BoxedStrategy<Val> {
    let t = || prop_oneof![2 => vcore::text::long_few(70_000), 1 => vcore::text::long_few(300_000)];
    prop_oneof![
        4 => t().prop_map(Val::Str),
        1 => t().prop_map(Val::CowB),
        2 => (t(), prop::sample::select(vec![0u8, 1, 4]), pieces(40)).prop_map(|(t, k, mut p)| {
            p.push((k, t));
            Val::Fmt(p)
        }),
        1 => (t(), prop::sample::select(vec![0u8, 1, 4])).prop_map(|(t, k)| Val::Disp(vec![(k, t)])),
        1 => t().prop_map(|t| Val::Raw(t, 0)),
        1 => (t(), t()).prop_map(|(a, b)| Val::IterDel(a, vec![Val::Str(b.clone()), Val::Unit, Val::Str(b)])),
        2 => (0u8..SHAPES, t(), t()).prop_map(|(k, a, b)| Val::Tpl(k, vec![Val::Str(a), Val::Some(Box::new(Val::Str(b)))])),
    ]
    .boxed()
}
/// Rendering to a string: nothing but the growth of one block.
fn check_alloc_render(c: &One, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    let want = spec(&c.val);
    let (s, n, _) = galloc::count(|| render!(R(&c.val)));
    same("rendering", s.as_bytes(), want.as_bytes())?;
    // at most one block, grown by doubling while it is too small
    let worst = want.len() * 6 + 64;
    let mut growths = 0;
    let mut cap = 16384;
    while cap < worst {
        cap *= 2;
        growths += 1;
    }
    o.class_if(growths > 0, "output may outgrow the initial buffer");
    if n > 1 + growths {
        return Err(format!("{n} allocations while rendering {} bytes to a string", want.len()));
    }
    Ok(())
}

pub fn c20(env: &Env) -> Vec<Box<dyn DynStream>> {
    crate::val::OWNING.store(false, std::sync::atomic::Ordering::Relaxed);
    vec![
        stream("values into roomy buffers", env.n(60_000, 3_000_000), one(alloc_free()), check_alloc),
        stream("values to strings", env.n(20_000, 1_000_000), one(alloc_free()), check_alloc_render),
        stream("large values into roomy buffers", env.n(700, 30_000), one(large()), check_alloc),
        stream("large values to strings", env.n(500, 20_000), one(large()), check_alloc_render),
    ]
}

#[allow(unused)]
fn unused() {
    let _ = place::place;
}
