//! C04 (buffer histories against String) and C05 (reserving).
use crate::escape::memory_verdict;
use crate::galloc;
use laby::internal::Buffer;
use proptest::prelude::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::text::*;
use vcore::*;

const SLOTS: usize = 4;

#[derive(Clone, Debug, Hash)]
pub enum Op {
    New(u8),
    Default(u8),
    WithCapacity(u8, usize),
    FromStr(u8, String),
    FromString(u8, String, usize),
    PushStr(u8, String),
    /// push characters of this kind until fewer than four bytes are free, then this many more
    Fill(u8, char, u8),
    Push(u8, char),
    Add(u8, String),
    AddAssign(u8, String),
    WriteStr(u8, String),
    WriteChar(u8, char),
    WriteFmt(u8, String, i64),
    /// in place: reserve this much more than the text, copy it, advance
    InPlace(u8, String, usize),
    Reserve(u8, usize),
    /// reserve relative to the free room
    ReserveFree(u8, i8),
    /// reserve so that length plus request exceeds isize::MAX by this much
    ReserveOver(u8, usize),
    WithCapacityOver(u8, usize),
    /// room that is never filled
    ReserveHuge(u8, usize),
    WithCapacityHuge(u8, usize),
    Clear(u8),
    Clone(u8, u8),
    CloneFrom(u8, u8),
    Move(u8, u8),
    IntoString(u8),
    RoundTrip(u8),
    View(u8),
}
use Op::*;

impl Op {
    fn json(&self) -> Json {
        match self {
            New(a) => json!(["new", a]),
            Default(a) => json!(["default", a]),
            WithCapacity(a, n) => json!(["with_capacity", a, n]),
            FromStr(a, s) => json!(["from_str", a, s]),
            FromString(a, s, n) => json!(["from_string", a, s, n]),
            PushStr(a, s) => json!(["push_str", a, s]),
            Fill(a, c, n) => json!(["fill", a, c.to_string(), n]),
            Push(a, c) => json!(["push", a, c.to_string()]),
            Add(a, s) => json!(["add", a, s]),
            AddAssign(a, s) => json!(["add_assign", a, s]),
            WriteStr(a, s) => json!(["write_str", a, s]),
            WriteChar(a, c) => json!(["write_char", a, c.to_string()]),
            WriteFmt(a, s, n) => json!(["write_fmt", a, s, n]),
            InPlace(a, s, n) => json!(["in_place", a, s, n]),
            Reserve(a, n) => json!(["reserve", a, n]),
            ReserveFree(a, n) => json!(["reserve_free", a, n]),
            ReserveOver(a, n) => json!(["reserve_over", a, n]),
            WithCapacityOver(a, n) => json!(["with_capacity_over", a, n]),
            ReserveHuge(a, n) => json!(["reserve_huge", a, n]),
            WithCapacityHuge(a, n) => json!(["with_capacity_huge", a, n]),
            Clear(a) => json!(["clear", a]),
            Clone(a, b) => json!(["clone", a, b]),
            CloneFrom(a, b) => json!(["clone_from", a, b]),
            Move(a, b) => json!(["move", a, b]),
            IntoString(a) => json!(["into_string", a]),
            RoundTrip(a) => json!(["round_trip", a]),
            View(a) => json!(["view", a]),
        }
    }
    fn parse(v: &Json) -> Op {
        let a = v[1].as_u64().unwrap() as u8;
        let s = |i: usize| v[i].as_str().unwrap().to_string();
        let c = |i: usize| v[i].as_str().unwrap().chars().next().unwrap();
        let n = |i: usize| v[i].as_u64().unwrap() as usize;
        let z = |i: usize| v[i].as_i64().unwrap();
        match v[0].as_str().unwrap() {
            "new" => New(a),
            "default" => Default(a),
            "with_capacity" => WithCapacity(a, n(2)),
            "from_str" => FromStr(a, s(2)),
            "from_string" => FromString(a, s(2), n(3)),
            "push_str" => PushStr(a, s(2)),
            "fill" => Fill(a, c(2), n(3) as u8),
            "push" => Push(a, c(2)),
            "add" => Add(a, s(2)),
            "add_assign" => AddAssign(a, s(2)),
            "write_str" => WriteStr(a, s(2)),
            "write_char" => WriteChar(a, c(2)),
            "write_fmt" => WriteFmt(a, s(2), z(3)),
            "in_place" => InPlace(a, s(2), n(3)),
            "reserve" => Reserve(a, n(2)),
            "reserve_free" => ReserveFree(a, z(2) as i8),
            "reserve_over" => ReserveOver(a, n(2)),
            "with_capacity_over" => WithCapacityOver(a, n(2)),
            "reserve_huge" => ReserveHuge(a, n(2)),
            "with_capacity_huge" => WithCapacityHuge(a, n(2)),
            "clear" => Clear(a),
            "clone" => Clone(a, n(2) as u8),
            "clone_from" => CloneFrom(a, n(2) as u8),
            "move" => Move(a, n(2) as u8),
            "into_string" => IntoString(a),
            "round_trip" => RoundTrip(a),
            "view" => View(a),
            x => panic!("operation {x}"),
        }
    }
}

#[derive(Clone, Debug, Hash)]
pub struct History(pub Vec<Op>);
impl Case for History {
    fn to_json(&self) -> Json {
        Json::Array(self.0.iter().map(|o| o.json()).collect())
    }
    fn from_json(v: &Json) -> Self {
        History(v.as_array().unwrap().iter().map(Op::parse).collect())
    }
}

fn slot() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 2 => 0u8..SLOTS as u8].boxed()
}
fn chunk() -> BoxedStrategy<String> {
    prop_oneof![6 => text(20), 3 => text(100), 1 => text(3000), 1 => runs()].boxed()
}
fn capacity() -> BoxedStrategy<usize> {
    prop_oneof![1 => Just(0usize), 4 => 0usize..40, 2 => 0usize..600, 1 => 0usize..20000].boxed()
}

fn op() -> BoxedStrategy<Op> {
    let any_ch = || prop_oneof![ch(), prop::sample::select(vec!['a', 'é', '中', '𝄞'])];
    prop_oneof![
        1 => slot().prop_map(New),
        1 => slot().prop_map(Default),
        2 => (slot(), capacity()).prop_map(|(a, n)| WithCapacity(a, n)),
        2 => (slot(), chunk()).prop_map(|(a, s)| FromStr(a, s)),
        2 => (slot(), chunk(), prop_oneof![Just(0usize), 0usize..50]).prop_map(|(a, s, n)| FromString(a, s, n)),
        6 => (slot(), chunk()).prop_map(|(a, s)| PushStr(a, s)),
        5 => (slot(), any_ch()).prop_map(|(a, c)| Push(a, c)),
        2 => (slot(), any_ch(), 0u8..6).prop_map(|(a, c, n)| Fill(a, c, n)),
        2 => (slot(), chunk()).prop_map(|(a, s)| Add(a, s)),
        2 => (slot(), chunk()).prop_map(|(a, s)| AddAssign(a, s)),
        1 => (slot(), chunk()).prop_map(|(a, s)| WriteStr(a, s)),
        1 => (slot(), any_ch()).prop_map(|(a, c)| WriteChar(a, c)),
        2 => (slot(), chunk(), any::<i64>()).prop_map(|(a, s, n)| WriteFmt(a, s, n)),
        2 => (slot(), chunk(), prop_oneof![2 => Just(0usize), 1 => capacity()]).prop_map(|(a, s, n)| InPlace(a, s, n)),
        2 => (slot(), capacity()).prop_map(|(a, n)| Reserve(a, n)),
        2 => (slot(), -3i8..6).prop_map(|(a, n)| ReserveFree(a, n)),
        2 => slot().prop_map(Clear),
        3 => (slot(), slot()).prop_map(|(a, b)| Clone(a, b)),
        1 => (slot(), slot()).prop_map(|(a, b)| CloneFrom(a, b)),
        1 => (slot(), slot()).prop_map(|(a, b)| Move(a, b)),
        1 => slot().prop_map(IntoString),
        1 => slot().prop_map(RoundTrip),
        2 => slot().prop_map(View),
    ]
    .boxed()
}

fn limit_op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (slot(), over()).prop_map(|(a, n)| ReserveOver(a, n)),
        1 => (slot(), over()).prop_map(|(a, n)| WithCapacityOver(a, n)),
        3 => (slot(), capacity()).prop_map(|(a, n)| Reserve(a, n)),
        3 => (slot(), -3i8..6).prop_map(|(a, n)| ReserveFree(a, n)),
        1 => (slot(), capacity()).prop_map(|(a, n)| WithCapacity(a, n)),
    ]
    .boxed()
}
fn over() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 1usize..5,
        2 => 1usize..5000,
        1 => 1usize..isize::MAX as usize,
        1 => Just(isize::MAX as usize),
        2 => (0usize..5).prop_map(|d| isize::MAX as usize + 1 - d),
    ]
    .boxed()
}

pub fn histories(max: usize) -> BoxedStrategy<History> {
    prop::collection::vec(op(), 1..max).prop_map(History).boxed()
}
/// Sizes of every magnitude.
fn huge(limit: usize) -> BoxedStrategy<usize> {
    (20u32..=limit.ilog2(), any::<u64>(), -3i64..4, any::<bool>())
        .prop_map(move |(e, m, d, exact)| {
            let n = if exact { 1usize << e } else { (1usize << e) + (m as usize & ((1usize << e) - 1)) };
            n.saturating_add_signed(d as isize).min(limit)
        })
        .boxed()
}
fn huge_histories(max: usize) -> BoxedStrategy<History> {
    let limit = galloc::huge_limit() / 4;
    let big_op = prop_oneof![
        2 => (slot(), huge(4 << 20)).prop_map(|(a, n)| ReserveHuge(a, n)),
        1 => (slot(), huge(4 << 20)).prop_map(|(a, n)| WithCapacityHuge(a, n)),
    ];
    let before = prop::collection::vec(prop_oneof![2 => op(), 1 => limit_op(), 1 => big_op], 0..max);
    let huge_op = (slot(), huge(limit), prop_oneof![2 => Just(false), 1 => Just(true)]);
    let after = prop::collection::vec(op(), 0..max);
    // a buffer that has this much room does not grow further: however it grows, there is not enough memory to fill it
    (before, huge_op, huge_op_other(limit), after)
        .prop_map(|(mut ops, (a, n, fresh), other, after)| {
            ops.push(if fresh { WithCapacityHuge(a, n) } else { ReserveHuge(a, n) });
            ops.extend(other.map(|n| ReserveHuge((a + 1) % SLOTS as u8, n)));
            ops.extend(after.into_iter().filter(|x| !matches!(x, ReserveFree(..) | RoundTrip(_) | Fill(..))));
            History(ops)
        })
        .boxed()
}
fn huge_op_other(limit: usize) -> BoxedStrategy<Option<usize>> {
    prop::option::of(huge(limit)).boxed()
}
fn large_histories(max: usize) -> BoxedStrategy<History> {
    let text = || (text(12), 12u32..21).prop_map(|(s, e)| s.repeat((1usize << e) / s.len().max(1)));
    let large_op = prop_oneof![
        2 => (slot(), text()).prop_map(|(a, s)| PushStr(a, s)),
        1 => (slot(), text()).prop_map(|(a, s)| FromStr(a, s)),
        1 => (slot(), text(), prop_oneof![Just(0usize), 0usize..50]).prop_map(|(a, s, n)| FromString(a, s, n)),
        1 => (slot(), text()).prop_map(|(a, s)| AddAssign(a, s)),
        1 => (slot(), text()).prop_map(|(a, s)| WriteStr(a, s)),
    ];
    prop::collection::vec(prop_oneof![3 => op(), 2 => large_op], 1..max).prop_map(History).boxed()
}
pub fn limit_histories(max: usize) -> BoxedStrategy<History> {
    prop::collection::vec(prop_oneof![op(), limit_op()], 1..max).prop_map(History).boxed()
}

fn compare(b: &Buffer, m: &str, what: &str) -> CheckResult {
    if b.len() != m.len() {
        return Err(format!("{what}: length is {}, expected {}", b.len(), m.len()));
    }
    if b.capacity() < b.len() {
        return Err(format!("{what}: capacity {} below length {}", b.capacity(), b.len()));
    }
    if b.is_empty() != m.is_empty() {
        return Err(format!("{what}: is_empty is {}", b.is_empty()));
    }
    if std::str::from_utf8(b.as_str().as_bytes()).is_err() {
        return Err(format!("{what}: contents are not valid UTF-8"));
    }
    same(what, b.as_str().as_bytes(), m.as_bytes())
}

/// Interprets a history on buffers and on strings. `limits` judges capacities too (C05).
pub fn run(h: &History, limits: bool, o: &mut Obs) -> CheckResult {
    let mut bs: Vec<Buffer> = (0..SLOTS).map(|_| Buffer::new()).collect();
    let mut ms: Vec<String> = vec![String::new(); SLOTS];
    for (i, op) in h.0.iter().enumerate() {
        let mut reserved: Option<(usize, usize)> = None;
        match op {
            New(a) => {
                bs[*a as usize] = Buffer::new();
                ms[*a as usize].clear();
            }
            Default(a) => {
                bs[*a as usize] = <Buffer as std::default::Default>::default();
                ms[*a as usize].clear();
            }
            WithCapacity(a, n) => {
                bs[*a as usize] = Buffer::with_capacity(*n);
                ms[*a as usize].clear();
                reserved = Some((*a as usize, *n));
            }
            FromStr(a, s) => {
                bs[*a as usize] = Buffer::from(s.as_str());
                ms[*a as usize] = s.clone();
            }
            FromString(a, s, n) => {
                let mut t = String::with_capacity(s.len() + n);
                t.push_str(s);
                bs[*a as usize] = Buffer::from(t);
                ms[*a as usize] = s.clone();
            }
            PushStr(a, s) => {
                bs[*a as usize].push_str(s);
                ms[*a as usize].push_str(s);
            }
            Fill(a, c, n) => {
                let (b, m) = (&mut bs[*a as usize], &mut ms[*a as usize]);
                if b.capacity() - b.len() < 5000 {
                    while b.capacity() - b.len() >= 4 {
                        b.push_str(c.encode_utf8(&mut [0; 4]));
                        m.push(*c);
                    }
                }
                for _ in 0..*n {
                    b.push(*c);
                    m.push(*c);
                }
            }
            Push(a, c) => {
                bs[*a as usize].push(*c);
                ms[*a as usize].push(*c);
            }
            Add(a, s) => {
                let b = std::mem::take(&mut bs[*a as usize]);
                bs[*a as usize] = b + s.as_str();
                ms[*a as usize].push_str(s);
            }
            AddAssign(a, s) => {
                bs[*a as usize] += s.as_str();
                ms[*a as usize].push_str(s);
            }
            WriteStr(a, s) => {
                bs[*a as usize].write_str(s).map_err(|_| "write_str failed".to_string())?;
                ms[*a as usize].push_str(s);
            }
            WriteChar(a, c) => {
                bs[*a as usize].write_char(*c).map_err(|_| "write_char failed".to_string())?;
                ms[*a as usize].push(*c);
            }
            WriteFmt(a, s, n) => {
                write!(bs[*a as usize], "<{s}|{n:>8}&{s:?}>").map_err(|_| "write! failed".to_string())?;
                write!(ms[*a as usize], "<{s}|{n:>8}&{s:?}>").unwrap();
            }
            InPlace(a, s, n) => {
                let b = &mut bs[*a as usize];
                unsafe {
                    b.reserve_small(s.len() + n);
                    if b.capacity() < b.len() + s.len() + n {
                        return Err(format!("operation {i} ({op:?}): capacity {} with length {}", b.capacity(), b.len()));
                    }
                    std::ptr::copy_nonoverlapping(s.as_ptr(), b.as_mut_ptr().add(b.len()), s.len());
                    b.advance(s.len());
                }
                ms[*a as usize].push_str(s);
                reserved = Some((*a as usize, *n));
            }
            Reserve(a, n) => {
                bs[*a as usize].reserve(*n);
                reserved = Some((*a as usize, *n));
            }
            ReserveFree(a, d) => {
                let b = &mut bs[*a as usize];
                let n = (b.capacity() - b.len()).saturating_add_signed(*d as isize);
                b.reserve(n);
                reserved = Some((*a as usize, n));
            }
            ReserveOver(a, n) => {
                let b = &mut bs[*a as usize];
                let Some(req) = (isize::MAX as usize - b.len()).checked_add(*n) else { continue };
                let (cap, p) = (b.capacity(), b.as_mut_ptr());
                o.class("request beyond isize::MAX");
                if catch_unwind(AssertUnwindSafe(|| b.reserve(req))).is_ok() {
                    return Err(format!(
                        "operation {i}: reserve({req}) with length {} returned; capacity {}",
                        b.len(),
                        b.capacity()
                    ));
                }
                if b.capacity() != cap || b.as_mut_ptr() != p {
                    return Err(format!("operation {i}: failed reserve({req}) changed the buffer"));
                }
            }
            WithCapacityOver(_, n) => {
                let Some(req) = (isize::MAX as usize).checked_add(*n) else { continue };
                o.class("request beyond isize::MAX");
                if catch_unwind(AssertUnwindSafe(|| Buffer::with_capacity(req))).is_ok() {
                    return Err(format!("operation {i}: with_capacity({req}) returned"));
                }
            }
            ReserveHuge(a, n) => {
                bs[*a as usize].reserve(*n);
                reserved = Some((*a as usize, *n));
            }
            WithCapacityHuge(a, n) => {
                bs[*a as usize] = Buffer::with_capacity(*n);
                ms[*a as usize].clear();
                reserved = Some((*a as usize, *n));
            }
            Clear(a) => {
                bs[*a as usize].clear();
                ms[*a as usize].clear();
            }
            Clone(a, b) => {
                bs[*b as usize] = bs[*a as usize].clone();
                ms[*b as usize] = ms[*a as usize].clone();
            }
            CloneFrom(a, b) => {
                if a != b {
                    let src = std::mem::take(&mut bs[*a as usize]);
                    bs[*b as usize].clone_from(&src);
                    bs[*a as usize] = src;
                    ms[*b as usize] = ms[*a as usize].clone();
                }
            }
            Move(a, b) => {
                bs.swap(*a as usize, *b as usize);
                ms.swap(*a as usize, *b as usize);
            }
            IntoString(a) => {
                let s = std::mem::take(&mut bs[*a as usize]).into_string();
                let m = std::mem::take(&mut ms[*a as usize]);
                same(&format!("operation {i}: into_string"), s.as_bytes(), m.as_bytes())?;
                // the string has to be usable as one
                let mut s = s;
                s.push_str("tail");
                s.shrink_to_fit();
                same(&format!("operation {i}: string"), s.as_bytes(), (m + "tail").as_bytes())?;
            }
            RoundTrip(a) => {
                let s = std::mem::take(&mut bs[*a as usize]).into_string();
                bs[*a as usize] = Buffer::from(s);
            }
            View(a) => {
                let (b, m) = (&bs[*a as usize], &ms[*a as usize]);
                let got = format!("{b:?}");
                same(&format!("operation {i}: debug view"), got.as_bytes(), format!("{m:?}").as_bytes())?;
            }
        }
        for k in 0..SLOTS {
            compare(&bs[k], &ms[k], &format!("after operation {i} ({op:?}), buffer {k}"))?;
        }
        if let (Some((k, n)), true) = (reserved, limits) {
            o.class("reservation checked");
            let b = &mut bs[k];
            if b.capacity() < b.len() + n {
                return Err(format!(
                    "operation {i} ({op:?}): capacity {} with length {} after reserving {n}",
                    b.capacity(),
                    b.len()
                ));
            }
            // append what was reserved on a copy of the situation: in two parts
            let (cap, p) = (b.capacity(), b.as_mut_ptr());
            o.class_if(n >= galloc::HUGE, "huge reservation");
            let n = n.min(50_000);
            let t = "r".repeat(n);
            // by any operator that appends strings, in up to three parts
            for (j, part) in [&t[..n / 3], &t[n / 3..n / 2], &t[n / 2..]].into_iter().enumerate() {
                match (i + j + n / 3) % 5 {
                    0 => b.push_str(part),
                    1 => *b = std::mem::take(b) + part,
                    2 => *b += part,
                    3 => b.write_str(part).unwrap(),
                    _ => write!(b, "{}{part}", "").unwrap(),
                }
            }
            ms[k].push_str(&t);
            if b.capacity() != cap || (n > 0 && b.as_mut_ptr() != p) {
                return Err(format!("operation {i} ({op:?}): appending the {n} reserved bytes reallocated"));
            }
            compare(b, &ms[k], &format!("after appending {n} reserved bytes, buffer {k}"))?;
        }
    }
    for (k, b) in bs.into_iter().enumerate() {
        same(&format!("final buffer {k}"), b.into_string().as_bytes(), ms[k].as_bytes())?;
    }
    Ok(())
}

fn note(h: &History, o: &mut Obs) {
    let has = |f: &dyn Fn(&Op) -> bool| h.0.iter().any(|x| f(x));
    let grow = has(&|x| matches!(x, PushStr(..) | Push(..) | Add(..) | AddAssign(..) | WriteFmt(..) | Fill(..)));
    o.class_if(has(&|x| matches!(x, Clone(a, b) if a != b)), "has a clone");
    o.class_if(has(&|x| matches!(x, Clear(..))), "has a clear");
    o.class_if(has(&|x| matches!(x, FromString(..) | FromStr(..))), "starts from a string");
    o.nontrivial = grow && h.0.len() >= 3;
}

pub fn check_history(h: &History, o: &mut Obs) -> CheckResult {
    note(h, o);
    run(h, false, o)
}
pub fn check_history_guarded(h: &History, o: &mut Obs) -> CheckResult {
    note(h, o);
    let before = galloc::live();
    let r = galloc::guarded(|| run(h, false, &mut Obs::default()));
    memory_verdict(before, r)
}
fn check_limits(h: &History, o: &mut Obs) -> CheckResult {
    run(h, true, o)?;
    o.nontrivial = !o.classes.is_empty();
    Ok(())
}

pub fn c04(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream("histories", env.n(60_000, 3_000_000), histories(25), check_history),
        stream("long histories", env.n(3_000, 100_000), histories(150), check_history),
        stream("histories with large texts", env.n(300, 10_000), large_histories(10), check_history),
        stream("histories, guarded memory", env.n(6_000, 200_000), histories(20), check_history_guarded),
    ]
}

pub fn c05(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream("histories with reservations", env.n(60_000, 3_000_000), limit_histories(16), check_limits),
        stream("histories with huge reservations", env.n(2_000, 100_000), huge_histories(12), check_limits),
        stream("long histories with reservations", env.n(2_000, 100_000), limit_histories(80), check_limits),
    ]
}
