//! C24: the buffer grows geometrically and holds memory in proportion to its contents.
use crate::escape::buffer_with;
use crate::galloc;
use laby::internal::Buffer;
use laby::{iter, iter_lines, raw, Render};
use proptest::prelude::*;
use std::fmt::Write;
use vcore::text::*;
use vcore::*;

/// Pieces appended over and over, until there are so many bytes.
#[derive(Clone, Debug, Hash)]
pub struct Growth {
    pieces: Vec<(u8, String)>,
    total: usize,
    start: u8,
    cap: usize,
    /// How often it is cleared on the way.
    clears: usize,
}
impl Case for Growth {
    fn to_json(&self) -> Json {
        json!({"pieces": self.pieces, "total": self.total, "start": self.start, "capacity": self.cap, "clears": self.clears})
    }
    fn from_json(v: &Json) -> Self {
        Growth {
            pieces: v["pieces"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as u8, p[1].as_str().unwrap().into())).collect(),
            total: v["total"].as_u64().unwrap() as usize,
            start: v["start"].as_u64().unwrap() as u8,
            cap: v["capacity"].as_u64().unwrap() as usize,
            clears: v["clears"].as_u64().unwrap() as usize,
        }
    }
}

impl Growth {
    /// Pieces that render nothing end, too; some of the iterators are long.
    fn most(&self) -> usize {
        if self.pieces.iter().any(|p| (15..19).contains(&(p.0 % KINDS))) {
            6000
        } else {
            3_000_000
        }
    }
}

const KINDS: u8 = 21;
fn append(b: &mut Buffer, k: u8, s: &str, n: usize) {
    match k % KINDS {
        0 => b.push_str(s),
        1 => s.chars().take(4).for_each(|c| b.push(c)),
        2 => *b = std::mem::take(b) + s,
        3 => *b += s,
        4 => b.write_str(s).unwrap(),
        5 => b.write_char(s.chars().next().unwrap_or('x')).unwrap(),
        6 => write!(b, "{n}{s}").unwrap(),
        7 => s.render(b),
        8 => s.chars().next().unwrap_or('<').render(b),
        9 => n.render(b),
        10 => (n as f64 / 7.0).render(b),
        11 => raw!(s).render(b),
        12 => iter!(", ", [n, n + 1, 3]).render(b),
        13 => iter_lines!(s.chars().take(3)).render(b),
        14 => laby::div!(class = s, laby::p!(n), "text", true).render(b),
        20 => unsafe {
            b.reserve_small(s.len() + n % 64);
            std::ptr::copy_nonoverlapping(s.as_ptr(), b.as_mut_ptr().add(b.len()), s.len());
            b.advance(s.len());
        },
        // items that render to nothing, or to little
        15 => iter!((0..n % 5000).map(|i| if i == 7 { Some(s) } else { None })).render(b),
        16 => iter!("", (0..n % 5000).map(|_| ())).render(b),
        17 => iter!((0..n % 5000).map(|i| if i % 1000 == 3 { s } else { "" })).render(b),
        18 => laby::p!(Some(s), None::<&str>, iter!([""; 300]), raw!("")).render(b),
        _ => format_args!("{s}<{n}>").render(b),
    }
}

fn log2(n: usize) -> u64 {
    (n.max(2) - 1).ilog2() as u64 + 1
}

fn check(c: &Growth, o: &mut Obs) -> CheckResult {
    let mut b = match c.start % 4 {
        0 => Buffer::new(),
        1 => Buffer::with_capacity(c.cap),
        2 => buffer_with("start", c.cap),
        _ => Buffer::from("<start>"),
    };
    let (mut appended, mut longest) = (0usize, b.len());
    let (mut steps, mut cleared) = (0usize, 0);
    let mut full: Option<usize> = None;
    let (_, allocs, reallocs) = galloc::count(|| {
        while appended < c.total && steps < c.most() {
            let (k, s) = &c.pieces[steps % c.pieces.len()];
            let before = b.len();
            append(&mut b, *k, s, steps);
            appended += b.len() - before;
            longest = longest.max(b.len());
            steps += 1;
            if b.capacity() > 16 * longest + 4096 + c.cap && full.is_none() {
                full = Some(b.capacity());
            }
            if cleared < c.clears && appended / (cleared + 1) >= c.total / (c.clears + 1) {
                cleared += 1;
                b.clear();
            }
        }
    });
    o.nontrivial = allocs + reallocs >= 3;
    o.class_if(appended >= 1 << 20, "a megabyte or more");
    o.class_if(steps >= 10_000, "ten thousand pieces or more");
    let most = 8 + 2 * log2(appended);
    if allocs + reallocs > most {
        return Err(format!("appending {appended} bytes in {steps} pieces allocated {} times; at most {most} is logarithmic", allocs + reallocs));
    }
    if let Some(cap) = full {
        return Err(format!("a buffer that never held more than {longest} bytes got a capacity of {cap}"));
    }
    Ok(())
}

fn growth(max: u32) -> BoxedStrategy<Growth> {
    (6..=max)
        .prop_flat_map(|e| {
            // pieces from one byte to a thousandth of the whole
            let piece = (0u8..KINDS, prop_oneof![2 => text(30).boxed(), 1 => (text(40), 0u32..(e.max(10) - 9)).prop_map(|(s, r)| s.repeat(1 << r.min(10))).boxed()])
                .prop_map(|(k, s)| (k, if s.is_empty() { "x".to_string() } else { s }));
            let cap = prop_oneof![1 => Just(0usize), 2 => 0usize..64, 1 => 0usize..100_000];
            (prop::collection::vec(piece, 1..5), 1usize << (e - 1)..=1 << e, 0u8..4, cap, prop_oneof![2 => Just(0usize), 2 => 1usize..4, 1 => 4usize..60])
        })
        .prop_map(|(pieces, total, start, cap, clears)| Growth { pieces, total, start, cap, clears })
        .boxed()
}

fn large(max: u32) -> BoxedStrategy<Growth> {
    let piece = (0u8..15, text(60), 8u32..15).prop_map(|(k, s, r)| (k, if s.is_empty() { "y" } else { &s }.repeat(1 << r)));
    let first = (prop_oneof![Just(0u8), Just(2), Just(3), Just(4), Just(7), Just(11)], text(60)).prop_map(|(k, s)| (k, format!("z{s}").repeat(1 << 11)));
    let clears = prop_oneof![3 => Just(0usize), 1 => 1usize..4];
    (first, prop::collection::vec(piece, 0..3), (1usize << (max - 2))..=1 << max, 0u8..4, 0usize..100_000, clears)
        .prop_map(|(first, mut pieces, total, start, cap, clears)| {
            pieces.push(first);
            Growth { pieces, total, start, cap, clears }
        })
        .boxed()
}

pub fn c24(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream("growing", env.n(40_000, 400_000), growth(18), check),
        stream("large outputs", env.n(24, 240), large(if env.thorough() { 29 } else { 27 }), check),
        stream("growing to megabytes", env.n(1_000, 10_000), growth(24), check),
    ]
}
