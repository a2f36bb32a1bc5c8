//! C31: rendering takes time in proportion to what is rendered, and stack independent of it.
use crate::escape::CPUS;
use laby::internal::Buffer;
use laby::{div, iter, iter_lines, li, raw, render, Render};
use proptest::prelude::*;
use std::borrow::Cow;
use std::fmt::{self, Display, Formatter, Write};
use std::hint::black_box;
use std::time::Duration;
use vcore::text::*;
use vcore::*;

/// Work of a kind that is done at growing sizes.
#[derive(Clone, Debug, Hash)]
struct Pace {
    kind: u8,
    /// A text of `one`s, in which the part of `other`s is that many sixteenths.
    one: String,
    other: String,
    part: u8,
    other_first: bool,
    k: u32,
    cpu: u8,
    /// The buffer is new, not used before.
    fresh: bool,
}
impl Case for Pace {
    fn to_json(&self) -> Json {
        json!({"kind": self.kind, "what": NAMES[(self.kind % KINDS) as usize], "one": self.one, "other": self.other, "part": self.part, "other_first": self.other_first,
               "k": self.k, "cpu": CPUS[self.cpu as usize % CPUS.len()].0, "fresh": self.fresh})
    }
    fn from_json(v: &Json) -> Self {
        let cpu = v["cpu"].as_str().unwrap();
        Pace {
            kind: v["kind"].as_u64().unwrap() as u8,
            one: v["one"].as_str().unwrap().into(),
            other: v["other"].as_str().unwrap().into(),
            part: v["part"].as_u64().unwrap() as u8,
            other_first: v["other_first"] == true,
            k: v["k"].as_u64().unwrap() as u32,
            cpu: CPUS.iter().position(|c| c.0 == cpu).unwrap() as u8,
            fresh: v["fresh"] == true,
        }
    }
}

impl Pace {
    fn text(&self, n: usize) -> String {
        let m = n * (self.part as usize % 17) / 16;
        let fill = |u: &str, n: usize| u.repeat(n.div_ceil(u.len().max(1)).min(n));
        let (a, b) = (fill(&self.one, n - m), fill(&self.other, m));
        if self.other_first {
            b + &a
        } else {
            a + &b
        }
    }
}

const KINDS: u8 = 34;
const NAMES: [&str; KINDS as usize] = [
    "a text", "a String", "a Cow", "an Option of a text", "raw text", "text pushed at once", "characters rendered", "characters pushed", "texts rendered", "texts pushed", "text added with +=",
    "text added with +", "iter! of characters", "iter_lines! of characters", "iter! with a delimiter", "iter! with the text as delimiter", "items that render nothing", "items of a filter",
    "items with a wrong size hint", "iterators of iterators", "elements of an iterator", "an element with a text for attribute and content", "format_args!", "a Display of many pieces", "a Display of many characters",
    "integers", "floats", "length and contents asked at each step", "cleared at each step", "a string", "a Buffer from a String", "write!", "reserving at each step", "owned items",
];

struct Many<'a>(&'a str, usize, bool);
impl Display for Many<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if self.2 {
            let mut cs = self.0.chars().cycle();
            for _ in 0..self.1 {
                f.write_char(cs.next().unwrap_or('<'))?;
            }
        } else {
            for i in 0..self.1 {
                if i % 3 == 1 {
                    write!(f, "{}{}", self.0, i)?;
                } else {
                    f.write_str(self.0)?;
                }
            }
        }
        Ok(())
    }
}

struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

type Work = Box<dyn FnMut(&mut Buffer)>;

/// Work of size `n`: a text of `n` bytes, or `n` pieces.
fn work(c: &Pace, n: usize) -> Work {
    let s: &'static str = Box::leak(c.one.clone().into_boxed_str());
    let k = c.k as usize;
    let text = if matches!(c.kind % KINDS, 0..=5 | 15 | 21 | 22 | 29 | 30) { c.text(n) } else { String::new() };
    let chars: Vec<char> = if matches!(c.kind % KINDS, 6 | 7 | 12 | 13) { c.text(n * 2).chars().take(n).collect() } else { vec![] };
    let mut t = Some(text.clone());
    match c.kind % KINDS {
        0 => Box::new(move |b| text.as_str().render(b)),
        1 => Box::new(move |b| t.take().unwrap_or_else(|| text.clone()).render(b)),
        2 => Box::new(move |b| Cow::Borrowed(text.as_str()).render(b)),
        3 => Box::new(move |b| Some(Some(text.as_str())).render(b)),
        4 => Box::new(move |b| raw!(text.as_str()).render(b)),
        5 => Box::new(move |b| b.push_str(&text)),
        6 => Box::new(move |b| chars.iter().for_each(|c| c.render(b))),
        7 => Box::new(move |b| chars.iter().for_each(|c| b.push(*c))),
        8 => Box::new(move |b| (0..n).for_each(|_| s.render(b))),
        9 => Box::new(move |b| (0..n).for_each(|_| b.push_str(s))),
        10 => Box::new(move |b| (0..n).for_each(|_| *b += s)),
        11 => Box::new(move |b| (0..n).for_each(|_| *b = std::mem::take(b) + s)),
        12 => Box::new(move |b| iter!(chars.iter().copied()).render(b)),
        13 => Box::new(move |b| iter_lines!(chars.iter().copied()).render(b)),
        14 => Box::new(move |b| iter!(s, (0..n).map(|i| i % 10)).render(b)),
        // the delimiter is long, the items few
        15 => Box::new(move |b| iter!(text.as_str(), 0..4).render(b)),
        16 => Box::new(move |b| match k % 4 {
            0 => iter!((0..n).map(|i| ((), i).0)).render(b),
            1 => iter!(s, (0..n).map(|i| if i == 7 { Some(i) } else { None })).render(b),
            2 => iter!((0..n).map(|_| "")).render(b),
            _ => iter!((0..n).map(|i| iter!(0..i % 2))).render(b),
        }),
        17 => Box::new(move |b| iter!("-", (0..n).filter(|i| i % (k % 50 + 1) == 0)).render(b)),
        18 => {
            let (lo, hi) = match k % 5 {
                0 => (0, None),
                1 => (0, Some(0)),
                2 => (1, Some(1)),
                3 => (n / 2, Some(n / 2)),
                _ => (0, Some(usize::MAX)),
            };
            Box::new(move |b| if k % 2 == 0 { iter!(Hint(0..n, lo, hi)).render(b) } else { iter!(s, Hint(0..n, lo, hi)).render(b) })
        }
        19 => {
            let w = 1 + k % 64;
            Box::new(move |b| iter!((0..n / w).map(|i| iter!(",", i..i + w))).render(b))
        }
        20 => Box::new(move |b| iter!((0..n).map(|i| li!(class = s, i, Some("x")))).render(b)),
        21 => Box::new(move |b| div!(title = text.as_str(), raw!("x"), text.as_str(), li!(text.as_str())).render(b)),
        22 => Box::new(move |b| format_args!("{}{}", k, text).render(b)),
        23 => Box::new(move |b| format_args!("{}", Many(s, n, false)).render(b)),
        24 => Box::new(move |b| format_args!("{}{}", Many(s, n, true), k).render(b)),
        25 => Box::new(move |b| {
            (0..n).for_each(|i| match i % 4 {
                0 => (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).render(b),
                1 => (i as i8).render(b),
                2 => (i as u128).wrapping_mul(u128::MAX / 3).render(b),
                _ => (-(i as i64)).render(b),
            })
        }),
        26 => Box::new(move |b| {
            (0..n).for_each(|i| match i % 3 {
                0 => (i as f64 / 7.0).render(b),
                1 => f64::from_bits((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)).render(b),
                _ => (i as f32 * 1e-30).render(b),
            })
        }),
        27 => Box::new(move |b| {
            (0..n).for_each(|_| {
                s.render(b);
                black_box((b.len(), b.capacity(), b.is_empty(), b.as_str().len()));
            })
        }),
        // of a buffer that holds much
        28 => Box::new(move |b| {
            (0..n).for_each(|_| b.push_str("0123456"));
            (0..n).for_each(|_| {
                b.clear();
                s.render(b)
            })
        }),
        29 => Box::new(move |b| {
            black_box(render!(text.as_str(), k, raw!(text.as_str())));
            b.push('x');
        }),
        30 => Box::new(move |b| {
            let mut x = Buffer::from(text.clone());
            (0..4).for_each(|_| s.render(&mut x));
            *b = Buffer::from(x.clone().into_string().as_str());
        }),
        31 => Box::new(move |b| (0..n).for_each(|i| write!(b, "{s}{i}").unwrap())),
        32 => Box::new(move |b| {
            (0..n).for_each(|i| {
                b.reserve(i % 50);
                b.push('x')
            })
        }),
        _ => {
            let v: Vec<String> = (0..n).map(|i| if i % 5 == 0 { s.to_string() } else { String::new() }).collect();
            Box::new(move |b| iter!(v.clone().into_iter().map(Cow::<str>::Owned)).render(b))
        }
    }
}

fn cpu_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 * 1e9 + t.tv_nsec as f64
}

/// Processor time in nanoseconds: the least of some runs.
fn time(c: &Pace, n: usize, runs: usize) -> f64 {
    let mut w = work(c, n);
    let mut b = Buffer::new();
    if !c.fresh {
        w(&mut b);
    }
    let mut least = f64::MAX;
    for _ in 0..runs {
        if c.fresh {
            b = Buffer::new();
        } else {
            b.clear();
        }
        let t = cpu_time();
        w(&mut b);
        least = least.min(cpu_time() - t);
    }
    least
}

const FIRST: usize = 1 << 11;
/// Sizes are four times those before; time that grows more than so many times, twice, is not proportional.
const MOST: f64 = 8.5;

fn steep(t: &[(usize, f64)]) -> bool {
    t.windows(3).any(|w| w[1].1 > MOST * w[0].1 && w[2].1 > MOST * w[1].1 && w[2].1 > 5.0 * w[2].0 as f64 && w[2].1 > 1e6)
}

fn measure(c: &Pace, last: usize, runs: usize) -> Vec<(usize, f64)> {
    let mut t = vec![];
    let mut n = FIRST;
    while n <= last {
        t.push((n, time(c, n, runs)));
        // what is slow is measured no further than it takes to tell
        if t.last().unwrap().1 > 3e8 || steep(&t) {
            break;
        }
        n *= 4;
    }
    t
}

fn judge(c: &Pace) -> CheckResult {
    CPUS[c.cpu as usize % CPUS.len()].1.apply();
    let last = match c.one.len().max(1) {
        _ if matches!(c.kind % KINDS, 0..=5 | 15 | 21 | 22 | 29 | 30) => 1 << 23,
        0..=8 => 1 << 19,
        l => (1usize << 23) / l,
    };
    let mut t = measure(c, last, 2);
    // again, for it can be a disturbance
    for _ in 0..3 {
        if !steep(&t) {
            return Ok(());
        }
        t = measure(c, last, 5);
    }
    if !steep(&t) {
        return Ok(());
    }
    let list: Vec<String> = t.iter().map(|(n, t)| format!("{n}: {:.3} ms", t / 1e6)).collect();
    Err(format!("time does not grow in proportion to size ({}): {}", NAMES[(c.kind % KINDS) as usize], list.join(", ")))
}

fn check(c: &Pace, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.class(NAMES[(c.kind % KINDS) as usize]);
    // each in a process of its own, which decides anew what the processor can do; and on a small stack
    let r = in_child(Duration::from_secs(100), || {
        let c = c.clone();
        std::thread::Builder::new().stack_size(160 << 10).spawn(move || judge(&c)).unwrap().join().unwrap_or_else(|e| Err(panic_text(e)))
    });
    match r {
        ChildResult::Pass => Ok(()),
        ChildResult::Fail(m) => Err(m),
        ChildResult::Timeout => Err("no end of the rendering after 100 seconds".into()),
    }
}

pub fn c31(env: &Env) -> Vec<Box<dyn DynStream>> {
    let unit = || {
        prop_oneof![
            4 => text(60),
            2 => any_text(12),
            1 => Just("<".to_string()),
            1 => (0usize..200, ch()).prop_map(|(n, c)| format!("{}{c}", "a".repeat(n))),
            1 => Just("x".to_string()),
        ]
        .prop_map(|s| if s.is_empty() { "&".to_string() } else { s })
    };
    let case = move |i: u64| {
        let kind = (i % KINDS as u64) as u8;
        (unit(), unit(), prop_oneof![2 => Just(0u8), 2 => 0u8..17], any::<bool>(), any::<u32>(), 0u8..8, prop::bool::weighted(0.25))
            .prop_map(move |(one, other, part, other_first, k, cpu, fresh)| Pace { kind, one, other, part, other_first, k, cpu, fresh })
    };
    let texts = move |_: u64| {
        (0u8..4, unit(), unit(), 0u8..17, any::<bool>(), any::<u32>(), 0u8..8)
            .prop_map(|(kind, one, other, part, other_first, k, cpu)| Pace { kind, one, other, part, other_first, k, cpu, fresh: false })
    };
    vec![
        stream_indexed("time as size grows", env.n(816, 20_400), case, check),
        stream_indexed("texts", env.n(400, 8_000), texts, check),
    ]
}
