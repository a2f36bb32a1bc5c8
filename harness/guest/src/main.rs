//! Runs under an interpreter of Rust (Miri) for some processor: takes cases from the standard
//! input, each the number of its bytes and these, and answers in the same way.
#[allow(warnings)]
#[path = "../../rt/src/valcore.rs"]
#[macro_use]
mod valcore;

use laby::internal::Buffer;
use laby::{render, Render};
use std::fmt::Write as _;
use std::io::{Read, Write};
use valcore::*;

pub fn spec_of(v: &Val) -> String {
    render!(R(v))
}

struct D<'a>(&'a [u8]);
impl<'a> D<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.0[0];
        self.0 = &self.0[1..];
        b
    }
    fn n(&mut self) -> usize {
        self.u8() as usize | (self.u8() as usize) << 8
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn str(&mut self) -> &'a str {
        let n = self.n();
        unsafe { std::str::from_utf8_unchecked(self.bytes(n)) }
    }
    fn s(&mut self) -> String {
        self.str().to_string()
    }
    fn pieces(&mut self) -> Vec<(u8, String)> {
        (0..self.u8()).map(|_| (self.u8(), self.s())).collect()
    }
    fn vals(&mut self) -> Vec<Val> {
        (0..self.u8()).map(|_| self.val()).collect()
    }
    fn val(&mut self) -> Val {
        match self.u8() {
            0 => Val::Unit,
            1 => Val::Bool(self.u8() == 1),
            2 => Val::Char(self.str().chars().next().unwrap()),
            3 => Val::Str(self.s()),
            4 => Val::Owned(self.s(), self.u8()),
            5 => Val::Int(self.u8(), u128::from_le_bytes(self.bytes(16).try_into().unwrap())),
            6 => Val::F32(u32::from_le_bytes(self.bytes(4).try_into().unwrap())),
            7 => Val::F64(u64::from_le_bytes(self.bytes(8).try_into().unwrap())),
            8 => Val::None,
            9 => Val::Some(Box::new(self.val())),
            10 => Val::CowB(self.s()),
            11 => Val::CowO(self.s()),
            12 => Val::Fmt(self.pieces()),
            13 => Val::Disp(self.pieces()),
            14 => Val::Raw(self.s(), self.u8()),
            15 => Val::Iter(self.vals()),
            16 => Val::IterDel(self.s(), self.vals()),
            17 => Val::IterLines(self.vals()),
            18 => Val::Doc,
            19 => Val::Tpl(self.u8(), self.vals()),
            _ => Val::Nested(self.u8(), Box::new(self.val())),
        }
    }
}

fn case(mut d: D) -> String {
    let mut b = Buffer::with_capacity(d.n());
    while !d.0.is_empty() {
        match d.u8() {
            0 => R(&d.val()).render(&mut b),
            // from where it lies in the input
            1 => d.str().render(&mut b),
            2 => b.push_str(d.str()),
            3 => b.push(d.str().chars().next().unwrap()),
            4 => b.reserve(d.n()),
            5 => b.clear(),
            6 => b = b.clone(),
            7 => {
                let c = b.clone();
                b.push_str(c.as_str());
            }
            8 => b = Buffer::from(b.into_string()),
            9 => b += d.str(),
            10 => b = b + d.str(),
            11 => {
                let n = d.n();
                write!(b, "{}{n}", d.str()).unwrap()
            }
            12 => {
                let mut c = Buffer::from(d.str());
                c.clone_from(&b);
                b = c;
            }
            13 => {
                // the room needed for the text, and what is asked of the buffer
                let n = d.n();
                let free = b.capacity() - b.len();
                if free < n {
                    b.reserve(n);
                    assert!(b.capacity() - b.len() >= n, "room after reserve");
                }
                assert!(b.len() <= b.capacity() && b.is_empty() == (b.len() == 0) && b.as_str().len() == b.len());
            }
            14 => {
                let s = render!(R(&d.val()), "<");
                b.push_str(&s);
            }
            16 => {
                let (v, w) = (d.val(), d.val());
                let t = std::thread::spawn(move || render!(R(&v)));
                let s = render!(R(&w));
                b.push_str(&t.join().unwrap());
                b.push_str(&s);
            }
            17 => {
                let (k, n) = (d.u8(), d.n());
                const MAX: usize = isize::MAX as usize;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k % 4 {
                    0 => b.reserve(usize::MAX - n),
                    1 => b.reserve(MAX + 1 + n),
                    2 => b.reserve(MAX - b.len() + 1 + n),
                    _ => drop(Buffer::with_capacity(MAX + 1 + n)),
                }));
                b.push_str(if r.is_err() { "refused" } else { "granted" });
            }
            _ => {
                let s = laby::internal::escape_str(d.str());
                b.push_str(&s);
            }
        }
    }
    b.into_string()
}

fn main() {
    std::panic::set_hook(Box::new(|p| {
        if !p.to_string().contains("capacity") {
            eprintln!("{p}")
        }
    }));
    let mut i = std::io::stdin();
    let mut o = std::io::stdout();
    let mut n = [0; 4];
    let mut buf = vec![];
    while i.read_exact(&mut n).is_ok() {
        buf.resize(u32::from_le_bytes(n) as usize, 0);
        i.read_exact(&mut buf).unwrap();
        let r = case(D(&buf));
        o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
        o.write_all(r.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
