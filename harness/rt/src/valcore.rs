//! Values of all built-in renderable types, rendered through these types.
use crate::spec_of as spec;
use laby::internal::Buffer;
use laby::*;
use std::borrow::Cow;
use std::fmt;
use std::num::*;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    Char(char),
    Str(String),
    Owned(String, u8),
    /// integer kind (0..=11; 12..=23 the non-zero types), value modulo the type
    Int(u8, u128),
    F32(u32),
    F64(u64),
    None,
    Some(Box<Val>),
    CowB(String),
    CowO(String),
    /// formatted arguments: text pieces written in one of several ways
    Fmt(Vec<(u8, String)>),
    Disp(Vec<(u8, String)>),
    Raw(String, u8),
    Iter(Vec<Val>),
    IterDel(String, Vec<Val>),
    IterLines(Vec<Val>),
    Doc,
    /// a template shape with the values in it
    Tpl(u8, Vec<Val>),
    /// a value of the caller that renders others by itself while it is rendered
    Nested(u8, Box<Val>),
}
use Val::*;

pub const INT_KINDS: u8 = 24;
pub const SHAPES: u8 = 8;
pub const NESTS: u8 = 7;

/// A fuse of faults: at which of the places in the caller's code there is one, and of which kind.
pub mod fuse {
    use std::cell::Cell;
    thread_local! {
        static LEFT: Cell<u64> = const { Cell::new(0) };
        static FAILS: Cell<bool> = const { Cell::new(false) };
    }
    /// The `at`-th place (from one; none for zero) panics; where text is formatted, it `fails` instead.
    pub fn set(at: u64, fails: bool) {
        LEFT.set(at);
        FAILS.set(fails);
    }
    pub fn left() -> u64 {
        LEFT.get()
    }
    fn burnt() -> bool {
        let n = LEFT.get();
        LEFT.set(n.saturating_sub(1));
        n == 1
    }
    pub fn hit() {
        if LEFT.get() != 0 && burnt() {
            std::panic::resume_unwind(Box::new(()))
        }
    }
    pub fn fmt() -> std::fmt::Result {
        if LEFT.get() != 0 && burnt() {
            if FAILS.get() {
                return Err(std::fmt::Error);
            }
            std::panic::resume_unwind(Box::new(()))
        }
        Ok(())
    }
}

/// Text of a type of the caller.
pub struct Txt<S>(pub S);
impl<S: AsRef<str>> AsRef<str> for Txt<S> {
    fn as_ref(&self) -> &str {
        fuse::hit();
        self.0.as_ref()
    }
}

/// Formats as the rendering of another value, between two marks.
pub struct Rendered<'a>(pub &'a Val, pub bool);
impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<")?;
        fuse::fmt()?;
        if self.1 {
            f.write_str(&render!(R(self.0)))?;
        } else {
            let mut b = Buffer::new();
            R(self.0).render(&mut b);
            f.write_str(b.as_str())?;
        }
        f.write_str(">")
    }
}

/// Writes its pieces in various ways.
#[derive(Clone, Copy)]
pub struct Pieces<'a>(pub &'a [(u8, String)]);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (k, s) in self.0 {
            fuse::fmt()?;
            match k % 5 {
                0 => f.write_str(s)?,
                1 => {
                    for c in s.chars() {
                        fmt::Write::write_char(f, c)?
                    }
                }
                2 => f.write_fmt(format_args!("<{s}>"))?,
                3 => write!(f, "{s:>6}{:03}{s:?}", s.len())?,
                _ => {
                    let mut m = s.len() / 2;
                    while !s.is_char_boundary(m) {
                        m -= 1;
                    }
                    f.write_str(&s[..m])?;
                    f.write_str(&s[m..])?;
                }
            }
        }
        Ok(())
    }
}

/// The same, owning them.
#[derive(Clone)]
pub struct Held(pub Vec<(u8, String)>);
impl fmt::Display for Held {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Pieces(&self.0).fmt(f)
    }
}

fn spare_of(extra: u8) -> usize {
    match extra {
        0..=239 => extra as usize,
        _ => (extra as usize - 239) * 1024,
    }
}

/// Whether values that own memory are made of those that do not.
pub static OWNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn owning() -> bool {
    OWNING.load(std::sync::atomic::Ordering::Relaxed)
}

/// A value rendered through its real type.
#[derive(Clone, Copy)]
pub struct R<'a>(pub &'a Val);

#[macro_export]
macro_rules! ints {
    ($k:expr, $v:expr, $f:ident) => {
        match $k {
            0 => $f!($v as u8),
            1 => $f!($v as u16),
            2 => $f!($v as u32),
            3 => $f!($v as u64),
            4 => $f!($v as u128),
            5 => $f!($v as usize),
            6 => $f!($v as i8),
            7 => $f!($v as i16),
            8 => $f!($v as i32),
            9 => $f!($v as i64),
            10 => $f!($v as i128),
            11 => $f!($v as isize),
            12 => $f!(NonZeroU8::new($v as u8).unwrap_or(NonZeroU8::MIN)),
            13 => $f!(NonZeroU16::new($v as u16).unwrap_or(NonZeroU16::MIN)),
            14 => $f!(NonZeroU32::new($v as u32).unwrap_or(NonZeroU32::MIN)),
            15 => $f!(NonZeroU64::new($v as u64).unwrap_or(NonZeroU64::MIN)),
            16 => $f!(NonZeroU128::new($v as u128).unwrap_or(NonZeroU128::MIN)),
            17 => $f!(NonZeroUsize::new($v as usize).unwrap_or(NonZeroUsize::MIN)),
            18 => $f!(NonZeroI8::new($v as i8).unwrap_or(NonZeroI8::MIN)),
            19 => $f!(NonZeroI16::new($v as i16).unwrap_or(NonZeroI16::MIN)),
            20 => $f!(NonZeroI32::new($v as i32).unwrap_or(NonZeroI32::MIN)),
            21 => $f!(NonZeroI64::new($v as i64).unwrap_or(NonZeroI64::MIN)),
            22 => $f!(NonZeroI128::new($v as i128).unwrap_or(NonZeroI128::MIN)),
            _ => $f!(NonZeroIsize::new($v as isize).unwrap_or(NonZeroIsize::MIN)),
        }
    };
}

const UNIT: Val = Unit;

#[laby]
#[allow(non_snake_case)]
fn Card<'a>(
    #[default] title: Option<R<'a>>,
    #[default(7)] n: i32,
    #[rest] children: impl Render + 'a,
) -> impl Render + 'a {
    article!(class = classes!("card", title.is_some(), n), h2!(title), children)
}

impl Render for R<'_> {
    fn render(self, b: &mut Buffer) {
        fuse::hit();
        self.inner(b);
        fuse::hit();
    }
}
impl R<'_> {
    fn inner(self, b: &mut Buffer) {
        match self.0 {
            Unit => ().render(b),
            Bool(x) => x.render(b),
            Char(c) => c.render(b),
            Str(s) => s.as_str().render(b),
            Owned(s, extra) => {
                let mut t = String::with_capacity(s.len() + spare_of(*extra));
                t.push_str(s);
                t.render(b)
            }
            Int(k, v) => {
                macro_rules! go {
                    ($e:expr) => {
                        ($e).render(b)
                    };
                }
                ints!(*k, *v, go)
            }
            F32(x) => f32::from_bits(*x).render(b),
            F64(x) => f64::from_bits(*x).render(b),
            None => Option::<R>::None.render(b),
            // also around what owns memory
            Some(v) => match &**v {
                Owned(s, n) if n % 2 == 0 => Option::Some(s.clone()).render(b),
                CowO(s) if s.len() % 2 == 0 => Option::Some(Cow::<'_, str>::Owned(s.clone())).render(b),
                Raw(s, 1) => Option::Some(raw!(s.clone())).render(b),
                _ => Option::Some(R(v)).render(b),
            },
            // by path: a method call would find the text inside
            CowB(s) => Render::render(Cow::<'_, str>::Borrowed(s.as_str()), b),
            CowO(s) => Render::render(Cow::<'_, str>::Owned(s.clone()), b),
            Fmt(p) => match p.len() % 4 {
                0 => format_args!("{}", Pieces(p)).render(b),
                1 => format_args!("<{}>&", Pieces(p)).render(b),
                2 => format_args!("{}'{}\"", Pieces(&p[..1]), Pieces(&p[1..])).render(b),
                _ => format_args!("a < b & \"c\"").render(b),
            },
            #[allow(deprecated)]
            Disp(p) => match p.len() % 5 {
                _ if !owning() => disp!(Pieces(p)).render(b),
                3 => RenderDisplay::from(Held(p.clone())).clone().render(b),
                4 => {
                    let d = RenderDisplay(Pieces(p));
                    let c = d.clone();
                    drop(d);
                    c.render(b)
                }
                0 => disp!(Pieces(p)).render(b),
                1 => disp!(Pieces(p).to_string()).render(b),
                _ => disp!(Held(p.clone())).render(b),
            },
            Raw(s, k) => match k % 5 {
                3 => RenderRaw::from(s.as_str()).clone().render(b),
                4 if owning() => {
                    let r = RenderRaw(s.clone());
                    let c = r.clone();
                    drop(r);
                    c.render(b)
                }
                0 => raw!(s.as_str()).render(b),
                1 => raw!(s.clone()).render(b),
                2 if owning() && s.len() % 2 == 0 => raw!(Txt(s.clone())).render(b),
                _ => raw!(Cow::Borrowed(s.as_str())).render(b),
            },
            Iter(v) if v.len() == 4 && owning() => iter!(v.iter().map(spec).map(|s| raw!(s)).collect::<Vec<_>>()).render(b),
            Iter(v) => iter!(v.iter().map(R)).render(b),
            IterDel(d, v) => match d.len() % 4 {
                _ if !owning() => iter!(d.as_str(), v.iter().map(R)).render(b),
                0 if d.len() % 8 == 0 => iter!(Txt(d.clone()), v.iter().map(R)).render(b),
                0 => iter!(d.clone(), v.iter().map(R)).render(b),
                1 => iter!(Cow::<'_, str>::Owned(d.clone()), v.iter().map(R).collect::<Vec<_>>()).render(b),
                2 => iter!(d, v.iter().map(R)).render(b),
                _ => iter!(d.as_str(), v.iter().map(R)).render(b),
            },
            IterLines(v) => iter_lines!(v.iter().map(R)).render(b),
            Doc => DocType::HTML5.render(b),
            #[allow(deprecated)]
            Nested(k, v) => match k % NESTS {
                0 => disp!(Rendered(v, true)).render(b),
                1 => format_args!("a{}b{}", Rendered(v, false), Rendered(&UNIT, true)).render(b),
                2 => {
                    let s = render!(R(v));
                    raw!(s).render(b)
                }
                3 => iter!((0..2).map(|_| raw!(render!(R(v))))).render(b),
                4 => iter!(", ", (0..3).map(|i| (i != 1).then(|| render!(R(v), "<", i)))).render(b),
                5 => {
                    let mut other = Buffer::from("other");
                    R(v).render(&mut other);
                    li!(raw!(&other.into_string()[5..]), class = disp!(Rendered(v, false))).render(b)
                }
                _ => {
                    // of one template, in the middle of another
                    b.push_str("<i>");
                    let s = render!(p!(R(v)), R(v));
                    R(v).render(b);
                    b.push_str(&s);
                    b.push_str("</i>")
                }
            },
            Tpl(k, v) => {
                let g = |i: usize| R(v.get(i).unwrap_or(&UNIT));
                match k % SHAPES {
                    0 => div!(g(0), class = g(1), "mid < & text", p!(g(2), img!(src = g(3)))).render(b),
                    1 => frag!(g(0), br!(), g(1), b!("x")).render(b),
                    2 => input!("type" = "checkbox", checked = bool!(v.len() > 1), value = g(0), disabled = bool!(true)).render(b),
                    3 => ul!(class = classes!("a", g(0), (), g(1)), iter!(v.iter().map(|x| li!(R(x))))).render(b),
                    4 => frag_match!(match v.len() {
                        0 => p!("none"),
                        1 => span!(g(0)),
                        _ => frag!(g(0), g(1)),
                    })
                    .render(b),
                    5 => Card!(title = Option::Some(g(0)), g(1), em!(g(2))).render(b),
                    6 => table!(tr!(td!(g(0)), td!(g(1))), tr!(td!(1, 'c', true, 2.5, "<")), hidden = bool!(v.is_empty())).render(b),
                    _ => html!(head!(title!(g(0))), body!(pre!(g(1)), hr!(), a!(href = g(2), g(3)))).render(b),
                }
            }
        }
    }
}

