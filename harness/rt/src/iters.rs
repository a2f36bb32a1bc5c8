//! C09: iterators against ordinary loops.
use crate::escape::{buffer_with, memory_verdict};
use crate::faults::begins;
use crate::galloc;
use crate::val::fuse;
use laby::internal::Buffer;
use laby::{iter, iter_lines, Render, RenderIterator, RenderIteratorDelimited};
use proptest::prelude::*;
use std::borrow::Cow;
use std::cell::RefCell;
use vcore::text::*;
use vcore::*;

/// What an iterator answers, call by call (afterwards: `None` for ever).
#[derive(Clone, Debug, Hash)]
pub struct Script {
    answers: Vec<Option<(u8, String)>>,
    delimiter: String,
    prefix: String,
    spare: usize,
    /// how the iterator is wrapped, what it is, and the type of its delimiter
    form: u8,
    source: u8,
    del_type: u8,
    hint: u8,
}
impl Case for Script {
    fn to_json(&self) -> Json {
        json!({"answers": self.answers, "delimiter": self.delimiter, "prefix": self.prefix, "spare": self.spare,
               "form": self.form, "source": self.source, "del_type": self.del_type, "hint": self.hint})
    }
    fn from_json(v: &Json) -> Self {
        let n = |k: &str| v[k].as_u64().unwrap();
        Script {
            answers: v["answers"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| {
                    x.as_array().map(|p| (p[0].as_u64().unwrap() as u8, p[1].as_str().unwrap().to_string()))
                })
                .collect(),
            delimiter: v["delimiter"].as_str().unwrap().into(),
            prefix: v["prefix"].as_str().unwrap().into(),
            spare: n("spare") as usize,
            form: n("form") as u8,
            source: n("source") as u8,
            del_type: n("del_type") as u8,
            hint: n("hint") as u8,
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Ev {
    IntoIter,
    Yield(usize),
    End,
    Render(usize),
    DropItem(usize),
    DropIter,
    DropDel,
}

/// A delimiter that owns something.
struct Del<'a> {
    text: String,
    log: &'a RefCell<Vec<Ev>>,
}
impl AsRef<str> for Del<'_> {
    fn as_ref(&self) -> &str {
        fuse::hit();
        &self.text
    }
}
impl Drop for Del<'_> {
    fn drop(&mut self) {
        self.log.borrow_mut().push(Ev::DropDel);
    }
}

struct Item<'a> {
    log: &'a RefCell<Vec<Ev>>,
    n: usize,
    kind: u8,
    text: &'a str,
}
impl Drop for Item<'_> {
    fn drop(&mut self) {
        self.log.borrow_mut().push(Ev::DropItem(self.n));
    }
}
impl Render for Item<'_> {
    fn render(self, b: &mut Buffer) {
        self.log.borrow_mut().push(Ev::Render(self.n));
        fuse::hit();
        match self.kind % 4 {
            0 => self.text.render(b),
            1 => Some(self.text).render(b),
            2 => (),
            _ => laby::li!(self.text).render(b),
        }
        fuse::hit();
    }
}
fn item_spec(k: u8, s: &str) -> String {
    match k % 4 {
        0 | 1 => esc(s),
        2 => String::new(),
        _ => format!("<li>{}</li>", esc(s)),
    }
}

struct Scripted<'a> {
    c: &'a Script,
    at: usize,
    log: &'a RefCell<Vec<Ev>>,
}
impl<'a> Iterator for Scripted<'a> {
    type Item = Item<'a>;
    fn next(&mut self) -> Option<Item<'a>> {
        fuse::hit();
        let a = self.c.answers.get(self.at);
        let n = self.at;
        self.at += 1;
        match a {
            Some(Some((k, t))) => {
                self.log.borrow_mut().push(Ev::Yield(n));
                Some(Item { log: self.log, n, kind: *k, text: t })
            }
            _ => {
                self.log.borrow_mut().push(Ev::End);
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.c.answers[self.at.min(self.c.answers.len())..].iter().take_while(|x| x.is_some()).count();
        match self.c.hint % 8 {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (left / 2, Some(left + 3)),
            // wrong hints are of no concern to a loop
            3 => (0, Some(0)),
            4 => (2, Some(2)),
            5 => (left + 2, Some(left + 2)),
            6 => (left.saturating_sub(1), Some(left.saturating_sub(1))),
            _ => (left + 1000, None),
        }
    }
}
impl Drop for Scripted<'_> {
    fn drop(&mut self) {
        self.log.borrow_mut().push(Ev::DropIter);
    }
}
struct Source<'a>(Option<Scripted<'a>>);
impl<'a> IntoIterator for Source<'a> {
    type Item = Item<'a>;
    type IntoIter = Scripted<'a>;
    fn into_iter(mut self) -> Scripted<'a> {
        let s = self.0.take().unwrap();
        s.log.borrow_mut().push(Ev::IntoIter);
        fuse::hit();
        s
    }
}

/// Renders `$it` in the form of the case into `$b`; `$constructed` runs between the two steps.
macro_rules! go {
    ($c:expr, $it:expr, $b:expr, $log:expr, $constructed:expr) => {{
        let d = &$c.delimiter;
        macro_rules! step {
            ($e:expr) => {{
                let r = $e;
                $constructed?;
                r.render($b);
            }};
        }
        match $c.form % 6 {
            0 => step!(iter!($it)),
            1 => step!(RenderIterator::from($it)),
            2 => step!(RenderIterator($it)),
            3 => step!(iter_lines!($it)),
            4 => match $c.del_type % 5 {
                0 => step!(iter!(d.as_str(), $it)),
                1 => step!(iter!(d.clone(), $it)),
                2 => step!(iter!(Cow::Borrowed(d.as_str()), $it)),
                3 if $c.hint % 2 == 0 => step!(RenderIteratorDelimited($it, Del { text: d.clone(), log: $log })),
                3 => step!(iter!(Del { text: d.clone(), log: $log }, $it)),
                _ => step!(iter!(d, $it)),
            },
            _ => step!(RenderIteratorDelimited($it, d.as_str())),
        }
    }};
}

fn delimiter_of(c: &Script) -> &str {
    match c.form % 6 {
        0..=2 => "",
        3 => "\n",
        _ => &c.delimiter,
    }
}

fn check(c: &Script, o: &mut Obs) -> CheckResult {
    // what a for loop visits
    let loop_items: Vec<&(u8, String)> = c.answers.iter().map_while(|x| x.as_ref()).collect();
    let want_items: Vec<String> = loop_items.iter().map(|(k, s)| item_spec(*k, s)).collect();
    let want = format!("{}{}", c.prefix, want_items.join(delimiter_of(c)));
    o.nontrivial = loop_items.len() >= 2;
    o.class_if(c.answers.iter().skip(loop_items.len()).any(|x| x.is_some()), "yields again after its end");
    o.class_if(want_items.iter().any(|s| s.is_empty()), "has an item that renders to nothing");
    o.class_if(delimiter_of(c).contains(SPECIALS), "delimiter with special characters");
    o.class_if(loop_items.is_empty(), "no items");

    let log = RefCell::new(vec![]);
    let mut b = buffer_with(&c.prefix, c.spare);
    let logged = c.source % 8 <= 3;
    let quiet = || -> CheckResult {
        if log.borrow().is_empty() {
            Ok(())
        } else {
            Err(format!("constructing the wrapper already did {:?}", log.borrow()))
        }
    };
    let inner = Scripted { c, at: 0, log: &log };
    let texts: Vec<String> = want_items.clone();
    match c.source % 8 {
        0 | 1 => go!(c, inner, &mut b, &log, quiet()),
        2 => go!(c, Source(Some(inner)), &mut b, &log, quiet()),
        3 => {
            // by reference
            let mut inner = inner;
            let r = &mut inner;
            go!(c, r, &mut b, &log, quiet())
        }
        // ordinary collections (their items are already rendered text)
        s => {
            std::mem::forget(inner);
            let raws = || texts.iter().map(|t| laby::raw!(t.as_str()));
            match s {
                4 => go!(c, raws().collect::<Vec<_>>(), &mut b, &log, Ok::<(), String>(())),
                5 => go!(c, raws(), &mut b, &log, Ok::<(), String>(())),
                6 => go!(c, raws().collect::<std::collections::VecDeque<_>>(), &mut b, &log, Ok::<(), String>(())),
                _ => {
                    let v: Vec<_> = raws().collect();
                    let boxed: Box<dyn Iterator<Item = _>> = Box::new(v.into_iter());
                    go!(c, boxed, &mut b, &log, Ok::<(), String>(()))
                }
            }
        }
    }
    same("items", b.as_str().as_bytes(), want.as_bytes())?;
    let dels = log.borrow().iter().filter(|e| **e == Ev::DropDel).count();
    let own = c.form % 6 == 4 && c.del_type % 5 == 3;
    o.class_if(own, "delimiter that owns something");
    if dels != own as usize {
        return Err(format!("delimiter dropped {dels} times"));
    }
    if logged {
        let log = log.borrow();
        // every item once, in order, rendered before many more are fetched
        let rendered: Vec<usize> = log.iter().filter_map(|e| if let Ev::Render(n) = e { Some(*n) } else { None }).collect();
        if rendered != (0..loop_items.len()).collect::<Vec<_>>() {
            return Err(format!("items rendered: {rendered:?}, expected 0..{}", loop_items.len()));
        }
        let mut open = 0i64;
        for e in log.iter() {
            match e {
                Ev::Yield(_) => open += 1,
                Ev::Render(_) => open -= 1,
                _ => {}
            }
            if open > 2 {
                return Err(format!("items are collected before they are rendered: {:?}", &log[..log.len().min(20)]));
            }
        }
        let dropped = log.iter().filter(|e| matches!(e, Ev::DropIter)).count();
        if dropped != 1 && c.source % 8 != 3 {
            return Err(format!("iterator dropped {dropped} times"));
        }
        for n in 0..loop_items.len() {
            let k = log.iter().filter(|e| **e == Ev::DropItem(n)).count();
            if k != 1 {
                return Err(format!("item {n} dropped {k} times"));
            }
        }
    }
    Ok(())
}

/// A panic in the caller's iterator, items or delimiter.
#[derive(Clone, Debug, Hash)]
struct Burst {
    script: Script,
    at: u64,
}
impl Case for Burst {
    fn to_json(&self) -> Json {
        json!({"script": self.script.to_json(), "at": self.at})
    }
    fn from_json(v: &Json) -> Self {
        Burst { script: Script::from_json(&v["script"]), at: v["at"].as_u64().unwrap() }
    }
}
/// An item and an iterator that own memory.
struct Heavy<'a>(Scripted<'a>, #[allow(dead_code)] String);
impl<'a> Iterator for Heavy<'a> {
    type Item = (Item<'a>, String);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|i| (i, "held".to_string()))
    }
}
struct Pair<'a>((Item<'a>, String));
impl Render for Pair<'_> {
    fn render(self, b: &mut Buffer) {
        let (i, _s) = self.0;
        i.render(b)
    }
}

fn burst(c: &Script, at: u64, before: &str, want: &str) -> Result<u64, String> {
    let log = RefCell::new(Vec::with_capacity(16));
    let mut b = buffer_with(before, c.spare);
    fuse::set(at, false);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> CheckResult {
        let inner = Scripted { c, at: 0, log: &log };
        match c.source % 4 {
            0 => go!(c, inner, &mut b, &log, Ok::<(), String>(())),
            1 => go!(c, Heavy(inner, "held".to_string()).map(Pair), &mut b, &log, Ok::<(), String>(())),
            2 => go!(c, Source(Some(inner)), &mut b, &log, Ok::<(), String>(())),
            _ => {
                let mut inner = inner;
                let r = &mut inner;
                go!(c, r, &mut b, &log, Ok::<(), String>(()))
            }
        }
        Ok(())
    }));
    let left = fuse::left();
    fuse::set(0, false);
    if r.is_err() != (left == 0) {
        return Err(if left == 0 { "the panic did not come out of the rendering" } else { "rendering panicked of itself" }.into());
    }
    begins(b.as_str().as_bytes(), before, want)?;
    if left != 0 {
        same("items", b.as_str().as_bytes(), format!("{before}{want}").as_bytes())?;
    }
    let held = b.as_str().len();
    laby::li!("<").render(&mut b);
    same("rendering after the panic", &b.as_str().as_bytes()[held..], b"<li>&lt;</li>")?;
    let count = |e: &Ev| log.borrow().iter().filter(|x| *x == e).count();
    let own = c.form % 6 == 4 && c.del_type % 5 == 3;
    if count(&Ev::DropDel) != own as usize {
        return Err(format!("delimiter dropped {} times", count(&Ev::DropDel)));
    }
    if count(&Ev::DropIter) != 1 {
        return Err(format!("iterator dropped {} times", count(&Ev::DropIter)));
    }
    for n in 0..c.answers.len() {
        let (y, d) = (count(&Ev::Yield(n)), count(&Ev::DropItem(n)));
        if y != d {
            return Err(format!("item {n} yielded {y} times and dropped {d} times"));
        }
    }
    Ok(left)
}

fn check_burst(c: &Burst, o: &mut Obs) -> CheckResult {
    let s = &c.script;
    let items: Vec<String> = s.answers.iter().map_while(|x| x.as_ref()).map(|(k, t)| item_spec(*k, t)).collect();
    let want = items.join(delimiter_of(s));
    let n = u64::MAX - burst(s, u64::MAX, &s.prefix, &want)?;
    let at = 1 + c.at % n.max(1);
    o.nontrivial = n > 4;
    o.class_if(s.form % 6 == 4 && s.del_type % 5 == 3, "delimiter that owns something");
    let before = galloc::live();
    let r = galloc::guarded(|| burst(s, at, &s.prefix, &want).map(|_| ()));
    fuse::set(0, false);
    memory_verdict(before, r)
}

pub fn faults(env: &Env) -> Box<dyn DynStream> {
    let c = (script(), any::<u64>()).prop_map(|(script, at)| Burst { script, at }).boxed();
    stream("panics in iterators, items and delimiters", env.n(30_000, 1_000_000), c, check_burst)
}

/// A node that is built and thrown away consumes nothing.
fn check_discard(c: &Script, o: &mut Obs) -> CheckResult {
    o.nontrivial = !c.answers.is_empty();
    let log = RefCell::new(vec![]);
    {
        let i = || Scripted { c, at: 0, log: &log };
        let _a = iter!(i());
        let _b = iter!(c.delimiter.as_str(), i());
        let _c = iter_lines!(Source(Some(i())));
        let _d = laby::ul!(iter!(i()));
        if !log.borrow().is_empty() {
            return Err(format!("constructing the wrapper already did {:?}", log.borrow()));
        }
    }
    if *log.borrow() != vec![Ev::DropIter; 4] {
        return Err(format!("discarding four wrappers did {:?}", log.borrow()));
    }
    Ok(())
}

fn script() -> BoxedStrategy<Script> {
    let ans = || (0u8..4, any_text(40));
    let answers = prop_oneof![
        4 => prop::collection::vec(ans().prop_map(Some), 0..12),
        3 => prop::collection::vec(prop::option::weighted(0.8, ans()), 0..12),
        1 => prop::collection::vec(ans().prop_map(Some), 0..80),
    ];
    let del = prop_oneof![2 => prop::sample::select(vec!["", ", ", "\n", "<hr>", "&", " "]).prop_map(String::from), 2 => any_text(30)];
    (answers, del, text(12), spare(), 0u8..6, 0u8..8, 0u8..5, 0u8..8)
        .prop_map(|(answers, delimiter, prefix, spare, form, source, del_type, hint)| Script {
            answers,
            delimiter,
            prefix,
            spare,
            form,
            source,
            del_type,
            hint,
        })
        .boxed()
}
fn spare() -> BoxedStrategy<usize> {
    crate::escape::spare()
}

pub fn c09(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream("scripted iterators", env.n(150_000, 6_000_000), script(), check),
        stream("discarded wrappers", env.n(10_000, 200_000), script(), check_discard),
    ]
}
