//! C29: faults in the caller's code while it is rendered.
use crate::escape::{buffer_with, memory_verdict, spare};
use crate::galloc;
use crate::val::*;
use laby::internal::Buffer;
use laby::{render, Render};
use proptest::prelude::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::text::*;
use vcore::*;

#[derive(Clone, Debug, Hash)]
struct Fault {
    val: Val,
    prefix: String,
    spare: usize,
    /// Which of the places, and whether formatting fails there instead of panicking.
    at: u64,
    fails: bool,
}
impl Case for Fault {
    fn to_json(&self) -> Json {
        json!({"value": self.val.to_json(), "prefix": self.prefix, "spare": self.spare, "at": self.at, "fails": self.fails})
    }
    fn from_json(v: &Json) -> Self {
        Fault {
            val: Val::from_json(&v["value"]),
            prefix: v["prefix"].as_str().unwrap().into(),
            spare: v["spare"].as_u64().unwrap() as usize,
            at: v["at"].as_u64().unwrap(),
            fails: v["fails"] == true,
        }
    }
}

/// The text before, then some beginning of the rendering.
pub fn begins(got: &[u8], before: &str, want: &str) -> CheckResult {
    let ok = got.strip_prefix(before.as_bytes()).is_some_and(|r| want.as_bytes().starts_with(r) && want.is_char_boundary(r.len()));
    if ok {
        Ok(())
    } else {
        Err(format!(
            "after the fault the buffer holds {}, which is not {} followed by a beginning of {}",
            show(got),
            show(before.as_bytes()),
            show(want.as_bytes())
        ))
    }
}

/// How many places of the caller's code rendering comes by.
fn places(v: &Val) -> u64 {
    let n = u64::MAX;
    fuse::set(n, false);
    let mut b = Buffer::new();
    R(v).render(&mut b);
    let k = n - fuse::left();
    fuse::set(0, false);
    k
}

fn run(c: &Fault, at: u64, want: &str) -> CheckResult {
    let mut b = buffer_with(&c.prefix, c.spare);
    fuse::set(at, c.fails);
    let r = catch_unwind(AssertUnwindSafe(|| R(&c.val).render(&mut b)));
    let left = fuse::left();
    fuse::set(0, false);
    if left == 0 && r.is_ok() {
        return Err("the fault did not come out of the rendering".into());
    }
    if left != 0 && r.is_err() {
        return Err("rendering panicked of itself".into());
    }
    drop(r);
    if b.len() > b.capacity() {
        return Err(format!("length {} beyond capacity {}", b.len(), b.capacity()));
    }
    begins(b.as_str().as_bytes(), &c.prefix, want)?;
    // all goes on
    let held = b.as_str().to_string();
    R(&c.val).render(&mut b);
    same("rendering into the same buffer after the fault", b.as_str().as_bytes(), format!("{held}{want}").as_bytes())?;
    // formatting into the buffer itself
    if let Val::Fmt(p) | Val::Disp(p) = &c.val {
        let plain = Pieces(p).to_string();
        fuse::set(1 + c.at % (p.len() as u64 + 1), c.fails);
        let r = catch_unwind(AssertUnwindSafe(|| write!(b, "{}", Pieces(p))));
        let left = fuse::left();
        fuse::set(0, false);
        let as_it_should = match (left, c.fails) {
            (0, true) => matches!(r, Ok(Err(_))),
            (0, false) => r.is_err(),
            _ => matches!(r, Ok(Ok(()))),
        };
        if !as_it_should {
            return Err(format!("formatting into the buffer ended with {r:?}"));
        }
        drop(r);
        begins(b.as_str().as_bytes(), &format!("{held}{want}"), &plain)?;
        b += "<";
        same("the buffer's end", &b.as_str().as_bytes()[b.len() - 1..], b"<")?;
    }
    drop(b);
    // the same while a string is made
    fuse::set(at, c.fails);
    let r = catch_unwind(AssertUnwindSafe(|| render!(R(&c.val), 1)));
    fuse::set(0, false);
    if r.is_ok() {
        return Err("the fault did not come out of rendering to a string".into());
    }
    drop(r);
    same("rendering to a string after the fault", render!(R(&c.val)).as_bytes(), want.as_bytes())
}

fn check(c: &Fault, o: &mut Obs) -> CheckResult {
    let n = places(&c.val);
    let at = 1 + c.at % n.max(1);
    o.nontrivial = n > 2;
    o.class_if(c.fails, "formatting that fails");
    o.class_if(!c.fails, "panics");
    o.class_if(at > 1 && at < n, "in the middle");
    let want = spec(&c.val);
    let before = galloc::live();
    let r = galloc::guarded(|| run(c, at, &want));
    fuse::set(0, false);
    memory_verdict(before, r)
}

pub fn c29(env: &Env) -> Vec<Box<dyn DynStream>> {
    let texts = || {
        prop_oneof![
            3 => pieces(60).prop_map(Val::Fmt),
            3 => pieces(60).prop_map(Val::Disp),
            1 => (any_text(60), 0u8..3).prop_map(|(s, k)| Val::Raw(s, k)),
        ]
    };
    let fault = |v: BoxedStrategy<Val>| {
        (v, text(20), spare(), any::<u64>(), any::<bool>())
            .prop_map(|(val, prefix, spare, at, fails)| Fault { val, prefix, spare, at, fails })
            .boxed()
    };
    let lists = |t: BoxedStrategy<Val>| {
        prop_oneof![
            2 => prop::collection::vec(t.clone(), 0..6).prop_map(Val::Iter),
            2 => (any_text(20), prop::collection::vec(t.clone(), 0..6)).prop_map(|(d, v)| Val::IterDel(d, v)),
            2 => (0u8..SHAPES, prop::collection::vec(t.clone(), 2..5)).prop_map(|(k, v)| Val::Tpl(k, v)),
            1 => (0u8..NESTS, t).prop_map(|(k, v)| Val::Nested(k, Box::new(v))),
        ]
    };
    vec![
        stream("faults in values of all kinds", env.n(20_000, 1_000_000), fault(val(40)), check),
        stream("faults in formatting", env.n(15_000, 600_000), fault(texts().boxed()), check),
        stream("faults in formatting within others", env.n(15_000, 600_000), fault(lists(texts().boxed()).boxed()), check),
        crate::iters::faults(env),
    ]
}
