//! C20: templates allocate nothing. C21: they only append. C27: they hold their values.
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::vals::{vals, Texts, Vals};
use proptest::prelude::*;
use proptest::sample::select;
use vcore::driver::{Env as RunEnv, Obs};

#[derive(Clone, Debug)]
pub struct Case {
    ex: Ex,
    vals: Vec<Vals>,
    how: u8,
    prefix: String,
}

fn prefix() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        3 => select(vec!["<", "x", "pre&fix", "é", "\"'", "0123456789abcdef"]).prop_map(String::from),
        1 => (1usize..5000).prop_map(|n| "ab<".repeat(n / 3 + 1)),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let mut wraps = Cfg::default().wraps;
    wraps.retain(|w| *w != W::IterOne);
    // an array by value in an iterator is fine, too, but moves what is hoisted
    wraps.push(W::IterOne);
    let cfg = Cfg { wraps, ..Cfg::default() };
    let large = prop::option::weighted(0.3, (any::<u8>(), vcore::text::long_few(120_000)));
    (gen::root(&cfg), prop::collection::vec(vals(Texts::Mixed), 4), any::<u8>(), prefix(), large)
        .prop_map(|(ex, mut vals, how, prefix, large)| {
            if let Some((k, t)) = large {
                let v = &mut vals[0];
                let n = v.o.len();
                v.o[k as usize % n] = Some(t.clone());
                v.s.rotate_left(k as usize % 6);
                v.s[..3].fill(t);
                v.s.rotate_right(k as usize % 6);
            }
            Case { ex, vals, how, prefix }
        })
        .boxed()
}

fn build(c: &Case, obs: &mut Obs) -> Job {
    let render_direct = c.how % 2 == 1;
    let mut em = Em::new();
    em.temps = render_direct;
    em.pre = Some(vec![]);
    let e = em.ex(&c.ex);
    let st = em.take_stmts();
    let pre = em.pre.take().unwrap().join("\n");
    let mut n = 0;
    c.ex.count(&mut |e| {
        n += matches!(e, Ex::El { .. }) as u64;
        match e {
            Ex::Wrap(..) => obs.class("wrapped nodes"),
            Ex::IterMap { .. } => obs.class("nodes in iterators"),
            Ex::If { .. } | Ex::Match { .. } => obs.class("wrapped branches"),
            Ex::Comp { .. } => obs.class("components"),
            _ => {}
        }
        0
    });
    obs.class_if(!pre.is_empty(), "with values that own memory");
    obs.count("elements", n);
    obs.nontrivial = n >= 2;
    let prefix = format!("{:?}", c.prefix);
    let first = if render_direct {
        format!("let a1 = h::allocs() - a0;\nlet a0 = h::allocs();\nlaby::Render::render({e}, &mut b);\nlet a2 = h::allocs() - a0;")
    } else {
        format!("let node = {e};\nlet a1 = h::allocs() - a0;\nlet a0 = h::allocs();\nlaby::Render::render(node, &mut b);\nlet a2 = h::allocs() - a0;")
    };
    let run = format!(
        "{{\nlet mut b = laby::internal::Buffer::with_capacity({} + want * 6 + 4096);\nb.push_str({prefix});\nlet p = b.as_str().as_ptr();\n{pre}\nlet a0 = h::allocs();\n{st}\n{first}\n\
         let same = p == b.as_str().as_ptr();\nout.push(b.as_str());\nout.push(format!(\"{{}} at construction, {{}} at rendering, {{}}\", a1, a2, same));\n}}\n",
        c.prefix.len()
    );
    // to a string
    let mut em2 = Em::new();
    em2.pre = Some(vec![]);
    em2.n = em.n + 1000;
    let e = em2.ex(&c.ex);
    let st = em2.take_stmts();
    let pre = em2.pre.take().unwrap().join("\n");
    let run2 = format!(
        "{{\n{pre}\nlet a0 = h::allocs();\n{st}\nlet s = laby::render!({e});\nlet a = h::allocs() - a0;\nout.push(h::beyond(a, s.len()));\nout.push(s);\n}}\n"
    );
    let mut exps = vec![];
    let mut wants = vec![];
    for v in &c.vals {
        let mut env = Env::new(v);
        env.temps = render_direct;
        let t = env.text(&c.ex).unwrap();
        let mut env = Env::new(v);
        let t2 = env.text(&c.ex).unwrap();
        wants.push(t.len());
        exps.push(vec![
            Exp::Eq(format!("{}{t}", c.prefix)),
            Exp::Eq("0 at construction, 0 at rendering, true".into()),
            Exp::Eq("none".into()),
            Exp::Eq(t2),
        ]);
    }
    let want = wants.iter().max().unwrap();
    let mut items = em.items;
    // the same functions and components, under the names of the second
    let mut second = em2.items;
    for name in ["card", "wrapper", "pair", "flagged"] {
        let t = format!("fn {name}(");
        if let (true, Some(p)) = (items.contains(&t), second.find(&t)) {
            // already there
            let from = second[..p].rfind("#[").unwrap();
            let to = p + second[p..].find('\n').unwrap();
            second.replace_range(from..=to, "");
        }
    }
    items.push_str(&second);
    Job {
        ctx: Ctx { count: true, ..CTX },
        items,
        body: format!("let want: usize = {want};\n{run}{run2}"),
        exps,
        vals: c.vals.clone(),
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

pub fn c20(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![prog("templates", env.n(700, 12000), 20, |_| case(), build)]
}

// ---- C21 ----

#[derive(Clone, Debug)]
pub struct Seq {
    exs: Vec<Ex>,
    order: Vec<u8>,
    bufs: Vec<(String, u32)>,
    threads: bool,
    vals: Vec<Vals>,
}

fn seq() -> BoxedStrategy<Seq> {
    let cfg = Cfg { depth: 2, items: 5, ..Cfg::default() };
    let ex = prop_oneof![6 => gen::root(&cfg), 1 => gen::atom(&Cfg { leaf_kinds: (0..LEAVES).filter(|k| *k != 44 && *k != CELL).collect(), ..cfg })];
    let cap = prop_oneof![2 => Just(0u32), 3 => 0u32..200, 1 => 200u32..20000];
    (
        prop::collection::vec(ex, 1..4),
        prop::collection::vec(any::<u8>(), 1..6),
        prop::collection::vec((prefix(), cap), 3),
        any::<bool>(),
        prop::collection::vec(vals(Texts::Mixed), 3),
    )
        .prop_map(|(exs, order, bufs, threads, vals)| Seq { exs, order, bufs, threads, vals })
        .boxed()
}

fn build_seq(c: &Seq, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    em.temps = false;
    let n = c.exs.len();
    let mut body = String::new();
    // each template, as a closure rendering into a buffer
    for (i, e) in c.exs.iter().enumerate() {
        let t = em.ex(e);
        let st = em.take_stmts();
        body.push_str(&format!("let t{i} = |b: &mut laby::internal::Buffer| {{\n{st}\nlaby::Render::render({t}, b)\n}};\n"));
    }
    let mut alone: Vec<Vec<String>> = vec![];
    for v in &c.vals {
        alone.push(
            c.exs
                .iter()
                .map(|e| {
                    let mut env = Env::new(v);
                    env.temps = false;
                    env.text(e).unwrap()
                })
                .collect(),
        );
    }
    let mut exps: Vec<Vec<Exp>> = vec![vec![]; c.vals.len()];
    let order: Vec<usize> = c.order.iter().map(|o| *o as usize % n).collect();
    for (p, cap) in &c.bufs {
        body.push_str(&format!("{{\nlet mut b = laby::internal::Buffer::with_capacity({cap});\nb.push_str({p:?});\n"));
        for i in &order {
            body.push_str(&format!("t{i}(&mut b);\n"));
        }
        body.push_str("out.push(b.into_string());\n}\n");
        for (vi, a) in alone.iter().enumerate() {
            let mut t = p.clone();
            order.iter().for_each(|i| t.push_str(&a[*i]));
            exps[vi].push(Exp::Eq(t));
        }
    }
    // all at once, with one macro
    let list: Vec<String> = c
        .exs
        .iter()
        .map(|e| {
            let t = em.ex(e);
            let st = em.take_stmts();
            if st.is_empty() {
                t
            } else {
                format!("{{ {st} {t} }}")
            }
        })
        .collect();
    body.push_str(&format!("out.push(laby::render!({}));\n", list.join(", ")));
    for (vi, a) in alone.iter().enumerate() {
        exps[vi].push(Exp::Eq(a.concat()));
    }
    if c.threads {
        obs.class("rendered by several threads at once");
        body.push_str(&format!(
            "let ts: [&(dyn Fn(&mut laby::internal::Buffer) + Sync); {n}] = [{}];\n\
             let rs: Vec<String> = std::thread::scope(|s| {{\nlet hs: Vec<_> = (0..4usize).map(|k| {{ let ts = &ts; s.spawn(move || {{ let mut r = h::text(\"\"); for j in 0..6 {{ let mut b = laby::internal::Buffer::new(); ts[(j + k) % {n}](&mut b); if j < {n} {{ r = r + b.as_str() }} else {{ assert!(r.contains(b.as_str())) }} }} r }}) }}).collect();\n\
             hs.into_iter().map(|h| h.join().unwrap()).collect() }});\nfor r in rs {{ out.push(r) }}\n",
            (0..n).map(|i| format!("&t{i}")).collect::<Vec<_>>().join(", ")
        ));
        for (vi, a) in alone.iter().enumerate() {
            for k in 0..4 {
                let t: String = (0..n).map(|j| a[(j + k) % n].clone()).collect();
                exps[vi].push(Exp::Eq(t));
            }
        }
    }
    obs.nontrivial = order.len() >= 2;
    obs.count("values rendered one after another", order.len() as u64);
    Job { ctx: CTX, items: em.items, body, exps, vals: c.vals.clone(), uses: USES, alt: None, lib: String::new() }
}

pub fn c21(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![prog("templates in sequence", env.n(450, 8000), 20, |_| seq(), build_seq)]
}

// ---- C27 ----

const SZ: &str = "pub mod sz {
    pub struct B<const N: usize>(pub [u8; N]);
    impl<const N: usize> laby::Render for B<N> { fn render(self, b: &mut laby::internal::Buffer) { b.push_str(\"*\") } }
    impl<const N: usize> B<N> { pub fn same(self) -> Self { self } }
    pub fn b<const N: usize>() -> B<N> { B([1; N]) }
    pub struct L<const N: usize>(pub [u8; N], pub ::core::marker::PhantomData<*const ()>);
    impl<const N: usize> laby::Render for L<N> { fn render(self, b: &mut laby::internal::Buffer) { b.push_str(\"*\") } }
    pub struct P<'a, T>(pub &'a T);
    impl<'a, T: Send> P<'a, T> { pub fn send(&self) -> bool { true } }
    impl<'a, T: Sync> P<'a, T> { pub fn sync(&self) -> bool { true } }
    impl<'a, T: Unpin + ::std::panic::UnwindSafe + ::std::panic::RefUnwindSafe> P<'a, T> { pub fn rest(&self) -> bool { true } }
    pub trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } fn rest(&self) -> bool { false } }
    impl<'a, T> No for P<'a, T> {}
}
";

fn sized() -> BoxedStrategy<Case> {
    let wraps = Cfg::default().wraps;
    let cfg = Cfg { wraps, iter_map: false, comps: false, ..Cfg::default() };
    let few = Cfg { wraps: vec![W::Paren, W::Block], depth: 4, items: 9, iter_map: false, comps: false, matches: false, dyn_names: false, leaf_kinds: vec![0], ..Cfg::default() };
    (prop_oneof![3 => gen::root(&cfg), 1 => gen::root(&few)], prop::collection::vec(vals(Texts::Mixed), 1), any::<u8>())
        .prop_map(|(ex, vals, how)| Case { ex, vals, how, prefix: String::new() })
        .boxed()
}

fn build_sized(c: &Case, obs: &mut Obs) -> Job {
    let mut em = Em::new();
    em.temps = false;
    em.blobs = Some(0);
    let e = em.ex(&c.ex);
    let st = em.take_stmts();
    let most = em.blobs.unwrap();
    let mut n = 0;
    c.ex.count(&mut |e| {
        n += matches!(e, Ex::El { .. }) as u64;
        match e {
            Ex::Wrap(..) => obs.class("wrapped nodes"),
            Ex::If { .. } | Ex::Match { .. } => obs.class("wrapped branches"),
            _ => {}
        }
        0
    });
    obs.class_if(most == 0, "with nothing to store");
    obs.count("elements", n);
    obs.nontrivial = n >= 2;
    let stays = em.stays;
    obs.class_if(stays, "with values that stay on their thread");
    let check = format!("let n = ::core::mem::size_of_val(&node);\nlet a = ::core::mem::align_of_val(&node);
let (m, f) = {{ use sz::No as _; let p = sz::P(&node); ((p.send(), p.sync(), p.rest()), ({0}, {0}, true)) }};\n", !stays);
    let end = format!("out.push(if n <= {most} && a == 1 && m == f {{ h::text(\"ok\") }} else {{ format!(\"{{}} bytes, aligned to {{}}, of values of at most {most}; Send, Sync and the others: {{:?}}, of values {{:?}}\", n, a, m, f) }});\nout.push(render!(node));");
    Job {
        ctx: CTX,
        items: format!("{SZ}{}", em.items),
        body: format!("{st}\nlet node = {e};\n{check}{end}"),
        exps: vec![vec![Exp::Eq("ok".into()), Exp::Any]; c.vals.len()],
        vals: c.vals.clone(),
        uses: USES,
        alt: None,
        lib: String::new(),
    }
}

pub fn c27(env: &RunEnv) -> Vec<Box<dyn PStream>> {
    vec![prog("sizes", env.n(1200, 20000), 50, |_| sized(), build_sized)]
}
