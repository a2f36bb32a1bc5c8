//! C33: the same on every architecture, without undefined behaviour: cases done by the guest
//! program (../guest), which Miri interprets for an architecture.
use crate::val::*;

use proptest::prelude::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vcore::text::*;
use vcore::*;

#[derive(Clone, Debug, Hash)]
enum Op {
    Render(Val),
    Text(String),
    PushStr(String),
    Push(char),
    Reserve(u16),
    Clear,
    Clone,
    Double,
    RoundTrip,
    AddAssign(String),
    Add(String),
    Write(u16, String),
    CloneFrom(String),
    Look(u16),
    Inner(Val),
    Escape(String),
    /// Rendered by two threads at once.
    Both(Val, Val),
    /// Room asked for that cannot be, refused with a panic; then the buffer is used on.
    Over(u8, u16),
}
use Op::*;

#[derive(Clone, Debug, Hash)]
struct Hist {
    arch: u8,
    capacity: u16,
    ops: Vec<Op>,
}

impl Case for Hist {
    fn to_json(&self) -> Json {
        let ops: Vec<Json> = self
            .ops
            .iter()
            .map(|o| match o {
                Render(v) => json!(["render", v.to_json()]),
                Text(s) => json!(["text", s]),
                PushStr(s) => json!(["push_str", s]),
                Push(c) => json!(["push", c.to_string()]),
                Reserve(n) => json!(["reserve", n]),
                Clear => json!(["clear"]),
                Clone => json!(["clone"]),
                Double => json!(["double"]),
                RoundTrip => json!(["round trip"]),
                AddAssign(s) => json!(["+=", s]),
                Add(s) => json!(["+", s]),
                Op::Write(n, s) => json!(["write!", n, s]),
                CloneFrom(s) => json!(["clone_from", s]),
                Look(n) => json!(["look", n]),
                Inner(v) => json!(["render!", v.to_json()]),
                Escape(s) => json!(["escape_str", s]),
                Over(k, n) => json!(["over", k, n]),
                Both(v, w) => json!(["threads", v.to_json(), w.to_json()]),
            })
            .collect();
        json!({"architecture": name(self.arch), "capacity": self.capacity, "ops": ops})
    }
    fn from_json(v: &Json) -> Self {
        let ops = v["ops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| {
                let s = |i: usize| o[i].as_str().unwrap().to_string();
                let n = |i: usize| o[i].as_u64().unwrap() as u16;
                match o[0].as_str().unwrap() {
                    "render" => Render(Val::from_json(&o[1])),
                    "text" => Text(s(1)),
                    "push_str" => PushStr(s(1)),
                    "push" => Push(s(1).chars().next().unwrap()),
                    "reserve" => Reserve(n(1)),
                    "clear" => Clear,
                    "clone" => Clone,
                    "double" => Double,
                    "round trip" => RoundTrip,
                    "+=" => AddAssign(s(1)),
                    "+" => Add(s(1)),
                    "write!" => Op::Write(n(1), s(2)),
                    "clone_from" => CloneFrom(s(1)),
                    "look" => Look(n(1)),
                    "render!" => Inner(Val::from_json(&o[1])),
                    "escape_str" => Escape(s(1)),
                    "over" => Over(n(1) as u8, n(2)),
                    "threads" => Both(Val::from_json(&o[1]), Val::from_json(&o[2])),
                    x => panic!("operation {x}"),
                }
            })
            .collect();
        let arch = v["architecture"].as_str().unwrap();
        let arch = archs().iter().position(|a| a.name == arch).expect("architecture") as u8;
        Hist { arch, capacity: v["capacity"].as_u64().unwrap() as u16, ops }
    }
}

// ---- encoding ----

fn put_str(o: &mut Vec<u8>, s: &str) {
    o.extend((s.len() as u16).to_le_bytes());
    o.extend(s.as_bytes());
}
fn put_pieces(o: &mut Vec<u8>, p: &[(u8, String)]) {
    o.push(p.len() as u8);
    for (k, s) in p {
        o.push(*k);
        put_str(o, s);
    }
}
fn put_vals(o: &mut Vec<u8>, v: &[Val]) {
    o.push(v.len() as u8);
    v.iter().for_each(|v| put(o, v));
}
fn put(o: &mut Vec<u8>, v: &Val) {
    let tag = |o: &mut Vec<u8>, n: u8| o.push(n);
    match v {
        Val::Unit => tag(o, 0),
        Val::Bool(b) => o.extend([1, *b as u8]),
        Val::Char(c) => {
            tag(o, 2);
            put_str(o, &c.to_string())
        }
        Val::Str(s) => {
            tag(o, 3);
            put_str(o, s)
        }
        Val::Owned(s, n) => {
            tag(o, 4);
            put_str(o, s);
            o.push(*n)
        }
        Val::Int(k, v) => {
            o.extend([5, *k]);
            o.extend(v.to_le_bytes())
        }
        Val::F32(x) => {
            tag(o, 6);
            o.extend(x.to_le_bytes())
        }
        Val::F64(x) => {
            tag(o, 7);
            o.extend(x.to_le_bytes())
        }
        Val::None => tag(o, 8),
        Val::Some(v) => {
            tag(o, 9);
            put(o, v)
        }
        Val::CowB(s) => {
            tag(o, 10);
            put_str(o, s)
        }
        Val::CowO(s) => {
            tag(o, 11);
            put_str(o, s)
        }
        Val::Fmt(p) => {
            tag(o, 12);
            put_pieces(o, p)
        }
        Val::Disp(p) => {
            tag(o, 13);
            put_pieces(o, p)
        }
        Val::Raw(s, k) => {
            tag(o, 14);
            put_str(o, s);
            o.push(*k)
        }
        Val::Iter(v) => {
            tag(o, 15);
            put_vals(o, v)
        }
        Val::IterDel(d, v) => {
            tag(o, 16);
            put_str(o, d);
            put_vals(o, v)
        }
        Val::IterLines(v) => {
            tag(o, 17);
            put_vals(o, v)
        }
        Val::Doc => tag(o, 18),
        Val::Tpl(k, v) => {
            o.extend([19, *k]);
            put_vals(o, v)
        }
        Val::Nested(k, v) => {
            o.extend([20, *k]);
            put(o, v)
        }
    }
}
fn encode(h: &Hist) -> Vec<u8> {
    let mut o = h.capacity.to_le_bytes().to_vec();
    for op in &h.ops {
        let n = match op {
            Render(_) => 0,
            Text(_) => 1,
            PushStr(_) => 2,
            Push(_) => 3,
            Reserve(_) => 4,
            Clear => 5,
            Clone => 6,
            Double => 7,
            RoundTrip => 8,
            AddAssign(_) => 9,
            Add(_) => 10,
            Op::Write(..) => 11,
            CloneFrom(_) => 12,
            Look(_) => 13,
            Inner(_) => 14,
            Escape(_) => 15,
            Both(..) => 16,
            Over(..) => 17,
        };
        o.push(n);
        match op {
            Render(v) | Inner(v) => put(&mut o, v),
            Text(s) | PushStr(s) | AddAssign(s) | Add(s) | CloneFrom(s) | Escape(s) => put_str(&mut o, s),
            Push(c) => put_str(&mut o, &c.to_string()),
            Reserve(n) | Look(n) => o.extend(n.to_le_bytes()),
            Op::Write(n, s) => {
                o.extend(n.to_le_bytes());
                put_str(&mut o, s)
            }
            Over(k, n) => {
                o.push(*k);
                o.extend(n.to_le_bytes())
            }
            Both(v, w) => {
                put(&mut o, v);
                put(&mut o, w)
            }
            Clear | Clone | Double | RoundTrip => {}
        }
    }
    o
}

/// An integer of the size of a pointer is of another size there.
fn narrow(v: &Val, bits: u32) -> Val {
    let list = |v: &Vec<Val>| v.iter().map(|v| narrow(v, bits)).collect::<Vec<_>>();
    match v {
        Val::Int(k @ (5 | 17), x) if bits == 32 => Val::Int(k - 3, *x),
        Val::Int(k @ (11 | 23), x) if bits == 32 => Val::Int(k - 3, *x),
        Val::Some(v) => Val::Some(Box::new(narrow(v, bits))),
        Val::Iter(v) => Val::Iter(list(v)),
        Val::IterDel(d, v) => Val::IterDel(d.clone(), list(v)),
        Val::IterLines(v) => Val::IterLines(list(v)),
        Val::Tpl(k, v) => Val::Tpl(*k, list(v)),
        Val::Nested(k, v) => Val::Nested(*k, Box::new(narrow(v, bits))),
        v => v.clone(),
    }
}

/// The debug form of unusual characters depends on the version of the standard library.
fn plain(v: Val) -> Val {
    let pieces = |p: Vec<(u8, String)>| p.into_iter().map(|(k, s)| if k % 5 == 3 && !s.is_ascii() { (4, s) } else { (k, s) }).collect();
    let list = |v: Vec<Val>| v.into_iter().map(plain).collect::<Vec<_>>();
    match v {
        Val::Fmt(p) => Val::Fmt(pieces(p)),
        Val::Disp(p) => Val::Disp(pieces(p)),
        Val::Some(v) => Val::Some(Box::new(plain(*v))),
        Val::Iter(v) => Val::Iter(list(v)),
        Val::IterDel(d, v) => Val::IterDel(d, list(v)),
        Val::IterLines(v) => Val::IterLines(list(v)),
        Val::Tpl(k, v) => Val::Tpl(k, list(v)),
        Val::Nested(k, v) => Val::Nested(k, Box::new(plain(*v))),
        v => v,
    }
}

fn model(h: &Hist, bits: u32) -> String {
    let spec = |v: &Val| spec(&narrow(v, bits));
    let mut b = String::new();
    for op in &h.ops {
        match op {
            Render(v) => b.push_str(&spec(v)),
            Text(s) | Escape(s) => b.push_str(&esc(s)),
            PushStr(s) | AddAssign(s) | Add(s) => b.push_str(s),
            Push(c) => b.push(*c),
            Reserve(_) | Clone | RoundTrip | CloneFrom(_) | Look(_) => {}
            Clear => b.clear(),
            Double => b = b.repeat(2),
            Op::Write(n, s) => b.push_str(&format!("{s}{n}")),
            Over(..) => b.push_str("refused"),
            Both(v, w) => b.push_str(&format!("{}{}", spec(v), spec(w))),
            Inner(v) => b.push_str(&format!("{}&lt;", spec(v))),
        }
    }
    b
}

// ---- the guest ----

/// An architecture, and how to run the guest for it.
struct Arch {
    name: String,
    bits: u32,
    dir: String,
    cmd: Vec<String>,
    env: Vec<(String, String)>,
}
fn archs() -> &'static [Arch] {
    static A: std::sync::OnceLock<Vec<Arch>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let t = std::fs::read_to_string(std::env::var("VERIF_GUESTS").expect("VERIF_GUESTS")).unwrap();
        let v: Json = t.parse().unwrap();
        let s = |v: &Json| v.as_str().unwrap().to_string();
        v.as_array()
            .unwrap()
            .iter()
            .map(|a| Arch {
                name: s(&a["name"]),
                bits: a["bits"].as_u64().unwrap() as u32,
                dir: s(&a["dir"]),
                cmd: a["cmd"].as_array().unwrap().iter().map(s).collect(),
                env: a["env"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), s(v))).collect(),
            })
            .collect()
    })
}
fn name(a: u8) -> &'static str {
    &archs()[a as usize % archs().len()].name
}

struct Guest {
    pid: u32,
    arch: u8,
    child: Child,
    cases: u32,
    log: std::path::PathBuf,
}
impl Drop for Guest {
    fn drop(&mut self) {
        if self.pid == std::process::id() {
            unsafe { libc::killpg(self.child.id() as i32, libc::SIGKILL) };
            let _ = self.child.wait();
            let _ = std::fs::remove_file(&self.log);
        }
    }
}

thread_local! {
    static GUEST: RefCell<Option<Guest>> = const { RefCell::new(None) };
}

fn start(arch: u8) -> Guest {
    let a = &archs()[arch as usize % archs().len()];
    let work = std::path::PathBuf::from(std::env::var("VERIF_WORK").unwrap_or_else(|_| "work".into()));
    let log = work.join(format!("guest-{}", std::process::id()));
    static STARTS: AtomicU64 = AtomicU64::new(0);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let seed = seed.wrapping_mul(1000).wrapping_add(STARTS.fetch_add(1, SeqCst)) % (1 << 31);
    let mut c = Command::new(&a.cmd[0]);
    c.args(&a.cmd[1..]).envs(a.env.iter().map(|(k, v)| (k.clone(), v.replace("{seed}", &seed.to_string())))).current_dir(&a.dir);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(std::fs::File::create(&log).unwrap()).process_group(0);
    // not to outlive us
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    };
    Guest { pid: std::process::id(), arch, child: c.spawn().expect("guest"), cases: 0, log }
}

impl Guest {
    /// The answer, or nothing if the guest ended.
    fn ask(&mut self, case: &[u8]) -> Option<Vec<u8>> {
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&(case.len() as u32).to_le_bytes()).ok()?;
        i.write_all(case).ok()?;
        i.flush().ok()?;
        let o = self.child.stdout.as_mut().unwrap();
        let mut n = [0; 4];
        o.read_exact(&mut n).ok()?;
        let mut r = vec![0; u32::from_le_bytes(n) as usize];
        o.read_exact(&mut r).ok()?;
        Some(r)
    }
}

fn check(h: &Hist, o: &mut Obs) -> CheckResult {
    let bits = archs()[h.arch as usize % archs().len()].bits;
    let want = model(h, bits);
    o.nontrivial = want.len() >= 16;
    o.class(name(h.arch));
    o.count("operations", h.ops.len() as u64);
    GUEST.with(|g| {
        let mut g = g.borrow_mut();
        // of a process before this was forked, or worn out
        if g.as_ref().is_some_and(|g| g.pid != std::process::id() || g.arch != h.arch || g.cases > 1000) {
            if g.as_ref().unwrap().pid == std::process::id() {
                *g = None;
            } else {
                std::mem::forget(g.take());
            }
        }
        let guest = g.get_or_insert_with(|| start(h.arch));
        guest.cases += 1;
        let r = guest.ask(&encode(h));
        if let Some(r) = r {
            return same(name(h.arch), &r, want.as_bytes());
        }
        let end = Instant::now() + Duration::from_secs(20);
        while guest.child.try_wait().unwrap().is_none() && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(5));
        }
        let log = std::fs::read_to_string(&guest.log).unwrap_or_default();
        *g = None;
        match log.find("error: Undefined Behavior").or_else(|| log.find("panicked at")).or_else(|| log.find("error: memory leaked")) {
            Some(i) => Err(format!("{}: {}", name(h.arch), log[i..].chars().take(1500).collect::<String>())),
            // the interpreter cannot go on
            None => {
                eprintln!("the guest ended:\n{}", log.chars().take(3000).collect::<String>());
                unsafe { libc::_exit(3) }
            }
        }
    })
}

pub fn c33(env: &Env) -> Vec<Box<dyn DynStream>> {
    let n = archs().len() as u64;
    let text = || prop_oneof![3 => text(70), 1 => any_text(20), 1 => long_few(130)];
    let val = |n: usize| val(n).prop_map(plain);
    let op = move || {
        prop_oneof![
            8 => val(36).prop_map(Render),
            6 => text().prop_map(Text),
            2 => text().prop_map(PushStr),
            2 => ch().prop_map(Push),
            1 => (0u16..80).prop_map(Reserve),
            1 => Just(Clear),
            1 => Just(Clone),
            1 => Just(Double),
            1 => Just(RoundTrip),
            1 => text().prop_map(AddAssign),
            1 => text().prop_map(Add),
            1 => (any::<u16>(), any_text(20)).prop_map(|(n, s)| Op::Write(n, s)),
            1 => any_text(40).prop_map(CloneFrom),
            2 => (0u16..200).prop_map(Look),
            1 => val(20).prop_map(Inner),
            2 => text().prop_map(Escape),
            1 => (0u8..4, prop_oneof![0u16..3, 0u16..2000]).prop_map(|(k, n)| Over(k, n)),
            1 => (val(24), val(24)).prop_map(|(v, w)| Both(v, w)),
        ]
    };
    let case = move |i: u64| {
        (prop_oneof![2 => Just(0u16), 3 => 0u16..80, 1 => 0u16..2000], prop::collection::vec(op(), 1..7))
            .prop_map(move |(capacity, ops)| Hist { arch: (i % n) as u8, capacity, ops })
    };
    vec![stream_indexed("architectures", env.n(12_000, 300_000), case, check)]
}
