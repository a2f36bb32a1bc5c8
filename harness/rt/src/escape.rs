//! C01 (escaping), C02 (same on every CPU), and the escaping part of C03.
use crate::{galloc, place, place::Place, step};
use laby::internal::{escape, escape_str, Buffer};
use laby::Render;
use proptest::prelude::*;
use std::borrow::Cow;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use vcore::text::*;
use vcore::*;

/// One escaping call.
#[derive(Clone, Debug, Hash)]
pub struct Esc {
    pub text: String,
    pub place: Place,
    pub prefix: String,
    /// spare capacity of the buffer beforehand
    pub spare: usize,
    pub entry: u8,
}

impl Case for Esc {
    fn to_json(&self) -> Json {
        json!({"text": self.text, "place": self.place.to_json(), "prefix": self.prefix,
               "spare": self.spare, "entry": self.entry})
    }
    fn from_json(v: &Json) -> Self {
        Esc {
            text: v["text"].as_str().unwrap().into(),
            place: Place::from_json(&v["place"]),
            prefix: v["prefix"].as_str().unwrap().into(),
            spare: v["spare"].as_u64().unwrap() as usize,
            entry: v["entry"].as_u64().unwrap() as u8,
        }
    }
}

pub const ENTRIES: u8 = 8;

/// A buffer holding `prefix`, with `spare` bytes free if that can be arranged.
pub fn buffer_with(prefix: &str, spare: usize) -> Buffer {
    let mut b = Buffer::with_capacity(prefix.len() + spare);
    b.push_str(prefix);
    b
}

pub fn run_esc(c: &Esc) -> CheckResult {
    let want = format!("{}{}", c.prefix, esc(&c.text));
    let want_alone = &want[c.prefix.len()..];
    let r = place::with(&c.text, c.place, |t| -> CheckResult {
        let mut b = buffer_with(&c.prefix, c.spare);
        match c.entry {
            0 => escape(t, &mut b),
            1 => {
                let s = escape_str(t);
                same("escape_str", s.as_bytes(), want_alone.as_bytes())?;
                b.push_str(&s)
            }
            2 => t.render(&mut b),
            3 => {
                let mut s = String::with_capacity(t.len() + if c.spare < 64 { c.spare % 2 } else { c.spare });
                s.push_str(t);
                s.render(&mut b)
            }
            4 => {
                for ch in t.chars() {
                    ch.render(&mut b)
                }
            }
            5 => Render::render(Cow::<'_, str>::Borrowed(t), &mut b),
            6 => {
                // two calls, split in the middle
                let mut m = t.len() / 2;
                while !t.is_char_boundary(m) {
                    m -= 1;
                }
                escape(&t[..m], &mut b);
                escape(&t[m..], &mut b);
            }
            _ => Some(t).render(&mut b),
        }
        if b.len() > b.capacity() {
            return Err(format!("buffer length {} exceeds its capacity {}", b.len(), b.capacity()));
        }
        let bytes = b.as_str().as_bytes();
        if std::str::from_utf8(bytes).is_err() {
            return Err("buffer does not hold valid UTF-8".into());
        }
        same("escaped text", bytes, want.as_bytes())?;
        let s = b.into_string();
        same("escaped text as a string", s.as_bytes(), want.as_bytes())
    });
    r
}

pub fn nontrivial(c: &Esc) -> bool {
    c.text.len() >= 16 && c.text.contains(SPECIALS) && c.text.contains(|x| !SPECIALS.contains(&x))
        || c.text.len() < 16 && c.text.contains(SPECIALS)
}

pub fn check_esc(c: &Esc, o: &mut Obs) -> CheckResult {
    let n = c.text.len();
    o.nontrivial = nontrivial(c);
    o.class(match n {
        0 => "length 0",
        1..=15 => "length 1-15",
        16..=31 => "length 16-31",
        32..=63 => "length 32-63",
        64..=299 => "length 64-299",
        _ => "length 300+",
    });
    o.class_if(c.text.contains(SPECIALS), "has special characters");
    o.class_if(!c.text.is_ascii(), "has multi-byte characters");
    o.class_if(c.place == Place::End, "ends at unmapped memory");
    o.class_if(c.place == Place::Start, "starts at unmapped memory");
    run_esc(c)
}

/// As `check_esc`, with guarded allocation.
pub fn check_esc_guarded(c: &Esc, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.class_if(c.spare < esc(&c.text).len(), "buffer has to grow");
    o.class_if(c.spare == esc(&c.text).len(), "buffer filled exactly");
    let before = galloc::live();
    let r = galloc::guarded(|| run_esc(c));
    memory_verdict(before, r)
}

pub fn memory_verdict(before: i64, r: CheckResult) -> CheckResult {
    let e = galloc::take_error();
    r?;
    if let Some(e) = e {
        return Err(e);
    }
    if galloc::live() != before {
        return Err(format!("{} memory blocks leaked", galloc::live() - before));
    }
    Ok(())
}

pub fn esc_strategy(max: usize) -> BoxedStrategy<Esc> {
    (any_text(max), place::place(), prop_oneof![1 => Just(String::new()), 2 => text(40)], spare(), 0u8..ENTRIES)
        .prop_map(|(text, place, prefix, spare, entry)| Esc { text, place, prefix, spare, entry })
        .boxed()
}

pub fn spare() -> BoxedStrategy<usize> {
    prop_oneof![3 => 0usize..50, 2 => 0usize..600, 1 => Just(16384usize)].boxed()
}

/// Case whose spare room is close to what the output needs.
pub fn esc_tight(max: usize) -> BoxedStrategy<Esc> {
    (any_text(max), place::place(), text(40), -40i64..=8, 0u8..ENTRIES)
        .prop_map(|(text, place, prefix, d, entry)| {
            let need = esc(&text).len() as i64;
            Esc { spare: (need + d).max(0) as usize, text, place, prefix, entry }
        })
        .boxed()
}

// ---- enumerations ------------------------------------------------------------------------------

/// All texts of one length with two marked positions, over all special characters.
#[derive(Clone, Debug, Hash)]
pub struct Grid {
    len: usize,
    pos: usize,
    kind: u8,
}
impl Case for Grid {
    fn to_json(&self) -> Json {
        json!({"len": self.len, "pos": self.pos, "kind": self.kind})
    }
    fn from_json(v: &Json) -> Self {
        let g = |k: &str| v[k].as_u64().unwrap();
        Grid { len: g("len") as usize, pos: g("pos") as usize, kind: g("kind") as u8 }
    }
}

fn expect_one(t: &str, p: Place, out: &mut Buffer) -> CheckResult {
    out.clear();
    place::with(t, p, |t| escape(t, out));
    let w = esc(t);
    if out.as_str().as_bytes() != w.as_bytes() {
        same(&format!("escape of {t:?}"), out.as_str().as_bytes(), w.as_bytes())?;
    }
    Ok(())
}

pub const GRID_MAX: usize = 72;

fn check_grid(g: &Grid, o: &mut Obs) -> CheckResult {
    if g.pos >= g.len {
        return Ok(());
    }
    o.nontrivial = true;
    let mut out = Buffer::new();
    let mut n = 0;
    let fills = [b'a', b'%', b'=', b'#', b'?'];
    let mut t = vec![fills[(g.len + g.pos) % 5]; g.len];
    let place = [Place::End, Place::Start, Place::Mid((g.len * 7 + g.pos) as u8 % 64)][(g.len + g.pos) % 3];
    if g.kind == 0 {
        // every ASCII byte at this position
        for b in 0..128u8 {
            t[g.pos] = b;
            expect_one(std::str::from_utf8(&t).unwrap(), place, &mut out)?;
            n += 1;
        }
    } else {
        // a special character here and another one at every later position
        let s1 = SPECIALS[(g.pos + g.len) % 5] as u8;
        for q in g.pos + 1..g.len {
            let s2 = SPECIALS[(q * 3 + g.len / 5) % 5] as u8;
            let was = t[q];
            t[g.pos] = s1;
            t[q] = s2;
            expect_one(std::str::from_utf8(&t).unwrap(), place, &mut out)?;
            t[q] = was;
            n += 1;
        }
    }
    o.count("texts", n);
    Ok(())
}

/// All scalar values of a block of 4096, alone and inside longer text.
#[derive(Clone, Debug, Hash)]
pub struct Block(u32);
impl Case for Block {
    fn to_json(&self) -> Json {
        json!(self.0)
    }
    fn from_json(v: &Json) -> Self {
        Block(v.as_u64().unwrap() as u32)
    }
}
fn check_block(b: &Block, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    let mut out = Buffer::new();
    let mut n = 0;
    for u in b.0 * 4096..(b.0 + 1) * 4096 {
        let Some(c) = char::from_u32(u) else { continue };
        let mut small = [0; 4];
        let s: &str = c.encode_utf8(&mut small);
        out.clear();
        c.render(&mut out);
        same(&format!("rendering of character {c:?}"), out.as_str().as_bytes(), esc(s).as_bytes())?;
        // in text of 20 to 51 bytes at varying offsets
        let k = (u % 32) as usize;
        let mut t = String::with_capacity(64);
        t.push_str(&"abcdefghijklmnopqrstuvwxyzABCDEF"[..k]);
        t.push(c);
        t.push_str("0123456789abcdef");
        expect_one(&t, Place::Mid((u / 7 % 64) as u8), &mut out)?;
        expect_one(s, Place::End, &mut out)?;
        n += 1;
    }
    o.count("scalar values", n);
    Ok(())
}

pub fn c01(env: &Env, part: u64) -> Vec<Box<dyn DynStream>> {
    let l = GRID_MAX as u64;
    vec![
        stream("random text", env.n(120_000, 6_000_000) / part, esc_strategy(20_000), check_esc),
        stream("random short text", env.n(160_000, 12_000_000) / part, esc_strategy(80), check_esc),
        stream_indexed(
            "every ASCII byte at every position",
            l * l,
            move |i| Just(Grid { len: (i / l) as usize + 1, pos: (i % l) as usize, kind: 0 }),
            check_grid,
        ),
        stream_indexed(
            "special characters at every two positions",
            l * l,
            move |i| Just(Grid { len: (i / l) as usize + 1, pos: (i % l) as usize, kind: 1 }),
            check_grid,
        ),
        stream_indexed("every Unicode scalar value", 272, |i| Just(Block(i as u32)), check_block),
    ]
}

// ---- C02 ---------------------------------------------------------------------------------------

/// A processor, as described by its CPUID answers.
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Cpu {
    pub max_leaf: u32,
    pub avx: bool,
    pub avx2: bool,
    pub sse2: bool,
    /// unrelated feature bits that are switched off
    pub other: [u32; 4],
}

impl Cpu {
    pub fn apply(&self) {
        use raw_cpuid::verif::*;
        let bit = |on: bool, b: u32| if on { 0 } else { 1u32 << b };
        MAX_LEAF.store(self.max_leaf, SeqCst);
        CLEAR[0].store(self.other[0] & !(1 << 28) | bit(self.avx, 28), SeqCst);
        CLEAR[1].store(self.other[1] & !(1 << 26) | bit(self.sse2, 26), SeqCst);
        CLEAR[2].store(self.other[2] & !(1 << 5) | bit(self.avx2, 5), SeqCst);
        CLEAR[3].store(self.other[3], SeqCst);
    }
    pub fn reports_avx(&self) -> bool {
        self.max_leaf >= 1 && self.avx
    }
    pub fn reports_avx2(&self) -> bool {
        self.max_leaf >= 7 && self.avx2
    }
    pub fn to_json(&self) -> Json {
        json!({"max_leaf": self.max_leaf, "avx": self.avx, "avx2": self.avx2, "sse2": self.sse2,
               "other_bits_cleared": self.other})
    }
    pub fn from_json(v: &Json) -> Cpu {
        let o = v["other_bits_cleared"].as_array().unwrap();
        let g = |i: usize| o[i].as_u64().unwrap() as u32;
        Cpu {
            max_leaf: v["max_leaf"].as_u64().unwrap() as u32,
            avx: v["avx"].as_bool().unwrap(),
            avx2: v["avx2"].as_bool().unwrap(),
            sse2: v["sse2"].as_bool().unwrap(),
            other: [g(0), g(1), g(2), g(3)],
        }
    }
}

pub const CPUS: [(&str, Cpu); 8] = {
    const fn cpu(max_leaf: u32, avx: bool, avx2: bool, sse2: bool) -> Cpu {
        Cpu { max_leaf, avx, avx2, sse2, other: [0; 4] }
    }
    [
        ("avx2", cpu(u32::MAX, true, true, true)),
        ("avx-no-avx2", cpu(u32::MAX, true, false, true)),
        ("avx2-bit-without-avx", cpu(u32::MAX, false, true, true)),
        ("sse2", cpu(u32::MAX, false, false, true)),
        ("no-leaf-7", cpu(6, true, true, true)),
        ("none", cpu(u32::MAX, false, false, false)),
        ("no-feature-leaf", cpu(0, true, true, true)),
        ("avx2-no-other", Cpu { max_leaf: u32::MAX, avx: true, avx2: true, sse2: true, other: [u32::MAX; 4] }),
    ]
};

fn cpu_strategy() -> BoxedStrategy<Cpu> {
    let max = prop_oneof![
        4 => Just(u32::MAX),
        1 => prop::sample::select(vec![0u32, 1, 2, 4, 6, 7, 8, 0xd, 0x16]),
    ];
    let other = prop_oneof![2 => Just([0u32; 4]), 2 => any::<[u32; 4]>(), 1 => Just([u32::MAX; 4])];
    (max, any::<bool>(), any::<bool>(), prop::bool::weighted(0.7), other)
        .prop_map(|(max_leaf, avx, avx2, sse2, other)| Cpu { max_leaf, avx, avx2, sse2, other })
        .boxed()
}

/// A fresh process on some processor escaping several texts.
#[derive(Clone, Debug, Hash)]
pub struct OnCpu {
    cpu: Cpu,
    texts: Vec<String>,
}
impl Case for OnCpu {
    fn to_json(&self) -> Json {
        json!({"cpu": self.cpu.to_json(), "texts": self.texts})
    }
    fn from_json(v: &Json) -> Self {
        OnCpu {
            cpu: Cpu::from_json(&v["cpu"]),
            texts: v["texts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect(),
        }
    }
}

static SEEN_CPUID: AtomicU64 = AtomicU64::new(0);
static SEEN_AVX: AtomicU64 = AtomicU64::new(0);
static SEEN_AVX2: AtomicU64 = AtomicU64::new(0);

fn look(_: u64, rip: usize) {
    let k = unsafe { step::classify(rip) };
    if k == step::Kind::Cpuid {
        SEEN_CPUID.fetch_add(1, SeqCst);
    }
    if step::in_program(rip) {
        match k {
            step::Kind::Avx => {
                SEEN_AVX.fetch_add(1, SeqCst);
            }
            step::Kind::Avx2 | step::Kind::Avx512 => {
                SEEN_AVX2.fetch_add(1, SeqCst);
            }
            _ => {}
        }
    }
}

fn child(f: impl FnOnce() -> CheckResult) -> CheckResult {
    match in_child(std::time::Duration::from_secs(60), f) {
        ChildResult::Pass => Ok(()),
        ChildResult::Fail(m) => Err(m),
        ChildResult::Timeout => {
            eprintln!("child process timed out");
            unsafe { libc::_exit(3) }
        }
    }
}

/// Escapes in a fresh process and watches the instructions executed.
fn check_on_cpu(c: &OnCpu, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.texts.iter().any(|t| t.len() >= 16);
    o.class_if(c.cpu.reports_avx() && c.cpu.reports_avx2(), "avx2 processor");
    o.class_if(c.cpu.reports_avx() && !c.cpu.reports_avx2(), "avx processor without avx2");
    o.class_if(!c.cpu.reports_avx() && c.cpu.reports_avx2(), "avx2 bit without avx");
    o.class_if(!c.cpu.reports_avx() && !c.cpu.reports_avx2(), "processor without avx");
    o.class_if(!c.cpu.sse2, "processor without sse2");
    o.class_if(c.cpu.max_leaf == 0, "no feature information");
    child(|| {
        c.cpu.apply();
        for (i, t) in c.texts.iter().enumerate() {
            let mut b = Buffer::new();
            let q0 = raw_cpuid::verif::QUERIES.load(SeqCst);
            let (_, _) = step::single_step(look, || escape(t, &mut b));
            same(&format!("text {i} escaped on {:?}", c.cpu), b.as_str().as_bytes(), esc(t).as_bytes())?;
            let _ = q0;
        }
        let asked = raw_cpuid::verif::QUERIES.load(SeqCst) > 0;
        // A CPUID instruction outside of the substituted library means that the simulation does
        // not cover the detection in use: nothing can be said then.
        let by_other_means = !asked && SEEN_CPUID.load(SeqCst) > 0;
        if !by_other_means {
            let (avx, avx2) = (SEEN_AVX.load(SeqCst), SEEN_AVX2.load(SeqCst));
            if avx2 > 0 && !(c.cpu.reports_avx2() && c.cpu.reports_avx()) {
                return Err(format!("{avx2} AVX2 instructions executed on {:?}", c.cpu));
            }
            if avx > 0 && !c.cpu.reports_avx() {
                return Err(format!("{avx} AVX instructions executed on {:?}", c.cpu));
            }
        }
        Ok(())
    })
}

/// Two or more threads making their first calls, one of them stopped after some instructions.
#[derive(Clone, Debug, Hash)]
pub struct First {
    cpu: Cpu,
    /// instruction (of the first call) at which the first thread waits for the others, in 1/65536
    /// of all instructions of that call
    at: u16,
    texts: Vec<String>,
}
impl Case for First {
    fn to_json(&self) -> Json {
        json!({"cpu": self.cpu.to_json(), "at": self.at, "texts": self.texts})
    }
    fn from_json(v: &Json) -> Self {
        let o = OnCpu::from_json(v);
        First { cpu: o.cpu, at: v["at"].as_u64().unwrap() as u16, texts: o.texts }
    }
}

pub static PAUSE_AT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static PAUSED: AtomicBool = AtomicBool::new(false);
pub static RESUME: AtomicBool = AtomicBool::new(false);

fn pause(n: u64, _: usize) {
    if n == PAUSE_AT.load(SeqCst) {
        PAUSED.store(true, SeqCst);
        // give up after 50 ms: the others may be waiting for something this thread holds
        for _ in 0..500 {
            if RESUME.load(SeqCst) {
                return;
            }
            unsafe { libc::usleep(100) };
        }
    }
}
fn nothing(_: u64, _: usize) {}

/// Runs `a` in one thread, stopped before its `at`-th instruction (in 1/65536 of all) while the
/// other threads run to completion. Meant for a freshly forked process; counts the steps of `a`
/// in another fork first.
pub fn preempted(at: u16, a: impl Fn() + Sync, others: Vec<Box<dyn Fn() + Send + Sync + '_>>) -> bool {
    let total = {
        static SHARED: AtomicU64 = AtomicU64::new(0);
        let _ = &SHARED;
        let mut fds = [0; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                let (_, n) = step::single_step(nothing, &a);
                libc::write(fds[1], &n as *const u64 as _, 8);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut n = 0u64;
            let r = libc::read(fds[0], &mut n as *mut u64 as _, 8);
            libc::close(fds[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if r != 8 {
                // the call itself dies: let it die here as well
                a();
                return false;
            }
            n
        }
    };
    let k = (total * at as u64) >> 16;
    PAUSED.store(false, SeqCst);
    RESUME.store(false, SeqCst);
    PAUSE_AT.store(k, SeqCst);
    let done = AtomicU32::new(0);
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            step::single_step(pause, &a);
            PAUSED.store(true, SeqCst);
        });
        for _ in 0..20_000 {
            if PAUSED.load(SeqCst) {
                break;
            }
            unsafe { libc::usleep(50) };
        }
        for f in others {
            let done = &done;
            s.spawn(move || {
                f();
                done.fetch_add(1, SeqCst);
            })
            .join()
            .unwrap();
        }
        RESUME.store(true, SeqCst);
        h.join().unwrap();
    });
    true
}

/// Told before the heap is used again, which may be damaged.
fn fits(b: &Buffer) {
    if b.len() > b.capacity() {
        eprintln!("{} bytes were written into a buffer of {}", b.len(), b.capacity());
        unsafe { libc::abort() }
    }
}

fn check_first(c: &First, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.texts.iter().filter(|t| t.len() >= 16).count() >= 2;
    child(|| {
        c.cpu.apply();
        let results: Vec<std::sync::Mutex<Option<String>>> =
            c.texts.iter().map(|_| Default::default()).collect();
        let run = |i: usize| {
            let mut b = Buffer::new();
            escape(&c.texts[i], &mut b);
            fits(&b);
            *results[i].lock().unwrap() = Some(b.into_string());
        };
        let run = &run;
        let others: Vec<Box<dyn Fn() + Send + Sync>> =
            (1..c.texts.len()).map(|i| Box::new(move || run(i)) as _).collect();
        preempted(c.at, || run(0), others);
        for (i, r) in results.iter().enumerate() {
            let got = r.lock().unwrap().clone().unwrap_or_default();
            same(&format!("text {i} escaped during the first call"), got.as_bytes(), esc(&c.texts[i]).as_bytes())?;
        }
        Ok(())
    })
}

/// Eight threads let loose at once in a fresh process.
fn check_race(c: &First, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.texts.iter().filter(|t| t.len() >= 16).count() >= 2;
    child(|| {
        c.cpu.apply();
        fn delay(n: u64) {
            // spread the threads inside the detection
            for _ in 0..(n * 37 % 11) * 40 {
                std::hint::spin_loop();
            }
        }
        raw_cpuid::verif::HOOK.store(delay as *mut (), SeqCst);
        let bar = std::sync::Barrier::new(8);
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for w in 0..8 {
                let (bar, bad) = (&bar, &bad);
                s.spawn(move || {
                    bar.wait();
                    for j in 0..c.texts.len() {
                        let t = &c.texts[(w + j) % c.texts.len()];
                        let mut b = Buffer::new();
                        escape(t, &mut b);
                        fits(&b);
                        if let Err(m) = same("concurrent first escape", b.as_str().as_bytes(), esc(t).as_bytes()) {
                            *bad.lock().unwrap() = Some(m);
                        }
                    }
                });
            }
        });
        match bad.into_inner().unwrap() {
            Some(m) => Err(m),
            None => Ok(()),
        }
    })
}

fn texts(k: std::ops::Range<usize>) -> BoxedStrategy<Vec<String>> {
    prop::collection::vec(any_text(200), k).boxed()
}
fn long_texts(k: std::ops::Range<usize>) -> BoxedStrategy<Vec<String>> {
    let long = any_text(120).prop_map(|t| format!("{t}<0123456789abcdef>"));
    // texts whose escaped form is as long as can be
    let dense = (16usize..200, prop::sample::select(SPECIALS.to_vec()), any_text(20))
        .prop_map(|(n, c, t)| format!("{}{t}", c.to_string().repeat(n)));
    prop::collection::vec(prop_oneof![2 => long, 1 => dense], k).boxed()
}

/// Parts of C02 that fork a process per case.
pub fn c02_processes(env: &Env) -> Vec<Box<dyn DynStream>> {
    vec![
        stream(
            "fresh process per processor, instructions watched",
            env.n(1600, 40_000),
            (cpu_strategy(), texts(1..5)).prop_map(|(cpu, texts)| OnCpu { cpu, texts }),
            check_on_cpu,
        ),
        stream(
            "first call stopped at an instruction",
            env.n(2400, 60_000),
            (cpu_strategy(), any::<u16>(), long_texts(2..4))
                .prop_map(|(cpu, at, texts)| First { cpu, at, texts }),
            check_first,
        ),
        stream(
            "eight threads start at once",
            env.n(800, 20_000),
            (cpu_strategy(), long_texts(1..4)).prop_map(|(cpu, texts)| First { cpu, at: 0, texts }),
            check_race,
        ),
    ]
}

/// The escaping checks of C01 with the detection answering for one processor.
pub fn c02_streams(env: &Env) -> Vec<Box<dyn DynStream>> {
    let l = GRID_MAX as u64;
    vec![
        stream("random text", env.n(15_000, 800_000), esc_strategy(5_000), check_esc),
        stream("random short text", env.n(25_000, 1_600_000), esc_strategy(80), check_esc),
        stream("tight buffers", env.n(4_000, 100_000), esc_tight(300), check_esc_guarded),
        stream_indexed(
            "every ASCII byte at every position",
            l * l,
            move |i| Just(Grid { len: (i / l) as usize + 1, pos: (i % l) as usize, kind: 0 }),
            check_grid,
        ),
        stream_indexed(
            "special characters at every two positions",
            l * l,
            move |i| Just(Grid { len: (i / l) as usize + 1, pos: (i % l) as usize, kind: 1 }),
            check_grid,
        ),
        stream_indexed("every Unicode scalar value", 272, |i| Just(Block(i as u32)), check_block),
    ]
}
