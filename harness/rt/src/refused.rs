//! C34: memory that is refused.
use crate::buffer::{self, History};
use crate::escape::{buffer_with, memory_verdict, spare};
use crate::galloc;
use crate::val::*;
use laby::{render, Render};
use proptest::prelude::*;
use vcore::text::*;
use vcore::*;

#[derive(Clone, Debug, Hash)]
enum Work {
    History(History),
    /// Rendered into a buffer with this text and this room, or to a string.
    Render(Val, String, usize),
    ToString(Val),
}
#[derive(Clone, Debug, Hash)]
struct Refused {
    work: Work,
    /// Which of the allocations.
    at: u64,
}
impl Case for Refused {
    fn to_json(&self) -> Json {
        let w = match &self.work {
            Work::History(h) => json!({"history": h.to_json()}),
            Work::Render(v, p, n) => json!({"render": v.to_json(), "prefix": p, "spare": n}),
            Work::ToString(v) => json!({"to_string": v.to_json()}),
        };
        json!({"work": w, "at": self.at})
    }
    fn from_json(v: &Json) -> Self {
        let w = &v["work"];
        let work = if !w["history"].is_null() {
            Work::History(History::from_json(&w["history"]))
        } else if !w["render"].is_null() {
            Work::Render(Val::from_json(&w["render"]), w["prefix"].as_str().unwrap().into(), w["spare"].as_u64().unwrap() as usize)
        } else {
            Work::ToString(Val::from_json(&w["to_string"]))
        };
        Refused { work, at: v["at"].as_u64().unwrap() }
    }
}

/// The work, the memory for which is the guarded allocator's; what it should come to is made before.
fn work(w: &Work) -> CheckResult {
    let before = galloc::live();
    let r = match w {
        Work::History(h) => galloc::guarded(|| buffer::run(h, false, &mut Obs::default())),
        Work::Render(v, prefix, spare) => {
            let want = format!("{prefix}{}", spec(v));
            galloc::guarded(|| {
                let mut b = buffer_with(prefix, *spare);
                R(v).render(&mut b);
                same("the buffer", b.as_str().as_bytes(), want.as_bytes())
            })
        }
        Work::ToString(v) => {
            let want = spec(v);
            galloc::guarded(|| same("the string", render!(R(v)).as_bytes(), want.as_bytes()))
        }
    };
    memory_verdict(before, r)
}

/// What became of a process in which an allocation was refused.
struct End {
    signal: i32,
    code: i32,
    said: String,
    /// The size that was refused, zero if none was.
    refused: usize,
}

fn refuse(w: &Work, k: i64) -> End {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let mut size = [0; 2];
        assert_eq!(libc::pipe(size.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &no);
            // of processor time, so that a busy machine does not matter
            let some = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &some);
            libc::dup2(fds[1], 2);
            galloc::tell(size[1]);
            galloc::refuse(k);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(w)));
            galloc::refuse(0);
            let (m, code) = match r {
                Ok(Ok(())) => (String::new(), 0),
                Ok(Err(m)) => (m, 1),
                Err(e) => (panic_text(e), 101),
            };
            libc::write(2, m.as_ptr() as _, m.len().min(4000));
            libc::_exit(code);
        }
        libc::close(fds[1]);
        libc::close(size[1]);
        let mut said = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], b.as_mut_ptr() as _, b.len());
            if n <= 0 {
                break;
            }
            said.extend_from_slice(&b[..n as usize]);
        }
        let mut refused = 0usize;
        libc::read(size[0], &mut refused as *mut usize as _, 8);
        libc::close(fds[0]);
        libc::close(size[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        End {
            signal: if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 },
            code: if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 0 },
            said: String::from_utf8_lossy(&said).into_owned(),
            refused,
        }
    }
}

fn check(c: &Refused, o: &mut Obs) -> CheckResult {
    // all granted
    galloc::refuse(i64::MAX);
    let r = work(&c.work);
    let n = i64::MAX - galloc::left();
    galloc::refuse(0);
    r.map_err(|m| format!("with all the memory asked for: {m}"))?;
    if n == 0 {
        return Ok(());
    }
    let k = 1 + (c.at % n as u64) as i64;
    o.nontrivial = true;
    o.class_if(k > 1, "not the first allocation");
    let e = refuse(&c.work, k);
    if e.refused == 0 {
        return Err(format!("of {n} allocations the {k}th was to be refused, but it was not asked for (exit {}, signal {}): {}", e.code, e.signal, show(e.said.as_bytes())));
    }
    let handled = format!("memory allocation of {} bytes failed", e.refused);
    match (e.signal, e.code) {
        (libc::SIGABRT, _) if e.said.contains(&handled) => {
            o.class("ends by the handler of failed allocations");
            Ok(())
        }
        (0, 0) => {
            o.class("did without");
            Ok(())
        }
        (0, 101) => Err(format!("a refused allocation of {} bytes panicked: {}", e.refused, show(e.said.as_bytes()))),
        (0, _) => Err(format!("after a refused allocation of {} bytes: {}", e.refused, show(e.said.as_bytes()))),
        (libc::SIGXCPU, _) | (libc::SIGKILL, _) => Err(format!("after a refused allocation of {} bytes the program does not end", e.refused)),
        (s, _) => Err(format!("after a refused allocation of {} bytes the program dies of {}: {}", e.refused, signal_text(s), show(e.said.as_bytes()))),
    }
}

pub fn c34(env: &Env) -> Vec<Box<dyn DynStream>> {
    // what the handler says is enough; a trace takes long
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let case = |w: BoxedStrategy<Work>| (w, any::<u64>()).prop_map(|(work, at)| Refused { work, at }).boxed();
    vec![
        stream("buffers", env.n(40_000, 600_000), case(buffer::histories(10).prop_map(Work::History).boxed()), check),
        stream("values into a buffer", env.n(30_000, 400_000), case((val(60), text(20), spare()).prop_map(|(v, p, n)| Work::Render(v, p, n)).boxed()), check),
        stream("values to a string", env.n(8_000, 100_000), case(val(60).prop_map(Work::ToString).boxed()), check),
    ]
}
