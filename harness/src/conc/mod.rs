//! Concurrent workloads and their monitors.

pub mod broadcaster;
pub mod cancel;
pub mod channel;
pub mod coll;
pub mod mixed;
pub mod mutable;
pub mod reentrant;

use crate::ctx::Case;
use crate::rng::Rng;
use crate::sched::{self, Outcome, Task, TaskWaker};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub type Shared<T> = Arc<Mutex<T>>;

pub fn shared<T>(t: T) -> Shared<T> {
    Arc::new(Mutex::new(t))
}

/// What a consumer observed.
#[derive(Debug, Default, Clone)]
pub struct Log<T> {
    pub name: String,
    /// (call time of the poll, return time, value)
    pub values: Vec<(u64, u64, T)>,
    pub polls: u64,
    pub ended: bool,
    /// Stopped consuming on its own account
    pub quit: bool,
    /// Is asleep (or was when everything stopped)
    pub asleep: bool,
}

pub struct Opts {
    /// Chance (of 16) of polling again although not woken
    pub spurious: u64,
    /// Use one waker for all polls, otherwise a new one for each poll
    pub reuse: bool,
    /// Stop after that many values
    pub quit_after: usize,
    /// Do not start before being scheduled
    pub rng: Rng,
}

impl Opts {
    pub fn random(rng: &mut Rng) -> Self {
        Opts {
            spurious: *rng.pick(&[0, 0, 2, 6]),
            reuse: rng.flip(),
            quit_after: if rng.chance(1, 8) { rng.range(0, 3) } else { usize::MAX },
            rng: rng.fork(),
        }
    }
}

/// The executor of a task which only polls when its latest waker has been woken.
pub fn consume<T>(log: &Shared<Log<T>>, opts: &mut Opts, mut poll: impl FnMut(&mut Context) -> Poll<Option<T>>) {
    let mut w = TaskWaker::new();
    loop {
        if opts.quit_after == 0 {
            log.lock().unwrap().quit = true;
            return;
        }
        if opts.reuse {
            w.reset();
        } else {
            w = TaskWaker::new();
        }
        let waker = w.waker();
        let call = sched::now();
        let r = poll(&mut Context::from_waker(&waker));
        let ret = sched::now();
        let pending = {
            let mut l = log.lock().unwrap();
            l.polls += 1;
            match r {
                Poll::Ready(Some(v)) => {
                    l.values.push((call, ret, v));
                    opts.quit_after = opts.quit_after.saturating_sub(1);
                    false
                }
                Poll::Ready(None) => {
                    l.ended = true;
                    return;
                }
                Poll::Pending => {
                    if l.polls > 3000 {
                        l.quit = true;
                        drop(l);
                        panic!("{}", RUNAWAY);
                    }
                    true
                }
            }
        };
        if pending {
            sched::point("polled");
            if opts.rng.chance(opts.spurious, 16) {
                continue;
            }
            log.lock().unwrap().asleep = true;
            if !sched::park(&w) {
                return;
            }
            log.lock().unwrap().asleep = false;
        }
    }
}

/// The workloads have some tens of operations, each of which wakes a task once or twice
const RUNAWAY: &str = "HARNESS: polled 3000 times";

/// Runs the tasks, reports deadlocks and panics. Returns false if the run has no result.
pub fn execute(case: &mut Case, rng: &mut Rng, tasks: Vec<Task>, props: &'static [&'static str]) -> (bool, Outcome) {
    let out = sched::run(rng.fork(), tasks, case.want_desc);
    case.count("steps", out.steps);
    case.count("context_switches", out.switches);
    case.count("lock_waits", out.blocked);
    case.mix_sig(out.hash);
    case.nontrivial = out.switches > 1 || cfg!(not(feature = "sched"));
    if case.want_desc {
        let mut line = String::new();
        for (t, op) in &out.trace {
            line.push_str(&format!("{}:{} ", t, op));
        }
        if line.len() > 6000 {
            line.truncate(6000);
        }
        case.note(|| format!("schedule (task:next operation): {}", line));
    }
    if let Some(d) = &out.deadlock {
        case.fail(props, format!("deadlock: {}", d));
        return (false, out);
    }
    if let Some(p) = &out.panic {
        if p.contains(RUNAWAY) {
            for id in ["C08", "C10", "C16"] {
                if let Some(i) = props.iter().position(|p| *p == id) {
                    case.fail(&props[i..i + 1], "a task is woken again and again although nothing changes");
                }
            }
        } else if p.contains(" at src/") {
            case.inconclusive = Some(format!("harness panic: {}", p));
        } else {
            case.fail(props, format!("panic: {}", p));
        }
        return (false, out);
    }
    if out.aborted {
        case.inconclusive = Some("step limit reached".into());
        return (false, out);
    }
    (true, out)
}

pub fn task(name: impl Into<String>, f: impl FnOnce() + Send + 'static) -> Task {
    (name.into(), Box::new(f))
}

/// Other tasks can run while it is written to
pub struct Sink;

impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        sched::point("debug");
        Ok(())
    }
}

/// Looks at the handle with its `Debug` implementation (the text itself is not specified)
pub fn debug(x: &impl std::fmt::Debug) {
    use std::fmt::Write;
    let _ = write!(Sink, "{:?}", x);
}
