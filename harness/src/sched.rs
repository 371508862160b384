//! Execution environments for the concurrent workloads.
//!
//! * `sched` feature: every task is a coroutine on one OS thread, and every lock / atomic operation of the
//!   crate under test (through its guarded hooks) is a point where a seeded scheduler decides who runs next.
//! * without it: every task is an OS thread (used for Miri, the sanitizers and as a fallback).
//!
//! Both provide the same interface: `point`, `now`, `park`, `wait_idle`.

use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Wake, Waker};

use crate::rng::{mix, Rng};

pub struct Outcome {
    /// No task can run although some have not finished.
    pub deadlock: Option<String>,
    /// Step limit
    pub aborted: bool,
    pub panic: Option<String>,
    pub steps: u64,
    pub switches: u64,
    pub blocked: u64,
    pub hash: u64,
    pub trace: Vec<(u8, &'static str)>,
}

pub type Task = (String, Box<dyn FnOnce() + Send>);

/// A waker which belongs to a task, one is created per poll (or reused).
pub struct TaskWaker {
    pub woken: AtomicBool,
    pub count: AtomicUsize,
    env: EnvRef,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }

    fn wake_by_ref(self: &Arc<Self>) {
        self.count.fetch_add(1, Ordering::SeqCst);
        env_wake(self);
        point("wake");
    }
}

impl TaskWaker {
    /// Must be called from the task which is going to park on it.
    pub fn new() -> Arc<Self> {
        Arc::new(TaskWaker { woken: AtomicBool::new(false), count: AtomicUsize::new(0), env: current_env() })
    }

    pub fn waker(self: &Arc<Self>) -> Waker {
        Waker::from(self.clone())
    }

    pub fn reset(&self) {
        self.woken.store(false, Ordering::SeqCst);
    }

    pub fn was_woken(&self) -> bool {
        self.woken.load(Ordering::SeqCst)
    }
}

// ------------------------------------------------------------------------------------------------
#[cfg(feature = "sched")]
mod imp {
    use super::*;
    use corosensei::stack::DefaultStack;
    use corosensei::{Coroutine, CoroutineResult, Yielder};
    use std::cell::Cell;

    #[derive(Clone, Copy, Debug, PartialEq)]
    enum St {
        Runnable,
        Blocked(usize),
        Parked(usize),
        Idle,
        Done,
    }

    enum Strategy {
        /// switch with probability 1/n at each point
        Random(u64),
        /// priorities, lowered at the change points
        Pct { prio: Vec<u64>, changes: Vec<u64> },
    }

    struct Sched {
        states: Vec<St>,
        names: Vec<String>,
        yielders: Vec<*const Yielder<(), ()>>,
        cur: usize,
        next: usize,
        in_task: bool,
        rng: Rng,
        strategy: Strategy,
        steps: u64,
        max_steps: u64,
        switches: u64,
        blocked: u64,
        clock: u64,
        hash: u64,
        trace: Vec<(u8, &'static str)>,
        keep_trace: bool,
        fin: bool,
        aborted: bool,
        /// The lock which a task wants to write to (it is blocked if its state says so)
        wants_write: Vec<usize>,
        /// A reader waits while a writer waits, which `std::sync::RwLock` is allowed to do (and does on Linux)
        prefer_writers: bool,
    }

    thread_local! {
        static CUR: Cell<*mut Sched> = const { Cell::new(std::ptr::null_mut()) };
        static STACKS: std::cell::RefCell<Vec<DefaultStack>> = const { std::cell::RefCell::new(Vec::new()) };
    }

    #[derive(Clone)]
    pub struct EnvRef(usize);
    unsafe impl Send for EnvRef {}
    unsafe impl Sync for EnvRef {}

    impl Sched {
        fn waiting_writer(&self, addr: usize) -> bool {
            self.states.iter().zip(&self.wants_write).any(|(st, w)| *st == St::Blocked(addr) && *w == addr)
        }

        fn pick(&mut self) -> Option<usize> {
            let runnable: Vec<usize> = (0..self.states.len()).filter(|i| self.states[*i] == St::Runnable).collect();
            if runnable.is_empty() {
                return None;
            }
            let cur = self.cur;
            Some(match &mut self.strategy {
                Strategy::Random(n) => {
                    if self.states[cur] == St::Runnable && !self.rng.chance(1, *n) {
                        cur
                    } else {
                        *self.rng.pick(&runnable)
                    }
                }
                Strategy::Pct { prio, changes } => {
                    if changes.contains(&self.steps) {
                        let low = prio.iter().copied().min().unwrap_or(1);
                        prio[cur] = low.saturating_sub(1);
                    }
                    *runnable.iter().max_by_key(|i| prio[**i]).unwrap()
                }
            })
        }
    }

    fn with<R>(f: impl FnOnce(&mut Sched) -> R) -> Option<R> {
        let p = CUR.with(|c| c.get());
        if p.is_null() {
            None
        } else {
            // Only one coroutine of this thread runs at any time and `f` never suspends
            Some(f(unsafe { &mut *p }))
        }
    }

    fn suspend() {
        let y = with(|s| s.yielders[s.cur]).unwrap();
        unsafe { (*y).suspend(()) };
    }

    fn active() -> bool {
        !std::thread::panicking() && with(|s| s.in_task).unwrap_or(false)
    }

    pub fn point(op: &'static str) {
        if !active() {
            return;
        }
        let switch = with(|s| {
            s.steps += 1;
            if s.steps > s.max_steps {
                s.aborted = true;
                return true;
            }
            let n = s.pick().unwrap_or(s.cur);
            if n != s.cur {
                s.next = n;
                s.switches += 1;
                true
            } else {
                false
            }
        })
        .unwrap();
        if switch {
            suspend();
        }
        with(|s| {
            s.hash = mix(s.hash, (s.cur as u64) << 32 | op.len() as u64 | (op.as_bytes()[0] as u64) << 8);
            if s.keep_trace && s.trace.len() < 4000 {
                s.trace.push((s.cur as u8, op));
            }
        });
    }

    fn block(st: St) {
        with(|s| {
            let c = s.cur;
            s.states[c] = st;
            s.next = usize::MAX;
        });
        suspend();
    }

    pub fn now() -> u64 {
        with(|s| {
            s.clock += 1;
            s.clock
        })
        .unwrap_or(0)
    }

    pub fn is_final() -> bool {
        with(|s| s.fin).unwrap_or(true)
    }

    pub fn park(w: &Arc<TaskWaker>) -> bool {
        loop {
            if w.was_woken() {
                return true;
            }
            if is_final() {
                return false;
            }
            block(St::Parked(Arc::as_ptr(w) as usize));
        }
    }

    pub fn wait_idle() {
        block(St::Idle);
    }

    pub fn env_wake(w: &Arc<TaskWaker>) {
        w.woken.store(true, Ordering::SeqCst);
        let a = Arc::as_ptr(w) as usize;
        with(|s| {
            for st in s.states.iter_mut() {
                if *st == St::Parked(a) {
                    *st = St::Runnable;
                }
            }
        });
    }

    pub fn current_env() -> EnvRef {
        EnvRef(0)
    }

    struct Hook;

    impl futures_signals::sync::Hooks for Hook {
        fn managed(&self) -> bool {
            active()
        }
        fn point(&self, op: &'static str, addr: usize) {
            point(op);
            with(|s| {
                let c = s.cur;
                s.wants_write[c] = if op == "write" { addr } else { 0 };
            });
            if op == "read" {
                // A task which is blocked will be resumed by the release of the lock which it waits for
                while with(|s| s.prefer_writers && s.waiting_writer(addr)).unwrap_or(false) {
                    self.blocked(addr);
                }
            }
        }
        fn blocked(&self, addr: usize) {
            with(|s| s.blocked += 1);
            block(St::Blocked(addr));
        }
        fn released(&self, addr: usize) {
            with(|s| {
                for st in s.states.iter_mut() {
                    if *st == St::Blocked(addr) {
                        *st = St::Runnable;
                    }
                }
            });
        }
    }

    pub fn run(mut rng: Rng, tasks: Vec<Task>, keep_trace: bool) -> Outcome {
        static HOOK: Hook = Hook;
        futures_signals::sync::install_hooks(&HOOK);

        let n = tasks.len();
        let strategy = match rng.below(8) {
            0 | 1 => Strategy::Random(1),
            2 => Strategy::Random(2),
            3 => Strategy::Random(4),
            4 => Strategy::Random(12),
            _ => {
                let prio = (0..n).map(|_| 1_000_000 + rng.next() % 1_000_000).collect();
                let len = *rng.pick(&[20usize, 60, 150]);
                let d = rng.range(1, 4);
                let changes = (0..d).map(|_| 1 + rng.below(len) as u64).collect();
                Strategy::Pct { prio, changes }
            }
        };
        let prefer_writers = rng.flip();
        let mut sched = Box::new(Sched {
            wants_write: vec![0; n],
            prefer_writers,
            states: vec![St::Runnable; n],
            names: tasks.iter().map(|t| t.0.clone()).collect(),
            yielders: vec![std::ptr::null(); n],
            cur: 0,
            next: usize::MAX,
            in_task: false,
            rng,
            strategy,
            steps: 0,
            max_steps: 20_000,
            switches: 0,
            blocked: 0,
            clock: 0,
            hash: 0,
            trace: vec![],
            keep_trace,
            fin: false,
            aborted: false,
        });
        let ptr: *mut Sched = &mut *sched;
        CUR.with(|c| c.set(ptr));

        let mut coros: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, (_, f))| {
                let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 * 1024).unwrap());
                Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, _| {
                    with(|s| s.yielders[i] = y as *const _);
                    f();
                }))
            })
            .collect();

        let mut deadlock = None;
        let mut panic = None;

        loop {
            let s = unsafe { &mut *ptr };
            if s.aborted {
                break;
            }
            let next = if s.next != usize::MAX && s.states[s.next] == St::Runnable {
                Some(s.next)
            } else {
                s.pick()
            };
            s.next = usize::MAX;
            match next {
                Some(i) => {
                    s.cur = i;
                    s.in_task = true;
                    let co = coros[i].as_mut().unwrap();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| co.resume(())));
                    let s = unsafe { &mut *ptr };
                    s.in_task = false;
                    match r {
                        Ok(CoroutineResult::Yield(())) => {}
                        Ok(CoroutineResult::Return(())) => {
                            s.states[i] = St::Done;
                            let co = coros[i].take().unwrap();
                            let stack = co.into_stack();
                            STACKS.with(|st| st.borrow_mut().push(stack));
                        }
                        Err(_) => {
                            s.states[i] = St::Done;
                            std::mem::forget(coros[i].take());
                            panic = Some(crate::ctx::take_panic().unwrap_or_else(|| "unknown panic".into()));
                            break;
                        }
                    }
                }
                None => {
                    if s.states.iter().any(|st| matches!(st, St::Blocked(_))) {
                        deadlock = Some(
                            s.states.iter().zip(&s.names).map(|(st, n)| match st {
                                St::Blocked(_) => format!("{} is waiting for a lock", n),
                                St::Parked(_) => format!("{} is asleep", n),
                                St::Idle => format!("{} waits for quiescence", n),
                                St::Done => format!("{} is done", n),
                                St::Runnable => format!("{} is runnable", n),
                            }).collect::<Vec<_>>().join(", "),
                        );
                        break;
                    } else if s.states.iter().any(|st| *st == St::Idle) {
                        for st in s.states.iter_mut() {
                            if *st == St::Idle {
                                *st = St::Runnable;
                            }
                        }
                    } else if s.states.iter().any(|st| matches!(st, St::Parked(_))) {
                        s.fin = true;
                        for st in s.states.iter_mut() {
                            if matches!(st, St::Parked(_)) {
                                *st = St::Runnable;
                            }
                        }
                    } else {
                        break;
                    }
                }
            }
        }

        // Suspended coroutines (after a deadlock, panic or abort) are leaked on purpose
        for c in coros {
            std::mem::forget(c);
        }
        CUR.with(|c| c.set(std::ptr::null_mut()));
        let names = sched.names.clone();
        let _ = names;
        Outcome {
            deadlock,
            aborted: sched.aborted,
            panic,
            steps: sched.steps,
            switches: sched.switches,
            blocked: sched.blocked,
            hash: sched.hash,
            trace: std::mem::take(&mut sched.trace),
        }
    }
}

// ------------------------------------------------------------------------------------------------
#[cfg(not(feature = "sched"))]
mod imp {
    use super::*;
    use std::cell::RefCell;

    struct State {
        active: usize,
        idle_waiters: usize,
        idle_epoch: u64,
        fin: bool,
    }

    pub struct Env {
        state: Mutex<State>,
        cond: Condvar,
        clock: AtomicU64,
    }

    pub type EnvRef = Option<Arc<Env>>;

    thread_local! {
        static ENV: RefCell<EnvRef> = const { RefCell::new(None) };
        static RNG: RefCell<Rng> = RefCell::new(Rng::new(1));
    }

    pub fn current_env() -> EnvRef {
        ENV.with(|e| e.borrow().clone())
    }

    pub fn point(_op: &'static str) {
        let r = RNG.with(|r| r.borrow_mut().next() % 16);
        if r == 0 {
            std::thread::yield_now();
        } else if r == 1 && !cfg!(miri) {
            for _ in 0..200 {
                std::hint::spin_loop();
            }
        }
    }

    pub fn now() -> u64 {
        current_env().map(|e| e.clock.fetch_add(1, Ordering::Relaxed) + 1).unwrap_or(0)
    }

    impl Env {
        fn deactivate(&self, s: &mut State) {
            s.active -= 1;
            if s.active == 0 {
                if s.idle_waiters > 0 {
                    s.active += s.idle_waiters;
                    s.idle_waiters = 0;
                    s.idle_epoch += 1;
                } else {
                    s.fin = true;
                }
                self.cond.notify_all();
            }
        }
    }

    pub fn park(w: &Arc<TaskWaker>) -> bool {
        let env = current_env().unwrap();
        let mut s = env.state.lock().unwrap();
        if w.was_woken() {
            return true;
        }
        if s.fin {
            return false;
        }
        // count == parked marker: the waker re-activates us
        w.count.fetch_or(1 << 40, Ordering::SeqCst);
        env.deactivate(&mut s);
        loop {
            if w.was_woken() {
                return true;
            }
            if s.fin {
                w.count.fetch_and(!(1 << 40), Ordering::SeqCst);
                s.active += 1;
                return false;
            }
            s = env.cond.wait(s).unwrap();
        }
    }

    pub fn is_final() -> bool {
        current_env().map(|e| e.state.lock().unwrap().fin).unwrap_or(true)
    }

    pub fn wait_idle() {
        let env = current_env().unwrap();
        let mut s = env.state.lock().unwrap();
        s.idle_waiters += 1;
        let epoch = s.idle_epoch;
        env.deactivate(&mut s);
        while s.idle_epoch == epoch {
            s = env.cond.wait(s).unwrap();
        }
    }

    pub fn env_wake(w: &Arc<TaskWaker>) {
        match &w.env {
            None => w.woken.store(true, Ordering::SeqCst),
            Some(env) => {
                let mut s = env.state.lock().unwrap();
                w.woken.store(true, Ordering::SeqCst);
                if w.count.fetch_and(!(1 << 40), Ordering::SeqCst) & (1 << 40) != 0 {
                    s.active += 1;
                    env.cond.notify_all();
                }
            }
        }
    }

    pub fn run(mut rng: Rng, tasks: Vec<Task>, _keep_trace: bool) -> Outcome {
        let env = Arc::new(Env {
            state: Mutex::new(State { active: tasks.len(), idle_waiters: 0, idle_epoch: 0, fin: false }),
            cond: Condvar::new(),
            clock: AtomicU64::new(0),
        });
        let hash = rng.next();
        let panic = Mutex::new(None);
        std::thread::scope(|scope| {
            for (_, f) in tasks {
                let env = env.clone();
                let seed = rng.next();
                let panic = &panic;
                scope.spawn(move || {
                    ENV.with(|e| *e.borrow_mut() = Some(env.clone()));
                    RNG.with(|r| *r.borrow_mut() = Rng::new(seed));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    if r.is_err() {
                        *panic.lock().unwrap() = Some(crate::ctx::take_panic().unwrap_or_else(|| "unknown panic".into()));
                    }
                    ENV.with(|e| *e.borrow_mut() = None);
                    let mut s = env.state.lock().unwrap();
                    env.deactivate(&mut s);
                });
            }
        });
        Outcome {
            deadlock: None,
            aborted: false,
            panic: panic.into_inner().unwrap(),
            steps: env.clock.load(Ordering::Relaxed),
            switches: 0,
            blocked: 0,
            hash: mix(hash, 1),
            trace: vec![],
        }
    }
}

pub use imp::{current_env, env_wake, is_final, now, park, point, run, wait_idle, EnvRef};

#[allow(unused)]
fn _unused(_: Option<(AtomicU64, Condvar, Mutex<()>)>) {
    let _ = mix(0, 0);
}
