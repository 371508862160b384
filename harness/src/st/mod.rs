//! Single-threaded monitors: scripted and real sources, strict wake-up driven consumers and
//! online checks of everything which crosses an edge between two adapters.

pub mod coll;
pub mod expr;
pub mod fut;
pub mod gate;
pub mod long;
pub mod longcoll;
pub mod misc;
pub mod out;
pub mod plain;
pub mod prims;
pub mod seq;
pub mod src;
pub mod tree;

use crate::ctx::Case;
use crate::rng::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Props = &'static [&'static str];

thread_local! {
    /// The next tap may be polled although it has ended
    pub static LATE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Problems with the poll protocol (polling something after its end)
pub const PROTOCOL: Props = &["C11", "C12", "C13", "C14", "C15", "C16", "C21", "C24", "C25", "C27"];

thread_local! {
    static PROBLEMS: RefCell<Vec<(Props, String)>> = const { RefCell::new(vec![]) };
    static EVENTS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static COUNTS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static TRACE: Cell<u64> = const { Cell::new(0) };
}

/// Reports a violation which was observed by a monitor.
pub fn report(props: Props, msg: impl Into<String>) {
    PROBLEMS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() < 20 {
            p.push((props, msg.into()));
        }
    });
}

pub fn problems() -> bool {
    PROBLEMS.with(|p| !p.borrow().is_empty())
}

pub fn event(f: impl FnOnce() -> String) {
    EVENTS.with(|e| {
        // the closure may report events itself
        let on = e.borrow().is_some();
        if on {
            let s = f();
            if let Some(e) = e.borrow_mut().as_mut() {
                if e.len() < 400 {
                    e.push(s);
                }
            }
        }
    });
}

pub fn count(name: &'static str, n: u64) {
    COUNTS.with(|c| *c.borrow_mut().entry(name).or_insert(0) += n);
}

/// Adds to the signature of what was observed in this case.
pub fn trace(x: u64) {
    TRACE.with(|t| t.set(mix(t.get(), x)));
}

pub fn begin(case: &Case) {
    PROBLEMS.with(|p| p.borrow_mut().clear());
    COUNTS.with(|c| c.borrow_mut().clear());
    TRACE.with(|t| t.set(0));
    EVENTS.with(|e| *e.borrow_mut() = if case.want_desc { Some(vec![]) } else { None });
}

pub fn finish(case: &mut Case) {
    for (p, m) in PROBLEMS.with(|p| std::mem::take(&mut *p.borrow_mut())) {
        case.fail(p, m);
    }
    for (k, v) in COUNTS.with(|c| std::mem::take(&mut *c.borrow_mut())) {
        case.count(k, v);
    }
    case.mix_sig(TRACE.with(|t| t.get()));
    if let Some(e) = EVENTS.with(|e| e.borrow_mut().take()) {
        case.desc.extend(e);
    }
}

/// Runs one case with the collectors set up; what was observed is kept also when it panics.
pub fn with_case(case: &mut Case, f: impl FnOnce(&mut Case)) {
    begin(case);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(case)));
    finish(case);
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}

// ---------------------------------------------------------------------------

#[derive(Default)]
pub struct Flag {
    woken: AtomicBool,
    wakes: AtomicU64,
}

impl Flag {
    pub fn is_woken(&self) -> bool {
        self.woken.load(Ordering::SeqCst)
    }
    pub fn reset(&self) {
        self.woken.store(false, Ordering::SeqCst);
    }
    pub fn wakes(&self) -> u64 {
        self.wakes.load(Ordering::SeqCst)
    }
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Item,
    End,
    Pending,
}

impl Step {
    pub fn of<T>(p: &Poll<Option<T>>) -> Step {
        match p {
            Poll::Ready(Some(_)) => Step::Item,
            Poll::Ready(None) => Step::End,
            Poll::Pending => Step::Pending,
        }
    }
}

/// A task which polls only when the waker it passed to its most recent poll has been woken
/// (or the last poll was ready).
pub struct Task {
    pub flag: Arc<Flag>,
    pub ready: bool,
    pub ended: bool,
    pub polls: u64,
    pub items: u64,
    pub spurious_items: u64,
}

impl Task {
    pub fn new() -> Self {
        Task { flag: Arc::new(Flag::default()), ready: true, ended: false, polls: 0, items: 0, spurious_items: 0 }
    }

    pub fn wants(&self) -> bool {
        !self.ended && (self.ready || self.flag.is_woken())
    }

    /// Polls once, whether woken or not.
    pub fn force(&mut self, rng: &mut Rng, poll: impl FnOnce(&mut Context) -> Step) -> Step {
        if self.ended {
            return Step::End;
        }
        let wanted = self.wants();
        if rng.flip() {
            self.flag = Arc::new(Flag::default());
        }
        self.flag.reset();
        let waker: Waker = self.flag.clone().into();
        self.polls += 1;
        count("polls", 1);
        let step = poll(&mut Context::from_waker(&waker));
        trace(step as u64);
        match step {
            Step::Item => {
                self.ready = true;
                self.items += 1;
                if !wanted {
                    self.spurious_items += 1;
                }
            }
            Step::End => {
                self.ended = true;
                count("ends_seen", 1);
            }
            Step::Pending => self.ready = false,
        }
        step
    }

    /// Polls once if woken
    pub fn step(&mut self, rng: &mut Rng, poll: impl FnOnce(&mut Context) -> Step) -> bool {
        if self.wants() {
            self.force(rng, poll);
            true
        } else {
            false
        }
    }
}

// ---------------------------------------------------------------------------

/// Changes of sources which happen while something is being polled.
#[derive(Default)]
pub struct Chaos {
    pub budget: Cell<u32>,
    busy: Cell<bool>,
    pub one_in: Cell<u64>,
    rng: RefCell<Option<Rng>>,
    act: RefCell<Option<Box<dyn Fn(&mut Rng)>>>,
}

impl Chaos {
    pub fn install(&self, rng: Rng, one_in: u64, act: Box<dyn Fn(&mut Rng)>) {
        *self.rng.borrow_mut() = Some(rng);
        self.one_in.set(one_in);
        *self.act.borrow_mut() = Some(act);
    }

    pub fn clear(&self) {
        self.act.borrow_mut().take();
    }

    pub fn point(&self) {
        if self.busy.get() || self.budget.get() == 0 {
            return;
        }
        let mut rng = match self.rng.borrow_mut().as_mut() {
            Some(r) => {
                if !r.chance(1, self.one_in.get()) {
                    return;
                }
                r.fork()
            }
            None => return,
        };
        self.busy.set(true);
        self.budget.set(self.budget.get() - 1);
        if let Some(act) = self.act.borrow().as_ref() {
            count("changes_during_poll", 1);
            act(&mut rng);
        }
        self.busy.set(false);
    }
}

pub type ChaosRef = Rc<Chaos>;

/// A log of values, compared by number and hash.
#[derive(Default)]
pub struct Log {
    pub n: Cell<u64>,
    ordered: Cell<u64>,
    unordered: Cell<u64>,
}

impl Log {
    pub fn new() -> Rc<Log> {
        Rc::new(Log::default())
    }
    pub fn push(&self, v: i64) {
        let h = mix(v as u64, 77);
        self.n.set(self.n.get() + 1);
        self.ordered.set(mix(self.ordered.get(), h));
        self.unordered.set(self.unordered.get().wrapping_add(h));
    }
    pub fn same(&self, o: &Log, ordered: bool) -> bool {
        self.n.get() == o.n.get() && self.unordered.get() == o.unordered.get() && (!ordered || self.ordered.get() == o.ordered.get())
    }
}
