//! Futures which finish when the monitor says so, and which watch how they are used.

use super::{count, report, ChaosRef, Props};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub struct Gate {
    pub value: i64,
    open: Cell<bool>,
    pub polls: Cell<u64>,
    pub done: Cell<bool>,
    pub dropped: Cell<bool>,
    waker: RefCell<Option<Waker>>,
    props: Props,
    chaos: ChaosRef,
    name: &'static str,
}

impl Gate {
    pub fn new(value: i64, open: bool, name: &'static str, props: Props, chaos: &ChaosRef) -> (Rc<Gate>, GateFut) {
        let g = Rc::new(Gate {
            value,
            open: Cell::new(open),
            polls: Cell::new(0),
            done: Cell::new(false),
            dropped: Cell::new(false),
            waker: RefCell::new(None),
            props,
            chaos: chaos.clone(),
            name,
        });
        count("futures_made", 1);
        (g.clone(), GateFut(g))
    }

    pub fn is_open(&self) -> bool {
        self.open.get()
    }

    pub fn open(&self) {
        self.open.set(true);
        let w = self.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}

pub struct GateFut(Rc<Gate>);

impl Future for GateFut {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<i64> {
        let g = &self.0;
        if g.done.get() {
            report(g.props, format!("{} was polled again after it had finished", g.name));
            return Poll::Pending;
        }
        g.polls.set(g.polls.get() + 1);
        count("future_polls", 1);
        g.chaos.point();
        let r = if g.open.get() {
            g.done.set(true);
            g.waker.borrow_mut().take();
            Poll::Ready(g.value)
        } else {
            *g.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        };
        g.chaos.point();
        r
    }
}

impl Drop for GateFut {
    fn drop(&mut self) {
        if self.0.dropped.replace(true) {
            report(&["C09"], "a future was dropped twice");
        }
        self.0.waker.borrow_mut().take();
    }
}

/// The same without output
pub struct Delay(pub GateFut);

impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx).map(|_| ())
    }
}
