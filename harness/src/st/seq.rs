//! C12: the exact sequence of values which a chain of value combinators delivers, and of the calls of its closures.
//!
//! Each combinator is a transducer: every value its input delivers gives at most one value of its output. What the
//! source has really delivered is recorded, so that the expected sequence doesn't depend on when and how often it was polled.

use super::expr::odd;
use super::out::OutS;
use super::src::SigI;
use super::{count, event, problems, report, trace, with_case, Props};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal::{self, Signal, SignalExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const P12: Props = &["C12"];

struct Script {
    rng: RefCell<Rng>,
    range: usize,
    delivered: RefCell<Vec<i64>>,
    ended: Cell<bool>,
    may_end: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

struct Src(Rc<Script>);

impl Signal for Src {
    type Item = i64;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<i64>> {
        let s = &self.0;
        let mut rng = s.rng.borrow_mut();
        if s.ended.get() {
            report(P12, "the source is polled after it has ended");
            return Poll::Ready(None);
        }
        // a signal always has a first value
        if s.delivered.borrow().is_empty() || rng.chance(1, 2) {
            let v = rng.below(s.range) as i64;
            s.delivered.borrow_mut().push(v);
            event(|| format!("  the source delivers {}", v));
            Poll::Ready(Some(v))
        } else if s.may_end.get() && rng.chance(1, 3) {
            s.ended.set(true);
            event(|| "  the source ends".to_string());
            Poll::Ready(None)
        } else {
            *s.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Map,
    Inspect,
    Eq,
    Neq,
    Dedupe,
    DedupeCloned,
    DedupeMap,
    FilterMap,
    StopIf,
    First,
    Not,
    Debug,
    Boxed,
    OptionSome,
    ResultOk,
}

const OPS: [Op; 18] = [
    Op::Map,
    Op::Inspect,
    Op::Eq,
    Op::Neq,
    Op::Dedupe,
    Op::DedupeCloned,
    Op::DedupeMap,
    Op::FilterMap,
    Op::FilterMap,
    Op::FilterMap,
    Op::StopIf,
    Op::StopIf,
    Op::First,
    Op::Not,
    Op::Debug,
    Op::Boxed,
    Op::OptionSome,
    Op::ResultOk,
];

type Calls = Rc<RefCell<Vec<i64>>>;

/// What the combinator does with a sequence: (delivered, arguments of the closure, stopped by itself)
fn spec(op: Op, c: i64, input: &[i64]) -> (Vec<i64>, Vec<i64>, bool) {
    let mut out = vec![];
    let mut calls = vec![];
    let mut stopped = false;
    let mut prev: Option<i64> = None;
    let mut any = false;
    for &v in input {
        match op {
            Op::Map => {
                calls.push(v);
                // the closure has a state: the number of its calls
                out.push(v * 3 + calls.len() as i64 % 2);
            }
            Op::Inspect => {
                calls.push(v);
                out.push(v);
            }
            Op::Eq | Op::Neq => {
                let b = ((v == c) == (op == Op::Eq)) as i64;
                if prev != Some(b) {
                    out.push(b);
                }
                prev = Some(b);
            }
            Op::Dedupe | Op::DedupeCloned => {
                if prev != Some(v) {
                    out.push(v);
                }
                prev = Some(v);
            }
            Op::DedupeMap => {
                if prev != Some(v) {
                    calls.push(v);
                    out.push(v / 2);
                }
                prev = Some(v);
            }
            Op::FilterMap => {
                calls.push(v);
                if odd(v + c) {
                    out.push(v + 1);
                } else if !any {
                    out.push(-3);
                }
                any = true;
            }
            Op::StopIf => {
                calls.push(v);
                out.push(v);
                if v % 4 == c {
                    stopped = true;
                    break;
                }
            }
            Op::First => {
                out.push(v);
                stopped = true;
                break;
            }
            Op::Not => out.push(!odd(v) as i64),
            Op::Debug | Op::Boxed | Op::OptionSome | Op::ResultOk => out.push(v),
        }
    }
    (out, calls, stopped)
}

struct AssertSend<A>(A);
unsafe impl<A> Send for AssertSend<A> {}
impl<A: Signal + Unpin> Signal for AssertSend<A> {
    type Item = A::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<A::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}

fn build(op: Op, c: i64, s: SigI, calls: Calls) -> SigI {
    let called = move |v: i64| {
        calls.borrow_mut().push(v);
        calls.borrow().len() as i64
    };
    match op {
        Op::Map => Box::pin(s.map(move |v| v * 3 + called(v) % 2)),
        Op::Inspect => Box::pin(s.inspect(move |v| {
            called(*v);
        })),
        Op::Eq => Box::pin(s.eq(c).map(|b| b as i64)),
        Op::Neq => Box::pin(s.neq(c).map(|b| b as i64)),
        Op::Dedupe => Box::pin(s.dedupe()),
        Op::DedupeCloned => Box::pin(s.map(|v| v.to_string()).dedupe_cloned().map(|v| v.parse().unwrap())),
        Op::DedupeMap => Box::pin(s.dedupe_map(move |v| {
            called(*v);
            *v / 2
        })),
        Op::FilterMap => Box::pin(
            s.filter_map(move |v| {
                called(v);
                if odd(v + c) {
                    Some(v + 1)
                } else {
                    None
                }
            })
            .map(|v| v.unwrap_or(-3)),
        ),
        Op::StopIf => Box::pin(s.stop_if(move |v| {
            called(*v);
            *v % 4 == c
        })),
        Op::First => Box::pin(s.first()),
        Op::Not => Box::pin(signal::not(s.map(odd)).map(|b| b as i64)),
        Op::Debug => Box::pin(s.debug()),
        Op::Boxed => Box::pin(AssertSend(s).boxed().boxed_local()),
        Op::OptionSome => Box::pin(signal::option(Some(s)).map(|v| v.unwrap_or(-7))),
        Op::ResultOk => Box::pin(signal::result::<_, ()>(Ok(s)).map(|v| v.unwrap_or(-8))),
    }
}

pub fn run(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let script = Rc::new(Script {
            range: *rng.pick(&[2usize, 3, 5, 20]),
            rng: RefCell::new(Rng::new(rng.next())),
            delivered: RefCell::default(),
            ended: Cell::new(false),
            may_end: Cell::new(rng.chance(1, 4)),
            waker: RefCell::default(),
        });
        let mut sig: SigI = Box::pin(Src(script.clone()));
        let ops: Vec<(Op, i64)> = (0..1 + rng.below(3)).map(|_| (*rng.pick(&OPS), rng.below(4) as i64)).collect();
        let mut calls: Vec<Calls> = vec![];
        for (op, c) in &ops {
            calls.push(Calls::default());
            sig = build(*op, *c, sig, calls.last().unwrap().clone());
        }
        event(|| format!("{:?}", ops));
        case.note(|| format!("{:?}", ops));
        for (op, _) in &ops {
            trace(*op as u64);
        }
        let mut out: OutS<i64> = OutS::new(sig, rng, P12);
        // These don't poll their input again, and the others only pass on what that gives
        out.out.fused = ops.iter().any(|(op, _)| matches!(op, Op::First | Op::StopIf));
        let check = |out: &OutS<i64>| {
            let mut values = script.delivered.borrow().clone();
            let mut over = script.ended.get();
            for (i, (op, c)) in ops.iter().enumerate() {
                let (o, args, stopped) = spec(*op, *c, &values);
                if *calls[i].borrow() != args {
                    report(P12, format!("the closure of {:?} was called with {:?} instead of {:?}", op, calls[i].borrow(), args));
                    return;
                }
                values = o;
                over |= stopped;
            }
            if out.history != values {
                report(P12, format!("{:?} delivered {:?} instead of {:?}", ops, out.history, values));
            } else if out.out.task.ended && !over {
                report(P12, format!("{:?} has ended although its input has not", ops));
            } else if !out.out.task.ended && over && !out.out.task.wants() {
                report(P12, format!("{:?} has not ended although its input has, or it has stopped", ops));
            }
        };
        let steps = 3 + rng.below(25);
        for i in 0..steps {
            if i + 3 >= steps {
                script.may_end.set(true);
            }
            if rng.chance(1, 2) {
                let w = script.waker.borrow_mut().take();
                if let Some(w) = w {
                    w.wake();
                }
            }
            let force = rng.chance(1, 8);
            if out.once(rng, force) {
                check(&out);
                count("polls_judged", 1);
            }
            if problems() || out.out.task.ended {
                break;
            }
        }
        trace(script.delivered.borrow().len() as u64);
        trace(out.history.iter().fold(7, |a, v| a.wrapping_mul(31).wrapping_add(*v as u64)));
        case.nontrivial = out.history.len() >= 2 && out.out.task.polls >= 3;
    })
}
