//! Consumers: tasks which follow a signal, a signal vec or a signal map.

use super::src::{apply_map, apply_vec, MapI, SigI, VecI};
use super::{count, event, report, trace, Props, Step, Task};
use crate::rng::Rng;
use futures_core::Stream;
use futures_signals::signal::{Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, SignalMapExt};
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const LIMIT: u64 = 100_000;

/// How a consumer drives what it consumes.
enum Via<D, S> {
    Poll(S),
    Stream(Pin<Box<dyn Stream<Item = D>>>),
    ForEach(Pin<Box<dyn Future<Output = ()>>>, Rc<RefCell<VecDeque<D>>>),
    Gone,
}

pub struct Out<D, S> {
    pub task: Task,
    via: Via<D, S>,
    poll: fn(&mut S, &mut Context) -> Poll<Option<D>>,
    props: Props,
    what: &'static str,
    seen: Vec<D>,
    /// It may be polled after its end as well, then it stays ended and leaves its inputs alone
    pub fused: bool,
}

impl<D, S> Out<D, S> {
    /// Polls once; what was delivered is appended to `seen`.
    fn poll_once(&mut self, rng: &mut Rng, force: bool) -> bool {
        if !force && !self.task.wants() {
            return false;
        }
        if self.task.ended {
            return false;
        }
        let poll = self.poll;
        let via = &mut self.via;
        let seen = &mut self.seen;
        let step = self.task.force(rng, |cx| match via {
            Via::Poll(s) => {
                let p = poll(s, cx);
                let step = Step::of(&p);
                if let Poll::Ready(Some(d)) = p {
                    seen.push(d);
                }
                step
            }
            Via::Stream(s) => {
                let p = s.as_mut().poll_next(cx);
                let step = Step::of(&p);
                if let Poll::Ready(Some(d)) = p {
                    seen.push(d);
                }
                step
            }
            Via::ForEach(f, q) => {
                let p = f.as_mut().poll(cx);
                seen.extend(q.borrow_mut().drain(..));
                match p {
                    Poll::Ready(()) => Step::End,
                    Poll::Pending => Step::Pending,
                }
            }
            Via::Gone => panic!("HARNESS: polled after drop"),
        });
        if step == Step::End && self.fused && rng.flip() {
            if let Via::Poll(s) = &mut self.via {
                for _ in 0..rng.range(1, 3) {
                    super::LATE.with(|l| l.set(true));
                    let p = poll(s, &mut Context::from_waker(std::task::Waker::noop()));
                    super::LATE.with(|l| l.set(false));
                    count("polls_after_the_end", 1);
                    if !matches!(p, Poll::Ready(None)) {
                        report(self.props, format!("the {} did not stay ended", self.what));
                    }
                }
            }
        }
        if step == Step::End && rng.flip() {
            self.via = Via::Gone;
        }
        true
    }

    pub fn drop_inner(&mut self) {
        self.via = Via::Gone;
    }

    fn too_many(&self, n: u64) -> bool {
        if n > LIMIT {
            report(self.props, format!("{}: still not settled after {} polls without any change", self.what, n));
            true
        } else {
            false
        }
    }
}

pub type OutS<T> = FollowS<T>;

pub struct FollowS<T> {
    pub out: Out<T, Pin<Box<dyn Signal<Item = T>>>>,
    pub last: Option<T>,
    pub history: Vec<T>,
}

impl<T: Clone + std::fmt::Debug + 'static> FollowS<T> {
    pub fn polled(s: Pin<Box<dyn Signal<Item = T>>>, props: Props) -> Self {
        FollowS {
            out: Out { task: Task::new(), via: Via::Poll(s), poll: |s, cx| s.as_mut().poll_change(cx), props, what: "signal", seen: vec![], fused: false },
            last: None,
            history: vec![],
        }
    }

    pub fn new(s: Pin<Box<dyn Signal<Item = T>>>, rng: &mut Rng, props: Props) -> Self {
        let via = match rng.below(4) {
            0 => Via::Stream(Box::pin(s.to_stream())),
            1 => {
                let q = Rc::new(RefCell::new(VecDeque::new()));
                let q2 = q.clone();
                Via::ForEach(
                    Box::pin(s.for_each(move |v| {
                        q2.borrow_mut().push_back(v);
                        futures_util::future::ready(())
                    })),
                    q,
                )
            }
            _ => Via::Poll(s),
        };
        FollowS {
            out: Out { task: Task::new(), via, poll: |s, cx| s.as_mut().poll_change(cx), props, what: "signal", seen: vec![], fused: false },
            last: None,
            history: vec![],
        }
    }

    pub fn once(&mut self, rng: &mut Rng, force: bool) -> bool {
        let r = self.out.poll_once(rng, force);
        for v in self.out.seen.drain(..) {
            event(|| format!("  -> {:?}", v));
            count("values_seen", 1);
            self.history.push(v.clone());
            self.last = Some(v);
        }
        r
    }

    pub fn settle(&mut self, rng: &mut Rng) {
        let mut n = 0;
        while self.once(rng, false) {
            n += 1;
            if self.out.too_many(n) {
                return;
            }
        }
    }
}

pub struct OutV<T> {
    pub out: Out<VecDiff<T>, Pin<Box<dyn SignalVec<Item = T>>>>,
    pub list: Vec<T>,
    pub diffs: u64,
    pub broken: bool,
    /// What an update has replaced, and by what
    pub updated: Vec<(T, T)>,
}

impl<T: Clone + std::fmt::Debug + 'static> OutV<T> {
    pub fn new(s: Pin<Box<dyn SignalVec<Item = T>>>, rng: &mut Rng, props: Props) -> Self {
        let via = match rng.below(4) {
            0 => Via::Stream(Box::pin(s.to_stream())),
            1 => {
                let q = Rc::new(RefCell::new(VecDeque::new()));
                let q2 = q.clone();
                Via::ForEach(
                    Box::pin(s.for_each(move |v| {
                        q2.borrow_mut().push_back(v);
                        futures_util::future::ready(())
                    })),
                    q,
                )
            }
            _ => Via::Poll(s),
        };
        OutV {
            out: Out { task: Task::new(), via, poll: |s, cx| s.as_mut().poll_vec_change(cx), props, what: "signal vec", seen: vec![], fused: false },
            list: vec![],
            diffs: 0,
            broken: false,
            updated: vec![],
        }
    }

    pub fn once(&mut self, rng: &mut Rng, force: bool) -> bool {
        if self.broken {
            return false;
        }
        let r = self.out.poll_once(rng, force);
        for d in std::mem::take(&mut self.out.seen) {
            event(|| format!("  -> {:?}", d));
            count(diff_name(&d), 1);
            trace(diff_name(&d).len() as u64);
            self.diffs += 1;
            if let VecDiff::UpdateAt { index, value } = &d {
                if let Some(old) = self.list.get(*index) {
                    self.updated.push((old.clone(), value.clone()));
                }
            }
            if let Err(e) = apply_vec(d, &mut self.list) {
                report(self.out.props, format!("the output delivered an {}", e));
                self.broken = true;
                break;
            }
            trace(self.list.len() as u64);
        }
        r
    }

    pub fn settle(&mut self, rng: &mut Rng) {
        let mut n = 0;
        while self.once(rng, false) {
            n += 1;
            if self.out.too_many(n) {
                self.broken = true;
                return;
            }
        }
    }
}

pub fn diff_name<T>(d: &VecDiff<T>) -> &'static str {
    match d {
        VecDiff::Replace { .. } => "diff_replace",
        VecDiff::InsertAt { .. } => "diff_insert",
        VecDiff::UpdateAt { .. } => "diff_update",
        VecDiff::RemoveAt { .. } => "diff_remove",
        VecDiff::Move { .. } => "diff_move",
        VecDiff::Push { .. } => "diff_push",
        VecDiff::Pop {} => "diff_pop",
        VecDiff::Clear {} => "diff_clear",
    }
}

pub struct OutM {
    pub out: Out<MapDiff<i64, i64>, MapI>,
    pub map: BTreeMap<i64, i64>,
    pub broken: bool,
}

impl OutM {
    pub fn new(s: MapI, rng: &mut Rng, props: Props) -> Self {
        let via = match rng.below(3) {
            0 => {
                let q = Rc::new(RefCell::new(VecDeque::new()));
                let q2 = q.clone();
                Via::ForEach(
                    Box::pin(s.for_each(move |v| {
                        q2.borrow_mut().push_back(v);
                        futures_util::future::ready(())
                    })),
                    q,
                )
            }
            _ => Via::Poll(s),
        };
        OutM {
            out: Out { task: Task::new(), via, poll: |s, cx| s.as_mut().poll_map_change(cx), props, what: "signal map", seen: vec![], fused: false },
            map: BTreeMap::new(),
            broken: false,
        }
    }

    pub fn once(&mut self, rng: &mut Rng, force: bool) -> bool {
        if self.broken {
            return false;
        }
        let r = self.out.poll_once(rng, force);
        for d in std::mem::take(&mut self.out.seen) {
            event(|| format!("  -> {:?}", d));
            count("map_diffs", 1);
            if let Err(e) = apply_map(d, &mut self.map) {
                report(self.out.props, format!("the output delivered an invalid diff: {}", e));
                self.broken = true;
                break;
            }
            trace(self.map.len() as u64);
        }
        r
    }

    pub fn settle(&mut self, rng: &mut Rng) {
        let mut n = 0;
        while self.once(rng, false) {
            n += 1;
            if self.out.too_many(n) {
                self.broken = true;
                return;
            }
        }
    }
}

pub enum AnyOut {
    S(OutS<i64>),
    V(OutV<i64>),
    M(OutM),
}

impl AnyOut {
    pub fn s(s: SigI, rng: &mut Rng, p: Props) -> Self {
        AnyOut::S(OutS::new(s, rng, p))
    }
    pub fn v(s: VecI, rng: &mut Rng, p: Props) -> Self {
        AnyOut::V(OutV::new(s, rng, p))
    }
    pub fn m(s: MapI, rng: &mut Rng, p: Props) -> Self {
        AnyOut::M(OutM::new(s, rng, p))
    }
    pub fn once(&mut self, rng: &mut Rng, force: bool) -> bool {
        match self {
            AnyOut::S(o) => o.once(rng, force),
            AnyOut::V(o) => o.once(rng, force),
            AnyOut::M(o) => o.once(rng, force),
        }
    }
    pub fn settle(&mut self, rng: &mut Rng) {
        match self {
            AnyOut::S(o) => o.settle(rng),
            AnyOut::V(o) => o.settle(rng),
            AnyOut::M(o) => o.settle(rng),
        }
    }
    pub fn task(&self) -> &Task {
        match self {
            AnyOut::S(o) => &o.out.task,
            AnyOut::V(o) => &o.out.task,
            AnyOut::M(o) => &o.out.task,
        }
    }
    pub fn fused(&mut self, fused: bool) {
        match self {
            AnyOut::S(o) => o.out.fused = fused,
            AnyOut::V(o) => o.out.fused = fused,
            AnyOut::M(o) => o.out.fused = fused,
        }
    }
    pub fn drop_inner(&mut self) {
        match self {
            AnyOut::S(o) => o.out.drop_inner(),
            AnyOut::V(o) => o.out.drop_inner(),
            AnyOut::M(o) => o.out.drop_inner(),
        }
    }
}
