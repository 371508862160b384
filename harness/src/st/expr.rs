//! Expressions which denote pipelines. Each one can be built with the crate's adapters and
//! evaluated independently from the current contents of the sources.

use super::src::{CellSrc, MapI, MapSrc, SigI, SubHandle, VecI, VecSrc};
use super::{count, report, ChaosRef, Log, Props, PROTOCOL};
use crate::rng::Rng;
use futures_signals::signal::{self, Mutable, Signal, SignalExt};
use futures_signals::signal_map::{self, MapDiff, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{self, SignalVec, SignalVecExt, VecDiff};
use futures_signals::{map_mut, map_ref};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub m: i64,
}

impl F {
    pub fn gen(rng: &mut Rng, in_template: bool) -> F {
        let m = *rng.pick(&[3, 7, 1009, 1009, 99991]);
        F { a: *rng.pick(&[0, 1, 1, 1, 3, 17]), b: if in_template { rng.range(0, 5) as i64 } else { 0 }, c: rng.range(0, 9) as i64, m }
    }
    pub fn call(&self, v: i64, x: i64) -> i64 {
        (v.wrapping_mul(self.a).wrapping_add(x.wrapping_mul(self.b)).wrapping_add(self.c)).rem_euclid(self.m)
    }
}

pub fn odd(v: i64) -> bool {
    v.rem_euclid(2) == 1
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Un {
    Map,
    Inspect,
    Eq,
    Neq,
    Dedupe,
    DedupeCloned,
    DedupeMap,
    Not,
    Boxed,
    Debug,
    OptionSome,
    ResultOk,
    Broadcast,
    ViaStream,
    FlattenAlways,
    Throttle0,
    MapFuture0,
    ByMut,
}

pub const UNS: &[Un] = &[
    Un::Map,
    Un::Inspect,
    Un::Eq,
    Un::Neq,
    Un::Dedupe,
    Un::DedupeCloned,
    Un::DedupeMap,
    Un::Not,
    Un::Boxed,
    Un::Debug,
    Un::OptionSome,
    Un::ResultOk,
    Un::Broadcast,
    Un::ViaStream,
    Un::FlattenAlways,
    Un::Throttle0,
    Un::MapFuture0,
    Un::ByMut,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Agg {
    Len,
    IsEmpty,
    Sum,
    Cloned,
    Map,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Many {
    Ref,
    Mut,
    And,
    Or,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Keep {
    FilterMap,
    StopIf,
    First,
}

/// Signals
#[derive(Debug)]
pub enum S {
    Cell(usize),
    /// The cell which the parameter selects
    CellBy(F),
    Param,
    Const(i64),
    ConstOption(Option<i64>),
    ConstResult(i64),
    FromFuture(i64),
    Un(Un, F, Box<S>),
    Many(Many, F, Vec<S>),
    Switch(F, Box<S>, Rc<S>),
    Flatten(F, Box<S>, Rc<S>),
    Agg(Agg, F, Box<V>),
    Key(i64, Box<M>),
    Keep(Keep, F, Box<S>, Rc<RefCell<KeepState>>),
}

/// Signal vecs
#[derive(Debug)]
pub enum V {
    Src(usize),
    /// The list which the parameter selects
    SrcBy(F),
    Always(F, usize),
    Map(F, Box<V>),
    Filter(F, Box<V>),
    FilterMap(F, Box<V>),
    MapSignal(Box<V>, Rc<S>),
    FilterSignal(Box<V>, Rc<S>),
    Sort(F, Box<V>),
    Chain(Box<V>, Box<V>),
    Flatten(Box<V>, Rc<V>),
    Enumerate(F, Box<V>),
    SwitchVec(Box<S>, Rc<V>),
    ToSignalVec(F, Box<S>),
    Keys(usize),
    Entries(F, usize),
    Delay0(Box<V>),
    Boxed(Box<V>),
    Debug(Box<V>),
    ViaSignal(Box<V>),
    FromStream(Vec<i64>),
}

/// Signal maps
#[derive(Debug)]
pub enum M {
    Src(usize),
    Always(F, usize),
    MapValue(F, Box<M>),
    MapValueSignal(Box<M>, Rc<S>),
    Boxed(Box<M>),
}

/// An upper bound of how many items or leaves something has at once, if the sources have at most `n`
impl S {
    pub fn size(&self, n: usize) -> usize {
        match self {
            S::Cell(_) | S::CellBy(_) | S::Param | S::Const(_) | S::ConstOption(_) | S::ConstResult(_) | S::FromFuture(_) => 1,
            S::Un(_, _, s) | S::Keep(_, _, s, _) => s.size(n),
            S::Many(_, _, l) => l.iter().map(|s| s.size(n)).sum(),
            S::Switch(_, a, b) | S::Flatten(_, a, b) => a.size(n).saturating_add(b.size(n)),
            S::Agg(_, _, v) => v.size(n),
            S::Key(_, m) => m.size(n),
        }
    }
}

impl V {
    pub fn size(&self, n: usize) -> usize {
        match self {
            V::Src(_) | V::SrcBy(_) | V::Always(..) | V::Keys(_) | V::Entries(..) | V::FromStream(_) => n.max(4),
            V::Map(_, v) | V::Filter(_, v) | V::FilterMap(_, v) | V::Sort(_, v) | V::Enumerate(_, v) => v.size(n),
            V::Delay0(v) | V::Boxed(v) | V::Debug(v) | V::ViaSignal(v) => v.size(n),
            V::MapSignal(v, s) | V::FilterSignal(v, s) => v.size(n).saturating_mul(s.size(n)),
            V::Chain(a, b) => a.size(n).saturating_add(b.size(n)),
            V::Flatten(a, b) => a.size(n).saturating_mul(b.size(n)),
            V::SwitchVec(a, b) => a.size(n).saturating_add(b.size(n)),
            V::ToSignalVec(_, s) => s.size(n).max(4),
        }
    }
}

impl M {
    pub fn size(&self, n: usize) -> usize {
        match self {
            M::Src(_) | M::Always(..) => n.max(4),
            M::MapValue(_, m) | M::Boxed(m) => m.size(n),
            M::MapValueSignal(m, s) => m.size(n).saturating_mul(s.size(n)),
        }
    }
}

pub enum Any {
    S(S),
    V(V),
    M(M),
}

impl Any {
    /// Whether it ends for good by itself, and doesn't only pass on the end of its input
    pub fn fused(&self) -> bool {
        match self {
            Any::S(s) => match s {
                S::Const(_) | S::FromFuture(_) | S::Many(..) | S::Switch(..) | S::Flatten(..) => true,
                S::Keep(k, ..) => *k != Keep::FilterMap,
                S::Un(u, ..) => matches!(u, Un::FlattenAlways | Un::Throttle0 | Un::MapFuture0 | Un::Broadcast),
                _ => false,
            },
            Any::V(v) => matches!(v, V::Always(..) | V::MapSignal(..) | V::FilterSignal(..) | V::Chain(..) | V::Flatten(..) | V::SwitchVec(..) | V::Delay0(_) | V::FromStream(_)),
            Any::M(m) => matches!(m, M::Always(..) | M::MapValueSignal(..)),
        }
    }
}

impl std::fmt::Debug for Any {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Any::S(x) => x.fmt(f),
            Any::V(x) => x.fmt(f),
            Any::M(x) => x.fmt(f),
        }
    }
}

/// What a stateful adapter has been given and must therefore carry.
#[derive(Debug, Default)]
pub struct KeepState {
    delivered: u64,
    last: i64,
    accepted: Option<i64>,
    stopped: Option<i64>,
    first: Option<i64>,
}

pub struct EnvInner {
    pub cells: Vec<Rc<CellSrc>>,
    pub vecs: Vec<Rc<VecSrc>>,
    pub maps: Vec<Rc<MapSrc>>,
    pub props: Props,
    pub chaos: ChaosRef,
    pub monitors: RefCell<Vec<Box<dyn Fn() -> Option<String>>>>,
}

pub type Env = Rc<EnvInner>;

impl EnvInner {
    fn monitor(&self, f: impl Fn() -> Option<String> + 'static) {
        let mut m = self.monitors.borrow_mut();
        if m.len() < 2000 {
            m.push(Box::new(f));
        }
    }

    pub fn check_monitors(&self) {
        for m in self.monitors.borrow().iter() {
            if let Some(e) = m() {
                report(self.props, e);
                break;
            }
        }
    }
}

/// Number of subscriptions to each source which a pipeline may still need.
#[derive(Default)]
pub struct Need {
    /// A stopped adapter keeps an input, whose subscriptions depend on when it stopped
    pub unknown: bool,
    pub cells: BTreeMap<usize, i64>,
    pub vecs: BTreeMap<usize, i64>,
    pub maps: BTreeMap<usize, i64>,
}

/// Whether something has ended (None: not determined)
pub type Ended = Option<bool>;

fn all(it: impl IntoIterator<Item = Ended>) -> Ended {
    let mut r = Some(true);
    for e in it {
        match e {
            Some(true) => {}
            Some(false) => return Some(false),
            None => r = None,
        }
    }
    r
}

// ---------------------------------------------------------------------------
// Monitors on the edges

/// Watches a signal: the first poll must be ready, and it isn't polled after its end.
struct TapS<A> {
    inner: A,
    polls: Rc<Cell<u64>>,
    arrived: Rc<Log>,
    finished: bool,
    no_dup: bool,
    last: Option<i64>,
    name: &'static str,
    props: Props,
}

impl Signal for TapS<SigI> {
    type Item = i64;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<i64>> {
        let this = self.get_mut();
        if this.finished {
            if super::LATE.with(|l| l.take()) {
                return this.inner.as_mut().poll_change(cx);
            }
            report(PROTOCOL, format!("{} was polled after it reported its end", this.name));
            return Poll::Ready(None);
        }
        this.polls.set(this.polls.get() + 1);
        let p = this.inner.as_mut().poll_change(cx);
        match &p {
            Poll::Ready(Some(v)) => {
                this.arrived.push(*v);
                if this.no_dup && this.last == Some(*v) {
                    report(this.props, format!("{} delivered the equal value {} twice in a row", this.name, v));
                }
                this.last = Some(*v);
            }
            Poll::Ready(None) => {
                this.finished = true;
                if this.last.is_none() {
                    report(this.props, format!("{} ended without having delivered a value", this.name));
                }
            }
            Poll::Pending => {
                if this.last.is_none() {
                    report(this.props, format!("{} was pending when it was polled the first time", this.name));
                }
            }
        }
        p
    }
}

struct TapV {
    inner: VecI,
    arrived: Rc<Log>,
    len: usize,
    finished: bool,
    name: &'static str,
    props: Props,
}

impl SignalVec for TapV {
    type Item = i64;
    fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<i64>>> {
        let this = self.get_mut();
        if this.finished {
            if super::LATE.with(|l| l.take()) {
                return this.inner.as_mut().poll_vec_change(cx);
            }
            report(PROTOCOL, format!("{} was polled after it reported its end", this.name));
            return Poll::Ready(None);
        }
        let p = this.inner.as_mut().poll_vec_change(cx);
        match &p {
            Poll::Ready(Some(d)) => {
                let len = this.len;
                let bad = match d {
                    VecDiff::Replace { values } => {
                        values.iter().for_each(|v| this.arrived.push(*v));
                        this.len = values.len();
                        false
                    }
                    VecDiff::InsertAt { index, value } => {
                        this.arrived.push(*value);
                        this.len += 1;
                        *index > len
                    }
                    VecDiff::UpdateAt { index, value } => {
                        this.arrived.push(*value);
                        *index >= len
                    }
                    VecDiff::RemoveAt { index } => {
                        this.len = len.saturating_sub(1);
                        *index >= len
                    }
                    VecDiff::Move { old_index, new_index } => *old_index >= len || *new_index >= len,
                    VecDiff::Push { value } => {
                        this.arrived.push(*value);
                        this.len += 1;
                        false
                    }
                    VecDiff::Pop {} => {
                        this.len = len.saturating_sub(1);
                        len == 0
                    }
                    VecDiff::Clear {} => {
                        this.len = 0;
                        false
                    }
                };
                if bad {
                    report(this.props, format!("{} delivered the invalid diff {:?} for a list of {} items", this.name, d, len));
                }
            }
            Poll::Ready(None) => this.finished = true,
            Poll::Pending => {}
        }
        p
    }
}

struct TapM {
    inner: MapI,
    arrived: Rc<Log>,
    finished: bool,
    name: &'static str,
}

impl SignalMap for TapM {
    type Key = i64;
    type Value = i64;
    fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<i64, i64>>> {
        let this = self.get_mut();
        if this.finished {
            if super::LATE.with(|l| l.take()) {
                return this.inner.as_mut().poll_map_change(cx);
            }
            report(PROTOCOL, format!("{} was polled after it reported its end", this.name));
            return Poll::Ready(None);
        }
        let p = this.inner.as_mut().poll_map_change(cx);
        match &p {
            Poll::Ready(Some(MapDiff::Replace { entries })) => entries.iter().for_each(|(_, v)| this.arrived.push(*v)),
            Poll::Ready(Some(MapDiff::Insert { value, .. })) | Poll::Ready(Some(MapDiff::Update { value, .. })) => this.arrived.push(*value),
            Poll::Ready(None) => this.finished = true,
            _ => {}
        }
        p
    }
}

/// Declares something to be `Send`; everything of a case stays on one thread.
struct AssertSend<A>(A);
unsafe impl<A> Send for AssertSend<A> {}

impl<A: Signal + Unpin> Signal for AssertSend<A> {
    type Item = A::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<A::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}
impl<A: SignalVec + Unpin> SignalVec for AssertSend<A> {
    type Item = A::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
        Pin::new(&mut self.0).poll_vec_change(cx)
    }
}
impl<A: SignalMap + Unpin> SignalMap for AssertSend<A> {
    type Key = A::Key;
    type Value = A::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<A::Key, A::Value>>> {
        Pin::new(&mut self.0).poll_map_change(cx)
    }
}

struct Tapped {
    sig: SigI,
    polls: Rc<Cell<u64>>,
    arrived: Rc<Log>,
}

fn tap_s(env: &Env, inner: SigI, name: &'static str, no_dup: bool) -> Tapped {
    let polls = Rc::new(Cell::new(0));
    let arrived = Log::new();
    Tapped {
        sig: Box::pin(TapS { inner, polls: polls.clone(), arrived: arrived.clone(), finished: false, no_dup, last: None, name, props: env.props }),
        polls,
        arrived,
    }
}

fn tap_v(env: &Env, inner: VecI, name: &'static str) -> (VecI, Rc<Log>) {
    let arrived = Log::new();
    (Box::pin(TapV { inner, arrived: arrived.clone(), len: 0, finished: false, name, props: env.props }), arrived)
}

fn tap_m(inner: MapI, name: &'static str) -> (MapI, Rc<Log>) {
    let arrived = Log::new();
    (Box::pin(TapM { inner, arrived: arrived.clone(), finished: false, name }), arrived)
}

/// The closure must have been called exactly once for each arrived value
fn exactly(env: &Env, name: &'static str, arrived: &Rc<Log>, ordered: bool) -> Rc<Log> {
    let called = Log::new();
    let (a, c) = (arrived.clone(), called.clone());
    env.monitor(move || {
        if a.same(&c, ordered) {
            None
        } else {
            Some(format!("the closure of {} was called {} times for {} arrived values, or with other values or in another order", name, c.n.get(), a.n.get()))
        }
    });
    called
}

fn at_most(env: &Env, name: &'static str, limit: impl Fn() -> u64 + 'static) -> Rc<Cell<u64>> {
    let called = Rc::new(Cell::new(0));
    let c = called.clone();
    env.monitor(move || {
        if c.get() <= limit() {
            None
        } else {
            Some(format!("the closure of {} was called {} times, allowed are {}", name, c.get(), limit()))
        }
    });
    called
}

fn inc(c: &Rc<Cell<u64>>) {
    c.set(c.get() + 1);
}

// ---------------------------------------------------------------------------

impl S {
    pub fn build(&self, env: &Env, x: i64) -> SigI {
        let (sig, name, no_dup): (SigI, &'static str, bool) = match self {
            S::Cell(i) => (env.cells[*i].sub(), "source", false),
            S::CellBy(f) => (env.cells[select(*f, x, env.cells.len())].sub(), "source", false),
            S::Param => (Box::pin(signal::always(x)), "always", false),
            S::Const(c) => (Box::pin(signal::always(*c)), "always", false),
            S::ConstOption(o) => {
                let o: Option<i64> = *o;
                // with None it is a signal which carries None once
                let s = signal::option(o.map(signal::always));
                (Box::pin(s.map(|v| v.unwrap_or(-5))), "option", false)
            }
            S::ConstResult(c) => {
                let c = *c;
                let r: Result<signal::Always<i64>, i64> = if odd(c) { Ok(signal::always(c)) } else { Err(c) };
                (Box::pin(signal::result(r).map(|v| v.unwrap_or_else(|e| -e))), "result", false)
            }
            S::FromFuture(c) => {
                let c = *c;
                (Box::pin(signal::from_future(futures_util::future::ready(c)).map(|v| v.unwrap_or(-6))), "from_future", false)
            }
            S::Un(un, f, s) => {
                let t = tap_s(env, s.build(env, x), "the input of a signal adapter", false);
                let (polls, arrived, s) = (t.polls, t.arrived, t.sig);
                let f = *f;
                match un {
                    Un::Map => {
                        let calls = at_most(env, "map", move || arrived.n.get());
                        (Box::pin(s.map(move |v| {
                            inc(&calls);
                            f.call(v, x)
                        })), "map", false)
                    }
                    Un::Inspect => {
                        let calls = exactly(env, "inspect", &arrived, true);
                        (Box::pin(s.inspect(move |v| calls.push(*v))), "inspect", false)
                    }
                    Un::Eq => (Box::pin(s.map(|v| v.rem_euclid(3)).eq(f.c % 3).map(|b| b as i64)), "eq", true),
                    Un::Neq => (Box::pin(s.map(|v| v.rem_euclid(3)).neq(f.c % 3).map(|b| b as i64)), "neq", true),
                    Un::Dedupe => (Box::pin(s.dedupe()), "dedupe", true),
                    Un::DedupeCloned => (Box::pin(s.map(Box::new).dedupe_cloned().map(|b| *b)), "dedupe_cloned", true),
                    Un::DedupeMap => {
                        let calls = at_most(env, "dedupe_map", move || arrived.n.get());
                        let prev = Cell::new(None);
                        let props = env.props;
                        (Box::pin(s.dedupe_map(move |v| {
                            inc(&calls);
                            if prev.replace(Some(*v)) == Some(*v) {
                                report(props, "the closure of dedupe_map was called for an unchanged value");
                            }
                            f.call(*v, x)
                        })), "dedupe_map", false)
                    }
                    Un::Not => (Box::pin(signal::not(s.map(odd)).map(|b| b as i64)), "not", false),
                    Un::Boxed => (Box::pin(AssertSend(s).boxed().boxed_local()), "boxed", false),
                    Un::Debug => (Box::pin(s.debug()), "debug", false),
                    Un::OptionSome => (Box::pin(signal::option(Some(s)).map(|v| v.unwrap_or(-1))), "option", false),
                    Un::ResultOk => (Box::pin(signal::result::<_, ()>(Ok(s)).map(|v| v.unwrap_or(-1))), "result", false),
                    Un::Broadcast => {
                        let b = s.broadcast();
                        let b2 = b.clone();
                        drop(b);
                        if odd(f.c) {
                            (Box::pin(b2.signal_cloned()), "broadcast", false)
                        } else {
                            (Box::pin(b2.signal_ref(|x| *x)), "broadcast", false)
                        }
                    }
                    Un::ViaStream => (Box::pin(signal::from_stream(s.to_stream()).map(|v| v.unwrap_or(-1))), "from_stream", false),
                    Un::FlattenAlways => (Box::pin(s.map(signal::always).flatten()), "flatten", false),
                    Un::Throttle0 => {
                        let calls = at_most(env, "throttle", move || polls.get());
                        (Box::pin(s.throttle(move || {
                            inc(&calls);
                            futures_util::future::ready(())
                        })), "throttle", false)
                    }
                    Un::MapFuture0 => {
                        let calls = at_most(env, "map_future", move || arrived.n.get());
                        (Box::pin(s.map_future(move |v| {
                            inc(&calls);
                            futures_util::future::ready(f.call(v, x))
                        }).map(|v| v.unwrap_or(-1))), "map_future", false)
                    }
                    Un::ByMut => {
                        // signals are implemented for boxes, pins and references of signals
                        let b: Box<SigI> = Box::new(s);
                        (Box::pin(ByRef(Box::pin(b))), "box", false)
                    }
                }
            }
            S::Many(many, f, args) => {
                let f = *f;
                let mut polls = None;
                let mut sigs: Vec<SigI> = vec![];
                for a in args {
                    let t = tap_s(env, a.build(env, x), "an input of map_ref", false);
                    polls = Some(t.polls);
                    sigs.push(t.sig);
                }
                let _ = polls;
                let out_polls = Rc::new(Cell::new(0));
                let op = out_polls.clone();
                let calls = at_most(env, "map_ref", move || op.get());
                let sig = build_many(*many, f, x, sigs, calls);
                // counts the polls of the output
                (Box::pin(CountPolls { inner: sig, polls: out_polls }), "map_ref", false)
            }
            S::Switch(f, outer, inner) => {
                let t = tap_s(env, outer.build(env, x), "the outer signal of switch", false);
                let arrived = t.arrived;
                let calls = at_most(env, "switch", move || arrived.n.get());
                let (env2, inner, f) = (env.clone(), inner.clone(), *f);
                (Box::pin(t.sig.switch(move |v| {
                    inc(&calls);
                    inner.build(&env2, f.call(v, x))
                })), "switch", false)
            }
            S::Flatten(f, outer, inner) => {
                let t = tap_s(env, outer.build(env, x), "the outer signal of flatten", false);
                let (env2, inner, f) = (env.clone(), inner.clone(), *f);
                (Box::pin(t.sig.map(move |v| inner.build(&env2, f.call(v, x))).flatten()), "flatten", false)
            }
            S::Agg(agg, f, v) => {
                let (v, _) = tap_v(env, v.build(env, x), "the input of an aggregate");
                let f = *f;
                match agg {
                    Agg::Len => (Box::pin(v.len().map(|n| n as i64)), "len", false),
                    Agg::IsEmpty => (Box::pin(v.is_empty().map(|b| b as i64)), "is_empty", true),
                    Agg::Sum => (Box::pin(v.sum()), "sum", false),
                    Agg::Cloned => (Box::pin(v.to_signal_cloned().map(move |l| fold(f, &l))), "to_signal_cloned", false),
                    Agg::Map => (Box::pin(v.to_signal_map(move |l| fold(f, l))), "to_signal_map", false),
                }
            }
            S::Key(k, m) => {
                let (m, _) = tap_m(m.build(env, x), "the input of key_cloned");
                (Box::pin(m.key_cloned(*k).map(|v| v.unwrap_or(-2))), "key_cloned", false)
            }
            S::Keep(keep, f, s, state) => {
                let f = *f;
                *state.borrow_mut() = KeepState::default();
                let inner = s.build(env, x);
                let st = state.clone();
                let keep2 = *keep;
                let watched: SigI = Box::pin(Watch {
                    inner,
                    f: move |v: i64| {
                        let mut st = st.borrow_mut();
                        st.delivered += 1;
                        st.last = v;
                        if st.first.is_none() {
                            st.first = Some(v);
                        }
                        match keep2 {
                            Keep::FilterMap => {
                                if odd(f.call(v, 0)) {
                                    st.accepted = Some(v);
                                }
                            }
                            Keep::StopIf => {
                                if st.stopped.is_none() && f.call(v, 0) % 5 == 0 {
                                    st.stopped = Some(v);
                                }
                            }
                            Keep::First => {}
                        }
                    },
                });
                let t = tap_s(env, watched, "the input of a stateful adapter", false);
                let arrived = t.arrived;
                let s = t.sig;
                match keep {
                    Keep::FilterMap => {
                        let calls = at_most(env, "filter_map", move || arrived.n.get());
                        (Box::pin(s.filter_map(move |v| {
                            inc(&calls);
                            if odd(f.call(v, 0)) {
                                Some(v)
                            } else {
                                None
                            }
                        }).map(|v| v.unwrap_or(-3))), "filter_map", false)
                    }
                    Keep::StopIf => {
                        let calls = at_most(env, "stop_if", move || arrived.n.get());
                        (Box::pin(s.stop_if(move |v| {
                            inc(&calls);
                            f.call(*v, 0) % 5 == 0
                        })), "stop_if", false)
                    }
                    Keep::First => (Box::pin(s.first()), "first", false),
                }
            }
        };
        count_node(name);
        tap_s(env, sig, name, no_dup).sig
    }

    /// The current value and whether it has ended.
    pub fn eval(&self, env: &Env, x: i64, need: &mut Need) -> (i64, Ended) {
        match self {
            S::Cell(i) => {
                *need.cells.entry(*i).or_insert(0) += 1;
                (env.cells[*i].value.get(), Some(env.cells[*i].ended.get()))
            }
            S::CellBy(f) => {
                let i = select(*f, x, env.cells.len());
                *need.cells.entry(i).or_insert(0) += 1;
                (env.cells[i].value.get(), Some(env.cells[i].ended.get()))
            }
            S::Param => (x, Some(true)),
            S::Const(c) => (*c, Some(true)),
            S::ConstOption(o) => (o.unwrap_or(-5), Some(true)),
            S::ConstResult(c) => (if odd(*c) { *c } else { -*c }, Some(true)),
            S::FromFuture(c) => (*c, Some(true)),
            S::Un(un, f, s) => {
                let (v, e) = s.eval(env, x, need);
                let r = match un {
                    Un::Map | Un::MapFuture0 | Un::DedupeMap => f.call(v, x),
                    Un::Eq => (v.rem_euclid(3) == f.c % 3) as i64,
                    Un::Neq => (v.rem_euclid(3) != f.c % 3) as i64,
                    Un::Not => !odd(v) as i64,
                    _ => v,
                };
                (r, e)
            }
            S::Many(many, f, args) => {
                let vs: Vec<(i64, Ended)> = args.iter().map(|a| a.eval(env, x, need)).collect();
                let vals: Vec<i64> = vs.iter().map(|v| v.0).collect();
                (eval_many(*many, *f, x, &vals), all(vs.iter().map(|v| v.1)))
            }
            S::Switch(f, outer, inner) | S::Flatten(f, outer, inner) => {
                let (o, oe) = outer.eval(env, x, need);
                let (v, e) = inner.eval(env, f.call(o, x), need);
                (v, all([oe, e]))
            }
            S::Agg(agg, f, v) => {
                let (l, e) = v.eval(env, x, need);
                let r = match agg {
                    Agg::Len => l.len() as i64,
                    Agg::IsEmpty => l.is_empty() as i64,
                    Agg::Sum => l.iter().sum(),
                    Agg::Cloned | Agg::Map => fold(*f, &l),
                };
                (r, e)
            }
            S::Key(k, m) => {
                let (m, e) = m.eval(env, x, need);
                (m.get(k).copied().unwrap_or(-2), e)
            }
            S::Keep(keep, _, s, state) => {
                let (v, e) = s.eval(env, x, need);
                let st = state.borrow();
                // (no stateful adapter is below first and stop_if, which stop polling)
                let missing = st.delivered == 0 || st.last != v;
                match keep {
                    Keep::FilterMap => {
                        if missing {
                            report(env.props, format!("filter_map has not taken the current value {} of its input", v));
                        }
                        (st.accepted.unwrap_or(-3), e)
                    }
                    Keep::StopIf => match st.stopped {
                        Some(v) => {
                            need.unknown = true;
                            (v, Some(true))
                        }
                        None => {
                            if missing {
                                report(env.props, format!("stop_if has not taken the current value {} of its input", v));
                            }
                            (v, e)
                        }
                    },
                    Keep::First => (st.first.unwrap_or(-99), Some(true)),
                }
            }
        }
    }
}

struct Watch<G> {
    inner: SigI,
    f: G,
}

impl<G: FnMut(i64) + Unpin> Signal for Watch<G> {
    type Item = i64;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<i64>> {
        let this = self.get_mut();
        let p = this.inner.as_mut().poll_change(cx);
        if let Poll::Ready(Some(v)) = &p {
            (this.f)(*v);
        }
        p
    }
}

struct CountPolls {
    inner: SigI,
    polls: Rc<Cell<u64>>,
}

impl Signal for CountPolls {
    type Item = i64;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<i64>> {
        let this = self.get_mut();
        inc(&this.polls);
        this.inner.as_mut().poll_change(cx)
    }
}

/// Polls through a mutable reference, a box and the methods for `Unpin` types
struct ByRef<S>(S);

impl<S: Signal + Unpin> Signal for ByRef<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        let mut r = &mut self.0;
        Pin::new(&mut r).poll_change_unpin(cx)
    }
}

impl<S: SignalVec + Unpin> SignalVec for ByRef<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<S::Item>>> {
        let mut r = &mut self.0;
        Pin::new(&mut r).poll_vec_change_unpin(cx)
    }
}

impl<S: SignalMap + Unpin> SignalMap for ByRef<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        let mut r = &mut self.0;
        Pin::new(&mut r).poll_map_change_unpin(cx)
    }
}

fn count_node(name: &'static str) {
    count(name, 1);
}

fn fold(f: F, l: &[i64]) -> i64 {
    l.iter().fold(l.len() as i64, |a, v| (a * 31 + f.call(*v, 0)).rem_euclid(1_000_003))
}

fn weigh(f: F, x: i64, vals: &[i64]) -> i64 {
    vals.iter().enumerate().fold(f.call(0, x), |a, (i, v)| (a * 7 + v * (i as i64 + 1)).rem_euclid(1_000_003))
}

fn eval_many(many: Many, f: F, x: i64, vals: &[i64]) -> i64 {
    match many {
        Many::Ref | Many::Mut => weigh(f, x, vals),
        Many::And => vals.iter().all(|v| odd(*v)) as i64,
        Many::Or => vals.iter().any(|v| odd(*v)) as i64,
    }
}

fn build_many(many: Many, f: F, x: i64, sigs: Vec<SigI>, calls: Rc<Cell<u64>>) -> SigI {
    let n = sigs.len();
    let mut it = sigs.into_iter();
    let mut nx = || it.next().unwrap();
    match (many, n) {
        (Many::And, _) => {
            let (a, b) = (nx(), nx());
            Box::pin(signal::and(a.map(odd), b.map(odd)).map(|b| b as i64))
        }
        (Many::Or, _) => {
            let (a, b) = (nx(), nx());
            Box::pin(signal::or(a.map(odd), b.map(odd)).map(|b| b as i64))
        }
        (Many::Ref, 1) => {
            let a = nx();
            Box::pin(map_ref! { a => { inc(&calls); weigh(f, x, &[*a]) } })
        }
        (Many::Ref, 2) => {
            let (s, t) = (nx(), nx());
            Box::pin(map_ref! { let a = s, let b = t => { inc(&calls); weigh(f, x, &[*a, *b]) } })
        }
        (Many::Ref, 3) => {
            let (s, t, u) = (nx(), nx(), nx());
            Box::pin(map_ref!(s, t, u => { inc(&calls); weigh(f, x, &[*s, *t, *u]) }))
        }
        (Many::Ref, 4) => {
            let (a, b, c, d) = (nx(), nx(), nx(), nx());
            Box::pin(map_ref! { let a = a, b, let c = c, d => move { inc(&calls); weigh(f, x, &[*a, *b, *c, *d]) } })
        }
        (Many::Ref, 5) => {
            let (a, b, c, d, e) = (nx(), nx(), nx(), nx(), nx());
            Box::pin(map_ref! { let a = a, let b = b, let c = c, let d = d, let e = e => { inc(&calls); weigh(f, x, &[*a, *b, *c, *d, *e]) } })
        }
        (Many::Ref, _) => {
            let (a, b, c, d, e, g) = (nx(), nx(), nx(), nx(), nx(), nx());
            Box::pin(map_ref! { let a = a, let b = b, let c = c, let d = d, let e = e, let g = g => { inc(&calls); weigh(f, x, &[*a, *b, *c, *d, *e, *g]) } })
        }
        (Many::Mut, 1) => {
            let a = nx();
            Box::pin(map_mut! { let a = a => { inc(&calls); weigh(f, x, &[*a]) } })
        }
        (Many::Mut, 2) => {
            let (s, t) = (nx(), nx());
            Box::pin(map_mut! { let a = s, let b = t => { inc(&calls); weigh(f, x, &[*a, *b]) } })
        }
        (Many::Mut, 3) => {
            let (s, t, u) = (nx(), nx(), nx());
            Box::pin(map_mut!(s, t, u => { inc(&calls); weigh(f, x, &[*s, *t, *u]) }))
        }
        (Many::Mut, 4) => {
            let (a, b, c, d) = (nx(), nx(), nx(), nx());
            Box::pin(map_mut! { let a = a, b, let c = c, d => { inc(&calls); weigh(f, x, &[*a, *b, *c, *d]) } })
        }
        (Many::Mut, 5) => {
            let (a, b, c, d, e) = (nx(), nx(), nx(), nx(), nx());
            Box::pin(map_mut! { let a = a, let b = b, let c = c, let d = d, let e = e => { inc(&calls); weigh(f, x, &[*a, *b, *c, *d, *e]) } })
        }
        (Many::Mut, _) => {
            let (a, b, c, d, e, g) = (nx(), nx(), nx(), nx(), nx(), nx());
            Box::pin(map_mut! { let a = a, let b = b, let c = c, let d = d, let e = e, let g = g => { inc(&calls); weigh(f, x, &[*a, *b, *c, *d, *e, *g]) } })
        }
    }
}

impl V {
    pub fn build(&self, env: &Env, x: i64) -> VecI {
        let tap = |v: &V, name: &'static str| tap_v(env, v.build(env, x), name);
        let (out, name): (VecI, &'static str) = match self {
            V::Src(i) => (env.vecs[*i].sub(), "source"),
            V::SrcBy(f) => (env.vecs[select(*f, x, env.vecs.len())].sub(), "source"),
            V::Always(f, n) => {
                let f = *f;
                (Box::pin(signal_vec::always((0..*n).map(|i| f.call(i as i64, x)).collect())), "signal_vec::always")
            }
            V::Map(f, v) => {
                let f = *f;
                let (v, arrived) = tap(v, "the input of map");
                let called = exactly(env, "map", &arrived, true);
                (Box::pin(v.map(move |v| {
                    called.push(v);
                    f.call(v, x)
                })), "vec_map")
            }
            V::Filter(f, v) => {
                let f = *f;
                let (v, arrived) = tap(v, "the input of filter");
                let called = exactly(env, "filter", &arrived, true);
                (Box::pin(v.filter(move |v| {
                    called.push(*v);
                    odd(f.call(*v, x))
                })), "vec_filter")
            }
            V::FilterMap(f, v) => {
                let f = *f;
                let (v, arrived) = tap(v, "the input of filter_map");
                let called = exactly(env, "filter_map", &arrived, true);
                (Box::pin(v.filter_map(move |v| {
                    called.push(v);
                    let r = f.call(v, x);
                    if odd(r) {
                        Some(r)
                    } else {
                        None
                    }
                })), "vec_filter_map")
            }
            V::MapSignal(v, t) => {
                let (v, arrived) = tap(v, "the input of map_signal");
                let called = exactly(env, "map_signal", &arrived, false);
                let (env2, t) = (env.clone(), t.clone());
                (Box::pin(v.map_signal(move |v| {
                    called.push(v);
                    t.build(&env2, v)
                })), "map_signal")
            }
            V::FilterSignal(v, t) => {
                let (v, arrived) = tap(v, "the input of filter_signal_cloned");
                let called = exactly(env, "filter_signal_cloned", &arrived, false);
                let (env2, t) = (env.clone(), t.clone());
                (Box::pin(v.filter_signal_cloned(move |v| {
                    called.push(*v);
                    t.build(&env2, *v).map(odd)
                })), "filter_signal_cloned")
            }
            V::Sort(f, v) => {
                let (v, _) = tap(v, "the input of sort_by_cloned");
                let k = f.c % 4 + 2;
                (Box::pin(v.sort_by_cloned(move |a, b| a.rem_euclid(k).cmp(&b.rem_euclid(k)))), "sort_by_cloned")
            }
            V::Chain(a, b) => {
                let (a, _) = tap(a, "the left input of chain");
                let (b, _) = tap(b, "the right input of chain");
                (Box::pin(a.chain(b)), "chain")
            }
            V::Flatten(v, t) => {
                let (v, _) = tap(v, "the outer list of flatten");
                let (env2, t) = (env.clone(), t.clone());
                (Box::pin(v.map(move |v| tap_v(&env2, t.build(&env2, v), "an inner list of flatten").0).flatten()), "vec_flatten")
            }
            V::Enumerate(f, v) => {
                let f = *f;
                let (v, _) = tap(v, "the input of enumerate");
                (Box::pin(v.enumerate().map_signal(move |(i, v)| i.signal().map(move |i| pair(f, i.map(|i| i as i64).unwrap_or(-7), v)))), "enumerate")
            }
            V::SwitchVec(s, t) => {
                let tp = tap_s(env, s.build(env, x), "the outer signal of switch_signal_vec", false);
                let arrived = tp.arrived;
                let calls = at_most(env, "switch_signal_vec", move || arrived.n.get());
                let (env2, t) = (env.clone(), t.clone());
                (Box::pin(tp.sig.switch_signal_vec(move |v| {
                    inc(&calls);
                    tap_v(&env2, t.build(&env2, v), "an inner list of switch_signal_vec").0
                })), "switch_signal_vec")
            }
            V::ToSignalVec(f, s) => {
                let tp = tap_s(env, s.build(env, x), "the input of to_signal_vec", false);
                let f = *f;
                (Box::pin(tp.sig.map(move |v| spread(f, v)).to_signal_vec()), "to_signal_vec")
            }
            V::Keys(i) => (env.maps[*i].keys(), "signal_vec_keys"),
            V::Entries(f, i) => {
                let f = *f;
                (Box::pin(env.maps[*i].entries().map(move |(k, v)| pair(f, k, v))), "signal_vec_entries")
            }
            V::Delay0(v) => {
                let (v, arrived) = tap(v, "the input of delay_remove");
                let called = at_most(env, "delay_remove", move || arrived.n.get());
                (Box::pin(v.delay_remove(move |_| {
                    inc(&called);
                    futures_util::future::ready(())
                })), "delay_remove")
            }
            V::Boxed(v) => (Box::pin(ByRef(Box::new(AssertSend(v.build(env, x)).boxed().boxed_local()))), "vec_boxed"),
            V::Debug(v) => {
                let (v, _) = tap(v, "the input of debug");
                (Box::pin(v.debug()), "vec_debug")
            }
            V::ViaSignal(v) => {
                let (v, _) = tap(v, "the input of to_signal_cloned");
                (Box::pin(v.to_signal_cloned().to_signal_vec()), "to_signal_cloned")
            }
            V::FromStream(l) => (Box::pin(signal_vec::from_stream(futures_util::stream::iter(l.clone()))), "signal_vec::from_stream"),
        };
        count_node(name);
        tap_v(env, out, name).0
    }

    pub fn eval(&self, env: &Env, x: i64, need: &mut Need) -> (Vec<i64>, Ended) {
        match self {
            V::Src(i) => {
                *need.vecs.entry(*i).or_insert(0) += 1;
                (env.vecs[*i].values.borrow().clone(), Some(env.vecs[*i].ended.get()))
            }
            V::SrcBy(f) => {
                let i = select(*f, x, env.vecs.len());
                *need.vecs.entry(i).or_insert(0) += 1;
                (env.vecs[i].values.borrow().clone(), Some(env.vecs[i].ended.get()))
            }
            V::Always(f, n) => ((0..*n).map(|i| f.call(i as i64, x)).collect(), Some(true)),
            V::Map(f, v) => {
                let (l, e) = v.eval(env, x, need);
                (l.into_iter().map(|v| f.call(v, x)).collect(), e)
            }
            V::Filter(f, v) => {
                let (l, e) = v.eval(env, x, need);
                (l.into_iter().filter(|v| odd(f.call(*v, x))).collect(), e)
            }
            V::FilterMap(f, v) => {
                let (l, e) = v.eval(env, x, need);
                (l.into_iter().map(|v| f.call(v, x)).filter(|v| odd(*v)).collect(), e)
            }
            V::MapSignal(v, t) => {
                let (l, e) = v.eval(env, x, need);
                let vs: Vec<(i64, Ended)> = l.into_iter().map(|v| t.eval(env, v, need)).collect();
                let ended = all(vs.iter().map(|v| v.1).chain([e]));
                (vs.into_iter().map(|v| v.0).collect(), ended)
            }
            V::FilterSignal(v, t) => {
                let (l, e) = v.eval(env, x, need);
                let vs: Vec<(i64, (i64, Ended))> = l.into_iter().map(|v| (v, t.eval(env, v, need))).collect();
                let ended = all(vs.iter().map(|v| v.1 .1).chain([e]));
                (vs.into_iter().filter(|v| odd(v.1 .0)).map(|v| v.0).collect(), ended)
            }
            V::Sort(f, v) => {
                let (mut l, e) = v.eval(env, x, need);
                let k = f.c % 4 + 2;
                l.sort_by_key(|v| v.rem_euclid(k));
                (l, e)
            }
            V::Chain(a, b) => {
                let (mut l, e) = a.eval(env, x, need);
                let (r, e2) = b.eval(env, x, need);
                l.extend(r);
                (l, all([e, e2]))
            }
            V::Flatten(v, t) => {
                let (l, e) = v.eval(env, x, need);
                let vs: Vec<(Vec<i64>, Ended)> = l.into_iter().map(|v| t.eval(env, v, need)).collect();
                let ended = all(vs.iter().map(|v| v.1).chain([e]));
                (vs.into_iter().flat_map(|v| v.0).collect(), ended)
            }
            V::Enumerate(f, v) => {
                let (l, e) = v.eval(env, x, need);
                let l = l.into_iter().enumerate().map(|(i, v)| pair(*f, i as i64, v)).collect();
                // whether the index signals have ended depends on when the adapter is dropped
                (l, if e == Some(false) { e } else { None })
            }
            V::SwitchVec(s, t) => {
                let (v, e) = s.eval(env, x, need);
                let (l, e2) = t.eval(env, v, need);
                (l, all([e, e2]))
            }
            V::ToSignalVec(f, s) => {
                let (v, e) = s.eval(env, x, need);
                (spread(*f, v), e)
            }
            V::Keys(i) => (env.maps[*i].values.borrow().keys().copied().collect(), Some(env.maps[*i].ended.get())),
            V::Entries(f, i) => (env.maps[*i].values.borrow().iter().map(|(k, v)| pair(*f, *k, *v)).collect(), Some(env.maps[*i].ended.get())),
            V::Delay0(v) | V::Boxed(v) | V::Debug(v) | V::ViaSignal(v) => v.eval(env, x, need),
            V::FromStream(l) => (l.clone(), Some(true)),
        }
    }
}

fn select(f: F, x: i64, n: usize) -> usize {
    (x + f.c).rem_euclid(n as i64) as usize
}

fn pair(f: F, i: i64, v: i64) -> i64 {
    (i * 1000 + f.call(v, 0)).rem_euclid(1_000_003)
}

fn spread(f: F, v: i64) -> Vec<i64> {
    (0..v.rem_euclid(4)).map(|i| f.call(v + i, 0)).collect()
}

impl M {
    pub fn build(&self, env: &Env, x: i64) -> MapI {
        let (out, name): (MapI, &'static str) = match self {
            M::Src(i) => (env.maps[*i].sub(), "source"),
            M::Always(f, n) => {
                let f = *f;
                let m: BTreeMap<i64, i64> = (0..*n as i64).map(|i| (i, f.call(i, x))).collect();
                (Box::pin(signal_map::always(m)), "signal_map::always")
            }
            M::MapValue(f, m) => {
                let f = *f;
                let (m, arrived) = tap_m(m.build(env, x), "the input of map_value");
                let called = exactly(env, "map_value", &arrived, false);
                (Box::pin(m.map_value(move |v| {
                    called.push(v);
                    f.call(v, x)
                })), "map_value")
            }
            M::MapValueSignal(m, t) => {
                let (m, arrived) = tap_m(m.build(env, x), "the input of map_value_signal");
                let called = exactly(env, "map_value_signal", &arrived, false);
                let (env2, t) = (env.clone(), t.clone());
                (Box::pin(m.map_value_signal(move |v| {
                    called.push(v);
                    t.build(&env2, v)
                })), "map_value_signal")
            }
            M::Boxed(m) => (Box::pin(ByRef(Box::new(AssertSend(m.build(env, x)).boxed().boxed_local()))), "map_boxed"),
        };
        count_node(name);
        tap_m(out, name).0
    }

    pub fn eval(&self, env: &Env, x: i64, need: &mut Need) -> (BTreeMap<i64, i64>, Ended) {
        match self {
            M::Src(i) => {
                *need.maps.entry(*i).or_insert(0) += 1;
                (env.maps[*i].values.borrow().clone(), Some(env.maps[*i].ended.get()))
            }
            M::Always(f, n) => ((0..*n as i64).map(|i| (i, f.call(i, x))).collect(), Some(true)),
            M::MapValue(f, m) => {
                let (m, e) = m.eval(env, x, need);
                (m.into_iter().map(|(k, v)| (k, f.call(v, x))).collect(), e)
            }
            M::MapValueSignal(m, t) => {
                let (m, e) = m.eval(env, x, need);
                let vs: Vec<(i64, (i64, Ended))> = m.into_iter().map(|(k, v)| (k, t.eval(env, v, need))).collect();
                let ended = all(vs.iter().map(|v| v.1 .1).chain([e]));
                (vs.into_iter().map(|(k, v)| (k, v.0)).collect(), ended)
            }
            M::Boxed(m) => m.eval(env, x, need),
        }
    }
}

#[allow(dead_code)]
fn _used(m: Mutable<i64>, h: SubHandle<i64>) {
    let _ = m.signal();
    let _ = Box::pin(h) as SigI;
}
