//! C22: index signals of enumerate. C29: serde. C30: dropped listeners cost nothing.

use super::coll::{Item, Tok};
use super::expr::odd;
use super::out::{OutS, OutV};
use super::src::*;
use super::{count, event, problems, report, trace, with_case, Chaos, ChaosRef, Flag, Props};
use crate::ctx::Case;
use crate::rng::Rng;
use futures_signals::signal::{channel, Broadcaster, Mutable, ReadOnlyMutable, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt, VecDiff};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

const P22: Props = &["C22"];
const P29: Props = &["C29"];
const P30: Props = &["C30"];

type Indexed = (ReadOnlyMutable<Option<usize>>, i64);

/// Every item has a unique id, so that its index signal can be followed.
pub fn enumerate(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let chaos: ChaosRef = Rc::new(Chaos::default());
        let mut next = 0i64;
        let max = *rng.pick(&[3, 6, 10]);
        let mut id = move |_: &mut Rng| {
            next += 1;
            next
        };
        let initial: Vec<i64> = (0..rng.below(max + 1)).map(|_| id(rng)).collect();
        let real = rng.flip();
        let src = VecSrc::new(0, real, initial, max, rng.fork(), &chaos);
        let input = src.sub();
        let s: Pin<Box<dyn SignalVec<Item = Indexed>>> = Box::pin(input.enumerate());
        let mut out: OutV<Indexed> = OutV::new(s, rng, P22);
        // every index signal which was ever delivered for an id
        let mut known: HashMap<i64, (OutS<Option<usize>>, ReadOnlyMutable<Option<usize>>)> = HashMap::new();
        let rounds = rng.range(2, 10);
        for round in 0..rounds {
            let fin = round + 1 == rounds;
            for _ in 0..rng.below(6) {
                src.mutate(rng, &mut id);
                if rng.chance(1, 4) {
                    out.once(rng, false);
                }
                learn(&mut out, &mut known, rng);
                if rng.chance(1, 4) {
                    for (o, _) in known.values_mut() {
                        o.once(rng, false);
                    }
                }
            }
            if fin || rng.chance(1, 10) {
                src.end();
            }
            while out.once(rng, false) {
                learn(&mut out, &mut known, rng);
                if problems() {
                    return;
                }
            }
            for (o, _) in known.values_mut() {
                o.settle(rng);
            }
            count("quiescent_points", 1);
            let input = src.values.borrow().clone();
            let now: Vec<i64> = out.list.iter().map(|x| x.1).collect();
            if now != input {
                report(P22, format!("enumerate has the items {:?} instead of {:?}", now, input));
            }
            for (p, (m, v)) in out.list.iter().enumerate() {
                if m.get() != Some(p) {
                    report(P22, format!("the item {} at {} has the index {:?}", v, p, m.get()));
                }
            }
            for (v, (o, m)) in known.iter() {
                let at = input.iter().position(|x| x == v);
                if at.is_some() && o.out.task.ended && out.out.task.ended {
                    continue; // the adapter may have been dropped after its end
                }
                if o.last != Some(at) || m.get() != at {
                    report(P22, format!("the index signal of {} carries {:?} instead of {:?}", v, o.last, at));
                }
                if at.is_none() && !o.out.task.ended {
                    report(P22, format!("the index signal of the removed item {} has not ended", v));
                }
                if at.is_some() && o.out.task.ended {
                    report(P22, format!("the index signal of the item {} has ended", v));
                }
            }
            if out.out.task.ended != src.ended.get() {
                report(P22, "enumerate does not end exactly when its input does");
            }
            trace(input.iter().fold(3u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
            if problems() {
                return;
            }
        }
        out.out.drop_inner();
        let list = std::mem::take(&mut out.list);
        drop(list);
        for (o, _) in known.values_mut() {
            o.settle(rng);
            if !o.out.task.ended {
                report(P22, "an index signal has not ended although the adapter is gone");
            }
        }
        case.nontrivial = out.out.task.polls >= 3;
    })
}

fn learn(out: &mut OutV<Indexed>, known: &mut HashMap<i64, (OutS<Option<usize>>, ReadOnlyMutable<Option<usize>>)>, rng: &mut Rng) {
    // an item which is updated keeps its place and its index signal
    for ((_, old), (_, new)) in out.updated.drain(..) {
        if let Some(x) = known.remove(&old) {
            known.insert(new, x);
        }
    }
    for (m, v) in &out.list {
        known.entry(*v).or_insert_with(|| {
            count("index_signals", 1);
            (OutS::new(Box::pin(m.signal()), rng, P22), m.clone())
        });
    }
}

// ---------------------------------------------------------------------------

fn same<T: PartialEq + Debug>(what: &str, a: T, b: T) {
    if a != b {
        report(P29, format!("{}: {:?} instead of {:?}", what, a, b));
    }
}

fn text(rng: &mut Rng) -> String {
    let n = rng.below(4);
    (0..n).map(|_| *rng.pick(&['a', '"', '\\', 'é', '\n', '0', '{'])).collect()
}

fn rejects<T: serde::de::DeserializeOwned>(what: &str, s: &str) {
    count("malformed", 1);
    match std::panic::catch_unwind(|| serde_json::from_str::<T>(s).is_ok()) {
        Ok(false) => {}
        Ok(true) => report(P29, format!("{} was deserialized from the malformed {}", what, s)),
        Err(_) => report(P29, format!("deserializing {} from the malformed {} panicked", what, s)),
    }
}

/// A prefix of a document is no document.
fn cut<'a>(s: &'a str, rng: &mut Rng) -> &'a str {
    let mut n = rng.below(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}

/// Mostly few, but sometimes more than what any buffer or hint is made for
fn amount(rng: &mut Rng) -> usize {
    if rng.chance(1, 150) {
        let most = *rng.pick(&[40, 300, 3000, 20000]);
        rng.below(most)
    } else {
        rng.below(4)
    }
}

trait Plain: serde::Serialize + serde::de::DeserializeOwned + Clone + PartialEq + Debug + 'static {
    fn gen(rng: &mut Rng) -> Self;
    /// Something of another type
    const WRONG: &'static str;
}

impl Plain for i64 {
    fn gen(rng: &mut Rng) -> i64 {
        *rng.pick(&[0, -1, 7, i64::MAX, i64::MIN, 1 << 53])
    }
    const WRONG: &'static str = "\"x\"";
}
impl Plain for String {
    fn gen(rng: &mut Rng) -> String {
        text(rng)
    }
    const WRONG: &'static str = "5";
}
impl Plain for Option<bool> {
    fn gen(rng: &mut Rng) -> Self {
        *rng.pick(&[None, Some(true), Some(false)])
    }
    const WRONG: &'static str = "\"x\"";
}
impl Plain for (i64, Vec<String>) {
    fn gen(rng: &mut Rng) -> Self {
        let n = rng.below(3);
        (rng.below(9) as i64, (0..n).map(|_| text(rng)).collect())
    }
    const WRONG: &'static str = "[1]";
}

pub fn serde(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        match rng.below(4) {
            0 => serde_of::<i64>(rng),
            1 => serde_of::<String>(rng),
            2 => serde_of::<Option<bool>>(rng),
            _ => serde_of::<(i64, Vec<String>)>(rng),
        }
        case.nontrivial = true;
    })
}

fn ends<T>(s: &mut Pin<Box<dyn Signal<Item = T>>>) -> Option<Option<T>> {
    let flag = Arc::new(Flag::default());
    match s.as_mut().poll_change(&mut Context::from_waker(&flag.into())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

fn serde_of<T: Plain>(rng: &mut Rng) {
    let via_value = rng.flip();
    fn there<A: serde::Serialize>(a: &A) -> String {
        serde_json::to_string(a).unwrap_or_else(|e| {
            report(P29, format!("serializing failed: {}", e));
            "null".into()
        })
    }
    fn back<A: serde::de::DeserializeOwned>(s: &str, via_value: bool) -> Option<A> {
        let r = if via_value { serde_json::from_str::<serde_json::Value>(s).and_then(serde_json::from_value) } else { serde_json::from_str(s) };
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                report(P29, format!("{} could not be deserialized: {}", s, e));
                None
            }
        }
    }

    // Mutable
    {
        let plain = T::gen(rng);
        let m = Mutable::new(T::gen(rng));
        let clone = m.clone();
        clone.set(plain.clone());
        let s = there(&m);
        event(|| format!("Mutable {}", s));
        trace(crate::rng::hash_str(&s));
        same("a serialized Mutable", s.clone(), there(&plain));
        if via_value {
            same("a Mutable as a value", serde_json::to_value(&m).ok(), serde_json::to_value(&plain).ok());
        }
        if let Some(n) = back::<Mutable<T>>(&s, via_value) {
            same("a deserialized Mutable", n.get_cloned(), plain.clone());
            let mut sig: Pin<Box<dyn Signal<Item = T>>> = Box::pin(n.signal_cloned());
            same("the first value", ends(&mut sig), Some(Some(plain.clone())));
            same("pending", ends(&mut sig), None);
            let other = T::gen(rng);
            n.set(other.clone());
            same("the original after changing the copy", m.get_cloned(), plain.clone());
            same("a written value", ends(&mut sig), Some(Some(other)));
            m.set(T::gen(rng));
            same("independent", ends(&mut sig), None);
            drop(n);
            same("the end", ends(&mut sig), Some(None));
        }
        let part = cut(&s, rng);
        if serde_json::from_str::<T>(part).is_err() {
            rejects::<Mutable<T>>("a Mutable", part);
        }
        rejects::<Mutable<T>>("a Mutable", T::WRONG);
    }

    // MutableVec
    {
        let plain: Vec<T> = (0..amount(rng)).map(|_| T::gen(rng)).collect();
        let m = MutableVec::new();
        for x in &plain {
            m.lock_mut().push_cloned(x.clone());
        }
        let s = there(&m);
        event(|| format!("MutableVec {}", s));
        trace(crate::rng::hash_str(&s));
        same("a serialized MutableVec", s.clone(), there(&plain));
        if via_value {
            same("a MutableVec as a value", serde_json::to_value(&m).ok(), serde_json::to_value(&plain).ok());
        }
        if let Some(n) = back::<MutableVec<T>>(&s, via_value) {
            same("a deserialized MutableVec", n.lock_ref().to_vec(), plain.clone());
            let mut o: OutV<T> = OutV::new(Box::pin(n.signal_vec_cloned()), rng, P29);
            o.settle(rng);
            same("the list of a deserialized MutableVec", o.list.clone(), plain.clone());
            let x = T::gen(rng);
            n.lock_mut().push_cloned(x.clone());
            o.settle(rng);
            let mut expect = plain.clone();
            expect.push(x);
            same("the list after a change", o.list.clone(), expect);
            same("the original after changing the copy", m.lock_ref().to_vec(), plain.clone());
            drop(n);
            o.settle(rng);
            same("the end", o.out.task.ended, true);
        }
        rejects::<MutableVec<T>>("a MutableVec", cut(&s, rng));
        rejects::<MutableVec<T>>("a MutableVec", "{\"a\":1}");
        rejects::<MutableVec<T>>("a MutableVec", "7");
        rejects::<MutableVec<T>>("a MutableVec", &format!("[{}]", T::WRONG));
    }

    // MutableBTreeMap
    {
        let n = amount(rng);
        let plain: BTreeMap<String, T> = (0..n).map(|i| (if n > 9 { i.to_string() } else { text(rng) }, T::gen(rng))).collect();
        let m = MutableBTreeMap::new();
        for (k, v) in &plain {
            m.lock_mut().insert_cloned(k.clone(), v.clone());
        }
        let s = there(&m);
        event(|| format!("MutableBTreeMap {}", s));
        trace(crate::rng::hash_str(&s));
        same("a serialized MutableBTreeMap", s.clone(), there(&plain));
        if via_value {
            same("a MutableBTreeMap as a value", serde_json::to_value(&m).ok(), serde_json::to_value(&plain).ok());
        }
        if let Some(n) = back::<MutableBTreeMap<String, T>>(&s, via_value) {
            same("a deserialized MutableBTreeMap", (**(&n.lock_ref())).clone(), plain.clone());
            let mut sig = Box::pin(n.signal_map_cloned());
            let mut copy = BTreeMap::new();
            let flag = Arc::new(Flag::default());
            let waker = flag.into();
            let mut cx = Context::from_waker(&waker);
            let mut drain = |copy: &mut BTreeMap<String, T>| loop {
                match sig.as_mut().poll_map_change(&mut cx) {
                    Poll::Ready(Some(d)) => {
                        if let Err(e) = apply_map(d, copy) {
                            report(P29, e);
                        }
                    }
                    Poll::Ready(None) => break true,
                    Poll::Pending => break false,
                }
            };
            same("no end", drain(&mut copy), false);
            same("the map of a deserialized MutableBTreeMap", copy.clone(), plain.clone());
            let v = T::gen(rng);
            n.lock_mut().insert_cloned("zz".into(), v.clone());
            same("no end", drain(&mut copy), false);
            let mut expect = plain.clone();
            expect.insert("zz".into(), v);
            same("the map after a change", copy.clone(), expect);
            same("the original after changing the copy", (**(&m.lock_ref())).clone(), plain.clone());
            drop(n);
            same("the end", drain(&mut copy), true);
        }
        rejects::<MutableBTreeMap<String, T>>("a MutableBTreeMap", cut(&s, rng));
        rejects::<MutableBTreeMap<String, T>>("a MutableBTreeMap", "[1]");
        rejects::<MutableBTreeMap<String, T>>("a MutableBTreeMap", &format!("{{\"a\":{}}}", T::WRONG));
    }

    // Diffs
    let index = *rng.pick(&[0, 1, 77, 1 << 40]);
    let other = *rng.pick(&[0, 3, 1 << 33]);
    let n = amount(rng);
    let diffs = vec![
        VecDiff::Replace { values: (0..n).map(|_| T::gen(rng)).collect() },
        VecDiff::InsertAt { index, value: T::gen(rng) },
        VecDiff::UpdateAt { index, value: T::gen(rng) },
        VecDiff::RemoveAt { index },
        VecDiff::Move { old_index: index, new_index: other },
        VecDiff::Push { value: T::gen(rng) },
        VecDiff::Pop {},
        VecDiff::Clear {},
    ];
    let mut texts = vec![];
    for d in &diffs {
        let s = there(d);
        event(|| s.clone());
        trace(crate::rng::hash_str(&s));
        if let Some(e) = back::<VecDiff<T>>(&s, via_value) {
            same("a diff", &e, d);
        }
        count("diffs", 1);
        rejects::<VecDiff<T>>("a diff", cut(&s, rng));
        texts.push(s);
    }
    if let Some(all) = back::<Vec<VecDiff<T>>>(&there(&diffs), via_value) {
        same("diffs", all, diffs);
    }
    let k = T::gen(rng);
    let map_diffs: Vec<MapDiff<T, i64>> = vec![
        MapDiff::Replace { entries: (0..n as i64).map(|i| (T::gen(rng), i)).collect() },
        MapDiff::Insert { key: k.clone(), value: 5 },
        MapDiff::Update { key: k.clone(), value: -5 },
        MapDiff::Remove { key: k },
        MapDiff::Clear {},
    ];
    for d in &map_diffs {
        let s = there(d);
        event(|| s.clone());
        trace(crate::rng::hash_str(&s));
        if let Some(e) = back::<MapDiff<T, i64>>(&s, via_value) {
            same("a map diff", &e, d);
        }
        count("diffs", 1);
        rejects::<MapDiff<T, i64>>("a map diff", cut(&s, rng));
        texts.push(s);
    }
    for i in 1..texts.len() {
        if texts[..i].contains(&texts[i]) && i < 8 {
            report(P29, "two different diffs have the same serialization");
        }
    }
    rejects::<VecDiff<T>>("a diff", "{\"Nothing\":{}}");
    // (serde takes a missing Option as None)
    if serde_json::from_str::<T>("null").is_err() {
        rejects::<VecDiff<T>>("a diff", "{\"Push\":{}}");
        rejects::<MapDiff<T, i64>>("a map diff", "{\"Remove\":{}}");
    }
    rejects::<VecDiff<T>>("a diff", "{\"RemoveAt\":{\"index\":-1}}");
    rejects::<VecDiff<T>>("a diff", "{\"Move\":{\"old_index\":1}}");
    rejects::<MapDiff<T, i64>>("a map diff", "12");
}

// ---------------------------------------------------------------------------

/// A listener of any kind, polled some times and then forgotten.
enum Any {
    S(Pin<Box<dyn Signal<Item = Tok>>>),
    V(Pin<Box<dyn SignalVec<Item = Tok>>>),
    M(Pin<Box<dyn SignalMap<Key = i64, Value = Tok>>>),
}

struct L {
    any: Any,
    flag: Arc<Flag>,
    pending: bool,
}

impl L {
    fn new(any: Any) -> L {
        L { any, flag: Arc::new(Flag::default()), pending: false }
    }
    /// Returns whether it delivered something
    fn poll(&mut self) -> bool {
        let waker = self.flag.clone().into();
        let cx = &mut Context::from_waker(&waker);
        self.flag.reset();
        let ready = match &mut self.any {
            Any::S(s) => s.as_mut().poll_change(cx).map(|x| x.is_some()),
            Any::V(s) => s.as_mut().poll_vec_change(cx).map(|x| x.is_some()),
            Any::M(s) => s.as_mut().poll_map_change(cx).map(|x| x.is_some()),
        };
        self.pending = ready.is_pending();
        ready == Poll::Ready(true)
    }
}

enum Source {
    Mutable(Mutable<Tok>),
    Vec(MutableVec<Tok>),
    Map(MutableBTreeMap<i64, Tok>),
    /// With the Mutable which it broadcasts
    Broadcast(Mutable<Tok>, Broadcaster<futures_signals::signal::MutableSignalCloned<Tok>>),
}

impl Source {
    fn subscribe(&self, rng: &mut Rng) -> L {
        L::new(match self {
            Source::Mutable(m) => match rng.below(3) {
                0 => Any::S(Box::pin(m.signal_cloned())),
                1 => Any::S(Box::pin(m.read_only().signal_cloned())),
                _ => Any::S(Box::pin(m.signal_ref(|x| Tok::new(x.0)))),
            },
            Source::Vec(m) => Any::V(Box::pin(m.signal_vec_cloned())),
            Source::Map(m) => match rng.below(2) {
                0 => Any::M(Box::pin(m.signal_map_cloned())),
                _ => Any::V(Box::pin(m.entries_cloned().map(|(_, v)| v))),
            },
            Source::Broadcast(_, b) => match rng.below(3) {
                0 => Any::S(Box::pin(b.signal_cloned())),
                1 => Any::S(Box::pin(b.signal_ref(|x| Tok::new(x.0)))),
                _ => Any::S(Box::pin(b.signal_cloned().map(|x| x))),
            },
        })
    }

    /// A change which notifies. Returns how many values may be cloned for each listener
    fn change(&self, rng: &mut Rng, step: u64) -> u64 {
        let v = Tok::new(step as i64);
        match self {
            Source::Mutable(m) | Source::Broadcast(m, _) => {
                match rng.below(3) {
                    0 => m.set(v),
                    1 => drop(m.replace(v)),
                    _ => *m.lock_mut() = v,
                }
                0
            }
            Source::Vec(m) => {
                let mut l = m.lock_mut();
                if l.len() > 4 {
                    match rng.below(4) {
                        0 => l.clear(),
                        1 => l.truncate(2),
                        2 => drop(l.drain(1..)),
                        _ => {
                            let a = l.len() - 2;
                            l.retain(|_| false);
                            let _ = a;
                        }
                    }
                    0
                } else {
                    match rng.below(4) {
                        0 => l.insert_cloned(0, v),
                        1 if !l.is_empty() => l.set_cloned(0, v),
                        2 => {
                            l.replace_cloned(vec![v, Tok::new(2)]);
                            return 2;
                        }
                        _ => l.push_cloned(v),
                    }
                    1
                }
            }
            Source::Map(m) => {
                let mut l = m.lock_mut();
                match rng.below(5) {
                    0 if !l.is_empty() => {
                        l.clear();
                        0
                    }
                    1 => {
                        l.replace_cloned([(1, v), (2, Tok::new(2))].into_iter().collect());
                        2
                    }
                    _ => {
                        l.insert_cloned(rng.below(4) as i64, v);
                        1
                    }
                }
            }
        }
    }

    /// Values which it holds itself
    fn holds(&self) -> i64 {
        match self {
            Source::Mutable(_) => 1,
            Source::Vec(m) => m.lock_ref().len() as i64,
            Source::Map(m) => m.lock_ref().len() as i64,
            Source::Broadcast(..) => 2,
        }
    }
}

/// Listeners come and go; what they held must come back with the next notification.
pub fn drops(seed: u64, case: &mut Case) {
    let baseline = crate::alloc::live();
    with_case(case, |case| {
        Tok::reset();
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let source = match rng.below(4) {
            0 => Source::Mutable(Mutable::new(Tok::make(0))),
            1 => Source::Vec(MutableVec::new()),
            2 => Source::Map(MutableBTreeMap::new()),
            _ => {
                let m = Mutable::new(Tok::make(0));
                let b = m.signal_cloned().broadcast();
                Source::Broadcast(m, b)
            }
        };
        event(|| {
            match &source {
                Source::Mutable(_) => "a Mutable",
                Source::Vec(_) => "a MutableVec",
                Source::Map(_) => "a MutableBTreeMap",
                Source::Broadcast(..) => "a Broadcaster",
            }
            .into()
        });
        let broadcast = matches!(source, Source::Broadcast(..));
        let mut kept: Vec<L> = (0..rng.below(4)).map(|_| source.subscribe(rng)).collect();
        let width = rng.range(1, 6);
        let rounds = rng.range(3, 30) as u64;
        let mut memory = vec![];
        for round in 0..rounds {
            let mut passing: Vec<L> = (0..width).map(|_| source.subscribe(rng)).collect();
            count("listeners", width as u64);
            for _ in 0..rng.below(3) {
                source.change(rng, round);
                for l in passing.iter_mut() {
                    if rng.flip() {
                        while l.poll() {}
                    }
                }
            }
            for l in kept.iter_mut() {
                while l.poll() {}
            }
            for l in passing.iter_mut() {
                if rng.flip() {
                    while l.poll() {}
                }
            }
            // they are dropped
            let flags: Vec<Arc<Flag>> = passing.iter().map(|l| l.flag.clone()).collect();
            while !passing.is_empty() {
                let i = rng.below(passing.len());
                passing.swap_remove(i);
            }
            drop(passing);
            // the next notification
            source.change(rng, round);
            for l in kept.iter_mut() {
                while l.poll() {}
            }
            if broadcast {
                // its changes are only noticed when a child is polled
                let mut l = source.subscribe(rng);
                while l.poll() {}
                drop(l);
                source.change(rng, round);
                let mut l = source.subscribe(rng);
                while l.poll() {}
                drop(l);
                source.change(rng, round);
                for l in kept.iter_mut() {
                    while l.poll() {}
                }
                source.change(rng, round);
                let mut l = source.subscribe(rng);
                while l.poll() {}
            }
            count("quiescent_points", 1);
            // nothing of them is left
            let holds = source.holds();
            let live = Tok::live();
            // (what the index of the entry lists and the input of a Broadcaster hold is bounded)
            if live > holds {
                report(P30, format!("{} values are alive although the source holds {} and all listeners have taken theirs", live, holds));
            }
            for f in &flags {
                if Arc::strong_count(f) != 1 {
                    report(P30, format!("the waker of a dropped listener is still held {} times after the next notification", Arc::strong_count(f) - 1));
                    break;
                }
                f.reset();
            }
            let before = Tok::clones();
            let each = source.change(rng, round);
            let clones = Tok::clones() - before;
            if !broadcast && clones > each * kept.len() as u64 {
                report(P30, format!("{} values were cloned for a change although there are only {} listeners", clones, kept.len()));
            }
            if flags.iter().any(|f| f.is_woken()) {
                report(P30, "the task of a dropped listener was woken by a later change");
            }
            for l in kept.iter() {
                if l.pending && !l.flag.is_woken() && !broadcast {
                    report(P30, "a remaining listener was not woken");
                }
            }
            drop(flags);
            for l in kept.iter_mut() {
                while l.poll() {}
            }
            if rng.chance(1, 10) {
                kept.pop();
                source.change(rng, round);
                for l in kept.iter_mut() {
                    while l.poll() {}
                }
            }
            trace(live as u64 * 64 + kept.len() as u64);
            memory.push(crate::alloc::live());
            if problems() {
                return;
            }
        }
        let listeners_first = rng.flip();
        if listeners_first {
            drop(kept);
            drop(source);
        } else {
            drop(source);
            for mut l in kept {
                let mut n = 0;
                while l.poll() {
                    n += 1;
                }
                if l.pending || n > 40 {
                    report(P30, "a listener did not end after its source was dropped");
                }
            }
        }
        if Tok::live() != 0 {
            report(P30, format!("{} values are left after dropping everything", Tok::live()));
        }
        case.nontrivial = true;
    });
    let _ = baseline;
}

/// The memory which a source needs doesn't depend on how many listeners have come and gone.
pub fn memory(seed: u64, case: &mut Case) {
    with_case(case, |case| {
        Tok::reset();
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let baseline = crate::alloc::live();
        {
            let kind = rng.below(6);
            let width = rng.range(1, 5);
            let kept_n = rng.below(3);
            let mutable = Mutable::new(Tok::make(0));
            let bc = mutable.signal_cloned().broadcast();
            let vec = MutableVec::<Tok>::new();
            let map = MutableBTreeMap::<i64, Tok>::new();
            let cells: Vec<Mutable<i64>> = (0..3).map(Mutable::new).collect();
            let items = MutableVec::new_with_values(vec![0usize, 1, 2]);
            let (tx, rx) = channel(0i64);
            let rx = rx.broadcast();
            let c2 = cells.clone();
            let mut make = |rng: &mut Rng| -> L {
                L::new(match kind {
                    0 => Any::S(Box::pin(mutable.signal_cloned())),
                    1 => Any::S(Box::pin(bc.signal_cloned())),
                    2 => Any::V(Box::pin(vec.signal_vec_cloned())),
                    3 => Any::M(Box::pin(map.signal_map_cloned())),
                    4 => {
                        let c = c2.clone();
                        if rng.flip() {
                            Any::V(Box::pin(items.signal_vec().map_signal(move |i| c[i].signal()).map(Tok::make)))
                        } else {
                            Any::V(Box::pin(items.signal_vec().filter_signal_cloned(move |i| c[*i].signal().map(odd)).map(|i| Tok::make(i as i64))))
                        }
                    }
                    _ => Any::S(Box::pin(rx.signal().map(Tok::make))),
                })
            };
            let mut step = |rng: &mut Rng, i: usize| {
                match kind {
                    0 | 1 => mutable.set(Tok::make(i as i64)),
                    2 => {
                        let mut l = vec.lock_mut();
                        l.replace_cloned(vec![Tok::make(1)]);
                        l.push_cloned(Tok::make(1));
                    }
                    3 => {
                        map.lock_mut().insert_cloned(1, Tok::make(1));
                    }
                    4 => {
                        for c in &cells {
                            c.set(rng.below(9) as i64);
                        }
                        let mut l = items.lock_mut();
                        l.set(1, rng.below(3));
                        l.move_from_to(0, 2);
                    }
                    _ => {
                        let _ = tx.send(i as i64);
                    }
                }
            };
            let mut kept: Vec<L> = (0..kept_n).map(|_| make(rng)).collect();
            let mut sizes = [0i64; 2];
            let rounds = rng.range(40, 80);
            for round in 0..rounds {
                let mut passing: Vec<L> = (0..width).map(|_| make(rng)).collect();
                step(rng, round);
                for l in passing.iter_mut().chain(kept.iter_mut()) {
                    for _ in 0..50 {
                        if !l.poll() {
                            break;
                        }
                    }
                }
                drop(passing);
                for i in 0..2 {
                    step(rng, round + i);
                    let mut l = make(rng);
                    for l in kept.iter_mut().chain(Some(&mut l)) {
                        for _ in 0..50 {
                            if !l.poll() {
                                break;
                            }
                        }
                    }
                }
                step(rng, round);
                for l in kept.iter_mut() {
                    while l.poll() {}
                }
                count("listeners", width as u64 + 2);
                if round == 15 {
                    sizes[0] = crate::alloc::live();
                }
                if round + 1 == rounds {
                    sizes[1] = crate::alloc::live();
                }
            }
            count("quiescent_points", 1);
            // 25 to 65 rounds with at least three listeners each lie between
            let grown = sizes[1] - sizes[0];
            event(|| format!("kind {} width {} kept {} grown {}", kind, width, kept_n, grown));
            trace(kind as u64 * 1000 + width as u64 * 100 + kept_n as u64 * 10000 + rounds as u64 * 100_000);
            if grown > 600 {
                report(P30, format!("{} bytes were added while {} rounds of listeners came and went (kind {})", grown, rounds, kind));
            }
        }
        let left = crate::alloc::live() - baseline;
        // (what the monitor itself has collected)
        if left > 4096 && !case.want_desc {
            report(P30, format!("{} bytes are left after dropping everything", left));
        }
        if Tok::live() != 0 {
            report(P30, format!("{} values are left after dropping everything", Tok::live()));
        }
        case.nontrivial = true;
    })
}

#[allow(unused)]
fn _unused(m: MapI) {
    let _ = m.map_value(|x| x);
}
