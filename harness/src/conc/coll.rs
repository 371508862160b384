//! MutableVec and MutableBTreeMap: concurrent locked sections, listeners created, polled and dropped.

use super::*;
use crate::sched::point;
use crate::util::{Ledger, Tracked};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, SignalMap};
use futures_signals::signal_vec::{MutableSignalVec, MutableVec, MutableVecLockMut, SignalVec, SignalVecExt, VecDiff};
use std::collections::BTreeMap;
use std::pin::Pin;

/// Applies a diff to a replica, `Err` if it is not valid for it.
pub fn apply_vec<T>(v: &mut Vec<T>, d: VecDiff<T>) -> Result<(), String> {
    let len = v.len();
    match d {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => {
            if index > len {
                return Err(format!("InsertAt {} in a list of length {}", index, len));
            }
            v.insert(index, value)
        }
        VecDiff::UpdateAt { index, value } => {
            if index >= len {
                return Err(format!("UpdateAt {} in a list of length {}", index, len));
            }
            v[index] = value
        }
        VecDiff::RemoveAt { index } => {
            if index >= len {
                return Err(format!("RemoveAt {} in a list of length {}", index, len));
            }
            v.remove(index);
        }
        VecDiff::Move { old_index, new_index } => {
            if old_index >= len || new_index >= len {
                return Err(format!("Move {} to {} in a list of length {}", old_index, new_index, len));
            }
            let x = v.remove(old_index);
            v.insert(new_index, x);
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => {
            if len == 0 {
                return Err("Pop in an empty list".into());
            }
            v.pop();
        }
        VecDiff::Clear {} => v.clear(),
    }
    Ok(())
}

pub fn apply_map<K: Ord + std::fmt::Debug, V>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>) -> Result<(), String> {
    match d {
        MapDiff::Replace { entries } => {
            let n = entries.len();
            *m = entries.into_iter().collect();
            if m.len() != n {
                return Err("Replace with duplicate keys".into());
            }
        }
        MapDiff::Insert { key, value } => {
            if m.contains_key(&key) {
                return Err(format!("Insert of the present key {:?}", key));
            }
            m.insert(key, value);
        }
        MapDiff::Update { key, value } => {
            if !m.contains_key(&key) {
                return Err(format!("Update of the absent key {:?}", key));
            }
            m.insert(key, value);
        }
        MapDiff::Remove { key } => {
            if m.remove(&key).is_none() {
                return Err(format!("Remove of the absent key {:?}", key));
            }
        }
        MapDiff::Clear {} => m.clear(),
    }
    Ok(())
}

/// The items: values which are tracked, through the cloning operations, or numbers, through the copying ones too.
pub trait Elem: std::fmt::Debug + Sized + Clone + Send + Sync + 'static {
    fn make(id: u64, ledger: &Arc<Ledger>) -> Self;
    fn get(&self) -> u64;
    fn push(l: &mut MutableVecLockMut<Self>, x: Self, r: &mut Rng);
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, r: &mut Rng);
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, r: &mut Rng);
    fn replace(l: &mut MutableVecLockMut<Self>, x: Vec<Self>, r: &mut Rng);
    fn listen_vec(m: &MutableVec<Self>, copy: bool) -> MutableSignalVec<Self>;
    fn map_insert(l: &mut MutableBTreeMapLockMut<u64, Self>, k: u64, x: Self, r: &mut Rng);
    fn map_replace(l: &mut MutableBTreeMapLockMut<u64, Self>, x: BTreeMap<u64, Self>, r: &mut Rng);
    fn listen_map(m: &MutableBTreeMap<u64, Self>, kind: usize) -> Listener<Self>;
}

impl Elem for Tracked {
    fn make(id: u64, ledger: &Arc<Ledger>) -> Self {
        Tracked::new(id, ledger)
    }
    fn get(&self) -> u64 {
        Tracked::get(self)
    }
    fn push(l: &mut MutableVecLockMut<Self>, x: Self, _: &mut Rng) {
        l.push_cloned(x)
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, _: &mut Rng) {
        l.insert_cloned(i, x)
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, _: &mut Rng) {
        l.set_cloned(i, x)
    }
    fn replace(l: &mut MutableVecLockMut<Self>, x: Vec<Self>, _: &mut Rng) {
        l.replace_cloned(x)
    }
    fn listen_vec(m: &MutableVec<Self>, _: bool) -> MutableSignalVec<Self> {
        m.signal_vec_cloned()
    }
    fn map_insert(l: &mut MutableBTreeMapLockMut<u64, Self>, k: u64, x: Self, _: &mut Rng) {
        drop(l.insert_cloned(k, x))
    }
    fn map_replace(l: &mut MutableBTreeMapLockMut<u64, Self>, x: BTreeMap<u64, Self>, _: &mut Rng) {
        l.replace_cloned(x)
    }
    fn listen_map(m: &MutableBTreeMap<u64, Self>, kind: usize) -> Listener<Self> {
        match kind {
            0 | 3 => Listener::Map(Box::pin(m.signal_map_cloned())),
            1 | 4 => Listener::List(Box::pin(m.entries_cloned().map(|(k, v)| (k, v.get())))),
            _ => Listener::List(Box::pin(m.signal_vec_keys().map(|k| (k, 0)))),
        }
    }
}

impl Elem for u64 {
    fn make(id: u64, _: &Arc<Ledger>) -> Self {
        id
    }
    fn get(&self) -> u64 {
        *self
    }
    fn push(l: &mut MutableVecLockMut<Self>, x: Self, r: &mut Rng) {
        if r.chance(3, 4) { l.push(x) } else { l.push_cloned(x) }
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, r: &mut Rng) {
        if r.chance(3, 4) { l.insert(i, x) } else { l.insert_cloned(i, x) }
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, x: Self, r: &mut Rng) {
        if r.chance(3, 4) { l.set(i, x) } else { l.set_cloned(i, x) }
    }
    fn replace(l: &mut MutableVecLockMut<Self>, x: Vec<Self>, r: &mut Rng) {
        if r.chance(3, 4) { l.replace(x) } else { l.replace_cloned(x) }
    }
    fn listen_vec(m: &MutableVec<Self>, copy: bool) -> MutableSignalVec<Self> {
        if copy { m.signal_vec() } else { m.signal_vec_cloned() }
    }
    fn map_insert(l: &mut MutableBTreeMapLockMut<u64, Self>, k: u64, x: Self, r: &mut Rng) {
        if r.chance(3, 4) { l.insert(k, x); } else { l.insert_cloned(k, x); }
    }
    fn map_replace(l: &mut MutableBTreeMapLockMut<u64, Self>, x: BTreeMap<u64, Self>, r: &mut Rng) {
        if r.chance(3, 4) { l.replace(x) } else { l.replace_cloned(x) }
    }
    fn listen_map(m: &MutableBTreeMap<u64, Self>, kind: usize) -> Listener<Self> {
        match kind {
            0 => Listener::Map(Box::pin(m.signal_map())),
            1 => Listener::List(Box::pin(m.signal_vec_entries())),
            3 => Listener::Map(Box::pin(m.signal_map_cloned())),
            4 => Listener::List(Box::pin(m.entries_cloned())),
            _ => Listener::List(Box::pin(m.signal_vec_keys().map(|k| (k, 0)))),
        }
    }
}

/// One random operation which notifies a single diff.
fn single_op<E: Elem>(l: &mut MutableVecLockMut<E>, r: &mut Rng, mk: &mut impl FnMut() -> E) {
    let n = l.len();
    match r.below(8) {
        0 | 1 => E::push(l, mk(), r),
        2 => {
            let i = r.below(n + 1);
            E::insert(l, i, mk(), r)
        }
        3 if n > 0 => {
            let i = r.below(n);
            E::set(l, i, mk(), r)
        }
        4 if n > 0 => {
            let i = r.below(n);
            drop(l.remove(i))
        }
        5 => drop(l.pop()),
        6 if n > 0 => {
            let (a, b) = (r.below(n), r.below(n));
            l.move_from_to(a, b)
        }
        7 if r.flip() => l.clear(),
        7 => {
            let k = r.below(3);
            let v = (0..k).map(|_| mk()).collect();
            E::replace(l, v, r)
        }
        _ => E::push(l, mk(), r),
    }
}

fn multi_op<E: Elem>(l: &mut MutableVecLockMut<E>, r: &mut Rng, mk: &mut impl FnMut() -> E) {
    let n = l.len();
    match r.below(7) {
        0 => l.truncate(r.below(n + 1)),
        1 => {
            let a = r.below(n + 1);
            let b = a + r.below(n - a + 1);
            drop(l.drain(a..b))
        }
        2 => {
            let k = r.range(2, 3) as u64;
            l.retain(|x| x.get() % k != 0)
        }
        3 => l.reverse(),
        4 if n > 0 => {
            let (a, b) = (r.below(n), r.below(n));
            l.swap(a, b)
        }
        _ => {
            E::push(l, mk(), r);
            point("locked");
            single_op(l, r, mk)
        }
    }
}

const ALL: &[&str] = &["C28", "C10"];

pub fn run_vec(seed: u64, case: &mut Case) {
    run_vec_of::<Tracked>(seed, case)
}

pub fn run_vec_copy(seed: u64, case: &mut Case) {
    run_vec_of::<u64>(seed, case)
}

fn run_vec_of<E: Elem>(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let ledger = Ledger::new();
    let init: Vec<E> = (0..rng.below(4)).map(|i| E::make(i as u64 + 1, &ledger)).collect();
    let versions: Shared<Vec<Vec<u64>>> = shared(vec![init.iter().map(|t| t.get()).collect()]);
    let m = MutableVec::new_with_values(init);
    let single = rng.flip();
    let keep = rng.flip();
    let mut tasks = vec![];
    let mut logs = vec![];
    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);
    let writers = rng.range(1, 3);
    let consumers = rng.range(1, 3);
    let max_ops = rng.range(1, 5);

    for w in 0..writers {
        let m = m.clone();
        let mut r = rng.fork();
        let ledger = ledger.clone();
        let versions = versions.clone();
        let n = r.range(1, max_ops);
        tasks.push(task(format!("writer{}", w), move || {
            let mut next = 1000 * (w as u64 + 1);
            for _ in 0..n {
                let mut mk = || {
                    next += 1;
                    E::make(next, &ledger)
                };
                if r.chance(1, 8) {
                    debug(&m);
                }
                if r.chance(1, 8) {
                    let g = m.lock_ref();
                    if r.flip() {
                        debug(&g);
                    }
                    let a: Vec<u64> = g.iter().map(|t| t.get()).collect();
                    point("locked");
                    if g.iter().map(|t| t.get()).collect::<Vec<_>>() != a {
                        panic!("a MutableVec changed while it was locked for reading");
                    }
                }
                let mut l = m.lock_mut();
                if single || r.flip() {
                    single_op(&mut l, &mut r, &mut mk);
                } else {
                    multi_op(&mut l, &mut r, &mut mk);
                }
                let snap: Vec<u64> = l.iter().map(|t| t.get()).collect();
                versions.lock().unwrap().push(snap);
                drop(l);
                point("next");
            }
        }));
    }

    let mut all_states = vec![];
    for c in 0..consumers {
        let name = format!("listener{}", c);
        let log: Shared<Log<()>> = shared(Log { name: name.clone(), ..Log::default() });
        let replica: Shared<Vec<u64>> = shared(vec![]);
        logs.push((log.clone(), replica.clone()));
        let mut opts = Opts::random(&mut rng);
        if opts.quit_after != usize::MAX {
            opts.quit_after += 1;
        }
        let early = rng.flip();
        let copy = rng.chance(3, 4);
        let mut sig = if early { Some(E::listen_vec(&m, copy)) } else { None };
        let mut h = if early { None } else { Some(m.clone()) };
        let problems = problems.clone();
        let states: Shared<Vec<Vec<u64>>> = shared(vec![]);
        all_states.push((name.clone(), states.clone()));
        tasks.push(task(name.clone(), move || {
            let mut s = match sig.take() {
                Some(s) => s,
                None => {
                    let h = h.take().unwrap();
                    let s = E::listen_vec(&h, copy);
                    drop(h);
                    s
                }
            };
            consume(&log, &mut opts, |cx| match Pin::new(&mut s).poll_vec_change(cx) {
                Poll::Ready(Some(d)) => {
                    let d = map_diff(d);
                    let mut rep = replica.lock().unwrap();
                    if let Err(e) = apply_vec(&mut rep, d) {
                        problems.lock().unwrap().push((&["C28"], format!("{} received an invalid diff: {}", name, e)));
                    }
                    states.lock().unwrap().push(rep.clone());
                    Poll::Ready(Some(()))
                }
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            });
        }));
    }

    {
        let problems = problems.clone();
        let logs = logs.clone();
        let versions = versions.clone();
        let mut r = rng.fork();
        let ledger = ledger.clone();
        let mut held = if keep { Some(m) } else { drop(m); None };
        tasks.push(task("controller", move || {
            sched::wait_idle();
            let check = |alive: bool| {
                let vs = versions.lock().unwrap();
                let current = vs.last().unwrap();
                for (l, rep) in &logs {
                    let l = l.lock().unwrap();
                    if l.quit {
                        continue;
                    }
                    let rep = rep.lock().unwrap();
                    let mut p = problems.lock().unwrap();
                    if *rep != *current {
                        p.push((&["C28"], format!("{} {} with {:?} although the vector is {:?}", l.name, if l.ended { "ended" } else { "is asleep" }, rep, current)));
                    }
                    if l.ended == alive {
                        p.push((&["C28"], format!("{} {} although the vector is {}", l.name, if l.ended { "ended" } else { "did not end" }, if alive { "alive" } else { "gone" })));
                    }
                }
            };
            check(held.is_some());
            if let Some(m) = held.take() {
                {
                    let mut l = m.lock_mut();
                    let mut next = 9000;
                    let mut mk = || {
                        next += 1;
                        E::make(next, &ledger)
                    };
                    single_op(&mut l, &mut r, &mut mk);
                    let snap: Vec<u64> = l.iter().map(|t| t.get()).collect();
                    versions.lock().unwrap().push(snap);
                }
                drop(m);
                sched::wait_idle();
                check(false);
            }
        }));
    }

    finish(case, &mut rng, tasks, problems, &ledger, &logs.iter().map(|l| l.0.clone()).collect::<Vec<_>>());
    let versions = versions.lock().unwrap();
    case.note(|| format!("versions {:?}", versions));
    if single && case.violations.is_empty() {
        // Each lock performed one operation: a listener sees nothing but the versions, in their order
        for (name, states) in all_states {
            let states = states.lock().unwrap();
            case.note(|| format!("{} saw {:?}", name, states));
            case.count("states_compared", states.len() as u64);
            let mut v = 0;
            for s in states.iter() {
                match (v..versions.len()).find(|i| versions[*i] == *s) {
                    Some(i) => v = i,
                    None => {
                        case.fail(&["C28"], format!("{} had {:?} which is not the contents after version {} (versions {:?})", name, s, v, versions));
                        break;
                    }
                }
            }
        }
    }
}

fn map_diff<E: Elem>(d: VecDiff<E>) -> VecDiff<u64> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.iter().map(|t| t.get()).collect() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: value.get() },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index, value: value.get() },
        VecDiff::Push { value } => VecDiff::Push { value: value.get() },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}

fn finish(case: &mut Case, rng: &mut Rng, tasks: Vec<Task>, problems: Shared<Vec<(&'static [&'static str], String)>>, ledger: &Arc<Ledger>, logs: &[Shared<Log<()>>]) {
    let (ok, _) = execute(case, rng, tasks, ALL);
    if !ok {
        return;
    }
    for (p, msg) in problems.lock().unwrap().drain(..) {
        case.fail(p, msg);
    }
    for l in logs {
        let l = l.lock().unwrap();
        case.count("diffs_delivered", l.values.len() as u64);
        case.count("polls", l.polls);
        case.count("ends", l.ended as u64);
        case.note(|| format!("{}: {} diffs, {} polls, ended {}", l.name, l.values.len(), l.polls, l.ended));
    }
    if let Some(v) = ledger.verdict() {
        case.fail(&["C28", "C09"], v);
    }
}

pub fn run_map(seed: u64, case: &mut Case) {
    run_map_of::<Tracked>(seed, case)
}

pub fn run_map_copy(seed: u64, case: &mut Case) {
    run_map_of::<u64>(seed, case)
}

fn run_map_of<E: Elem>(seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let ledger = Ledger::new();
    let init: BTreeMap<u64, E> = (0..rng.below(3)).map(|i| (i as u64 + 1, E::make(i as u64 + 1, &ledger))).collect();
    let snap = |m: &BTreeMap<u64, E>| m.iter().map(|(k, v)| (*k, v.get())).collect::<BTreeMap<u64, u64>>();
    let latest: Shared<BTreeMap<u64, u64>> = shared(snap(&init));
    let m: MutableBTreeMap<u64, E> = MutableBTreeMap::with_values(init);
    let keep = rng.flip();
    let mut tasks = vec![];
    let mut logs = vec![];
    let problems: Shared<Vec<(&'static [&'static str], String)>> = shared(vec![]);
    let writers = rng.range(1, 3);
    let consumers = rng.range(1, 3);
    let max_ops = rng.range(1, 5);

    fn op<E: Elem>(m: &MutableBTreeMap<u64, E>, r: &mut Rng, next: &mut u64, ledger: &Arc<Ledger>, latest: &Shared<BTreeMap<u64, u64>>) {
        let mut l = m.lock_mut();
        let key = 1 + r.below(4) as u64;
        for _ in 0..r.range(1, 2) {
            *next += 1;
            match r.below(8) {
                0..=3 => E::map_insert(&mut l, key, E::make(*next, ledger), r),
                4 | 5 => drop(l.remove(&key)),
                6 => l.clear(),
                _ => {
                    let k = r.below(3);
                    E::map_replace(&mut l, (0..k).map(|i| (i as u64 + 1, E::make(*next + 100 * i as u64, ledger))).collect(), r)
                }
            }
            point("locked");
        }
        let s = l.iter().map(|(k, v)| (*k, v.get())).collect();
        *latest.lock().unwrap() = s;
    }

    for w in 0..writers {
        let m = m.clone();
        let mut r = rng.fork();
        let ledger = ledger.clone();
        let latest = latest.clone();
        let n = r.range(1, max_ops);
        tasks.push(task(format!("writer{}", w), move || {
            let mut next = 1000 * (w as u64 + 1);
            for _ in 0..n {
                if r.chance(1, 8) {
                    debug(&m);
                }
                op(&m, &mut r, &mut next, &ledger, &latest);
                point("next");
            }
        }));
    }

    for c in 0..consumers {
        let name = format!("listener{}", c);
        let log: Shared<Log<()>> = shared(Log { name: name.clone(), ..Log::default() });
        let replica: Shared<BTreeMap<u64, u64>> = shared(BTreeMap::new());
        logs.push((log.clone(), replica.clone()));
        let mut opts = Opts::random(&mut rng);
        let early = rng.flip();
        let kind = rng.below(5);
        let problems = problems.clone();
        // kind 0, 3: map, 1, 4: entries, 2: keys only
        let mut h = Some(m.clone());
        let mut sigs = if early { Some(E::listen_map(&h.take().unwrap(), kind)) } else { None };
        tasks.push(task(name.clone(), move || {
            let mut s = match sigs.take() {
                Some(s) => s,
                None => {
                    let h = h.take().unwrap();
                    let s = E::listen_map(&h, kind);
                    drop(h);
                    s
                }
            };
            let mut list: Vec<(u64, u64)> = vec![];
            consume(&log, &mut opts, |cx| {
                let r = match &mut s {
                    Listener::Map(s) => match s.as_mut().poll_map_change(cx) {
                        Poll::Ready(Some(d)) => {
                            let d = match d {
                                MapDiff::Replace { entries } => MapDiff::Replace { entries: entries.iter().map(|(k, v)| (*k, v.get())).collect() },
                                MapDiff::Insert { key, value } => MapDiff::Insert { key, value: value.get() },
                                MapDiff::Update { key, value } => MapDiff::Update { key, value: value.get() },
                                MapDiff::Remove { key } => MapDiff::Remove { key },
                                MapDiff::Clear {} => MapDiff::Clear {},
                            };
                            Poll::Ready(Some(apply_map(&mut replica.lock().unwrap(), d)))
                        }
                        Poll::Ready(None) => Poll::Ready(None),
                        Poll::Pending => Poll::Pending,
                    },
                    Listener::List(s) => match s.as_mut().poll_vec_change(cx) {
                        Poll::Ready(Some(d)) => {
                            let r = apply_vec(&mut list, d);
                            *replica.lock().unwrap() = list.iter().copied().collect();
                            let sorted = list.windows(2).all(|w| w[0].0 < w[1].0);
                            Poll::Ready(Some(if sorted { r } else { Err(format!("unsorted list {:?}", list)) }))
                        }
                        Poll::Ready(None) => Poll::Ready(None),
                        Poll::Pending => Poll::Pending,
                    },
                };
                match r {
                    Poll::Ready(Some(r)) => {
                        if let Err(e) = r {
                            problems.lock().unwrap().push((&["C28"], format!("{} received an invalid diff: {}", name, e)));
                        }
                        Poll::Ready(Some(()))
                    }
                    Poll::Ready(None) => Poll::Ready(None),
                    Poll::Pending => Poll::Pending,
                }
            });
        }));
        if kind == 2 {
            // Compared by key only
            logs.last_mut().unwrap().0.lock().unwrap().name.push_str(" (keys)");
        }
    }

    {
        let problems = problems.clone();
        let logs = logs.clone();
        let latest = latest.clone();
        let mut r = rng.fork();
        let ledger = ledger.clone();
        let mut held = if keep { Some(m) } else { drop(m); None };
        tasks.push(task("controller", move || {
            sched::wait_idle();
            let check = |alive: bool| {
                let current = latest.lock().unwrap();
                for (l, rep) in &logs {
                    let l = l.lock().unwrap();
                    if l.quit {
                        continue;
                    }
                    let rep = rep.lock().unwrap();
                    let mut p = problems.lock().unwrap();
                    let same = if l.name.ends_with("(keys)") { rep.keys().eq(current.keys()) } else { *rep == *current };
                    if !same {
                        p.push((&["C28"], format!("{} {} with {:?} although the map is {:?}", l.name, if l.ended { "ended" } else { "is asleep" }, rep, current)));
                    }
                    if l.ended == alive {
                        p.push((&["C28"], format!("{} {} although the map is {}", l.name, if l.ended { "ended" } else { "did not end" }, if alive { "alive" } else { "gone" })));
                    }
                }
            };
            check(held.is_some());
            if let Some(m) = held.take() {
                let mut next = 9000;
                op(&m, &mut r, &mut next, &ledger, &latest);
                drop(m);
                sched::wait_idle();
                check(false);
            }
        }));
    }
    finish(case, &mut rng, tasks, problems, &ledger, &logs.iter().map(|l| l.0.clone()).collect::<Vec<_>>());
}

pub enum Listener<E> {
    Map(Pin<Box<dyn SignalMap<Key = u64, Value = E> + Send>>),
    List(Pin<Box<dyn SignalVec<Item = (u64, u64)> + Send>>),
}
