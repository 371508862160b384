//! Random pipelines over random sources: build, change the sources, let the consumer follow its
//! wake-ups, compare with what the pipeline denotes.

use super::expr::{self, Any, Env, EnvInner, KeepState, Need, F, M, S, V};
use super::out::AnyOut;
use super::src::*;
use super::{count, event, problems, report, trace, with_case, Chaos, Props};
use crate::ctx::Case;
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Un(expr::Un),
    Many(expr::Many),
    ConstS,
    Switch,
    FlattenS,
    Agg(expr::Agg),
    Key,
    Keep(expr::Keep),
    Always,
    Map,
    Filter,
    FilterMap,
    MapSignal,
    FilterSignal,
    Sort,
    Chain,
    Flatten,
    Enumerate,
    SwitchVec,
    ToSignalVec,
    Keys,
    Entries,
    Delay0,
    BoxedV,
    DebugV,
    ViaSignal,
    FromStream,
    MapAlways,
    MapValue,
    MapValueSignal,
    BoxedM,
}

use Kind::*;

pub const S_KINDS: &[Kind] = &[
    Un(expr::Un::Map),
    Un(expr::Un::Inspect),
    Un(expr::Un::Eq),
    Un(expr::Un::Neq),
    Un(expr::Un::Dedupe),
    Un(expr::Un::DedupeCloned),
    Un(expr::Un::DedupeMap),
    Un(expr::Un::Not),
    Un(expr::Un::Boxed),
    Un(expr::Un::Debug),
    Un(expr::Un::OptionSome),
    Un(expr::Un::ResultOk),
    Un(expr::Un::Broadcast),
    Un(expr::Un::Broadcast),
    Un(expr::Un::ViaStream),
    Un(expr::Un::FlattenAlways),
    Un(expr::Un::Throttle0),
    Un(expr::Un::MapFuture0),
    Un(expr::Un::ByMut),
    Many(expr::Many::Ref),
    Many(expr::Many::Ref),
    Many(expr::Many::Mut),
    Many(expr::Many::And),
    Many(expr::Many::Or),
    ConstS,
    Switch,
    Switch,
    Switch,
    FlattenS,
    FlattenS,
    Agg(expr::Agg::Len),
    Agg(expr::Agg::IsEmpty),
    Agg(expr::Agg::Sum),
    Agg(expr::Agg::Cloned),
    Agg(expr::Agg::Map),
    Key,
    Key,
    Keep(expr::Keep::FilterMap),
    Keep(expr::Keep::StopIf),
    Keep(expr::Keep::First),
];

pub const V_KINDS: &[Kind] = &[
    Always,
    Map,
    Map,
    Filter,
    Filter,
    FilterMap,
    FilterMap,
    MapSignal,
    MapSignal,
    MapSignal,
    FilterSignal,
    FilterSignal,
    FilterSignal,
    Sort,
    Sort,
    Chain,
    Chain,
    Chain,
    Flatten,
    Flatten,
    Flatten,
    Enumerate,
    SwitchVec,
    SwitchVec,
    SwitchVec,
    ToSignalVec,
    Keys,
    Entries,
    Delay0,
    BoxedV,
    DebugV,
    ViaSignal,
    FromStream,
];

pub const M_KINDS: &[Kind] = &[MapAlways, MapValue, MapValue, MapValueSignal, MapValueSignal, MapValueSignal, BoxedM];

fn is_s(k: Kind) -> bool {
    matches!(k, Un(_) | Many(_) | ConstS | Switch | FlattenS | Agg(_) | Key | Keep(_))
}

fn is_m(k: Kind) -> bool {
    matches!(k, MapAlways | MapValue | MapValueSignal | BoxedM)
}

#[derive(Clone, Copy)]
struct Ctx {
    cells: usize,
    vecs: usize,
    maps: usize,
    template: bool,
    keep: bool,
}

impl Ctx {
    fn inner(self) -> Ctx {
        Ctx { template: true, keep: false, ..self }
    }
}

fn gen_s(rng: &mut Rng, depth: usize, c: Ctx) -> S {
    if depth == 0 {
        if c.template && rng.flip() {
            return S::CellBy(F::gen(rng, true));
        }
        return match rng.below(if c.template { 10 } else { 8 }) {
            0..=6 => S::Cell(rng.below(c.cells)),
            7 => S::Const(rng.below(20) as i64),
            _ => S::Param,
        };
    }
    if rng.chance(1, 5) {
        return gen_s(rng, 0, c);
    }
    loop {
        let k = *rng.pick(S_KINDS);
        if let Some(s) = gen_s_kind(rng, k, depth, c) {
            return s;
        }
    }
}

fn gen_s_kind(rng: &mut Rng, k: Kind, depth: usize, c: Ctx) -> Option<S> {
    let f = F::gen(rng, c.template);
    let d = depth.saturating_sub(1);
    Some(match k {
        Un(u) => S::Un(u, f, Box::new(gen_s(rng, d, c))),
        Many(m) => {
            let n = match m {
                expr::Many::And | expr::Many::Or => 2,
                _ => rng.range(1, if d == 0 { 6 } else { 3 }),
            };
            S::Many(m, f, (0..n).map(|_| gen_s(rng, d, c)).collect())
        }
        ConstS => match rng.below(5) {
            0 => S::Const(rng.below(9) as i64),
            1 => S::ConstOption(None),
            2 => S::ConstOption(Some(rng.below(9) as i64)),
            3 => S::ConstResult(rng.below(9) as i64),
            _ => S::FromFuture(rng.below(9) as i64),
        },
        Switch => S::Switch(f, Box::new(gen_s(rng, d, c)), Rc::new(gen_s(rng, d, c.inner()))),
        FlattenS => S::Flatten(f, Box::new(gen_s(rng, d, c)), Rc::new(gen_s(rng, d, c.inner()))),
        Agg(a) => S::Agg(a, f, Box::new(gen_v(rng, d, c))),
        Key => S::Key(rng.below(KEYS as usize) as i64, Box::new(gen_m(rng, d, c))),
        Keep(keep) => {
            if !c.keep {
                return None;
            }
            let c2 = if keep == expr::Keep::FilterMap { c } else { Ctx { keep: false, ..c } };
            S::Keep(keep, f, Box::new(gen_s(rng, d, c2)), Rc::new(RefCell::new(KeepState::default())))
        }
        _ => return None,
    })
}

fn gen_v(rng: &mut Rng, depth: usize, c: Ctx) -> V {
    if depth == 0 {
        if c.template && rng.flip() {
            return V::SrcBy(F::gen(rng, true));
        }
        return if rng.chance(1, 10) { V::Always(F::gen(rng, c.template), rng.below(4)) } else { V::Src(rng.below(c.vecs)) };
    }
    if rng.chance(1, 5) {
        return gen_v(rng, 0, c);
    }
    let k = *rng.pick(V_KINDS);
    gen_v_kind(rng, k, depth, c)
}

fn gen_v_kind(rng: &mut Rng, k: Kind, depth: usize, c: Ctx) -> V {
    let f = F::gen(rng, c.template);
    let d = depth.saturating_sub(1);
    match k {
        Always => V::Always(f, rng.below(5)),
        Map => V::Map(f, Box::new(gen_v(rng, d, c))),
        Filter => V::Filter(f, Box::new(gen_v(rng, d, c))),
        FilterMap => V::FilterMap(f, Box::new(gen_v(rng, d, c))),
        MapSignal => V::MapSignal(Box::new(gen_v(rng, d, c)), Rc::new(gen_s(rng, d.min(2), c.inner()))),
        FilterSignal => V::FilterSignal(Box::new(gen_v(rng, d, c)), Rc::new(gen_s(rng, d.min(2), c.inner()))),
        Sort => V::Sort(f, Box::new(gen_v(rng, d, c))),
        Chain => V::Chain(Box::new(gen_v(rng, d, c)), Box::new(gen_v(rng, d, c))),
        Flatten => V::Flatten(Box::new(gen_v(rng, d, c)), Rc::new(gen_v(rng, d.min(2), c.inner()))),
        Enumerate => V::Enumerate(f, Box::new(gen_v(rng, d, c))),
        SwitchVec => V::SwitchVec(Box::new(gen_s(rng, d, c)), Rc::new(gen_v(rng, d, c.inner()))),
        ToSignalVec => V::ToSignalVec(f, Box::new(gen_s(rng, d, c))),
        Keys => V::Keys(c.maps),
        Entries => V::Entries(f, c.maps),
        Delay0 => V::Delay0(Box::new(gen_v(rng, d, c))),
        BoxedV => V::Boxed(Box::new(gen_v(rng, d, c))),
        DebugV => V::Debug(Box::new(gen_v(rng, d, c))),
        ViaSignal => V::ViaSignal(Box::new(gen_v(rng, d, c))),
        FromStream => V::FromStream((0..rng.below(4)).map(|i| i as i64 * 3).collect()),
        _ => panic!("HARNESS"),
    }
}

fn gen_m(rng: &mut Rng, depth: usize, c: Ctx) -> M {
    if depth == 0 {
        return if rng.chance(1, 10) { M::Always(F::gen(rng, c.template), rng.below(4)) } else { M::Src(rng.below(c.maps + 1)) };
    }
    let k = *rng.pick(M_KINDS);
    gen_m_kind(rng, k, depth, c)
}

fn gen_m_kind(rng: &mut Rng, k: Kind, depth: usize, c: Ctx) -> M {
    let f = F::gen(rng, c.template);
    let d = depth.saturating_sub(1);
    match k {
        MapAlways => M::Always(f, rng.below(5)),
        MapValue => M::MapValue(f, Box::new(gen_m(rng, d, c))),
        MapValueSignal => M::MapValueSignal(Box::new(gen_m(rng, d, c)), Rc::new(gen_s(rng, d.min(2), c.inner()))),
        BoxedM => M::Boxed(Box::new(gen_m(rng, d, c))),
        _ => panic!("HARNESS"),
    }
}

#[derive(Clone, Copy)]
pub struct Grammar {
    pub props: Props,
    pub roots: &'static [Kind],
    pub depth: (usize, usize),
    pub max_len: usize,
}

fn gen_value(rng: &mut Rng) -> i64 {
    match rng.below(3) {
        0 => rng.below(4) as i64,
        1 => rng.below(12) as i64,
        _ => rng.below(100_000) as i64,
    }
}

pub fn run(g: Grammar) -> impl Fn(u64, &mut Case) + Sync + 'static {
    move |seed, case| with_case(case, |case| run_case(&g, seed, case))
}

fn run_case(g: &Grammar, seed: u64, case: &mut Case) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let chaos = Rc::new(Chaos::default());

    let n_cells = rng.range(1, 4);
    let n_vecs = rng.range(1, 3);
    let n_maps = rng.range(1, 2);
    let real = rng.below(3); // 0: scripted only, 1: mixed, 2: real only
    let kinds = [
        CellKind::Latest,
        CellKind::Queue,
        CellKind::Mutable,
        CellKind::MutableCloned,
        CellKind::MutableRef,
        CellKind::ReadOnly,
        CellKind::Broadcast,
        CellKind::Channel,
    ];
    // Once in a while everything is bigger than what fits into small buffers or simple algorithms
    let (mut max_len, mut keys, mut limit) = if rng.chance(1, 10) { (*rng.pick(&[24, 40, 80]), 40, 700) } else { (g.max_len, KEYS, 150) };

    let depth = rng.range(g.depth.0, g.depth.1);
    let ctx = Ctx { cells: n_cells, vecs: n_vecs, maps: n_maps, template: false, keep: true };
    let kind = *rng.pick(g.roots);
    let mut attempts = 0;
    let expr = loop {
        attempts += 1;
        if attempts == 20 {
            max_len = g.max_len;
            keys = KEYS;
            limit = 150;
        }
        let n = if keys > KEYS { max_len.max(keys as usize) } else { max_len };
        let (expr, size) = if is_s(kind) {
            let e = gen_s_kind(rng, kind, depth, ctx).unwrap();
            let size = e.size(n);
            (Any::S(e), size)
        } else if is_m(kind) {
            let e = gen_m_kind(rng, kind, depth, ctx);
            let size = e.size(n);
            (Any::M(e), size)
        } else {
            let e = gen_v_kind(rng, kind, depth, ctx);
            let size = e.size(n);
            (Any::V(e), size)
        };
        if size <= limit {
            break expr;
        }
    };
    let cells = (0..n_cells)
        .map(|i| {
            let kind = match real {
                0 => kinds[rng.below(2)],
                1 => *rng.pick(&kinds),
                _ => kinds[rng.range(2, 7)],
            };
            CellSrc::new(i, kind, gen_value(rng), &chaos)
        })
        .collect::<Vec<_>>();
    let is_real = |rng: &mut Rng| match real {
        0 => false,
        1 => rng.flip(),
        _ => true,
    };
    let vecs = (0..n_vecs)
        .map(|i| {
            let values = (0..rng.below(max_len + 1)).map(|_| gen_value(rng)).collect();
            let r = is_real(rng);
            VecSrc::new(i, r, values, max_len, rng.fork(), &chaos)
        })
        .collect::<Vec<_>>();
    let mut maps = vec![];
    for i in 0..=n_maps {
        let mut values = std::collections::BTreeMap::new();
        for k in 0..keys {
            if rng.flip() {
                values.insert(k, gen_value(rng));
            }
        }
        // the last one has key and entry lists
        let r = i == n_maps || is_real(rng);
        maps.push(MapSrc::new(i, r, values, keys, rng.fork(), &chaos));
    }

    if max_len > g.max_len {
        count("large_cases", 1);
    }
    let expr_text = format!("{:?}", expr);
    event(|| format!("expression {}", expr_text));
    trace(hash_str(&expr_text));

    let env: Env = Rc::new(EnvInner { cells, vecs, maps, props: g.props, chaos: chaos.clone(), monitors: RefCell::new(vec![]) });

    fn mutate(env: &EnvInner, rng: &mut Rng) {
        let n = env.cells.len() + env.vecs.len() + env.maps.len();
        let mut i = rng.below(n);
        if i < env.cells.len() {
            let v = gen_value(rng);
            return env.cells[i].set(v, rng);
        }
        i -= env.cells.len();
        if i < env.vecs.len() {
            return env.vecs[i].mutate(rng, &mut gen_value);
        }
        i -= env.vecs.len();
        env.maps[i].mutate(rng, &mut gen_value)
    }

    fn end(env: &EnvInner, mut i: usize) {
        if i < env.cells.len() {
            return env.cells[i].end();
        }
        i -= env.cells.len();
        if i < env.vecs.len() {
            return env.vecs[i].end();
        }
        i -= env.vecs.len();
        env.maps[i].end()
    }

    for _ in 0..rng.below(4) {
        mutate(&env, rng);
    }

    let mut out = match &expr {
        Any::S(s) => AnyOut::s(s.build(&env, 0), rng, g.props),
        Any::V(v) => AnyOut::v(v.build(&env, 0), rng, g.props),
        Any::M(m) => AnyOut::m(m.build(&env, 0), rng, g.props),
    };
    out.fused(expr.fused());

    if rng.flip() {
        let one_in = *rng.pick(&[2, 5, 20]);
        // a weak reference, because the sources hold the chaos
        let weak = Rc::downgrade(&env);
        chaos.install(
            rng.fork(),
            one_in,
            Box::new(move |rng| {
                if let Some(env) = weak.upgrade() {
                    mutate(&env, rng)
                }
            }),
        );
    }

    let sources = env.cells.len() + env.vecs.len() + env.maps.len();
    let mut alive: Vec<usize> = (0..sources).collect();
    let rounds = rng.range(2, 9);
    for round in 0..rounds {
        let last = round + 1 == rounds;
        // Something happens, while the consumer may poll in between
        if round > 0 || rng.flip() {
            for _ in 0..rng.range(0, 4) {
                mutate(&env, rng);
                if rng.chance(1, 3) {
                    chaos.budget.set(2);
                    out.once(rng, false);
                    chaos.budget.set(0);
                }
                if rng.chance(1, 12) {
                    out.once(rng, true);
                    count("spurious_polls", 1);
                }
            }
        }
        if last {
            if rng.chance(2, 3) {
                while !alive.is_empty() {
                    let i = alive.swap_remove(rng.below(alive.len()));
                    end(&env, i);
                    if rng.chance(1, 3) {
                        out.once(rng, false);
                    }
                }
            }
        } else if rng.chance(1, 8) && !alive.is_empty() {
            let i = alive.swap_remove(rng.below(alive.len()));
            end(&env, i);
        }
        chaos.budget.set(rng.below(4) as u32);
        out.settle(rng);
        chaos.budget.set(0);
        event(|| "settled".into());
        check(g, &env, &expr, &out, "");
        if problems() {
            return;
        }
        if rng.chance(1, 4) {
            // A poll without having been woken must not change anything which should be the same
            out.once(rng, true);
            out.settle(rng);
            check(g, &env, &expr, &out, " (after a poll without being woken)");
        }
        if problems() {
            return;
        }
    }

    // Dropping it gives back everything
    let ended = out.task().ended;
    let polls = out.task().polls;
    out.drop_inner();
    chaos.clear();
    let monitors = env.monitors.take();
    drop(monitors);
    for i in 0..env.cells.len() {
        if let Some(n) = env.cells[i].live() {
            if n != 0 {
                report(&["C30", "C13", "C16"], format!("{} subscriptions of cell {} are left after dropping everything", n, i));
            }
        }
    }
    for i in 0..env.vecs.len() {
        if env.vecs[i].live.get() != 0 {
            report(&["C30", "C16"], format!("{} subscriptions of vec {} are left after dropping everything", env.vecs[i].live.get(), i));
        }
    }
    for i in 0..env.maps.len() {
        if env.maps[i].live.get() != 0 {
            report(&["C30", "C16"], format!("{} subscriptions of map {} are left after dropping everything", env.maps[i].live.get(), i));
        }
    }
    count("cases_ended", ended as u64);
    case.nontrivial = polls >= 3;
    case.mix_sig(mix(hash_str(&expr_text), polls));
}

fn check(g: &Grammar, env: &Env, expr: &Any, out: &AnyOut, when: &str) {
    if problems() {
        return;
    }
    count("quiescent_points", 1);
    env.check_monitors();
    let mut need = Need::default();
    let ended = match (expr, out) {
        (Any::S(e), AnyOut::S(o)) => {
            let (v, ended) = e.eval(env, 0, &mut need);
            if o.last != Some(v) {
                report(g.props, format!("the signal carries {:?} instead of {}{}", o.last, v, when));
            }
            trace(v as u64);
            ended
        }
        (Any::V(e), AnyOut::V(o)) => {
            let (v, ended) = e.eval(env, 0, &mut need);
            if o.list != v {
                report(g.props, format!("the list is {:?} instead of {:?}{}", o.list, v, when));
            }
            trace(v.len() as u64);
            ended
        }
        (Any::M(e), AnyOut::M(o)) => {
            let (v, ended) = e.eval(env, 0, &mut need);
            if o.map != v {
                report(g.props, format!("the map is {:?} instead of {:?}{}", o.map, v, when));
            }
            trace(v.len() as u64);
            ended
        }
        _ => panic!("HARNESS"),
    };
    if let Some(e) = ended {
        if e != out.task().ended {
            report(g.props, if e { format!("everything has ended but the output has not{}", when) } else { format!("the output has ended too early{}", when) });
        }
    }
    if need.unknown {
        return;
    }
    for (i, c) in env.cells.iter().enumerate() {
        let n = need.cells.get(&i).copied().unwrap_or(0);
        if c.live().unwrap_or(0) > n {
            report(g.props, format!("{} subscriptions of cell {} are alive although only {} are needed", c.live.get(), i, n));
        }
    }
    for (i, c) in env.vecs.iter().enumerate() {
        let n = need.vecs.get(&i).copied().unwrap_or(0);
        if c.live().unwrap_or(0) > n {
            report(g.props, format!("{} subscriptions of vec {} are alive although only {} are needed", c.live.get(), i, n));
        }
    }
    for (i, c) in env.maps.iter().enumerate() {
        let n = need.maps.get(&i).copied().unwrap_or(0);
        if c.live().unwrap_or(0) > n {
            report(g.props, format!("{} subscriptions of map {} are alive although only {} are needed", c.live.get(), i, n));
        }
    }
}
