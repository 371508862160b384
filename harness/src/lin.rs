//! Linearizability checker (Wing & Gong with memoization) for small histories.

use std::collections::HashSet;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct Op<O> {
    pub op: O,
    pub call: u64,
    pub ret: u64,
    pub who: String,
}

/// `None` when the budget ran out.
pub fn linearizable<S, O>(init: S, ops: &[Op<O>], apply: impl Fn(&S, &O) -> Option<S>) -> Option<bool>
where
    S: Clone + Eq + Hash,
{
    if ops.len() > 63 {
        return None;
    }
    let full: u64 = (1u64 << ops.len()) - 1;
    let mut seen: HashSet<(u64, S)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    let mut budget = 400_000usize;
    while let Some((mask, state)) = stack.pop() {
        if mask == full {
            return Some(true);
        }
        if budget == 0 {
            return None;
        }
        budget -= 1;
        if !seen.insert((mask, state.clone())) {
            continue;
        }
        let min_ret = ops.iter().enumerate().filter(|(i, _)| mask & (1 << i) == 0).map(|(_, o)| o.ret).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if mask & (1 << i) == 0 && o.call < min_ret {
                if let Some(s) = apply(&state, &o.op) {
                    stack.push((mask | (1 << i), s));
                }
            }
        }
    }
    Some(false)
}
