//! Values with a drop ledger.

use crate::sched::point;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Default, Debug)]
pub struct Ledger {
    pub live: AtomicI64,
    pub made: AtomicU64,
    pub clones: AtomicU64,
    pub bad: AtomicU64,
}

impl Ledger {
    pub fn new() -> Arc<Self> {
        Arc::new(Self::default())
    }

    /// Problems which remain when everything should have been dropped.
    pub fn verdict(&self) -> Option<String> {
        let live = self.live.load(Ordering::SeqCst);
        let bad = self.bad.load(Ordering::SeqCst);
        if bad != 0 {
            Some(format!("{} values were dropped or used after having been dropped", bad))
        } else if live > 0 {
            Some(format!("{} of {} values were leaked", live, self.made.load(Ordering::SeqCst)))
        } else if live < 0 {
            Some(format!("{} values were dropped twice", -live))
        } else {
            None
        }
    }
}

const MAGIC: u64 = 0x5afe_5afe_c0de_c0de;

pub struct Tracked {
    pub id: u64,
    heap: Box<u64>,
    magic: u64,
    ledger: Arc<Ledger>,
}

impl Tracked {
    pub fn new(id: u64, ledger: &Arc<Ledger>) -> Self {
        ledger.live.fetch_add(1, Ordering::Relaxed);
        ledger.made.fetch_add(1, Ordering::Relaxed);
        Tracked { id, heap: Box::new(id), magic: MAGIC, ledger: ledger.clone() }
    }

    pub fn get(&self) -> u64 {
        if self.magic != MAGIC || *self.heap != self.id {
            self.ledger.bad.fetch_add(1, Ordering::Relaxed);
        }
        self.id
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.get();
        self.ledger.clones.fetch_add(1, Ordering::Relaxed);
        point("clone");
        Tracked::new(self.id, &self.ledger)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            self.ledger.bad.fetch_add(1, Ordering::Relaxed);
            return;
        }
        self.magic = 0;
        self.ledger.live.fetch_sub(1, Ordering::Relaxed);
        point("drop");
    }
}

impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.id)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
