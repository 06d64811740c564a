//! Rely and guarantee of one thread of a pipeline. The thread under contract (the subject) owns
//! the slots from its position up to what it has learned, by acquiring, the iterator ahead of it
//! has released; all other slots may be written by other threads at any time.
use crate::kx::*;
use crate::spec::*;
use ::core::sync::atomic::Ordering::{self, *};

pub const P: usize = 0;
pub const W: usize = 1;
pub const C: usize = 2;
/// More atomic accesses than any operation needs, by far.
pub const STEPS: usize = 8;

#[derive(Clone, Copy)]
pub struct Ghost {
    /// Contracts are being checked; otherwise, there is one thread only.
    pub on: bool,
    /// The last location loaded from.
    pub last: *const u8,
    pub idx: [*const u8; 3],
    pub flag: [*const u8; 3],
    pub s: usize, pub ahead: usize, pub n: usize,
    /// Distances from here.
    pub pos: usize,
    /// How far the subject has published; the iterator ahead has been seen; it can have moved;
    /// the subject owns slots; the subject would own slots after an acquire fence.
    pub moved: usize, pub seen: usize, pub max: usize, pub known: usize, pub pend: usize,
    pub looks: usize, pub steps: usize, pub stores: usize,
    /// The iterator ahead is where it can be after so many looks.
    pub patience: usize,
    pub base: *mut u8,
    /// Any slot, and its distance.
    pub j: usize, pub off: usize,
    /// The subject owns it; it has handed it over.
    pub owned: bool, pub given: bool,
    /// What it holds while others own it; when the subject gets it; when it handed it over.
    pub h: u8, pub v: u8, pub out: u8,
    pub fenced: bool, pub snap: u8,
    /// Iterators seen dead; a flag was read without acquiring; a flag was cleared.
    pub dead: [bool; 3], pub unacq: bool,
    /// Instead of all that, other threads run between the accesses.
    pub others: Option<fn()>, pub synced: bool, pub rmws: usize,
    pub cleared: [usize; 3],
}
pub static mut G: Ghost = Ghost {
    on: false, last: ::core::ptr::null(), idx: [::core::ptr::null(); 3], flag: [::core::ptr::null(); 3], s: 0, ahead: 0, n: 1, pos: 0,
    moved: 0, seen: 0, max: 0, known: 0, pend: 0, looks: 0, steps: 0, stores: 0, patience: usize::MAX, base: ::core::ptr::null_mut(), j: 0, off: 0, owned: false, given: false,
    h: 0, v: 0, out: 0, fenced: false, snap: 0, dead: [false; 3], unacq: false, cleared: [0; 3], others: None, synced: false, rmws: 0,
};
pub fn g() -> &'static mut Ghost { unsafe { &mut *(&raw mut G) } }

fn acquires(o: Ordering) -> bool { matches!(o, Acquire | AcqRel | SeqCst) }
fn releases(o: Ordering) -> bool { matches!(o, Release | AcqRel | SeqCst) }

impl Ghost {
    pub fn held(&self) -> u8 { if self.base.is_null() { self.h } else { unsafe { *self.base.add(self.j) } } }
    pub fn put(&self, x: u8) { if !self.base.is_null() { unsafe { *self.base.add(self.j) = x } } }
    /// A slot that is not owned is not written.
    pub fn unowned(&self) {
        if !self.owned {
            let x = self.held();
            ob!(c02 c03, x == self.h, "a slot is not written before it is owned, or after it was handed over");
        }
    }
    /// The subject comes to know that the iterator ahead is done with `k` slots.
    fn know(&mut self, k: usize) {
        if k > self.known { self.known = k }
        if !self.owned && !self.given && self.off < self.known { self.put(self.v); self.owned = true; }
    }
    /// Index of the iterator ahead when it is done with `k` slots.
    pub fn there(&self, k: usize) -> usize { wrap(self.n, self.pos + k + if self.s == P { 1 } else { 0 }) }

    /// `from`: how far the iterator ahead was when the subject last synchronised with it.
    pub fn begin(&mut self, s: usize, ahead: usize, n: usize, pos: usize, from: usize, j: usize, base: *mut u8) {
        self.s = s; self.ahead = ahead; self.n = n; self.pos = pos; self.base = base; self.j = j; self.off = dist(n, pos, j);
        self.max = any_le(n - 1);
        assume(from <= self.max);
        self.seen = from; self.known = from; self.pend = from; self.moved = 0;
        self.looks = 0; self.patience = usize::MAX; self.steps = 0; self.stores = 0; self.fenced = false; self.dead = [false; 3]; self.unacq = false; self.cleared = [0; 3];
        self.given = false; self.owned = self.off < from;
        self.h = any(); self.v = any(); self.out = 0;
        if self.owned { self.v = self.held() } else { self.put(self.h) }
        self.on = true;
        #[cfg(not(kani))]
        unsafe { crate::native::ON_STOP = Some(|| { let g = g(); g.on = false; g.others = None; }); }
    }
}
/// Right after an access, other threads run.
pub fn after() {
    let g = g();
    if let Some(f) = g.others { g.others = None; f(); g.others = Some(f); }
}
fn step() {
    let g = g();
    g.steps += 1;
    ob!(c10, g.steps <= STEPS, "an operation takes a bounded number of steps");
    #[cfg(not(c10))]
    assume(g.steps <= STEPS);
    g.unowned();
}
/// A weak compare-and-exchange may fail at any time.
pub fn fails() -> bool { g().on && any() }

pub fn load(at: *const u8, x: usize, o: Ordering) -> usize {
    let g = g();
    if g.others.is_some() { return x; }
    if !g.on { g.last = at; return x; }
    step();
    if at == g.idx[g.s] || at == g.flag[g.s] { return x; }
    if at == g.idx[g.ahead] {
        let k: usize = any();
        assume(g.seen <= k && k <= g.max);
        assume(g.looks + 1 < g.patience || k == g.max);
        g.seen = k; g.looks += 1;
        if acquires(o) { g.know(k) } else if k > g.pend { g.pend = k }
        return g.there(k);
    }
    let other = 3 - g.s - g.ahead;
    if at == g.idx[other] {
        // The third iterator is between the two, on the far side.
        let k: usize = any();
        assume(g.seen <= k && k <= g.n - 1);
        return wrap(g.n, g.pos + k + if g.s == C { 0 } else { 1 });
    }
    let mut i = 0;
    while i < 3 {
        if at == g.flag[i] {
            if !g.dead[i] && any() { g.dead[i] = true }
            let dead = g.dead[i] || x == 0;
            if dead && !acquires(o) { g.unacq = true }
            return !dead as usize;
        }
        i += 1;
    }
    // Anything else can be changed by the other threads.
    #[cfg(c10)]
    return any();
    x
}
fn publish(x: usize, o: Ordering) {
    let g = g();
    g.stores += 1;
    ob!(c02 c03 c04, x < g.n, "what is published is a position");
    let m = dist(g.n, wrap(g.n, g.pos + g.moved), x);
    ob!(c02 c03 c04 c10, g.moved + m <= g.known, "an iterator publishes no position beyond what it owns");
    let rel = releases(o);
    ob!(c02 c03 c10, m == 0 || rel || g.fenced, "slots are released when they are handed over");
    if g.owned && g.moved <= g.off && g.off < g.moved + m {
        g.out = g.held();
        ob!(c02 c03, rel || !g.fenced || g.out == g.snap, "slots are released when they are handed over");
        g.owned = false; g.given = true;
        g.h = any();
        g.put(g.h);
    }
    g.moved += m;
}
pub fn store(at: *const u8, x: usize, o: Ordering) {
    let g = g();
    if g.others.is_some() {
        let rel = x != 0 || releases(o) || g.fenced;
        ob!(c07, rel, "what was published before is released with the liveness flag");
        return;
    }
    if !g.on { return; }
    step();
    if at == g.idx[g.s] { publish(x, o); return; }
    let mut i = 0;
    while i < 3 {
        ob!(c02 c03 c04 c10, at != g.idx[i] || i == g.s, "an iterator publishes no position but its own");
        if at == g.flag[i] && x == 0 {
            g.cleared[i] += 1;
            let rel = releases(o) || g.fenced;
            ob!(c07, rel, "what was published before is released with the liveness flag");
        }
        i += 1;
    }
}
pub fn rmw_load(at: *const u8, x: usize, o: Ordering) -> usize {
    let g = g();
    if !g.on || g.others.is_some() { g.last = at; return x; }
    let mut i = 0;
    while i < 3 { if at == g.idx[i] || at == g.flag[i] { return load(at, x, o); } i += 1; }
    step();
    #[cfg(c10)]
    return any();
    x
}
pub fn rmw_store(at: *const u8, old: usize, x: usize, o: Ordering) {
    let g0 = g();
    if g0.others.is_some() {
        let rel = releases(o) || g0.fenced;
        ob!(c07, rel, "what was done before is released with the handle");
        g0.synced = acquires(o); g0.rmws += 1;
        return;
    }
    if !g().on { return; }
    if old != x || at == g().idx[g().s] { store(at, x, o) }
}
pub fn fence(o: Ordering) {
    let g = g();
    if g.others.is_some() {
        if acquires(o) && g.rmws > 0 { g.synced = true }
        if releases(o) { g.fenced = true }
        return;
    }
    if !g.on { return; }
    step();
    if acquires(o) { let k = g.pend; g.know(k); g.unacq = false; }
    if releases(o) { g.fenced = true; g.snap = g.held(); }
}
