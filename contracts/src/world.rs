//! Arbitrary well-formed states of real buffers, reached through the public API only.
use mutringbuf::*;
use mutringbuf::iterators::*;
use crate::kx::*;
use crate::spec::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Subj { P, W, C }

/// Everything that is chosen arbitrarily in a harness.
#[derive(Clone, Copy)]
pub struct In {
    pub n: usize,
    /// Published positions.
    pub c: usize, pub w: usize, pub p: usize,
    /// The subject remembers what was available when the iterator ahead was at `old` (`look`),
    /// or nothing.
    pub look: bool, pub old: usize,
    /// Probed slot: stands for all of them.
    pub j: usize,
    /// Requested slots; probed offset in the window; request made afterwards.
    pub cnt: usize, pub i: usize, pub m: usize,
    /// Local position of a detached subject relative to its published one.
    pub loc: usize,
    pub x: u8,
}
impl In {
    pub fn any(s: Subj, stages: usize, n: usize) -> In {
        let v = In { n, c: any_lt(n), w: any_lt(n), p: any_lt(n), look: any(), old: any_lt(n), j: any_lt(n),
            cnt: any_le(n + 1), i: any_le(n), m: any_le(n + 1), loc: any_lt(n), x: any() };
        if stages == 2 { assume(v.w == v.p) } else { assume(dist(n, v.c, v.w) <= dist(n, v.c, v.p)) }
        assume(match s {
            Subj::P => room(n, v.p, v.old) <= room(n, v.p, v.c),
            Subj::W => dist(n, v.w, v.old) <= dist(n, v.w, v.p),
            Subj::C => dist(n, v.c, v.old) <= dist(n, v.c, v.w),
        });
        v
    }
    pub fn pos(&self, s: Subj) -> usize { match s { Subj::P => self.p, Subj::W => self.w, Subj::C => self.c } }
    pub fn avail(&self, s: Subj) -> usize {
        match s {
            Subj::P => room(self.n, self.p, self.c),
            Subj::W => dist(self.n, self.w, self.p),
            Subj::C => dist(self.n, self.c, self.w),
        }
    }
}
pub fn any_len() -> usize { let n = any_le(MAX_LEN); assume(n >= 1); n }

/// A vector of `n` arbitrary items.
#[cfg(kani)]
pub fn raw_vec<T: crate::Item>(n: usize) -> Vec<T> {
    if n == 0 { return Vec::new(); }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::array::<T>(n).unwrap()) as *mut T;
        assume(!p.is_null());
        Vec::from_raw_parts(p, n, n)
    }
}
#[cfg(not(kani))]
pub fn raw_vec<T: crate::Item>(n: usize) -> Vec<T> { assume(n <= 1 << 20); (0..n).map(|i| T::nth(i)).collect() }
#[cfg(kani)]
pub fn raw_array<T: crate::Item, const N: usize>() -> [T; N] { any() }
#[cfg(not(kani))]
pub fn raw_array<T: crate::Item, const N: usize>() -> [T; N] { core::array::from_fn(|i| T::nth(i)) }

/// Moves an iterator, by a jump its contract allows, and publishes the position.
pub unsafe fn put<I: MRBIterator>(it: &mut I, to: usize) {
    let mut d = core::ptr::read(it).detach();
    d.set_index(to);
    core::ptr::write(it, d.attach());
}

pub struct World<'b, B: MutRB<Item = T>, T, const W: bool> {
    pub p: ProdIter<'b, B>,
    pub w: Option<WorkIter<'b, B>>,
    pub c: ConsIter<'b, B, W>,
    /// First slot; null when nothing can ever be accessed (length 1).
    pub base: *mut T,
}
impl<'b, B: MutRB<Item = T>, T: crate::Item> World<'b, B, T, true> {
    pub fn new3((p, w, c): (ProdIter<'b, B>, WorkIter<'b, B>, ConsIter<'b, B, true>)) -> Self {
        World { p, w: Some(w), c, base: core::ptr::null_mut() }
    }
}
impl<'b, B: MutRB<Item = T>, T: crate::Item> World<'b, B, T, false> {
    pub fn new2((p, c): (ProdIter<'b, B>, ConsIter<'b, B, false>)) -> Self {
        World { p, w: None, c, base: core::ptr::null_mut() }
    }
}
impl<'b, B: MutRB<Item = T>, T: crate::Item, const W: bool> World<'b, B, T, W> {
    pub fn put(&mut self, s: Subj, to: usize) {
        unsafe {
            match s {
                Subj::P => put(&mut self.p, to),
                Subj::W => if let Some(w) = &mut self.w { put(w, to) },
                Subj::C => put(&mut self.c, to),
            }
        }
    }
    pub fn available(&mut self, s: Subj) -> usize {
        match s {
            Subj::P => self.p.available(),
            Subj::W => match &mut self.w { Some(w) => w.available(), None => 0 },
            Subj::C => self.c.available(),
        }
    }
    /// Brings the buffer to the state `v` describes: all the stages reach the oldest position
    /// involved, then each its own, the subject looks, and the iterator ahead of it moves on.
    pub fn reach(&mut self, v: &In, s: Subj) {
        self.reach_old(v, s);
        if v.look { self.available(s); }
        self.reach_new(v, s);
    }
    pub fn reach_old(&mut self, v: &In, s: Subj) {
        self.base = match self.p.get_next_item_mut_init() { Some(p) => p, None => core::ptr::null_mut() };
        let (mut c, mut w, mut p) = (v.c, v.w, v.p);
        match s {
            Subj::P => c = v.old,
            Subj::W => p = v.old,
            Subj::C => { w = v.old; if !W { p = w } }
        }
        self.put(Subj::P, c); self.put(Subj::W, c); self.put(Subj::C, c);
        self.put(Subj::P, p); self.put(Subj::W, w);
    }
    pub fn reach_new(&mut self, v: &In, s: Subj) {
        match s {
            Subj::P => self.put(Subj::C, v.c),
            Subj::W => self.put(Subj::P, v.p),
            Subj::C => if W { self.put(Subj::W, v.w) } else { self.put(Subj::P, v.p) },
        }
    }
    pub fn slot(&self, j: usize) -> T {
        if self.base.is_null() { T::nth(0) } else { unsafe { core::ptr::read(self.base.add(j)) } }
    }
    pub fn index(&self, s: Subj) -> usize {
        match s {
            Subj::P => self.p.index(),
            Subj::W => match &self.w { Some(w) => w.index(), None => 0 },
            Subj::C => self.c.index(),
        }
    }
    pub fn done(self) { reached!("end"); core::mem::forget(self) }
}
