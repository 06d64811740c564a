//! Contracts of the futures of asynchronous iterators: `poll` is one attempt of the synchronous
//! operation; Pending leaves everything as it was, and has the task polled again.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use crate::kx::*;
use crate::spec::*;
use crate::world::*;
use crate::ops::*;
use crate::Item;

/// How often each of two wakers has been woken.
pub static mut WOKEN: [usize; 2] = [0; 2];
unsafe fn vt_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &VT) }
unsafe fn vt_wake(p: *const ()) { WOKEN[p as usize - 1] += 1; }
unsafe fn vt_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);
pub fn waker(i: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new((i + 1) as *const (), &VT)) } }
pub fn woken(i: usize) -> usize { unsafe { (&raw const WOKEN[i]).read() } }

/// The iterator ahead moves on, to an arbitrary position.
pub fn ahead_moves<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In, s: Subj) -> In {
    let n = v.n;
    let to = any_lt(n);
    let r = match s {
        Subj::P => In { c: to, ..*v },
        Subj::W => In { p: to, ..*v },
        Subj::C => if W { In { w: to, ..*v } } else { In { w: to, p: to, ..*v } },
    };
    // No further than the one ahead of it, and not backwards.
    assume(r.avail(s) >= v.avail(s) && match s {
        Subj::P => dist(n, v.c, to) <= dist(n, v.c, v.w),
        Subj::W => dist(n, v.p, to) <= room(n, v.p, v.c),
        Subj::C => if W { dist(n, v.w, to) <= dist(n, v.w, v.p) } else { true },
    });
    w.reach_new(&r, s);
    r
}

macro_rules! back {
    ($w:ident, $it:ident, P) => { core::ptr::write(&mut $w.p, $it.into_sync()) };
    ($w:ident, $it:ident, C) => { core::ptr::write(&mut $w.c, $it.into_sync()) };
    ($w:ident, $it:ident, W) => { core::ptr::write($w.w.as_mut().unwrap(), $it.into_sync()) };
}
macro_rules! asy_ops {
    ($($(#[$doc:meta])* fn $f:ident($w:ident, $it:ident, $q:ident, $v:ident: $s:ident) $(let $n:pat_param = $e:expr;)* future $fut:expr, wants $need:expr, ready($r:ident) $b:block refused $z:block)*) => { $(
        pub mod $f {
            use super::*;
            pub const S: Subj = Subj::$s;
            /// `POLLS` polls, all but the last of them pending.
            pub fn body<B: MutRB<Item = T>, T: Item, const W: bool, const POLLS: usize>($w: &mut World<B, T, W>, $v: &In) {
                let mut $q = pre($w, $v, S);
                $(let $n = $e;)*
                let mut $it = core::mem::ManuallyDrop::new(asy!($w, $s));
                let need: usize = $need;
                let mut ready = None;
                let mut vv = *$v;
                {
                    let mut fut = $fut;
                    let mut k = 0;
                    while k < POLLS {
                        if k > 0 {
                            assume(need == 0 || need > vv.avail(S));
                            vv = ahead_moves($w, &vv, S);
                        }
                        let a = vv.avail(S);
                        let who: bool = any();
                        let who = who as usize;
                        let before = woken(who);
                        let wk = waker(who);
                        let res = Pin::new(&mut fut).poll(&mut Context::from_waker(&wk));
                        match res {
                            Poll::Ready(x) => {
                                ob!(c14 c05, need <= a, "a future is ready only if the operation is possible");
                                ob!(c14, x.is_some(), "a future resolves with the result of the operation");
                                ready = x;
                                k = POLLS;
                            }
                            Poll::Pending => {
                                ob!(c14, need == 0 || need > a, "a future polled when its operation is possible completes");
                                let is = woken(who) > before;
                                #[cfg(c15)]
                                if !is {
                                    // Then whoever makes it possible has to wake the task.
                                    let v2 = ahead_moves($w, &vv, S);
                                    ob!(c15, need > v2.avail(S) || woken(who) > before, "the task that got Pending last is woken once the operation is possible");
                                }
                                let (pi, wi, ci) = ($w.p.prod_index(), $w.p.work_index(), $w.p.cons_index());
                                ob!(c14, pi == vv.p && ci == vv.c && (!W || wi == vv.w), "Pending leaves the indices alone");
                                let sj = $w.slot($v.j);
                                ob!(c14, sj == $q.old_j, "Pending leaves the slots alone");
                                k += 1;
                            }
                        }
                        core::mem::forget(wk);
                    }
                    #[cfg(c15)]
                    core::mem::forget(fut);
                }
                #[cfg(not(c15))]
                {
                $q.v = vv; $q.a = vv.avail(S);
                let ok = ready.is_some();
                granted!(ok, need, $q.a);
                let (moved, new_j) = match ready { Some($r) => $b, None => { $z; (0, $q.old_j) } };
                let $it = core::mem::ManuallyDrop::into_inner($it);
                unsafe { back!($w, $it, $s) }
                post($w, &$q, moved, new_j);
                }
            }
            pub fn once<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) { body::<B, T, W, 1>(w, v) }
            pub fn again<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) { body::<B, T, W, 3>(w, v) }
            /// One poll.
            pub mod one { use super::*; variants!(once, S); }
            pub fn twice<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) { body::<B, T, W, 2>(w, v) }
            /// Two polls; the iterator ahead moves in between.
            pub mod two { use super::*; variants!(twice, S); }
            /// Three polls; the iterator ahead moves in between.
            pub mod three { use super::*; variants!(again, S); }
        }
    )* };
}
macro_rules! common_asy {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        asy_ops! {
            fn get_workable(w, it, q, v: $s) future it.get_workable(), wants 1,
                ready(r) { let at: *mut T = r; ob!(c14, at == unsafe { w.base.add(q.idx) }, "the reference is to the slot at the index"); (0, q.old_j) } refused {}
            fn exact(w, it, q, v: $s) future it.get_workable_slice_exact(v.cnt), wants v.cnt,
                ready(r) { let (at, _, t) = geom(ro!(r), 0); ob!(c14, t == v.cnt && (t == 0 || at == unsafe { w.base.add(q.idx) } as *const _), "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
            fn avail(w, it, q, v: $s) future it.get_workable_slice_avail(), wants 1,
                ready(r) { let (at, _, t) = geom(ro!(r), 0); ob!(c14, t == q.a && at == unsafe { w.base.add(q.idx) } as *const _, "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
            fn multiple(w, it, q, v: $s) let by = if v.x & 1 == 0 { 2 } else { 1 }; future it.get_workable_slice_multiple_of(by), wants by,
                ready(r) { let k = if by == 2 { q.a & !1 } else { q.a }; let (at, _, t) = geom(ro!(r), 0); ob!(c14, t == k && at == unsafe { w.base.add(q.idx) } as *const _, "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
        }
        /// Synchronous methods of the asynchronous iterator.
        pub mod plain {
            use super::*;
            pub const S: Subj = Subj::$s;
            pub fn body<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) {
                let q = pre(w, v, S);
                let mut it = asy!(w, $s);
                if v.x & 1 == 0 { let a = it.available(); ob!(c14, a == q.a, "available() is that of the synchronous iterator"); }
                ob!(c14, it.index() == v.pos(S) && it.prod_index() == v.p && (!W || it.work_index() == v.w) && it.cons_index() == v.c, "indices are those of the synchronous iterator");
                ob!(c14, it.is_prod_alive() && it.is_work_alive() == W && it.is_cons_alive(), "liveness is that of the synchronous iterator");
                let k = if v.x & 2 == 0 { assume(v.cnt <= q.a); unsafe { it.advance(v.cnt) }; v.cnt } else { reset_or!(it, $s, q.a) };
                unsafe { back!(w, it, $s) }
                post(w, &q, k, q.old_j);
            }
            variants!(body, S);
        }
    } )* };
}
macro_rules! reset_or {
    ($it:ident, P, $a:expr) => { 0 };
    ($it:ident, $s:ident, $a:expr) => {{ $it.reset_index(); $a }};
}
common_asy! { prod: P  work: W  cons: C }
asy_ops! {
    fn push(w, it, q, v: P) let x = T::nth(v.x as usize); future it.push(x), wants 1,
        ready(_r) { (1, if v.j == q.idx { x } else { q.old_j }) } refused {}
    fn push_slice(w, it, q, v: P) let src = raw_vec::<T>(v.cnt); future it.push_slice(&src), wants v.cnt,
        ready(_r) { let new = if within(v.n, q.idx, v.cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j }; core::mem::forget(src); (v.cnt, new) } refused { core::mem::forget(src) }
    fn push_slice_clone(w, it, q, v: P) let src = raw_vec::<T>(v.cnt); future it.push_slice_clone(&src), wants v.cnt,
        ready(_r) { let new = if within(v.n, q.idx, v.cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j }; core::mem::forget(src); (v.cnt, new) } refused { core::mem::forget(src) }
    fn get_next_item_mut(w, it, q, v: P) future unsafe { it.get_next_item_mut() }, wants 1,
        ready(r) { let at: *mut T = r; ob!(c14, at == unsafe { w.base.add(q.idx) }, "the reference is to the slot at the index"); (0, q.old_j) } refused {}
    fn get_next_item_mut_init(w, it, q, v: P) future it.get_next_item_mut_init(), wants 1,
        ready(r) { ob!(c14, r == unsafe { w.base.add(q.idx) }, "the pointer is to the slot at the index"); (0, q.old_j) } refused {}
    fn get_next_slices_mut(w, it, q, v: P) future unsafe { it.get_next_slices_mut(v.cnt) }, wants v.cnt,
        ready(r) { let (at, _, t) = geom(ro!(r), 0); ob!(c14, t == v.cnt && (t == 0 || at == unsafe { w.base.add(q.idx) } as *const _), "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
    fn pop(w, it, q, v: C) let old = w.slot(q.idx); future it.pop(), wants 1,
        ready(r) { ob!(c14, r == old, "the item popped is the one in the slot at the index"); (1, q.old_j) } refused {}
    fn pop_move(w, it, q, v: C) let old = w.slot(q.idx); future unsafe { it.pop_move() }, wants 1,
        ready(r) { ob!(c14, r == old, "the item popped is the one in the slot at the index"); (1, if v.j == q.idx { unsafe { core::mem::zeroed() } } else { q.old_j }) } refused {}
    fn peek_ref(w, it, q, v: C) future it.peek_ref(), wants 1,
        ready(r) { let at: *const T = r; ob!(c14, at == unsafe { w.base.add(q.idx) } as *const T, "the reference is to the slot at the index"); (0, q.old_j) } refused {}
    fn peek_slice(w, it, q, v: C) future it.peek_slice(v.cnt), wants v.cnt,
        ready(r) { let (at, _, t) = geom(r, 0); ob!(c14, t == v.cnt && (t == 0 || at == unsafe { w.base.add(q.idx) } as *const _), "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
    fn peek_available(w, it, q, v: C) future it.peek_available(), wants 0,
        ready(r) { let (at, _, t) = geom(r, 0); ob!(c14, t == q.a && (t == 0 || at == unsafe { w.base.add(q.idx) } as *const _), "the window is that of the synchronous operation"); (0, q.old_j) } refused {}
    fn copy_item(w, it, q, v: C) let old = w.slot(q.idx); let d0 = T::nth(v.x as usize); let mut d = d0; future it.copy_item(&mut d), wants 1,
        ready(_r) { ob!(c14, d == old, "the item copied is the one in the slot at the index"); (1, q.old_j) } refused { ob!(c14, d == d0, "Pending leaves the destination alone") }
    fn clone_item(w, it, q, v: C) let old = w.slot(q.idx); let d0 = T::nth(v.x as usize); let mut d = d0; future it.clone_item(&mut d), wants 1,
        ready(_r) { ob!(c14, d == old, "the item copied is the one in the slot at the index"); (1, q.old_j) } refused { ob!(c14, d == d0, "Pending leaves the destination alone") }
    fn copy_slice(w, it, q, v: C) let mut dst = raw_vec::<T>(v.cnt); let d0 = if v.i < v.cnt { dst[v.i] } else { T::nth(0) }; let old = if v.i < v.n { w.slot(wrap(v.n, q.idx + v.i)) } else { T::nth(0) };
        future it.copy_slice(&mut dst), wants v.cnt,
        ready(_r) { if v.i < v.cnt { ob!(c14, dst[v.i] == old, "item i copied is the one i slots after the index"); } core::mem::forget(dst); (v.cnt, q.old_j) }
        refused { if v.i < v.cnt { ob!(c14, dst[v.i] == d0, "Pending leaves the destination alone"); } core::mem::forget(dst); }
    fn clone_slice(w, it, q, v: C) let mut dst = raw_vec::<T>(v.cnt); let d0 = if v.i < v.cnt { dst[v.i] } else { T::nth(0) }; let old = if v.i < v.n { w.slot(wrap(v.n, q.idx + v.i)) } else { T::nth(0) };
        future it.clone_slice(&mut dst), wants v.cnt,
        ready(_r) { if v.i < v.cnt { ob!(c14, dst[v.i] == old, "item i copied is the one i slots after the index"); } core::mem::forget(dst); (v.cnt, q.old_j) }
        refused { if v.i < v.cnt { ob!(c14, dst[v.i] == d0, "Pending leaves the destination alone"); } core::mem::forget(dst); }
    /// Slices of a fixed length.
    fn push_slice_2(w, it, q, v: P) let src = raw_array::<T, 2>(); future it.push_slice(&src), wants 2,
        ready(_r) { (2, if within(v.n, q.idx, 2, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j }) } refused {}
    fn push_slice_clone_2(w, it, q, v: P) let src = raw_array::<T, 2>(); future it.push_slice_clone(&src), wants 2,
        ready(_r) { (2, if within(v.n, q.idx, 2, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j }) } refused {}
    fn copy_slice_2(w, it, q, v: C) let mut dst = raw_array::<T, 2>(); let d0 = dst; let old = w.slot(wrap(v.n, q.idx + (v.i & 1))); future it.copy_slice(&mut dst), wants 2,
        ready(_r) { ob!(c14, dst[v.i & 1] == old, "item i copied is the one i slots after the index"); (2, q.old_j) } refused { ob!(c14, dst == d0, "Pending leaves the destination alone"); }
    fn clone_slice_2(w, it, q, v: C) let mut dst = raw_array::<T, 2>(); let d0 = dst; let old = w.slot(wrap(v.n, q.idx + (v.i & 1))); future it.clone_slice(&mut dst), wants 2,
        ready(_r) { ob!(c14, dst[v.i & 1] == old, "item i copied is the one i slots after the index"); (2, q.old_j) } refused { ob!(c14, dst == d0, "Pending leaves the destination alone"); }
}
