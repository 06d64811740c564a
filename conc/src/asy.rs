//! Asynchronous operations: one poll, which is a bounded number of attempts.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use core::future::Future;
use core::mem::ManuallyDrop;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use crate::ghost::{self, g};
use crate::kx::*;
use crate::spec::*;
use crate::step::*;
use crate::world::*;

unsafe fn vt_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &VT) }
unsafe fn vt_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_nop, vt_nop, vt_nop);

macro_rules! asy {
    ($w:ident, P) => { AsyncProdIter::from_sync(core::ptr::read(&$w.p)) };
    ($w:ident, W) => { AsyncWorkIter::from_sync(core::ptr::read($w.w.as_ref().unwrap())) };
    ($w:ident, C) => { AsyncConsIter::from_sync(core::ptr::read(&$w.c)) };
}
macro_rules! back {
    ($w:ident, $it:ident, P) => { core::ptr::write(&mut $w.p, $it.into_sync()) };
    ($w:ident, $it:ident, C) => { core::ptr::write(&mut $w.c, $it.into_sync()) };
    ($w:ident, $it:ident, W) => { core::ptr::write($w.w.as_mut().unwrap(), $it.into_sync()) };
}
/// Polls once; `need` slots are asked for.
macro_rules! poll {
    ($w:ident, $s:ident, |$it:ident| $fut:expr, $need:expr) => {{
        let mut it = ManuallyDrop::new(unsafe { asy!($w, $s) });
        let r = {
            let $it = &mut *it;
            let mut fut = ManuallyDrop::new($fut);
            let wk = ManuallyDrop::new(unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) });
            match Pin::new(&mut *fut).poll(&mut Context::from_waker(&wk)) { Poll::Ready(x) => x, Poll::Pending => None }
        };
        let it = ManuallyDrop::into_inner(it);
        unsafe { back!($w, it, $s) }
        decided(r.is_some(), $need);
        r
    }};
}
macro_rules! ro { ($s:expr) => {{ let (h, t) = $s; (&*h, &*t) }} }
macro_rules! common {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        conc! {
            fn get_workable(w, q, v: $s) {
                if let Some(r) = poll!(w, $s, |it| it.get_workable(), 1) { at(&q, 0, 1, r); }
                finish(w, &q, 0)
            }
            fn exact(w, q, v: $s) {
                if let Some(r) = poll!(w, $s, |it| it.get_workable_slice_exact(v.cnt), v.cnt) { let (a, t) = nth(ro!(r), v.i); at(&q, v.i, t, a); }
                finish(w, &q, 0)
            }
            fn avail(w, q, v: $s) {
                if let Some(r) = poll!(w, $s, |it| it.get_workable_slice_avail(), 1) {
                    let (a, t) = nth(ro!(r), v.i);
                    ob!(c02 c03, t <= g().known, "a window covers no more than what is owned");
                    at(&q, v.i, t, a);
                }
                finish(w, &q, 0)
            }
        }
    } )* };
}
common! { prod: P  work: W  cons: C }
conc! {
    fn push(w, q, v: P) {
        let r = poll!(w, P, |it| it.push(v.x), 1);
        if r.is_some() && v.j == q.idx { ob!(c02 c03, g().given && g().out == v.x, "what was pushed is what is handed over"); }
        finish(w, &q, r.is_some() as usize)
    }
    fn push_slice_2(w, q, v: P) {
        let src = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let x = if o < 2 { src[o] } else { 0 };
        let r = poll!(w, P, |it| it.push_slice(&src), 2).is_some();
        if r && o < 2 { ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
    fn pop(w, q, v: C) {
        let r = poll!(w, C, |it| it.pop(), 1);
        if let Some(x) = r { if v.j == q.idx { ob!(c02 c03, x == g().v, "what is read is what the iterator ahead released"); } }
        finish(w, &q, r.is_some() as usize)
    }
    fn copy_slice_2(w, q, v: C) {
        let mut dst = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let r = poll!(w, C, |it| it.copy_slice(&mut dst), 2).is_some();
        if r && o < 2 { let x = dst[o]; ob!(c02 c03, x == g().v, "what is read is what the iterator ahead released"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
}
