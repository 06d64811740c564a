//! An iterator is dropped while other threads drop theirs.
use mutringbuf::*;
use mutringbuf::iterators::*;
use crate::ghost::{self, g};
use crate::kx::*;

static mut DEAD: u8 = 0;
/// The subject is being dropped, by its own thread.
static mut MINE: bool = false;
pub struct Seen(u8);
impl Drop for Seen {
    fn drop(&mut self) {
        unsafe { DEAD += 1; }
        let ok = unsafe { !MINE } || g().others.is_none() || g().synced;
        ob!(c07, ok, "who releases the buffer has synchronised with all that were done with it");
    }
}
fn dead() -> u8 { unsafe { (&raw const DEAD).read() } }

macro_rules! race {
    ($m:ident, $u:literal, $T:ty, $make:expr, $rel:expr) => { pub mod $m {
        use super::*;
        static mut P: Option<ProdIter<'static, $T>> = None;
        static mut W: Option<WorkIter<'static, $T>> = None;
        static mut C3: Option<ConsIter<'static, $T, true>> = None;
        static mut C2: Option<ConsIter<'static, $T, false>> = None;
        /// Each of the others may be dropped now.
        fn others() {
            unsafe {
                if any() { drop((*(&raw mut P)).take()); }
                if any() { drop((*(&raw mut W)).take()); }
                if any() { drop((*(&raw mut C3)).take()); drop((*(&raw mut C2)).take()); }
            }
        }
        fn begin() {
            unsafe { DEAD = 0; MINE = true; }
            let g = g();
            g.on = false; g.fenced = false; g.synced = false; g.rmws = 0;
            others();
            g.others = Some(others_outside);
        }
        fn others_outside() { unsafe { MINE = false; } others(); unsafe { MINE = true; } }
        fn end() {
            g().others = None;
            unsafe {
                MINE = false;
                drop((*(&raw mut P)).take()); drop((*(&raw mut W)).take()); drop((*(&raw mut C3)).take()); drop((*(&raw mut C2)).take());
            }
            let d = dead();
            ob!(c07, d == $rel, "a heap buffer is released exactly once, however the drops interleave; a stack buffer never is");
            reached!("end");
        }
        macro_rules! three { ($f:ident, |$p:ident, $w:ident, $c:ident| $rest:expr, $subj:expr) => {
            #[cfg_attr(kani, kani::proof, kani::unwind($u))]
            pub fn $f() {
                let ($p, $w, $c) = $make.split_mut();
                unsafe { $rest }
                begin();
                $subj;
                end();
            } } }
        three!(p3, |p, w, c| { W = Some(w); C3 = Some(c); }, drop(p));
        three!(w3, |p, w, c| { P = Some(p); C3 = Some(c); }, drop(w));
        three!(c3, |p, w, c| { P = Some(p); W = Some(w); }, drop(c));
        three!(d3, |p, w, c| { P = Some(p); C3 = Some(c); }, drop(w.detach()));
        #[cfg_attr(kani, kani::proof, kani::unwind($u))]
        pub fn p2() { let (p, c) = $make.split(); unsafe { C2 = Some(c); } begin(); drop(p); end(); }
        #[cfg_attr(kani, kani::proof, kani::unwind($u))]
        pub fn c2() { let (p, c) = $make.split(); unsafe { P = Some(p); } begin(); drop(c); end(); }
    } };
}
fn leaked<B>(b: B) -> &'static mut B { Box::leak(Box::new(b)) }
race!(heap, 3, ConcurrentHeapRB<Seen>, ConcurrentHeapRB::from(vec![Seen(1)]), 1);
race!(stack, 6, ConcurrentStackRB<Seen, 2>, leaked(ConcurrentStackRB::from([Seen(1), Seen(2)])), 0);
