//! Ownership contracts of item-wise operations, for buffers of every length: what each of them
//! destroys, stores and hands out. Slots hold arbitrary bytes; all zero means empty.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use crate::asy;
use crate::kx::*;
use crate::spec::*;
use crate::world::*;

/// A value; live ones are not all zero, but parts of them may be.
#[repr(C)]
pub struct Val { a: u8, b: u16 }
pub static mut DROPS: usize = 0;
pub static mut CLONES: usize = 0;
/// The last two values destroyed.
pub static mut LAST: [(u8, u16); 2] = [(0, 0); 2];
impl Val {
    fn any() -> Val { let v = core::mem::ManuallyDrop::new(Val { a: any(), b: any() }); assume(v.rep() != (0, 0)); core::mem::ManuallyDrop::into_inner(v) }
    fn rep(&self) -> (u8, u16) { (self.a, self.b) }
}
impl Drop for Val { fn drop(&mut self) { unsafe { DROPS += 1; LAST = [self.rep(), (&raw const LAST).read()[0]]; } } }
impl Clone for Val { fn clone(&self) -> Val { unsafe { CLONES += 1; } Val { a: self.a, b: self.b } } }
pub fn drops() -> usize { unsafe { (&raw const DROPS).read() } }
pub fn clones() -> usize { unsafe { (&raw const CLONES).read() } }
pub fn last() -> [(u8, u16); 2] { unsafe { (&raw const LAST).read() } }

#[cfg(kani)]
fn raw(n: usize) -> Vec<Val> {
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::array::<Val>(n).unwrap()) as *mut Val;
        assume(!p.is_null());
        Vec::from_raw_parts(p, n, n)
    }
}
#[cfg(not(kani))]
fn raw(n: usize) -> Vec<Val> {
    assume(n <= 1 << 20);
    unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::array::<Val>(n).unwrap()) as *mut Val;
        for i in 0..n { (*p.add(i)).a = (i % 3) as u8; (*p.add(i)).b = (i % 2) as u16 * 256; }
        Vec::from_raw_parts(p, n, n)
    }
}

pub struct Sym<'b, B: MutRB<Item = Val>> {
    pub p: ProdIter<'b, B>, pub w: WorkIter<'b, B>, pub c: ConsIter<'b, B, true>,
    pub base: *mut Val, pub v: In,
    /// What the slot of the subject and the probed slot hold.
    pub i: usize, pub at_i: (u8, u16), pub at_j: (u8, u16),
}
impl<'b, B: MutRB<Item = Val>> Sym<'b, B> {
    fn any(n: usize, s: Subj, (mut p, mut w, mut c): (ProdIter<'b, B>, WorkIter<'b, B>, ConsIter<'b, B, true>)) -> Self {
        unsafe { DROPS = 0; CLONES = 0; }
        let v = In::any(s, 3, n);
        let base = p.get_next_item_mut_init().unwrap();
        unsafe {
            put(&mut p, v.p); put(&mut w, v.w); put(&mut c, v.c);
            let i = v.pos(s);
            // Slots with items in them are not empty.
            let (at_i, at_j) = ((*base.add(i)).rep(), (*base.add(v.j)).rep());
            assume(at_i != (0, 0) || !within(n, v.c, dist(n, v.c, v.p), i));
            assume(at_j != (0, 0) || !within(n, v.c, dist(n, v.c, v.p), v.j));
            // An empty slot is zero in its padding, too.
            assume(at_i != (0, 0) || (base.add(i) as *const [u8; 4]).read() == [0; 4]);
            Sym { p, w, c, base, v, i, at_i, at_j }
        }
    }
    /// `now`: what the slot of the subject holds. `gone`: what was destroyed.
    fn post(self, now: (u8, u16), gone: Option<(u8, u16)>) {
        let (x, y) = unsafe { ((*self.base.add(self.i)).rep(), (*self.base.add(self.v.j)).rep()) };
        ob!(c08 c09, x == now, "the slot holds the value stored into it, or what it held");
        ob!(c08 c09, y == self.at_j || self.v.j == self.i, "no other slot changes");
        let d = drops();
        ob!(c08 c09, d == gone.is_some() as usize, "what is replaced is destroyed exactly once, and nothing else is");
        ob!(c08 c09, gone.is_none() || last()[0] == gone.unwrap(), "it is the value replaced that is destroyed");
        ob!(c08 c09, gone.is_none() || last()[0] != (0, 0), "an empty slot is not taken for a value");
        reached!("end");
        core::mem::forget(self)
    }
}
fn len() -> usize { let n = any_len(); assume(n > 1); n }
macro_rules! sym_ops {
    ($($(#[$doc:meta])* fn $f:ident($o:ident: $s:ident) $b:block)*) => { $(
        pub mod $f {
            use super::*;
            pub fn body<B: MutRB<Item = Val>>(mut $o: Sym<B>) $b
            $(#[$doc])*
            #[cfg_attr(kani, kani::proof, kani::unwind(6))]
            pub fn conc() { let n = len(); body(Sym::any(n, Subj::$s, ConcurrentHeapRB::from(raw(n)).split_mut())) }
            $(#[$doc])*
            #[cfg_attr(kani, kani::proof, kani::unwind(6))]
            pub fn local() { let n = len(); body(Sym::any(n, Subj::$s, LocalHeapRB::from(raw(n)).split_mut())) }
        }
    )* };
}
sym_ops! {
    fn push(o: P) {
        // Documented: not upon empty slots.
        assume(o.at_i != (0, 0));
        let t = Val::any();
        let id = t.rep();
        match o.p.push(t) {
            Ok(()) => { let g = o.at_i; o.post(id, Some(g)) }
            Err(t) => { ob!(c08, t.rep() == id, "a refused push hands the value back"); core::mem::forget(t); let g = o.at_i; o.post(g, None) }
        }
    }
    fn push_init(o: P) {
        let t = Val::any();
        let id = t.rep();
        match o.p.push_init(t) {
            Ok(()) => { let g = o.at_i; o.post(id, if g == (0, 0) { None } else { Some(g) }) }
            Err(t) => { ob!(c08, t.rep() == id, "a refused push hands the value back"); core::mem::forget(t); let g = o.at_i; o.post(g, None) }
        }
    }
    fn pop(o: C) {
        // The caller sees to it that the duplicate is not destroyed.
        if let Some(t) = o.c.pop() { ob!(c08 c09, t.rep() == o.at_i && t.rep() != (0, 0), "what is popped is the value in the slot"); core::mem::forget(t) }
        let g = o.at_i;
        o.post(g, None)
    }
    fn pop_move(o: C) {
        let mut g = o.at_i;
        if let Some(t) = unsafe { o.c.pop_move() } { ob!(c08 c09, t.rep() == g && g != (0, 0), "what is popped is the value in the slot"); core::mem::forget(t); g = (0, 0); }
        let z = unsafe { UnsafeSyncCell::check_zeroed(o.base.add(o.i)) };
        ob!(c08 c09, z == (g == (0, 0)), "a slot vacated by pop_move is recognised as empty");
        o.post(g, None)
    }
    fn clone_item(o: C) {
        let mut d = Val::any();
        let (id, g) = (d.rep(), o.at_i);
        let ok = o.c.clone_item(&mut d).is_some();
        ob!(c08 c09, d.rep() == if ok { g } else { id } && (!ok || g != (0, 0)), "the destination holds a clone, or what it held");
        ob!(c08, clones() == ok as usize, "one clone is made");
        core::mem::forget(d);
        o.post(g, if ok { Some(id) } else { None })
    }
    fn looks_p(o: P) {
        let cnt = o.v.cnt;
        match any::<u8>() {
            0 => { o.p.get_next_item_mut_init(); }
            1 => { o.p.get_workable_slice_exact(cnt); }
            2 => { unsafe { o.p.get_next_slices_mut(cnt); } }
            3 => { o.p.get_workable_slice_avail(); }
            4 => { unsafe { o.p.get_next_item_mut(); } }
            5 => { assume(cnt <= o.v.avail(Subj::P)); unsafe { o.p.advance(cnt) } }
            _ => { o.p.available(); }
        }
        let g = o.at_i;
        o.post(g, None)
    }
    fn looks_w(o: W) {
        let cnt = o.v.cnt;
        match any::<u8>() {
            0 => { o.w.get_workable(); }
            1 => { o.w.get_workable_slice_exact(cnt); }
            2 => { o.w.get_workable_slice_avail(); }
            3 => { o.w.reset_index(); }
            4 => { assume(cnt <= o.v.avail(Subj::W)); unsafe { o.w.advance(cnt) } }
            _ => { o.w.available(); }
        }
        let g = o.at_i;
        o.post(g, None)
    }
    fn looks_c(o: C) {
        let cnt = o.v.cnt;
        match any::<u8>() {
            0 => { o.c.peek_ref(); }
            1 => { o.c.peek_slice(cnt); }
            2 => { o.c.peek_available(); }
            3 => { o.c.reset_index(); }
            4 => { assume(cnt <= o.v.avail(Subj::C)); unsafe { o.c.advance(cnt) } }
            5 => { o.c.get_workable(); }
            _ => { o.c.available(); }
        }
        let g = o.at_i;
        o.post(g, None)
    }
    /// A pending push keeps its value until it stores it, or is dropped with it.
    fn push_future(o: P) {
        assume(o.at_i != (0, 0));
        let t = Val::any();
        let id = t.rep();
        let full = o.v.avail(Subj::P) == 0;
        let mut it = core::mem::ManuallyDrop::new(AsyncProdIter::from_sync(unsafe { core::ptr::read(&o.p) }));
        let wk = asy::waker(0);
        let polled: bool = any();
        {
            let mut fut = it.push(t);
            if polled {
                let r = Pin::new(&mut fut).poll(&mut Context::from_waker(&wk)).is_ready();
                ob!(c08 c14, r != full, "a push is pending exactly while there is no room");
                let d = drops();
                ob!(c08 c14, !full || d == 0, "a pending push keeps its value");
            }
        }
        core::mem::forget(wk);
        // Destroyed: what was replaced, or the value of the future that did not store it.
        let g = o.at_i;
        if polled && !full { o.post(id, Some(g)) } else { o.post(g, Some(id)) }
    }
}
