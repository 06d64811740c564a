//! Ownership contracts: what is destroyed when, and that empty slots are never taken for values.
//! Bounded: buffers of `N` slots (3 unless stated), in an arbitrary state.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use crate::asy;
use crate::kx::*;
use crate::spec::*;
use crate::world::*;

/// A value with an identity. Live values are never all zero, but parts of them are; between
/// the parts there is padding.
#[repr(C)]
pub struct Tok { a: u8, b: u16 }
pub const IDS: usize = 12;
/// Times a value has been created and destroyed.
pub static mut BORN: [u8; IDS] = [0; IDS];
pub static mut DEAD: [u8; IDS] = [0; IDS];
/// Something that is not a value was destroyed or cloned.
pub static mut EMPTY_TOUCHED: bool = false;
pub static mut NEXT: u8 = 0;
impl Tok {
    pub fn new() -> Tok { unsafe { NEXT += 1; BORN[NEXT as usize] += 1; Tok::rep(NEXT) } }
    /// The representation of value `id`; that of 0 is all zero.
    fn rep(id: u8) -> Tok { if id & 1 == 1 { Tok { a: id, b: 0 } } else { Tok { a: 0, b: id as u16 } } }
    pub fn id(&self) -> usize { if self.a != 0 { self.a as usize } else { self.b as usize } }
}
impl Drop for Tok {
    fn drop(&mut self) { unsafe { let i = self.id(); if i == 0 || i >= IDS { EMPTY_TOUCHED = true } else { DEAD[i] += 1 } } }
}
impl Clone for Tok {
    fn clone(&self) -> Tok { unsafe { let i = self.id(); if i == 0 || i >= IDS { EMPTY_TOUCHED = true } } Tok::new() }
}
pub fn dead(i: usize) -> u8 { unsafe { (&raw const DEAD[i]).read() } }
pub fn born() -> usize { unsafe { (&raw const NEXT).read() as usize } }
pub fn empty_touched() -> bool { unsafe { (&raw const EMPTY_TOUCHED).read() } }
pub fn start() { unsafe { BORN = [0; IDS]; DEAD = [0; IDS]; EMPTY_TOUCHED = false; NEXT = 0; } }

pub const N: usize = 3;
pub struct Own<'b, B: MutRB<Item = Tok>> {
    pub p: ProdIter<'b, B>, pub w: WorkIter<'b, B>, pub c: ConsIter<'b, B, true>,
    pub base: *mut Tok,
    pub v: (usize, usize, usize),
    /// Identity of the value in each slot; 0: empty.
    pub had: [usize; N],
}
impl<'b, B: MutRB<Item = Tok>> Own<'b, B> {
    /// Any positions; slots between consumer and producer hold values, the others may be empty.
    pub fn any((mut p, mut w, mut c): (ProdIter<'b, B>, WorkIter<'b, B>, ConsIter<'b, B, true>)) -> Self {
        start();
        let base = p.get_next_item_mut_init().unwrap();
        let (ci, wi, pi) = (any_lt(N), any_lt(N), any_lt(N));
        assume(dist(N, ci, wi) <= dist(N, ci, pi));
        let mut had = [0; N];
        let mut j = 0;
        while j < N {
            let occ: bool = any();
            assume(occ || !within(N, ci, dist(N, ci, pi), j));
            if occ { let t = Tok::new(); had[j] = t.id(); unsafe { base.add(j).write(t) } }
            j += 1;
        }
        unsafe { put(&mut p, pi); put(&mut w, wi); put(&mut c, ci); }
        Own { p, w, c, base, v: (pi, wi, ci), had }
    }
    pub fn room(&self) -> usize { room(N, self.v.0, self.v.2) }
    pub fn avail(&self) -> usize { dist(N, self.v.2, self.v.1) }
    pub fn at(&self, j: usize) -> usize { unsafe { (*self.base.add(j)).id() } }
    pub fn idx(&self, k: usize) -> usize { wrap(N, self.v.0 + k) }
    /// After the operation: slot `j` holds `now[j]`, the values in `gone` have been destroyed,
    /// `out` are owned by the caller, and nothing else.
    pub fn post(self, now: [usize; N], gone: [usize; 2]) {
        let mut j = 0;
        while j < N { let h = self.at(j); ob!(c08 c09, h == now[j], "every slot holds the value stored into it, or what it held"); j += 1; }
        // Any of the values.
        let i = any_lt(IDS);
        assume(i > 0);
        let d = dead(i);
        let is_gone = gone[0] == i || gone[1] == i;
        ob!(c08 c09, !is_gone || d == 1, "a value replaced is destroyed exactly once");
        ob!(c08 c09, is_gone || d == 0, "nothing but what is replaced is destroyed");
        let e = empty_touched();
        ob!(c08 c09, !e, "an empty slot is not taken for a value");
        reached!("end");
        core::mem::forget(self)
    }
}
fn heap<'b>() -> (ProdIter<'b, ConcurrentHeapRB<Tok>>, WorkIter<'b, ConcurrentHeapRB<Tok>>, ConsIter<'b, ConcurrentHeapRB<Tok>, true>) {
    unsafe { ConcurrentHeapRB::<Tok>::new_zeroed(N) }.split_mut()
}
macro_rules! own_ops {
    ($($(#[$doc:meta])* fn $f:ident($o:ident) $b:block)*) => { $(
        pub mod $f {
            use super::*;
            pub fn body<B: MutRB<Item = Tok>>(mut $o: Own<B>) $b
            $(#[$doc])*
            #[cfg_attr(kani, kani::proof, kani::unwind(6))]
            pub fn heap() { body(Own::any(super::heap())) }
            $(#[$doc])*
            #[cfg_attr(kani, kani::proof, kani::unwind(6))]
            pub fn stack() {
                let mut b = core::mem::ManuallyDrop::new(unsafe { LocalStackRB::<Tok, N>::new_zeroed() });
                body(Own::any(b.split_mut()))
            }
        }
    )* };
}
own_ops! {
    fn push(o) {
        let i = o.idx(0);
        // Documented: not upon empty slots.
        assume(o.had[i] != 0);
        let t = Tok::new();
        let id = t.id();
        let r = o.p.push(t);
        let (mut now, mut gone) = (o.had, [0; 2]);
        match r {
            Ok(()) => { gone[0] = now[i]; now[i] = id; }
            Err(t) => { ob!(c08, t.id() == id, "a refused push hands the value back"); core::mem::forget(t) }
        }
        o.post(now, gone)
    }
    fn push_init(o) {
        let i = o.idx(0);
        let t = Tok::new();
        let id = t.id();
        let r = o.p.push_init(t);
        let (mut now, mut gone) = (o.had, [0; 2]);
        match r {
            Ok(()) => { gone[0] = now[i]; now[i] = id; }
            Err(t) => { ob!(c08, t.id() == id, "a refused push hands the value back"); core::mem::forget(t) }
        }
        o.post(now, gone)
    }
    fn push_slice_clone(o) {
        let cnt = any_le(2);
        let (i, j) = (o.idx(0), o.idx(1));
        assume((cnt < 1 || o.had[i] != 0) && (cnt < 2 || o.had[j] != 0));
        let src = core::mem::ManuallyDrop::new([Tok::new(), Tok::new()]);
        let id = src[1].id();
        let ok = o.p.push_slice_clone(&src[..cnt]).is_some();
        let (mut now, mut gone) = (o.had, [0; 2]);
        if ok {
            if cnt > 0 { gone[0] = now[i]; now[i] = id + 1; }
            if cnt > 1 { gone[1] = now[j]; now[j] = id + 2; }
        }
        ob!(c08, born() == id + if ok { cnt } else { 0 }, "one clone is made of each item");
        o.post(now, gone)
    }
    fn push_slice_clone_init(o) {
        let cnt = any_le(2);
        let (i, j) = (o.idx(0), o.idx(1));
        let src = core::mem::ManuallyDrop::new([Tok::new(), Tok::new()]);
        let id = src[1].id();
        let ok = o.p.push_slice_clone_init(&src[..cnt]).is_some();
        let (mut now, mut gone) = (o.had, [0; 2]);
        if ok {
            if cnt > 0 { gone[0] = now[i]; now[i] = id + 1; }
            if cnt > 1 { gone[1] = now[j]; now[j] = id + 2; }
        }
        ob!(c08, born() == id + if ok { cnt } else { 0 }, "one clone is made of each item");
        o.post(now, gone)
    }
    fn pop(o) {
        // The caller sees to it that the duplicate is not destroyed.
        if let Some(t) = o.c.pop() { ob!(c08, t.id() == o.had[o.v.2], "what is popped is the value in the slot"); core::mem::forget(t) }
        let now = o.had;
        o.post(now, [0; 2])
    }
    fn pop_move(o) {
        let r = unsafe { o.c.pop_move() };
        let mut now = o.had;
        if let Some(t) = r { ob!(c08 c09, t.id() == o.had[o.v.2], "what is popped is the value in the slot"); now[o.v.2] = 0; core::mem::forget(t) }
        let empty = now[o.v.2] == 0;
        let z = unsafe { UnsafeSyncCell::check_zeroed(o.base.add(o.v.2)) };
        ob!(c08 c09, z == empty, "a slot vacated by pop_move is recognised as empty");
        o.post(now, [0; 2])
    }
    fn clone_item(o) {
        let mut d = Tok::new();
        let id = d.id();
        let ok = o.c.clone_item(&mut d).is_some();
        ob!(c08, d.id() == if ok { id + 1 } else { id }, "the destination holds a clone, or what it held");
        core::mem::forget(d);
        let now = o.had;
        o.post(now, [if ok { id } else { 0 }, 0])
    }
    fn clone_slice(o) {
        let mut d = core::mem::ManuallyDrop::new([Tok::new(), Tok::new()]);
        let id = d[1].id();
        let cnt = any_le(2);
        let ok = o.c.clone_slice(&mut d[..cnt]).is_some();
        let now = o.had;
        ob!(c08, born() == id + if ok { cnt } else { 0 }, "one clone is made of each item");
        o.post(now, [if ok && cnt > 0 { id - 1 } else { 0 }, if ok && cnt > 1 { id } else { 0 }])
    }
    /// Everything which only looks or moves destroys nothing.
    fn looks(o) {
        let k: u8 = any();
        let cnt = any_le(N);
        match k {
            0 => { o.p.get_next_item_mut_init(); }
            1 => { o.p.get_workable_slice_exact(cnt); }
            2 => { o.w.get_workable(); }
            3 => { o.w.get_workable_slice_avail(); }
            4 => { o.c.peek_ref(); }
            5 => { o.c.peek_slice(cnt); }
            6 => { o.c.peek_available(); }
            7 => { o.c.reset_index(); }
            8 => { o.w.reset_index(); }
            9 => { assume(cnt <= o.room()); unsafe { o.p.advance(cnt) } }
            10 => { assume(cnt <= o.avail()); unsafe { o.c.advance(cnt) } }
            11 => { o.p.available(); }
            12 => unsafe { let mut d = core::ptr::read(&o.c).detach(); d.reset_index(); core::mem::forget(d.attach()) }
            _ => { let a = AsyncConsIter::from_sync(unsafe { core::ptr::read(&o.c) }); core::mem::forget(a.into_sync()) }
        }
        let now = o.had;
        o.post(now, [0; 2])
    }
    /// A pending push owns its value until it stores it, or is dropped.
    fn push_future(o) {
        let i = o.idx(0);
        assume(o.had[i] != 0);
        let t = Tok::new();
        let id = t.id();
        let mut it = core::mem::ManuallyDrop::new(AsyncProdIter::from_sync(unsafe { core::ptr::read(&o.p) }));
        let wk = asy::waker(0);
        let mut stored = false;
        let (pi, room0) = (o.v.0, o.room());
        {
            let mut fut = it.push(t);
            if any() {
                match Pin::new(&mut fut).poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(r) => stored = true,
                    Poll::Pending => {
                        let d = dead(id);
                        ob!(c08 c14, d == 0 && o.at(i) == o.had[i], "a pending push keeps its value");
                        // Room is made for it, or not.
                        if any() {
                            assume(dist(N, o.v.2, o.v.1) > 0);
                            let to = wrap(N, o.v.2 + 1);
                            unsafe { put(&mut o.c, to); }
                            match Pin::new(&mut fut).poll(&mut Context::from_waker(&wk)) { Poll::Ready(_) => stored = true, Poll::Pending => { ob!(c14, false, "a pending push completes when there is room"); } }
                        }
                    }
                }
            }
        }
        core::mem::forget(wk);
        let d = dead(id);
        ob!(c14 c08, d == !stored as u8, "a pending push hands its value to the buffer, or drops it");
        let (mut now, mut gone) = (o.had, [0; 2]);
        if stored { gone[0] = now[i]; now[i] = id; } else { gone[0] = id; }
        o.post(now, gone)
    }
}

/// Releasing the buffer destroys every value in it once, and passes over the empty slots.
macro_rules! release {
    ($($(#[$doc:meta])* fn $f:ident($o:ident) $b:block)*) => { $(
        $(#[$doc])*
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn $f() {
            let (had, now, extra) = $b;
            let had: [usize; N] = had;
            let _: () = now;
            let e = empty_touched();
            ob!(c08 c09 c18, !e, "empty slots are not destroyed");
            let i = any_lt(IDS);
            assume(i > 0);
            let d = dead(i);
            let is: bool = had[0] == i || had[1] == i || had[2] == i || extra == i;
            ob!(c08 c09 c18, d == is as u8, "every value in the buffer is destroyed exactly once");
            reached!("end");
        }
    )* };
}
fn any_buf(base: *mut Tok) -> [usize; N] {
    let mut had = [0; N];
    let mut j = 0;
    while j < N {
        if any() { let t = Tok::new(); had[j] = t.id(); unsafe { base.add(j).write(t) } }
        j += 1;
    }
    had
}
release! {
    fn release_heap(o) {
        let o = Own::any(heap());
        let (had, p, w, c) = (o.had, o.p, o.w, o.c);
        drop(p); drop(w); drop(c);
        (had, (), 0)
    }
    fn release_local(o) {
        let o = Own::any(unsafe { LocalHeapRB::<Tok>::new_zeroed(N) }.split_mut());
        let (had, p, w, c) = (o.had, o.p, o.w, o.c);
        drop(c); drop(w); drop(p);
        (had, (), 0)
    }
    fn release_stack(o) {
        let mut had = [0; N];
        {
            let mut b = unsafe { LocalStackRB::<Tok, N>::new_zeroed() };
            { let o = Own::any(b.split_mut()); had = o.had; }
            let d = dead(any_lt(IDS));
            ob!(c08, d == 0, "dropping the iterators of a stack buffer destroys nothing");
        }
        (had, (), 0)
    }
    fn release_conc_stack(o) {
        let mut had = [0; N];
        {
            let mut b = unsafe { ConcurrentStackRB::<Tok, N>::new_zeroed() };
            { let o = Own::any(b.split_mut()); had = o.had; }
            let d = dead(any_lt(IDS));
            ob!(c08, d == 0, "dropping the iterators of a stack buffer destroys nothing");
        }
        (had, (), 0)
    }
    /// Buffers made from values, and never split.
    fn release_unsplit(o) {
        start();
        let k: u8 = any();
        let had = [1, 2, 3];
        match k {
            0 => drop(ConcurrentHeapRB::from(vec![Tok::new(), Tok::new(), Tok::new()])),
            1 => drop(LocalHeapRB::from(vec![Tok::new(), Tok::new(), Tok::new()])),
            2 => drop(ConcurrentStackRB::from([Tok::new(), Tok::new(), Tok::new()])),
            3 => drop(LocalStackRB::from([Tok::new(), Tok::new(), Tok::new()])),
            4 => drop(LocalStackRB::<Tok, 3>::from([Tok::new(), Tok::new(), Tok::new()])),
            5 => drop(HeapStorage::<Tok>::from(vec![UnsafeSyncCell::from(Tok::new()), UnsafeSyncCell::from(Tok::new()), UnsafeSyncCell::from(Tok::new())])),
            6 => drop(HeapStorage::from(vec![Tok::new(), Tok::new(), Tok::new()].into_boxed_slice())),
            7 => drop(StackStorage::<Tok, 3>::from([UnsafeSyncCell::from(Tok::new()), UnsafeSyncCell::from(Tok::new()), UnsafeSyncCell::from(Tok::new())])),
            _ => drop(StackStorage::from([Tok::new(), Tok::new(), Tok::new()])),
        }
        (had, (), 0)
    }
    /// Buffers of empty slots.
    fn release_zeroed(o) {
        start();
        let k: u8 = any();
        unsafe {
            match k {
                0 => drop(ConcurrentHeapRB::<Tok>::new_zeroed(N)),
                1 => drop(LocalHeapRB::<Tok>::new_zeroed(N)),
                2 => drop(ConcurrentStackRB::<Tok, N>::new_zeroed()),
                _ => drop(LocalStackRB::<Tok, N>::new_zeroed()),
            }
        }
        ([0; N], (), 0)
    }
    /// The cell itself.
    fn cell(o) {
        start();
        let mut had = [0; N];
        {
            let c = UnsafeSyncCell::from(Tok::new());
            had[0] = 1;
            if any() {
                let t = unsafe { c.take_inner() };
                ob!(c08 c09, t.id() == 1, "what is taken is the value in the cell");
                let z = UnsafeSyncCell::check_zeroed(c.as_mut_ptr());
                ob!(c08 c09, z, "a cell whose value was taken is empty");
                if any() {
                    let d = c.clone();
                    let z = UnsafeSyncCell::check_zeroed(d.as_mut_ptr());
                    ob!(c08 c09, z, "a clone of an empty cell is empty");
                }
                core::mem::forget(t);
                had[0] = 0;
            } else if any() {
                let d = c.clone();
                ob!(c08, born() == 2, "a clone of a cell holds a clone of its value");
                had[1] = 2;
            } else {
                let t = unsafe { c.inner_duplicate() };
                core::mem::forget(t);
            }
        }
        (had, (), 0)
    }
}

/// What counts as empty: all the bytes are zero, wherever the one which is not may be.
fn zeroed<const L: usize>() {
    let mut a = [0u8; L];
    let z = UnsafeSyncCell::check_zeroed(&a as *const [u8; L]);
    ob!(c08 c09, z, "all-zero bytes are an empty slot");
    let i = any_lt(L);
    let x: u8 = any();
    assume(x != 0);
    a[i] = x;
    let z = UnsafeSyncCell::check_zeroed(&a as *const [u8; L]);
    ob!(c08 c09, !z, "a value with any byte set is not an empty slot");
    reached!("end");
}
#[cfg_attr(kani, kani::proof, kani::unwind(42))]
pub fn zeroed_1() { zeroed::<1>() }
#[cfg_attr(kani, kani::proof, kani::unwind(42))]
pub fn zeroed_5() { zeroed::<5>() }
#[cfg_attr(kani, kani::proof, kani::unwind(42))]
pub fn zeroed_16() { zeroed::<16>() }
#[cfg_attr(kani, kani::proof, kani::unwind(42))]
pub fn zeroed_40() { zeroed::<40>() }
