//! Relational contracts: the same history on two kinds of buffer, or with two forms of an
//! operation, gives the same observations. What the observations are is not specified here.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use crate::asy;
use crate::kx::*;
use crate::ops::{geom, request};
use crate::spec::*;
use crate::world::*;
use crate::Item;

/// What an operation returned.
pub type Res = Option<[usize; 4]>;
#[derive(Clone, Copy)]
pub struct Obs { pub r: Res, pub o: [usize; 18] }

fn same(a: Obs, b: Obs) {
    ob!(c13, a.r.is_some() == b.r.is_some(), "success or refusal is the same");
    let (x, y) = (a.r.unwrap_or([0; 4]), b.r.unwrap_or([0; 4]));
    ob!(c13, x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3], "results are the same");
    let (a, b) = (a.o, b.o);
    ob!(c13, a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4], "indices are the same");
    ob!(c13, a[5] == b[5] && a[6] == b[6] && a[7] == b[7], "liveness flags are the same");
    ob!(c13, a[8] == b[8], "slots are the same");
    ob!(c13, a[9] == b[9] && a[10] == b[10] && a[11] == b[11], "a request afterwards gives the same");
    ob!(c13, a[12] == b[12] && a[13] == b[13] && a[14] == b[14], "availabilities are the same");
    ob!(c13, a[15] == b[15], "lengths are the same");
}
/// Everything that can be observed afterwards.
fn fin<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In, s: Subj, r: Res) -> Obs {
    let mut o = [0; 18];
    o[0] = w.index(s); o[1] = w.p.prod_index(); o[2] = w.p.work_index(); o[3] = w.p.cons_index(); o[4] = w.c.index();
    o[5] = w.c.is_prod_alive() as usize; o[6] = w.p.is_work_alive() as usize; o[7] = w.p.is_cons_alive() as usize;
    o[8] = w.slot(v.j).num();
    let (g, h, t) = request(w, s, v.m, v.n, o[0], 0);
    o[9] = g as usize; o[10] = h; o[11] = t;
    o[12] = w.available(Subj::P); o[13] = w.available(Subj::W); o[14] = w.available(Subj::C);
    o[15] = w.p.buf_len();
    Obs { r, o }
}
fn off<T>(base: *mut T, a: *const T) -> usize { if a.is_null() || base.is_null() { 0 } else { unsafe { a.offset_from(base) as usize } } }
macro_rules! sl { ($w:ident, $s:expr) => {{ let (a, h, t) = geom($s, 0); [if t == 0 { 0 } else { off($w.base, a) }, h, t, 0] }} }
macro_rules! rf { ($w:ident, $r:expr) => {{ let at: *const T = $r; [off($w.base, at), 0, 0, 0] }} }

macro_rules! rel_ops {
    ($(fn $f:ident($w:ident, $v:ident, $it:ident: $s:ident) $(let $l:pat_param = $le:expr;)* call $e:expr, $(future $fut:expr,)? gives($r:pat_param) $m:block $(if refused $z:block)? $([$det:ident])?)*) => { $(
        pub mod $f {
            use super::*;
            pub const S: Subj = Subj::$s;
            /// As the operation of an attached iterator.
            pub fn plain<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, $v: &In) -> Obs {
                $w.reach($v, S);
                $(let $l = $le;)*
                let r: Res = { let $it = &mut *with_mut!($w, $s); match $e { Some($r) => Some($m), None => { $($z)? None } } };
                fin($w, $v, S, r)
            }
            rel_asy!($w, $v, $it, $s, [$(let $l = $le;)*], [$($fut)?], $r, $m, [$($z)?]);
            rel_det!([$($det)?], $w, $v, $it, $s, [$(let $l = $le;)*], $e, $r, $m, [$($z)?]);
            kinds!(plain);
        }
    )* };
}
macro_rules! rel_asy {
    ($w:ident, $v:ident, $it:ident, $s:ident, [$($l:tt)*], [], $r:pat_param, $m:block, [$($z:block)?]) => {};
    ($w:ident, $v:ident, $it:ident, $s:ident, [$($l:tt)*], [$fut:expr], $r:pat_param, $m:block, [$($z:block)?]) => {
        /// Polled once.
        pub fn polled<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, $v: &In) -> Obs {
            $w.reach($v, S);
            $($l)*
            let mut $it = core::mem::ManuallyDrop::new(asy!($w, $s));
            let r: Res = {
                let wk = asy::waker(0);
                let mut fut = $fut;
                let p = Pin::new(&mut fut).poll(&mut Context::from_waker(&wk));
                core::mem::forget((fut, wk));
                match p { Poll::Ready(Some($r)) => Some($m), _ => { $($z)? None } }
            };
            let $it = core::mem::ManuallyDrop::into_inner($it);
            unsafe { back!($w, $it, $s) }
            fin($w, $v, S, r)
        }
        forms!(asy_form, asy_b3, polled);
    };
}
macro_rules! rel_det {
    ([], $w:ident, $v:ident, $it:ident, $s:ident, [$($l:tt)*], $e:expr, $r:pat_param, $m:block, [$($z:block)?]) => {};
    ([det], $w:ident, $v:ident, $it:ident, $s:ident, [$($l:tt)*], $e:expr, $r:pat_param, $m:block, [$($z:block)?]) => {
        /// Detached, then attached.
        pub fn detached<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, $v: &In) -> Obs {
            $w.reach($v, S);
            $($l)*
            let mut d = unsafe { take!($w, $s) }.detach();
            let r: Res = { let $it = &mut d; match $e { Some($r) => Some($m), None => { $($z)? None } } };
            let it = d.attach();
            unsafe { with_put!($w, $s, it) }
            fin($w, $v, S, r)
        }
        forms!(det_form, det_b3, detached);
    };
}
macro_rules! with_mut {
    ($w:ident, P) => { &mut $w.p };
    ($w:ident, C) => { &mut $w.c };
    ($w:ident, W) => { $w.w.as_mut().unwrap() };
}
macro_rules! with_put {
    ($w:ident, P, $i:ident) => { core::ptr::write(&mut $w.p, $i) };
    ($w:ident, C, $i:ident) => { core::ptr::write(&mut $w.c, $i) };
    ($w:ident, W, $i:ident) => { core::ptr::write($w.w.as_mut().unwrap(), $i) };
}
/// Both buffers hold the same: stated for the slots that are looked at.
fn alike<T: Item>(v: &In, s: Subj, a: &[T], b: &[T]) {
    assume(a[v.j] == b[v.j] && a[v.pos(s)] == b[v.pos(s)]);
    if v.i < v.n { let k = wrap(v.n, v.pos(s) + v.i); assume(a[k] == b[k]); }
}
macro_rules! kinds { ($run:path) => {
    /// Concurrent and local, on the heap, any length, three stages.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn local3() {
        let v = In::any(S, 3, any_len());
        let (a, b) = (raw_vec::<u8>(v.n), raw_vec::<u8>(v.n));
        alike(&v, S, &a, &b);
        let (mut a, mut b) = (World::new3(ConcurrentHeapRB::from(a).split_mut()), World::new3(LocalHeapRB::from(b).split_mut()));
        same($run(&mut a, &v), $run(&mut b, &v));
        core::mem::forget(b);
        a.done()
    }
    /// The same with two stages.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn local2() {
        if S == Subj::W { reached!("end"); return }
        let v = In::any(S, 2, any_len());
        let (a, b) = (raw_vec::<u8>(v.n), raw_vec::<u8>(v.n));
        alike(&v, S, &a, &b);
        let (mut a, mut b) = (World::new2(ConcurrentHeapRB::from(a).split()), World::new2(LocalHeapRB::from(b).split()));
        same($run(&mut a, &v), $run(&mut b, &v));
        core::mem::forget(b);
        a.done()
    }
    fn on_stack<const N: usize>() {
        let v = In::any(S, 3, N);
        let items = raw_array::<u8, N>();
        let (mut b, mut c) = (ConcurrentStackRB::from(items), LocalStackRB::from(items));
        let (mut x, mut y, mut z) = (World::new3(LocalHeapRB::from(Vec::from(items)).split_mut()), World::new3(b.split_mut()), World::new3(c.split_mut()));
        let mut h = World::new3(ConcurrentHeapRB::from(Vec::from(items)).split_mut());
        let o = $run(&mut x, &v);
        same(o, $run(&mut y, &v));
        same(o, $run(&mut z, &v));
        same(o, $run(&mut h, &v));
        core::mem::forget((x, y, h));
        z.done()
    }
    /// Concurrent and local, on the heap and on the stack. Bounded: length 3.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn stack_b3() { on_stack::<3>() }
    /// Local on the stack, and concurrent on the heap. Bounded: length 3.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn pair_b3() {
        let v = In::any(S, 3, 3);
        let items = raw_array::<u8, 3>();
        let mut c = LocalStackRB::from(items);
        let (mut x, mut y) = (World::new3(c.split_mut()), World::new3(ConcurrentHeapRB::from(Vec::from(items)).split_mut()));
        same($run(&mut x, &v), $run(&mut y, &v));
        core::mem::forget(y);
        x.done()
    }
    /// Bounded: length 2.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn stack_b2() { on_stack::<2>() }
    /// Bounded: length 5.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn stack_b5() { on_stack::<5>() }
} }
macro_rules! forms { ($f:ident, $g:ident, $run:path) => {
    /// Two forms of the operation, on buffers of any length.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn $f() {
        let v = In::any(S, 3, any_len());
        let (a, b) = (raw_vec::<u8>(v.n), raw_vec::<u8>(v.n));
        alike(&v, S, &a, &b);
        let (mut a, mut b) = (World::new3(LocalHeapRB::from(a).split_mut()), World::new3(LocalHeapRB::from(b).split_mut()));
        same(plain(&mut a, &v), $run(&mut b, &v));
        core::mem::forget(b);
        a.done()
    }
    /// Bounded: length 3.
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn $g() {
        let v = In::any(S, 3, 3);
        let items = raw_array::<u8, 3>();
        let (mut a, mut b) = (LocalStackRB::from(items), LocalStackRB::from(items));
        let (mut a, mut b) = (World::new3(a.split_mut()), World::new3(b.split_mut()));
        same(plain(&mut a, &v), $run(&mut b, &v));
        core::mem::forget(b);
        a.done()
    }
} }
macro_rules! rel_common { ($($m:ident: $s:ident)*) => { $( pub mod $m {
    use super::*;
    rel_ops! {
        fn get_workable(w, v, it: $s) let base = w.base; call it.get_workable(), future it.get_workable(), gives(r) { let at: *const T = r; [off(base, at), 0, 0, 0] } [det]
        fn exact(w, v, it: $s) let base = w.base; call it.get_workable_slice_exact(v.cnt), future it.get_workable_slice_exact(v.cnt), gives(r) { let (a, h, t) = geom(ro!(r), 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] } [det]
        fn avail(w, v, it: $s) let base = w.base; call it.get_workable_slice_avail(), future it.get_workable_slice_avail(), gives(r) { let (a, h, t) = geom(ro!(r), 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] } [det]
        fn multiple(w, v, it: $s) let by = if v.x & 1 == 0 { 2 } else { 1 }; let base = w.base; call it.get_workable_slice_multiple_of(by), future it.get_workable_slice_multiple_of(by), gives(r) { let (a, h, t) = geom(ro!(r), 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] } [det]
        fn advance(w, v, it: $s) let a = v.avail(S); call { assume(v.cnt <= a); unsafe { it.advance(v.cnt) }; Some(it.index()) }, gives(i) { [i, 0, 0, 0] } [det]
        fn available(w, v, it: $s) call Some(it.available()), gives(a) { [a, 0, 0, 0] } [det]
    }
    /// Moves of a detached iterator, on two kinds of buffer.
    pub mod moves {
        use super::*;
        pub const S: Subj = Subj::$s;
        pub fn run<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) -> Obs {
            w.reach(v, S);
            let mut d = unsafe { take!(w, $s) }.detach();
            let a = v.avail(S);
            assume(v.cnt <= a && v.i <= v.cnt);
            unsafe { d.advance(v.cnt); }
            let x = d.available();
            unsafe { d.go_back(v.i) }
            let y = d.index();
            if v.x & 1 == 1 { d.sync_index() }
            let z = w.p.prod_index() + w.p.work_index() + w.p.cons_index();
            if v.x & 2 == 2 { unsafe { d.set_index(v.pos(S)) } } else if v.x & 4 == 4 { d.reset_index() }
            let it = d.attach();
            unsafe { with_put!(w, $s, it) }
            fin(w, v, S, Some([x, y, z, 0]))
        }
        kinds!(run);
    }
} )* } }
rel_common! { prod: P  work: W  cons: C }
rel_ops! {
    fn push(w, v, it: P) let x = T::nth(v.x as usize); call it.push(x).ok(), future it.push(x), gives(_r) { [0; 4] }
    fn push_init(w, v, it: P) let x = T::nth(v.x as usize); call match it.push_init(x) { Ok(()) => Some(0), Err(y) => Some(1 + y.num()) }, gives(r) { [r, 0, 0, 0] }
    fn push_back(w, v, it: P) let x = T::nth(v.x as usize); call match it.push(x) { Ok(()) => Some(0), Err(y) => Some(1 + y.num()) }, gives(r) { [r, 0, 0, 0] }
    fn push_slice(w, v, it: P) let src = two(v); call it.push_slice(&src), future it.push_slice(&src), gives(_r) { [0; 4] }
    fn push_slice_clone(w, v, it: P) let src = two(v); call it.push_slice_clone(&src), future it.push_slice_clone(&src), gives(_r) { [0; 4] }
    fn push_slice_init(w, v, it: P) let src = two(v); call it.push_slice_init(&src), gives(_r) { [0; 4] }
    fn push_slice_clone_init(w, v, it: P) let src = two(v); call it.push_slice_clone_init(&src), gives(_r) { [0; 4] }
    fn copy_slice(w, v, it: C) let mut d = two(v); call it.copy_slice(&mut d), future it.copy_slice(&mut d), gives(_r) { [d[0].num(), d[1].num(), 0, 0] }
    fn clone_slice(w, v, it: C) let mut d = two(v); call it.clone_slice(&mut d), future it.clone_slice(&mut d), gives(_r) { [d[0].num(), d[1].num(), 0, 0] }
    fn get_next_item_mut(w, v, it: P) let base = w.base; call unsafe { it.get_next_item_mut() }, future unsafe { it.get_next_item_mut() }, gives(r) { let at: *const T = r; [off(base, at), 0, 0, 0] }
    fn get_next_item_mut_init(w, v, it: P) let base = w.base; call it.get_next_item_mut_init(), future it.get_next_item_mut_init(), gives(r) { [off(base, r), 0, 0, 0] }
    fn get_next_slices_mut(w, v, it: P) let base = w.base; call unsafe { it.get_next_slices_mut(v.cnt) }, future unsafe { it.get_next_slices_mut(v.cnt) }, gives(r) { let (a, h, t) = geom(ro!(r), 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] }
    fn pop(w, v, it: C) call it.pop(), future it.pop(), gives(r) { [r.num(), 0, 0, 0] }
    fn pop_move(w, v, it: C) call unsafe { it.pop_move() }, future unsafe { it.pop_move() }, gives(r) { [r.num(), 0, 0, 0] }
    fn peek_ref(w, v, it: C) let base = w.base; call it.peek_ref(), future it.peek_ref(), gives(r) { let at: *const T = r; [off(base, at), r.num(), 0, 0] }
    fn peek_slice(w, v, it: C) let base = w.base; call it.peek_slice(v.cnt), future it.peek_slice(v.cnt), gives(r) { let (a, h, t) = geom(r, 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] }
    fn peek_available(w, v, it: C) let base = w.base; call it.peek_available(), future it.peek_available(), gives(r) { let (a, h, t) = geom(r, 0); [if t == 0 { 0 } else { off(base, a) }, h, t, 0] }
    fn copy_item(w, v, it: C) let mut d = T::nth(v.x as usize); call it.copy_item(&mut d), future it.copy_item(&mut d), gives(_r) { [d.num(), 0, 0, 0] }
    fn clone_item(w, v, it: C) let mut d = T::nth(v.x as usize); call it.clone_item(&mut d), future it.clone_item(&mut d), gives(_r) { [d.num(), 0, 0, 0] }
}
fn two<T: Item>(v: &In) -> [T; 2] { [T::nth(v.x as usize), T::nth(v.x as usize + 1)] }
pub mod reset_w { use super::*; rel_ops! { fn reset_index(w, v, it: W) call { it.reset_index(); Some(it.index()) }, gives(r) { [r, 0, 0, 0] } [det] } }
pub mod reset_c { use super::*; rel_ops! { fn reset_index(w, v, it: C) call { it.reset_index(); Some(it.index()) }, gives(r) { [r, 0, 0, 0] } [det] } }

/// Liveness, as those that are left see it, after one iterator and then another was dropped.
fn flags<B: MutRB<Item = u8>>((p, w, c): (ProdIter<'_, B>, WorkIter<'_, B>, ConsIter<'_, B, true>), k: u8, det: bool) -> u16 {
    fn see<I: MRBIterator>(i: &I) -> [bool; 3] { [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()] }
    let mut o = 0u16;
    macro_rules! add { ($a:expr, $x:expr) => { let s: [bool; 3] = $x; o |= (s[0] as u16 | (s[1] as u16) << 1 | (s[2] as u16) << 2) << $a; } }
    add!(0, see(&p));
    match k {
        0 => { if det { drop(p.detach()) } else { drop(p) } add!(3, see(&w)); drop(w); add!(6, see(&c)); core::mem::forget(c); }
        1 => { if det { drop(w.detach()) } else { drop(w) } add!(3, see(&c)); drop(c); add!(6, see(&p)); core::mem::forget(p); }
        2 => { if det { drop(AsyncConsIter::from_sync(c)) } else { drop(c) } add!(3, see(&p)); drop(p); add!(6, see(&w)); core::mem::forget(w); }
        _ => { if det { drop(AsyncProdIter::from_sync(p)) } else { drop(p) } add!(3, see(&c)); drop(c); add!(6, see(&w)); core::mem::forget(w); }
    }
    o
}
macro_rules! live { ($($f:ident: $k:expr, $det:expr;)*) => { $(
    #[cfg_attr(kani, kani::proof, kani::unwind(6))]
    pub fn $f() {
        let (mut b, mut c) = (core::mem::ManuallyDrop::new(ConcurrentStackRB::from([0u8; 2])), core::mem::ManuallyDrop::new(LocalStackRB::from([0u8; 2])));
        let o = flags(b.split_mut(), $k, false);
        let x = flags(c.split_mut(), $k, $det);
        ob!(c13, o == x, "liveness flags are the same");
        let x = flags(LocalHeapRB::from(raw_vec::<u8>(2)).split_mut(), $k, false);
        ob!(c13, o == x, "liveness flags are the same");
        let x = flags(ConcurrentHeapRB::from(raw_vec::<u8>(2)).split_mut(), $k, $det);
        ob!(c13, o == x, "liveness flags are the same");
        reached!("end");
    } )* } }
live! { liveness_p: 0, true; liveness_w: 1, true; liveness_c: 2, true; liveness_pc: 3, true; }
