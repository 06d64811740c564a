//! Contracts of constructors, splits, and of dropping iterators.
use mutringbuf::*;
use mutringbuf::iterators::*;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use crate::kx::*;
use crate::spec::*;
use crate::world::*;
use crate::own::{self, Tok};
use crate::Item;

/// A session that has just been started over `n` slots.
macro_rules! fresh {
    ($n:expr, $p:ident, $c:ident $(, $w:ident)?) => {{
        let n = $n;
        let three = false $(|| { let _ = &$w; true })?;
        let (pi, wi, ci) = ($p.prod_index(), $p.work_index(), $p.cons_index());
        ob!(c18, $p.buf_len() == n && $c.buf_len() == n, "the length is that of the construction");
        ob!(c18, $p.index() == pi && $c.index() == ci $(&& $w.index() == wi)?, "iterators start from their published positions");
        ob!(c18 c07, $p.is_prod_alive() && $p.is_cons_alive() && $p.is_work_alive() == three, "liveness flags are those of the iterators that exist");
        ob!(c18, pi < n && ci < n, "positions are within the buffer");
        let g = $p.get_workable_slice_exact(n).is_some();
        ob!(c18, !g, "no more than the length minus one is granted");
        let gc = $c.get_workable_slice_exact(n).is_some();
        ob!(c18, !gc, "no more than the length minus one is granted");
        let (pa, ca) = ($p.available(), $c.available());
        let wa = 0 $(+ $w.available())?;
        ob!(c18, pa <= n && ca <= n && wa <= n && pa + ca + wa == n - 1, "availabilities sum to the length minus one");
        (pa, wa, ca)
    }};
}
/// Of a new buffer.
macro_rules! new {
    ($n:expr, $p:ident, $c:ident $(, $w:ident)?) => {{
        let (pa, wa, ca) = fresh!($n, $p, $c $(, $w)?);
        ob!(c18, pa == $n - 1, "the usable capacity is the length minus one");
        let none = $c.peek_ref().is_none() && $c.pop().is_none() && $c.get_workable().is_none() $(&& $w.get_workable().is_none())?;
        ob!(c18, none, "nothing can be obtained before something is pushed");
    }};
}
macro_rules! base { ($p:ident) => { match $p.get_next_item_mut_init() { Some(p) => p, None => core::ptr::null_mut() } } }

macro_rules! from_vec {
    ($f:ident, $t:ident) => { pub mod $f {
        use super::*;
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn two() {
            let n = any_len();
            let j = any_lt(n);
            let v = raw_vec::<u8>(n);
            let x = v[j];
            let (mut p, mut c) = $t::from(v).split();
            let b = base!(p);
            new!(n, p, c);
            if n > 1 { ob!(c18, unsafe { *b.add(j) } == x, "the items supplied are kept, in order"); }
            reached!("end");
            core::mem::forget((p, c));
        }
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn three() {
            let n = any_len();
            let j = any_lt(n);
            let v = raw_vec::<u8>(n);
            let x = v[j];
            let (mut p, mut w, mut c) = $t::from(v).split_mut();
            let b = base!(p);
            new!(n, p, c, w);
            if n > 1 { ob!(c18, unsafe { *b.add(j) } == x, "the items supplied are kept, in order"); }
            reached!("end");
            core::mem::forget((p, w, c));
        }
        /// More capacity than items. Bounded: up to 3 items.
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn spare_b() {
            let mut v: Vec<u8> = Vec::with_capacity(5);
            let a: [u8; 3] = any();
            let n = any_le(3);
            assume(n > 0);
            let mut i = 0;
            while i < n { v.push(a[i]); i += 1; }
            let (mut p, mut c) = $t::from(v).split();
            let b = base!(p);
            new!(n, p, c);
            let j = any_lt(n);
            if n > 1 { ob!(c18, unsafe { *b.add(j) } == a[j], "the items supplied are kept, in order"); }
            reached!("end");
            core::mem::forget((p, c));
        }
        /// Bounded: up to 4 items.
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn default_b() {
            let n = any_le(4);
            assume(n > 0);
            let (mut p, mut w, mut c) = $t::<u8>::default(n).split_mut();
            let b = base!(p);
            new!(n, p, c, w);
            let j = any_lt(n);
            if n > 1 { ob!(c18, unsafe { *b.add(j) } == 0, "items are the default ones"); }
            reached!("end");
            core::mem::forget((p, w, c));
        }
        /// Bounded: up to 4 items.
        #[cfg_attr(kani, kani::proof, kani::unwind(6))]
        pub fn zeroed_b() {
            let n = any_le(4);
            assume(n > 0);
            let (mut p, mut c) = unsafe { $t::<Tok>::new_zeroed(n) }.split();
            let b = base!(p);
            new!(n, p, c);
            let j = any_lt(n);
            if n > 1 { ob!(c18 c09, unsafe { UnsafeSyncCell::check_zeroed(b.add(j)) }, "all the slots are empty"); }
            reached!("end");
            core::mem::forget((p, c));
        }
        refuses! {
            fn refuses_vec { $t::from(Vec::<u8>::new()) }
            fn refuses_default { $t::<u8>::default(0) }
            fn refuses_zeroed { unsafe { $t::<u8>::new_zeroed(0) } }
        }
    } };
}
macro_rules! refuses {
    ($(fn $f:ident $b:block)*) => { $(
        /// Must panic.
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::should_panic]
        pub fn $f() { core::mem::forget($b); }
        #[cfg(not(kani))]
        pub fn $f() {
            let r = std::panic::catch_unwind(|| { core::mem::forget($b) });
            ob!(c18, r.is_err(), "a buffer of length zero is refused with a panic");
        }
    )* };
}
from_vec!(conc_heap, ConcurrentHeapRB);
from_vec!(local_heap, LocalHeapRB);

macro_rules! from_array {
    ($f:ident, $t:ident) => { pub mod $f {
        use super::*;
        pub fn made<const N: usize>() {
            let a = raw_array::<u8, N>();
            let j = any_lt(N);
            let mut b = $t::from(a);
            let (mut p, mut w, mut c) = b.split_mut();
            let base = base!(p);
            new!(N, p, c, w);
            if N > 1 { ob!(c18, unsafe { *base.add(j) } == a[j], "the items supplied are kept, in order"); }
            core::mem::forget((p, w, c));
            let mut b = $t::<u8, N>::default();
            let (mut p, mut c) = b.split();
            let base = base!(p);
            new!(N, p, c);
            if N > 1 { ob!(c18, unsafe { *base.add(j) } == 0, "items are the default ones"); }
            core::mem::forget((p, c));
            let mut b = unsafe { $t::<u16, N>::new_zeroed() };
            let (mut p, mut c) = b.split();
            let base = base!(p);
            new!(N, p, c);
            if N > 1 { ob!(c18 c09, unsafe { *base.add(j) } == 0, "all the slots are empty"); }
            core::mem::forget((p, c));
            reached!("end");
        }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn one() { made::<1>() }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn two() { made::<2>() }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn five() { made::<5>() }
        refuses! {
            fn refuses_array { $t::from([0u8; 0]) }
            fn refuses_default { $t::<u8, 0>::default() }
            fn refuses_zeroed { unsafe { $t::<u8, 0>::new_zeroed() } }
        }
        /// A session after another one, which ended in any state.
        pub fn again<const N: usize>(first3: bool, then3: bool) {
            let mut b = $t::from(core::array::from_fn::<u8, N, _>(|i| i as u8 + 1));
            let mut v = In::any(Subj::P, if first3 { 3 } else { 2 }, N);
            if first3 {
                let mut w = World::new3(b.split_mut());
                w.reach(&v, Subj::P);
                let World { p, w, c, .. } = w;
                if any() { drop(p); drop(w); drop(c); } else { drop(c); drop(p); drop(w); }
            } else {
                let mut w = World::new2(b.split());
                w.reach(&v, Subj::P);
                let World { p, w, c, .. } = w;
                if any() { drop(p); drop(c); } else { drop(c); drop(p); }
            }
            let left = dist(N, v.c, v.p);
            macro_rules! rest { ($c:ident, $ca:expr) => {
                ob!(c18, $ca <= left, "only what was pushed and not yet consumed can be obtained");
                if $ca > 0 {
                    let i = any_lt(N);
                    assume(i < $ca);
                    unsafe { $c.advance(i) };
                    let x = $c.pop();
                    ob!(c18, x == Some(wrap(N, v.c + i) as u8 + 1), "only what was pushed and not yet consumed can be obtained");
                }
            } }
            if then3 {
                let (mut p, mut w, mut c) = b.split_mut();
                let (_, wa, ca) = fresh!(N, p, c, w);
                ob!(c18, wa + ca <= left, "only what was pushed and not yet consumed can be obtained");
                rest!(c, ca);
                core::mem::forget((p, w, c));
            } else {
                let (mut p, mut c) = b.split();
                let (_, _, ca) = fresh!(N, p, c);
                rest!(c, ca);
                core::mem::forget((p, c));
            }
            reached!("end");
        }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn again_33() { again::<4>(true, true) }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn again_32() { again::<4>(true, false) }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn again_23() { again::<4>(false, true) }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn again_22() { again::<4>(false, false) }
        #[cfg_attr(kani, kani::proof, kani::unwind(7))]
        pub fn again_1() { again::<1>(true, true) }
    } };
}
from_array!(conc_stack, ConcurrentStackRB);
from_array!(local_stack, LocalStackRB);

#[cfg_attr(kani, kani::proof, kani::unwind(6))]
pub fn async_three() {
    let n = any_len();
    let (p, w, c) = ConcurrentHeapRB::from(raw_vec::<u8>(n)).split_mut_async();
    let (mut p, mut w, mut c) = (p.into_sync(), w.into_sync(), c.into_sync());
    new!(n, p, c, w);
    reached!("end");
    core::mem::forget((p, w, c));
}
#[cfg_attr(kani, kani::proof, kani::unwind(6))]
pub fn async_two() {
    let n = any_len();
    let (p, c) = ConcurrentHeapRB::from(raw_vec::<u8>(n)).split_async();
    let (mut p, mut c) = (p.into_sync(), c.into_sync());
    new!(n, p, c);
    reached!("end");
    core::mem::forget((p, c));
}

/// An iterator in one of its forms.
pub enum Form<I: MRBIterator, A: AsyncIterator> { Plain(I), Det(Detached<I>), Asy(A), AsyDet(AsyncDetached<A, A::B>) }
impl<I: MRBIterator, A: AsyncIterator<I = I>> Form<I, A> {
    pub fn of(k: u8, it: I) -> Self {
        match k { 0 => Form::Plain(it), 1 => Form::Det(it.detach()), 2 => Form::Asy(A::from_sync(it)), 3 => Form::AsyDet(A::from_sync(it).detach()),
            4 => Form::Plain(it.detach().attach()), 5 => Form::Plain(A::from_sync(it).into_sync()), _ => Form::Plain(A::from_sync(it).detach().attach().into_sync()) }
    }
    /// Liveness as this iterator sees it; uses the buffer.
    pub fn sees(&self) -> (bool, bool, bool) {
        match self {
            Form::Plain(i) => (i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()),
            Form::Asy(i) => (i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()),
            _ => (true, true, true),
        }
    }
    pub fn shows(&self) -> bool { match self { Form::Plain(_) | Form::Asy(_) => true, _ => false } }
}
/// What is left after iterators were dropped: `t` tells which ones exist.
fn left(seen: (bool, bool, bool), shows: bool, t: (bool, bool, bool)) {
    if shows {
        ob!(c07, (!t.0 || seen.0) && (!t.1 || seen.1) && (!t.2 || seen.2), "an iterator which exists is alive");
        ob!(c07 c13, seen == t, "an iterator which was dropped is not alive");
    }
    let d = own::dead(1) + own::dead(2);
    ob!(c07 c08, d == 0, "the buffer is not released while an iterator exists");
}
fn toks() -> Vec<Tok> { own::start(); vec![Tok::new(), Tok::new()] }
fn released(x: u8) {
    let ok = own::dead(1) == x && own::dead(2) == x;
    let e = own::empty_touched();
    ob!(c07 c08, ok && !e, "a heap buffer is released, once, with its last iterator; a stack buffer never is");
}
/// `o`: the order of the drops. `f`: forms of the producer, the worker, and the consumer.
macro_rules! drop3 {
    ($split:expr, $rel:expr, $o:expr, $f:expr) => {{
        let (p, w, c) = $split;
        let (p, w, c) = (Form::<_, AsyncProdIter<_>>::of($f[0], p), Form::<_, AsyncWorkIter<_>>::of($f[1], w), Form::<_, AsyncConsIter<_, true>>::of($f[2], c));
        left(p.sees(), p.shows(), (true, true, true));
        match $o {
            0 => { drop(p); left(w.sees(), w.shows(), (false, true, true)); drop(w); left(c.sees(), c.shows(), (false, false, true)); drop(c); }
            1 => { drop(p); left(c.sees(), c.shows(), (false, true, true)); drop(c); left(w.sees(), w.shows(), (false, true, false)); drop(w); }
            2 => { drop(w); left(p.sees(), p.shows(), (true, false, true)); drop(p); left(c.sees(), c.shows(), (false, false, true)); drop(c); }
            3 => { drop(w); left(c.sees(), c.shows(), (true, false, true)); drop(c); left(p.sees(), p.shows(), (true, false, false)); drop(p); }
            4 => { drop(c); left(w.sees(), w.shows(), (true, true, false)); drop(w); left(p.sees(), p.shows(), (true, false, false)); drop(p); }
            _ => { drop(c); left(p.sees(), p.shows(), (true, true, false)); drop(p); left(w.sees(), w.shows(), (false, true, false)); drop(w); }
        }
        released($rel);
        reached!("end");
    }};
}
macro_rules! drop2 {
    ($split:expr, $rel:expr, $o:expr, $f:expr) => {{
        let (p, c) = $split;
        let (p, c) = (Form::<_, AsyncProdIter<_>>::of($f[0], p), Form::<_, AsyncConsIter<_, false>>::of($f[1], c));
        left(p.sees(), p.shows(), (true, false, true));
        if $o == 0 { drop(p); left(c.sees(), c.shows(), (false, false, true)); drop(c); } else { drop(c); left(p.sees(), p.shows(), (true, false, false)); drop(p); }
        released($rel);
        reached!("end");
    }};
}
fn stack<B>(b: B) -> &'static mut B { Box::leak(Box::new(b)) }
macro_rules! drops {
    ($m:ident, $rel:expr, $split:expr, $mutsplit:expr) => { pub mod $m {
        use super::*;
        macro_rules! h3 { ($h:ident, $o:expr, $p:expr, $w:expr, $c:expr) => {
            #[cfg_attr(kani, kani::proof, kani::unwind(6))] pub fn $h() { drop3!($mutsplit, $rel, $o, [$p, $w, $c]) } } }
        macro_rules! h2 { ($h:ident, $o:expr, $p:expr, $c:expr) => {
            #[cfg_attr(kani, kani::proof, kani::unwind(6))] pub fn $h() { drop2!($split, $rel, $o, [$p, $c]) } } }
        h3!(pwc0, 0, 0, 0, 0); h3!(pcw0, 1, 0, 0, 0); h3!(wpc0, 2, 0, 0, 0); h3!(wcp0, 3, 0, 0, 0); h3!(cwp0, 4, 0, 0, 0); h3!(cpw0, 5, 0, 0, 0);
        h3!(pwc1, 0, 1, 2, 3); h3!(pcw1, 1, 2, 3, 1); h3!(wpc1, 2, 3, 1, 2); h3!(wcp1, 3, 1, 3, 2); h3!(cwp1, 4, 3, 2, 1); h3!(cpw1, 5, 2, 1, 3);
        h3!(pwc2, 0, 4, 5, 6); h3!(pcw2, 1, 5, 6, 4); h3!(wpc2, 2, 6, 4, 5); h3!(wcp2, 3, 4, 6, 5); h3!(cwp2, 4, 6, 5, 4); h3!(cpw2, 5, 5, 4, 6);
        h2!(pc0, 0, 0, 0); h2!(cp0, 1, 0, 0); h2!(pc1, 0, 1, 2); h2!(cp1, 1, 3, 1); h2!(pc2, 0, 4, 3); h2!(cp2, 1, 2, 4); h2!(pc3, 0, 5, 6); h2!(cp3, 1, 6, 5);
    } };
}
drops!(drops_conc_heap, 1, ConcurrentHeapRB::from(toks()).split(), ConcurrentHeapRB::from(toks()).split_mut());
drops!(drops_local_heap, 1, LocalHeapRB::from(toks()).split(), LocalHeapRB::from(toks()).split_mut());
drops!(drops_conc_stack, 0, stack({ own::start(); ConcurrentStackRB::from([Tok::new(), Tok::new()]) }).split(), stack({ own::start(); ConcurrentStackRB::from([Tok::new(), Tok::new()]) }).split_mut());
drops!(drops_local_stack, 0, stack({ own::start(); LocalStackRB::from([Tok::new(), Tok::new()]) }).split(), stack({ own::start(); LocalStackRB::from([Tok::new(), Tok::new()]) }).split_mut());
/// Through the asynchronous split.
#[cfg_attr(kani, kani::proof, kani::unwind(6))]
pub fn drops_async3() {
    let (p, w, c) = ConcurrentHeapRB::from(toks()).split_mut_async();
    match any::<u8>() {
        0 => { drop(p); left((c.is_prod_alive(), c.is_work_alive(), c.is_cons_alive()), true, (false, true, true)); drop(c); left((false, w.is_work_alive(), false), true, (false, true, false)); drop(w); }
        1 => { drop(w); drop(c); left((p.is_prod_alive(), p.is_work_alive(), p.is_cons_alive()), true, (true, false, false)); drop(p); }
        _ => { drop(c); drop(w.detach()); left((p.is_prod_alive(), p.is_work_alive(), p.is_cons_alive()), true, (true, false, false)); drop(p.into_sync()); }
    }
    released(1);
    reached!("end");
}
