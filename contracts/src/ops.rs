//! Contracts of the synchronous operations of attached iterators.
use mutringbuf::*;
use mutringbuf::iterators::*;
use crate::kx::*;
use crate::spec::*;
use crate::world::*;
use crate::Item;

pub type Obs = [usize; 20];

/// `k`-th element of what a slice getter returned, as (address, length of the first part, total).
#[cfg(not(feature = "vmem"))]
pub fn geom<T>(s: (&[T], &[T]), i: usize) -> (*const T, usize, usize) {
    let (h, t) = s;
    let a = if i < h.len() { unsafe { h.as_ptr().add(i) } }
        else if i - h.len() < t.len() { unsafe { t.as_ptr().add(i - h.len()) } }
        else { core::ptr::null() };
    (a, h.len(), h.len().wrapping_add(t.len()))
}
#[cfg(feature = "vmem")]
pub fn geom<T>(s: &[T], i: usize) -> (*const T, usize, usize) {
    let a = if i < s.len() { unsafe { s.as_ptr().add(i) } } else { core::ptr::null() };
    (a, s.len(), s.len())
}
#[cfg(not(feature = "vmem"))]
#[macro_export]
macro_rules! ro { ($s:expr) => {{ let (h, t) = $s; (&*h, &*t) }} }
#[cfg(feature = "vmem")]
#[macro_export]
macro_rules! ro { ($s:expr) => {{ &*$s }} }

/// The contract of a window: `cnt` ring positions from `idx` on.
#[macro_export]
macro_rules! window {
    ($s:expr, $n:expr, $idx:expr, $cnt:expr, $i:expr, $base:expr) => {{
        let (a, h, t) = $crate::ops::geom($s, $i);
        ob!(c01 c05 c06, t == $cnt, "a granted window has the requested size");
        if $cnt > 0 {
            #[cfg(not(feature = "vmem"))]
            ob!(c06, h == if $cnt < $n - $idx { $cnt } else { $n - $idx }, "the head of a window ends at the physical end or with the window");
            if $i < $cnt {
                #[cfg(not(feature = "vmem"))]
                ob!(c01 c06, a == unsafe { $base.add(wrap($n, $idx + $i)) } as *const _, "element i of a window is ring position index + i");
                #[cfg(feature = "vmem")]
                ob!(c01 c06 c17, a == unsafe { $base.add($idx + $i) } as *const _, "element i of a window is i slots after the index, in the mirrored region");
            }
        }
        (h, t)
    }};
}

/// What a harness knows before the operation.
pub struct Pre<T> { pub v: In, pub s: Subj, pub old_j: T, pub a: usize, pub idx: usize, pub peers: [usize; 3] }
pub fn pre<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In, s: Subj) -> Pre<T> {
    w.reach(v, s);
    Pre { v: *v, s, old_j: w.slot(v.j), a: v.avail(s), idx: v.pos(s), peers: [0; 3] }
}

/// The part of every contract which does not depend on the operation: `moved` slots are left
/// behind, `new_j` is what the probed slot must hold, nothing else changes.
pub fn post<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, q: &Pre<T>, moved: usize, new_j: T) -> Obs {
    let v = &q.v;
    let n = v.n;
    let s = q.s;
    let mut o: Obs = [0; 20];
    let now = wrap(n, q.idx + moved);
    let (ep, ew, ec) = match s { Subj::P => (now, v.w, v.c), Subj::W => (v.p, now, v.c), Subj::C => (v.p, v.w, now) };
    let (pi, wi, ci) = (w.p.prod_index(), w.p.work_index(), w.p.cons_index());
    let li = w.index(s);
    let sj = w.slot(v.j);
    if moved == 0 {
        ob!(c05 c01 c04 c14, li == now, "an operation that does not advance leaves the local index alone");
        ob!(c05 c01 c04 c14, pi == ep && ci == ec && (!W || wi == ew), "an operation that does not advance leaves the published indices alone");
        ob!(c05 c14, sj == new_j, "an operation that does not store leaves every slot alone");
    } else {
        ob!(c01 c04 c06 c14, li == now, "the local index moves by exactly the slots used, modulo the length");
        ob!(c01 c04 c06 c14, pi == ep && ci == ec && (!W || wi == ew), "the published index of the subject, and no other, becomes its local index");
    }
    ob!(c04 c06, li < n && pi < n && wi < n && ci < n, "indices are ring positions");
    ob!(c01 c06 c14, sj == new_j, "every slot holds what was stored into it, or what it held");
    ob!(c01, w.p.index() == ep && w.c.index() == ec, "no other iterator moves");
    let a = q.a - moved;
    // Instance of a lemma of /verif/lemmas: moving by `moved` leaves that much less.
    assume(moved <= q.a && match s { Subj::P => room(n, now, v.c), Subj::W => dist(n, now, v.p), Subj::C => dist(n, now, v.w) } == a);
    o[0] = li; o[1] = pi; o[2] = if W { wi } else { 0 }; o[3] = ci; o[4] = sj.num();
    #[cfg(any(c07, c13))]
    {
        let (p_ok, w_ok, c_ok) = (w.p.is_prod_alive(), w.p.is_work_alive(), w.p.is_cons_alive());
        ob!(c07, p_ok && c_ok && w_ok == W, "liveness flags are those of the iterators that exist");
        o[5] = p_ok as usize; o[6] = w_ok as usize; o[7] = c_ok as usize;
    }
    #[cfg(any(c01, c04, c05, c11, c12, c13, c14, c18))]
    {
        // A request right after the operation shows what the iterator remembers.
        let (g, h, t) = request(w, s, a + 1, n, now, v.i);
        ob!(c01 c04 c05 c11 c14 c18, !g, "nothing beyond the iterator ahead is granted afterwards");
        o[8] = g as usize; o[9] = h; o[10] = t;
    }
    #[cfg(any(c04, c05, c11, c13, c14))]
    {
        let av = w.available(s);
        ob!(c04 c05 c11 c14, av <= a, "available() does not over-report");
        ob!(c05 c14, av == a, "available() is the distance to the iterator ahead");
        o[11] = av;
    }
    ob!(c05, w.p.buf_len() == n, "the length does not change");
    o
}

pub fn request<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, s: Subj, m: usize, n: usize, idx: usize, i: usize) -> (bool, usize, usize) {
    let base = w.base;
    macro_rules! req { ($it:expr) => { match $it.get_workable_slice_exact(m) {
        Some(x) => { let (_, h, t) = geom(ro!(x), i); (true, h, t) }
        None => (false, 0, 0) } } }
    match s {
        Subj::P => req!(w.p),
        Subj::W => match &mut w.w { Some(x) => req!(x), None => (false, 0, 0) },
        Subj::C => req!(w.c),
    }
}

/// Grant decision of a request for `k` slots.
#[macro_export]
macro_rules! granted {
    ($ok:expr, $k:expr, $a:expr) => {
        ob!(c01 c04 c05, !$ok || $k <= $a, "granted only if no more than what is available is requested");
        ob!(c05, $k == 0 || $k > $a || $ok, "granted if no more than what is available is requested");
    };
}

macro_rules! ops {
    // Body of an operation.
    ($($(#[$doc:meta])* fn $f:ident($w:ident, $q:ident, $v:ident: $s:ident) $b:block)*) => { $(
        pub mod $f {
            use super::*;
            pub const S: Subj = Subj::$s;
            pub fn body<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, $v: &In) -> Obs {
                let $q = pre($w, $v, Subj::$s);
                $b
            }
            variants!(body, S);
        }
    )* };
}
/// A harness per kind of buffer.
#[macro_export]
macro_rules! variants {
    ($body:path, $s:expr) => {
        /// Concurrent, heap, any length, three stages.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn ch3() {
            let v = In::any($s, 3, any_len());
            let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u8>(v.n)).split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Same, over items of four bytes.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn wide3() {
            let v = In::any($s, 3, any_len());
            let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u32>(v.n)).split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Local, heap, any length, three stages.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn lh3() {
            let v = In::any($s, 3, any_len());
            let mut w = World::new3(LocalHeapRB::from(raw_vec::<u8>(v.n)).split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Concurrent, on the stack, length 3 (lengths of stack buffers are types).
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn cs3() {
            let v = In::any($s, 3, 3);
            let mut b = ConcurrentStackRB::from(raw_array::<u8, 3>());
            let mut w = World::new3(b.split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Concurrent, heap, length 3.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn hh3() {
            let v = In::any($s, 3, 3);
            let mut w = World::new3(ConcurrentHeapRB::from(Vec::from(raw_array::<u8, 3>())).split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Same; shorter loops, and a buffer that is nothing but allocated.
        #[cfg_attr(kani, kani::proof, kani::unwind(5))]
        pub fn hb3() {
            let v = In::any($s, 3, 3);
            let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u8>(3)).split_mut());
            $body(&mut w, &v);
            w.done()
        }
        /// Local, on the stack, length 3.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn ls3() {
            let v = In::any($s, 3, 3);
            let mut b = LocalStackRB::from(raw_array::<u8, 3>());
            let mut w = World::new3(b.split_mut());
            $body(&mut w, &v);
            w.done()
        }
        variants2!($body, $s);
    };
}
#[macro_export]
macro_rules! variants2 {
    ($body:path, $s:expr) => {
        /// Concurrent, heap, any length, two stages.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn ch2() {
            if $s == Subj::W { reached!("end"); return }
            let v = In::any($s, 2, any_len());
            let mut w = World::new2(ConcurrentHeapRB::from(raw_vec::<u8>(v.n)).split());
            $body(&mut w, &v);
            w.done()
        }
        /// Local, heap, any length, two stages.
        #[cfg_attr(kani, kani::proof, kani::unwind(10))]
        pub fn lh2() {
            if $s == Subj::W { reached!("end"); return }
            let v = In::any($s, 2, any_len());
            let mut w = World::new2(LocalHeapRB::from(raw_vec::<u8>(v.n)).split());
            $body(&mut w, &v);
            w.done()
        }
    };
}

/// The subject, as an expression usable for any kind of iterator.
#[macro_export]
macro_rules! with {
    ($w:ident, P, |$it:ident| $e:expr) => {{ let $it = &mut $w.p; $e }};
    ($w:ident, C, |$it:ident| $e:expr) => {{ let $it = &mut $w.c; $e }};
    ($w:ident, W, |$it:ident| $e:expr) => {{ let $it = $w.w.as_mut().unwrap(); $e }};
}
/// Operations that every iterator has.
macro_rules! common {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        ops! {
            fn get_workable(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable());
                let ok = r.is_some();
                granted!(ok, 1, q.a);
                if let Some(r) = r {
                    let at: *mut T = r;
                    ob!(c01 c06, at == unsafe { w.base.add(q.idx) }, "the reference is to the slot at the index");
                }
                post(w, &q, 0, q.old_j)
            }
            fn exact(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable_slice_exact(v.cnt));
                let ok = r.is_some();
                granted!(ok, v.cnt, q.a);
                if let Some(r) = r { window!(ro!(r), v.n, q.idx, v.cnt, v.i, w.base); }
                post(w, &q, 0, q.old_j)
            }
            fn avail(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable_slice_avail());
                let ok = r.is_some();
                ob!(c01 c04 c05, !ok || q.a > 0, "granted only if something is available");
                ob!(c05, q.a == 0 || ok, "what is available is granted");
                if let Some(r) = r { window!(ro!(r), v.n, q.idx, q.a, v.i, w.base); }
                post(w, &q, 0, q.old_j)
            }
            fn multiple(w, q, v: $s) {
                // Division is out of reach for large symbolic numbers: the divisors are bounded.
                let by = if v.m < 1 { 1 } else if v.m > 4 { 4 } else { v.m };
                let r = with!(w, $s, |it| it.get_workable_slice_multiple_of(by));
                let ok = r.is_some();
                let k = match by { 1 => q.a, 2 => q.a & !1, 4 => q.a & !3, _ => q.a - q.a % 3 };
                ob!(c01 c04 c05, !ok || k > 0, "granted only if a multiple is available");
                ob!(c05, k == 0 || ok, "the largest multiple available is granted");
                if let Some(r) = r { window!(ro!(r), v.n, q.idx, k, v.i, w.base); }
                post(w, &q, 0, q.old_j)
            }
            fn advance(w, q, v: $s) {
                // Contract: no more than what is available.
                assume(v.cnt <= q.a);
                with!(w, $s, |it| unsafe { it.advance(v.cnt) });
                post(w, &q, v.cnt, q.old_j)
            }
            fn available(w, q, v: $s) {
                let a = with!(w, $s, |it| it.available());
                ob!(c01 c04 c05, a <= q.a, "available() does not over-report");
                ob!(c05, a == q.a, "available() is the distance to the iterator ahead");
                post(w, &q, 0, q.old_j)
            }
        }
    } )* };
}
common! { prod: P  work: W  cons: C }

macro_rules! reset {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        ops! {
            fn reset_index(w, q, v: $s) {
                with!(w, $s, |it| it.reset_index());
                let o = post(w, &q, q.a, q.old_j);
                let (p, wk, c) = (w.p.prod_index(), w.p.work_index(), w.p.cons_index());
                ob!(c11, with!(w, $s, |it| it.index()) == wrap(v.n, q.idx + q.a), "reset_index moves the iterator to the one ahead of it");
                ob!(c11, match Subj::$s { Subj::W => wk, _ => c } == wrap(v.n, q.idx + q.a), "reset_index publishes the new position");
                ob!(c11, p == v.p && if Subj::$s == Subj::W { c == v.c } else { !W || wk == v.w }, "reset_index moves no other iterator");
                o
            }
            /// What a getter other than available() finds after a reset.
            fn reset_then(w, q, v: $s) {
                let (got, other) = with!(w, $s, |it| {
                    it.reset_index();
                    match v.m { 0 => (it.get_workable().is_some(), false), 1 => (it.get_workable_slice_avail().is_some(), false),
                        2 => (it.get_workable_slice_multiple_of(1).is_some(), false), 3 => (v.cnt > 0 && it.get_workable_slice_exact(v.cnt).is_some(), false),
                        _ => (it.available() > 0, true) }
                });
                ob!(c11, !got, "nothing is available after reset_index");
                // The iterator behind finds what was skipped.
                let behind = match Subj::$s { Subj::W => w.c.available(), _ => w.p.available() };
                let has = match Subj::$s { Subj::W => dist(v.n, v.c, v.w) + q.a, _ => room(v.n, v.p, v.c) + q.a };
                ob!(c11, behind == has, "what reset_index skips becomes available to the iterator behind");
                // What is published from now on is found, and no more.
                if Subj::$s == Subj::W {
                    let more = if v.cnt <= room(v.n, v.p, v.c) { v.cnt } else { 0 };
                    w.put(Subj::P, wrap(v.n, v.p + more));
                    let (g, ..) = request(w, Subj::W, v.i, v.n, v.p, 0);
                    ob!(c11, !g || v.i <= more, "no slots beyond the iterator ahead are handed out after a reset");
                    ob!(c11, v.i == 0 || v.i > more || g, "what is published after a reset is found");
                } else if W {
                    let more = if v.cnt <= dist(v.n, v.w, v.p) { v.cnt } else { 0 };
                    w.put(Subj::W, wrap(v.n, v.w + more));
                    let (g, ..) = request(w, Subj::C, v.i, v.n, v.w, 0);
                    ob!(c11, !g || v.i <= more, "no slots beyond the iterator ahead are handed out after a reset");
                    ob!(c11, v.i == 0 || v.i > more || g, "what is published after a reset is found");
                }
                [0; 20]
            }
        }
    } )* };
}
reset! { work_reset: W  cons_reset: C }

/// Availabilities of all the stages.
#[cfg_attr(kani, kani::proof, kani::unwind(10))]
pub fn sum3() {
    let v = In::any(Subj::P, 3, any_len());
    let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u8>(v.n)).split_mut());
    w.reach(&v, Subj::P);
    let (p, k, c) = (w.available(Subj::P), w.available(Subj::W), w.available(Subj::C));
    ob!(c04 c18, p + k + c == v.n - 1, "availabilities sum to the length minus one");
    ob!(c04, p == room(v.n, v.p, v.c) && k == dist(v.n, v.w, v.p) && c == dist(v.n, v.c, v.w), "availabilities are the distances between the iterators");
    w.done()
}
#[cfg_attr(kani, kani::proof, kani::unwind(10))]
pub fn sum2() {
    let v = In::any(Subj::P, 2, any_len());
    let mut w = World::new2(LocalHeapRB::from(raw_vec::<u8>(v.n)).split());
    w.reach(&v, Subj::P);
    let (p, c) = (w.available(Subj::P), w.available(Subj::C));
    ob!(c04 c18, p + c == v.n - 1, "availabilities sum to the length minus one");
    w.done()
}

ops! {
    fn push(w, q, v: P) {
        let x = T::nth(v.x as usize);
        let r = w.p.push(x);
        let ok = r.is_ok();
        granted!(ok, 1, q.a);
        if let Err(y) = r { ob!(c05, y == x, "a refused push hands the value back"); }
        post(w, &q, ok as usize, if ok && v.j == q.idx { x } else { q.old_j })
    }
    fn push_init(w, q, v: P) {
        let x = T::nth(v.x as usize);
        let r = w.p.push_init(x);
        let ok = r.is_ok();
        granted!(ok, 1, q.a);
        if let Err(y) = r { ob!(c05, y == x, "a refused push hands the value back"); }
        post(w, &q, ok as usize, if ok && v.j == q.idx { x } else { q.old_j })
    }
    fn push_slice(w, q, v: P) {
        let src = raw_vec::<T>(v.cnt);
        let ok = w.p.push_slice(&src).is_some();
        granted!(ok, v.cnt, q.a);
        let new = if ok && within(v.n, q.idx, v.cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j };
        core::mem::forget(src);
        post(w, &q, if ok { v.cnt } else { 0 }, new)
    }
    fn push_slice_clone(w, q, v: P) {
        let src = raw_vec::<T>(v.cnt);
        let ok = w.p.push_slice_clone(&src).is_some();
        granted!(ok, v.cnt, q.a);
        let new = if ok && within(v.n, q.idx, v.cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j };
        core::mem::forget(src);
        post(w, &q, if ok { v.cnt } else { 0 }, new)
    }
    fn get_next_item_mut(w, q, v: P) {
        let r = unsafe { w.p.get_next_item_mut() };
        let ok = r.is_some();
        granted!(ok, 1, q.a);
        if let Some(r) = r {
            let at: *mut T = r;
            ob!(c01 c06, at == unsafe { w.base.add(q.idx) }, "the reference is to the slot at the index");
        }
        post(w, &q, 0, q.old_j)
    }
    fn get_next_item_mut_init(w, q, v: P) {
        let r = w.p.get_next_item_mut_init();
        let ok = r.is_some();
        granted!(ok, 1, q.a);
        if let Some(at) = r { ob!(c01 c06, at == unsafe { w.base.add(q.idx) }, "the pointer is to the slot at the index"); }
        post(w, &q, 0, q.old_j)
    }
    fn get_next_slices_mut(w, q, v: P) {
        let r = unsafe { w.p.get_next_slices_mut(v.cnt) };
        let ok = r.is_some();
        granted!(ok, v.cnt, q.a);
        if let Some(r) = r { window!(ro!(r), v.n, q.idx, v.cnt, v.i, w.base); }
        post(w, &q, 0, q.old_j)
    }
    fn pop(w, q, v: C) {
        let old = w.slot(q.idx);
        let r = w.c.pop();
        let ok = r.is_some();
        granted!(ok, 1, q.a);
        if let Some(y) = r { ob!(c01, y == old, "the item popped is the one in the slot at the index"); }
        post(w, &q, ok as usize, q.old_j)
    }
    fn pop_move(w, q, v: C) {
        let old = w.slot(q.idx);
        let r = unsafe { w.c.pop_move() };
        let ok = r.is_some();
        granted!(ok, 1, q.a);
        if let Some(y) = r { ob!(c01, y == old, "the item popped is the one in the slot at the index"); }
        let new = if ok && v.j == q.idx { unsafe { core::mem::zeroed() } } else { q.old_j };
        post(w, &q, ok as usize, new)
    }
    fn peek_ref(w, q, v: C) {
        let r = w.c.peek_ref();
        let ok = r.is_some();
        granted!(ok, 1, q.a);
        if let Some(r) = r {
            let at: *const T = r;
            ob!(c01 c06, at == unsafe { w.base.add(q.idx) } as *const T, "the reference is to the slot at the index");
        }
        post(w, &q, 0, q.old_j)
    }
    fn peek_slice(w, q, v: C) {
        let r = w.c.peek_slice(v.cnt);
        let ok = r.is_some();
        granted!(ok, v.cnt, q.a);
        if let Some(r) = r { window!(r, v.n, q.idx, v.cnt, v.i, w.base); }
        post(w, &q, 0, q.old_j)
    }
    fn peek_available(w, q, v: C) {
        let r = w.c.peek_available();
        let ok = r.is_some();
        ob!(c05, q.a == 0 || ok, "what is available is granted");
        if let Some(r) = r { window!(r, v.n, q.idx, q.a, v.i, w.base); }
        post(w, &q, 0, q.old_j)
    }
    fn copy_item(w, q, v: C) {
        let old = w.slot(q.idx);
        let d0 = T::nth(v.x as usize);
        let mut d = d0;
        let ok = w.c.copy_item(&mut d).is_some();
        granted!(ok, 1, q.a);
        if ok { ob!(c01, d == old, "the item copied is the one in the slot at the index"); }
        else { ob!(c05, d == d0, "a refused copy leaves the destination alone"); }
        post(w, &q, ok as usize, q.old_j)
    }
    fn clone_item(w, q, v: C) {
        let old = w.slot(q.idx);
        let d0 = T::nth(v.x as usize);
        let mut d = d0;
        let ok = w.c.clone_item(&mut d).is_some();
        granted!(ok, 1, q.a);
        if ok { ob!(c01, d == old, "the item copied is the one in the slot at the index"); }
        else { ob!(c05, d == d0, "a refused copy leaves the destination alone"); }
        post(w, &q, ok as usize, q.old_j)
    }
    fn copy_slice(w, q, v: C) {
        let mut dst = raw_vec::<T>(v.cnt);
        let i = v.i;
        let d0 = if i < v.cnt { Some(dst[i]) } else { None };
        let old = if i < v.n { w.slot(wrap(v.n, q.idx + i)) } else { T::nth(0) };
        let ok = w.c.copy_slice(&mut dst).is_some();
        granted!(ok, v.cnt, q.a);
        if i < v.cnt {
            if ok { ob!(c01 c06, dst[i] == old, "item i copied is the one i slots after the index"); }
            else { ob!(c05, Some(dst[i]) == d0, "a refused copy leaves the destination alone"); }
        }
        core::mem::forget(dst);
        post(w, &q, if ok { v.cnt } else { 0 }, q.old_j)
    }
    fn clone_slice(w, q, v: C) {
        let mut dst = raw_vec::<T>(v.cnt);
        let i = v.i;
        let d0 = if i < v.cnt { Some(dst[i]) } else { None };
        let old = if i < v.n { w.slot(wrap(v.n, q.idx + i)) } else { T::nth(0) };
        let ok = w.c.clone_slice(&mut dst).is_some();
        granted!(ok, v.cnt, q.a);
        if i < v.cnt {
            if ok { ob!(c01 c06, dst[i] == old, "item i copied is the one i slots after the index"); }
            else { ob!(c05, Some(dst[i]) == d0, "a refused copy leaves the destination alone"); }
        }
        core::mem::forget(dst);
        post(w, &q, if ok { v.cnt } else { 0 }, q.old_j)
    }
}


/// Operations with a loop over the caller's data. Bounded: slices of at most 2 items, in buffers
/// of 3.
macro_rules! bounded_ops {
    ($($(#[$doc:meta])* fn $f:ident($w:ident, $q:ident, $v:ident: $s:ident) $b:block)*) => { $(
        pub mod $f {
            use super::*;
            pub fn body<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, $v: &In) -> Obs {
                let $q = pre($w, $v, Subj::$s);
                $b
            }
            #[cfg_attr(kani, kani::proof, kani::unwind(4))]
            pub fn b3() {
                let mut b = ConcurrentStackRB::from(raw_array::<u8, 3>());
                let v = In::any(Subj::$s, 3, 3);
                let mut w = World::new3(b.split_mut());
                body(&mut w, &v);
                w.done()
            }
        }
    )* };
}
bounded_ops! {
    /// Bounded: slices of at most 2 items (the copy is a loop over them).
    fn push_slice_init(w, q, v: P) {
        let cnt = if v.cnt > 2 { 2 } else { v.cnt };
        let src = raw_array::<T, 2>();
        let ok = w.p.push_slice_init(&src[..cnt]).is_some();
        granted!(ok, cnt, q.a);
        let new = if ok && within(v.n, q.idx, cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j };
        core::mem::forget(src);
        post(w, &q, if ok { cnt } else { 0 }, new)
    }
    /// Bounded as push_slice_init.
    fn push_slice_clone_init(w, q, v: P) {
        let cnt = if v.cnt > 2 { 2 } else { v.cnt };
        let src = raw_array::<T, 2>();
        let ok = w.p.push_slice_clone_init(&src[..cnt]).is_some();
        granted!(ok, cnt, q.a);
        let new = if ok && within(v.n, q.idx, cnt, v.j) { src[dist(v.n, q.idx, v.j)] } else { q.old_j };
        core::mem::forget(src);
        post(w, &q, if ok { cnt } else { 0 }, new)
    }
}
