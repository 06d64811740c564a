//! Synchronous operations.
use mutringbuf::*;
use mutringbuf::iterators::*;
use crate::ghost::{self, g};
use crate::kx::*;
use crate::spec::*;
use crate::world::*;

pub struct Q { pub v: In, pub s: Subj, pub n: usize, pub idx: usize, pub base: *mut u8 }
fn num(s: Subj) -> usize { match s { Subj::P => ghost::P, Subj::W => ghost::W, Subj::C => ghost::C } }

/// Where the indices and flags are: the locations that are loaded when they are asked for.
pub fn calibrate<B: MutRB<Item = u8>, const W: bool>(w: &mut World<B, u8, W>) {
    let g = g();
    g.on = false;
    macro_rules! at { ($e:expr) => {{ g.last = core::ptr::null(); let _ = $e; g.last }} }
    g.idx = [at!(w.p.prod_index()), at!(w.p.work_index()), at!(w.p.cons_index())];
    g.flag = [at!(w.p.is_prod_alive()), at!(w.p.is_work_alive()), at!(w.p.is_cons_alive())];
    ob!(c02 c03 c10, !g.idx[0].is_null() && !g.idx[1].is_null() && !g.idx[2].is_null(), "published indices are loaded atomically");
    ob!(c07, !g.flag[0].is_null() && !g.flag[1].is_null() && !g.flag[2].is_null(), "liveness flags are loaded atomically");
    ob!(c02 c03 c10, g.idx[0] != g.idx[1] && g.idx[0] != g.idx[2] && g.idx[1] != g.idx[2], "every iterator publishes its own index");
}
pub fn start<B: MutRB<Item = u8>, const W: bool>(w: &mut World<B, u8, W>, v: &In, s: Subj) -> Q {
    calibrate(w);
    w.reach_old(v, s);
    let from = if v.look { w.available(s) } else { 0 };
    let old = match s { Subj::P => room(v.n, v.p, v.old), Subj::W => dist(v.n, v.w, v.old), Subj::C => dist(v.n, v.c, v.old) };
    // What was available then: the sequential contract.
    assume(!v.look || from == old);
    let ahead = match s { Subj::P => ghost::C, Subj::W => ghost::P, Subj::C => if W { ghost::W } else { ghost::P } };
    g().begin(num(s), ahead, v.n, v.pos(s), from, v.j, w.base);
    Q { v: *v, s, n: v.n, idx: v.pos(s), base: w.base }
}
/// What every operation guarantees. It has left `moved` slots behind.
pub fn finish<B: MutRB<Item = u8>, const W: bool>(w: &mut World<B, u8, W>, q: &Q, moved: usize) {
    let g = g();
    ob!(c02 c03 c10 c12, g.moved == moved, "an operation publishes exactly the slots it is done with");
    ob!(c02 c03 c12, moved > 0 || g.stores == 0 || g.moved == 0, "an operation that uses no slots publishes none");
    ob!(c02 c12, g.stores <= 1, "there is no intermediate position");
    g.unowned();
    if g.owned { let x = g.held(); ob!(c02 c03, x == g.v, "slots that are not used keep what they hold"); }
    let i = w.index(q.s);
    ob!(c02 c03, i == wrap(q.n, q.idx + moved), "the local position is the published one");
    ob!(c07, !g.unacq, "a thread that finds another one dead has acquired what it published");
    ob!(c07, g.cleared[0] + g.cleared[1] + g.cleared[2] == 0, "no operation marks an iterator as dead");
    again(w, q, moved);
    g.on = false;
}
/// A request afterwards shows what the iterator remembers.
pub fn again<B: MutRB<Item = u8>, const W: bool>(w: &mut World<B, u8, W>, q: &Q, moved: usize) {
    let m = q.v.m;
    let g = g();
    #[cfg(any(c02, c03))]
    {
        let some = match q.s {
            Subj::P => w.p.get_workable_slice_exact(m).is_some(),
            Subj::W => w.w.as_mut().unwrap().get_workable_slice_exact(m).is_some(),
            Subj::C => w.c.get_workable_slice_exact(m).is_some(),
        };
        ob!(c02 c03, !some || moved + m <= g.known, "an iterator remembers no more than what it owns");
    }
}
/// A request for `need` slots was granted, or not.
pub fn decided(ok: bool, need: usize) {
    let g = g();
    ob!(c02 c03, !ok || need <= g.known, "a slot is granted only after the iterator ahead has released it");
    ob!(c10, ok || g.looks > 0, "an operation is refused only after a fresh look at the iterator ahead");
    ob!(c10, ok || g.seen < need, "an operation is refused only if the iterator ahead has not published enough");
    ob!(c10 c12, ok || g.stores == 0, "a refused operation publishes nothing");
}
pub fn at(q: &Q, i: usize, k: usize, a: *const u8) {
    if i < k { ob!(c03, a == unsafe { q.base.add(wrap(q.n, q.idx + i)) } as *const u8, "only slots of the granted window are accessible"); }
}
pub fn nth(s: (&[u8], &[u8]), i: usize) -> (*const u8, usize) {
    let (h, t) = s;
    let a = if i < h.len() { unsafe { h.as_ptr().add(i) } } else if i - h.len() < t.len() { unsafe { t.as_ptr().add(i - h.len()) } } else { core::ptr::null() };
    (a, h.len().wrapping_add(t.len()))
}
macro_rules! ro { ($s:expr) => {{ let (h, t) = $s; (&*h, &*t) }} }

#[macro_export]
macro_rules! with {
    ($w:ident, P, |$it:ident| $e:expr) => {{ let $it = &mut $w.p; $e }};
    ($w:ident, C, |$it:ident| $e:expr) => {{ let $it = &mut $w.c; $e }};
    ($w:ident, W, |$it:ident| $e:expr) => {{ let $it = $w.w.as_mut().unwrap(); $e }};
}
#[macro_export]
macro_rules! conc {
    ($($(#[$doc:meta])* fn $f:ident($w:ident, $q:ident, $v:ident: $s:ident) $b:block)*) => { $(
        $(#[$doc])*
        pub mod $f {
            use super::*;
            pub fn body<B: MutRB<Item = u8>, const W: bool>($w: &mut World<B, u8, W>, $v: &In) {
                let $q = start($w, $v, Subj::$s);
                $b
            }
            /// Heap, any length, three stages.
            #[cfg_attr(kani, kani::proof, kani::unwind(5))]
            pub fn ch3() {
                let v = In::any(Subj::$s, 3, any_len());
                let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u8>(v.n)).split_mut());
                body(&mut w, &v);
                w.done()
            }
            /// Heap, any length, two stages.
            #[cfg_attr(kani, kani::proof, kani::unwind(5))]
            pub fn ch2() {
                if Subj::$s == Subj::W { reached!("end"); return }
                let v = In::any(Subj::$s, 2, any_len());
                let mut w = World::new2(ConcurrentHeapRB::from(raw_vec::<u8>(v.n)).split());
                body(&mut w, &v);
                w.done()
            }
            /// Heap, length 3, three stages.
            #[cfg_attr(kani, kani::proof, kani::unwind(5))]
            pub fn hb3() {
                let v = In::any(Subj::$s, 3, 3);
                let mut w = World::new3(ConcurrentHeapRB::from(raw_vec::<u8>(3)).split_mut());
                body(&mut w, &v);
                w.done()
            }
            /// On the stack, length 3, three stages.
            #[cfg_attr(kani, kani::proof, kani::unwind(5))]
            pub fn cs3() {
                let v = In::any(Subj::$s, 3, 3);
                let mut b = ConcurrentStackRB::from(raw_array::<u8, 3>());
                let mut w = World::new3(b.split_mut());
                body(&mut w, &v);
                w.done()
            }
        }
    )* };
}

macro_rules! common {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        conc! {
            fn get_workable(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable());
                decided(r.is_some(), 1);
                if let Some(r) = r { at(&q, 0, 1, r); }
                finish(w, &q, 0)
            }
            fn exact(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable_slice_exact(v.cnt));
                decided(r.is_some(), v.cnt);
                if let Some(r) = r {
                    let (a, t) = nth(ro!(r), v.i);
                    ob!(c02 c03, t == v.cnt, "a window covers what was requested");
                    at(&q, v.i, t, a);
                }
                finish(w, &q, 0)
            }
            fn avail(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable_slice_avail());
                decided(r.is_some(), 1);
                if let Some(r) = r {
                    let (a, t) = nth(ro!(r), v.i);
                    ob!(c02 c03, t <= g().known, "a window covers no more than what is owned");
                    at(&q, v.i, t, a);
                }
                finish(w, &q, 0)
            }
            fn multiple(w, q, v: $s) {
                let by = if v.m < 1 { 1 } else if v.m > 4 { 4 } else { v.m };
                let r = with!(w, $s, |it| it.get_workable_slice_multiple_of(by));
                decided(r.is_some(), by);
                if let Some(r) = r {
                    let (a, t) = nth(ro!(r), v.i);
                    ob!(c02 c03, t <= g().known, "a window covers no more than what is owned");
                    at(&q, v.i, t, a);
                }
                finish(w, &q, 0)
            }
            fn available(w, q, v: $s) {
                let a = with!(w, $s, |it| it.available());
                ob!(c02 c03, a <= g().known, "no more than what is owned is available");
                ob!(c10, g().looks > 0 && a == g().seen, "what was published, and was synchronised with, is available");
                finish(w, &q, 0)
            }
            /// After a grant.
            fn advance(w, q, v: $s) {
                let a = with!(w, $s, |it| it.available());
                assume(v.cnt <= a);
                with!(w, $s, |it| unsafe { it.advance(v.cnt) });
                finish(w, &q, v.cnt)
            }
            /// Advances relying on what was remembered.
            fn advance_old(w, q, v: $s) {
                assume(v.cnt <= g().known);
                with!(w, $s, |it| unsafe { it.advance(v.cnt) });
                finish(w, &q, v.cnt)
            }
            /// A slot is changed and handed over.
            fn edit(w, q, v: $s) {
                let r = with!(w, $s, |it| it.get_workable());
                if let Some(r) = r {
                    *r = v.x;
                    with!(w, $s, |it| unsafe { it.advance(1) });
                    if v.j == q.idx { ob!(c02 c03, g().out == v.x, "what was written is handed over"); }
                    finish(w, &q, 1)
                } else { finish(w, &q, 0) }
            }
            /// What others publish can be observed, and is not disturbed.
            fn observe(w, q, v: $s) {
                let (p, k, c, n) = with!(w, $s, |it| (it.prod_index(), it.work_index(), it.cons_index(), it.buf_len()));
                let (a, b, d) = with!(w, $s, |it| (it.is_prod_alive(), it.is_work_alive(), it.is_cons_alive()));
                ob!(c02 c03, p < n && k < n && c < n, "indices are positions");
                ob!(c07, with!(w, $s, |it| match Subj::$s { Subj::P => a, Subj::W => b, Subj::C => d }), "an iterator that exists is alive");
                finish(w, &q, 0)
            }
            fn wait_for(w, q, v: $s) {
                #[cfg(not(c10))]
                {
                    // It stops when enough has been published.
                    assume(v.cnt <= g().max);
                    let most: usize = 3;
                    with!(w, $s, |it| { g().patience = most; it.wait_for(v.cnt); g().patience = usize::MAX; });
                    ob!(c02 c03, v.cnt <= g().known, "wait_for returns when enough slots are owned");
                    ob!(c02 c03, g().stores == 0, "wait_for publishes nothing");
                }
                finish(w, &q, 0)
            }
            /// Detached: moves are local, one store publishes them.
            fn detached(w, q, v: $s) {
                let a = with!(w, $s, |it| it.available());
                assume(v.cnt <= a);
                let mut d = core::mem::ManuallyDrop::new(with!(w, $s, |it| unsafe { core::ptr::read(it) }).detach());
                let back = if v.loc <= v.cnt { v.loc } else { v.cnt };
                unsafe { d.advance(v.cnt); d.go_back(back); }
                ob!(c12 c02 c03 c10, g().stores == 0, "detached iterators publish nothing when they move");
                let some = d.get_workable_slice_exact(v.m).is_some();
                ob!(c02 c03, !some || v.cnt - back + v.m <= g().known, "a detached iterator is granted only slots it owns");
                ob!(c12 c02 c03 c10, g().stores == 0, "detached iterators publish nothing when they look");
                if v.look { d.sync_index(); } else { with!(w, $s, |it| unsafe { core::ptr::write(it, core::mem::ManuallyDrop::into_inner(core::ptr::read(&d)).attach()) }); }
                ob!(c12 c10, g().stores == 1, "one store publishes the position of a detached iterator");
                ob!(c02 c03 c12 c10, g().moved == v.cnt - back, "all slots up to the local position are handed over");
                g().unowned();
                g().on = false;
            }
            fn detached_reset(w, q, v: $s) {
                let mut d = core::mem::ManuallyDrop::new(with!(w, $s, |it| unsafe { core::ptr::read(it) }).detach());
                d.reset_index();
                ob!(c12 c02 c03 c10, g().stores == 0, "detached iterators publish nothing when they reset");
                let some = d.get_workable_slice_exact(v.m).is_some();
                ob!(c02 c03, !some || dist(q.n, q.idx, d.index()) + v.m <= g().known, "a detached iterator is granted only slots it owns");
                d.sync_index();
                ob!(c12 c10, g().stores == 1, "one store publishes the position of a detached iterator");
                g().unowned();
                g().on = false;
            }
        }
    } )* };
}
common! { prod: P  work: W  cons: C }

macro_rules! reset { ($($m:ident: $s:ident)*) => { $( pub mod $m {
    use super::*;
    conc! {
        fn reset_index(w, q, v: $s) {
            with!(w, $s, |it| it.reset_index());
            ob!(c02 c03 c10, g().looks > 0 && g().moved <= g().known, "reset_index moves to where the iterator ahead was seen");
            let m = g().moved;
            ob!(c10, m == g().seen, "reset_index hands over everything it skips");
            finish(w, &q, m)
        }
    }
} )* } }
reset! { reset_w: W  reset_c: C }

/// The slot that was used by an operation which takes one.
fn stored(q: &Q, x: u8) {
    if q.v.j == q.idx { ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
}
fn fetched(q: &Q, x: u8) {
    if q.v.j == q.idx { ob!(c02 c03, x == g().v, "what is read is what the iterator ahead released"); }
}
conc! {
    fn push(w, q, v: P) {
        let r = w.p.push(v.x);
        decided(r.is_ok(), 1);
        match r {
            Ok(()) => { stored(&q, v.x); finish(w, &q, 1) }
            Err(x) => { ob!(c02 c10, x == v.x, "a refused item is handed back"); finish(w, &q, 0) }
        }
    }
    fn push_init(w, q, v: P) {
        let r = w.p.push_init(v.x);
        decided(r.is_ok(), 1);
        match r {
            Ok(()) => { stored(&q, v.x); finish(w, &q, 1) }
            Err(x) => { ob!(c02 c10, x == v.x, "a refused item is handed back"); finish(w, &q, 0) }
        }
    }
    fn next_mut(w, q, v: P) {
        let r = unsafe { w.p.get_next_item_mut() };
        decided(r.is_some(), 1);
        if let Some(r) = r { at(&q, 0, 1, r); }
        finish(w, &q, 0)
    }
    fn next_mut_init(w, q, v: P) {
        let r = w.p.get_next_item_mut_init();
        decided(r.is_some(), 1);
        if let Some(r) = r { at(&q, 0, 1, r); }
        finish(w, &q, 0)
    }
    fn next_slices(w, q, v: P) {
        let r = unsafe { w.p.get_next_slices_mut(v.cnt) };
        decided(r.is_some(), v.cnt);
        if let Some(r) = r { let (a, t) = nth(ro!(r), v.i); at(&q, v.i, t, a); }
        finish(w, &q, 0)
    }
    fn push_slice(w, q, v: P) {
        let src = raw_vec::<u8>(v.cnt);
        let o = dist(q.n, q.idx, v.j);
        let x = if o < v.cnt { src[o] } else { 0 };
        let r = w.p.push_slice(&src).is_some();
        core::mem::forget(src);
        decided(r, v.cnt);
        if r && o < v.cnt { ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { v.cnt } else { 0 })
    }
    fn push_slice_clone(w, q, v: P) {
        let src = raw_vec::<u8>(v.cnt);
        let o = dist(q.n, q.idx, v.j);
        let x = if o < v.cnt { src[o] } else { 0 };
        let r = w.p.push_slice_clone(&src).is_some();
        core::mem::forget(src);
        decided(r, v.cnt);
        if r && o < v.cnt { ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { v.cnt } else { 0 })
    }
    fn push_slice_2(w, q, v: P) {
        let src = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let r = w.p.push_slice(&src).is_some();
        decided(r, 2);
        if r && o < 2 { let x = src[o]; ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
    fn push_slice_clone_2(w, q, v: P) {
        let src = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let r = w.p.push_slice_clone(&src).is_some();
        decided(r, 2);
        if r && o < 2 { let x = src[o]; ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
    fn push_slice_init_2(w, q, v: P) {
        let src = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let r = w.p.push_slice_init(&src).is_some();
        decided(r, 2);
        if r && o < 2 { let x = src[o]; ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
    fn push_slice_clone_init_2(w, q, v: P) {
        let src = raw_array::<u8, 2>();
        let o = dist(q.n, q.idx, v.j);
        let r = w.p.push_slice_clone_init(&src).is_some();
        decided(r, 2);
        if r && o < 2 { let x = src[o]; ob!(c02 c03, g().given && g().out == x, "what was pushed is what is handed over"); }
        finish(w, &q, if r { 2 } else { 0 })
    }
    fn pop(w, q, v: C) {
        let r = w.c.pop();
        decided(r.is_some(), 1);
        if let Some(x) = r { fetched(&q, x); finish(w, &q, 1) } else { finish(w, &q, 0) }
    }
    fn pop_move(w, q, v: C) {
        let r = unsafe { w.c.pop_move() };
        decided(r.is_some(), 1);
        if let Some(x) = r { fetched(&q, x); finish(w, &q, 1) } else { finish(w, &q, 0) }
    }
    fn peek_ref(w, q, v: C) {
        let r = w.c.peek_ref();
        decided(r.is_some(), 1);
        if let Some(r) = r { at(&q, 0, 1, r); }
        finish(w, &q, 0)
    }
    fn peek_slice(w, q, v: C) {
        let r = w.c.peek_slice(v.cnt);
        decided(r.is_some(), v.cnt);
        if let Some(r) = r { let (a, t) = nth(r, v.i); ob!(c02 c03, t == v.cnt, "a window covers what was requested"); at(&q, v.i, t, a); }
        finish(w, &q, 0)
    }
    fn peek_available(w, q, v: C) {
        let r = w.c.peek_available();
        if let Some(r) = r { let (a, t) = nth(r, v.i); ob!(c02 c03, t <= g().known, "a window covers no more than what is owned"); at(&q, v.i, t, a); }
        else { ob!(c10, g().looks > 0 && g().seen == 0, "an operation is refused only if the iterator ahead has not published enough"); }
        finish(w, &q, 0)
    }
    fn copy_item(w, q, v: C) {
        let mut x = 0;
        let r = w.c.copy_item(&mut x).is_some();
        decided(r, 1);
        if r { fetched(&q, x) }
        finish(w, &q, r as usize)
    }
    fn clone_item(w, q, v: C) {
        let mut x = 0;
        let r = w.c.clone_item(&mut x).is_some();
        decided(r, 1);
        if r { fetched(&q, x) }
        finish(w, &q, r as usize)
    }
    fn copy_slice(w, q, v: C) {
        let mut dst = raw_vec::<u8>(v.cnt);
        let o = dist(q.n, q.idx, v.j);
        let r = w.c.copy_slice(&mut dst).is_some();
        decided(r, v.cnt);
        if r && o < v.cnt { let x = dst[o]; ob!(c02 c03, x == g().v, "what is read is what the iterator ahead released"); }
        core::mem::forget(dst);
        finish(w, &q, if r { v.cnt } else { 0 })
    }
    fn clone_slice(w, q, v: C) {
        let mut dst = raw_vec::<u8>(v.cnt);
        let o = dist(q.n, q.idx, v.j);
        let r = w.c.clone_slice(&mut dst).is_some();
        decided(r, v.cnt);
        if r && o < v.cnt { let x = dst[o]; ob!(c02 c03, x == g().v, "what is read is what the iterator ahead released"); }
        core::mem::forget(dst);
        finish(w, &q, if r { v.cnt } else { 0 })
    }
}
