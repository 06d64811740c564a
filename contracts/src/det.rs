//! Contracts of detached iterators: nothing is published until synchronised, local moves are
//! exact.
use mutringbuf::*;
use mutringbuf::iterators::*;
use crate::kx::*;
use crate::spec::*;
use crate::world::*;
use crate::ops::*;
use crate::Item;

/// `loc` is the local position from here on: anywhere between the published position (for a
/// worker: the consumer, up to which it may go back) and the iterator ahead, which was at `old`
/// when the subject looked.
pub fn local<const W: bool>(v: &In, s: Subj) -> In {
    let n = v.n;
    let l = any_lt(n);
    let old = any_lt(n);
    assume(match s {
        Subj::P => room(n, l, v.c) <= room(n, v.p, v.c) && room(n, l, old) <= room(n, l, v.c),
        Subj::W => dist(n, v.c, l) <= dist(n, v.c, v.p) && dist(n, l, old) <= dist(n, l, v.p) && dist(n, v.w, old) <= dist(n, v.w, v.p),
        Subj::C => dist(n, v.c, l) <= dist(n, v.c, v.w) && dist(n, l, old) <= dist(n, l, v.w),
    });
    In { loc: l, old, ..*v }
}
/// Distance from `l` to the iterator ahead.
pub fn ahead(v: &In, s: Subj, l: usize) -> usize {
    match s { Subj::P => room(v.n, l, v.c), Subj::W => dist(v.n, l, v.p), Subj::C => dist(v.n, l, v.w) }
}
pub struct PreD<T> { pub v: In, pub s: Subj, pub old_j: T, pub a: usize }

/// What the other iterators see: positions, availabilities, contents.
pub fn post_shared<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, q: &PreD<T>, published: usize) {
    let v = &q.v;
    let n = v.n;
    let (ep, ew, ec) = match q.s { Subj::P => (published, if W { v.w } else { published }, v.c), Subj::W => (v.p, published, v.c), Subj::C => (v.p, v.w, published) };
    let (pi, wi, ci) = (w.p.prod_index(), w.p.work_index(), w.p.cons_index());
    ob!(c12 c04, match q.s { Subj::P => pi == ep, Subj::W => wi == ew, Subj::C => ci == ec }, "the published index changes only by sync_index and attach, and then becomes the local one");
    ob!(c12 c04, match q.s { Subj::P => ci == ec && (!W || wi == ew), Subj::W => pi == ep && ci == ec, Subj::C => pi == ep && (!W || wi == ew) }, "no other published index moves");
    ob!(c12, w.slot(v.j) == q.old_j, "no slot changes");
    #[cfg(any(c12, c13))]
    {
        let (seen, expected) = match (q.s, W) {
            (Subj::P, true) => (w.available(Subj::W), dist(n, ew, ep)),
            (Subj::P, false) | (Subj::W, _) => (w.available(Subj::C), dist(n, ec, ew)),
            (Subj::C, _) => (w.available(Subj::P), room(n, ep, ec)),
        };
        ob!(c12, seen == expected, "the iterator behind sees the published position");
    }
}
/// What the subject itself finds at `l`.
macro_rules! post_own {
    ($d:expr, $w:expr, $q:expr, $l:expr, $a:expr) => {{
        let v = &$q.v;
        let l = $l;
        let a = $a;
        // Instance of a lemma of /verif/lemmas, for the iterator has moved by `a - q.a`.
        assume(a == ahead(v, $q.s, l));
        ob!(c12 c04, $d.index() == l, "the local position is exactly the requested one");
        let g = $d.get_workable_slice_exact(a + 1).is_some();
        ob!(c12 c04, !g, "nothing beyond the iterator ahead is granted afterwards");
        let av = $d.available();
        ob!(c12 c04, av == a, "available() is the true distance to the iterator ahead");
    }};
}
/// Reads the subject out of the world.
#[macro_export]
macro_rules! take {
    ($w:ident, P) => { core::ptr::read(&$w.p) };
    ($w:ident, C) => { core::ptr::read(&$w.c) };
    ($w:ident, W) => { core::ptr::read($w.w.as_ref().unwrap()) };
}

#[macro_export]
macro_rules! asy {
    ($w:ident, P) => { mutringbuf::iterators::AsyncProdIter::from_sync(unsafe { take!($w, P) }) };
    ($w:ident, W) => { mutringbuf::iterators::AsyncWorkIter::from_sync(unsafe { take!($w, W) }) };
    ($w:ident, C) => { mutringbuf::iterators::AsyncConsIter::from_sync(unsafe { take!($w, C) }) };
}
macro_rules! det {
    ($($m:ident: $s:ident)*) => { $( pub mod $m {
        use super::*;
        det_ops! { $s
            fn advance(w, d, q, v) {
                assume(v.cnt <= q.a);
                unsafe { d.advance(v.cnt) }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, wrap(v.n, v.loc + v.cnt), q.a - v.cnt);
            }
            fn go_back(w, d, q, v) {
                // Back to the published position, or the consumer.
                let back = match Subj::$s { Subj::W => dist(v.n, v.c, v.loc), s => dist(v.n, v.pos(s), v.loc) };
                assume(v.cnt <= back);
                unsafe { d.go_back(v.cnt) }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, if v.loc >= v.cnt { v.loc - v.cnt } else { v.loc + v.n - v.cnt }, q.a + v.cnt);
            }
            fn set_index(w, d, q, v) {
                let to = super::local::<true>(v, Subj::$s).loc;
                unsafe { d.set_index(to) }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, to, ahead(v, Subj::$s, to));
            }
            fn reset_index(w, d, q, v) {
                d.reset_index();
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, wrap(v.n, v.loc + q.a), 0);
            }
            fn sync_index(w, d, q, v) {
                d.sync_index();
                post_shared(w, &q, v.loc);
                post_own!(d, w, q, v.loc, q.a);
            }
            fn attach(w, d, q, v) {
                let mut it = core::mem::ManuallyDrop::into_inner(d).attach();
                post_shared(w, &q, v.loc);
                post_own!(it, w, q, v.loc, q.a);
                // Attached again: what it does from now on is published.
                let k = if v.cnt <= q.a { v.cnt } else { 0 };
                unsafe { it.advance(k) }
                let i = match Subj::$s { Subj::P => it.prod_index(), Subj::W => it.work_index(), Subj::C => it.cons_index() };
                ob!(c12, i == wrap(v.n, v.loc + k), "an attached iterator publishes again");
                core::mem::forget(it);
            }
            fn get_workable(w, d, q, v) {
                let r = d.get_workable();
                ob!(c12, r.is_some() == (q.a > 0), "granted as available");
                if let Some(r) = r { let at: *mut T = r; ob!(c12, at == unsafe { w.base.add(v.loc) }, "the reference is to the slot at the local position"); }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn exact(w, d, q, v) {
                let r = d.get_workable_slice_exact(v.cnt);
                ob!(c12, v.cnt == 0 || r.is_some() == (v.cnt <= q.a), "granted as available");
                if let Some(r) = r { let (at, _, total) = geom(ro!(r), 0); ob!(c12, total == v.cnt && (total == 0 || at == unsafe { w.base.add(v.loc) } as *const _), "the window is the requested one, from the local position"); }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn avail(w, d, q, v) {
                let r = d.get_workable_slice_avail();
                ob!(c12, r.is_some() == (q.a > 0), "granted as available");
                if let Some(r) = r { let (at, _, total) = geom(ro!(r), 0); ob!(c12, total == q.a && (total == 0 || at == unsafe { w.base.add(v.loc) } as *const _), "the window is the requested one, from the local position"); }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn multiple(w, d, q, v) {
                let by = if v.x & 8 == 0 { 1 } else { 4 };
                let k = if by == 1 { q.a } else { q.a & !3 };
                let r = d.get_workable_slice_multiple_of(by);
                ob!(c12, r.is_some() == (k > 0), "granted as available");
                if let Some(r) = r { let (at, _, total) = geom(ro!(r), 0); ob!(c12, total == k && (total == 0 || at == unsafe { w.base.add(v.loc) } as *const _), "the window is the requested one, from the local position"); }
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn available(w, d, q, v) {
                let a = d.available();
                ob!(c12, a == q.a, "available() is the true distance to the iterator ahead");
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn wait_for(w, d, q, v) {
                assume(v.cnt <= q.a);
                d.wait_for(v.cnt);
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
            fn observe(w, d, q, v) {
                let (p, w_, c, x) = (d.prod_index(), d.work_index(), d.cons_index(), d.index());
                ob!(c12, p == v.p && (!W || w_ == v.w) && c == v.c && x == v.loc && d.buf_len() == v.n, "indices are reported as they are");
                ob!(c12, d.is_prod_alive() && d.is_cons_alive() && d.is_work_alive() == W, "liveness flags are those of the iterators that exist");
                post_shared(w, &q, v.pos(Subj::$s));
                post_own!(d, w, q, v.loc, q.a);
            }
        }
        /// The asynchronous detached iterator: only moves and synchronisation.
        pub mod asy {
            use super::*;
            use mutringbuf::iterators::async_iterators::AsyncIterator;
            pub const S: Subj = Subj::$s;
            pub fn moves<B: MutRB<Item = T>, T: Item, const W: bool>(w: &mut World<B, T, W>, v: &In) {
                w.reach(v, S);
                let n = v.n;
                let mut q = PreD { v: *v, s: S, old_j: w.slot(v.j), a: v.avail(S) };
                let mut d = asy!(w, $s).detach();
                assume(v.cnt <= q.a);
                unsafe { d.advance(v.cnt) }
                assume(v.m <= v.cnt);
                unsafe { d.go_back(v.m) }
                post_shared(w, &q, v.pos(S));
                let l = wrap(n, v.pos(S) + (v.cnt - v.m));
                if v.look { d.sync_index(); post_shared(w, &q, l); }
                let mut it = d.attach().into_sync();
                post_shared(w, &q, l);
                post_own!(it, w, q, l, q.a - (v.cnt - v.m));
                core::mem::forget(it);
            }
            variants!(moves, S);
        }
    } )* };
}
macro_rules! det_ops {
    ($s:ident $(fn $f:ident($w:ident, $d:ident, $q:ident, $v:ident) $b:block)*) => { $(
        pub mod $f {
            use super::*;
            pub const S: Subj = Subj::$s;
            pub fn body<B: MutRB<Item = T>, T: Item, const W: bool>($w: &mut World<B, T, W>, v: &In) {
                let v = super::super::local::<W>(v, S);
                let $v = &v;
                $w.reach_old($v, S);
                let mut $d = core::mem::ManuallyDrop::new(unsafe { take!($w, $s).detach() });
                if $v.loc != $v.pos(S) || $v.look { unsafe { $d.set_index($v.loc) } }
                if $v.look { $d.available(); }
                $w.reach_new($v, S);
                let $q = PreD { v: *$v, s: S, old_j: $w.slot($v.j), a: ahead($v, S, $v.loc) };
                $b
            }
            variants!(body, S);
        }
    )* };
}
det! { prod: P  work: W  cons: C }
