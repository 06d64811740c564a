//! Stands in for `core` in the code under contract: everything is that of `core`, except that
//! atomic accesses and fences are steps of a thread among others. What the others may do
//! between two steps, and what a step has to guarantee to them, is in `ghost`.
#![allow(dead_code, unused, clippy::all)]
pub use ::core::*;

#[macro_use]
#[path = "../../../contracts/src/kx.rs"]
pub mod kx;
#[cfg(not(kani))]
#[path = "../../../contracts/src/native.rs"]
pub mod native;
#[path = "../../../contracts/src/spec.rs"]
pub mod spec;
pub mod ghost;

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use crate::ghost;
        use ::core::cell::UnsafeCell;

        pub fn fence(o: Ordering) { assert!(o != Ordering::Relaxed, "there is no such thing as a relaxed fence"); ghost::fence(o) }
        /// Constrains the compiler only: nothing is synchronised.
        pub fn compiler_fence(o: Ordering) {}

        macro_rules! atomic { ($t:ident, $v:ty, $to:expr, $from:expr; $($arith:ident = $op:expr),*) => {
            #[repr(transparent)]
            pub struct $t { v: UnsafeCell<$v> }
            unsafe impl Sync for $t {}
            unsafe impl Send for $t {}
            impl Default for $t { fn default() -> Self { Self::new(Default::default()) } }
            impl From<$v> for $t { fn from(v: $v) -> Self { Self::new(v) } }
            impl ::core::fmt::Debug for $t { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!($t)) } }
            impl $t {
                pub const fn new(v: $v) -> Self { Self { v: UnsafeCell::new(v) } }
                fn at(&self) -> *const u8 { self.v.get() as *const u8 }
                pub fn load(&self, o: Ordering) -> $v {
                    assert!(!matches!(o, Ordering::Release | Ordering::AcqRel), "there is no such thing as a release load");
                    let x = ghost::load(self.at(), ($to)(unsafe { *self.v.get() }), o);
                    ghost::after();
                    ($from)(x)
                }
                pub fn store(&self, x: $v, o: Ordering) {
                    assert!(!matches!(o, Ordering::Acquire | Ordering::AcqRel), "there is no such thing as an acquire store");
                    ghost::store(self.at(), ($to)(x), o);
                    unsafe { *self.v.get() = x }
                    ghost::after();
                }
                fn rmw(&self, o: Ordering, f: impl FnOnce($v) -> $v) -> $v {
                    let old = ($from)(ghost::rmw_load(self.at(), ($to)(unsafe { *self.v.get() }), o));
                    let new = f(old);
                    unsafe { *self.v.get() = new }
                    ghost::rmw_store(self.at(), ($to)(old), ($to)(new), o);
                    ghost::after();
                    old
                }
                pub fn swap(&self, x: $v, o: Ordering) -> $v { self.rmw(o, |_| x) }
                pub fn compare_exchange(&self, a: $v, b: $v, ok: Ordering, no: Ordering) -> Result<$v, $v> {
                    let old = ($from)(ghost::rmw_load(self.at(), ($to)(unsafe { *self.v.get() }), ok));
                    if old == a { unsafe { *self.v.get() = b } ghost::rmw_store(self.at(), ($to)(a), ($to)(b), ok); ghost::after(); Ok(old) } else { ghost::after(); Err(old) }
                }
                pub fn compare_exchange_weak(&self, a: $v, b: $v, ok: Ordering, no: Ordering) -> Result<$v, $v> {
                    if ghost::fails() { return Err(self.load(no)) }
                    self.compare_exchange(a, b, ok, no)
                }
                pub fn fetch_update<F: FnMut($v) -> Option<$v>>(&self, ok: Ordering, no: Ordering, mut f: F) -> Result<$v, $v> {
                    let mut prev = self.load(no);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, ok, no) { x @ Ok(_) => return x, Err(p) => prev = p }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $v { self.v.get_mut() }
                pub fn into_inner(self) -> $v { self.v.into_inner() }
                pub const fn as_ptr(&self) -> *mut $v { self.v.get() }
                $(pub fn $arith(&self, x: $v, o: Ordering) -> $v { self.rmw(o, |a| ($op)(a, x)) })*
            }
        } }
        atomic!(AtomicUsize, usize, |x: usize| x, |x: usize| x;
            fetch_add = |a: usize, b: usize| a.wrapping_add(b), fetch_sub = |a: usize, b: usize| a.wrapping_sub(b), fetch_and = |a, b| a & b, fetch_or = |a, b| a | b,
            fetch_xor = |a, b| a ^ b, fetch_nand = |a: usize, b: usize| !(a & b), fetch_max = |a: usize, b: usize| a.max(b), fetch_min = |a: usize, b: usize| a.min(b));
        atomic!(AtomicBool, bool, |x: bool| x as usize, |x: usize| x != 0;
            fetch_and = |a, b| a & b, fetch_or = |a, b| a | b, fetch_xor = |a, b| a ^ b, fetch_nand = |a: bool, b: bool| !(a & b));
        impl AtomicBool { pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(o, |a| !a) } }
        atomic!(AtomicU8, u8, |x: u8| x as usize, |x: usize| x as u8;
            fetch_add = |a: u8, b: u8| a.wrapping_add(b), fetch_sub = |a: u8, b: u8| a.wrapping_sub(b), fetch_and = |a, b| a & b, fetch_or = |a, b| a | b, fetch_xor = |a, b| a ^ b);
        atomic!(AtomicU32, u32, |x: u32| x as usize, |x: usize| x as u32;
            fetch_add = |a: u32, b: u32| a.wrapping_add(b), fetch_sub = |a: u32, b: u32| a.wrapping_sub(b), fetch_and = |a, b| a & b, fetch_or = |a, b| a | b, fetch_xor = |a, b| a ^ b);
        atomic!(AtomicU64, u64, |x: u64| x as usize, |x: usize| x as u64;
            fetch_add = |a: u64, b: u64| a.wrapping_add(b), fetch_sub = |a: u64, b: u64| a.wrapping_sub(b), fetch_and = |a, b| a & b, fetch_or = |a, b| a | b, fetch_xor = |a, b| a ^ b);
        atomic!(AtomicIsize, isize, |x: isize| x as usize, |x: usize| x as isize;
            fetch_add = |a: isize, b: isize| a.wrapping_add(b), fetch_sub = |a: isize, b: isize| a.wrapping_sub(b));
    }
}
