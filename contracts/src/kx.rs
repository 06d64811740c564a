//! The only interface of the harnesses to the verifier (Kani), or to the native replay
//! (`--cfg replay`), where `any` yields recorded or random values.
#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
#[cfg(kani)]
pub fn assume(c: bool) { kani::assume(c) }
#[cfg(not(kani))]
pub use crate::native::{any, assume};

/// Largest buffer length considered: far above anything that can be allocated for one byte per
/// item on the machines in question, low enough for sums of two lengths not to overflow.
#[cfg(all(not(small), thorough))]
pub const MAX_LEN: usize = 1 << 40;
/// In the quick tier, to save time.
#[cfg(all(not(small), not(thorough)))]
pub const MAX_LEN: usize = 1 << 20;
#[cfg(small)]
pub const MAX_LEN: usize = 5;

/// Marks a place that must be reachable, lest what precedes it hold vacuously.
#[cfg(kani)]
#[macro_export]
macro_rules! reached { ($m:literal) => { kani::cover!(true, $m) } }
#[cfg(not(kani))]
#[macro_export]
macro_rules! reached { ($m:literal) => {} }

pub fn any_le(max: usize) -> usize { let x: usize = any(); assume(x <= max); x }
pub fn any_lt(n: usize) -> usize { let x: usize = any(); assume(x < n); x }

/// Obligation `$m`, which is a part of the contract that properties `$p...` rest on.
#[macro_export]
macro_rules! ob {
    ($($p:ident)+, $c:expr, $m:literal) => {
        #[cfg(any($($p),+))]
        {
            let holds: bool = $c;
            #[cfg(kani)]
            kani::assert(holds, concat!("OB:", $m));
            #[cfg(not(kani))]
            $crate::native::check(holds, concat!("OB:", $m));
        }
    };
}
