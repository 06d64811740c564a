//! Contracts of the operations of one thread of a pipeline, whatever the other threads do between
//! any two of its atomic accesses. See vcore/src/ghost.rs for rely and guarantee.
#![allow(dead_code, unused, clippy::all)]
#[macro_use]
extern crate vcore;
pub use vcore::{ghost, kx, spec};
#[cfg(not(kani))]
pub use vcore::native;
#[path = "../../contracts/src/world.rs"]
pub mod world;
#[macro_use]
pub mod step;
pub mod asy;
pub mod drops;

pub trait Item: Copy + PartialEq + 'static + ArbItem {
    fn nth(i: usize) -> Self;
    fn num(self) -> usize;
}
#[cfg(kani)]
pub trait ArbItem: kani::Arbitrary {}
#[cfg(kani)]
impl<T: kani::Arbitrary> ArbItem for T {}
#[cfg(not(kani))]
pub trait ArbItem: native::Any {}
#[cfg(not(kani))]
impl<T: native::Any> ArbItem for T {}
impl Item for u8 { fn nth(i: usize) -> u8 { (i + 1) as u8 } fn num(self) -> usize { self as usize } }
