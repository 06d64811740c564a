#![allow(dead_code, unused, clippy::all)]
#[macro_use]
pub mod kx;
#[cfg(not(kani))]
pub mod native;
pub mod spec;
#[macro_use]
pub mod world;
#[macro_use]
pub mod ops;
#[macro_use]
pub mod det;
#[macro_use]
pub mod asy;
pub mod own;
pub mod ownsym;
pub mod life;
pub mod rel;

/// Item types of the harnesses.
pub trait Item: Copy + PartialEq + 'static + ArbItem {
    fn nth(i: usize) -> Self;
    fn num(self) -> usize;
}
#[cfg(kani)]
pub trait ArbItem: kani::Arbitrary {}
#[cfg(kani)]
impl<T: kani::Arbitrary> ArbItem for T {}
#[cfg(not(kani))]
pub trait ArbItem: native::Any {}
#[cfg(not(kani))]
impl<T: native::Any> ArbItem for T {}

impl Item for u8 { fn nth(i: usize) -> u8 { (i + 1) as u8 } fn num(self) -> usize { self as usize } }
impl Item for u32 { fn nth(i: usize) -> u32 { (i + 1) as u32 * 0x01010101 } fn num(self) -> usize { self as usize } }
