//! The part of ark-std the repository uses: std re-exports, rand 0.8, UniformRand.
pub use std::*;
pub mod rand {
    pub use ::rand::*;
}
pub use rand::RngCore as _;
pub trait UniformRand: Sized {
    fn rand<R: ::rand::RngCore + ?Sized>(rng: &mut R) -> Self;
}
pub use num::{One, Zero};
pub mod num {
    use std::ops::{Add, Mul};
    pub trait Zero: Sized + Add<Self, Output = Self> {
        fn zero() -> Self;
        fn is_zero(&self) -> bool;
        fn set_zero(&mut self) { *self = Self::zero() }
    }
    pub trait One: Sized + Mul<Self, Output = Self> {
        fn one() -> Self;
        fn is_one(&self) -> bool where Self: PartialEq { *self == Self::one() }
        fn set_one(&mut self) { *self = Self::one() }
    }
}
