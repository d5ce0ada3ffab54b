//! Stand-in for rand: every draw is an arbitrary value (a fresh solver variable).
use std::ops::{Bound, RangeBounds};
/// Draws of 4 octets and more are assumed to have one of the bits 23..30 set: ids which are cut from
/// them have one encoding length. For harnesses which are not about ids.
static mut WIDE: bool = false;
pub fn wide() {
    unsafe { WIDE = true }
}
fn draw_bytes<const N: usize>() -> [u8; N] {
    let b: [u8; N] = sxrt::bytes("rand");
    if unsafe { WIDE } && N >= 4 {
        sxrt::assume((b[3] & 0x7f != 0) | (b[2] & 0x80 != 0));
    }
    b
}
pub struct ThreadRng;
pub fn rng() -> ThreadRng {
    ThreadRng
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Draw>() -> T {
    T::draw()
}
pub fn random_range<T: DrawRange, R: RangeBounds<T>>(r: R) -> T {
    T::draw_range(r)
}
pub trait Draw {
    fn draw() -> Self;
}
pub trait DrawRange: Sized {
    fn draw_range<R: RangeBounds<Self>>(r: R) -> Self;
}
macro_rules! draw {
    ($($t:ty),*) => {$(
        impl Draw for $t { fn draw() -> Self { <$t>::from_le_bytes(draw_bytes()) } }
        impl DrawRange for $t {
            fn draw_range<R: RangeBounds<Self>>(r: R) -> Self {
                let v = <$t as Draw>::draw();
                let a = match r.start_bound() { Bound::Included(x) => v >= *x, Bound::Excluded(x) => v > *x, Bound::Unbounded => true };
                let b = match r.end_bound() { Bound::Included(x) => v <= *x, Bound::Excluded(x) => v < *x, Bound::Unbounded => true };
                sxrt::assume(a & b);
                v
            }
        }
    )*};
}
draw!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Draw for bool {
    fn draw() -> Self {
        sxrt::u8("rand") & 1 == 1
    }
}
impl<const N: usize> Draw for [u8; N] {
    fn draw() -> Self {
        sxrt::bytes("rand")
    }
}
pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        u32::draw()
    }
    fn next_u64(&mut self) -> u64 {
        u64::draw()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        sxrt::symbolic(dst, "rand")
    }
}
pub trait Rng: RngCore {
    fn random<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn random_range<T: DrawRange, R: RangeBounds<T>>(&mut self, r: R) -> T {
        T::draw_range(r)
    }
    fn fill(&mut self, dest: &mut [u8]) {
        sxrt::symbolic(dest, "rand")
    }
    fn random_bool(&mut self, _p: f64) -> bool {
        bool::draw()
    }
}
impl RngCore for ThreadRng {}
impl<T: RngCore + ?Sized> Rng for T {}
pub mod rngs {
    pub use super::ThreadRng;
}
pub mod prelude {
    pub use super::{Rng, RngCore, ThreadRng};
}
