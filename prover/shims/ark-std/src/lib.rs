//! Stand-in for the parts of `ark-std` used here (not in the offline cache).
pub use num_traits::{One, Zero};
pub use rand;
pub use rand::rngs::StdRng;
pub use std::*;

pub fn test_rng() -> impl rand::Rng + rand::RngCore {
    use rand::SeedableRng;
    let seed = [1, 0, 0, 0, 23, 0, 0, 0, 200, 1, 0, 0, 210, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    rand::rngs::StdRng::from_seed(seed)
}
/// ceil(log2(x)), 0 for 0
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        usize::BITS - 1 - x.leading_zeros()
    } else {
        usize::BITS - x.leading_zeros()
    }
}
pub mod iterable {
    pub trait Iterable {
        type Item;
        type Iter: Iterator<Item = Self::Item>;
        fn iter(&self) -> Self::Iter;
        fn len(&self) -> usize;
    }
    impl<I> Iterable for I
    where
        I: IntoIterator + Copy,
        I::IntoIter: ExactSizeIterator,
    {
        type Item = <I as IntoIterator>::Item;
        type Iter = <I as IntoIterator>::IntoIter;
        fn iter(&self) -> Self::Iter {
            self.into_iter()
        }
        fn len(&self) -> usize {
            self.into_iter().len()
        }
    }
}
pub struct TimerInfo;
#[macro_export]
macro_rules! start_timer {
    ($msg:expr) => {{
        let _ = || $msg();
        $crate::TimerInfo
    }};
}
#[macro_export]
macro_rules! end_timer {
    ($time:expr) => {
        let _ = &$time;
    };
    ($time:expr, $msg:expr) => {
        let _ = (&$time, || $msg());
    };
}
