//! Stand-in for rand's OsRng: deterministic, given `det::seed`.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;

thread_local!(static STATE: Cell<u64> = const { Cell::new(0x243F6A8885A308D3) });
thread_local!(static SCRIPT: RefCell<VecDeque<u64>> = const { RefCell::new(VecDeque::new()) });

pub mod det {
    use super::*;
    pub fn seed(seed: u64) {
        STATE.with(|s| s.set(seed ^ 0x243F6A8885A308D3));
        SCRIPT.with(|s| s.borrow_mut().clear());
    }
    /// The next draws, before the generator takes over again.
    pub fn script(draws: impl IntoIterator<Item = u64>) {
        SCRIPT.with(|s| s.borrow_mut().extend(draws));
    }
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
}

pub mod rngs {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            if let Some(x) = super::SCRIPT.with(|s| s.borrow_mut().pop_front()) {
                return x;
            }
            super::STATE.with(|s| {
                let z0 = s.get().wrapping_add(0x9E3779B97F4A7C15);
                s.set(z0);
                let mut z = z0;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            })
        }
    }
}
