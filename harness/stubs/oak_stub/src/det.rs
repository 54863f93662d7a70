use std::cell::Cell;
thread_local!(static STATE: Cell<u64> = const { Cell::new(0x243F6A8885A308D3) });

/// Seeds every random choice of the simulated Oak of this thread.
pub fn seed(seed: u64) {
    STATE.with(|s| s.set(seed ^ 0x243F6A8885A308D3));
}

pub fn next() -> u64 {
    STATE.with(|s| {
        let z0 = s.get().wrapping_add(0x9E3779B97F4A7C15);
        s.set(z0);
        let mut z = z0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
