#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant {
    millis: i64,
}

impl Instant {
    pub const fn from_unix_millis(millis: i64) -> Self {
        Self { millis }
    }
    pub const fn into_unix_millis(self) -> i64 {
        self.millis
    }
}

pub const UNIX_EPOCH: Instant = Instant::from_unix_millis(0);

pub trait Clock: Send + Sync {
    fn get_time(&self) -> Instant;
}

pub mod clock {
    use super::*;
    #[derive(Clone, Copy, Debug)]
    pub struct FixedClock {
        instant: Instant,
    }
    impl FixedClock {
        pub const fn at_instant(instant: Instant) -> Self {
            Self { instant }
        }
    }
    impl Clock for FixedClock {
        fn get_time(&self) -> Instant {
            self.instant
        }
    }
}
