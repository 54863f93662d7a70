//! Whether finished work leaves nothing behind: long runs of the real components, whose memory
//! has to level off. The allocator counts what the code under test allocates and doesn't free.

extern crate tcp_atomic_counter_service;
extern crate tcp_tablet_cache_service;
extern crate tcp_tablet_store_service;

mod alloc;
mod cluster;
#[path = "../../cl/src/identity.rs"]
mod identity;
mod keys;
mod tablets;

use vcommon::{Check, Observed, Rng, Trace, Violation};

/// What was held at the ends of windows of the same amount of work each.
pub struct Windows {
    held: Vec<i64>,
    work: u64,
    /// Bytes per piece of work which are too much to be left.
    per_work: i64,
}

impl Windows {
    pub fn new(work: u64, per_work: i64) -> Windows {
        Windows { held: vec![], work, per_work }
    }

    pub fn add(&mut self, held: i64, trace: &mut Trace) {
        self.held.push(held);
        trace.log(format!("{:?}", self.held));
    }

    /// Whether what is held has grown in step with the work since the first window: from the
    /// first to the second, and with each doubling of the work, so that buffers that grow by
    /// doubling have to grow, while what merely warms up doesn't.
    fn grows(&self) -> bool {
        let mut at = 1;
        while at * 2 <= self.held.len() {
            if self.held[at * 2 - 1] - self.held[at - 1] < (at as u64 * self.work) as i64 * self.per_work {
                return false;
            }
            at *= 2;
        }
        true
    }

    /// Four windows, or up to sixteen while it looks as if memory grew.
    pub fn more(&self) -> bool {
        self.held.len() < 4 || self.held.len() < 16 && self.grows()
    }

    pub fn judge(&self, what: &str, o: &mut Observed) -> Result<(), Violation> {
        let (first, last) = (self.held[0], *self.held.last().unwrap());
        o.add("windows", self.held.len() as u64);
        o.add("bytes_held", last as u64);
        o.add("bytes_grown", (last - first).max(0) as u64);
        o.see(vcommon::mix(first as u64, last as u64));
        vcommon::ensure!(!self.grows(), "grows", "{what}: bytes held after windows of {} pieces of work each: {:?}", self.work, self.held);
        Ok(())
    }
}

const RULE: &str = "Each case runs a component through four equal windows of work, up to sixteen in doubt, and compares the bytes which the code under \
test allocated and still holds once each window's work is finished: cache nodes and a tablet store with failures, conflicts and \
repeated messages; clusters of real replicas under clients, lost messages, elections, snapshots and replicas that come and go; \
decryptors. Non-trivial if all windows were finished.";

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    if property != "C37" {
        eprintln!("unknown property {property}");
        std::process::exit(3);
    }
    vcommon::run(
        Check {
            property: "C37",
            quick_cases: 300,
            thorough_cases: 6000,
            rule: RULE,
            assumptions: &["Oak's sessions are simulated: what they hold isn't judged", "hosts report chunks of snapshots that got no response as failed"],
            must_observe: &["answers", "contents_answered", "conflicts", "commands_answered", "replicas_replaced", "leader_changes", "transfers", "keys_generated", "keys_decrypted"],
        },
        |rng: &mut Rng, trace: &mut Trace| {
            let mut o = Observed::default();
            match rng.below(8) {
                0 => tablets::contents(rng, trace, &mut o)?,
                1..=2 => tablets::case(rng, trace, &mut o)?,
                3..=4 => cluster::traffic(rng, trace, &mut o)?,
                5..=6 => cluster::churn(rng, trace, &mut o)?,
                _ => keys::case(rng, trace, &mut o)?,
            }
            o.nontrivial = true;
            o.sample = trace.tail(3);
            Ok(o)
        },
    )
}
