//! Components of the replicated runtime, each driven apart with hostile and stress workloads.

mod comm;
mod hands;
mod snapshot;
mod storage;

use slog::{o, Discard, Logger};
use vcommon::Check;

fn logger() -> Logger {
    Logger::root(Discard, o!())
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    match property.as_str() {
        "C25" => vcommon::run(
            Check {
                property: "C25",
                quick_cases: 500_000,
                thorough_cases: 12_000_000,
                rule: comm::RULE_ATTEST,
                assumptions: &["Oak's verifiers and sessions are simulated: their contract, not their cryptography"],
                must_observe: &["acceptable", "unacceptable", "talked", "handshake_messages", "handshakes_completed", "handshake_meddled", "encrypted"],
            },
            comm::attest,
        ),
        "C26" => vcommon::run(
            Check {
                property: "C26",
                quick_cases: 500_000,
                thorough_cases: 12_000_000,
                rule: comm::RULE,
                assumptions: &["Oak's verifiers and sessions are simulated: their contract, not their cryptography"],
                must_observe: &[
                    "received", "calm_cases", "recoveries", "dropped", "replayed", "tampered", "forged", "redirected", "reordered", "overtakes", "junk", "restarts",
                ],
            },
            comm::run,
        ),
        "C27" => vcommon::run(
            Check {
                property: "C27",
                quick_cases: 3_000_000,
                thorough_cases: 60_000_000,
                rule: snapshot::RULE,
                assumptions: &["sessions between replicas authenticate and order messages (checked apart, C26)"],
                must_observe: &[
                    "completed", "finished", "failed", "cancelled", "chunks", "stale", "unexpected", "malformed", "calm_transfers", "resized", "removed", "left",
                ],
            },
            snapshot::run,
        ),
        "C28" => vcommon::run(
            Check {
                property: "C28",
                quick_cases: 1_200_000,
                thorough_cases: 60_000_000,
                rule: storage::RULE,
                assumptions: &["raft calls storage as its trait documents"],
                must_observe: &[
                    "appended", "overwritten", "snapshots_created", "snapshots_applied", "outdated", "reads", "requests_met",
                    "requests_pending", "misuse",
                ],
            },
            storage::run,
        ),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3)
        }
    }
}
