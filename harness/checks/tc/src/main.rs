//! Checks of the tablet cache.

extern crate tcp_tablet_cache_service;
extern crate tcp_tablet_store_service;

mod data;
mod meta;
mod model;
mod world;

use vcommon::{Check, Rng};
use world::{Faults, Plan};

const WORLD_RULE: &str = "A case is one random run of 1-3 cache nodes over 1-2 tables: random \
    transactions (several process calls, reads and writes, aborts) while the store and the blob \
    storage delay, reorder, duplicate, reject, fail or tamper, then calm and a probe of every \
    node. Non-trivial: at least one commit and at least one conflict, failure or tampered blob. \
    Distinct by outcomes and final contents.";

const WORLD_ASSUMPTIONS: &[&str] = &[
    "the Tablet Store is the check's own model of its interface (the real one is checked apart)",
    "tables and their tablets stay the same, as adding and removing tablets is not implemented",
];

const DATA_RULE: &str = "A case is one random run of the data cache alone (80%) or of whole cache \
    nodes: overlapping batches of loads and stores of new, old, never written and equal blobs, \
    while the storage delays, reorders, fails, tampers and repeats its answers. Non-trivial: some \
    batches succeed and some fail. Distinct by the results of all batches.";

fn faults(rng: &mut Rng) -> Faults {
    let mut f = Faults { delay: rng.below(6), ..Default::default() };
    let mut some = |p: u64, max: u64| if rng.pct(p) { rng.range(1, max) } else { 0 };
    f.load_fail = some(40, 25);
    f.store_fail = some(40, 25);
    f.exec_reject = some(40, 25);
    f.exec_ambiguous = some(25, 20);
    f.exec_invalid = some(20, 15);
    f.duplicate = some(40, 30);
    f.unknown = some(30, 20);
    f.tamper = some(25, 30);
    f
}

fn plan(rng: &mut Rng) -> Plan {
    Plan {
        faults: faults(rng),
        steps: rng.range(20, 90),
        nodes: rng.range(1, 3) as usize,
        tables: rng.range(1, 2) as usize,
        tablets: rng.range(1, 5) as usize,
        txn_pct: rng.range(10, 60),
        resolve_pct: rng.below(15),
        write_pct: rng.range(20, 80),
    }
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    let check = |property, must_observe| Check {
        property,
        quick_cases: 40_000,
        thorough_cases: 2_000_000,
        rule: WORLD_RULE,
        assumptions: WORLD_ASSUMPTIONS,
        must_observe,
    };
    match property.as_str() {
        "C01" => vcommon::run(
            check("C01", &["committed", "conflicts", "committed_reads_judged"]),
            |rng, trace| {
                let mut p = plan(rng);
                p.nodes = rng.range(2, 3) as usize;
                world::run("C01", p, rng, trace)
            },
        ),
        "C02" => vcommon::run(
            check("C02", &["committed", "failed", "rejected_requests", "ambiguous_errors"]),
            |rng, trace| {
                let p = plan(rng);
                world::run("C02", p, rng, trace)
            },
        ),
        "C03" => vcommon::run(check("C03", &["updates_judged", "store_failures"]), |rng, trace| {
            let mut p = plan(rng);
            p.faults.store_fail = rng.below(40);
            world::run("C03", p, rng, trace)
        }),
        "C04" => vcommon::run(check("C04", &["keys_mapped", "resolves"]), |rng, trace| {
            if rng.pct(50) {
                return meta::run("C04", rng, trace);
            }
            let mut p = plan(rng);
            p.resolve_pct = rng.range(10, 80);
            p.tablets = rng.range(1, 9) as usize;
            world::run("C04", p, rng, trace)
        }),
        "C05" => vcommon::run(check("C05", &["probes", "probes_repeated", "conflicts"]), |rng, trace| {
            if rng.pct(50) {
                return meta::run("C05", rng, trace);
            }
            let p = plan(rng);
            world::run("C05", p, rng, trace)
        }),
        "C06" => vcommon::run(check("C06", &["tampered_blobs", "tablets_observed"]), |rng, trace| {
            let mut p = plan(rng);
            p.faults.tamper = rng.range(10, 60);
            p.nodes = rng.range(2, 3) as usize;
            world::run("C06", p, rng, trace)
        }),
        "C07" => vcommon::run(
            Check {
                rule: DATA_RULE,
                ..check("C07", &["batches_succeeded", "batches_failed", "tampered_loads"])
            },
            |rng, trace| {
                if rng.pct(20) {
                    let p = plan(rng);
                    return world::run("C07", p, rng, trace);
                }
                data::run(rng, trace)
            },
        ),
        "C08" => vcommon::run(check("C08", &["probes", "committed", "failed"]), |rng, trace| {
            let p = plan(rng);
            world::run("C08", p, rng, trace)
        }),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3)
        }
    }
}
