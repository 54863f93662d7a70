//! Clusters of real replicas (driver, consensus, storage, snapshots, sessions, actors) on
//! uncooperative hosts, with monitors over everything that happens in and leaves them.

extern crate tcp_atomic_counter_service;

mod counters;
mod identity;
mod ledger;
mod lone;
mod plain;
mod watch;
mod world;

use std::cell::RefCell;

use ledger::{Ledger, Options};
use prost::bytes::Bytes;
use vcommon::{Check, Observed, Rng, Trace, Violation};
use identity::reference;
use world::{Mode, World};

thread_local! {
    static FOCUS: RefCell<&'static str> = const { RefCell::new("") };
}

/// The property the running check decides.
pub fn focus() -> &'static str {
    FOCUS.with(|f| *f.borrow())
}

fn mode(focus: &str, rng: &mut Rng) -> Mode {
    let mut m = Mode {
        unordered: rng.pct(20),
        lossy: rng.pct(40),
        hostile: rng.pct(20),
        crashes: rng.pct(60),
        membership: rng.pct(50),
        partitions: rng.pct(50),
        reckless: rng.pct(10),
        remote_logs: rng.pct(5),
        impostor: false,
        disguises: false,
        patient: focus == "C36",
        ticks: *rng.pick(&[0, 0, 5, 30]),
        pad: *rng.pick(&[0, 30, 300]),
        replicas: *rng.pick(&[1, 2, 3, 3, 3, 4, 5]),
    };
    match focus {
        "C19" => m.crashes = true,
        "C23" => {
            m.hostile = true;
            m.impostor = rng.pct(30);
        }
        "C24" => {
            m.hostile = rng.pct(50);
            m.impostor = rng.pct(30);
            m.remote_logs = rng.pct(50);
        }
        "C33" => m.membership = true,
        "C36" => m.replicas = *rng.pick(&[2, 3, 3, 3, 4, 5]),
        _ => {}
    }
    // Not where recovery is judged.
    m.disguises = matches!(focus, "C18" | "C19" | "C20" | "C23" | "C24") && m.hostile && rng.pct(50);
    m
}

fn cluster(focus: &'static str) -> impl Fn(&mut Rng, &mut Trace) -> Result<Observed, Violation> {
    move |rng, trace| {
        FOCUS.with(|f| *f.borrow_mut() = focus);
        let mode = mode(focus, rng);
        trace.log(format!("{mode:?}"));
        let app_config = Bytes::from(rng.bytes(5));
        let config = app_config.clone();
        let mut w: World<Ledger> = World::new(
            mode,
            rng,
            Box::new(move |shared, id, rng, mode: &Mode| {
                Ledger::new(shared.clone(), rng, Options {
                    id,
                    config: config.clone(),
                    reference: reference(),
                    ticks: mode.ticks,
                    reckless: mode.reckless,
                    pad: mode.pad,
                    ephemeral: false,
                })
            }),
        );
        w.app_config = app_config;
        trace.log(format!("{:?}", w.config));
        let result = story(&mut w, rng, trace);
        match result {
            // Violates some other property only.
            Err(v) if v.signature.is_empty() => {}
            other => other?,
        }
        let mut o = w.finish();
        o.nontrivial = o.get("commits") > 3;
        o.sample = trace.tail(4);
        Ok(o)
    }
}

fn counter(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    FOCUS.with(|f| *f.borrow_mut() = "C17");
    let mode = mode("C17", rng);
    counters::case(mode, rng, trace)
}

fn ephemeral(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    FOCUS.with(|f| *f.borrow_mut() = "C30");
    lone::case(true, rng, trace)
}

fn lifecycle(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    FOCUS.with(|f| *f.borrow_mut() = "C31");
    match rng.below(20) {
        0 => cluster("C31")(rng, trace),
        n => lone::case(n % 2 == 0, rng, trace),
    }
}

fn story(w: &mut World<Ledger>, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
    w.bootstrap(rng, trace)?;
    for phase in 0..rng.range(1, 2) {
        let steps = rng.range(20, 500);
        for _ in 0..steps {
            w.step(&mut |w, at, rng, trace| w.client(at, rng, trace).map(|_| ()), rng, trace)?;
        }
        w.settle(&format!("after phase {phase}"), rng, trace)?;
        w.serve(rng, trace)?;
        w.audit()?;
    }
    Ok(())
}

const RULE: &str = "Each case runs 1 to 7 real replicas over a simulated Oak on hosts that delay, reorder, drop, repeat, tamper \
with and forge messages, partition, skew clocks, crash minorities, change membership and send commands, for up to 500 steps, \
then calm down; repeated up to twice. Non-trivial if more than 3 entries were committed.";

const ASSUMPTIONS: &[&str] = &[
    "Oak's verifiers and sessions are simulated: their contract, not their cryptography",
    "a crashed replica doesn't come back under its old id, a majority of every membership stays alive",
    "hosts report chunks of snapshots that got no response as failed",
];

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    let check = |property, quick_cases, must_observe| Check {
        property,
        quick_cases,
        thorough_cases: quick_cases * 20,
        rule: RULE,
        assumptions: ASSUMPTIONS,
        must_observe,
    };
    match property.as_str() {
        "C17" => vcommon::run(check("C17", 60_000, &["requests", "swapped", "not_swapped", "rejected", "linearized_histories", "reads", "leader_changes", "snapshots_loaded", "crashes"]), counter),
        "C18" => vcommon::run(check("C18", 60_000, &["commits", "applied", "leader_changes", "snapshots_loaded", "partitions", "crashes", "lost"]), cluster("C18")),
        "C19" => vcommon::run(check("C19", 60_000, &["acknowledged", "crashes", "leader_changes", "snapshots_loaded"]), cluster("C19")),
        "C20" => vcommon::run(check("C20", 60_000, &["applied", "replies", "acknowledged", "leader_changes"]), cluster("C20")),
        "C22" => vcommon::run(check("C22", 60_000, &["served", "calms", "crashes", "partitions", "lost", "leader_changes"]), cluster("C22")),
        "C23" => vcommon::run(check("C23", 60_000, &["altered", "redirected", "repeated", "forged", "disguised", "commits", "raft_messages_matched"]), cluster("C23")),
        "C24" => vcommon::run(check("C24", 40_000, &["messages_searched", "log_messages", "snapshots_loaded", "commits"]), cluster("C24")),
        "C29" => vcommon::run(check("C29", 60_000, &["snapshots_saved", "snapshots_loaded", "snapshots_sent", "states_checked"]), cluster("C29")),
        "C30" => vcommon::run(check("C30", 1_000_000, &["started", "commands", "applied", "refused", "raft_messages_to_ephemeral", "misplaced", "served"]), ephemeral),
        "C31" => vcommon::run(check("C31", 200_000, &["started", "stopped", "second_starts", "misplaced", "refused", "actor_failures", "served"]), lifecycle),
        "C36" => vcommon::run(check("C36", 60_000, &["lameduck_leaders", "lameduck_followers", "lameduck_votes", "lameduck_appends", "lameducks_released", "served"]), cluster("C36")),
        "C33" => vcommon::run(check("C33", 60_000, &["membership_changes", "changes_accepted", "changes_rejected", "cluster_reports"]), cluster("C33")),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3)
        }
    }
}
