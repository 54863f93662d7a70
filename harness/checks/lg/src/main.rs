//! The remote logger, in its std and its no_std variant, under concurrent writers and takers.

extern crate tcp_runtime;
extern crate tcp_runtime_nostd;

use std::{
    collections::HashMap,
    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
};

use slog::{o, Level, Logger};
use tcp_proto::runtime::endpoint::{LogMessage, LogSeverity};
use vcommon::{ensure, mix, Check, Observed, Rng, Trace, Violation};

const LEVELS: [(Level, LogSeverity); 5] = [
    (Level::Critical, LogSeverity::Critical),
    (Level::Error, LogSeverity::Error),
    (Level::Warning, LogSeverity::Warning),
    (Level::Info, LogSeverity::Info),
    (Level::Debug, LogSeverity::Debug),
];

struct Entry {
    level: usize,
    text: String,
    pairs: Vec<String>,
}

/// Something that logs when it is printed, like a Display that has its own logger.
struct Slow(u64, bool);

impl std::fmt::Display for Slow {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.1 {
            std::thread::yield_now();
        }
        write!(f, "{}", self.0)
    }
}

fn write(logger: &Logger, level: usize, token: &str, a: u64, yields: bool) {
    let b = Slow(a, yields);
    match level {
        0 => slog::crit!(logger, "msg {}", token; "a" => a),
        1 => slog::error!(logger, "msg {}", token; "a" => a),
        2 => slog::warn!(logger, "msg {}", token; "a" => %b),
        3 => slog::info!(logger, "msg {}", token; "a" => %b),
        _ => slog::debug!(logger, "msg {}", token; "a" => a),
    }
}

fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let nostd = rng.pct(50);
    let mut obs = Observed::default();
    let (logger, take): (Logger, Box<dyn FnMut() -> Vec<LogMessage>>) = if nostd {
        let (logger, mut out) = tcp_runtime_nostd::logger::log::create_remote_logger();
        (logger, Box::new(move || out.take_entries()))
    } else {
        let (logger, mut out) = tcp_runtime::logger::log::create_remote_logger();
        (logger, Box::new(move || out.take_entries()))
    };
    let mut take = take;
    let threads = 1 + rng.usize(4);
    let per_thread = 1 + rng.usize(25);
    let yields = rng.pct(50);
    // What every thread will write, known beforehand.
    let mut plans: Vec<Vec<(Logger, Entry, u64, String)>> = Vec::new();
    for t in 0..threads {
        let mut log = logger.clone();
        let mut context = Vec::new();
        if rng.pct(60) {
            log = log.new(o!("scope" => format!("s{t}")));
            context.push(format!("scope: s{t}"));
        }
        let mut plan = Vec::new();
        for i in 0..per_thread {
            let (log, mut pairs) = if rng.pct(30) {
                let inner = format!("i{t}.{i}");
                let mut pairs = context.clone();
                pairs.push(format!("inner: {inner}"));
                (log.new(o!("inner" => inner)), pairs)
            } else {
                (log.clone(), context.clone())
            };
            let a = rng.below(1000);
            pairs.push(format!("a: {a}"));
            let token = format!("<{t}.{i}>{}", ["", "/", "ü", "\n", "{}"][rng.usize(5)]);
            let entry = Entry { level: rng.usize(5), text: format!("msg {token}"), pairs };
            plan.push((log, entry, a, token));
        }
        plans.push(plan);
    }
    trace.log(format!("no_std {nostd}, {threads} threads of {per_thread} entries"));
    let running = AtomicUsize::new(threads);
    let go = AtomicBool::new(false);
    let mut taken: Vec<Vec<LogMessage>> = Vec::new();
    let pause = rng.below(200);
    std::thread::scope(|scope| {
        for plan in &plans {
            let (running, go) = (&running, &go);
            scope.spawn(move || {
                while !go.load(Ordering::SeqCst) {
                    std::hint::spin_loop();
                }
                for (logger, entry, a, token) in plan {
                    write(logger, entry.level, token, *a, yields);
                }
                running.fetch_sub(1, Ordering::SeqCst);
            });
        }
        go.store(true, Ordering::SeqCst);
        while running.load(Ordering::SeqCst) > 0 {
            for _ in 0..pause {
                std::hint::spin_loop();
            }
            taken.push(take());
        }
    });
    taken.push(take());
    let again = take();
    ensure!(again.is_empty(), "taken_twice", "{} entries are handed out twice", again.len());

    let batches = taken.iter().filter(|b| !b.is_empty()).count();
    let all: Vec<LogMessage> = taken.into_iter().flatten().collect();
    obs.add("entries", all.len() as u64);
    obs.add("batches", batches as u64);
    obs.add(if nostd { "no_std_runs" } else { "std_runs" }, 1);
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut next = vec![0; threads];
    let mut switches = 0u64;
    let mut last = threads;
    for m in &all {
        let found = m.message.find('<').and_then(|i| {
            let rest = &m.message[i + 1..];
            let id = &rest[..rest.find('>')?];
            let (t, i) = id.split_once('.')?;
            Some((t.parse::<usize>().ok()?, i.parse::<usize>().ok()?))
        });
        let Some((t, i)) = found.filter(|(t, i)| *t < threads && *i < per_thread) else {
            return vcommon::violation("unknown_entry", format!("nobody wrote {m:?}"));
        };
        let n = seen.entry(format!("{t}.{i}")).or_default();
        *n += 1;
        ensure!(*n == 1, "duplicate_entry", "entry {t}.{i} is taken {n} times");
        ensure!(next[t] == i, "entry_order", "thread {t} wrote entry {} next, {i} is taken", next[t]);
        next[t] = i + 1;
        if t != last {
            switches += 1;
            last = t;
        }
        obs.fingerprint = mix(obs.fingerprint, t as u64);
        let entry = &plans[t][i].1;
        ensure!(
            m.severity == LEVELS[entry.level].1 as i32,
            "severity",
            "entry of level {:?} has severity {}",
            LEVELS[entry.level].0,
            m.severity
        );
        ensure!(m.message.contains(&entry.text), "text", "entry {:?} lacks {:?}", m.message, entry.text);
        for pair in &entry.pairs {
            ensure!(m.message.contains(pair.as_str()), "pair", "entry {:?} lacks {pair:?}", m.message);
        }
    }
    for (t, n) in next.iter().enumerate() {
        ensure!(*n == per_thread, "lost_entry", "{n} of {per_thread} entries of thread {t} are taken");
    }
    obs.add("switches", switches);
    obs.nontrivial = threads > 1 && batches > 1;
    obs.sample = format!("{threads} threads, {} entries in {batches} batches, {switches} switches", all.len());
    Ok(obs)
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    if property != "C32" {
        eprintln!("unknown property {property}");
        std::process::exit(3)
    }
    if std::env::var("VERIF_THREADS").is_err() {
        std::env::set_var("VERIF_THREADS", "3");
    }
    vcommon::run(
        Check {
            property: "C32",
            quick_cases: 60_000,
            thorough_cases: 800_000,
            rule: "A case is one run of 1-4 threads that write 1-25 entries each, through nested loggers and \
                at all levels, into one remote logger (half of them in the no_std variant) while another \
                thread takes entries. Non-trivial: several threads, entries taken in several batches. \
                Distinct by the order in which entries of threads are taken.",
            assumptions: &["interleavings are the operating system's, runs with equal seeds differ in them"],
            must_observe: &["entries", "switches", "std_runs", "no_std_runs"],
        },
        run,
    )
}
