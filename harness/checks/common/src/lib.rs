//! What every check shares: seeded randomness, case execution with panic capture, the
//! three-valued verdict, known findings, replay files and evidence.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet, VecDeque},
    fmt::Write as _,
    fs,
    io::Write as _,
    os::fd::FromRawFd,
    panic::{self, AssertUnwindSafe},
    sync::{
        Arc,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

// ---------------------------------------------------------------------------------------
// Randomness

/// Small deterministic generator (splitmix64), one per case.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n, 0 for n == 0.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True in p cases out of 100.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            items.swap(i, self.usize(i + 1));
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b.rotate_left(17));
    r.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------------------------------
// Cases

/// The last events of a case, which go into the replay file when it fails.
pub struct Trace {
    events: VecDeque<String>,
    pub count: u64,
    echo: bool,
}

impl Trace {
    fn new(echo: bool) -> Trace {
        Trace { events: VecDeque::new(), count: 0, echo }
    }
    pub fn log(&mut self, event: impl Into<String>) {
        let event = event.into();
        if self.echo {
            say(&event);
        }
        self.count += 1;
        if self.events.len() == 3000 {
            self.events.pop_front();
        }
        self.events.push_back(event);
    }
    pub fn tail(&self, n: usize) -> String {
        let skip = self.events.len().saturating_sub(n);
        self.events.iter().skip(skip).cloned().collect::<Vec<_>>().join("; ")
    }
}

pub struct Violation {
    /// Stable name of what failed, which known findings are matched against.
    pub signature: String,
    pub message: String,
}

pub fn violation<T>(signature: &str, message: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { signature: signature.to_string(), message: message.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Violation { signature: $sig.to_string(), message: format!($($arg)*) });
        }
    };
}

/// What one case observed.
#[derive(Default)]
pub struct Observed {
    pub counters: BTreeMap<&'static str, u64>,
    /// Identifies the behaviour seen, equal fingerprints count as one distinct case.
    pub fingerprint: u64,
    pub nontrivial: bool,
    pub sample: String,
    /// Violations that did not end the case, for findings which are listed as known.
    pub soft: Vec<Violation>,
}

impl Observed {
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    pub fn see(&mut self, x: u64) {
        self.fingerprint = mix(self.fingerprint, x);
    }
}

pub struct Check {
    pub property: &'static str,
    pub quick_cases: usize,
    pub thorough_cases: usize,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Names of counters that must not be zero over the whole run: without them the run
    /// observed nothing and is inconclusive.
    pub must_observe: &'static [&'static str],
}

struct Failure {
    index: usize,
    case_seed: u64,
    violation: Violation,
    trace: VecDeque<String>,
}

thread_local! {
    /// The system's id of this thread: /proc/thread-self is <pid>/task/<tid>.
    static THREAD: u64 = fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|t| t.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0);
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

static SAVED_STDOUT: Mutex<Option<fs::File>> = Mutex::new(None);

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// Prints on the real stdout, the code under test only reaches /dev/null.
pub fn say(line: &str) {
    let mut saved = SAVED_STDOUT.lock().unwrap();
    match saved.as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{line}");
            let _ = f.flush();
        }
        None => println!("{line}"),
    }
}

fn mute() {
    let null = fs::OpenOptions::new().write(true).open("/dev/null").expect("open /dev/null");
    let fd = std::os::fd::IntoRawFd::into_raw_fd(null);
    // Safety: plain descriptor juggling on descriptors this process owns.
    unsafe {
        let saved = dup(1);
        *SAVED_STDOUT.lock().unwrap() = Some(fs::File::from_raw_fd(saved));
        dup2(fd, 1);
        dup2(fd, 2);
    }
}

fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((message, location)));
    }));
}

/// The message and location of the panic that was last caught on this thread.
pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Whether a panic comes from a check itself, which then is no verdict on the code.
pub fn is_harness_location(location: &str) -> bool {
    location.contains("harness/checks/") || location.starts_with("checks/")
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// Known findings are listed one per line as
/// `KNOWN-FINDING property=<id> signature=<signature> <what fails>`.
fn known_findings(property: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let mut found = Vec::new();
    for line in text.lines() {
        let mut words = line.splitn(4, ' ');
        if words.next() != Some("KNOWN-FINDING")
            || words.next() != Some(&format!("property={property}"))
        {
            continue;
        }
        if let Some(sig) = words.next().and_then(|w| w.strip_prefix("signature=")) {
            found.push((sig.to_string(), words.next().unwrap_or("").to_string()));
        }
    }
    found
}

/// Reports a violation and exits.
fn report(property: &str, f: &Failure) -> ! {
    let _ = fs::create_dir_all("/verif/work");
    let path = format!("/verif/work/{property}-{}.txt", f.case_seed);
    let mut text = format!(
        "property={property} signature={}\n{}\nreplay: VERIF_REPLAY={} with the check's command\n",
        f.violation.signature, f.violation.message, f.case_seed
    );
    for e in &f.trace {
        text.push_str(e);
        text.push('\n');
    }
    let _ = fs::write(&path, text);
    say(&format!("{}: {}", f.violation.signature, f.violation.message));
    say(&format!("VIOLATION property={property} replay={path}"));
    std::process::exit(1);
}

/// What a worker is at.
#[derive(Default)]
struct Worker {
    /// Its thread, 0 between cases.
    thread: AtomicU64,
    case_seed: AtomicU64,
    index: AtomicU64,
    /// Cases it began.
    began: AtomicU64,
}

impl Worker {
    fn begin(&self, case_seed: u64, index: usize) {
        let thread = THREAD.with(|t| *t);
        self.case_seed.store(case_seed, Ordering::SeqCst);
        self.index.store(index as u64, Ordering::SeqCst);
        self.began.fetch_add(1, Ordering::SeqCst);
        self.thread.store(thread, Ordering::SeqCst);
    }
    fn end(&self) {
        self.thread.store(0, Ordering::SeqCst);
    }
}

struct Shared {
    workers: Vec<Worker>,
    failures: Mutex<Vec<Failure>>,
    stop: AtomicBool,
}

/// State and seconds of processor time of a thread.
fn thread_time(thread: u64) -> Option<(char, f64)> {
    let stat = fs::read_to_string(format!("/proc/self/task/{thread}/stat")).ok()?;
    let mut words = stat.rsplit(')').next()?.split_whitespace();
    let state = words.next()?.chars().next()?;
    let times: Vec<f64> = words.skip(10).take(2).filter_map(|w| w.parse().ok()).collect();
    Some((state, times.iter().sum::<f64>() / 100.0))
}

const ENDLESS: f64 = 60.0;

fn watch(shared: &Shared, property: &str, deadline: Instant) {
    // Of each worker: case, processor time when it was first seen, how often it slept since.
    let mut seen: Vec<(u64, f64, u64)> = vec![(0, 0.0, 0); shared.workers.len()];
    let mut stopped = 0;
    loop {
        std::thread::sleep(Duration::from_secs(1));
        for (w, seen) in shared.workers.iter().zip(&mut seen) {
            let (began, thread) = (w.began.load(Ordering::SeqCst), w.thread.load(Ordering::SeqCst));
            let Some((state, time)) = thread_time(thread).filter(|_| thread != 0) else {
                *seen = (0, 0.0, 0);
                continue;
            };
            if seen.0 != began {
                *seen = (began, time, 0);
                continue;
            }
            seen.2 = if state == 'S' && time - seen.1 < 1.0 { seen.2 + 1 } else { 0 };
            let asleep = seen.2 as f64 > 1.5 * ENDLESS;
            if (time - seen.1 > ENDLESS || asleep) && w.began.load(Ordering::SeqCst) == began {
                let how = if asleep { "sleeps" } else { "runs" };
                let failure = Failure {
                    index: w.index.load(Ordering::SeqCst) as usize,
                    case_seed: w.case_seed.load(Ordering::SeqCst),
                    violation: Violation {
                        signature: "endless".to_string(),
                        message: format!("a case {how} on and on, where others take milliseconds"),
                    },
                    trace: Default::default(),
                };
                report(property, &failure);
            }
        }
        // A violation counts although another case doesn't end.
        stopped += shared.stop.load(Ordering::SeqCst) as u64;
        if stopped > 30 {
            if let Some(f) = shared.failures.lock().unwrap().first() {
                report(property, f);
            }
        }
        if Instant::now() > deadline {
            say("INCONCLUSIVE: watchdog, a case did not finish");
            std::process::exit(2);
        }
    }
}

/// Runs the cases of a check and exits: 0 held, 1 violated, 2 inconclusive.
pub fn run<F>(check: Check, case: F) -> !
where
    F: Fn(&mut Rng, &mut Trace) -> Result<Observed, Violation> + Sync,
{
    let started = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = thorough();
    let tier = if thorough { "thorough" } else { "quick" };
    let known = known_findings(check.property);
    let replay = std::env::var("VERIF_REPLAY").ok().and_then(|v| v.parse::<u64>().ok());
    let cases = if replay.is_some() {
        1
    } else {
        env_u64(
            "VERIF_CASES",
            if thorough { check.thorough_cases } else { check.quick_cases } as u64,
        ) as usize
    };
    let budget = Duration::from_secs(env_u64("VERIF_SECONDS", if thorough { 600 } else { 150 }));
    let threads = if replay.is_some() {
        1
    } else {
        env_u64("VERIF_THREADS", 8).clamp(1, 64) as usize
    };
    mute();
    install_panic_hook();

    // The watchdog: a case that is at it for a minute of processor time where others take
    // milliseconds, or sleeps that long, never ends. Otherwise time is no verdict.
    let shared = Arc::new(Shared {
        workers: (0..threads).map(|_| Worker::default()).collect(),
        failures: Mutex::new(Vec::new()),
        stop: AtomicBool::new(false),
    });
    {
        let shared = shared.clone();
        let property = check.property;
        std::thread::spawn(move || watch(&shared, property, started + budget + Duration::from_secs(120)));
    }

    let next = AtomicUsize::new(0);
    let stop = &shared.stop;
    let evaluations = AtomicU64::new(0);
    let totals = Mutex::new(BTreeMap::<&'static str, u64>::new());
    let distinct = Mutex::new(HashSet::<u64>::new());
    let samples = Mutex::new(Vec::<(usize, String)>::new());
    let failures = &shared.failures;
    let slowest = AtomicU64::new(0);
    let harness_errors = Mutex::new(Vec::<String>::new());
    let known_seen = Mutex::new(BTreeMap::<String, (u64, String)>::new());

    std::thread::scope(|scope| {
        for worker in &shared.workers {
            let (next, stop, evaluations, totals, distinct, samples, failures, harness_errors, known_seen, known, case, slowest) = (
                &next, &stop, &evaluations, &totals, &distinct, &samples, &failures, &harness_errors, &known_seen, &known, &case, &slowest,
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || loop {
                    let index = next.fetch_add(1, Ordering::SeqCst);
                    if index >= cases
                        || stop.load(Ordering::SeqCst)
                        || started.elapsed() > budget
                    {
                        break;
                    }
                    let case_seed = replay.unwrap_or_else(|| {
                        mix(mix(seed, hash_str(check.property)), index as u64)
                    });
                    let mut rng = Rng::new(case_seed);
                    let mut trace = Trace::new(replay.is_some());
                    let _ = take_panic();
                    worker.begin(case_seed, index);
                    let since = Instant::now();
                    let result =
                        panic::catch_unwind(AssertUnwindSafe(|| case(&mut rng, &mut trace)));
                    worker.end();
                    slowest.fetch_max(since.elapsed().as_micros() as u64, Ordering::Relaxed);
                    evaluations.fetch_add(1, Ordering::SeqCst);
                    let violation = match result {
                        Ok(Ok(mut observed)) => {
                            let soft = std::mem::take(&mut observed.soft);
                            {
                                let mut totals = totals.lock().unwrap();
                                for (name, n) in &observed.counters {
                                    *totals.entry(name).or_insert(0) += n;
                                }
                            }
                            if observed.nontrivial {
                                distinct.lock().unwrap().insert(observed.fingerprint);
                                let mut samples = samples.lock().unwrap();
                                if samples.len() < 5 && !observed.sample.is_empty() {
                                    samples.push((index, observed.sample));
                                }
                            }
                            let mut fresh = None;
                            for v in soft {
                                if let Some((sig, what)) =
                                    known.iter().find(|(sig, _)| *sig == v.signature)
                                {
                                    let mut seen = known_seen.lock().unwrap();
                                    seen.entry(sig.clone()).or_insert((0, what.clone())).0 += 1;
                                } else {
                                    fresh = Some(v);
                                }
                            }
                            fresh
                        }
                        Ok(Err(v)) => {
                            if let Some((sig, what)) =
                                known.iter().find(|(sig, _)| *sig == v.signature)
                            {
                                let mut seen = known_seen.lock().unwrap();
                                seen.entry(sig.clone()).or_insert((0, what.clone())).0 += 1;
                                None
                            } else {
                                Some(v)
                            }
                        }
                        Err(_) => {
                            let (message, location) = take_panic();
                            if is_harness_location(&location) {
                                harness_errors
                                    .lock()
                                    .unwrap()
                                    .push(format!("case {case_seed}: {message} at {location}"));
                                stop.store(true, Ordering::SeqCst);
                                None
                            } else {
                                Some(Violation {
                                    signature: "panic".to_string(),
                                    message: format!(
                                        "the code under test panicked: {message} at {location}"
                                    ),
                                })
                            }
                        }
                    };
                    if let Some(violation) = violation {
                        stop.store(true, Ordering::SeqCst);
                        failures.lock().unwrap().push(Failure {
                            index,
                            case_seed,
                            violation,
                            trace: trace.events,
                        });
                    }
                })
                .expect("spawn worker");
        }
    });

    let totals = totals.into_inner().unwrap();
    let mut failures = std::mem::take(&mut *failures.lock().unwrap());
    failures.sort_by_key(|f| f.index);
    let harness_errors = harness_errors.into_inner().unwrap();
    let known_seen = known_seen.into_inner().unwrap();
    let evaluations = evaluations.load(Ordering::SeqCst);
    let distinct = distinct.into_inner().unwrap().len();
    let mut samples = samples.into_inner().unwrap();
    samples.sort();

    // Evidence.
    let mut j = String::new();
    let _ = writeln!(j, "{{");
    let _ = writeln!(j, " \"property\": {},", json_str(check.property));
    let _ = writeln!(j, " \"tier\": {},", json_str(tier));
    let _ = writeln!(j, " \"seed\": {seed},");
    let _ = writeln!(j, " \"level\": \"exploration\",");
    let _ = writeln!(j, " \"coverage\": {{");
    let _ = writeln!(j, "  \"evaluations\": {evaluations},");
    let _ = writeln!(j, "  \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(j, "  \"rule\": {},", json_str(check.rule));
    let _ = writeln!(j, "  \"observed\": {{");
    let last = totals.len();
    for (i, (name, n)) in totals.iter().enumerate() {
        let comma = if i + 1 < last { "," } else { "" };
        let _ = writeln!(j, "   {}: {n}{comma}", json_str(name));
    }
    let _ = writeln!(j, "  }},");
    let samples: Vec<String> = samples.iter().map(|(_, s)| json_str(s)).collect();
    let _ = writeln!(j, "  \"samples\": [{}]", samples.join(",\n   "));
    let _ = writeln!(j, " }},");
    let assumptions: Vec<String> = check.assumptions.iter().map(|a| json_str(a)).collect();
    let _ = writeln!(j, " \"assumptions\": [{}],", assumptions.join(",\n  "));
    let _ = writeln!(j, " \"violations\": {},", failures.len());
    let _ = writeln!(j, " \"slowest_case_s\": {:.3},", slowest.load(Ordering::Relaxed) as f64 / 1e6);
    let _ = writeln!(j, " \"wall_s\": {:.2}", started.elapsed().as_secs_f64());
    let _ = writeln!(j, "}}");
    if replay.is_none() {
        let _ = fs::create_dir_all("/verif/evidence");
        let _ = fs::write(format!("/verif/evidence/{}.json", check.property), j);
    }

    for (sig, (n, what)) in &known_seen {
        say(&format!("KNOWN-FINDING: property={} {sig}: {what} (seen {n} times)", check.property));
    }
    let summary: Vec<String> = totals.iter().map(|(k, v)| format!("{k}={v}")).collect();
    say(&format!(
        "{}: {evaluations} cases, {distinct} distinct non-trivial, {:.1} s: {}",
        check.property,
        started.elapsed().as_secs_f64(),
        summary.join(" ")
    ));
    if let Some(f) = failures.first() {
        report(check.property, f);
    }
    if let Some(e) = harness_errors.first() {
        say(&format!("INCONCLUSIVE: error of the check: {e}"));
        std::process::exit(2);
    }
    if replay.is_none() {
        for name in check.must_observe {
            if totals.get(name).copied().unwrap_or(0) == 0 {
                say(&format!("INCONCLUSIVE: no {name} observed"));
                std::process::exit(2);
            }
        }
        if distinct < 2 {
            say("INCONCLUSIVE: fewer than two distinct non-trivial cases");
            std::process::exit(2);
        }
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------------------------------
// Linearizability

/// One operation of a history: `ret` is None while the operation is still open, in which case
/// it may or may not have taken effect.
pub struct Op<I> {
    pub input: I,
    pub call: u64,
    pub ret: Option<u64>,
}

/// Result of a linearizability check.
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Lin {
    Yes,
    No,
    /// The search was cut short: no verdict.
    Unknown,
}

/// Wing-Gong-Lowe search. `step` applies an operation to a state: None when the recorded
/// output contradicts the state. Open operations may be left out. A closed operation that
/// leaves some state unchanged must leave every state it fits unchanged, like a read.
pub fn linearizable<S, I>(
    initial: S,
    ops: &[Op<I>],
    mut step: impl FnMut(&S, &Op<I>) -> Option<S>,
    limit: usize,
) -> Lin
where
    S: Clone + Eq + std::hash::Hash,
{
    let n = ops.len();
    if n > 128 {
        return Lin::Unknown;
    }
    let all_closed: u128 =
        ops.iter().enumerate().filter(|(_, o)| o.ret.is_some()).fold(0, |m, (i, _)| m | (1 << i));
    let mut seen: HashSet<(u128, S)> = HashSet::new();
    let mut stack: Vec<(u128, S)> = vec![(0, initial)];
    while let Some((done, state)) = stack.pop() {
        if done & all_closed == all_closed {
            return Lin::Yes;
        }
        if !seen.insert((done, state.clone())) {
            continue;
        }
        if seen.len() > limit {
            return Lin::Unknown;
        }
        // An operation may come next if no pending operation returned before its call.
        let min_ret = (0..n)
            .filter(|i| done & (1 << i) == 0)
            .filter_map(|i| ops[i].ret)
            .min()
            .unwrap_or(u64::MAX);
        let mut free = None;
        let mut nexts = Vec::new();
        for i in (0..n).rev() {
            if done & (1 << i) == 0 && ops[i].call <= min_ret {
                if let Some(next) = step(&state, &ops[i]) {
                    if next == state && ops[i].ret.is_some() {
                        // Changes nothing and fits now: taking it first excludes no order.
                        free = Some(i);
                        break;
                    }
                    nexts.push((done | (1 << i), next));
                }
            }
        }
        match free {
            Some(i) => stack.push((done | (1 << i), state)),
            None => stack.extend(nexts),
        }
    }
    Lin::No
}
