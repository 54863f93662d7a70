//! The real atomic counter actor on several replicas that apply one log, against a map.

extern crate tcp_atomic_counter_service;

use std::{cell::Cell, collections::BTreeMap, rc::Rc};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_atomic_counter_service::{
    actor::CounterActor,
    apps::atomic_counter::service::{
        atomic_counter_in_message, atomic_counter_out_message, counter_request, counter_response,
        AtomicCounterInMessage, AtomicCounterOutMessage, CounterCompareAndSwapRequest,
        CounterConfig, CounterRequest, CounterResponse, CounterSnapshot, CounterStatus,
    },
};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext};
use vcommon::{ensure, hash_str, mix, Check, Observed, Rng, Trace, Violation};

struct Context {
    logger: Logger,
    config: Bytes,
    leader: Rc<Cell<bool>>,
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

struct Replica {
    actor: CounterActor,
    leader: Rc<Cell<bool>>,
    applied: usize,
}

type State = BTreeMap<String, (i64, Bytes)>;

struct Entry {
    origin: usize,
    id: u64,
    request: CounterRequest,
    contents: Bytes,
}

fn new_replica(config: &CounterConfig) -> Replica {
    let leader = Rc::new(Cell::new(false));
    let mut actor = CounterActor::new();
    let context =
        Context { logger: Logger::root(Discard, o!()), config: config.encode_to_vec().into(), leader: leader.clone() };
    actor.on_init(Box::new(context)).expect("init");
    Replica { actor, leader, applied: 0 }
}

/// State and expected response after applying a request.
fn apply(state: &mut State, request: &CounterRequest) -> (CounterStatus, i64, i64) {
    let Some(counter_request::Op::CompareAndSwap(op)) = &request.op else { unreachable!() };
    let old = state.get(&request.name).map_or(0, |v| v.0);
    if old == op.expected_value {
        state.insert(request.name.clone(), (op.new_value, request.payload.clone()));
        (CounterStatus::Success, old, op.new_value)
    } else {
        (CounterStatus::InvalidArgumentError, old, old)
    }
}

fn held(actor: &mut CounterActor) -> Result<State, Violation> {
    let snapshot = actor.on_save_snapshot().ok().and_then(|s| CounterSnapshot::decode(s).ok());
    let Some(snapshot) = snapshot else {
        return vcommon::violation("save_error", "a snapshot can't be saved");
    };
    Ok(normal(snapshot.values.into_iter().map(|(n, v)| (n, (v.value, v.payload))).collect()))
}

/// A counter nobody has set is zero.
fn normal(state: State) -> State {
    state.into_iter().filter(|(_, v)| v.0 != 0 || !v.1.is_empty()).collect()
}

fn response(command: &ActorCommand) -> Option<CounterResponse> {
    match AtomicCounterOutMessage::decode(command.header.clone()).ok()?.msg? {
        atomic_counter_out_message::Msg::CounterResponse(r) => Some(r),
    }
}

fn number(rng: &mut Rng) -> i64 {
    match rng.below(12) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => -1,
        3 => rng.next() as i64,
        _ => rng.below(4) as i64,
    }
}

fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut obs = Observed::default();
    let mut names = vec!["".to_string(), "a".to_string(), "b".to_string(), "счётчик".to_string()];
    rng.shuffle(&mut names);
    names.truncate(1 + rng.usize(4));
    let mut config = CounterConfig::default();
    for name in &names {
        if rng.pct(40) {
            config.initial_values.insert(name.clone(), number(rng));
        }
    }
    let initial: State = config.initial_values.iter().map(|(n, v)| (n.clone(), (*v, Bytes::new()))).collect();
    // States after each log entry.
    let mut states = vec![initial];
    let mut expected: Vec<(CounterStatus, i64, i64)> = Vec::new();
    let mut log: Vec<Entry> = Vec::new();
    let mut replicas: Vec<Replica> = (0..1 + rng.usize(3)).map(|_| new_replica(&config)).collect();
    let mut next_id = 0;
    for _ in 0..rng.range(10, 120) {
        match rng.below(20) {
            // A request of a consumer.
            0..=9 => {
                let node = rng.usize(replicas.len());
                let leader = rng.pct(85);
                replicas[node].leader.set(leader);
                let name = rng.pick(&names).clone();
                let current = states.last().unwrap().get(&name).map_or(0, |v| v.0);
                let expected_value = if rng.pct(60) { current } else { number(rng) };
                let canary = rng.bytes(12);
                let request = CounterRequest {
                    name,
                    op: (!rng.pct(4)).then(|| {
                        counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest {
                            expected_value,
                            new_value: number(rng),
                        })
                    }),
                    context: if rng.pct(50) { canary.clone().into() } else { Bytes::new() },
                    payload: { let n = rng.usize(4); rng.bytes(n).into() },
                };
                next_id += 1;
                let id = if rng.pct(10) { rng.next() } else { next_id };
                let header = AtomicCounterInMessage {
                    msg: Some(atomic_counter_in_message::Msg::CounterRequest(request.clone())),
                };
                trace.log(format!("node {node} (leader {leader}) gets {id} {request:?}"));
                let outcome = match replicas[node].actor.on_process_command(Some(ActorCommand::with_header(id, &header))) {
                    Ok(outcome) => outcome,
                    Err(e) => return vcommon::violation("actor_error", format!("a request fails the actor: {e:?}")),
                };
                if !leader || request.op.is_none() {
                    obs.add("refused", 1);
                    let status = outcome.commands.first().and_then(response).map(|r| r.status);
                    let rejected = status == Some(CounterStatus::Rejected as i32) && !leader;
                    let invalid =
                        status == Some(CounterStatus::InvalidOperationError as i32) && request.op.is_none();
                    ensure!(
                        outcome.event.is_none()
                            && outcome.commands.len() == 1
                            && outcome.commands[0].correlation_id == id
                            && (rejected || invalid),
                        "refusal",
                        "request {id} (leader {leader}, {request:?}) must be refused once: {outcome:?}"
                    );
                    continue;
                }
                ensure!(outcome.commands.is_empty(), "early_answer", "request {id} is answered before it is replicated");
                let Some(event) = outcome.event else {
                    return vcommon::violation("no_event", format!("request {id} isn't replicated"));
                };
                ensure!(event.correlation_id == id, "event_id", "event of {id} has id {}", event.correlation_id);
                ensure!(
                    request.context.is_empty() || !event.contents.windows(12).any(|w| w == canary.as_slice()),
                    "context_replicated",
                    "the context of request {id} is replicated"
                );
                obs.add("proposed", 1);
                let mut state = states.last().unwrap().clone();
                expected.push(apply(&mut state, &request));
                states.push(state);
                log.push(Entry { origin: node, id, request, contents: event.contents });
            }
            // A replica applies what the log has for it.
            10..=16 => {
                let node = rng.usize(replicas.len());
                let upto = replicas[node].applied + rng.usize(log.len() - replicas[node].applied + 1);
                let r = &mut replicas[node];
                while r.applied < upto {
                    let e = &log[r.applied];
                    let owned = e.origin == node;
                    let context = ActorEventContext { index: r.applied as u64 + 1, owned };
                    let event = ActorEvent { correlation_id: e.id, contents: e.contents.clone() };
                    let outcome = match r.actor.on_apply_event(context, event) {
                        Ok(outcome) => outcome,
                        Err(e) => return vcommon::violation("apply_error", format!("an event can't be applied: {e:?}")),
                    };
                    let (status, old, new) = expected[r.applied];
                    r.applied += 1;
                    obs.add("applied", 1);
                    if !owned {
                        ensure!(outcome.commands.is_empty(), "foreign_answer", "node {node} answers {} of node {}", e.id, e.origin);
                        continue;
                    }
                    ensure!(
                        outcome.commands.len() == 1 && outcome.commands[0].correlation_id == e.id,
                        "no_answer",
                        "request {} has answers {:?}",
                        e.id,
                        outcome.commands
                    );
                    let answer = response(&outcome.commands[0]);
                    let got = answer.as_ref().and_then(|a| match &a.op {
                        Some(counter_response::Op::CompareAndSwap(c)) => Some((a.status, c.old_value, c.new_value)),
                        None => None,
                    });
                    ensure!(
                        got == Some((status as i32, old, new)),
                        "wrong_answer",
                        "request {:?} found {old}, should be told {status:?} {old} {new}, is told {answer:?}",
                        e.request
                    );
                    obs.add(if status == CounterStatus::Success { "swapped" } else { "not_swapped" }, 1);
                    obs.fingerprint = mix(obs.fingerprint, hash_str(&format!("{got:?}")));
                }
            }
            // A replica takes over the state of another one which is ahead.
            17 => {
                let (from, to) = (rng.usize(replicas.len()), rng.usize(replicas.len()));
                if replicas[from].applied < replicas[to].applied {
                    continue;
                }
                let Ok(snapshot) = replicas[from].actor.on_save_snapshot() else {
                    return vcommon::violation("save_error", "a snapshot can't be saved");
                };
                let applied = replicas[from].applied;
                match rng.below(3) {
                    0 => replicas[to] = new_replica(&config),
                    // Whatever it held before is gone.
                    1 => {
                        let mut other = CounterConfig::default();
                        other.initial_values.insert("other".into(), number(rng));
                        other.initial_values.insert("a".into(), number(rng));
                        replicas[to] = new_replica(&other);
                    }
                    _ => {}
                }
                trace.log(format!("node {to} loads the snapshot of node {from} at {applied}"));
                let loaded = replicas[to].actor.on_load_snapshot(snapshot);
                ensure!(loaded.is_ok(), "load_error", "a snapshot can't be loaded: {loaded:?}");
                replicas[to].applied = applied;
                obs.add("snapshots", 1);
            }
            18 => {
                let node = rng.usize(replicas.len());
                let id = rng.next();
                let outcome = if rng.pct(30) {
                    let outcome = replicas[node].actor.on_process_command(None);
                    ensure!(
                        matches!(&outcome, Ok(o) if o.event.is_none() && o.commands.is_empty()),
                        "tick",
                        "a tick has an outcome: {outcome:?}"
                    );
                    continue;
                } else {
                    let header = if rng.pct(50) { Bytes::new() } else { Bytes::from_static(&[0xff, 0xff]) };
                    replicas[node].actor.on_process_command(Some(ActorCommand { correlation_id: id, header, payload: Bytes::new() }))
                };
                obs.add("malformed", 1);
                let ok = matches!(&outcome, Ok(o) if o.event.is_none()
                    && o.commands.len() == 1
                    && o.commands[0].correlation_id == id
                    && response(&o.commands[0]).is_some_and(|r| r.status != CounterStatus::Success as i32));
                ensure!(ok, "malformed", "a request that doesn't parse must be refused: {outcome:?}");
            }
            _ => {
                // What is no snapshot or event changes nothing.
                let node = rng.usize(replicas.len());
                let r = &mut replicas[node];
                let garbage = Bytes::from_static(&[0xff, 0xff, 0xff]);
                let loaded = r.actor.on_load_snapshot(garbage.clone());
                ensure!(loaded == Err(ActorError::SnapshotLoading), "bad_snapshot", "a broken snapshot loads: {loaded:?}");
                let context = ActorEventContext { index: r.applied as u64 + 1, owned: true };
                let accepted = r.actor.on_apply_event(context, ActorEvent { correlation_id: 1, contents: garbage }).is_ok();
                ensure!(!accepted, "bad_event", "an event that doesn't parse is applied");
            }
        }
        let node = rng.usize(replicas.len());
        let r = &mut replicas[node];
        let state = held(&mut r.actor)?;
        let should = normal(states[r.applied].clone());
        obs.add("states_compared", 1);
        ensure!(state == should, "state", "node {node} at {} holds {state:?}, should be {should:?}", r.applied);
    }
    obs.nontrivial = obs.get("swapped") > 0 && obs.get("not_swapped") > 0;
    obs.sample = trace.tail(2);
    Ok(obs)
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    if property != "C16" {
        eprintln!("unknown property {property}");
        std::process::exit(3)
    }
    vcommon::run(
        Check {
            property: "C16",
            quick_cases: 100_000,
            thorough_cases: 5_000_000,
            rule: "A case is one random sequence of requests (compare and swap with extreme values, \
                unknown and malformed ones) to 1-3 atomic counter replicas that apply one log at their \
                own pace and take over each other's snapshots. Non-trivial: some swaps succeed and some \
                don't. Distinct by all answers.",
            assumptions: &["replicas apply the same events in the same order (checked apart for the runtime)"],
            must_observe: &["swapped", "not_swapped", "refused", "malformed", "snapshots", "states_compared"],
        },
        run,
    )
}
