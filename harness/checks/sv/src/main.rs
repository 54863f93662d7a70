//! The services through which hosts reach a replica, with requests that overlap and clients
//! that go away.

use std::{
    collections::{BTreeMap, HashMap},
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    task::{Context, Poll},
    thread::ThreadId,
    time::Duration,
};

use oak_proto_rust::oak::attestation::v1::{endorsements, Endorsements, Evidence, ReferenceValues};
use prost::bytes::Bytes;
use slog::{o, Discard, Logger};
use tcp_proto::runtime::endpoint::{
    endpoint_service_server::EndpointService as TonicEndpoint, in_message, out_message, raft_config::SnapshotConfig,
    DeliverAppMessage, EndpointService, GetReplicaStateRequest, InMessage, OutMessage, RaftConfig, ReceiveMessageRequest,
    StartReplicaRequest,
};
use tcp_runtime::{
    model::*,
    service::{ApplicationService, TonicApplicationService},
};
use tonic::Request;
use vcommon::{ensure, violation, Check, Observed, Rng, Trace, Violation};

/// What happens to the actor.
#[derive(Default)]
struct Seen {
    busy: AtomicBool,
    overlapped: AtomicBool,
    thread: Mutex<Option<ThreadId>>,
    moved: AtomicBool,
    /// Commands in the order in which the actor took them.
    commands: Mutex<Vec<u64>>,
    applied: AtomicU64,
    dropped: AtomicBool,
    failed: AtomicBool,
}

/// Answers a command with the number of commands so far, either at once or once it is committed.
struct Probe {
    seen: Arc<Seen>,
    direct: bool,
    slow: u64,
    fails_at: Option<u64>,
    context: Option<Box<dyn ActorContext>>,
}

impl Probe {
    fn work<T>(&mut self, f: impl FnOnce(&mut Probe) -> T) -> T {
        if self.seen.busy.swap(true, SeqCst) {
            self.seen.overlapped.store(true, SeqCst);
        }
        let me = std::thread::current().id();
        if *self.seen.thread.lock().unwrap().get_or_insert(me) != me {
            self.seen.moved.store(true, SeqCst);
        }
        for _ in 0..self.slow {
            std::thread::yield_now();
        }
        let result = f(self);
        self.seen.busy.store(false, SeqCst);
        result
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        self.seen.dropped.store(true, SeqCst);
    }
}

fn answer(correlation: u64, number: u64) -> ActorCommand {
    ActorCommand { correlation_id: correlation, header: Bytes::from(number.to_le_bytes().to_vec()), payload: Bytes::new() }
}

impl Actor for Probe {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.work(|p| {
            p.context = Some(context);
            Ok(())
        })
    }

    fn on_shutdown(&mut self) {}

    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        self.work(|_| Ok(Bytes::from_static(b"state")))
    }

    fn on_load_snapshot(&mut self, _snapshot: Bytes) -> Result<(), ActorError> {
        Ok(())
    }

    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        self.work(|p| {
            let Some(command) = command else { return Ok(CommandOutcome::with_none()) };
            let number = {
                let mut commands = p.seen.commands.lock().unwrap();
                commands.push(command.correlation_id);
                commands.len() as u64
            };
            if p.fails_at == Some(number) {
                p.seen.failed.store(true, SeqCst);
                return Err(ActorError::Internal);
            }
            Ok(if p.direct {
                CommandOutcome::with_command(answer(command.correlation_id, number))
            } else {
                CommandOutcome::with_event(ActorEvent::with_bytes(command.correlation_id, Bytes::from(number.to_le_bytes().to_vec())))
            })
        })
    }

    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        self.work(|p| {
            p.seen.applied.fetch_add(1, SeqCst);
            let number = u64::from_le_bytes(event.contents.as_ref().try_into().unwrap_or_default());
            Ok(if context.owned {
                EventOutcome::with_command(answer(event.correlation_id, number))
            } else {
                EventOutcome::with_none()
            })
        })
    }

    fn get_reference_values(&self) -> ReferenceValues {
        ReferenceValues::default()
    }
}

const WARM: u64 = 30;

fn start(ephemeral: bool, snapshot_count: u64) -> InMessage {
    InMessage {
        msg: Some(in_message::Msg::StartReplica(StartReplicaRequest {
            is_leader: !ephemeral,
            replica_id_hint: 7,
            raft_config: Some(RaftConfig {
                tick_period: 10,
                heartbeat_tick: 2,
                election_tick: 10,
                max_size_per_msg: 0,
                snapshot_config: Some(SnapshotConfig { snapshot_count, chunk_size: 100, max_pending_chunks: 2 }),
                handshake_retry_tick: 1,
            }),
            app_config: Bytes::new(),
            is_ephemeral: ephemeral,
            endorsements: Some(Endorsements { r#type: Some(endorsements::Type::OakRestrictedKernel(Default::default())) }),
        })),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Command(u64),
    State,
    Tick,
}

fn message(kind: Kind) -> Option<InMessage> {
    let msg = match kind {
        Kind::Command(id) => in_message::Msg::DeliverAppMessage(DeliverAppMessage {
            correlation_id: id,
            message_header: Bytes::from_static(b"command"),
            ..Default::default()
        }),
        Kind::State => in_message::Msg::GetReplicaState(GetReplicaStateRequest {}),
        Kind::Tick => return None,
    };
    Some(InMessage { msg: Some(msg) })
}

/// Whether these messages answer this request and nothing else, returns the number of a command.
fn judge(kind: Kind, messages: &[OutMessage]) -> Result<u64, Violation> {
    let mut number = None;
    let (mut states, mut answers) = (0, 0);
    for m in messages {
        match &m.msg {
            Some(out_message::Msg::DeliverAppMessage(a)) => {
                answers += 1;
                let Kind::Command(id) = kind else {
                    return violation("stray-answer", format!("the answer to a {kind:?} contains {a:?}"));
                };
                ensure!(a.correlation_id == id, "swapped-answer", "the answer to command {id} contains one to {}", a.correlation_id);
                number = Some(u64::from_le_bytes(a.message_header.as_ref().try_into().unwrap_or_default()));
            }
            Some(out_message::Msg::GetReplicaState(_)) => states += 1,
            Some(out_message::Msg::StartReplica(_)) => {
                return violation("stray-start", format!("the answer to {kind:?} confirms a start"));
            }
            _ => {}
        }
    }
    ensure!(
        states == (kind == Kind::State) as usize,
        "state-answers",
        "the answer to {kind:?} contains {states} states"
    );
    ensure!(answers == matches!(kind, Kind::Command(_)) as usize, "answers", "the answer to {kind:?} contains {answers} answers");
    Ok(number.unwrap_or(0))
}

/// A future that is dropped after it has been polled a number of times.
struct Impatient<F> {
    inner: Option<Pin<Box<F>>>,
    polls: u64,
}

impl<F: Future> Future for Impatient<F> {
    type Output = Option<F::Output>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.polls == 0 {
            self.inner = None;
            return Poll::Ready(None);
        }
        self.polls -= 1;
        let inner = self.inner.as_mut().unwrap();
        match inner.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                // Comes back by itself, or gives up.
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}

struct Call {
    kind: Kind,
    /// Points of a clock that all clients share.
    begun: u64,
    ended: u64,
    outcome: Outcome,
}

enum Outcome {
    Answered(Vec<OutMessage>),
    Failed(String),
    Left,
}

fn overlapping(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut obs = Observed::default();
    let ephemeral = rng.pct(50);
    let direct = rng.pct(30);
    let clients = rng.range(1, 6);
    let leaving = if rng.pct(70) { rng.range(1, 60) } else { 0 };
    let seen = Arc::new(Seen::default());
    let fails_at = rng.pct(15).then(|| rng.range(1, 40));
    let probe = {
        let (seen, slow) = (seen.clone(), *rng.pick(&[0, 0, 1, 5, 20]));
        move || Probe { seen, direct, slow, fails_at, context: None }
    };
    trace.log(format!("ephemeral {ephemeral}, direct {direct}, {clients} clients, {leaving}% leave, fails at {fails_at:?}"));
    let runtime = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(rng.range(1, 4) as usize)
        .enable_time()
        .build()
        .expect("runtime");
    let _inside = runtime.enter();
    let logger = rng.pct(70).then(|| Logger::root(Discard, o!()));
    let service = Arc::new(TonicApplicationService::new(Default::default(), Evidence::default(), logger, probe));
    let clock = Arc::new(AtomicU64::new(0));
    let first = ReceiveMessageRequest { instant: 1, message: Some(start(ephemeral, rng.range(1, 10))) };

    let mut plans: Vec<Vec<(Kind, Option<u64>, u64)>> = vec![];
    let mut next = 0;
    for _ in 0..clients {
        plans.push(
            (0..rng.range(1, 30))
                .map(|_| {
                    next += 1;
                    let kind = match rng.below(10) {
                        0 => Kind::State,
                        1 => Kind::Tick,
                        _ => Kind::Command(next * 1000 + rng.below(1000)),
                    };
                    let leaves = rng.pct(leaving).then(|| if rng.pct(50) { rng.below(4) } else { rng.below(200) });
                    (kind, leaves, rng.below(4))
                })
                .collect(),
        );
    }
    // A replica that is to fail may not get that far, but then nothing keeps it from answering either.
    let patience = Duration::from_secs(if fails_at.is_some() { 20 } else { 60 });
    let server = service.clone();
    let calls = runtime.block_on(async move {
        let started = server.receive_message(Request::new(first)).await;
        if started.is_err() {
            return Err(format!("start fails: {:?}", started.err()));
        }
        for tick in 0..WARM {
            // Until it has elected itself.
            let request = ReceiveMessageRequest { instant: 10 * tick, message: None };
            if let Err(e) = server.receive_message(Request::new(request)).await {
                return Err(format!("a tick fails: {e:?}"));
            }
        }
        let instant = Arc::new(AtomicU64::new(10 * WARM));
        let mut tasks = vec![];
        for plan in plans {
            let (server, clock, instant) = (server.clone(), clock.clone(), instant.clone());
            tasks.push(tokio::spawn(async move {
                let mut calls = vec![];
                for (kind, leaves, pause) in plan {
                    for _ in 0..pause {
                        tokio::task::yield_now().await;
                    }
                    let request = ReceiveMessageRequest { instant: instant.fetch_add(1, SeqCst), message: message(kind) };
                    let begun = clock.fetch_add(1, SeqCst);
                    let call = server.receive_message(Request::new(request));
                    let result = match leaves {
                        None => Some(call.await),
                        Some(polls) => Impatient { inner: Some(Box::pin(call)), polls }.await,
                    };
                    let ended = clock.fetch_add(1, SeqCst);
                    let outcome = match result {
                        None => Outcome::Left,
                        Some(Ok(response)) => Outcome::Answered(response.into_inner().messages),
                        Some(Err(status)) => Outcome::Failed(status.message),
                    };
                    calls.push(Call { kind, begun, ended, outcome });
                }
                calls
            }));
        }
        let all = async {
            let mut calls = vec![];
            for t in tasks {
                calls.extend(t.await.expect("client"));
            }
            calls
        };
        match tokio::time::timeout(patience, all).await {
            Ok(calls) => Ok(calls),
            Err(_) => Err("clients wait for their answers forever".to_string()),
        }
    });
    let calls = match calls {
        Ok(calls) => calls,
        Err(e) => {
            std::mem::forget(service);
            drop(_inside);
            runtime.shutdown_background();
            if seen.failed.load(SeqCst) {
                // Tokio may lose a request that is sent while the receiver goes away: whoever
                // sent it waits for a replica that is gone.
                obs.add("lost_with_replica", 1);
                return Ok(obs);
            }
            return violation("no-service", e);
        }
    };

    // Everyone is gone, the service ends.
    let service = Arc::try_unwrap(service).ok().expect("shared service");
    let ended = catch_unwind(AssertUnwindSafe(|| drop(service)));
    let failed = seen.failed.load(SeqCst);
    let mut faults = vec![];
    for c in &calls {
        let line = match &c.outcome {
            Outcome::Answered(m) => format!("{} messages", m.len()),
            Outcome::Failed(e) => format!("failed: {e}"),
            Outcome::Left => "left".to_string(),
        };
        trace.log(format!("{:?} from {} to {}: {line}", c.kind, c.begun, c.ended));
        if let Outcome::Failed(e) = &c.outcome {
            faults.push(format!("{:?}: {e}", c.kind));
        }
    }
    if !failed {
        ensure!(faults.is_empty(), "refused", "requests of a replica that works fail: {faults:?}");
        ensure!(ended.is_ok(), "ends-badly", "a service whose replica works can't be ended");
    }
    ensure!(seen.dropped.load(SeqCst), "lives-on", "the actor outlives its service");
    ensure!(!seen.overlapped.load(SeqCst), "overlapped", "callbacks of the actor overlap");
    ensure!(!seen.moved.load(SeqCst), "moved", "the actor is called by several threads");

    let commands = seen.commands.lock().unwrap().clone();
    let mut positions: HashMap<u64, u64> = HashMap::new();
    for (i, id) in commands.iter().enumerate() {
        ensure!(positions.insert(*id, i as u64 + 1).is_none(), "twice", "command {id} reaches the actor twice");
    }
    let applied = seen.applied.load(SeqCst);
    ensure!(direct || applied + failed as u64 == commands.len() as u64, "applied", "{applied} events are applied after {} commands", commands.len());
    // Those that were answered, by the order in which the actor took them.
    let mut order: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    for c in &calls {
        match (&c.outcome, c.kind) {
            (Outcome::Answered(messages), kind) => {
                let number = judge(kind, messages)?;
                if let Kind::Command(id) = kind {
                    ensure!(
                        positions.get(&id) == Some(&number),
                        "wrong-answer",
                        "command {id} is answered with {number}, the actor took it as {:?}",
                        positions.get(&id)
                    );
                    order.insert(number, (c.begun, c.ended));
                    obs.add("answered", 1);
                } else {
                    obs.add("others_answered", 1);
                }
            }
            (Outcome::Left, Kind::Command(id)) => {
                obs.add("left", 1);
                if positions.contains_key(&id) {
                    obs.add("left_and_done", 1);
                }
            }
            (Outcome::Failed(_), _) => obs.add("failed", 1),
            _ => {}
        }
    }
    // What ended before something else began comes first.
    let mut latest_begin = 0;
    let mut overlaps = 0;
    for (number, (begun, ended)) in &order {
        ensure!(*ended > latest_begin, "reordered", "command number {number} ended before an earlier one began");
        overlaps += (*begun < latest_begin) as u64;
        latest_begin = latest_begin.max(*begun);
    }
    obs.add("overlapping", overlaps);
    if failed {
        obs.add("actor_failures", 1);
        ensure!(ended.is_err(), "failure-hidden", "the service doesn't say that its replica has failed");
        let last = positions.len() as u64;
        for c in &calls {
            if let (Outcome::Answered(_), Kind::Command(id)) = (&c.outcome, c.kind) {
                ensure!(positions[&id] < last, "answers-after-failure", "command {id} is answered by a failed actor");
            }
        }
    }
    obs.add("cases", 1);
    obs.nontrivial = obs.get("answered") > 3 && clients > 1;
    obs.fingerprint = calls.iter().fold(7, |h, c| vcommon::mix(h, c.begun * 1000 + c.ended));
    obs.sample = trace.tail(4);
    Ok(obs)
}

/// The service for restricted kernels, one request after the other.
fn alone(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut obs = Observed::default();
    let ephemeral = rng.pct(50);
    let direct = rng.pct(30);
    let seen = Arc::new(Seen::default());
    let fails_at = rng.pct(20).then(|| rng.range(1, 20));
    let mut service = ApplicationService::new(Probe { seen: seen.clone(), direct, slow: 0, fails_at, context: None });
    let first = service.receive_message(ReceiveMessageRequest { instant: 1, message: Some(start(ephemeral, 5)) });
    let started = first.map(|r| {
        r.messages.iter().filter(|m| matches!(&m.msg, Some(out_message::Msg::StartReplica(s)) if s.replica_id == 7)).count()
    });
    ensure!(started == Ok(1), "start", "the start is answered with {started:?}");
    for tick in 0..WARM {
        let ticked = service.receive_message(ReceiveMessageRequest { instant: 10 * tick, message: None });
        ensure!(ticked.is_ok(), "tick", "a tick fails: {ticked:?}");
    }
    for i in 0..rng.range(1, 30) {
        let kind = match rng.below(8) {
            0 => Kind::State,
            1 => Kind::Tick,
            _ => Kind::Command(i * 100 + rng.below(100)),
        };
        trace.log(format!("{kind:?}"));
        let before = seen.commands.lock().unwrap().len() as u64;
        let request = ReceiveMessageRequest { instant: 10 * WARM + i, message: message(kind) };
        let result = catch_unwind(AssertUnwindSafe(|| service.receive_message(request)));
        if seen.failed.load(SeqCst) {
            ensure!(result.is_err(), "failure-hidden", "the service doesn't stop when its replica fails");
            obs.add("actor_failures", 1);
            break;
        }
        let Ok(Ok(response)) = result else {
            let panic = vcommon::take_panic();
            return violation("refused", format!("{kind:?} to a replica that works fails: {panic:?}"));
        };
        let number = judge(kind, &response.messages)?;
        if matches!(kind, Kind::Command(_)) {
            ensure!(number == before + 1, "wrong-answer", "command {number} follows {before}");
            obs.add("answered_alone", 1);
        }
    }
    obs.nontrivial = obs.get("answered_alone") > 3;
    obs.fingerprint = rng.next();
    obs.sample = trace.tail(4);
    Ok(obs)
}

fn case(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    // Oak's simulation has random numbers of its own.
    oak_stub::det::seed(rng.next());
    if rng.pct(20) {
        alone(rng, trace)
    } else {
        overlapping(rng, trace)
    }
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    if property != "C34" {
        eprintln!("unknown property {property}");
        std::process::exit(3)
    }
    vcommon::run(
        Check {
            property: "C34",
            quick_cases: 20_000,
            thorough_cases: 400_000,
            rule: "Each case runs a service with the real driver and an actor that counts, on 1 to 4 runtime threads with 1 to 6 \
clients at once whose requests are dropped after a random number of polls, and ends it; 20% use the service for restricted kernels. \
Non-trivial if more than 3 commands of several clients were answered.",
            assumptions: &["Tonic's server runs a handler as a future and drops it when its client goes away"],
            must_observe: &["answered", "answered_alone", "others_answered", "overlapping", "left", "left_and_done", "failed", "actor_failures"],
        },
        case,
    )
}
