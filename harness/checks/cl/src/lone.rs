//! A single replica, replicated or ephemeral, whose host sends it everything at any time: before
//! it starts, twice, in the wrong state, after it stopped.

use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use prost::bytes::Bytes;
use slog::{o, Discard, Logger};
use tcp_proto::runtime::endpoint::{raft_config::SnapshotConfig, *};
use tcp_runtime::{driver::Driver, model::*, platform::{Application, PalError}, storage::MemoryStorage};
use vcommon::{ensure, violation, Observed, Rng, Trace, Violation};

use crate::{
    ledger::{self, Ledger, Options},
    watch::{Shared, SharedRef, Watched},
    identity::{communication, endorsed, reference, snapshots},
    world::{wrap, Node, Outbox},
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Created,
    Started,
    Stopped,
}

struct Lone {
    driver: Node<Ledger>,
    shared: SharedRef,
    id: u64,
    ephemeral: bool,
    raft_config: Option<RaftConfig>,
    config: Bytes,
    state: State,
    time: u64,
    /// Whether it was made lameduck or given members who don't exist.
    hampered: bool,
    o: Observed,
}

enum Outcome {
    Done(Vec<out_message::Msg>),
    Refused,
    /// The actor failed and so did the replica.
    Ended,
}

impl Lone {
    fn call(&mut self, what: &str, msg: Option<InMessage>, rng: &mut Rng, trace: &mut Trace) -> Result<Outcome, Violation> {
        let id = self.id;
        self.time += rng.below(30);
        let instant = if rng.pct(5) { rng.below(self.time + 1) } else { self.time };
        trace.log(format!("{what} at {instant}, {:?}", self.state));
        self.o.see(vcommon::hash_str(what) + self.state as u64);
        let tick = msg.is_none();
        let asked = match &msg {
            Some(InMessage { msg: Some(in_message::Msg::DeliverAppMessage(m)) }) => Some(m.clone()),
            _ => None,
        };
        let before = {
            let mut shared = self.shared.borrow_mut();
            let node = shared.node(id);
            node.now = node.now.max(Some(instant));
            node.commands.clear();
            (node.callbacks, node.raft_uses)
        };
        let mut host = Outbox(vec![]);
        let driver = &mut self.driver;
        let result = catch_unwind(AssertUnwindSafe(|| driver.receive_message(&mut host, instant, msg)));
        let result = match result {
            Ok(result) => result,
            Err(payload) => {
                let (message, location) = vcommon::take_panic();
                if vcommon::is_harness_location(&location) {
                    std::panic::resume_unwind(payload);
                }
                return violation("panics", format!("{what} makes a {:?} replica panic: {message} at {location}", self.state));
            }
        };
        self.o.add("calls", 1);
        let sent: Vec<out_message::Msg> =
            host.0.iter().filter_map(|m| m.msg.clone()).filter(|m| !matches!(m, out_message::Msg::Log(_))).collect();
        let (callbacks, raft_uses, failed) = {
            let mut shared = self.shared.borrow_mut();
            let node = shared.node(id);
            (node.callbacks - before.0, node.raft_uses - before.1, node.failed)
        };
        if failed {
            self.o.add("actor_failures", 1);
            ensure!(result.is_err(), "survives", "the actor fails on {what}, but the replica carries on");
            ensure!(result == Err(PalError::Actor), "error", "the actor fails on {what}, the error is {result:?}");
            ensure!(sent.is_empty(), "sends-after-failure", "the actor fails on {what}, the replica sends {sent:?}");
            return Ok(Outcome::Ended);
        }
        match result {
            Ok(()) => {}
            Err(PalError::InvalidOperation) => {
                trace.log("  refused");
                self.o.add("refused", 1);
                ensure!(sent.is_empty(), "refused-but-sends", "{what} is refused, but the replica sends {sent:?}");
                ensure!(callbacks == 0, "refused-but-done", "{what} is refused, but the actor is called");
                ensure!(raft_uses == 0, "refused-but-done", "{what} is refused, but raft is used");
                self.judge()?;
                return Ok(Outcome::Refused);
            }
            Err(e) => return violation("terminates", format!("{what} ends a {:?} replica with {e:?}", self.state)),
        }
        {
            let ticks = self.shared.borrow_mut().node(id).commands.iter().filter(|c| c.is_none()).count();
            ensure!(!tick || self.state != State::Started || ticks >= 1, "no-tick", "time passes, but the actor isn't told");
            let mut shared = self.shared.borrow_mut();
            shared.settle_commands(id, asked);
            shared.settle_outputs(id, &host.0);
            let (outputs, handed) = (shared.node(id).outputs.len(), shared.node(id).handed.len());
            if outputs > 0 {
                shared.fail(&["C30", "C31"], "reply-lost", format!("replica {id} keeps {outputs} commands of its actor"));
            }
            if handed > 0 {
                shared.fail(&["C30"], "not-applied", format!("ephemeral replica {id} doesn't apply {handed} events"));
            }
        }
        if self.ephemeral {
            ensure!(raft_uses == 0, "raft", "an ephemeral replica uses raft on {what}");
            let mut shared = self.shared.borrow_mut();
            let node = shared.node(id);
            ensure!(node.saves == 0 && node.loads == 0, "snapshot", "an ephemeral replica uses snapshots on {what}");
        }
        self.judge()?;
        Ok(Outcome::Done(sent))
    }

    /// A replica that isn't running takes no part in anything.
    fn idle(&mut self, what: &str, outcome: &Outcome, before: u64) -> Result<(), Violation> {
        let callbacks = self.shared.borrow_mut().node(self.id).callbacks - before;
        ensure!(callbacks == 0, "callback-outside-life", "{what} to a {:?} replica calls its actor", self.state);
        if let Outcome::Done(sent) = outcome {
            ensure!(sent.is_empty(), "sends-outside-life", "{what} to a {:?} replica makes it send {sent:?}", self.state);
        }
        Ok(())
    }

    fn judge(&mut self) -> Result<(), Violation> {
        let bad = std::mem::take(&mut self.shared.borrow_mut().bad);
        for b in bad {
            // Of a single replica all is judged here.
            return Err(Violation { signature: b.signature.to_string(), message: b.message });
        }
        Ok(())
    }

    fn callbacks(&self) -> u64 {
        self.shared.borrow_mut().node(self.id).callbacks
    }

    /// Returns whether the case goes on.
    fn step(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<bool, Violation> {
        let before = self.callbacks();
        let id = self.id;
        let other = *rng.pick(&[0, id, id + 1, id + 2, u64::MAX]);
        let payload = Payload { contents: rng.bytes(10).into(), nonce: rng.bytes(12).into() };
        let payload = (!rng.pct(10)).then_some(payload);
        match rng.below(100) {
            0..=7 => {
                let start = StartReplicaRequest {
                    is_leader: !self.ephemeral,
                    replica_id_hint: if self.state == State::Created || rng.pct(50) { id } else { id + 5 },
                    raft_config: self.raft_config.clone(),
                    app_config: if self.state == State::Created { self.config.clone() } else { rng.bytes(3).into() },
                    is_ephemeral: if self.state == State::Created { self.ephemeral } else { rng.pct(50) },
                    endorsements: Some(endorsed()),
                };
                let inits = self.shared.borrow_mut().node(id).inits;
                let was = self.state;
                match (was, self.call("start", Some(wrap(in_message::Msg::StartReplica(start))), rng, trace)?) {
                    (_, Outcome::Ended) => return Ok(false),
                    (State::Created, Outcome::Done(sent)) => {
                        self.state = State::Started;
                        let answers = sent.iter().filter(|m| matches!(m, out_message::Msg::StartReplica(r) if r.replica_id == id)).count();
                        ensure!(answers == 1, "start-unanswered", "the start is answered with {sent:?}");
                        self.o.add("started", 1);
                    }
                    (State::Created, Outcome::Refused) => return violation("not-started", "a new replica refuses to start".to_string()),
                    (_, outcome) => {
                        // Neither started again, nor anybody else now.
                        let now = self.shared.borrow_mut().node(id).inits;
                        ensure!(now == inits, "started-twice", "a {was:?} replica starts again");
                        if let Outcome::Done(sent) = outcome {
                            let answers = sent.iter().filter(|m| matches!(m, out_message::Msg::StartReplica(_))).count();
                            ensure!(answers == 0, "started-twice", "a {was:?} replica confirms its start");
                        }
                        self.o.add("second_starts", 1);
                    }
                }
            }
            8..=9 => {
                if rng.pct(70) {
                    return Ok(true);
                }
                let was = self.state;
                match self.call("stop", Some(wrap(in_message::Msg::StopReplica(StopReplicaRequest {}))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    Outcome::Refused => ensure!(was != State::Started, "not-stopped", "a running replica refuses to stop"),
                    Outcome::Done(sent) => {
                        let answers = sent.iter().filter(|m| matches!(m, out_message::Msg::StopReplica(_))).count();
                        self.state = State::Stopped;
                        let shutdowns = self.shared.borrow_mut().node(id).shutdowns;
                        if was == State::Started {
                            ensure!(answers == 1, "stop-unanswered", "the stop is answered with {sent:?}");
                            ensure!(shutdowns == 1, "not-shut-down", "a replica stops and its actor is shut down {shutdowns} times");
                            self.o.add("stopped", 1);
                        }
                        ensure!(shutdowns <= 1, "shutdown-twice", "the actor is shut down {shutdowns} times");
                        if was == State::Stopped {
                            ensure!(self.callbacks() == before, "callback-outside-life", "a second stop calls the actor");
                        }
                    }
                }
            }
            10..=11 => {
                // It no longer runs for leader.
                self.hampered |= !self.ephemeral;
                match self.call("enter lameduck mode", Some(wrap(in_message::Msg::EnterLameduckMode(EnterLameduckMode {}))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => self.misplaced("lameduck mode", &outcome, before)?,
                }
            }
            12..=14 => {
                match self.call("nothing in particular", Some(InMessage { msg: None }), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        ensure!(matches!(outcome, Outcome::Done(_)), "unknown-message", "an unknown message isn't ignored");
                        self.misplaced("an unknown message", &outcome, before)?;
                    }
                }
            }
            15..=18 => {
                // Removing the last member would end it.
                let (replica_id, change_type) = *rng.pick(&[(id, 0), (id, 1), (id, 7), (id + 1, 0), (id + 1, 1), (id + 1, 2), (0, 7)]);
                let request = ChangeClusterRequest { change_id: rng.next(), replica_id, change_type };
                self.hampered = true;
                *self.shared.borrow_mut().requested.entry((request.change_type == 1, request.replica_id)).or_default() += 1;
                let change_id = request.change_id;
                match self.call(&format!("{request:?}"), Some(wrap(in_message::Msg::ChangeCluster(request))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        self.replicated_only("a cluster change", &outcome, before, |m| matches!(m, out_message::Msg::ChangeCluster(r) if r.change_id == change_id))?;
                    }
                }
            }
            19..=22 => {
                match self.call("check cluster", Some(wrap(in_message::Msg::CheckCluster(CheckClusterRequest {}))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => self.replicated_only("a cluster check", &outcome, before, |m| matches!(m, out_message::Msg::CheckCluster(_)))?,
                }
            }
            23..=26 => {
                match self.call("get state", Some(wrap(in_message::Msg::GetReplicaState(GetReplicaStateRequest {}))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        self.misplaced("a request for its state", &outcome, before)?;
                        if self.state == State::Started {
                            let Outcome::Done(sent) = outcome else {
                                return violation("state-refused", "a running replica doesn't tell its state".to_string());
                            };
                            let answers: Vec<_> = sent
                                .iter()
                                .filter_map(|m| match m {
                                    out_message::Msg::GetReplicaState(s) => Some(s.clone()),
                                    _ => None,
                                })
                                .collect();
                            ensure!(answers.len() == 1, "state-unanswered", "a request for its state is answered with {answers:?}");
                            if self.ephemeral {
                                ensure!(answers[0] == GetReplicaStateResponse::default(), "state", "an ephemeral replica is at {:?}", answers[0]);
                            }
                        }
                    }
                }
            }
            27..=38 => {
                let delivery_id = rng.below(3);
                let (msg, what) = match rng.below(5) {
                    0 => (
                        in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                            recipient_replica_id: id,
                            sender_replica_id: other,
                            payload,
                            ..Default::default()
                        }),
                        "a raft message",
                    ),
                    1 => (
                        in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                            recipient_replica_id: id,
                            sender_replica_id: other,
                            delivery_id,
                            payload,
                            ..Default::default()
                        }),
                        "a snapshot request",
                    ),
                    2 => (
                        in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                            recipient_replica_id: id,
                            sender_replica_id: other,
                            delivery_id,
                            payload,
                            ..Default::default()
                        }),
                        "a snapshot response",
                    ),
                    3 => (
                        in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: other, delivery_id }),
                        "a snapshot failure",
                    ),
                    _ => (
                        in_message::Msg::SecureChannelHandshake(SecureChannelHandshake {
                            recipient_replica_id: id,
                            sender_replica_id: other,
                            encryption: None,
                        }),
                        "a handshake",
                    ),
                };
                let system = !matches!(msg, in_message::Msg::SecureChannelHandshake(_));
                match self.call(&format!("{what} of {other}"), Some(wrap(msg)), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        self.misplaced(what, &outcome, before)?;
                        if self.ephemeral && self.state == State::Started && system {
                            // Refused, or ignored as if it were a tick.
                            self.o.add("raft_messages_to_ephemeral", 1);
                        }
                        ensure!(
                            self.ephemeral || self.state != State::Started || matches!(outcome, Outcome::Done(_)),
                            "refused",
                            "a running replica refuses {what}"
                        );
                    }
                }
            }
            39..=60 => {
                match self.call("tick", None, rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        self.misplaced("a tick", &outcome, before)?;
                        ensure!(self.state != State::Started || matches!(outcome, Outcome::Done(_)), "refused", "a running replica refuses a tick");
                    }
                }
            }
            _ => {
                let op = ledger::next_op();
                let kind = *rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5]);
                let header = if rng.pct(5) { rng.bytes(4).into() } else { ledger::header(op, kind, 0) };
                let n = rng.usize(20);
                let message = DeliverAppMessage { correlation_id: *rng.pick(&[0, op, u64::MAX]), message_header: header, message_payload: rng.bytes(n).into() };
                match self.call(&format!("command {op} of kind {kind}"), Some(wrap(in_message::Msg::DeliverAppMessage(message))), rng, trace)? {
                    Outcome::Ended => return Ok(false),
                    outcome => {
                        self.misplaced("a command", &outcome, before)?;
                        ensure!(self.state != State::Started || matches!(outcome, Outcome::Done(_)), "refused", "a running replica refuses a command");
                        if self.state == State::Started {
                            self.o.add("commands", 1);
                        }
                        if self.ephemeral && self.state == State::Started && matches!(kind, 0 | 2 | 5) {
                            let shared = self.shared.borrow();
                            if let Some(o) = shared.ops.get(&op) {
                                ensure!(o.acknowledged, "not-immediate", "event {op} of an ephemeral replica isn't acknowledged by the call that made it");
                            }
                        }
                    }
                }
            }
        }
        Ok(true)
    }

    fn misplaced(&mut self, what: &str, outcome: &Outcome, before: u64) -> Result<(), Violation> {
        if self.state != State::Started {
            self.o.add("misplaced", 1);
            self.idle(what, outcome, before)?;
        }
        Ok(())
    }

    /// Answered by a replicated replica, refused by an ephemeral one.
    fn replicated_only(&mut self, what: &str, outcome: &Outcome, before: u64, answer: impl Fn(&out_message::Msg) -> bool) -> Result<(), Violation> {
        self.misplaced(what, outcome, before)?;
        if self.state != State::Started {
            return Ok(());
        }
        match outcome {
            Outcome::Done(sent) => {
                ensure!(!self.ephemeral, "not-refused", "an ephemeral replica doesn't refuse {what}");
                ensure!(sent.iter().filter(|m| answer(m)).count() >= 1, "unanswered", "{what} is answered with {sent:?}");
            }
            Outcome::Refused => ensure!(self.ephemeral, "refused", "a running replica refuses {what}"),
            Outcome::Ended => {}
        }
        Ok(())
    }
}

pub fn case(ephemeral: bool, rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    oak_stub::det::seed(rng.next());
    raft::det_rand::seed(rng.next());
    ledger::reset();
    let shared: SharedRef = Rc::new(RefCell::new(Shared::default()));
    let id = *rng.pick(&[1, 7, u64::MAX - 9]);
    let config = Bytes::from(rng.bytes(4));
    let ticks = *rng.pick(&[0, 20, 300]);
    let actor = Ledger::new(shared.clone(), rng.fork(), Options {
        id,
        config: config.clone(),
        reference: reference(),
        ticks,
        reckless: rng.pct(10),
        pad: 20,
        ephemeral,
    });
    let raft_config = RaftConfig {
        tick_period: 10,
        heartbeat_tick: 1,
        election_tick: 5,
        max_size_per_msg: 0,
        snapshot_config: Some(SnapshotConfig { snapshot_count: *rng.pick(&[1, 3, 1000]), chunk_size: 50, max_pending_chunks: 2 }),
        handshake_retry_tick: 1,
    };
    let raft_config = (rng.pct(if ephemeral { 20 } else { 90 })).then_some(raft_config);
    let logger = rng.pct(70).then(|| Logger::root(Discard, o!()));
    let driver = Driver::new(Watched::new(shared.clone()), Box::new(MemoryStorage::new), snapshots(), actor, communication(id, false), logger);
    if rng.pct(20) {
        shared.borrow_mut().node(id).fails_in = Some(rng.below(60));
    }
    trace.log(format!("replica {id}, ephemeral {ephemeral}, {raft_config:?}"));
    let mut lone =
        Lone { driver, shared, id, ephemeral, raft_config, config, state: State::Created, time: 1, hampered: false, o: Observed::default() };
    let mut alive = true;
    for _ in 0..rng.range(5, 150) {
        if !lone.step(rng, trace)? {
            alive = false;
            break;
        }
    }
    // Whatever it was told, it still works.
    if alive && lone.state == State::Started && !lone.hampered {
        lone.shared.borrow_mut().node(id).fails_in = None;
        let mut served = false;
        for _ in 0..100 {
            lone.time += 100;
            lone.call("tick", None, rng, trace)?;
            let op = ledger::next_op();
            let message = DeliverAppMessage { correlation_id: op, message_header: ledger::header(op, ledger::EVENT, 0), message_payload: Bytes::new() };
            lone.call("last command", Some(wrap(in_message::Msg::DeliverAppMessage(message))), rng, trace)?;
            if lone.shared.borrow().ops.get(&op).is_some_and(|o| o.acknowledged) {
                served = true;
                break;
            }
        }
        ensure!(served, "useless", "the replica doesn't serve anybody any more");
        lone.o.add("served", 1);
    }
    let mut o = std::mem::take(&mut lone.o);
    for (name, n) in &lone.shared.borrow().counters {
        o.add(name, *n);
    }
    o.nontrivial = o.get("started") == 1 && o.get("calls") > 10;
    o.sample = trace.tail(4);
    Ok(o)
}
