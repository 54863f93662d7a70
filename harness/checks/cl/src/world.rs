//! A cluster of real replicas on hosts that delay, drop, reorder, repeat, forge and crash.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, VecDeque},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use anyhow::Result as AnyResult;
use oak_proto_rust::oak::attestation::v1::{
    binary_reference_value, endorsements, kernel_binary_reference_value, reference_values, *,
};
use oak_stub::attestation::{sign_evidence, Attester, SigningKey, StaticAttester};
use oak_stub::session::{InstanceSessionBinder, SessionBinder};
use prost::{bytes::Bytes, Message};
use raft::eraftpb::{Message as RaftMessage, MessageType};
use slog::{o, Discard, Logger};
use tcp_proto::runtime::endpoint::{raft_config::SnapshotConfig, *};
use tcp_runtime::{
    communication::DefaultCommunicationModule,
    driver::Driver,
    handshake::DefaultHandshakeSessionProvider,
    model::*,
    platform::{Application, Host, PalError},
    session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory},
    snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender},
    storage::MemoryStorage,
};
use vcommon::{Observed, Rng, Trace, Violation};

use crate::identity::{communication, endorsed, snapshots};
use crate::ledger::{self, CANARY};
use crate::watch::{Shared, SharedRef, Watched};

// ---------------------------------------------------------------------------------------
// Hosts

pub struct Outbox(pub Vec<OutMessage>);

impl Host for Outbox {
    fn send_messages(&mut self, mut messages: Vec<OutMessage>) {
        self.0.append(&mut messages);
    }

    fn public_signing_key(&self) -> Vec<u8> {
        Vec::new()
    }
}

pub type Node<A> = Driver<Watched, MemoryStorage, DefaultSnapshotProcessor, A, DefaultCommunicationModule>;

/// How a case goes.
#[derive(Clone, Debug, Default)]
pub struct Mode {
    pub unordered: bool,
    pub lossy: bool,
    pub hostile: bool,
    pub crashes: bool,
    pub membership: bool,
    pub partitions: bool,
    pub reckless: bool,
    pub remote_logs: bool,
    pub impostor: bool,
    /// Hosts may hand whole handshakes to the wrong replica, sessions don't recover from that.
    pub disguises: bool,
    /// Hosts turn off replicas in lameduck mode only once they have given way.
    pub patient: bool,
    pub ticks: u64,
    pub pad: usize,
    pub replicas: u64,
}

#[derive(Clone)]
pub struct Packet {
    pub from: u64,
    pub to: u64,
    /// Who the sender takes the recipient for.
    pub named: u64,
    pub msg: in_message::Msg,
}

struct Replica<A: Actor> {
    driver: Node<A>,
    lameduck: bool,
    skew: u64,
    impostor: bool,
    /// It has been a member.
    member: bool,
}

/// What a client sees.
pub struct Reply {
    pub from: u64,
    pub message: DeliverAppMessage,
}

pub struct World<A: Actor> {
    pub mode: Mode,
    pub shared: SharedRef,
    replicas: BTreeMap<u64, Replica<A>>,
    make: Box<dyn Fn(&SharedRef, u64, Rng, &Mode) -> A>,
    pub config: RaftConfig,
    pub app_config: Bytes,
    net: VecDeque<Packet>,
    old: Vec<Packet>,
    blocked: BTreeSet<(u64, u64)>,
    /// Hosts that pass one of two other replicas off as the other.
    disguises: BTreeMap<u64, (u64, u64)>,
    pub time: u64,
    next_id: u64,
    /// Snapshot chunks which have no response: (sender, receiver, delivery id), since when.
    outstanding: BTreeMap<(u64, u64, u64), u64>,
    pub replies: Vec<Reply>,
    pub round: u64,
    pub o: Observed,
    cluster_checks: u64,
    /// Log messages must not show secrets up to this severity.
    hot: u64,
}

fn contains(haystack: &[u8], needle: &[u8]) -> bool {
    haystack.windows(needle.len()).any(|w| w == needle)
}

pub fn wrap(msg: in_message::Msg) -> InMessage {
    InMessage { msg: Some(msg) }
}

fn route(msg: &in_message::Msg) -> Option<(u64, u64)> {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => Some((m.sender_replica_id, m.recipient_replica_id)),
        in_message::Msg::DeliverSnapshotRequest(m) => Some((m.sender_replica_id, m.recipient_replica_id)),
        in_message::Msg::DeliverSnapshotResponse(m) => Some((m.sender_replica_id, m.recipient_replica_id)),
        in_message::Msg::SecureChannelHandshake(m) => Some((m.sender_replica_id, m.recipient_replica_id)),
        _ => None,
    }
}

fn reroute(msg: &mut in_message::Msg, from: Option<u64>, to: Option<u64>) {
    let (f, t) = match msg {
        in_message::Msg::DeliverSystemMessage(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotRequest(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotResponse(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::SecureChannelHandshake(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        _ => return,
    };
    if let Some(from) = from {
        *f = from;
    }
    if let Some(to) = to {
        *t = to;
    }
}

fn payload_mut(msg: &mut in_message::Msg) -> Option<&mut Option<Payload>> {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotRequest(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotResponse(m) => Some(&mut m.payload),
        _ => None,
    }
}

fn what(msg: &in_message::Msg) -> &'static str {
    match msg {
        in_message::Msg::DeliverSystemMessage(_) => "message",
        in_message::Msg::DeliverSnapshotRequest(_) => "snapshot request",
        in_message::Msg::DeliverSnapshotResponse(_) => "snapshot response",
        in_message::Msg::SecureChannelHandshake(_) => "handshake",
        _ => "other",
    }
}

const LEADING_LAMEDUCK: &str = "a lameduck leads";
const LAGGING_LAMEDUCK: &str = "a lameduck lags";

fn majority(config: &BTreeSet<u64>, alive: &BTreeSet<u64>) -> bool {
    config.intersection(alive).count() * 2 > config.len()
}

impl<A: Actor> World<A> {
    pub fn new(mode: Mode, rng: &mut Rng, make: Box<dyn Fn(&SharedRef, u64, Rng, &Mode) -> A>) -> World<A> {
        oak_stub::det::seed(rng.next());
        raft::det_rand::seed(rng.next());
        ledger::reset();
        let heartbeat_tick = rng.range(1, 3) as u32;
        let config = RaftConfig {
            tick_period: *rng.pick(&[1, 10, 100]),
            heartbeat_tick,
            election_tick: heartbeat_tick + rng.range(3, 12) as u32,
            max_size_per_msg: *rng.pick(&[0, 0, 100, 1000, u64::MAX]),
            snapshot_config: Some(SnapshotConfig {
                snapshot_count: *rng.pick(&[1, 3, 3, 8, 20, 1000]),
                chunk_size: *rng.pick(&[7, 20, 50, 200, 100_000]),
                max_pending_chunks: rng.range(1, 4) as u32,
            }),
            handshake_retry_tick: rng.range(1, 3),
        };
        World {
            mode,
            shared: Rc::new(RefCell::new(Shared::default())),
            replicas: BTreeMap::new(),
            make,
            config,
            app_config: Bytes::new(),
            net: VecDeque::new(),
            old: vec![],
            blocked: BTreeSet::new(),
            disguises: BTreeMap::new(),
            time: 1,
            next_id: 1,
            outstanding: BTreeMap::new(),
            replies: vec![],
            round: 0,
            o: Observed::default(),
            cluster_checks: 0,
            hot: 0,
        }
    }

    fn snapshot_count(&self) -> u64 {
        self.config.snapshot_config.as_ref().map(|c| c.snapshot_count).unwrap_or(1000)
    }

    pub fn alive(&self) -> BTreeSet<u64> {
        self.replicas.iter().filter(|(_, r)| !r.impostor).map(|(id, _)| *id).collect()
    }

    /// Who a replica's host makes of another replica.
    fn disguised(&self, at: u64, id: u64) -> u64 {
        match self.disguises.get(&at) {
            Some((a, b)) if id == *a => *b,
            Some((a, b)) if id == *b => *a,
            _ => id,
        }
    }

    /// Hosts start to pass replicas off as each other.
    fn disguise(&mut self, rng: &mut Rng, trace: &mut Trace) {
        self.disguises.clear();
        let ids: Vec<u64> = self.replicas.keys().copied().collect();
        if ids.len() < 3 {
            return;
        }
        for at in &ids {
            let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
            if rng.pct(40) && a != b && a != *at && b != *at {
                self.disguises.insert(*at, (a, b));
            }
        }
        trace.log(format!("disguises: {:?}", self.disguises));
    }

    /// Whether progress and everything committed survive if only these replicas remain.
    fn safe(&self, alive: &BTreeSet<u64>) -> bool {
        self.shared.borrow().possible_configs(alive).iter().all(|c| c.is_empty() || majority(c, alive))
    }

    fn ticking(&self) -> BTreeSet<u64> {
        self.replicas.iter().filter(|(_, r)| !r.impostor && !r.lameduck).map(|(id, _)| *id).collect()
    }

    /// Starts another replica, returns its id.
    pub fn start(&mut self, leader: bool, impostor: bool, rng: &mut Rng, trace: &mut Trace) -> Result<u64, Violation> {
        let id = self.next_id;
        self.next_id += 1;
        let actor = (self.make)(&self.shared, id, rng.fork(), &self.mode);
        let logger = (!self.mode.remote_logs && std::env::var_os("CL_LOG").is_none()).then(|| Logger::root(Discard, o!()));
        let driver = Driver::new(
            Watched::new(self.shared.clone()),
            Box::new(MemoryStorage::new),
            snapshots(),
            actor,
            communication(id, impostor),
            logger,
        );
        self.shared.borrow_mut().node(id).impostor = impostor;
        let skew = if rng.pct(30) { rng.below(1000) } else { 0 };
        self.replicas.insert(id, Replica { driver, lameduck: false, skew, impostor, member: leader });
        trace.log(format!("replica {id} starts, leader {leader}, impostor {impostor}"));
        let start = StartReplicaRequest {
            is_leader: leader,
            replica_id_hint: id,
            raft_config: Some(self.config.clone()),
            app_config: self.app_config.clone(),
            is_ephemeral: false,
            endorsements: Some(endorsed()),
        };
        let out = self.call(id, Some(in_message::Msg::StartReplica(start)), rng, trace)?;
        let started = out.iter().filter(|m| matches!(m, out_message::Msg::StartReplica(r) if r.replica_id == id)).count();
        if started != 1 {
            self.shared.borrow_mut().fail(&["C31"], "start-unanswered", format!("replica {id} doesn't confirm its start"));
        }
        self.judge()?;
        Ok(id)
    }

    fn judge(&mut self) -> Result<(), Violation> {
        let focus = crate::focus();
        let bad = std::mem::take(&mut self.shared.borrow_mut().bad);
        for b in bad {
            if b.of.contains(&focus) || b.of.contains(&"any") {
                return Err(Violation { signature: b.signature.to_string(), message: b.message });
            }
        }
        Ok(())
    }

    /// Lets a replica take one message or the time, and looks at everything that leaves it.
    pub fn call(&mut self, id: u64, msg: Option<in_message::Msg>, rng: &mut Rng, trace: &mut Trace) -> Result<Vec<out_message::Msg>, Violation> {
        let Some(replica) = self.replicas.get_mut(&id) else { return Ok(vec![]) };
        let mut instant = self.time + replica.skew;
        if self.mode.hostile && rng.pct(3) {
            instant = rng.below(instant + 1);
        }
        let asked_state = matches!(msg, Some(in_message::Msg::GetReplicaState(_)));
        let asked_cluster = matches!(msg, Some(in_message::Msg::CheckCluster(_)));
        let impostor = replica.impostor;
        let before = {
            let mut shared = self.shared.borrow_mut();
            let node = shared.node(id);
            (node.given, node.snapshot_size)
        };
        {
            let mut shared = self.shared.borrow_mut();
            let node = shared.node(id);
            node.now = node.now.max(Some(instant));
            node.commands.clear();
        }
        let asked = match &msg {
            Some(in_message::Msg::DeliverAppMessage(m)) => Some(m.clone()),
            _ => None,
        };
        let mut host = Outbox(vec![]);
        let driver = &mut replica.driver;
        let result = catch_unwind(AssertUnwindSafe(|| driver.receive_message(&mut host, instant, msg.map(wrap))));
        match result {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                self.judge()?;
                return vcommon::violation("terminates", format!("replica {id} terminates: {e:?}"));
            }
            Err(payload) => {
                // Other replicas' state is shared with it, the case ends here either way.
                let (message, location) = vcommon::take_panic();
                if vcommon::is_harness_location(&location) {
                    std::panic::resume_unwind(payload);
                }
                self.judge()?;
                return vcommon::violation("panics", format!("replica {id} panics: {message} at {location}"));
            }
        }
        self.o.add("calls", 1);
        self.shared.borrow_mut().settle_outputs(id, &host.0);
        let mut out = vec![];
        let mut clusters = 0;
        for m in host.0 {
            let Some(m) = m.msg else { continue };
            if let (out_message::Msg::Log(l), Some(_)) = (&m, std::env::var_os("CL_LOG")) {
                trace.log(format!("    [{id}] {}", l.message));
            }
            if impostor {
                // Its own secrets are none.
            } else if !matches!(m, out_message::Msg::DeliverAppMessage(_)) {
                let debug = matches!(&m, out_message::Msg::Log(l)
                    if l.severity == LogSeverity::Debug as i32 || l.severity == LogSeverity::Trace as i32);
                if matches!(m, out_message::Msg::Log(_)) {
                    self.o.add("log_messages", 1);
                }
                if !debug && contains(&OutMessage { msg: Some(m.clone()) }.encode_to_vec(), CANARY) {
                    self.shared.borrow_mut().fail(&["C24"], "leak", format!("replica {id} lets a secret out in {m:?}"));
                }
                if !debug {
                    self.hot += 1;
                    self.o.add("messages_searched", 1);
                }
            }
            let packet = match &m {
                out_message::Msg::DeliverSystemMessage(m) => Some(in_message::Msg::DeliverSystemMessage(m.clone())),
                out_message::Msg::DeliverSnapshotRequest(m) => {
                    self.outstanding.insert((m.sender_replica_id, m.recipient_replica_id, m.delivery_id), self.round);
                    Some(in_message::Msg::DeliverSnapshotRequest(m.clone()))
                }
                out_message::Msg::DeliverSnapshotResponse(m) => Some(in_message::Msg::DeliverSnapshotResponse(m.clone())),
                out_message::Msg::SecureChannelHandshake(m) => Some(in_message::Msg::SecureChannelHandshake(m.clone())),
                out_message::Msg::CheckCluster(c) => {
                    clusters += 1;
                    self.o.add("cluster_reports", 1);
                    if !impostor {
                        self.shared.borrow_mut().reported(id, c);
                    }
                    trace.log(format!("replica {id} reports {c:?}"));
                    None
                }
                out_message::Msg::GetReplicaState(s) => {
                    let mut shared = self.shared.borrow_mut();
                    let (given, size) = before;
                    if !impostor && (s.applied_index, s.latest_snapshot_size) != (given, size) {
                        shared.fail(&["C29"], "state", format!("replica {id} reports {s:?}, but has applied {given} and a snapshot of {size} bytes"));
                    }
                    shared.count("states_checked");
                    None
                }
                out_message::Msg::DeliverAppMessage(m) => {
                    self.replies.push(Reply { from: id, message: m.clone() });
                    None
                }
                _ => None,
            };
            if let Some(msg) = packet {
                let (from, to) = route(&msg).unwrap();
                // A host can present a replica to itself.
                let handshake = matches!(msg, in_message::Msg::SecureChannelHandshake(_));
                if from != id || (to == id && !handshake) {
                    self.shared.borrow_mut().fail(&["C18", "C22"], "misrouted", format!("replica {id} sends from {from} to {to}"));
                }
                let (named, mut msg) = (to, msg);
                let to = self.disguised(id, named);
                let shown = self.disguised(to, id);
                if (shown, to) != (from, named) {
                    reroute(&mut msg, Some(shown), Some(to));
                    self.o.add("disguised", 1);
                }
                self.net.push_back(Packet { from, to, named, msg });
            }
            out.push(m);
        }
        let snapshot_count = self.snapshot_count();
        let mut shared = self.shared.borrow_mut();
        shared.settle_commands(id, asked);
        if asked_cluster && clusters == 0 {
            shared.fail(&["C33"], "check-unanswered", format!("replica {id} doesn't answer a cluster check"));
        }
        if asked_state && !out.iter().any(|m| matches!(m, out_message::Msg::GetReplicaState(_))) {
            shared.fail(&["C29"], "state-unanswered", format!("replica {id} doesn't report its state"));
        }
        shared.settle_call(id, snapshot_count);
        shared.settle_report(id);
        drop(shared);
        self.judge()?;
        Ok(out)
    }

    fn deliver(&mut self, packet: Packet, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        if !self.replicas.contains_key(&packet.to) {
            self.lost(&packet, rng, trace)?;
            return Ok(());
        }
        if let in_message::Msg::DeliverSnapshotResponse(m) = &packet.msg {
            self.outstanding.remove(&(packet.to, m.sender_replica_id, m.delivery_id));
        }
        trace.log(format!("{} of {} reaches {}", what(&packet.msg), packet.from, packet.to));
        if (self.mode.hostile || self.mode.lossy) && self.old.len() < 400 {
            self.old.push(packet.clone());
        }
        self.o.see(vcommon::mix(packet.from * 31 + packet.to, vcommon::hash_str(what(&packet.msg))));
        self.call(packet.to, Some(packet.msg), rng, trace)?;
        Ok(())
    }

    /// The host tells the sender of a snapshot what didn't get through.
    fn lost(&mut self, packet: &Packet, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        if let in_message::Msg::DeliverSnapshotRequest(m) = &packet.msg {
            let key = (packet.from, packet.named, m.delivery_id);
            if self.outstanding.remove(&key).is_some() {
                self.fail_snapshot(key, rng, trace)?;
            }
        }
        Ok(())
    }

    fn fail_snapshot(&mut self, (from, to, delivery_id): (u64, u64, u64), rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        trace.log(format!("host of {from} reports delivery {delivery_id} to {to} as failed"));
        self.o.add("snapshot_failures_reported", 1);
        let failure = DeliverSnapshotFailure { sender_replica_id: to, delivery_id };
        self.call(from, Some(in_message::Msg::DeliverSnapshotFailure(failure)), rng, trace)?;
        Ok(())
    }

    fn next_packet(&mut self, rng: &mut Rng) -> Option<Packet> {
        if self.net.is_empty() {
            return None;
        }
        let open: Vec<usize> = (0..self.net.len())
            .filter(|i| !self.blocked.contains(&(self.net[*i].from, self.net[*i].to)))
            .collect();
        if open.is_empty() {
            return None;
        }
        let i = open[rng.usize(open.len())];
        let i = if self.mode.unordered && rng.pct(20) {
            i
        } else {
            // The first between the same two.
            let (from, to) = (self.net[i].from, self.net[i].to);
            (0..=i).find(|j| self.net[*j].from == from && self.net[*j].to == to).unwrap()
        };
        self.net.remove(i)
    }

    /// The replica that last said it leads.
    pub fn leader(&self) -> Option<u64> {
        let shared = self.shared.borrow();
        self.replicas
            .keys()
            .filter_map(|id| {
                let report = shared.nodes.get(id)?.reported.as_ref()?;
                (report.leader_replica_id == *id).then_some((report.leader_term, *id))
            })
            .max()
            .map(|(_, id)| id)
    }

    pub fn change(&mut self, at: u64, id: u64, add: bool, rng: &mut Rng, trace: &mut Trace) -> Result<bool, Violation> {
        let kind = if add { ChangeClusterType::ChangeTypeAddReplica } else { ChangeClusterType::ChangeTypeRemoveReplica };
        trace.log(format!("host asks {at} to {} {id}", if add { "add" } else { "remove" }));
        let (leader, pending) = {
            let mut shared = self.shared.borrow_mut();
            *shared.requested.entry((add, id)).or_default() += 1;
            let view = shared.node(at);
            (view.leader, view.reported.as_ref().is_some_and(|r| r.has_pending_changes))
        };
        let change_id = rng.next();
        let request = ChangeClusterRequest { change_id, replica_id: id, change_type: kind.into() };
        let out = self.call(at, Some(in_message::Msg::ChangeCluster(request)), rng, trace)?;
        let answers: Vec<&ChangeClusterResponse> =
            out.iter().filter_map(|m| if let out_message::Msg::ChangeCluster(c) = m { Some(c) } else { None }).collect();
        if answers.len() != 1 || answers[0].change_id != change_id {
            self.shared.borrow_mut().fail(&["C33"], "change-unanswered", format!("replica {at} answers a membership change with {answers:?}"));
            self.judge()?;
            return Ok(false);
        }
        let accepted = answers[0].change_status == ChangeClusterStatus::ChangeStatusPending as i32;
        let rejected = answers[0].change_status == ChangeClusterStatus::ChangeStatusRejected as i32;
        trace.log(format!("accepted {accepted}"));
        {
            let mut shared = self.shared.borrow_mut();
            if accepted == rejected {
                shared.fail(&["C33"], "change-status", format!("replica {at} answers a membership change with {answers:?}"));
            }
            if accepted && !leader {
                shared.fail(&["C33"], "accepted-by-follower", format!("replica {at} isn't leader and accepts a membership change"));
            }
            if accepted && pending {
                shared.fail(&["C33"], "accepted-while-pending", format!("replica {at} accepts a membership change while another is pending"));
            }
            if rejected {
                *shared.requested.entry((add, id)).or_default() -= 1;
            }
            shared.count(if accepted { "changes_accepted" } else { "changes_rejected" });
        }
        self.judge()?;
        Ok(accepted)
    }

    pub fn command(&mut self, at: u64, correlation: u64, header: Bytes, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let n = rng.usize(20);
        let payload = [CANARY, &rng.bytes(n)[..]].concat().into();
        trace.log(format!("client sends {correlation} to {at}"));
        let message = DeliverAppMessage { correlation_id: correlation, message_header: header, message_payload: payload };
        self.call(at, Some(in_message::Msg::DeliverAppMessage(message)), rng, trace)?;
        Ok(())
    }

    /// A client's command for the ledger.
    pub fn client(&mut self, at: u64, rng: &mut Rng, trace: &mut Trace) -> Result<u64, Violation> {
        let op = ledger::next_op();
        let kind = *rng.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5]);
        self.client_op(at, op, kind, rng, trace)?;
        Ok(op)
    }

    pub fn client_op(&mut self, at: u64, op: u64, kind: u8, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let correlation = *rng.pick(&[0, op, op, op + 1000, u64::MAX]);
        trace.log(format!("operation {op} kind {kind}"));
        let before = self.replies.len();
        self.command(at, correlation, ledger::header(op, kind, 0), rng, trace)?;
        if matches!(kind, ledger::REPLY | ledger::BOTH | ledger::REPLIES) {
            let of_op = self.replies[before..]
                .iter()
                .filter(|r| r.message.correlation_id == correlation && ledger::parse(&r.message.message_header).is_some_and(|(o, ..)| o == op))
                .count();
            if of_op == 0 {
                self.shared.borrow_mut().fail(&["C20"], "no-reply", format!("replica {at} doesn't pass on the immediate reply to {op}"));
                self.judge()?;
            }
        }
        Ok(())
    }

    pub fn tick(&mut self, id: u64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        self.o.add("ticks", 1);
        trace.log(format!("tick {id}"));
        self.call(id, None, rng, trace)?;
        Ok(())
    }

    fn drop_replica(&mut self, id: u64, trace: &mut Trace, why: &str) {
        trace.log(format!("replica {id} is gone: {why}"));
        self.replicas.remove(&id);
        // Nobody is told anything any more.
        self.shared.borrow_mut().node(id).reported = None;
        self.o.add("gone", 1);
    }

    // -----------------------------------------------------------------------------------

    /// One step of an uncooperative environment.
    pub fn step(&mut self, client: &mut dyn FnMut(&mut World<A>, u64, &mut Rng, &mut Trace) -> Result<(), Violation>, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let ids: Vec<u64> = self.replicas.keys().copied().collect();
        let any = *rng.pick(&ids);
        match rng.below(100) {
            0..=54 => {
                if let Some(packet) = self.next_packet(rng) {
                    self.deliver(packet, rng, trace)?;
                } else {
                    self.pass(rng);
                    self.tick(any, rng, trace)?;
                }
            }
            55..=74 => {
                self.pass(rng);
                self.tick(any, rng, trace)?;
            }
            75..=84 => {
                let at = match self.leader() {
                    Some(leader) if rng.pct(80) => leader,
                    _ => any,
                };
                if !self.replicas[&at].impostor {
                    client(self, at, rng, trace)?;
                }
            }
            85 => {
                if self.mode.crashes {
                    let mut alive = self.ticking();
                    let at = if rng.pct(50) { self.leader().unwrap_or(any) } else { any };
                    alive.remove(&at);
                    if !self.replicas[&at].impostor && self.safe(&alive) {
                        self.o.add("crashes", 1);
                        if rng.pct(50) {
                            // With what it had just sent.
                            self.net.retain(|p| p.from != at);
                        }
                        self.drop_replica(at, trace, "crash");
                    }
                }
            }
            86..=87 => {
                if self.mode.partitions {
                    if !self.blocked.is_empty() && rng.pct(60) {
                        self.blocked.clear();
                        trace.log("partition ends");
                    } else {
                        let (a, _): (Vec<u64>, Vec<u64>) = ids.iter().partition(|_| rng.pct(50));
                        let one_way = rng.pct(20);
                        for x in &ids {
                            for y in &ids {
                                if a.contains(x) && !a.contains(y) {
                                    self.blocked.insert((*x, *y));
                                    if !one_way {
                                        self.blocked.insert((*y, *x));
                                    }
                                }
                            }
                        }
                        self.o.add("partitions", 1);
                        trace.log(format!("partition {:?}", self.blocked));
                    }
                }
            }
            88 => {
                if self.mode.lossy && !self.net.is_empty() {
                    let i = rng.usize(self.net.len());
                    let packet = self.net.remove(i).unwrap();
                    trace.log(format!("{} of {} to {} is lost", what(&packet.msg), packet.from, packet.to));
                    self.o.add("lost", 1);
                    if rng.pct(70) {
                        self.lost(&packet, rng, trace)?;
                    }
                }
            }
            89 => {
                if self.mode.lossy && !self.old.is_empty() {
                    let packet = rng.pick(&self.old).clone();
                    self.o.add("repeated", 1);
                    trace.log(format!("{} of {} to {} is repeated", what(&packet.msg), packet.from, packet.to));
                    self.deliver(packet, rng, trace)?;
                }
            }
            90..=92 => {
                if self.mode.hostile {
                    self.tamper(rng, trace)?;
                }
            }
            93..=94 => {
                if self.mode.membership {
                    self.rearrange(rng, trace)?;
                }
            }
            95 => {
                self.cluster_checks += 1;
                trace.log(format!("host checks the cluster at {any}"));
                self.call(any, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})), rng, trace)?;
            }
            96 => {
                trace.log(format!("host asks {any} for its state"));
                self.call(any, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})), rng, trace)?;
            }
            97 => {
                let any = if self.mode.patient && rng.pct(50) { self.leader().unwrap_or(any) } else { any };
                if self.mode.patient || self.mode.crashes && rng.pct(30) {
                    let mut alive = self.ticking();
                    alive.remove(&any);
                    if !self.replicas[&any].impostor && self.safe(&alive) {
                        trace.log(format!("{any} enters lameduck mode"));
                        self.o.add("lameducks", 1);
                        self.replicas.get_mut(&any).unwrap().lameduck = true;
                        self.shared.borrow_mut().lameduck(any);
                        self.call(any, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})), rng, trace)?;
                    }
                }
            }
            98 => {
                // Time jumps.
                self.time += self.config.tick_period * rng.range(1, 40);
            }
            _ => {
                // A burst of ticks, as if nobody else were there.
                for _ in 0..rng.range(1, 20) {
                    self.pass(rng);
                    self.tick(any, rng, trace)?;
                }
            }
        }
        self.update_members();
        Ok(())
    }

    fn pass(&mut self, rng: &mut Rng) {
        let period = self.config.tick_period;
        self.time += rng.below(2 * period + 1);
    }

    fn update_members(&mut self) {
        let shared = self.shared.borrow();
        let (_, config) = shared.latest_config();
        for (id, r) in self.replicas.iter_mut() {
            if config.contains(id) {
                r.member = true;
            }
        }
    }

    fn rearrange(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let Some(leader) = self.leader() else { return Ok(()) };
        let (_, config) = self.shared.borrow().latest_config();
        let at = if rng.pct(85) { leader } else { *rng.pick(&self.replicas.keys().copied().collect::<Vec<_>>()) };
        match rng.below(10) {
            0..=4 => {
                let waiting: Vec<u64> = self.replicas.iter().filter(|(_, r)| !r.member && !r.impostor).map(|(id, _)| *id).collect();
                let id = match waiting.first() {
                    Some(id) => *id,
                    None if self.replicas.len() < 7 => self.start(false, false, rng, trace)?,
                    None => return Ok(()),
                };
                // It mustn't bring the others below a majority.
                let mut alive = self.ticking();
                alive.insert(id);
                if self.safe_with(&alive, true, id) {
                    self.change(at, id, true, rng, trace)?;
                }
            }
            5..=8 => {
                if config.is_empty() {
                    return Ok(());
                }
                let members: Vec<u64> = config.iter().copied().collect();
                let id = *rng.pick(&members);
                if members.len() > 1 && self.safe_with(&self.ticking(), false, id) {
                    self.change(at, id, false, rng, trace)?;
                }
            }
            _ => {
                // No such change.
                trace.log(format!("host asks {at} for an unknown change"));
                let request = ChangeClusterRequest { change_id: 1, replica_id: 1, change_type: *rng.pick(&[0, 3, -1]) };
                let out = self.call(at, Some(in_message::Msg::ChangeCluster(request)), rng, trace)?;
                let fine = out.iter().any(|m| matches!(m, out_message::Msg::ChangeCluster(c) if c.change_status == ChangeClusterStatus::ChangeStatusRejected as i32));
                if !fine {
                    self.shared.borrow_mut().fail(&["C33"], "unknown-change", format!("replica {at} doesn't reject an unknown change"));
                    self.judge()?;
                }
            }
        }
        Ok(())
    }

    fn safe_with(&self, alive: &BTreeSet<u64>, add: bool, id: u64) -> bool {
        self.shared.borrow().possible_configs(alive).iter().all(|c| {
            let mut c = c.clone();
            if add {
                c.insert(id);
            } else {
                c.remove(&id);
            }
            // Removing must leave somebody who can go on without it.
            let mut rest = alive.clone();
            if !add {
                rest.remove(&id);
            }
            !c.is_empty() && majority(&c, alive) && majority(&c, &rest)
        })
    }

    fn tamper(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        if self.mode.disguises && rng.pct(4) {
            self.disguise(rng, trace);
        }
        let ids: Vec<u64> = self.replicas.keys().copied().collect();
        let to = *rng.pick(&ids);
        let from = if rng.pct(80) { *rng.pick(&ids) } else { rng.below(12) };
        let pick = |w: &World<A>, rng: &mut Rng| -> Option<Packet> {
            let all = w.net.len() + w.old.len();
            if all == 0 {
                return None;
            }
            let i = rng.usize(all);
            Some(if i < w.net.len() { w.net[i].clone() } else { w.old[i - w.net.len()].clone() })
        };
        let msg = match rng.below(10) {
            0..=2 => {
                // Altered on the way.
                let Some(mut p) = pick(self, rng) else { return Ok(()) };
                if let Some(payload) = payload_mut(&mut p.msg) {
                    match rng.below(6) {
                        0 => *payload = None,
                        1 => *payload = Some(Payload::default()),
                        2 => {
                            if let Some(p) = payload {
                                p.contents = p.contents.slice(..p.contents.len() / 2);
                            }
                        }
                        3 => {
                            if let Some(p) = payload {
                                p.nonce = Bytes::from(rng.bytes(12));
                            }
                        }
                        _ => {
                            if let Some(p) = payload {
                                let mut c = p.contents.to_vec();
                                if !c.is_empty() {
                                    let i = rng.usize(c.len());
                                    c[i] ^= 1 << rng.below(8);
                                }
                                p.contents = c.into();
                            }
                        }
                    }
                } else if let in_message::Msg::SecureChannelHandshake(h) = &mut p.msg {
                    if rng.pct(50) {
                        h.encryption = None;
                    } else {
                        // One bit of its encoding.
                        let mut c = h.encode_to_vec();
                        if !c.is_empty() {
                            let i = rng.usize(c.len());
                            c[i] ^= 1 << rng.below(8);
                        }
                        if let Ok(other) = SecureChannelHandshake::decode(c.as_slice()) {
                            *h = other;
                        }
                    }
                }
                self.o.add("altered", 1);
                (p.to, p.msg)
            }
            3..=4 => {
                // Sent to or as someone else.
                let Some(mut p) = pick(self, rng) else { return Ok(()) };
                if rng.pct(50) {
                    reroute(&mut p.msg, Some(from), None);
                    self.o.add("redirected", 1);
                    (p.to, p.msg)
                } else {
                    reroute(&mut p.msg, None, rng.pct(50).then_some(to));
                    self.o.add("redirected", 1);
                    (to, p.msg)
                }
            }
            5 => {
                // Again.
                let Some(p) = pick(self, rng) else { return Ok(()) };
                self.o.add("repeated", 1);
                (p.to, p.msg)
            }
            6..=7 => {
                // A raft message of the host's own.
                let types = [
                    MessageType::MsgAppend,
                    MessageType::MsgAppendResponse,
                    MessageType::MsgRequestVote,
                    MessageType::MsgRequestVoteResponse,
                    MessageType::MsgHeartbeat,
                    MessageType::MsgHeartbeatResponse,
                    MessageType::MsgTimeoutNow,
                    MessageType::MsgPropose,
                    MessageType::MsgHup,
                ];
                let m = RaftMessage {
                    msg_type: *rng.pick(&types) as i32,
                    from,
                    to,
                    term: rng.below(50),
                    log_term: rng.below(10),
                    index: rng.below(100),
                    commit: rng.below(100),
                    ..Default::default()
                };
                self.o.add("forged", 1);
                let payload = Some(Payload { contents: m.encode_to_vec().into(), ..Default::default() });
                (to, in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                    recipient_replica_id: to,
                    sender_replica_id: from,
                    payload,
                    ..Default::default()
                }))
            }
            8 => {
                self.o.add("forged", 1);
                let n = rng.usize(40);
                let payload = rng.pct(80).then(|| Payload { contents: rng.bytes(n).into(), ..Default::default() });
                let delivery_id = rng.below(10);
                let snapshot = if rng.pct(50) {
                    in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                        recipient_replica_id: to, sender_replica_id: from, delivery_id, payload, ..Default::default()
                    })
                } else {
                    in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                        recipient_replica_id: to, sender_replica_id: from, delivery_id, payload, ..Default::default()
                    })
                };
                (to, snapshot)
            }
            _ => {
                self.o.add("forged", 1);
                (to, in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: from, delivery_id: rng.below(20) }))
            }
        };
        trace.log(format!("host tampers: {} {:?} to {}", what(&msg.1), route(&msg.1), msg.0));
        self.call(msg.0, Some(msg.1), rng, trace)?;
        Ok(())
    }

    // -----------------------------------------------------------------------------------

    /// Delivers everything in order.
    pub fn flush(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let mut budget = 3000;
        while let Some(packet) = self.net.pop_front() {
            self.deliver(packet, rng, trace)?;
            budget -= 1;
            if budget == 0 {
                self.o.add("busy_rounds", 1);
                break;
            }
        }
        Ok(())
    }

    /// A round of a cooperative environment: everything arrives, then everyone's time passes.
    pub fn calm_round(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        self.round += 1;
        self.flush(rng, trace)?;
        let stale: Vec<(u64, u64, u64)> =
            self.outstanding.iter().filter(|(_, since)| self.round > **since + 20).map(|(k, _)| *k).collect();
        for key in stale {
            self.outstanding.remove(&key);
            if self.replicas.contains_key(&key.0) {
                self.fail_snapshot(key, rng, trace)?;
            }
        }
        let ids: Vec<u64> = self.replicas.keys().copied().collect();
        if self.round % 50 == 0 {
            // Chunks may wait for a session with a replica that is gone for good.
            for gone in (1..self.next_id).filter(|id| !self.replicas.contains_key(id)).collect::<Vec<_>>() {
                for id in &ids {
                    self.fail_snapshot((*id, gone, 0), rng, trace)?;
                }
            }
        }
        self.time += self.config.tick_period;
        for id in ids {
            self.tick(id, rng, trace)?;
        }
        self.flush(rng, trace)?;
        self.update_members();
        Ok(())
    }

    /// Grows the cluster to its size in peace.
    pub fn bootstrap(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let saved = self.mode.clone();
        self.mode.hostile = false;
        self.start(true, false, rng, trace)?;
        for _ in 1..saved.replicas {
            self.start(false, false, rng, trace)?;
        }
        if saved.impostor {
            self.start(false, true, rng, trace)?;
        }
        self.settle("bootstrap", rng, trace)?;
        self.mode = saved;
        Ok(())
    }

    fn bound(&self) -> u64 {
        60 * (self.config.election_tick as u64) + 400
    }

    /// The environment becomes cooperative: the cluster has to become whole, with everyone who
    /// is alive a member and nobody else, within a bounded time. Returns its leader.
    pub fn settle(&mut self, when: &str, rng: &mut Rng, trace: &mut Trace) -> Result<u64, Violation> {
        let saved = self.mode.clone();
        self.mode.hostile = false;
        self.mode.unordered = false;
        self.blocked.clear();
        self.disguises.clear();
        trace.log(format!("calm: {when}"));
        self.o.add("calms", 1);
        let bound = self.bound();
        let start = self.round;
        let mut stage = "no leader";
        loop {
            if self.round - start > bound {
                let of: &'static [&'static str] = match stage {
                    "change pending" => &["C22", "C33"],
                    LEADING_LAMEDUCK | LAGGING_LAMEDUCK => &["C36"],
                    "lagging" => &["C22", "C29"],
                    _ => &["C22"],
                };
                let message = format!("{when}: {stage} after {bound} calm rounds: {}", self.describe());
                self.shared.borrow_mut().fail(of, "stuck", message);
                self.judge()?;
                // Not this check's concern, but the case can't go on.
                self.o.add("stuck", 1);
                return Err(Violation { signature: String::new(), message: String::new() });
            }
            self.calm_round(rng, trace)?;
            // Hosts turn off who is no longer needed.
            let (_, config) = self.shared.borrow().latest_config();
            let ids: Vec<u64> = self.replicas.keys().copied().collect();
            let mut waiting = "";
            for id in ids {
                let r = &self.replicas[&id];
                if r.impostor || !(r.lameduck || (r.member && !config.contains(&id))) {
                    continue;
                }
                let mut rest = self.alive();
                rest.remove(&id);
                let in_time = r.member && config.contains(&id) && r.lameduck;
                if self.mode.patient && in_time && majority(&config, &rest) && self.shared.borrow().no_change_ahead(&rest) {
                    // Not before somebody else leads and it is up to date.
                    let shared = self.shared.borrow();
                    let leads = rest.iter().map(|id| &shared.nodes[id]).filter(|n| n.leader).max_by_key(|n| n.led);
                    let lame = &shared.nodes[&id];
                    match leads {
                        Some(other) if !lame.leader || other.led > lame.led => {
                            if other.given != lame.given || other.config != lame.config {
                                waiting = LAGGING_LAMEDUCK;
                                continue;
                            }
                        }
                        _ => {
                            waiting = LEADING_LAMEDUCK;
                            continue;
                        }
                    }
                    drop(shared);
                    self.o.add("lameducks_released", 1);
                }
                let r = &self.replicas[&id];
                if majority(&config, &rest) && (self.shared.borrow().no_change_ahead(&rest) || (!config.contains(&id) && self.shared.borrow().dispensable(id, &rest))) {
                    self.drop_replica(id, trace, "turned off");
                }
            }
            if !waiting.is_empty() {
                stage = waiting;
                continue;
            }
            let Some(leader) = self.leader() else {
                stage = "no leader";
                continue;
            };
            let report = self.shared.borrow().nodes[&leader].reported.clone().unwrap();
            let members: BTreeSet<u64> = report.cluster_replica_ids.iter().copied().collect();
            let alive = self.alive();
            if report.has_pending_changes {
                stage = "change pending";
                continue;
            }
            if let Some(id) = alive.iter().find(|id| !members.contains(id) && !self.replicas[id].member) {
                stage = "change pending";
                self.change(leader, *id, true, rng, trace)?;
                continue;
            }
            if let Some(id) = members.iter().find(|id| !alive.contains(id)) {
                stage = "change pending";
                self.change(leader, *id, false, rng, trace)?;
                continue;
            }
            if members != alive {
                stage = "change pending";
                continue;
            }
            let shared = self.shared.borrow();
            let given = shared.nodes[&leader].given;
            if alive.iter().any(|id| shared.nodes[id].given != given || shared.nodes[id].last_event != shared.nodes[&leader].last_event) {
                stage = "lagging";
                continue;
            }
            drop(shared);
            let rounds = self.round - start;
            if rounds > bound / 4 {
                self.o.add("slow_calms", 1);
            }
            self.o.add("calm_rounds", rounds);
            self.mode = saved;
            return Ok(leader);
        }
    }

    pub fn describe(&self) -> String {
        let shared = self.shared.borrow();
        self.replicas
            .keys()
            .map(|id| {
                let n = &shared.nodes[id];
                format!("[{id}: term {} leader {} given {} config {:?} reported {:?}]", n.term, n.leader, n.given, n.config, n.reported)
            })
            .collect::<Vec<_>>()
            .join(" ")
            + &format!(" time {} packets {} config {:?}", self.time, self.net.len(), self.config)
    }

    /// Whether a client gets its event committed within a bounded time of calm. The leader may
    /// change while sessions are being repaired, the client then turns to the new one.
    pub fn serve(&mut self, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        // Sessions may need to time out and to be established again.
        let bound = self.bound();
        for attempt in 0..5 {
            let leader = self.settle("service", rng, trace)?;
            let op = ledger::next_op();
            let before = self.replies.len();
            let saved = self.mode.clone();
            self.mode.hostile = false;
            self.mode.unordered = false;
            self.client_op(leader, op, ledger::EVENT, rng, trace)?;
            let mut served = false;
            for _ in 0..bound {
                self.calm_round(rng, trace)?;
                served = self.replies[before..].iter().any(|r| {
                    r.from == leader
                        && ledger::parse(&r.message.message_header).is_some_and(|(o, _, status)| o == op && status == ledger::STATUS_OK)
                });
                if served || self.leader() != Some(leader) {
                    break;
                }
            }
            self.mode = saved;
            if served {
                self.o.add("served", 1);
                self.settle("after service", rng, trace)?;
                return Ok(());
            }
            if self.leader() == Some(leader) {
                let message = format!("leader {leader} doesn't serve operation {op} within {bound} calm rounds: {}", self.describe());
                // Sessions may stay with the replica they were led to.
                let of: &'static [&'static str] = if self.mode.disguises { &["C22"] } else { &["C20", "C22"] };
                self.shared.borrow_mut().fail(of, "not-served", message);
                self.judge()?;
                return Ok(());
            }
            trace.log(format!("leader has changed, attempt {attempt}"));
            self.o.add("service_retries", 1);
        }
        let message = format!("no leader stays long enough to serve a client: {}", self.describe());
        self.shared.borrow_mut().fail(&["C22"], "not-served", message);
        self.judge()
    }

    /// Nothing that was acknowledged may be missing from any member, now that it's calm.
    pub fn audit(&mut self) -> Result<(), Violation> {
        let alive = self.alive();
        {
            let mut shared = self.shared.borrow_mut();
            let events = shared.prefix.keys().copied().filter(|i| *i > 0).max().unwrap_or(0);
            let count = shared.prefix.get(&events).map(|p| p.0).unwrap_or(0);
            let mut missing = vec![];
            for id in &alive {
                let node = &shared.nodes[id];
                if node.last_event != events {
                    missing.push(format!("replica {id} has events up to {}, but {events} has been applied", node.last_event));
                }
            }
            for message in missing {
                shared.fail(&["C18", "C19"], "lost-event", message);
            }
            let acknowledged: Vec<(u64, Option<u64>)> =
                shared.ops.iter().filter(|(_, o)| o.acknowledged).map(|(n, o)| (*n, o.index)).collect();
            let n = acknowledged.len() as u64;
            for (op, index) in acknowledged {
                if index.is_none_or(|i| i > events || !shared.prefix.contains_key(&i)) {
                    shared.fail(&["C19"], "lost-acknowledged", format!("operation {op}, acknowledged at {index:?}, is gone"));
                }
            }
            *shared.counters.entry("acknowledged").or_insert(0) += n;
            let _ = count;
        }
        self.judge()
    }

    pub fn finish(&mut self) -> Observed {
        let shared = self.shared.borrow();
        let mut o = std::mem::take(&mut self.o);
        for (k, v) in &shared.counters {
            o.add(k, *v);
        }
        o.add("leaders", shared.leaders.len() as u64);
        if shared.leaders.len() > 1 {
            o.add("leader_changes", shared.leaders.len() as u64 - 1);
        }
        o
    }

    pub fn known(&self) -> Vec<u64> {
        self.replicas.keys().copied().collect()
    }

    /// Stops a replica for good as its host should.
    pub fn stop(&mut self, id: u64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        self.shared.borrow_mut().node(id).stopped = true;
        let out = self.call(id, Some(in_message::Msg::StopReplica(StopReplicaRequest {})), rng, trace)?;
        if out.iter().filter(|m| matches!(m, out_message::Msg::StopReplica(_))).count() != 1 {
            self.shared.borrow_mut().fail(&["C31"], "stop-unanswered", format!("replica {id} doesn't confirm that it stopped"));
        }
        if self.shared.borrow_mut().node(id).shutdowns != 1 {
            self.shared.borrow_mut().fail(&["C31"], "not-shut-down", format!("replica {id} stops without shutting its actor down"));
        }
        // A host may still let time pass.
        for _ in 0..rng.below(10) {
            self.time += self.config.tick_period * 5;
            self.call(id, None, rng, trace)?;
        }
        self.drop_replica(id, trace, "stopped");
        self.judge()
    }
}

impl Shared {
    /// What leaves a replica is what its actor handed out, in that order and nothing else.
    pub fn settle_outputs(&mut self, id: u64, out: &[OutMessage]) {
        for m in out {
            let Some(out_message::Msg::DeliverAppMessage(m)) = &m.msg else { continue };
            self.count("replies");
            match self.node(id).outputs.pop_front() {
                None => self.fail(&["C20"], "reply-from-nowhere", format!("replica {id} sends a command its actor didn't give out")),
                Some(expected) if expected != *m => {
                    self.fail(&["C20"], "reply-altered", format!("replica {id} sends {m:?} instead of {expected:?}"))
                }
                Some(_) => {}
            }
            if let Some((op, _, ledger::STATUS_OK)) = ledger::parse(&m.message_header) {
                if let Some(o) = self.ops.get_mut(&op) {
                    if o.acknowledged {
                        self.fail(&["C20"], "replied-twice", format!("operation {op} is acknowledged twice"));
                    } else {
                        o.acknowledged = true;
                        if o.proposer != id {
                            self.fail(&["C20"], "replied-elsewhere", format!("operation {op} is acknowledged by {id}"));
                        }
                    }
                }
            }
        }
    }

    /// Of the messages the host delivers to the actor, every one reaches it once and as it was.
    pub fn settle_commands(&mut self, id: u64, asked: Option<DeliverAppMessage>) {
        let node = self.node(id);
        let commands: Vec<_> = node.commands.drain(..).flatten().collect();
        if node.inits == 0 || node.shutdowns > 0 || node.failed {
            if !commands.is_empty() && node.inits == 0 {
                self.fail(&["C31"], "callback-outside-life", format!("replica {id} hands its actor a command before it is started"));
            }
            return;
        }
        let right = match (&asked, commands.as_slice()) {
            (None, []) => true,
            (Some(m), [c]) => m.correlation_id == c.correlation_id && m.message_header == c.header && m.message_payload == c.payload,
            _ => false,
        };
        if !right {
            self.fail(&["C20", "C30"], "command", format!("replica {id} is given {asked:?} and hands its actor {commands:?}"));
        }
    }

    fn reported(&mut self, id: u64, report: &CheckClusterResponse) {
        let leader = report.leader_replica_id;
        if leader != 0 {
            match self.leaders.get(&report.leader_term) {
                Some(other) if *other != leader => {
                    let other = *other;
                    self.fail(&["C18", "C33"], "two-leaders", format!("replicas {leader} and {other} both lead in term {}", report.leader_term))
                }
                _ => {
                    self.leaders.insert(report.leader_term, leader);
                }
            }
        }
        if leader == id {
            let node = self.node(id);
            let config = node.config.clone();
            let term = node.term;
            let reported: BTreeSet<u64> = report.cluster_replica_ids.iter().copied().collect();
            if reported != config || reported.len() != report.cluster_replica_ids.len() {
                self.fail(&["C33"], "reported-members", format!("leader {id} reports members {:?}, they are {config:?}", report.cluster_replica_ids));
            }
            // The first leader starts in term 1 only after an election.
            if term != 0 && report.leader_term != term {
                self.fail(&["C33"], "reported-term", format!("leader {id} reports term {} in term {term}", report.leader_term));
            }
        }
        self.node(id).reported = Some(report.clone());
    }

    /// Hosts are told of every change of leadership and membership.
    fn settle_report(&mut self, id: u64) {
        let node = self.node(id);
        if node.impostor || node.stopped || node.inits == 0 {
            return;
        }
        let (leader, config) = (node.leader, node.config.clone());
        let report = node.reported.clone().unwrap_or_default();
        let says = report.leader_replica_id == id;
        if leader != says {
            self.fail(&["C33"], "unreported-leadership", format!("replica {id}: leader is {leader}, its host was told {report:?}"));
        } else if leader && report.cluster_replica_ids.iter().copied().collect::<BTreeSet<_>>() != config {
            self.fail(&["C33"], "unreported-members", format!("leader {id} has members {config:?}, its host was told {report:?}"));
        }
    }
}

pub fn recoverable(e: &PalError) -> bool {
    *e == PalError::InvalidOperation
}
