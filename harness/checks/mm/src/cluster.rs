//! Clusters of real replicas that run on and on.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_atomic_counter_service::{
    actor::CounterActor,
    apps::atomic_counter::service::{
        atomic_counter_in_message, counter_request, AtomicCounterInMessage, CounterCompareAndSwapRequest, CounterConfig,
        CounterRequest,
    },
};
use tcp_proto::runtime::endpoint::{raft_config::SnapshotConfig, *};
use tcp_runtime::{
    communication::DefaultCommunicationModule,
    consensus::RaftSimple,
    driver::Driver,
    platform::{Application, Host},
    snapshot::DefaultSnapshotProcessor,
    storage::MemoryStorage,
};
use vcommon::{violation, Observed, Rng, Trace, Violation};

use crate::{
    alloc::{held, inside},
    identity::{communication, endorsed, reference, snapshots},
    Windows,
};

#[derive(Default)]
struct Outbox(Vec<OutMessage>);

impl Host for Outbox {
    fn send_messages(&mut self, mut messages: Vec<OutMessage>) {
        self.0.append(&mut messages);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        Vec::new()
    }
}

type Node = Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, CounterActor, DefaultCommunicationModule>;

struct Cluster {
    nodes: BTreeMap<u64, Node>,
    config: RaftConfig,
    remote_logs: bool,
    reports: BTreeMap<u64, CheckClusterResponse>,
    /// Encoded messages on their way: from, to, what.
    net: VecDeque<(u64, u64, Vec<u8>)>,
    /// Chunks that weren't answered yet and when they were sent.
    chunks: BTreeMap<(u64, u64, u64), u64>,
    lossy: u64,
    /// Whose messages don't get through.
    cut: Option<u64>,
    /// Who doesn't hear from the leader.
    deaf: Option<u64>,
    time: u64,
    waiting: BTreeSet<u64>,
    next: u64,
    leader: u64,
    rng: Rng,
}

impl Cluster {
    fn new(rng: &mut Rng) -> Cluster {
        Cluster {
            nodes: BTreeMap::new(),
            config: RaftConfig {
                tick_period: 10,
                election_tick: rng.range(10, 20) as u32,
                heartbeat_tick: rng.range(1, 3) as u32,
                max_size_per_msg: *rng.pick(&[100, 100_000]),
                snapshot_config: Some(SnapshotConfig {
                    snapshot_count: rng.range(2, 20),
                    chunk_size: rng.range(10, 200),
                    max_pending_chunks: rng.range(1, 5) as u32,
                }),
                handshake_retry_tick: rng.range(3, 8),
            },
            remote_logs: rng.pct(20),
            reports: BTreeMap::new(),
            net: VecDeque::new(),
            chunks: BTreeMap::new(),
            lossy: 0,
            cut: None,
            deaf: None,
            time: 0,
            waiting: BTreeSet::new(),
            next: 0,
            leader: 1,
            rng: rng.fork(),
        }
    }

    fn start(&mut self, id: u64, leader: bool, o: &mut Observed) -> Result<(), Violation> {
        let logger = (!self.remote_logs).then(|| Logger::root(Discard, o!()));
        // The simulated Oak remembers every key it has seen.
        let identity = if id < 4 { id } else { 4 + id % 2 };
        let node = inside(|| {
            Driver::new(
                RaftSimple::new(),
                Box::new(MemoryStorage::new),
                snapshots(),
                CounterActor::new_with_reference_values(reference()),
                communication(identity, false),
                logger,
            )
        });
        self.nodes.insert(id, node);
        let start = StartReplicaRequest {
            is_leader: leader,
            replica_id_hint: id,
            raft_config: Some(self.config.clone()),
            app_config: CounterConfig::default().encode_to_vec().into(),
            is_ephemeral: false,
            endorsements: Some(endorsed()),
        };
        self.call(id, Some(in_message::Msg::StartReplica(start)), o)
    }

    fn call(&mut self, id: u64, msg: Option<in_message::Msg>, o: &mut Observed) -> Result<(), Violation> {
        let Some(node) = self.nodes.get_mut(&id) else { return Ok(()) };
        // Encoded and decoded, so that what the replica keeps of it is counted.
        let bytes = msg.map(|m| InMessage { msg: Some(m) }.encode_to_vec());
        let time = self.time;
        let mut host = Outbox::default();
        let result = inside(|| {
            let msg = bytes.map(|b| InMessage::decode(Bytes::from(b)).expect("own message"));
            node.receive_message(&mut host, time, msg)
        });
        if let Err(e) = result {
            return violation("fails", format!("replica {id} fails: {e:?}"));
        }
        for m in host.0 {
            let Some(m) = m.msg else { continue };
            let (to, packet) = match m {
                out_message::Msg::DeliverSystemMessage(m) => (m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m)),
                out_message::Msg::DeliverSnapshotRequest(m) => {
                    o.add("transfers", 1);
                    self.chunks.insert((id, m.recipient_replica_id, m.delivery_id), time);
                    (m.recipient_replica_id, in_message::Msg::DeliverSnapshotRequest(m))
                }
                out_message::Msg::DeliverSnapshotResponse(m) => (m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m)),
                out_message::Msg::SecureChannelHandshake(m) => (m.recipient_replica_id, in_message::Msg::SecureChannelHandshake(m)),
                out_message::Msg::CheckCluster(c) => {
                    let c = CheckClusterResponse::decode(Bytes::from(c.encode_to_vec())).expect("own message");
                    self.reports.insert(id, c);
                    continue;
                }
                out_message::Msg::DeliverAppMessage(m) => {
                    self.waiting.remove(&m.correlation_id);
                    o.add("commands_answered", 1);
                    continue;
                }
                _ => continue,
            };
            self.net.push_back((id, to, InMessage { msg: Some(packet) }.encode_to_vec()));
        }
        Ok(())
    }

    fn round(&mut self, o: &mut Observed) -> Result<(), Violation> {
        self.time += self.config.tick_period;
        for id in self.nodes.keys().copied().collect::<Vec<_>>() {
            self.call(id, None, o)?;
        }
        for _ in 0..400 {
            let Some((from, to, bytes)) = self.net.pop_front() else { break };
            if self.deaf == Some(to) && from == self.leader {
                continue;
            }
            if self.cut == Some(from) || self.cut == Some(to) || self.rng.pct(self.lossy) || !self.nodes.contains_key(&to) {
                continue;
            }
            let msg = InMessage::decode(Bytes::from(bytes)).expect("own message").msg;
            if let Some(in_message::Msg::DeliverSnapshotResponse(m)) = &msg {
                self.chunks.remove(&(to, from, m.delivery_id));
            }
            self.call(to, msg, o)?;
        }
        // Hosts report what was lost.
        let late: Vec<_> = self.chunks.iter().filter(|(_, t)| self.time > **t + 5 * self.config.tick_period).map(|(k, _)| *k).collect();
        for key in late {
            self.chunks.remove(&key);
            let failure = DeliverSnapshotFailure { sender_replica_id: key.1, delivery_id: key.2 };
            self.call(key.0, Some(in_message::Msg::DeliverSnapshotFailure(failure)), o)?;
        }
        let leader = self.reports.iter().filter(|(id, r)| r.leader_replica_id == **id).max_by_key(|(_, r)| r.leader_term).map(|(id, _)| *id);
        if let Some(leader) = leader.filter(|l| *l != self.leader) {
            o.add("leader_changes", 1);
            self.leader = leader;
        }
        Ok(())
    }

    fn command(&mut self, at: u64, o: &mut Observed) -> Result<(), Violation> {
        self.next += 1;
        let id = self.next;
        let name = format!("counter {}", self.rng.below(3));
        let (expected_value, new_value) = (self.rng.below(3) as i64, self.rng.below(3) as i64);
        let op = counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest { expected_value, new_value });
        let request = CounterRequest { name, op: Some(op), ..Default::default() };
        let header = AtomicCounterInMessage { msg: Some(atomic_counter_in_message::Msg::CounterRequest(request)) }.encode_to_vec();
        self.waiting.insert(id);
        let message = DeliverAppMessage { correlation_id: id, message_header: header.into(), message_payload: Bytes::new() };
        self.call(at, Some(in_message::Msg::DeliverAppMessage(message)), o)
    }

    fn change(&mut self, id: u64, add: bool, o: &mut Observed) -> Result<(), Violation> {
        let kind = if add { ChangeClusterType::ChangeTypeAddReplica } else { ChangeClusterType::ChangeTypeRemoveReplica };
        let request = ChangeClusterRequest { change_id: self.time, replica_id: id, change_type: kind.into() };
        self.call(self.leader, Some(in_message::Msg::ChangeCluster(request)), o)
    }

    fn members(&self) -> Vec<u64> {
        self.reports.get(&self.leader).map(|r| r.cluster_replica_ids.clone()).unwrap_or_default()
    }

    /// Until the replicas are or aren't members of a cluster that is led and has no change
    /// pending. False if that takes too long, which is another property's concern.
    fn until(&mut self, id: u64, member: bool, o: &mut Observed) -> Result<bool, Violation> {
        for i in 0..1500 {
            let done = self.members().contains(&id) == member;
            let pending = self.reports.get(&self.leader).is_none_or(|r| r.has_pending_changes);
            if done && !pending {
                return Ok(true);
            }
            if i % 20 == 0 && !pending && id != self.leader {
                self.change(id, member, o)?;
            }
            self.round(o)?;
        }
        o.add("not_finished", 1);
        Ok(false)
    }

    /// What is held once all is calm, at the lowest point of the log.
    fn settled(&mut self, o: &mut Observed) -> Result<i64, Violation> {
        (self.lossy, self.cut) = (0, None);
        for _ in 0..100 {
            self.round(o)?;
        }
        self.waiting.clear();
        let mut lowest = i64::MAX;
        for _ in 0..50 {
            self.command(self.leader, o)?;
            for _ in 0..3 {
                self.round(o)?;
            }
            lowest = lowest.min(held());
        }
        Ok(lowest)
    }

    /// Leaders are cut off one after the other, until every replica has led. False if that takes
    /// too long.
    fn all_lead(&mut self, replicas: u64, o: &mut Observed) -> Result<bool, Violation> {
        let mut led = BTreeSet::from([self.leader]);
        for _ in 0..30 {
            if led.len() as u64 == replicas {
                return Ok(true);
            }
            self.cut = Some(self.leader);
            for _ in 0..60 {
                self.round(o)?;
            }
            self.cut = None;
            for _ in 0..60 {
                self.round(o)?;
            }
            led.insert(self.leader);
        }
        Ok(false)
    }

    fn bootstrap(&mut self, replicas: u64, o: &mut Observed) -> Result<bool, Violation> {
        self.start(1, true, o)?;
        for _ in 0..5 {
            self.round(o)?;
        }
        for id in 2..=replicas {
            self.start(id, false, o)?;
            if !self.until(id, true, o)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
}

/// Clients, lost messages, leaders that are cut off and replaced.
pub fn traffic(rng: &mut Rng, trace: &mut Trace, o: &mut Observed) -> Result<(), Violation> {
    let before = held();
    let mut c = Cluster::new(rng);
    let replicas = rng.range(1, 4);
    let lossy = if rng.pct(50) { rng.range(1, 10) } else { 0 };
    let cuts = replicas > 2 && rng.pct(50);
    let others = rng.pct(50);
    trace.log(format!("traffic: {replicas} replicas, {lossy}% lost, cuts {cuts}, {:?}", c.config));
    if !c.bootstrap(replicas, o)? {
        return Ok(());
    }
    let work = 400;
    let mut windows = Windows::new(work, 10);
    while windows.more() {
        for i in 0..work {
            if cuts && i % 80 == 0 {
                c.cut = (i % 160 == 0).then(|| if rng.pct(70) { c.leader } else { rng.range(1, replicas) });
            }
            c.lossy = if i % 40 < 20 { lossy } else { 0 };
            let at = if others && rng.pct(10) { rng.range(1, replicas) } else { c.leader };
            for _ in 0..*rng.pick(&[1, 1, 1, 3]) {
                c.command(at, o)?;
            }
            c.round(o)?;
        }
        windows.add(c.settled(o)? - before, trace);
    }
    windows.judge("traffic", o)
}

/// Replicas that come and go, while some stay. What a follower holds for replicas that have left is
/// known to stay until it leads, so that all lead before what is held is measured, unless `led` by
/// the same replica throughout.
pub fn churn(rng: &mut Rng, trace: &mut Trace, o: &mut Observed) -> Result<(), Violation> {
    let before = held();
    let mut c = Cluster::new(rng);
    let led = rng.pct(8);
    let stay = if led { rng.range(2, 3) } else { *rng.pick(&[1, 3]) };
    let lossy = if rng.pct(50) { rng.range(1, 6) } else { 0 };
    let abrupt = rng.pct(50);
    trace.log(format!("churn: {stay} stay, {lossy}% lost, abrupt {abrupt}, led {led}, {:?}", c.config));
    if !c.bootstrap(stay, o)? {
        return Ok(());
    }
    let work = 40;
    let mut windows = Windows::new(work, 64);
    let mut id = stay;
    while windows.more() {
        for _ in 0..work {
            id += 1;
            c.lossy = lossy;
            c.start(id, false, o)?;
            for _ in 0..rng.below(4) {
                c.command(c.leader, o)?;
            }
            if !c.until(id, true, o)? {
                return Ok(());
            }
            if led {
                // It turns to the other replicas, whose votes it doesn't get as it has fallen behind.
                for deaf in [None, Some(id)] {
                    c.deaf = deaf;
                    c.command(c.leader, o)?;
                    for _ in 0..3 * c.config.election_tick {
                        c.round(o)?;
                    }
                }
                c.deaf = None;
            }
            // It may have caught up or not.
            for _ in 0..*rng.pick(&[0, 3, 30]) {
                c.round(o)?;
            }
            if abrupt && stay > 2 {
                c.nodes.remove(&id);
                c.reports.remove(&id);
            }
            for _ in 0..10 {
                if c.leader != id {
                    break;
                }
                c.cut = Some(id);
                for _ in 0..60 {
                    c.round(o)?;
                }
                c.cut = None;
            }
            if !c.until(id, false, o)? {
                return Ok(());
            }
            for _ in 0..10 {
                c.round(o)?;
            }
            c.nodes.remove(&id);
            c.reports.remove(&id);
            o.add("replicas_replaced", 1);
        }
        if !led && !c.all_lead(stay, o)? {
            o.add("not_finished", 1);
            return Ok(());
        }
        windows.add(c.settled(o)? - before, trace);
    }
    let verdict = windows.judge("churn", o);
    if led {
        if let Err(v) = verdict {
            o.soft.push(Violation { signature: "channels-kept".into(), ..v });
        }
        return Ok(());
    }
    verdict
}
