//! Snapshot transfers between the real snapshot processors of several replicas, with a lossy
//! network, stale leaders, forged failure notices and malformed requests between them.

use std::collections::{BTreeMap, VecDeque};

use prost::{bytes::Bytes, Message};
use raft::{
    eraftpb::{ConfState, Snapshot},
    SnapshotStatus,
};
use tcp_proto::runtime::endpoint::{
    deliver_snapshot_request::{snapshot_content::It, snapshot_content::*, SnapshotContent},
    deliver_snapshot_response::SnapshotAck,
    raft_config::SnapshotConfig,
    DeliverSnapshotRequest, DeliverSnapshotResponse, DeliverSnapshotStatus, Payload,
};
use tcp_runtime::{
    snapshot::*,
    util::raft::{create_raft_snapshot, create_raft_snapshot_metadata},
};
use vcommon::{ensure, violation, Observed, Rng, Trace, Violation};

pub const RULE: &str = "Each case has 3 or 4 replicas that exchange up to 12 snapshots in chunks of 1 to 40 bytes over \
ordered channels which lose messages, while leaders change and the host forges failure notices; half of the cases are \
calm. Non-trivial if a snapshot of several chunks completed or a transfer failed.";

const ACCEPTED: i32 = DeliverSnapshotStatus::SnapshotStatusAccepted as i32;
const REJECTED: i32 = DeliverSnapshotStatus::SnapshotStatusRejected as i32;

#[derive(Clone, Debug)]
enum Net {
    Request(DeliverSnapshotRequest),
    Response(DeliverSnapshotResponse),
}

/// A transfer as its sender started it.
struct Transfer {
    snapshot: Snapshot,
    size: u64,
    chunks: u64,
    /// Chunks sent, and of them those still without answer.
    sent: u64,
    pending: BTreeMap<u64, u64>,
    received: bool,
    /// A loss, rejection or forged failure happened to it: it may fail.
    disturbed: bool,
    aborted: bool,
    id: Option<u32>,
}

struct World {
    replicas: BTreeMap<u64, DefaultSnapshotProcessor>,
    /// What each replica believes: leader and term.
    views: BTreeMap<u64, (u64, u64)>,
    channels: BTreeMap<(u64, u64), VecDeque<Net>>,
    /// Live transfers by sender and receiver.
    transfers: BTreeMap<(u64, u64), Transfer>,
    /// Everything ever started by sender and receiver.
    started: Vec<(u64, u64, Snapshot)>,
    /// The snapshot each replica is assembling: who sent its header since the replica last
    /// learned of another leader, and its id.
    assembling: BTreeMap<u64, (u64, u32)>,
    chunk_size: u64,
    max_pending: u64,
    instant: u64,
    delivery: BTreeMap<u64, u64>,
    o: Observed,
}

fn decode(request: &DeliverSnapshotRequest) -> SnapshotContent {
    SnapshotContent::decode(request.payload.clone().unwrap_or_default().contents).unwrap_or_default()
}

impl World {
    fn is_sender(&self, id: u64) -> bool {
        self.views[&id].0 == id
    }

    fn start(&mut self, from: u64, to: u64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let n = match rng.below(4) {
            0 => 0,
            1 => self.chunk_size * rng.range(1, 4),
            _ => rng.range(1, self.chunk_size * 5),
        };
        let data = rng.bytes(n as usize);
        let conf = ConfState { voters: self.replicas.keys().copied().collect(), ..Default::default() };
        let snapshot = create_raft_snapshot(
            create_raft_snapshot_metadata(self.started.len() as u64 + 1, self.views[&from].1, conf),
            Bytes::from(data),
        );
        trace.log(format!("{from} starts snapshot of {n} bytes for {to}"));
        self.started.push((from, to, snapshot.clone()));
        self.instant += 1;
        let instant = self.instant;
        match self.replicas.get_mut(&from).unwrap().mut_processor(instant) {
            SnapshotProcessorRole::Sender(s) => s.start(to, snapshot.clone()),
            SnapshotProcessorRole::Receiver(_) => return violation("role", format!("leader {from} isn't a sender")),
        }
        let chunks = n.div_ceil(self.chunk_size).max(1);
        self.transfers.insert(
            (from, to),
            Transfer {
                snapshot,
                size: n,
                chunks,
                sent: 0,
                pending: BTreeMap::new(),
                received: false,
                disturbed: false,
                aborted: false,
                id: None,
            },
        );
        self.o.see(n);
        Ok(())
    }

    /// Takes everything out of a replica and judges it.
    fn poll(&mut self, id: u64, trace: &mut Trace) -> Result<(), Violation> {
        self.instant += 1;
        let instant = self.instant;
        let sender = self.is_sender(id);
        match self.replicas.get_mut(&id).unwrap().mut_processor(instant) {
            SnapshotProcessorRole::Receiver(r) => {
                ensure!(!sender, "role", "leader {id} plays the receiver");
                let Some(result) = r.try_complete() else { return Ok(()) };
                let Ok((from, got)) = result else {
                    return violation("corrupted", format!("{id} received an honest snapshot and calls it corrupted"));
                };
                trace.log(format!("{id} completed snapshot of {} bytes from {from}", got.data.len()));
                self.o.add("completed", 1);
                let assembled = self.assembling.remove(&id);
                ensure!(
                    assembled.is_some_and(|(f, _)| f == from), "leftover",
                    "{id} completed a snapshot of {from}, but was assembling {assembled:?}"
                );
                ensure!(
                    self.started.iter().any(|(f, t, s)| (*f, *t) == (from, id) && *s == got),
                    "contents",
                    "{id} assembled a snapshot at {:?} of {} bytes that {from} never sent to it",
                    got.metadata, got.data.len()
                );
                if let Some(t) = self.transfers.get_mut(&(from, id)) {
                    if t.snapshot == got {
                        ensure!(!t.received, "twice", "{id} completed the same transfer twice");
                        t.received = true;
                        if t.chunks > 1 {
                            self.o.nontrivial = true;
                        }
                    }
                }
                ensure!(r.try_complete().is_none(), "twice", "{id} completed a snapshot twice");
            }
            SnapshotProcessorRole::Sender(s) => {
                ensure!(sender, "role", "follower {id} plays the sender");
                while let Some((to, status)) = s.try_complete() {
                    trace.log(format!("{id} reports {status:?} of snapshot for {to}"));
                    let Some(t) = self.transfers.remove(&(id, to)) else {
                        return violation("status", format!("{id} reports {status:?} of unknown transfer to {to}"));
                    };
                    if status == SnapshotStatus::Finish {
                        self.o.add("finished", 1);
                        ensure!(
                            t.received, "finish",
                            "{id} reports snapshot for {to} as sent, which never assembled it"
                        );
                        ensure!(!t.aborted, "finish", "{id} reports a failed transfer to {to} as finished");
                    } else {
                        self.o.add("failed", 1);
                        self.o.nontrivial = true;
                        ensure!(
                            t.disturbed || t.aborted, "fail",
                            "{id} reports undisturbed transfer to {to} as failed"
                        );
                    }
                }
                for ((_, to), t) in self.transfers.iter().filter(|((f, _), _)| *f == id) {
                    ensure!(!t.aborted, "silent", "{id} does not report the failed transfer to {to}");
                }
                let mut guard = 0;
                while let Some(request) = s.next_request() {
                    guard += 1;
                    ensure!(guard < 10_000, "progress", "{id} never stops sending");
                    let to = request.recipient_replica_id;
                    ensure!(
                        request.sender_replica_id == id && to != id, "address",
                        "{id} sends a request from {} to {to}", request.sender_replica_id
                    );
                    let last = self.delivery.entry(id).or_insert(0);
                    ensure!(request.delivery_id > *last, "delivery", "delivery id {} of {id} repeats", request.delivery_id);
                    *last = request.delivery_id;
                    let content = decode(&request);
                    let Some(t) = self.transfers.get_mut(&(id, to)) else {
                        return violation("chunk", format!("{id} sends a chunk to {to} outside of a transfer"));
                    };
                    ensure!(!t.aborted, "chunk", "{id} goes on with a failed transfer to {to}");
                    match t.id {
                        None => t.id = Some(content.snapshot_id),
                        Some(x) => ensure!(x == content.snapshot_id, "chunk", "snapshot id changed from {x} to {}", content.snapshot_id),
                    }
                    let start = (t.sent * self.chunk_size).min(t.size);
                    let end = (start + self.chunk_size).min(t.size);
                    let expected = &t.snapshot.data[start as usize..end as usize];
                    let (index, data) = match content.it {
                        Some(It::Header(Header { snapshot_size, snapshot_metadata, chunk_contents })) => {
                            ensure!(
                                snapshot_size == t.size
                                    && snapshot_metadata[..] == t.snapshot.metadata.clone().unwrap_or_default().encode_to_vec()[..],
                                "header", "header of snapshot for {to} has size {snapshot_size}, not {}", t.size
                            );
                            (0, chunk_contents)
                        }
                        Some(It::Chunk(Chunk { chunk_index, chunk_contents })) => (chunk_index as u64, chunk_contents),
                        None => return violation("chunk", format!("{id} sends an empty request to {to}")),
                    };
                    ensure!(
                        index == t.sent && t.sent < t.chunks && data[..] == *expected, "chunk",
                        "{id} sends chunk {index} of {} bytes to {to}, expected chunk {} of {} of {} bytes",
                        data.len(), t.sent, t.chunks, expected.len()
                    );
                    t.sent += 1;
                    t.pending.insert(request.delivery_id, index);
                    self.o.add("chunks", 1);
                    let pending: u64 =
                        self.transfers.iter().filter(|((f, _), _)| *f == id).map(|(_, t)| t.pending.len() as u64).sum();
                    ensure!(
                        pending <= self.max_pending, "limit",
                        "{id} has {pending} chunks in flight, at most {} are allowed", self.max_pending
                    );
                    self.channels.entry((id, to)).or_default().push_back(Net::Request(request));
                }
                // Nothing to send although there is room: only if everything has been sent.
                let live = self.transfers.iter().filter(|((f, _), t)| *f == id && !t.aborted);
                let pending: u64 = live.clone().map(|(_, t)| t.pending.len() as u64).sum();
                if pending < self.max_pending {
                    for ((_, to), t) in live {
                        ensure!(
                            t.sent == t.chunks, "stalled",
                            "{id} sends nothing to {to} after chunk {} of {}, {pending} in flight", t.sent, t.chunks
                        );
                    }
                }
            }
        }
        Ok(())
    }

    fn deliver(&mut self, from: u64, to: u64, net: Net, trace: &mut Trace) -> Result<(), Violation> {
        self.instant += 1;
        let instant = self.instant;
        let role = self.is_sender(to);
        match net {
            Net::Request(request) => {
                let content = decode(&request);
                let (delivery, index) = (
                    request.delivery_id,
                    match &content.it {
                        Some(It::Chunk(c)) => c.chunk_index,
                        _ => 0,
                    },
                );
                let current = self
                    .transfers
                    .get(&(from, to))
                    .is_some_and(|t| t.pending.contains_key(&delivery) && t.id == Some(content.snapshot_id));
                let response = match self.replicas.get_mut(&to).unwrap().mut_processor(instant) {
                    SnapshotProcessorRole::Sender(s) => {
                        ensure!(role, "role", "follower {to} plays the sender");
                        self.o.add("unexpected", 1);
                        s.process_unexpected_request(request)
                    }
                    SnapshotProcessorRole::Receiver(r) => {
                        ensure!(!role, "role", "leader {to} plays the receiver");
                        r.process_request(request)
                    }
                };
                let ack = SnapshotAck::decode(response.payload.clone().unwrap_or_default().contents).unwrap_or_default();
                trace.log(format!(
                    "{from}->{to} delivery {delivery} snapshot {} chunk {index}: status {}",
                    content.snapshot_id, ack.status
                ));
                self.o.see(ack.status as u64);
                ensure!(
                    (response.recipient_replica_id, response.sender_replica_id, response.delivery_id) == (from, to, delivery),
                    "response", "request {delivery} {from}->{to} answered {} {}->{}",
                    response.delivery_id, response.sender_replica_id, response.recipient_replica_id
                );
                if content.it.is_some() {
                    ensure!(
                        (ack.snapshot_id, ack.chunk_index) == (content.snapshot_id, index), "response",
                        "chunk {index} of snapshot {} answered as {} of {}", content.snapshot_id, ack.chunk_index, ack.snapshot_id
                    );
                    ensure!(
                        ack.status == ACCEPTED || ack.status == REJECTED, "response", "answered with status {}", ack.status
                    );
                }
                if ack.status == ACCEPTED {
                    if index == 0 {
                        self.assembling.insert(to, (from, content.snapshot_id));
                    } else {
                        ensure!(
                            self.assembling.get(&to) == Some(&(from, content.snapshot_id)), "leftover",
                            "{to} accepts chunk {index} of snapshot {} of {from} while it assembles {:?}",
                            content.snapshot_id, self.assembling.get(&to)
                        );
                    }
                }
                if role {
                    ensure!(ack.status == REJECTED, "response", "leader {to} accepts a chunk");
                }
                if !current {
                    self.o.add("stale", 1);
                }
                self.channels.entry((to, from)).or_default().push_back(Net::Response(response));
            }
            Net::Response(response) => {
                let ack = SnapshotAck::decode(response.payload.clone().unwrap_or_default().contents);
                let garbled = ack.is_err();
                let ack = ack.unwrap_or_default();
                let delivery = response.delivery_id;
                match self.replicas.get_mut(&to).unwrap().mut_processor(instant) {
                    SnapshotProcessorRole::Sender(s) => {
                        s.process_response(from, delivery, Ok(response));
                        if let Some(t) = self.transfers.get_mut(&(to, from)) {
                            match t.pending.remove(&delivery) {
                                Some(index) => {
                                    if ack.status != ACCEPTED {
                                        t.aborted = true;
                                    }
                                    ensure!(
                                        garbled || (t.disturbed && ack.status != ACCEPTED) || Some(ack.snapshot_id) == t.id && ack.chunk_index as u64 == index,
                                        "response", "delivery {delivery} of chunk {index} answered as {}", ack.chunk_index
                                    );
                                }
                                None => t.disturbed |= t.id == Some(ack.snapshot_id),
                            }
                        }
                    }
                    SnapshotProcessorRole::Receiver(_) => {}
                }
            }
        }
        self.poll(to, trace)?;
        Ok(())
    }

    /// Replica `id` learns of a leader.
    fn learn(&mut self, id: u64, leader: u64, term: u64, trace: &mut Trace) -> Result<(), Violation> {
        self.learn_members(id, leader, term, true, trace)
    }

    /// Another replica has left, leader and term are still the same.
    fn learn_left(&mut self, id: u64, left: u64, trace: &mut Trace) -> Result<(), Violation> {
        let (leader, term) = self.views[&id];
        let members: Vec<u64> = self.replicas.keys().copied().filter(|x| *x != left).collect();
        let cancelled = self.replicas.get_mut(&id).unwrap().process_cluster_change(leader, term, &members);
        trace.log(format!("{id} learns that {left} has left, cancels {cancelled:?}"));
        let running = self.transfers.remove(&(id, left)).is_some();
        let expected = if running { vec![(left, SnapshotStatus::Failure)] } else { vec![] };
        ensure!(cancelled == expected, "cancel", "{id} cancels {cancelled:?} when {left} leaves, expected {expected:?}");
        self.o.add("cancelled", expected.len() as u64);
        self.o.add("left", running as u64);
        self.poll(id, trace)
    }

    fn learn_members(&mut self, id: u64, leader: u64, term: u64, member: bool, trace: &mut Trace) -> Result<(), Violation> {
        let members: Vec<u64> = self.replicas.keys().copied().filter(|x| member || *x != id).collect();
        let before = self.views[&id];
        let mut cancelled = self.replicas.get_mut(&id).unwrap().process_cluster_change(leader, term, &members);
        trace.log(format!("{id} learns of leader {leader} of term {term}, member {member}, cancels {cancelled:?}"));
        let mut expected: Vec<(u64, SnapshotStatus)> = vec![];
        if before != (leader, term) || !member {
            self.assembling.remove(&id);
            let keys: Vec<_> = self.transfers.keys().filter(|(f, _)| *f == id).copied().collect();
            for key in keys {
                self.transfers.remove(&key);
                expected.push((key.1, SnapshotStatus::Failure));
            }
            // The receiver starts over.
            for ((_, to), t) in self.transfers.iter_mut() {
                if *to == id {
                    t.disturbed = true;
                }
            }
        }
        cancelled.sort_by_key(|(to, _)| *to);
        ensure!(
            cancelled == expected, "cancel",
            "{id} cancels {cancelled:?} when the leader changes, running were {expected:?}"
        );
        self.o.add("cancelled", expected.len() as u64);
        self.views.insert(id, (leader, term));
        self.o.see(leader + 10);
        self.poll(id, trace)
    }
}

/// Requests that no honest replica sends, judged by not crashing and being rejected.
fn malformed(w: &mut World, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
    let (from, to) = (rng.range(7, 9), rng.range(1, w.replicas.len() as u64));
    let contents = match rng.below(3) {
        0 => SnapshotContent { snapshot_id: 9, it: None }.encode_to_vec(),
        1 => SnapshotContent {
            snapshot_id: rng.range(1, 3) as u32,
            it: Some(It::Chunk(Chunk { chunk_index: rng.range(1, 5) as u32, chunk_contents: rng.bytes(3).into() })),
        }
        .encode_to_vec(),
        _ => vec![0xff; 9],
    };
    let request = DeliverSnapshotRequest {
        recipient_replica_id: to,
        sender_replica_id: from,
        delivery_id: rng.below(50),
        payload: Some(Payload { contents: contents.into(), ..Default::default() }),
        ..Default::default()
    };
    w.o.add("malformed", 1);
    w.instant += 1;
    let instant = w.instant;
    let response = match w.replicas.get_mut(&to).unwrap().mut_processor(instant) {
        SnapshotProcessorRole::Sender(s) => s.process_unexpected_request(request),
        SnapshotProcessorRole::Receiver(r) => r.process_request(request),
    };
    let ack = SnapshotAck::decode(response.payload.unwrap_or_default().contents).unwrap_or_default();
    trace.log(format!("malformed request from {from} to {to}: status {}", ack.status));
    ensure!(ack.status != ACCEPTED, "malformed", "{to} accepts a malformed request of {from}");
    w.poll(to, trace)
}

/// An answer that cannot be read.
fn garble(w: &mut World, mut response: DeliverSnapshotResponse, trace: &mut Trace) -> Net {
    let key = (response.recipient_replica_id, response.sender_replica_id);
    if let Some(t) = w.transfers.get_mut(&key) {
        trace.log("an unreadable answer");
        w.o.add("garbled", 1);
        t.disturbed = true;
        response.payload = Some(Payload { contents: vec![0xff; 9].into(), ..Default::default() });
    }
    Net::Response(response)
}

/// A chunk, other than the first, of a wrong size or place.
fn resize(w: &mut World, mut request: DeliverSnapshotRequest, rng: &mut Rng, trace: &mut Trace) -> Net {
    let mut content = decode(&request);
    if let Some(It::Chunk(c)) = &mut content.it {
        let mut bytes = c.chunk_contents.to_vec();
        let current = w
            .transfers
            .get(&(request.sender_replica_id, request.recipient_replica_id))
            .filter(|t| t.id == Some(content.snapshot_id) && t.pending.contains_key(&request.delivery_id));
        let chunks = current.map_or(u32::MAX - 1, |t| t.chunks as u32);
        if rng.pct(40) {
            // Just after the last chunk, or far beyond.
            c.chunk_index = *rng.pick(&[chunks, chunks + 1, u32::MAX]);
        } else if rng.pct(50) || bytes.is_empty() {
            bytes.push(7);
        } else {
            bytes.pop();
        }
        c.chunk_contents = bytes.into();
        request.payload = Some(Payload { contents: content.encode_to_vec().into(), ..Default::default() });
        trace.log("a chunk of a wrong size or place");
        w.o.add("resized", 1);
        if let Some(t) = w.transfers.get_mut(&(request.sender_replica_id, request.recipient_replica_id)) {
            t.disturbed = true;
        }
    }
    Net::Request(request)
}

pub fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let n = rng.range(3, 4);
    let calm = rng.pct(40);
    let chunk_size = rng.range(1, 40);
    let max_pending = rng.range(1, 4);
    let mut w = World {
        replicas: BTreeMap::new(),
        views: BTreeMap::new(),
        channels: BTreeMap::new(),
        transfers: BTreeMap::new(),
        started: vec![],
        assembling: BTreeMap::new(),
        chunk_size,
        max_pending,
        instant: 0,
        delivery: BTreeMap::new(),
        o: Observed::default(),
    };
    for id in 1..=n {
        let mut p = DefaultSnapshotProcessor::new(
            Box::new(DefaultSnapshotSender::new()),
            Box::new(DefaultSnapshotReceiver::new()),
        );
        p.init(
            super::logger(),
            id,
            &Some(SnapshotConfig { snapshot_count: 10, chunk_size, max_pending_chunks: max_pending as u32, ..Default::default() }),
        );
        w.replicas.insert(id, p);
        w.views.insert(id, (0, 0));
    }
    let mut term = 1;
    let mut leader = rng.range(1, n);
    for id in 1..=n {
        w.learn(id, leader, term, trace)?;
    }
    trace.log(format!("{n} replicas, calm {calm}, chunks of {chunk_size}, {max_pending} pending"));

    for _ in 0..rng.range(10, 120) {
        match rng.below(100) {
            0..=9 => {
                let to = rng.range(1, n);
                let from = if calm || rng.pct(80) { leader } else { rng.range(1, n) };
                // Raft does not start another snapshot for a peer while one is being sent, unless
                // the peer turned out to be gone in between.
                let busy = w.transfers.contains_key(&(from, to));
                if from != to && w.is_sender(from) && (!busy || (!calm && rng.pct(50))) && w.started.len() < 12 {
                    w.start(from, to, rng, trace)?;
                    w.poll(from, trace)?;
                }
            }
            10..=13 if !calm => {
                // Leadership moves, and each replica learns of it in its own time.
                term += 1;
                leader = rng.range(1, n);
                w.learn(leader, leader, term, trace)?;
            }
            14..=21 if !calm => {
                let id = rng.range(1, n);
                if w.views[&id].1 < term || w.views[&id].0 == 0 {
                    w.learn(id, leader, term, trace)?;
                } else if rng.pct(10) && id != leader {
                    term += 1;
                    w.learn(id, 0, term, trace)?;
                } else if rng.pct(15) {
                    let (l, t) = w.views[&id];
                    w.o.add("removed", 1);
                    w.learn_members(id, l, t, false, trace)?;
                } else if rng.pct(15) {
                    let left = rng.range(1, n);
                    // Mostly one that something is being sent to.
                    let busy = w.transfers.keys().find(|(f, _)| *f == id).map(|k| k.1).filter(|_| rng.pct(70));
                    let left = busy.unwrap_or(left);
                    if left != id {
                        w.learn_left(id, left, trace)?;
                    }
                } else {
                    // The same state again changes nothing.
                    let (l, t) = w.views[&id];
                    w.learn(id, l, t, trace)?;
                }
            }
            22..=24 => malformed(&mut w, rng, trace)?,
            25..=29 if !calm => {
                // The host reports a failed delivery, rightly or not.
                let from = rng.range(1, n);
                let to = rng.range(1, n);
                if !w.is_sender(from) || from == to {
                    continue;
                }
                let known = w.transfers.get(&(from, to)).and_then(|t| t.pending.keys().next().copied());
                let delivery = known.filter(|_| rng.pct(70)).unwrap_or(rng.below(40));
                trace.log(format!("delivery {delivery} of {from} to {to} reported as failed"));
                w.instant += 1;
                let instant = w.instant;
                if let SnapshotProcessorRole::Sender(s) = w.replicas.get_mut(&from).unwrap().mut_processor(instant) {
                    s.process_response(to, delivery, Err(SnapshotError::FailedDelivery));
                }
                if let Some(t) = w.transfers.get_mut(&(from, to)) {
                    if t.pending.contains_key(&delivery) {
                        t.aborted = true;
                    }
                    t.disturbed = true;
                }
                w.poll(from, trace)?;
            }
            _ => {
                let busy: Vec<_> = w.channels.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect();
                if busy.is_empty() {
                    continue;
                }
                let (from, to) = *rng.pick(&busy);
                let net = w.channels.get_mut(&(from, to)).unwrap().pop_front().unwrap();
                if !calm && rng.pct(6) {
                    trace.log(format!("lost {from}->{to}"));
                    let key = match &net {
                        Net::Request(_) => (from, to),
                        Net::Response(_) => (to, from),
                    };
                    if let Some(t) = w.transfers.get_mut(&key) {
                        t.disturbed = true;
                    }
                    continue;
                }
                let net = match net {
                    Net::Request(r) if !calm && rng.pct(3) => resize(&mut w, r, rng, trace),
                    Net::Response(r) if !calm && rng.pct(2) => garble(&mut w, r, trace),
                    net => net,
                };
                w.deliver(from, to, net, trace)?;
            }
        }
    }
    // Everything in flight arrives.
    let mut steps = 0;
    loop {
        let busy: Vec<_> = w.channels.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect();
        if busy.is_empty() {
            break;
        }
        steps += 1;
        ensure!(steps < 20_000, "progress", "transfers never end");
        let (from, to) = *rng.pick(&busy);
        let net = w.channels.get_mut(&(from, to)).unwrap().pop_front().unwrap();
        w.deliver(from, to, net, trace)?;
    }
    for ((from, to), t) in &w.transfers {
        // A lost chunk that was never reported as such keeps its place in the window.
        let blocked = w.transfers.iter().any(|((f, _), t)| f == from && t.disturbed && !t.pending.is_empty());
        ensure!(
            t.disturbed || blocked, "unfinished",
            "undisturbed transfer from {from} to {to} stays open: sent {} of {} chunks, {} unanswered",
            t.sent, t.chunks, t.pending.len()
        );
    }
    if calm {
        ensure!(w.o.get("failed") == 0, "fail", "a transfer failed in a calm run");
        ensure!(
            w.o.get("finished") == w.started.len() as u64 && w.o.get("completed") == w.started.len() as u64,
            "calm", "{} transfers started, {} received, {} finished", w.started.len(), w.o.get("completed"), w.o.get("finished")
        );
        w.o.add("calm_transfers", w.started.len() as u64);
    }
    w.o.sample = trace.tail(6);
    Ok(w.o)
}
