//! The communication module, handshakes, sessions and encryptors of several replicas, with the
//! untrusted host as the network between them and impostors among them.

use std::{
    collections::{BTreeMap, VecDeque},
    sync::Arc,
};

use anyhow::Result as AnyResult;
use oak_stub::attestation::{sign_evidence, Attester, SigningKey, StaticAttester};
use oak_stub::session::{InstanceSessionBinder, SessionBinder};
use oak_stub::time::{clock::FixedClock, UNIX_EPOCH};
use oak_proto_rust::oak::attestation::v1::{
    binary_reference_value, endorsements, kernel_binary_reference_value, reference_values, *,
};
use prost::{bytes::Bytes, Message};
use raft::prelude::MessageType;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::{
    communication::*,
    handshake::DefaultHandshakeSessionProvider,
    session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory},
};
use vcommon::{ensure, violation, Observed, Rng, Trace, Violation};

pub const RULE: &str = "Each case runs 2 or 3 replicas' real communication modules, handshakes and sessions over a \
simulated Oak for up to 150 steps in which they send messages, tick, change membership, and the host delays, reorders, drops, \
repeats, tampers with, redirects and forges messages; then the host behaves and sessions have to recover. \
40 percent of the cases are calm throughout. Non-trivial if a message was delivered.";

pub const RULE_ATTEST: &str = "Each case lets a replica with random reference values and one with random evidence \
(layers, hardware signature, binding key, endorsements, debug mode, one or more of them wrong or stolen) talk over an honest \
network, and compares with an independent policy oracle; 30 percent of the cases drive handshake sessions and encryptors directly, in any order and with \
messages repeated, misplaced or senseless; non-trivial in either way.";

// ---------------------------------------------------------------------------------------
// Identity

#[derive(Clone)]
pub struct Identity {
    pub evidence: Evidence,
    /// The key that really binds its sessions.
    pub key: SigningKey,
    pub endorsements: Endorsements,
}

pub struct Factory(pub Identity);

impl OakAttesterFactory for Factory {
    fn get(&self) -> AnyResult<Box<dyn Attester>> {
        Ok(Box::new(StaticAttester::new(self.0.evidence.clone())))
    }
}

impl OakSessionBinderFactory for Factory {
    fn get(&self) -> AnyResult<Box<dyn SessionBinder>> {
        Ok(Box::new(InstanceSessionBinder::of(self.0.key.clone())))
    }
}

fn digests(values: &[&[u8]]) -> Option<BinaryReferenceValue> {
    Some(BinaryReferenceValue {
        r#type: Some(binary_reference_value::Type::Digests(Digests {
            digests: values.iter().map(|v| v.to_vec()).collect(),
        })),
    })
}

fn kernel(values: &[&[u8]]) -> Option<KernelLayerReferenceValues> {
    Some(KernelLayerReferenceValues {
        kernel: Some(KernelBinaryReferenceValue {
            r#type: Some(kernel_binary_reference_value::Type::Digests(Digests {
                digests: values.iter().map(|v| v.to_vec()).collect(),
            })),
        }),
        ..Default::default()
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    RestrictedKernel,
    Containers,
    ContainersInsecure,
}

fn reference(kind: Kind, allow_debug: bool) -> ReferenceValues {
    let amd = Some(AmdSevReferenceValues { allow_debug, stage0: digests(&[b"firmware", b"firmware2"]) });
    let root = |insecure: bool| {
        Some(RootLayerReferenceValues {
            amd_sev: if insecure { None } else { amd.clone() },
            insecure: insecure.then(InsecureReferenceValues::default),
        })
    };
    ReferenceValues {
        r#type: Some(match kind {
            Kind::RestrictedKernel => reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
                root_layer: root(false),
                kernel_layer: kernel(&[b"kernel", b"kernel2"]),
                application_layer: Some(ApplicationLayerReferenceValues {
                    binary: digests(&[b"app", b"app2"]),
                    ..Default::default()
                }),
            }),
            _ => reference_values::Type::OakContainers(OakContainersReferenceValues {
                root_layer: root(kind == Kind::ContainersInsecure),
                kernel_layer: kernel(&[b"kernel", b"kernel2"]),
                system_layer: Some(SystemLayerReferenceValues { system_image: digests(&[b"system", b"system2"]) }),
                container_layer: Some(ContainerLayerReferenceValues {
                    binary: digests(&[b"app", b"app2"]),
                    ..Default::default()
                }),
            }),
        }),
    }
}

fn endorsed(kind: Kind) -> Endorsements {
    Endorsements {
        r#type: Some(match kind {
            Kind::RestrictedKernel => endorsements::Type::OakRestrictedKernel(Default::default()),
            _ => endorsements::Type::OakContainers(Default::default()),
        }),
    }
}

fn honest(kind: Kind, n: u64) -> Identity {
    let key = SigningKey::from_secret(format!("replica {n}").as_bytes());
    let other = SigningKey::from_secret(format!("other key of {n}").as_bytes()).public();
    let evidence = Evidence {
        measurement: b"app".to_vec(),
        firmware: b"firmware".to_vec(),
        kernel: b"kernel".to_vec(),
        system: b"system".to_vec(),
        // Restricted kernel instances bind with their signing key, containers with a key for it.
        binding_key: if kind == Kind::RestrictedKernel { other.clone() } else { key.public() },
        signing_key: if kind == Kind::RestrictedKernel { key.public() } else { other },
        ..Default::default()
    };
    Identity { evidence: sign_evidence(evidence), key, endorsements: endorsed(kind) }
}

fn module(id: u64, identity: &Identity, reference: ReferenceValues, retry: u64, timeout: u32) -> DefaultCommunicationModule {
    let mut m = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(
        DefaultOakSessionFactory::new(Box::new(Factory(identity.clone())), Box::new(Factory(identity.clone()))),
    ))));
    m.init(
        id,
        super::logger(),
        Arc::new(FixedClock::at_instant(UNIX_EPOCH)),
        CommunicationConfig {
            handshake_retry_tick: retry,
            handshake_initiated_tick_timeout: timeout,
            reference_values: reference,
            endorsements: identity.endorsements.clone(),
        },
    );
    m
}

// ---------------------------------------------------------------------------------------
// World

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Message,
    Heartbeat,
    Request,
    Response,
}

struct Sent {
    from: u64,
    to: u64,
    what: What,
    received: u64,
    /// Replaced by a newer heartbeat, or its session or queue may be gone.
    excused: bool,
    at: u64,
}

#[derive(Clone)]
struct Packet {
    from: u64,
    to: u64,
    msg: in_message::Msg,
    /// Its position among all that were sent.
    index: u64,
}

struct World {
    nodes: BTreeMap<u64, DefaultCommunicationModule>,
    net: VecDeque<Packet>,
    old: Vec<Packet>,
    sent: BTreeMap<Vec<u8>, Sent>,
    last_heartbeat: BTreeMap<(u64, u64), Vec<u8>>,
    last_seen: BTreeMap<(u64, u64), u64>,
    seq: u64,
    now: u64,
    /// Pairs whose last message came through a session: (from, to).
    settled: BTreeMap<(u64, u64), bool>,
    /// Pairs (a, b): b restarted and a hasn't heard yet.
    restarted: BTreeMap<(u64, u64), bool>,
    unordered: bool,
    redirected: bool,
    /// Contents were moved between envelopes, whose kind isn't authenticated.
    retyped: bool,
    calm: bool,
    o: Observed,
}

const CANARY: &[u8] = b"CANARY";

fn contains(haystack: &[u8], needle: &[u8]) -> bool {
    haystack.windows(needle.len()).any(|w| w == needle)
}

fn payload_mut(msg: &mut in_message::Msg) -> Option<&mut Option<Payload>> {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotRequest(m) => Some(&mut m.payload),
        in_message::Msg::DeliverSnapshotResponse(m) => Some(&mut m.payload),
        _ => None,
    }
}

fn payload(msg: &in_message::Msg) -> Vec<u8> {
    let mut msg = msg.clone();
    payload_mut(&mut msg).and_then(|p| p.take()).map(|p| p.contents.to_vec()).unwrap_or_default()
}

fn set_ids(msg: &mut in_message::Msg, from: Option<u64>, to: Option<u64>) {
    let (f, t) = match msg {
        in_message::Msg::DeliverSystemMessage(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotRequest(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::DeliverSnapshotResponse(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        in_message::Msg::SecureChannelHandshake(m) => (&mut m.sender_replica_id, &mut m.recipient_replica_id),
        _ => return,
    };
    if let Some(from) = from {
        *f = from;
    }
    if let Some(to) = to {
        *t = to;
    }
}

fn what(msg: &in_message::Msg) -> &'static str {
    match msg {
        in_message::Msg::DeliverSystemMessage(_) => "message",
        in_message::Msg::DeliverSnapshotRequest(_) => "snapshot request",
        in_message::Msg::DeliverSnapshotResponse(_) => "snapshot response",
        in_message::Msg::SecureChannelHandshake(_) => "handshake",
        _ => "other",
    }
}

fn kind_of(msg: &in_message::Msg, what: What) -> bool {
    match msg {
        in_message::Msg::DeliverSystemMessage(_) => matches!(what, What::Message | What::Heartbeat),
        in_message::Msg::DeliverSnapshotRequest(_) => what == What::Request,
        in_message::Msg::DeliverSnapshotResponse(_) => what == What::Response,
        _ => false,
    }
}

impl World {
    fn new(calm: bool) -> World {
        World {
            nodes: BTreeMap::new(),
            net: VecDeque::new(),
            old: vec![],
            sent: BTreeMap::new(),
            last_heartbeat: BTreeMap::new(),
            last_seen: BTreeMap::new(),
            seq: 0,
            now: 0,
            settled: BTreeMap::new(),
            restarted: BTreeMap::new(),
            unordered: false,
            redirected: false,
            retyped: false,
            calm,
            o: Observed::default(),
        }
    }

    fn send(&mut self, from: u64, to: u64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        self.seq += 1;
        let n = rng.usize(60);
        let contents = [CANARY, &self.seq.to_be_bytes()[..], &rng.bytes(n)].concat();
        let payload = Some(Payload { contents: Bytes::from(contents.clone()), ..Default::default() });
        let kind = *rng.pick(&[What::Message, What::Message, What::Heartbeat, What::Heartbeat, What::Request, What::Response]);
        let (recipient_replica_id, sender_replica_id, delivery_id) = (to, from, self.seq);
        let message = match kind {
            What::Message | What::Heartbeat => OutgoingMessage::DeliverSystemMessage(
                DeliverSystemMessage { recipient_replica_id, sender_replica_id, payload, ..Default::default() },
                if kind == What::Heartbeat {
                    MessageType::MsgHeartbeat
                } else {
                    *rng.pick(&[
                        MessageType::MsgAppend,
                        MessageType::MsgRequestVote,
                        MessageType::MsgHeartbeatResponse,
                        MessageType::MsgAppendResponse,
                    ])
                },
            ),
            What::Request => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id, sender_replica_id, delivery_id, payload, ..Default::default()
            }),
            What::Response => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id, sender_replica_id, delivery_id, payload, ..Default::default()
            }),
        };
        trace.log(format!("{from} sends {kind:?} {} to {to}", self.seq));
        if kind == What::Heartbeat {
            if let Some(old) = self.last_heartbeat.insert((from, to), contents.clone()) {
                // May have been replaced while it was still queued.
                self.sent.get_mut(&old).unwrap().excused = true;
            }
        }
        self.sent.insert(contents, Sent { from, to, what: kind, received: 0, excused: self.restarted.contains_key(&(from, to)), at: self.now });
        self.o.add("sent", 1);
        if let Err(e) = self.nodes.get_mut(&from).unwrap().process_out_message(message) {
            return violation("out-error", format!("sending fails for good: {e}"));
        }
        self.take(from, trace)
    }

    fn take(&mut self, id: u64, trace: &mut Trace) -> Result<(), Violation> {
        for out in self.nodes.get_mut(&id).unwrap().take_out_messages() {
            let bytes = out.encode_to_vec();
            ensure!(!contains(&bytes, CANARY), "plaintext", "{id} sent a message in the clear");
            let (msg, from, to) = match out.msg {
                Some(out_message::Msg::DeliverSystemMessage(m)) => {
                    let ids = (m.sender_replica_id, m.recipient_replica_id);
                    (in_message::Msg::DeliverSystemMessage(m), ids.0, ids.1)
                }
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => {
                    let ids = (m.sender_replica_id, m.recipient_replica_id);
                    (in_message::Msg::DeliverSnapshotRequest(m), ids.0, ids.1)
                }
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => {
                    let ids = (m.sender_replica_id, m.recipient_replica_id);
                    (in_message::Msg::DeliverSnapshotResponse(m), ids.0, ids.1)
                }
                Some(out_message::Msg::SecureChannelHandshake(m)) => {
                    self.o.add("handshake_messages", 1);
                    let ids = (m.sender_replica_id, m.recipient_replica_id);
                    (in_message::Msg::SecureChannelHandshake(m), ids.0, ids.1)
                }
                other => return violation("out-kind", format!("{id} sends {other:?}")),
            };
            ensure!(
                from == id && to != id && (self.redirected || self.nodes.contains_key(&to)),
                "address", "{id} sends a message from {from} to {to}"
            );
            trace.log(format!("{id} emits {} for {to}", what(&msg)));
            if !matches!(msg, in_message::Msg::SecureChannelHandshake(_)) {
                // Whatever waited for the session leaves now, and isn't replaced any more.
                self.last_heartbeat.remove(&(id, to));
            }
            let packet = Packet { from, to, msg, index: self.old.len() as u64 };
            self.old.push(packet.clone());
            self.net.push_back(packet);
        }
        Ok(())
    }

    fn deliver(&mut self, packet: Packet, trace: &mut Trace) -> Result<(), Violation> {
        let to = packet.to;
        let Some(node) = self.nodes.get_mut(&to) else { return Ok(()) };
        self.o.see(to * 8 + packet.from);
        let kind = what(&packet.msg);
        let handshake = matches!(packet.msg, in_message::Msg::SecureChannelHandshake(_));
        self.settled.insert((packet.from, to), false);
        match node.process_in_message(packet.msg) {
            Ok(None) => trace.log(format!("{} -> {to}: {kind} taken", packet.from)),
            Ok(Some(msg)) => {
                let contents = payload(&msg);
                trace.log(format!("{} -> {to}: {kind} received", packet.from));
                let Some(sent) = self.sent.get_mut(&contents) else {
                    return violation("forged", format!("{to} received a {kind} of {} bytes that nobody sent", contents.len()));
                };
                ensure!(
                    self.redirected || (sent.to == to && sent.from == packet.from), "misrouted",
                    "{to} received what {} sent to {}", sent.from, sent.to
                );
                ensure!(
                    self.redirected || self.retyped || kind_of(&msg, sent.what), "forged", "{to} received a {:?} as {kind}", sent.what
                );
                sent.received += 1;
                ensure!(sent.received == 1, "repeated", "{to} received the same {kind} {} times", sent.received);
                self.o.add("received", 1);
                self.settled.insert((packet.from, to), true);
                if self.calm && !self.unordered {
                    let seq = u64::from_be_bytes(contents[CANARY.len()..CANARY.len() + 8].try_into().unwrap());
                    if sent.what != What::Heartbeat {
                        let last = self.last_seen.insert((sent.from, to), seq).unwrap_or(0);
                        ensure!(seq > last, "order", "{to} received {seq} of {} after {last}", sent.from);
                    }
                }
            }
            Err(e) => return violation("in-error", format!("a {kind} from the host fails replica {to} for good: {e}")),
        }
        if handshake {
            self.restarted.remove(&(to, packet.from));
        }
        self.take(to, trace)
    }

    fn tick(&mut self, trace: &mut Trace) -> Result<(), Violation> {
        self.now += 1;
        let ids: Vec<u64> = self.nodes.keys().copied().collect();
        for id in ids {
            self.nodes.get_mut(&id).unwrap().make_tick();
            self.take(id, trace)?;
        }
        Ok(())
    }
}

fn pair(rng: &mut Rng, n: u64) -> (u64, u64) {
    let from = rng.range(1, n);
    let to = (from + rng.range(1, n - 1) - 1) % n + 1;
    (from, to)
}

/// What the host may do without a message being lost or a session being disturbed.
fn meddle(w: &mut World, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
    let handshake = |p: &Packet| matches!(p.msg, in_message::Msg::SecureChannelHandshake(_));
    if rng.pct(50) {
        // A message passes up to two earlier ones of its channel.
        if !w.unordered || w.net.is_empty() {
            return Ok(());
        }
        let i = rng.usize(w.net.len());
        let (from, to) = (w.net[i].from, w.net[i].to);
        let ahead = |p: &&Packet| p.from == from && p.to == to;
        // Those that are passed have to be within the window of what was delivered.
        let Some(first) = w.net.iter().take(i + 1).filter(ahead).map(|p| p.index).min() else { return Ok(()) };
        let last = w.net[i].index;
        let distance = w.old.iter().filter(ahead).filter(|p| p.index > first && p.index <= last).count();
        if w.net.iter().take(i + 1).filter(ahead).any(handshake) || distance > 2 {
            return Ok(());
        }
        let p = w.net.remove(i).unwrap();
        trace.log(format!("a message {from}->{to} overtakes"));
        w.o.add("overtakes", 1);
        return w.deliver(p, trace);
    }
    // Junk on an established channel.
    let settled: Vec<(u64, u64)> = w.settled.iter().filter(|(_, s)| **s).map(|(p, _)| *p).collect();
    if settled.is_empty() || w.old.is_empty() {
        return Ok(());
    }
    let (from, to) = *rng.pick(&settled);
    if w.net.iter().any(|p| handshake(p) && (p.from == from || p.from == to)) {
        return Ok(());
    }
    let mut p = rng.pick(&w.old).clone();
    let Some(slot) = payload_mut(&mut p.msg) else { return Ok(()) };
    let x = slot.get_or_insert_with(Default::default);
    let mut c = x.contents.to_vec();
    c.push(0);
    x.contents = c.into();
    if rng.pct(20) {
        *slot = None;
    }
    set_ids(&mut p.msg, Some(from), Some(to));
    trace.log(format!("host forges a {} {from}->{to}", what(&p.msg)));
    w.o.add("junk", 1);
    w.deliver(Packet { from, to, msg: p.msg, index: 0 }, trace)?;
    w.settled.insert((from, to), true);
    Ok(())
}

/// The host interferes.
fn interfere(w: &mut World, rng: &mut Rng, n: u64, trace: &mut Trace) -> Result<(), Violation> {
    match rng.below(10) {
        0 | 1 => {
            if !w.net.is_empty() {
                let i = rng.usize(w.net.len());
                w.net.remove(i);
                w.o.add("dropped", 1);
                trace.log("host drops a message");
            }
        }
        2 | 3 => {
            if !w.old.is_empty() {
                let p = rng.pick(&w.old).clone();
                w.o.add("replayed", 1);
                trace.log(format!("host replays a {}", what(&p.msg)));
                w.deliver(p, trace)?;
            }
        }
        4 | 5 => {
            // Flip, cut or swap what is encrypted.
            if !w.old.is_empty() {
                let mut p = rng.pick(&w.old).clone();
                let other = payload(&rng.pick(&w.old).msg);
                if let Some(slot) = payload_mut(&mut p.msg) {
                    let mode = rng.below(5);
                    if let Some(x) = slot {
                        let mut c = x.contents.to_vec();
                        match mode {
                            0 if !c.is_empty() => {
                                let i = rng.usize(c.len());
                                c[i] ^= 1 << rng.below(8);
                            }
                            1 => c.truncate(rng.usize(c.len() + 1).saturating_sub(1)),
                            2 => c = if other == c { vec![] } else { other },
                            3 => {
                                let mut nonce = x.nonce.to_vec();
                                if let Some(last) = nonce.last_mut() {
                                    *last ^= 1 << rng.below(3);
                                }
                                x.nonce = nonce.into();
                            }
                            _ => c.push(0),
                        }
                        w.retyped |= mode == 2;
                        x.contents = c.into();
                    }
                    if rng.pct(5) {
                        *slot = None;
                    }
                    w.o.add("tampered", 1);
                    trace.log(format!("host tampers with a {} (mode {mode})", what(&p.msg)));
                    w.deliver(p, trace)?;
                } else if let in_message::Msg::SecureChannelHandshake(h) = &p.msg {
                    let mut bytes = h.encode_to_vec();
                    if !bytes.is_empty() {
                        let i = rng.usize(bytes.len());
                        bytes[i] ^= 1 << rng.below(8);
                    }
                    if let Ok(mut h) = SecureChannelHandshake::decode(&bytes[..]) {
                        h.sender_replica_id = p.from;
                        h.recipient_replica_id = p.to;
                        w.o.add("tampered", 1);
                        trace.log("host tampers with a handshake");
                        w.deliver(Packet { msg: in_message::Msg::SecureChannelHandshake(h), ..p }, trace)?;
                    }
                }
            }
        }
        6 => {
            let (from, to) = pair(rng, n);
            let h = SecureChannelHandshake {
                recipient_replica_id: to,
                sender_replica_id: from,
                encryption: None,
            };
            w.o.add("forged", 1);
            trace.log("host forges a handshake");
            w.deliver(Packet { from, to, msg: in_message::Msg::SecureChannelHandshake(h), index: 0 }, trace)?;
        }
        7 => {
            let (from, to) = pair(rng, n);
            let m = DeliverSystemMessage {
                recipient_replica_id: to,
                sender_replica_id: from,
                payload: Some(Payload { contents: Bytes::from_static(b"CANARY forged"), nonce: vec![0, 0, 0, rng.below(9) as u8].into() }),
                ..Default::default()
            };
            w.o.add("forged", 1);
            trace.log("host forges a message");
            w.deliver(Packet { from, to, msg: in_message::Msg::DeliverSystemMessage(m), index: 0 }, trace)?;
        }
        8 if w.redirected && !w.old.is_empty() => {
            let mut p = rng.pick(&w.old).clone();
            let (from, to) = pair(rng, n);
            set_ids(&mut p.msg, Some(from), Some(to));
            w.o.add("redirected", 1);
            trace.log(format!("host redirects a {} {}->{} as {from}->{to}", what(&p.msg), p.from, p.to));
            w.deliver(Packet { from, to, msg: p.msg, index: 0 }, trace)?;
        }
        _ => {
            // A message is passed by up to two others, within the window of a session, or more.
            if w.net.len() > 1 {
                let i = rng.usize(w.net.len());
                let p = w.net.remove(i).unwrap();
                w.o.add("reordered", (i > 0) as u64);
                w.deliver(p, trace)?;
            }
        }
    }
    Ok(())
}

pub fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    oak_stub::det::seed(rng.next());
    let calm = rng.pct(40);
    let mut w = World::new(calm);
    let n = rng.range(2, 3);
    let kind = *rng.pick(&[Kind::RestrictedKernel, Kind::Containers, Kind::ContainersInsecure]);
    let (retry, mut timeout) = (rng.range(1, 4), rng.range(4, 15) as u32);
    if calm && rng.pct(30) {
        // Nothing is lost and nobody restarts, so nothing has to time out.
        timeout = 1_000_000;
    }
    w.redirected = !calm && rng.pct(30);
    w.unordered = calm && rng.pct(50);
    trace.log(format!("{n} replicas, {kind:?}, calm {calm}, retry {retry}, timeout {timeout}"));
    for id in 1..=n {
        w.nodes.insert(id, module(id, &honest(kind, id), reference(kind, false), retry, timeout));
    }
    for _ in 0..rng.range(20, 150) {
        match rng.below(20) {
            0..=4 => {
                let (from, to) = pair(rng, n);
                w.send(from, to, rng, trace)?;
            }
            // A member that gives up on a handshake which the other side completes loses what is on
            // its way, so the network of calm cases is faster than the clock.
            5 => {
                while let (true, Some(p)) = (calm, w.net.pop_front()) {
                    w.deliver(p, trace)?;
                }
                w.tick(trace)?
            }
            6 if !calm && rng.pct(20) => {
                // A replica is not a member for a moment.
                let gone = rng.range(1, n);
                let id = rng.range(1, n);
                let rest: Vec<u64> = (1..=n).filter(|x| *x != gone).collect();
                trace.log(format!("{id} hears that {gone} left"));
                w.nodes.get_mut(&id).unwrap().process_cluster_change(&rest);
                w.take(id, trace)?;
            }
            7 => {
                let id = rng.range(1, n);
                let all: Vec<u64> = (1..=n).collect();
                w.nodes.get_mut(&id).unwrap().process_cluster_change(&all);
                w.take(id, trace)?;
            }
            8..=10 if !calm => interfere(&mut w, rng, n, trace)?,
            8 | 9 => meddle(&mut w, rng, trace)?,
            10 if rng.pct(10) && timeout < 1_000_000 => {
                let id = rng.range(1, n);
                trace.log(format!("{id} restarts"));
                w.o.add("restarts", 1);
                w.nodes.insert(id, module(id, &honest(kind, id), reference(kind, false), retry, timeout));
                w.net.retain(|p| p.from != id && p.to != id);
                w.sent.values_mut().filter(|s| s.from == id || s.to == id).for_each(|s| s.excused = true);
                for other in (1..=n).filter(|x| *x != id) {
                    w.restarted.remove(&(id, other));
                    w.restarted.insert((other, id), true);
                    w.settled.insert((id, other), false);
                    w.settled.insert((other, id), false);
                }
            }
            _ => {
                if let Some(p) = w.net.pop_front() {
                    w.deliver(p, trace)?;
                }
            }
        }
    }

    // From here on the host behaves. Calm cases get every message through, others recover.
    let recovery = w.now + 1;
    w.o.add(if calm { "calm_cases" } else { "recoveries" }, 1);
    if !calm {
        w.net.clear();
        if w.redirected {
            // Whoever's sessions got crossed starts over.
            let all: Vec<u64> = (1..=n).collect();
            for id in 1..=n {
                let m = w.nodes.get_mut(&id).unwrap();
                m.process_cluster_change(&[id]);
                m.process_cluster_change(&all);
            }
        }
    }
    for round in 0.. {
        ensure!(
            round < 1500, if calm { "undelivered" } else { "no-recovery" },
            "after {round} ticks with an honest network: {}",
            w.sent.values().filter(|s| s.received == 0 && !s.excused && (calm || s.at >= recovery)).map(|s| format!("{:?} {}->{} ", s.what, s.from, s.to)).take(5).collect::<String>()
        );
        w.tick(trace)?;
        for from in 1..=n {
            for to in 1..=n {
                // Quiet members answer only, as followers do.
                if from != to && rng.pct(if from == 1 { 40 } else { 8 }) && round % 20 < 15 {
                    w.send(from, to, rng, trace)?;
                }
            }
        }
        while let Some(p) = w.net.pop_front() {
            w.deliver(p, trace)?;
        }
        let done = if calm {
            w.sent.values().all(|s| s.received == 1 || s.excused)
        } else {
            (1..=n).all(|a| {
                (1..=n).all(|b| {
                    a == b || w.sent.values().any(|s| s.from == a && s.to == b && s.received == 1 && s.at >= recovery)
                })
            })
        };
        if done && round > 2 {
            w.o.add("recovery_ticks", round);
            break;
        }
    }
    w.o.nontrivial = w.o.get("received") > 0;
    w.o.sample = trace.tail(6);
    Ok(w.o)
}

// ---------------------------------------------------------------------------------------
// Attestation

/// Whether a replica with these reference values may talk to this peer.
fn acceptable(kind: Kind, allow_debug: bool, peer: &Identity, hardware_signed: bool) -> bool {
    let e = &peer.evidence;
    let app = e.measurement == b"app" || e.measurement == b"app2";
    let kernel = e.kernel == b"kernel" || e.kernel == b"kernel2";
    let system = e.system == b"system" || e.system == b"system2";
    let firmware = e.firmware == b"firmware" || e.firmware == b"firmware2";
    let bound = |key: &[u8]| key == peer.key.public();
    match kind {
        Kind::RestrictedKernel => {
            app && kernel
                && hardware_signed
                && bound(&e.signing_key)
                && matches!(peer.endorsements.r#type, Some(endorsements::Type::OakRestrictedKernel(_)))
        }
        Kind::Containers => {
            app && kernel && system && firmware && hardware_signed && (!e.debug || allow_debug) && bound(&e.binding_key)
        }
        Kind::ContainersInsecure => app && kernel && system && bound(&e.binding_key),
    }
}

pub fn attest(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    oak_stub::det::seed(rng.next());
    let mut w = World::new(false);
    let kind = *rng.pick(&[Kind::RestrictedKernel, Kind::Containers, Kind::ContainersInsecure]);
    let allow_debug = rng.pct(30);
    let me = honest(kind, 1);
    let mut peer = honest(kind, 2);
    let mut hardware_signed = true;
    let mut broken = vec![];
    let mut change = |peer: &mut Identity, what: u64, rng: &mut Rng| -> &'static str {
        let e = &mut peer.evidence;
        let name = match what {
            0 => {
                e.measurement = (*rng.pick(&[&b"evil"[..], b"", b"app3", b"system"])).to_vec();
                "application"
            }
            1 => {
                e.kernel = (*rng.pick(&[&b"evil"[..], b"", b"app"])).to_vec();
                "kernel"
            }
            2 => {
                e.system = (*rng.pick(&[&b"evil"[..], b"", b"app"])).to_vec();
                "system"
            }
            3 => {
                e.firmware = (*rng.pick(&[&b"evil"[..], b"", b"app"])).to_vec();
                "firmware"
            }
            4 => {
                e.debug = true;
                "debug"
            }
            5 => {
                // Stolen evidence of an honest instance.
                peer.key = SigningKey::from_secret(b"attacker");
                "stolen"
            }
            6 => {
                peer.endorsements = match rng.below(2) {
                    0 => Endorsements::default(),
                    _ => endorsed(if kind == Kind::RestrictedKernel { Kind::Containers } else { Kind::RestrictedKernel }),
                };
                "endorsements"
            }
            _ => "unsigned",
        };
        if what < 5 {
            peer.evidence = sign_evidence(peer.evidence.clone());
        }
        name
    };
    if rng.pct(70) {
        for _ in 0..rng.range(1, 2) {
            let what = rng.below(8);
            broken.push(change(&mut peer, what, rng));
            if what == 7 {
                hardware_signed = false;
            }
        }
    } else if rng.pct(30) {
        // Any of the accepted versions is fine.
        peer.evidence.measurement = b"app2".to_vec();
        peer.evidence.kernel = b"kernel2".to_vec();
        peer.evidence = sign_evidence(peer.evidence.clone());
    }
    if !hardware_signed {
        peer.evidence.hardware_signature = rng.bytes(32);
    }
    // Now and then this replica's own configuration lacks reference values: then nobody is fine.
    let mut mine = reference(kind, allow_debug);
    let mut incomplete = false;
    if rng.pct(15) {
        incomplete = true;
        match &mut mine.r#type {
            Some(reference_values::Type::OakRestrictedKernel(v)) => match rng.below(3) {
                0 => v.root_layer = None,
                1 => v.kernel_layer = None,
                _ => v.application_layer = None,
            },
            Some(reference_values::Type::OakContainers(v)) => match rng.below(4) {
                0 => v.root_layer = None,
                1 => v.kernel_layer = None,
                2 => v.system_layer = None,
                _ => v.container_layer = None,
            },
            None => {}
        }
        if rng.pct(20) {
            mine.r#type = None;
        }
    }
    let expected = !incomplete && acceptable(kind, allow_debug, &peer, hardware_signed);
    trace.log(format!("{kind:?}, peer's {broken:?}, incomplete {incomplete}, debug allowed {allow_debug}: acceptable {expected}"));
    if rng.pct(30) {
        w.o.add(if expected { "acceptable" } else { "unacceptable" }, 1);
        crate::hands::run(&me, mine, &peer, reference(kind, true), expected, rng, trace, &mut w.o)?;
        w.o.nontrivial = true;
        w.o.sample = trace.tail(6);
        return Ok(w.o);
    }
    w.nodes.insert(1, module(1, &me, mine, 1, 10));
    // The other side takes anybody with a real binding.
    w.nodes.insert(2, module(2, &peer, reference(kind, true), 1, 10));
    w.o.see(kind as u64 * 1000 + expected as u64);
    broken.iter().for_each(|b| w.o.see(vcommon::hash_str(b)));
    w.o.add(if expected { "acceptable" } else { "unacceptable" }, 1);

    for round in 0..if expected { 1500 } else { 60 } {
        w.tick(trace)?;
        for (from, to) in [(1, 2), (2, 1)] {
            if rng.pct(30) {
                w.send(from, to, rng, trace)?;
            }
        }
        while let Some(p) = w.net.pop_front() {
            if p.from == 1 && !expected {
                ensure!(
                    matches!(p.msg, in_message::Msg::SecureChannelHandshake(_)), "sent",
                    "a {} left for a peer with wrong {broken:?} (own values incomplete: {incomplete})", what(&p.msg)
                );
            }
            w.deliver(p, trace)?;
        }
        let (a, b) = w.sent.values().fold((0, 0), |(a, b), s| {
            (a + (s.received > 0 && s.from == 1) as u64, b + (s.received > 0 && s.to == 1) as u64)
        });
        if !expected {
            ensure!(
                a == 0 && b == 0, "talked",
                "{a} messages sent to and {b} taken from a peer with wrong {broken:?} (own values incomplete: {incomplete})"
            );
        } else if a > 2 && b > 2 {
            w.o.add("talked", 1);
            break;
        } else {
            ensure!(round < 1499, "refused", "an acceptable peer is refused after {round} ticks: {broken:?}");
        }
    }
    w.o.nontrivial = true;
    w.o.sample = trace.tail(6);
    
    Ok(w.o)
}
