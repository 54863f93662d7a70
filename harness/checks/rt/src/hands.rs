//! Handshake sessions and encryptors on their own: what the communication module relies on,
//! also where it would catch the mistake itself.

use std::sync::Arc;

use oak_stub::time::{clock::FixedClock, UNIX_EPOCH};
use tcp_proto::runtime::endpoint::{
    secure_channel_handshake::{noise_protocol, Encryption, NoiseProtocol},
    Payload, SecureChannelHandshake,
};
use tcp_runtime::{
    encryptor::Encryptor,
    handshake::{DefaultHandshakeSessionProvider, HandshakeSession, HandshakeSessionProvider, Role},
    session::DefaultOakSessionFactory,
};
use vcommon::{ensure, violation, Observed, Rng, Trace, Violation};

use crate::comm::{Factory, Identity};
use oak_proto_rust::oak::attestation::v1::ReferenceValues;

fn provider(identity: &Identity, reference: ReferenceValues) -> DefaultHandshakeSessionProvider {
    let mut p = DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
        Box::new(Factory(identity.clone())),
        Box::new(Factory(identity.clone())),
    )));
    p.init(
        crate::logger(),
        Arc::new(FixedClock::at_instant(UNIX_EPOCH)),
        reference,
        identity.endorsements.clone(),
    );
    p
}

struct Side {
    id: u64,
    peer: u64,
    initiator: bool,
    session: Box<dyn HandshakeSession>,
    failed: bool,
    completed: bool,
    /// Handed something that the peer's session didn't say next.
    disturbed: bool,
}

impl Side {
    fn new(p: &DefaultHandshakeSessionProvider, id: u64, initiator: bool) -> Result<Side, Violation> {
        let peer = 3 - id;
        let role = if initiator { Role::Initiator } else { Role::Recipient };
        match p.get(id, peer, role) {
            Ok(session) => Ok(Side { id, peer, initiator, session, failed: false, completed: false, disturbed: false }),
            Err(e) => violation("session", format!("{id} gets no session: {e:?}")),
        }
    }

    /// Its state may only go forward.
    fn look(&mut self, acceptable: bool) -> Result<(), Violation> {
        let now = self.session.is_completed();
        ensure!(now || !self.completed, "reopened", "{}'s completed handshake isn't any more", self.id);
        ensure!(!now || !self.failed, "revived", "{}'s failed handshake completed", self.id);
        ensure!(
            !now || acceptable || self.id != 1, "talked",
            "{} completed a handshake with a peer it must not accept", self.id
        );
        self.completed = now;
        Ok(())
    }

    fn take(&mut self, acceptable: bool) -> Result<Option<SecureChannelHandshake>, Violation> {
        let (failed, completed) = (self.failed, self.completed);
        let out = match self.session.take_out_message() {
            Ok(out) => out,
            Err(_) => {
                self.failed |= !completed;
                None
            }
        };
        if let Some(m) = &out {
            ensure!(!failed, "failed_speaks", "{}'s failed handshake goes on with {m:?}", self.id);
            ensure!(
                m.sender_replica_id == self.id && m.recipient_replica_id == self.peer, "address",
                "{} to {} sends {m:?}", self.id, self.peer
            );
            let role = match &m.encryption {
                Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(message) })) => match message {
                    noise_protocol::Message::InitiatorRequest(r) => r.message.is_some() && self.initiator,
                    noise_protocol::Message::RecipientResponse(r) => r.message.is_some() && !self.initiator,
                },
                _ => false,
            };
            ensure!(role, "role", "{} (initiator {}) says {m:?}", self.id, self.initiator);
        }
        self.look(acceptable)?;
        Ok(out)
    }

    fn put(&mut self, m: SecureChannelHandshake, acceptable: bool) -> Result<(), Violation> {
        let (failed, completed) = (self.failed, self.completed);
        let fits = matches!(
            (&m.encryption, self.initiator),
            (Some(Encryption::NoiseProtocol(NoiseProtocol {
                message: Some(noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse { message: Some(_) }))
            })), true)
                | (Some(Encryption::NoiseProtocol(NoiseProtocol {
                    message: Some(noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(_) }))
                })), false)
        );
        let error = self.session.process_message(m).is_err();
        if error {
            self.failed |= !completed;
        }
        ensure!(
            fits || error || failed || completed, "senseless",
            "{} (initiator {}) takes a message that makes no sense", self.id, self.initiator
        );
        self.look(acceptable)
    }
}

pub fn run(
    me: &Identity,
    mine: ReferenceValues,
    peer: &Identity,
    theirs: ReferenceValues,
    acceptable: bool,
    rng: &mut Rng,
    trace: &mut Trace,
    o: &mut Observed,
) -> Result<(), Violation> {
    let providers = [provider(me, mine), provider(peer, theirs)];
    let mut old: Vec<SecureChannelHandshake> = vec![];
    let attempts = 1 + rng.usize(3);
    for attempt in 0..attempts {
        let initiator = rng.pct(50);
        let mut sides = [Side::new(&providers[0], 1, initiator)?, Side::new(&providers[1], 2, !initiator)?];
        let hostile = if rng.pct(40) { 0 } else { rng.range(1, 40) };
        // Whom a message goes to, oldest first.
        let mut net: [Vec<SecureChannelHandshake>; 2] = [vec![], vec![]];
        for _ in 0..40 {
            let s = rng.usize(2);
            if rng.pct(50) {
                // The recipient has nothing to say before it heard something.
                if let Some(m) = sides[s].take(acceptable)? {
                    trace.log(format!("{attempt}: {} says {}", s + 1, net[1 - s].len()));
                    old.push(m.clone());
                    net[1 - s].push(m);
                }
            } else if rng.pct(hostile) && !old.is_empty() {
                let mut m = rng.pick(&old).clone();
                match rng.below(8) {
                    0 => m.encryption = None,
                    1 => m.encryption = Some(Encryption::NoiseProtocol(NoiseProtocol { message: None })),
                    2 => {
                        let message = if rng.pct(50) {
                            noise_protocol::Message::RecipientResponse(noise_protocol::RecipientResponse { message: None })
                        } else {
                            noise_protocol::Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: None })
                        };
                        m.encryption = Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(message) }));
                    }
                    _ => {}
                }
                trace.log(format!("{attempt}: {} is handed something else", s + 1));
                o.add("handshake_meddled", 1);
                sides[s].disturbed |= !sides[s].completed;
                sides[s].put(m, acceptable)?;
            } else if !net[s].is_empty() {
                let m = net[s].remove(0);
                sides[s].put(m, acceptable)?;
            } else if rng.pct(5) {
                o.add("handshake_abandoned", sides[s].session.is_completed() as u64 ^ 1);
            }
        }
        let [mut a, mut b] = sides;
        let undisturbed = !a.disturbed && !b.disturbed;
        // Whatever is left goes its way.
        for _ in 0..8 {
            for m in net[0].drain(..) {
                a.put(m, acceptable)?;
            }
            net[1].extend(a.take(acceptable)?);
            for m in net[1].drain(..) {
                b.put(m, acceptable)?;
            }
            net[0].extend(b.take(acceptable)?);
        }
        trace.log(format!(
            "{attempt}: initiator {}, completed {} {}, failed {} {}, undisturbed {undisturbed}",
            if initiator { 1 } else { 2 }, a.completed, b.completed, a.failed, b.failed
        ));
        if acceptable && undisturbed {
            ensure!(a.completed && b.completed, "incomplete", "an undisturbed handshake isn't completed: {} {}", a.completed, b.completed);
            o.add("handshakes_completed", 1);
        }
        o.see(0x4a00 + a.completed as u64 * 8 + b.completed as u64 * 4 + a.failed as u64 * 2 + b.failed as u64);
        let (ac, bc) = (a.completed, b.completed);
        let (ea, eb) = (a.session.get_encryptor(), b.session.get_encryptor());
        ensure!(
            ea.is_some() == ac && eb.is_some() == bc, "encryptor",
            "encryptors {} and {} though completed {ac} and {bc}", ea.is_some(), eb.is_some()
        );
        if let (Some(ea), Some(eb)) = (ea, eb) {
            talk(ea, eb, undisturbed, rng, o)?;
        }
    }
    Ok(())
}

/// Both ends of one channel: what comes out is what was put in, once.
fn talk(a: Box<dyn Encryptor>, b: Box<dyn Encryptor>, connected: bool, rng: &mut Rng, o: &mut Observed) -> Result<(), Violation> {
    let mut ends = [a, b];
    for i in 0..rng.usize(8) {
        ends.swap(0, rng.usize(2));
        let [from, to] = &mut ends;
        let size = rng.usize(40);
        let plain = rng.bytes(size);
        let sealed = match from.encrypt(&plain) {
            Ok(sealed) => sealed,
            Err(e) => return violation("encrypt", format!("message {i} isn't encrypted: {e:?}")),
        };
        ensure!(
            plain.len() < 8 || !sealed.contents.windows(plain.len()).any(|w| w == plain), "clear",
            "message {i} is in the clear"
        );
        let meddled = rng.pct(30);
        if meddled {
            // Once changed, once (or more) in the place of the other.
            let mut bad: Payload = sealed.clone();
            let mut contents = bad.contents.to_vec();
            match rng.below(4) {
                0 if !contents.is_empty() => {
                    let n = rng.usize(contents.len());
                    contents[n] ^= 1 << rng.below(8);
                }
                1 => {
                    contents.pop();
                }
                2 => contents.push(rng.next() as u8),
                _ => contents.clear(),
            }
            if contents != sealed.contents.to_vec() {
                bad.contents = contents.into();
                ensure!(to.decrypt(&bad).is_err(), "tampered", "a tampered message {i} is taken");
            }
        }
        match to.decrypt(&sealed) {
            Ok(out) => {
                ensure!(out == plain, "contents", "message {i} comes out as {out:?} instead of {plain:?}");
                o.add("encrypted", 1);
            }
            Err(e) => ensure!(!connected, "decrypt", "message {i} isn't decrypted (tampered before: {meddled}): {e:?}"),
        }
        if rng.pct(30) {
            ensure!(to.decrypt(&sealed).is_err(), "replayed", "message {i} is taken twice");
        }
        if rng.pct(20) {
            ensure!(from.decrypt(&sealed).is_err(), "reflected", "message {i} is taken by its sender");
        }
    }
    Ok(())
}
