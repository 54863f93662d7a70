//! An actor whose state is what it was told: every callback is reported to the monitors.

use std::cell::Cell;

use oak_proto_rust::oak::attestation::v1::ReferenceValues;
use prost::bytes::Bytes;
use tcp_runtime::model::*;
use vcommon::{mix, Rng};

use crate::watch::{hash_bytes, Op, SharedRef};

/// Marks what must never leave a replica in the clear.
pub const CANARY: &[u8] = b"TOP-SECRET";

/// What a client asks for, the first byte of its header after the operation's number.
pub const EVENT: u8 = 0;
pub const REPLY: u8 = 1;
pub const BOTH: u8 = 2;
pub const REPLIES: u8 = 3;
pub const NOTHING: u8 = 4;
/// An event on which every replica gives out a command.
pub const BROADCAST: u8 = 5;

pub const STATUS_OK: u8 = 1;
pub const STATUS_NOT_LEADER: u8 = 2;
pub const STATUS_SEEN: u8 = 3;
pub const STATUS_BROADCAST: u8 = 4;

thread_local! {
    static NEXT_OP: Cell<u64> = const { Cell::new(1) };
}

pub fn reset() {
    NEXT_OP.with(|n| n.set(1));
}

pub fn next_op() -> u64 {
    NEXT_OP.with(|n| n.replace(n.get() + 1))
}

pub fn header(op: u64, kind: u8, status: u8) -> Bytes {
    let mut h = op.to_be_bytes().to_vec();
    h.extend([kind, status]);
    h.into()
}

pub fn parse(header: &[u8]) -> Option<(u64, u8, u8)> {
    if header.len() < 10 {
        return None;
    }
    Some((u64::from_be_bytes(header[..8].try_into().unwrap()), header[8], header[9]))
}

fn contents(op: u64, kind: u8, rng: &mut Rng) -> Bytes {
    let mut c = CANARY.to_vec();
    c.extend(op.to_be_bytes());
    c.push(kind);
    let n = *rng.pick(&[0, 1, 10, 50, 200]);
    c.extend(rng.bytes(n));
    c.into()
}

pub struct Ledger {
    shared: SharedRef,
    context: Option<Box<dyn ActorContext>>,
    id: u64,
    expected_id: u64,
    config: Bytes,
    reference: ReferenceValues,
    count: u64,
    hash: u64,
    last: u64,
    rng: Rng,
    /// Proposes on ticks in so many of 1000.
    ticks: u64,
    /// Proposes even if it isn't leader.
    reckless: bool,
    pad: usize,
    instant: u64,
    ephemeral: bool,
}

pub struct Options {
    pub id: u64,
    pub config: Bytes,
    pub reference: ReferenceValues,
    pub ticks: u64,
    pub reckless: bool,
    pub pad: usize,
    pub ephemeral: bool,
}

impl Ledger {
    pub fn new(shared: SharedRef, rng: Rng, options: Options) -> Ledger {
        Ledger {
            shared,
            context: None,
            id: 0,
            expected_id: options.id,
            config: options.config,
            reference: options.reference,
            count: 0,
            hash: 0,
            last: 0,
            rng,
            ticks: options.ticks,
            reckless: options.reckless,
            pad: options.pad,
            instant: 0,
            ephemeral: options.ephemeral,
        }
    }

    fn propose(&mut self, op: u64, kind: u8, correlation: u64) -> ActorEvent {
        let contents = contents(op, kind, &mut self.rng);
        let mut shared = self.shared.borrow_mut();
        shared.count("proposed");
        shared.ops.insert(op, Op { proposer: self.id, correlation, contents: contents.clone(), index: None, acknowledged: false });
        if self.ephemeral {
            shared.node(self.id).handed.push_back((correlation, contents.clone()));
        }
        ActorEvent::with_bytes(correlation, contents)
    }

    fn reply(&mut self, op: u64, kind: u8, status: u8, correlation: u64) -> ActorCommand {
        let n = self.rng.usize(30);
        let payload = [CANARY, &self.rng.bytes(n)[..]].concat();
        ActorCommand { correlation_id: correlation, header: header(op, kind, status), payload: payload.into() }
    }

    fn check_context(&mut self) -> Result<(), ActorError> {
        let context = self.context.as_ref().unwrap();
        let (id, instant, config) = (context.id(), context.instant(), context.config());
        let mut shared = self.shared.borrow_mut();
        if id != self.expected_id {
            shared.fail(&["C31"], "context-id", format!("actor of replica {} is told it is {id}", self.expected_id));
        }
        if instant < self.instant {
            shared.fail(&["C31"], "context-instant", format!("actor's clock goes back from {} to {instant}", self.instant));
        }
        if config != self.config {
            shared.fail(&["C31"], "context-config", "actor isn't given its configuration".to_string());
        }
        let view = shared.node(id);
        let now = view.now;
        if view.inits != 1 || view.shutdowns != 0 {
            shared.fail(&["C31"], "callback-outside-life", format!("replica {id}: callback outside of the actor's life"));
        }
        if now.is_some_and(|now| now != instant) {
            shared.fail(&["C31"], "context-instant", format!("actor's clock shows {instant}, its host's latest instant is {now:?}"));
        }
        self.instant = instant;
        if shared.called(id) {
            return Err(ActorError::Internal);
        }
        Ok(())
    }
}

impl Actor for Ledger {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.id = context.id();
        self.context = Some(context);
        self.shared.borrow_mut().node(self.id).inits += 1;
        self.check_context()?;
        Ok(())
    }

    fn on_shutdown(&mut self) {
        let mut shared = self.shared.borrow_mut();
        let node = shared.node(self.expected_id);
        node.callbacks += 1;
        node.shutdowns += 1;
        if node.shutdowns > 1 {
            shared.fail(&["C31"], "shutdown-twice", format!("actor {} is shut down twice", self.id));
        }
    }

    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        self.check_context()?;
        let mut data = Vec::new();
        for n in [self.count, self.hash, self.last] {
            data.extend(n.to_be_bytes());
        }
        data.extend(CANARY);
        let size = (self.hash as usize) % (self.pad + 1);
        data.extend(Rng::new(self.hash).bytes(size));
        let data = Bytes::from(data);
        self.shared.borrow_mut().saved(self.id, &data);
        Ok(data)
    }

    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        self.check_context()?;
        let mut shared = self.shared.borrow_mut();
        shared.loaded(self.id, &snapshot);
        if snapshot.len() < 24 {
            shared.fail(&["C29"], "snapshot-cut", format!("replica {} loads a snapshot of {} bytes", self.id, snapshot.len()));
            return Ok(());
        }
        let number = |i: usize| u64::from_be_bytes(snapshot[i * 8..i * 8 + 8].try_into().unwrap());
        (self.count, self.hash) = (number(0), number(1));
        let last = number(2);
        if last < self.last {
            shared.fail(&["C18", "C29"], "snapshot-older", format!("replica {} at {} loads a snapshot with events up to {last}", self.id, self.last));
        }
        self.last = last;
        shared.node(self.id).last_event = last;
        shared.state(self.id, last, (self.count, self.hash));
        Ok(())
    }

    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        self.check_context()?;
        self.shared.borrow_mut().node(self.id).commands.push(command.clone());
        let leader = self.context.as_ref().unwrap().leader();
        let may = leader || self.reckless || self.ephemeral;
        let mut outcome = CommandOutcome::with_none();
        match command {
            None => {
                if self.ticks > 0 && may && self.rng.below(1000) < self.ticks {
                    let op = next_op();
                    let correlation = self.rng.below(5);
                    outcome.event = Some(self.propose(op, EVENT, correlation));
                }
            }
            Some(command) => {
                let Some((op, kind, _)) = parse(&command.header) else {
                    return Ok(outcome);
                };
                let proposes = matches!(kind, EVENT | BOTH | BROADCAST);
                let correlation = command.correlation_id;
                if proposes && !may {
                    outcome.commands.push(self.reply(op, kind, STATUS_NOT_LEADER, correlation));
                } else {
                    if proposes {
                        outcome.event = Some(self.propose(op, kind, correlation));
                    }
                    let replies = match kind {
                        REPLY | BOTH => 1,
                        REPLIES => 3,
                        _ => 0,
                    };
                    for _ in 0..replies {
                        outcome.commands.push(self.reply(op, kind, STATUS_SEEN, correlation));
                    }
                }
            }
        }
        self.shared.borrow_mut().output(self.id, &outcome.commands);
        Ok(outcome)
    }

    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        self.check_context()?;
        let c = event.contents.clone();
        let start = CANARY.len();
        let op = (c.len() > start + 8 && c.starts_with(CANARY)).then(|| u64::from_be_bytes(c[start..start + 8].try_into().unwrap()));
        let kind = c.get(start + 8).copied().unwrap_or(EVENT);
        if self.ephemeral {
            let handed = {
                let mut shared = self.shared.borrow_mut();
                shared.count("applied");
                shared.node(self.id).events += 1;
                shared.node(self.id).handed.pop_front()
            };
            if handed != Some((event.correlation_id, c.clone())) {
                self.shared.borrow_mut().fail(&["C30"], "ephemeral-event", format!("ephemeral replica {} applies another event than its actor handed out", self.id));
            }
            if context.index != 0 || !context.owned {
                self.shared.borrow_mut().fail(&["C30"], "ephemeral-context", format!("event of an ephemeral replica has index {} and owned {}", context.index, context.owned));
            }
        } else {
            self.shared.borrow_mut().applied(self.id, context.index, context.owned, event.correlation_id, &c, op);
        }
        self.count += 1;
        self.hash = mix(self.hash, hash_bytes(&c));
        self.last = context.index;
        let mut commands = vec![];
        if let Some(op) = op {
            if context.owned {
                commands.push(self.reply(op, kind, STATUS_OK, event.correlation_id));
            }
            if kind == BROADCAST {
                commands.push(self.reply(op, kind, STATUS_BROADCAST, event.correlation_id));
            }
        }
        let mut shared = self.shared.borrow_mut();
        if !self.ephemeral {
            shared.state(self.id, context.index, (self.count, self.hash));
        }
        shared.output(self.id, &commands);
        Ok(EventOutcome::with_commands(commands))
    }

    fn get_reference_values(&self) -> ReferenceValues {
        self.reference.clone()
    }
}
