//! Reports what an unmodified actor of the repository is told, and what it says.

use prost::bytes::Bytes;
use oak_proto_rust::oak::attestation::v1::ReferenceValues;
use tcp_runtime::model::*;

use crate::watch::{hash_bytes, Op, SharedRef};

pub struct Plain<A: Actor> {
    inner: A,
    shared: SharedRef,
    id: u64,
    /// Number of the operation in an event's contents.
    op: fn(&Bytes) -> Option<u64>,
}

impl<A: Actor> Plain<A> {
    pub fn new(inner: A, shared: SharedRef, op: fn(&Bytes) -> Option<u64>) -> Plain<A> {
        Plain { inner, shared, id: 0, op }
    }

    fn state(&mut self, index: u64) -> Result<(), ActorError> {
        let snapshot = self.inner.on_save_snapshot()?;
        self.shared.borrow_mut().state(self.id, index, (0, hash_bytes(&snapshot)));
        Ok(())
    }
}

impl<A: Actor> Actor for Plain<A> {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.id = context.id();
        let id = self.id;
        self.shared.borrow_mut().node(id).inits += 1;

        self.inner.on_init(context)
    }

    fn on_shutdown(&mut self) {
        self.shared.borrow_mut().node(self.id).shutdowns += 1;
        self.inner.on_shutdown()
    }

    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        let snapshot = self.inner.on_save_snapshot()?;
        self.shared.borrow_mut().saved(self.id, &snapshot);
        Ok(snapshot)
    }

    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        self.shared.borrow_mut().loaded(self.id, &snapshot);
        self.inner.on_load_snapshot(snapshot)?;
        let last = {
            let mut shared = self.shared.borrow_mut();
            let index = shared.node(self.id).snapshot_index;
            let last = shared.prefix.range(..=index).next_back().map(|(i, _)| *i).unwrap_or(0);
            shared.node(self.id).last_event = last;
            last
        };
        if last > 0 {
            self.state(last)?;
        }
        Ok(())
    }

    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        self.shared.borrow_mut().node(self.id).commands.push(command.clone());
        let outcome = self.inner.on_process_command(command)?;
        let mut shared = self.shared.borrow_mut();
        shared.output(self.id, &outcome.commands);
        if let Some(event) = &outcome.event {
            shared.count("proposed");
            if let Some(op) = (self.op)(&event.contents) {
                let recorded = Op {
                    proposer: self.id,
                    correlation: event.correlation_id,
                    contents: event.contents.clone(),
                    index: None,
                    acknowledged: false,
                };
                if shared.ops.insert(op, recorded).is_some() {
                    shared.fail(&["C17"], "proposed-twice", format!("operation {op} is proposed twice"));
                }
            }
        }
        Ok(outcome)
    }

    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        let index = context.index;
        let op = (self.op)(&event.contents);
        self.shared.borrow_mut().applied(self.id, index, context.owned, event.correlation_id, &event.contents, op);
        let outcome = self.inner.on_apply_event(context, event)?;
        self.shared.borrow_mut().output(self.id, &outcome.commands);
        self.state(index)?;
        Ok(outcome)
    }

    fn get_reference_values(&self) -> ReferenceValues {
        self.inner.get_reference_values()
    }
}
