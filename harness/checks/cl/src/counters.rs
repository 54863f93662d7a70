//! Clients of the replicated atomic counter, and whether what they saw is what a single counter
//! would have shown them.

use std::collections::{BTreeMap, BTreeSet};

use prost::{bytes::Bytes, Message};
use tcp_atomic_counter_service::{
    actor::CounterActor,
    apps::atomic_counter::service::{
        atomic_counter_in_message, atomic_counter_out_message, counter_request, counter_response,
        AtomicCounterInMessage, AtomicCounterOutMessage, CounterCompareAndSwapRequest, CounterConfig, CounterRequest,
        CounterStatus,
    },
};
use vcommon::{ensure, linearizable, violation, Lin, Observed, Op, Rng, Trace, Violation};

use crate::plain::Plain;
use crate::identity::reference;
use crate::world::{Mode, World};

/// An operation as its client sees it.
#[derive(Clone, Debug)]
struct Call {
    op: u64,
    at: u64,
    name: String,
    expected: i64,
    new: i64,
    called: u64,
    /// When it was answered: whether it succeeded, old and new value.
    answered: Option<(u64, bool, i64, i64)>,
    rejected: bool,
}

#[derive(Default)]
struct Clients {
    calls: BTreeMap<u64, Call>,
    clock: u64,
    seen: usize,
}

type W = World<Plain<CounterActor>>;

fn op_of(contents: &Bytes) -> Option<u64> {
    let request = CounterRequest::decode(contents.clone()).ok()?;
    Some(u64::from_be_bytes(request.payload.get(..8)?.try_into().ok()?))
}

impl Clients {
    fn call(&mut self, w: &mut W, at: u64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        let op = self.calls.len() as u64 + 1;
        let name = format!("c{}", rng.below(3));
        // Often what someone was told it is.
        let known: Vec<i64> =
            self.calls.values().rev().filter(|c| c.name == name).take(5).filter_map(|c| c.answered.map(|a| a.3)).collect();
        let expected = if !known.is_empty() && rng.pct(70) { *rng.pick(&known) } else { rng.below(4) as i64 };
        let new = if rng.pct(10) { expected } else { rng.below(4) as i64 };
        self.send(w, at, op, name, expected, new, rng, trace)
    }

    #[allow(clippy::too_many_arguments)]
    fn send(&mut self, w: &mut W, at: u64, op: u64, name: String, expected: i64, new: i64, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
        self.clock += 1;
        let n = rng.usize(20);
        let request = CounterRequest {
            name: name.clone(),
            op: Some(counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest {
                expected_value: expected,
                new_value: new,
            })),
            payload: [&op.to_be_bytes()[..], &rng.bytes(n)[..]].concat().into(),
            context: Bytes::from(rng.bytes(3)),
            ..Default::default()
        };
        let header =
            AtomicCounterInMessage { msg: Some(atomic_counter_in_message::Msg::CounterRequest(request)) }.encode_to_vec();
        trace.log(format!("operation {op} at {at}: {name} from {expected} to {new}"));
        self.calls.insert(op, Call { op, at, name, expected, new, called: self.clock, answered: None, rejected: false });
        w.o.add("requests", 1);
        w.command(at, op, header.into(), rng, trace)?;
        self.collect(w, trace)
    }

    /// Takes the answers that have arrived.
    fn collect(&mut self, w: &mut W, trace: &mut Trace) -> Result<(), Violation> {
        while self.seen < w.replies.len() {
            let reply = &w.replies[self.seen];
            self.seen += 1;
            self.clock += 1;
            let op = reply.message.correlation_id;
            let Some(call) = self.calls.get_mut(&op) else {
                return violation("answer-from-nowhere", format!("replica {} answers {op}, which nobody asked", reply.from));
            };
            ensure!(reply.from == call.at, "answered-elsewhere", "replica {} answers operation {op}, sent to {}", reply.from, call.at);
            ensure!(call.answered.is_none() && !call.rejected, "answered-twice", "operation {op} is answered twice");
            let response = match AtomicCounterOutMessage::decode(reply.message.message_header.clone()) {
                Ok(AtomicCounterOutMessage { msg: Some(atomic_counter_out_message::Msg::CounterResponse(r)) }) => r,
                other => return violation("answer", format!("operation {op} is answered with {other:?}")),
            };
            let status = response.status();
            trace.log(format!("answer to {op}: {response:?}"));
            match (&response.op, status) {
                (None, CounterStatus::Rejected) => {
                    call.rejected = true;
                    w.o.add("rejected", 1);
                }
                (Some(counter_response::Op::CompareAndSwap(r)), CounterStatus::Success | CounterStatus::InvalidArgumentError) => {
                    call.answered = Some((self.clock, status == CounterStatus::Success, r.old_value, r.new_value));
                    w.o.add(if status == CounterStatus::Success { "swapped" } else { "not_swapped" }, 1);
                }
                _ => return violation("answer", format!("operation {op} is answered with {response:?}")),
            }
        }
        Ok(())
    }

    /// Whether there is an order of the operations on one counter which explains all answers and in
    /// which none comes before another that was answered before it was called.
    fn linearizable(&self, name: &str, initial: i64, o: &mut Observed) -> Result<(), Violation> {
        let calls: Vec<&Call> = self.calls.values().filter(|c| c.name == name && !c.rejected).collect();
        let ops: Vec<Op<&Call>> =
            calls.iter().map(|c| Op { input: *c, call: c.called, ret: c.answered.map(|a| a.0) }).collect();
        let step = |value: &i64, op: &Op<&Call>| {
            let success = *value == op.input.expected;
            let now = if success { op.input.new } else { *value };
            op.input.answered.is_none_or(|(_, s, old, new)| s == success && old == *value && new == now).then_some(now)
        };
        match linearizable(initial, &ops, step, 100_000) {
            Lin::Yes => {
                o.add("linearized_histories", 1);
                o.add("linearized_operations", calls.len() as u64);
                return Ok(());
            }
            Lin::Unknown => {
                o.add("undecided_histories", 1);
                return Ok(());
            }
            Lin::No => {}
        }
        violation(
            "not-linearizable",
            format!("no order explains the operations on {name}, initially {initial}: {calls:?}"),
        )
    }
}

pub fn case(mode: Mode, rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut config = CounterConfig::default();
    for i in 0..3 {
        if rng.pct(50) {
            config.initial_values.insert(format!("c{i}"), rng.below(4) as i64);
        }
    }
    trace.log(format!("{mode:?} {config:?}"));
    let mut w: W = World::new(
        mode,
        rng,
        Box::new(|shared, _, _, _| Plain::new(CounterActor::new_with_reference_values(reference()), shared.clone(), op_of)),
    );
    w.app_config = config.encode_to_vec().into();
    trace.log(format!("{:?}", w.config));
    match story(&mut w, &config, rng, trace) {
        // Violates some other property only.
        Err(v) if v.signature.is_empty() => {}
        other => other?,
    }
    let mut o = w.finish();
    o.nontrivial = o.get("swapped") > 3;
    o.sample = trace.tail(4);
    Ok(o)
}

fn story(w: &mut W, config: &CounterConfig, rng: &mut Rng, trace: &mut Trace) -> Result<(), Violation> {
    w.bootstrap(rng, trace)?;
    let mut clients = Clients::default();
    let steps = rng.range(20, 400);
    let limit = rng.range(5, 90);
    for _ in 0..steps {
        w.step(
            &mut |w, at, rng, trace| {
                if (clients.calls.len() as u64) < limit {
                    // Sometimes several at once.
                    for _ in 0..*rng.pick(&[1, 1, 1, 2, 4]) {
                        clients.call(w, at, rng, trace)?;
                    }
                }
                Ok(())
            },
            rng,
            trace,
        )?;
        clients.collect(w, trace)?;
    }
    w.settle("at the end", rng, trace)?;
    clients.collect(w, trace)?;
    // Everyone's last values.
    for i in 0..3 {
        let leader = w.settle("reading", rng, trace)?;
        let op = clients.calls.len() as u64 + 1;
        clients.send(w, leader, op, format!("c{i}"), -7, 0, rng, trace)?;
        w.settle("after reading", rng, trace)?;
        clients.collect(w, trace)?;
        if clients.calls[&op].answered.is_some() {
            w.o.add("reads", 1);
        }
    }
    w.audit()?;
    // Nothing that was rejected was done nevertheless.
    let applied: BTreeSet<u64> = w.shared.borrow().ops.iter().filter(|(_, o)| o.index.is_some()).map(|(n, _)| *n).collect();
    for call in clients.calls.values() {
        ensure!(!(call.rejected && applied.contains(&call.op)), "rejected-but-done", "operation {} was rejected, but done", call.op);
        ensure!(
            call.answered.is_none() || applied.contains(&call.op),
            "answered-but-undone",
            "operation {} was answered, but not done",
            call.op
        );
    }
    for i in 0..3 {
        let name = format!("c{i}");
        let initial = config.initial_values.get(&name).copied().unwrap_or(0);
        clients.linearizable(&name, initial, &mut w.o)?;
    }
    Ok(())
}
