//! The real Tablet Store actor on several replicas, against a model of the tables.

extern crate tcp_tablet_store_service;

use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet, HashSet},
    rc::Rc,
};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorError, ActorEvent, ActorEventContext};
use tcp_tablet_store_service::{
    actor::{RandomTabletConfigurator, TabletConfigurator, TabletStoreActor},
    apps::tablet_store::service::{
        tablet_op::Op, tablet_op_result::OpResult, tablet_store_in_message::InMsg,
        tablet_store_out_message::OutMsg, *,
    },
};
use vcommon::{ensure, hash_str, mix, Check, Observed, Rng, Trace, Violation};

struct Context {
    logger: Logger,
    config: Bytes,
    leader: Rc<Cell<bool>>,
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

/// Hands out the given tablets, or the real ones when there are none.
#[derive(Clone)]
struct Configurator(Vec<Vec<u32>>, usize);

impl TabletConfigurator for Configurator {
    fn generate(&mut self, count: u32) -> Vec<u32> {
        if self.0.is_empty() {
            return RandomTabletConfigurator {}.generate(count);
        }
        self.1 += 1;
        self.0[self.1 - 1].clone()
    }
}

struct Replica {
    actor: TabletStoreActor<Configurator>,
    leader: Rc<Cell<bool>>,
}

type Tables = BTreeMap<String, BTreeMap<u32, TabletMetadata>>;

struct World<'a> {
    property: &'static str,
    obs: Observed,
    trace: &'a mut Trace,
    rng: Rng,
    config: TabletStoreConfig,
    configurator: Configurator,
    model: Tables,
    replicas: Vec<Replica>,
    next_id: u64,
    index: u64,
}

fn replica(config: &TabletStoreConfig, configurator: &Configurator) -> Replica {
    let leader = Rc::new(Cell::new(true));
    let mut actor = TabletStoreActor::new(configurator.clone());
    let context = Context {
        logger: Logger::root(Discard, o!()),
        config: config.encode_to_vec().into(),
        leader: leader.clone(),
    };
    actor.on_init(Box::new(context)).expect("init");
    Replica { actor, leader }
}

fn edge(rng: &mut Rng, ids: &[u32]) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 | 3 | 4 | 5 if !ids.is_empty() => {
            rng.pick(ids).wrapping_add(rng.below(3) as u32).wrapping_sub(1)
        }
        _ => rng.u32(),
    }
}

fn owner(ids: &BTreeSet<u32>, hash: u32) -> Option<u32> {
    ids.range(hash..).next().or_else(|| ids.iter().next()).copied()
}

/// Owners of the hashes from..to on the ring, with `to` itself or not. All of them for from == to.
fn owners(ids: &BTreeSet<u32>, from: u32, to: u32, inclusive: bool) -> BTreeSet<u32> {
    if from == to {
        return ids.clone();
    }
    let last = if inclusive { to } else { to.wrapping_sub(1) };
    let mut found = BTreeSet::new();
    found.extend(owner(ids, from));
    found.extend(owner(ids, last));
    // A tablet between the ends owns at least its own id.
    let span = last.wrapping_sub(from);
    found.extend(ids.iter().filter(|id| id.wrapping_sub(from) <= span));
    found
}

fn run(property: &'static str, rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut config = TabletStoreConfig::default();
    let mut layouts = Vec::new();
    let mut model = Tables::new();
    let real = property == "C14" && rng.pct(30);
    for i in 0..1 + rng.usize(3) {
        let count = if rng.pct(5) { 0 } else { rng.usize(8) };
        let mut ids = BTreeSet::new();
        let mut known = Vec::new();
        for _ in 0..count {
            let id = edge(rng, &known);
            ids.insert(id);
            known.push(id);
        }
        let name = if i == 0 && rng.pct(10) { String::new() } else { format!("t{i}") };
        config.table_configs.push(TableConfig {
            table_name: name.clone(),
            max_tablet_size: 1024,
            min_tablet_size: 512,
            initial_tablet_count: if real { count as u32 } else { ids.len() as u32 },
        });
        if !real {
            let tablets = ids
                .iter()
                .map(|id| (*id, TabletMetadata { tablet_id: *id, ..Default::default() }))
                .collect();
            model.insert(name, tablets);
            layouts.push(ids.into_iter().collect());
        }
    }
    let configurator = Configurator(layouts, 0);
    let replicas: Vec<Replica> = (0..1 + rng.usize(3)).map(|_| replica(&config, &configurator)).collect();
    let mut w = World {
        property,
        obs: Observed::default(),
        trace,
        rng: rng.fork(),
        config,
        configurator,
        model,
        replicas,
        next_id: 0,
        index: 0,
    };
    if real {
        // The first replica says which tablets there are, the others have to agree.
        for table in w.config.table_configs.clone() {
            let tablets = w.dump(0, &table.table_name)?;
            w.judge(
                tablets.len() == table.initial_tablet_count as usize,
                &["C14"],
                "initial_count",
                || format!("{} tablets instead of {}", tablets.len(), table.initial_tablet_count),
            )?;
            w.model.insert(table.table_name, tablets.into_iter().map(|t| (t.tablet_id, t)).collect());
        }
        w.agree()?;
        w.obs.add("real_configurations", 1);
    }
    if w.rng.pct(30) {
        w.age()?;
    }
    let names: Vec<String> = w.model.keys().cloned().collect();
    w.trace.log(format!(
        "{} replicas, tables {:?}",
        w.replicas.len(),
        w.model.iter().map(|(n, t)| (n, t.keys().collect::<Vec<_>>())).collect::<Vec<_>>()
    ));
    for _ in 0..w.rng.range(5, 60) {
        match w.rng.below(20) {
            0 => w.malformed()?,
            1 => w.snapshot()?,
            2 if w.rng.pct(30) => w.bad_snapshot()?,
            _ => w.request(&names)?,
        }
    }
    w.agree()?;
    w.obs.nontrivial = w.obs.get("requests_succeeded") > 1 && w.obs.get("requests_failed") > 0;
    w.obs.sample = w.trace.tail(2);
    Ok(w.obs)
}

impl World<'_> {
    fn judge(
        &self,
        ok: bool,
        properties: &[&str],
        sig: &str,
        message: impl FnOnce() -> String,
    ) -> Result<(), Violation> {
        if !ok && properties.contains(&self.property) {
            return Err(Violation { signature: sig.to_string(), message: message() });
        }
        Ok(())
    }

    fn metadata(&mut self, id: u32, version: u32) -> TabletMetadata {
        let blob_hash = self.rng.bytes(4);
        TabletMetadata {
            tablet_id: id,
            tablet_version: version,
            deleted: self.rng.pct(5),
            blob_encryption_key: self.rng.bytes(2).into(),
            blob_size: self.rng.u32(),
            blob_uri: format!("{id}/{version}/{}", self.rng.u32()),
            blob_hash: blob_hash.into(),
        }
    }

    fn random_op(&mut self, names: &[String]) -> TabletOp {
        let table = if self.rng.pct(3) { "unknown".to_string() } else { self.rng.pick(names).clone() };
        let tablets = self.model.get(&table).cloned().unwrap_or_default();
        let ids: Vec<u32> = tablets.keys().copied().collect();
        let id = if !ids.is_empty() && self.rng.pct(90) { *self.rng.pick(&ids) } else { edge(&mut self.rng, &ids) };
        let current = tablets.get(&id).map_or(0, |t| t.tablet_version);
        let lists = if self.property == "C13" { 70 } else { 25 };
        let op = match self.rng.below(100) {
            n if n < lists => {
                let from = edge(&mut self.rng, &ids);
                let to = if self.rng.pct(5) { from } else { edge(&mut self.rng, &ids) };
                Some(Op::ListTablet(ListTabletOp { key_hash_from: from, key_hash_to: to }))
            }
            n if n >= 98 => None,
            96 => Some(Op::AddTablet(AddTabletOp { tablet_metadata: Some(self.metadata(id, 1)) })),
            97 => Some(Op::RemoveTablet(RemoveTabletOp { tablet_id: id, tablet_version: current })),
            n if n < lists + (96 - lists) / 3 => {
                let version = self.version(current);
                Some(Op::CheckTablet(CheckTabletOp { tablet_id: id, tablet_version: version }))
            }
            _ => {
                let version = self.version(current.wrapping_add(1));
                let metadata = self.metadata(id, version);
                Some(Op::UpdateTablet(UpdateTabletOp {
                    tablet_metadata: (!self.rng.pct(2)).then_some(metadata),
                }))
            }
        };
        TabletOp { table_name: table, op }
    }

    fn version(&mut self, good: u32) -> u32 {
        match self.rng.below(100) {
            n if n < 85 => good,
            n if n < 90 => good.wrapping_sub(1),
            n if n < 95 => good.wrapping_add(1),
            n if n < 97 => u32::MAX,
            n if n < 98 => 0,
            _ => self.rng.u32(),
        }
    }

    fn request(&mut self, names: &[String]) -> Result<(), Violation> {
        let mut count = if self.rng.pct(3) { 0 } else { 1 + self.rng.usize(4) };
        let mut tablet_ops = Vec::new();
        while tablet_ops.len() < count {
            let op = self.random_op(names);
            if self.rng.pct(3) {
                // The same once more.
                tablet_ops.push(op.clone());
                count += 1;
            }
            tablet_ops.push(op);
        }
        let request = TabletsRequest { tablet_ops };
        self.next_id += 1;
        let id = if self.rng.pct(20) { self.rng.next() } else { self.next_id };
        let leader = self.rng.usize(self.replicas.len());
        let node = self.rng.usize(self.replicas.len());
        for (i, r) in self.replicas.iter().enumerate() {
            r.leader.set(i == leader);
        }
        let command = ActorCommand::with_header_and_payload(id, &execute_header(), request.encode_to_vec().into());
        self.trace.log(format!("request {id} to replica {node} (leader {leader}): {:?}", request.tablet_ops));
        if node != leader {
            return self.refused(node, Some(command), ExecuteTabletOpsStatus::Rejected, id, "not_leader");
        }
        let outcome = self.replicas[node].actor.on_process_command(Some(command));
        let Ok(outcome) = outcome else {
            return self.judge(false, &["C12", "C13", "C14"], "actor_error", || "a request fails the actor".into());
        };
        self.judge(outcome.commands.is_empty(), &["C12"], "early_answer", || {
            format!("request {id} is answered before it has been replicated")
        })?;
        let Some(event) = outcome.event else {
            return self.judge(false, &["C12", "C13", "C14"], "refused", || format!("request {id} was refused"));
        };
        self.judge(event.correlation_id == id, &["C12"], "event_id", || {
            format!("event of request {id} has id {}", event.correlation_id)
        })?;
        self.apply(node, id, request, event)
    }

    fn refused(
        &mut self,
        node: usize,
        command: Option<ActorCommand>,
        status: ExecuteTabletOpsStatus,
        id: u64,
        sig: &str,
    ) -> Result<(), Violation> {
        let outcome = self.replicas[node].actor.on_process_command(command);
        let ok = match &outcome {
            Ok(o) if o.event.is_none() && o.commands.len() == 1 => {
                let c = &o.commands[0];
                let header = TabletStoreOutMessage::decode(c.header.clone()).ok().and_then(|m| m.out_msg);
                c.correlation_id == id
                    && matches!(&header, Some(OutMsg::ExecuteTabletOpsError(e)) if e.status == status as i32)
            }
            _ => false,
        };
        self.obs.add("refused", 1);
        self.judge(ok, &["C12"], sig, || {
            format!("request {id} to replica {node} should only be answered with error {status:?}: {outcome:?}")
        })
    }

    fn malformed(&mut self) -> Result<(), Violation> {
        let node = self.rng.usize(self.replicas.len());
        self.replicas[node].leader.set(true);
        let id = self.rng.next();
        let mut good = TabletsRequest { tablet_ops: vec![] };
        good.tablet_ops.push(TabletOp { table_name: "t0".into(), op: None });
        let payload = good.encode_to_vec();
        let garbage = Bytes::from(vec![0xff; 1 + self.rng.usize(12)]);
        let command = match self.rng.below(4) {
            0 => {
                let outcome = self.replicas[node].actor.on_process_command(None);
                let ok = matches!(&outcome, Ok(o) if o.event.is_none() && o.commands.is_empty());
                return self.judge(ok, &["C12"], "tick", || "a tick has an outcome".into());
            }
            1 => ActorCommand { correlation_id: id, header: garbage, payload: payload.into() },
            2 => ActorCommand { correlation_id: id, header: Bytes::new(), payload: payload.into() },
            _ => ActorCommand::with_header_and_payload(id, &execute_header(), garbage),
        };
        self.obs.add("malformed", 1);
        self.refused(node, Some(command), ExecuteTabletOpsStatus::InvalidOperation, id, "malformed")?;
        let bad = ActorEvent { correlation_id: id, contents: Bytes::from_static(&[0xff, 0xff]) };
        let context = ActorEventContext { index: self.index + 1, owned: true };
        let accepted = self.replicas[node].actor.on_apply_event(context, bad).is_ok();
        self.judge(!accepted, &["C12"], "malformed_event", || "an event that doesn't parse is applied".into())
    }

    fn apply(&mut self, node: usize, id: u64, request: TabletsRequest, event: ActorEvent) -> Result<(), Violation> {
        self.index += 1;
        let mut answer = None;
        for i in 0..self.replicas.len() {
            let context = ActorEventContext { index: self.index, owned: i == node };
            let outcome = match self.replicas[i].actor.on_apply_event(context, event.clone()) {
                Ok(outcome) => outcome,
                Err(e) => {
                    return self.judge(false, &["C12", "C13", "C14"], "apply_error", || {
                        format!("replica {i} fails to apply request {id}: {e:?}")
                    })
                }
            };
            if i != node {
                self.judge(outcome.commands.is_empty(), &["C12"], "foreign_answer", || {
                    format!("replica {i} answers request {id} that replica {node} received")
                })?;
                continue;
            }
            self.judge(
                outcome.commands.len() == 1 && outcome.commands[0].correlation_id == id,
                &["C12"],
                "no_answer",
                || format!("{} answers to request {id}, {:?}", outcome.commands.len(), outcome.commands),
            )?;
            let Some(command) = outcome.commands.into_iter().next() else { continue };
            let header = TabletStoreOutMessage::decode(command.header).ok().and_then(|m| m.out_msg);
            let response = TabletsResponse::decode(command.payload).ok();
            match (header, response) {
                (Some(OutMsg::ExecuteTabletOpsResponse(_)), Some(response)) => answer = Some(response),
                _ => self.judge(false, &["C12"], "bad_answer", || "the answer doesn't parse".into())?,
            }
        }
        let Some(response) = answer else { return Ok(()) };
        self.judge_response(&request, &response)?;
        if self.rng.pct(20) {
            self.agree()?;
        }
        Ok(())
    }

    fn judge_response(&mut self, request: &TabletsRequest, response: &TabletsResponse) -> Result<(), Violation> {
        let ops = &request.tablet_ops;
        let results = &response.tablet_results;
        self.judge(results.len() == ops.len(), &["C12"], "result_count", || {
            format!("{} results of {} ops", results.len(), ops.len())
        })?;
        let mut all = true;
        let mut updated = HashSet::new();
        for (op, result) in ops.iter().zip(results) {
            self.judge(result.table_name == op.table_name, &["C12"], "result_table", || {
                format!("op on table {} has result of table {}", op.table_name, result.table_name)
            })?;
            let succeeded = result.status == TabletOpStatus::Succeeded as i32;
            let table = self.model.get(&op.table_name);
            let expected = match (table, &op.op) {
                (None, _) | (_, None | Some(Op::AddTablet(_)) | Some(Op::RemoveTablet(_))) => {
                    self.obs.add("invalid_ops", 1);
                    false
                }
                (Some(table), Some(Op::ListTablet(list))) => {
                    self.obs.add("lists", 1);
                    let Some(OpResult::ListTablet(listed)) = &result.op_result else {
                        return self.judge(false, &["C12", "C13"], "list_result", || format!("list without result: {result:?}"));
                    };
                    self.judge(
                        listed.key_hash_from == list.key_hash_from && listed.key_hash_to == list.key_hash_to,
                        &["C13"],
                        "list_range",
                        || "listed range differs from the requested one".into(),
                    )?;
                    let ids: BTreeSet<u32> = table.keys().copied().collect();
                    let must = owners(&ids, list.key_hash_from, list.key_hash_to, false);
                    let may = owners(&ids, list.key_hash_from, list.key_hash_to, true);
                    let got: BTreeSet<u32> = listed.tablets.iter().map(|t| t.tablet_id).collect();
                    let range = (list.key_hash_from, list.key_hash_to);
                    if range.0 >= range.1 {
                        self.obs.add("wrapped_lists", 1);
                    }
                    self.judge(got.len() == listed.tablets.len(), &["C13"], "listed_twice", || {
                        format!("tablets of {range:?} listed twice: {:?}", listed.tablets)
                    })?;
                    self.judge(got.is_superset(&must), &["C13"], "list_missing", || {
                        format!("range {range:?} of tablets {ids:?} lists {got:?}, must list {must:?}")
                    })?;
                    self.judge(got.is_subset(&may), &["C13"], "list_extra", || {
                        format!("range {range:?} of tablets {ids:?} lists {got:?}, may only list {may:?}")
                    })?;
                    for t in &listed.tablets {
                        self.judge(table.get(&t.tablet_id) == Some(t), &["C12", "C13"], "list_stale", || {
                            format!("listed {t:?}, current is {:?}", table.get(&t.tablet_id))
                        })?;
                    }
                    true
                }
                (Some(table), Some(Op::CheckTablet(check))) => {
                    let existing = table.get(&check.tablet_id);
                    let ok = existing.is_some_and(|t| t.tablet_version == check.tablet_version);
                    if !ok && existing.is_some() {
                        let told = match &result.op_result {
                            Some(OpResult::CheckTablet(r)) => r.existing_tablet.as_ref(),
                            _ => None,
                        };
                        self.judge(told == existing, &["C12"], "conflict_info", || {
                            format!("failed check tells {told:?}, current is {existing:?}")
                        })?;
                    }
                    ok
                }
                (Some(table), Some(Op::UpdateTablet(update))) => {
                    let metadata = update.tablet_metadata.as_ref();
                    let existing = metadata.and_then(|m| table.get(&m.tablet_id));
                    let mut ok = metadata.zip(existing).is_some_and(|(m, t)| {
                        t.tablet_version.checked_add(1) == Some(m.tablet_version)
                    });
                    if !updated.insert((op.table_name.clone(), metadata.map(|m| m.tablet_id))) {
                        self.obs.add("repeated_updates", 1);
                        ok = false;
                    }
                    if !ok && existing.is_some() {
                        let told = match &result.op_result {
                            Some(OpResult::UpdateTablet(r)) => r.existing_tablet.as_ref(),
                            _ => None,
                        };
                        self.judge(told == existing, &["C12"], "conflict_info", || {
                            format!("failed update tells {told:?}, current is {existing:?}")
                        })?;
                    }
                    ok
                }
            };
            self.judge(succeeded == expected, &["C12"], "op_status", || {
                format!("{op:?} should {} but has status {}", if expected { "succeed" } else { "fail" }, result.status)
            })?;
            all &= expected;
        }
        let succeeded = response.status == TabletsRequestStatus::Succeeded as i32;
        self.judge(succeeded == all, &["C12"], "request_status", || {
            format!("request status {} although {} of its ops succeed", response.status, if all { "all" } else { "not all" })
        })?;
        self.obs.add(if all { "requests_succeeded" } else { "requests_failed" }, 1);
        if all {
            for op in ops {
                if let Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(m) })) = &op.op {
                    self.model.get_mut(&op.table_name).unwrap().insert(m.tablet_id, m.clone());
                    self.obs.add("updates", 1);
                }
            }
        }
        self.obs.fingerprint = mix(self.obs.fingerprint, hash_str(&format!("{response:?}")));
        Ok(())
    }

    /// What replica i holds, asked through its interface.
    fn dump(&mut self, i: usize, table: &str) -> Result<Vec<TabletMetadata>, Violation> {
        let request = TabletsRequest {
            tablet_ops: vec![TabletOp {
                table_name: table.to_string(),
                op: Some(Op::ListTablet(ListTabletOp { key_hash_from: 1, key_hash_to: 0 })),
            }],
        };
        let context = ActorEventContext { index: self.index, owned: true };
        let event = ActorEvent { correlation_id: 0, contents: request.encode_to_vec().into() };
        let answer = self.replicas[i].actor.on_apply_event(context, event);
        let payload = answer.ok().and_then(|o| o.commands.into_iter().next()).map(|c| c.payload);
        let response = payload.and_then(|p| TabletsResponse::decode(p).ok()).unwrap_or_default();
        match response.tablet_results.into_iter().next().and_then(|r| r.op_result) {
            Some(OpResult::ListTablet(mut r)) => {
                r.tablets.sort_by_key(|t| t.tablet_id);
                Ok(r.tablets)
            }
            _ => {
                self.judge(false, &["C12", "C13", "C14"], "unreadable", || format!("table {table} of replica {i} can't be listed"))?;
                Ok(vec![])
            }
        }
    }

    /// All replicas hold what the model says.
    fn agree(&mut self) -> Result<(), Violation> {
        for i in 0..self.replicas.len() {
            for (name, tablets) in self.model.clone() {
                let held = self.dump(i, &name)?;
                let expected: Vec<TabletMetadata> = tablets.values().cloned().collect();
                self.obs.add("states_compared", 1);
                self.judge(held == expected, &["C12", "C14"], "state", || {
                    format!("table {name} of replica {i} holds {held:?}, should be {expected:?}")
                })?;
            }
        }
        Ok(())
    }

    fn snapshot(&mut self) -> Result<(), Violation> {
        let from = self.rng.usize(self.replicas.len());
        let Ok(snapshot) = self.replicas[from].actor.on_save_snapshot() else {
            return self.judge(false, &["C14"], "save_error", || "saving a snapshot fails".into());
        };
        let to = self.rng.usize(self.replicas.len());
        self.trace.log(format!("replica {to} loads the snapshot of replica {from}"));
        match self.rng.below(3) {
            // Into a new one, into the same one, into one with other contents.
            0 => self.replicas[to] = replica(&self.config, &self.configurator),
            1 => {}
            _ => {
                self.replicas[to] = replica(&self.config, &self.configurator);
                for (name, tablets) in self.model.clone() {
                    let tablet_ops = tablets
                        .keys()
                        .map(|id| TabletOp {
                            table_name: name.clone(),
                            op: Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(self.metadata(*id, 1)) })),
                        })
                        .collect();
                    let contents = TabletsRequest { tablet_ops }.encode_to_vec().into();
                    let context = ActorEventContext { index: 1, owned: false };
                    let event = ActorEvent { correlation_id: 0, contents };
                    if self.replicas[to].actor.on_apply_event(context, event).is_err() {
                        return self.judge(false, &["C14"], "apply_error", || "an update can't be applied".into());
                    }
                }
            }
        }
        let loaded = self.replicas[to].actor.on_load_snapshot(snapshot);
        self.judge(loaded.is_ok(), &["C14"], "load_error", || format!("loading a snapshot fails: {loaded:?}"))?;
        self.obs.add("snapshots", 1);
        self.agree()
    }

    /// Starts with tablets that have already seen many updates.
    fn age(&mut self) -> Result<(), Violation> {
        let mut snapshot = TabletStoreSnapshot::default();
        for (name, tablets) in self.model.clone() {
            for id in tablets.keys() {
                let version = if self.rng.pct(30) { u32::MAX - self.rng.below(2) as u32 } else { self.rng.u32() };
                let aged = self.metadata(*id, version);
                self.model.get_mut(&name).unwrap().insert(*id, aged);
            }
            let table_tablets = self.model[&name].values().cloned().collect();
            snapshot.table_snapshots.push(TableSnapshot { table_name: name, table_tablets });
        }
        for i in 0..self.replicas.len() {
            let loaded = self.replicas[i].actor.on_load_snapshot(snapshot.encode_to_vec().into());
            self.judge(loaded.is_ok(), &["C14"], "load_error", || format!("loading a snapshot fails: {loaded:?}"))?;
        }
        self.agree()
    }

    fn bad_snapshot(&mut self) -> Result<(), Violation> {
        let unknown = TabletStoreSnapshot {
            table_snapshots: vec![TableSnapshot { table_name: "unknown".into(), table_tablets: vec![] }],
        };
        let bytes = if self.rng.pct(50) { unknown.encode_to_vec() } else { vec![0xff; 3] };
        let mut r = replica(&self.config, &self.configurator);
        let loaded = r.actor.on_load_snapshot(bytes.into());
        self.obs.add("bad_snapshots", 1);
        self.judge(loaded == Err(ActorError::SnapshotLoading), &["C14"], "bad_snapshot", || {
            format!("a broken snapshot loads with {loaded:?}")
        })
    }
}

fn execute_header() -> TabletStoreInMessage {
    TabletStoreInMessage { in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: 1 })) }
}

const RULE: &str = "A case is one random sequence of requests (lists, checks, updates, unsupported and \
    malformed ones, repeated tablets, versions up to the largest) to 1-3 Tablet Store replicas over 1-3 \
    tables with tablets on the edges of the ring, with snapshots moved between replicas. Non-trivial: \
    requests succeed and fail. Distinct by all responses.";

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    let check = |property, must_observe| Check {
        property,
        quick_cases: 60_000,
        thorough_cases: 3_000_000,
        rule: RULE,
        assumptions: &["replicas apply the same events in the same order (checked apart for the runtime)"],
        must_observe,
    };
    match property.as_str() {
        "C12" => vcommon::run(
            check("C12", &["requests_succeeded", "requests_failed", "updates", "repeated_updates", "invalid_ops", "refused", "malformed"]),
            |rng, trace| run("C12", rng, trace),
        ),
        "C13" => vcommon::run(check("C13", &["lists", "wrapped_lists"]), |rng, trace| run("C13", rng, trace)),
        "C14" => vcommon::run(
            check("C14", &["snapshots", "bad_snapshots", "states_compared", "real_configurations", "updates"]),
            |rng, trace| run("C14", rng, trace),
        ),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3)
        }
    }
}
