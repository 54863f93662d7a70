//! Several tablet cache nodes sharing one Tablet Store and one untrusted blob storage, with
//! messages delayed, reordered, duplicated, failed and tampered with, and transactions whose
//! every observable step is recorded and judged.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    rc::Rc,
};

use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use slog::{o, Discard, Logger};
use tcp_tablet_cache_service::{
    apps::tablet_cache::service::*,
    transaction::{
        coordinator::DefaultTabletTransactionCoordinator,
        data::{BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy},
        manager::DefaultTabletTransactionManager,
        metadata::DefaultTabletMetadataCache,
        InMessage, OutMessage, TableQuery, TabletTransaction, TabletTransactionCommit,
        TabletTransactionContext, TabletTransactionManager, TabletTransactionOutcome,
    },
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, TabletOp, TabletOpStatus, TabletsRequest, TabletsRequestStatus, TabletsResponse,
};
use vcommon::{violation, Observed, Rng, Trace, Violation};

use crate::model::{owner, Blobs, Store};

/// How hostile the surroundings are, in percent unless said otherwise.
#[derive(Clone, Copy, Default)]
pub struct Faults {
    pub load_fail: u64,
    pub store_fail: u64,
    pub exec_reject: u64,
    /// Error reply although the request may have been executed.
    pub exec_ambiguous: u64,
    pub exec_invalid: u64,
    pub duplicate: u64,
    pub unknown: u64,
    pub tamper: u64,
    /// Largest delay of a message, in steps.
    pub delay: u64,
}

pub fn region_size(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => u32::MAX / 8,
        1 => 1 << 29,
        2 => u32::MAX,
        3 => 1 << 31,
        4 => (1 << 31) - 1,
        _ => rng.range(u32::MAX as u64 / 40, u32::MAX as u64) as u32,
    }
}

/// Tablet ids which like to sit on the edges: of the ring and of the regions.
pub fn tablet_ids(rng: &mut Rng, region: u32, max: usize) -> Vec<u32> {
    let mut ids = BTreeSet::new();
    let count = 1 + rng.usize(max);
    while ids.len() < count {
        ids.insert(edge_hash(rng, region, &[]));
    }
    ids.into_iter().collect()
}

pub fn edge_hash(rng: &mut Rng, region: u32, ids: &[u32]) -> u32 {
    match rng.below(10) {
        0 => 0,
        1 => u32::MAX,
        2 | 3 => {
            let regions = u32::MAX / region;
            let idx = rng.range(0, regions as u64) as u32;
            let bound = (idx as u64 * region as u64).min(u32::MAX as u64) as u32;
            bound.wrapping_add(rng.below(3) as u32).wrapping_sub(1)
        }
        4..=6 if !ids.is_empty() => {
            rng.pick(ids).wrapping_add(rng.below(3) as u32).wrapping_sub(1)
        }
        _ => rng.u32(),
    }
}

pub fn manager(tables: &[(String, u32)]) -> DefaultTabletTransactionManager<Bytes> {
    let mut manager = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(
            2 << 56,
            Box::new(BytesTabletDataSerializer {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        )),
    );
    manager.init(Logger::root(Discard, o!()), manager_config(tables));
    manager
}

pub fn manager_config(tables: &[(String, u32)]) -> TransactionManagerConfig {
    TransactionManagerConfig {
        data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
        metadata_cache_config: Some(TabletMetadataCacheConfig {
            table_configs: tables
                .iter()
                .map(|(name, size)| TableMetadataCacheConfig {
                    table_name: name.clone(),
                    table_region_size: *size,
                })
                .collect(),
        }),
    }
}

#[derive(Clone)]
pub struct Touch {
    pub table: String,
    pub tablet: u32,
    pub observed: Bytes,
    pub written: Option<Bytes>,
}

#[derive(Default)]
struct ProcessLog {
    queries: Vec<TableQuery>,
    calls: u32,
    seen_txn_id: u64,
    seen: Vec<(TableQuery, u32)>,
    touches: Vec<Touch>,
}

enum TxnState {
    Preparing(Box<dyn TabletTransaction<Bytes>>),
    Committing(Box<dyn TabletTransactionCommit>),
    Done,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Reply {
    /// The store's own response: its verdict.
    Verdict(bool),
    /// An error, the request may or may not have been executed.
    Error,
}

struct Txn {
    node: usize,
    id: u64,
    state: TxnState,
    processes: Vec<Rc<RefCell<ProcessLog>>>,
    more: u64,
    abort: bool,
    request_sent: bool,
    applied: bool,
    reply: Option<Reply>,
    outcome: Option<TabletTransactionOutcome>,
    checked_after: u64,
    probe: bool,
}

enum Event {
    Load(u64, LoadTabletRequest),
    Store(u64, StoreTabletRequest, Bytes),
    Exec(u64, TabletsRequest, Option<usize>),
    Deliver(InMessage, Option<(usize, Reply)>, Option<String>),
}

struct Node {
    manager: DefaultTabletTransactionManager<Bytes>,
    /// Blobs whose storing (or presence) the storage has confirmed to this node.
    confirmed: HashSet<String>,
    /// Loads that are under way, by uri.
    loading: HashMap<String, u64>,
}

struct Resolve {
    node: usize,
    queries: Vec<TableQuery>,
    results: Rc<RefCell<Vec<Vec<(TableQuery, u32)>>>>,
    judged: bool,
}

pub struct World<'a> {
    /// Only violations of this property are reported.
    property: &'static str,
    pub obs: Observed,
    trace: &'a mut Trace,
    rng: Rng,
    now: u64,
    faults: Faults,
    store: Store,
    regions: HashMap<String, u32>,
    truth: HashMap<(String, u32), Bytes>,
    history: HashMap<(String, u32), HashSet<Bytes>>,
    /// Contents of every version of every tablet.
    versions: HashMap<(String, u32), Vec<Bytes>>,
    blobs: Blobs,
    nodes: Vec<Node>,
    net: Vec<(u64, usize, Event)>,
    txns: Vec<Txn>,
    resolves: Vec<Resolve>,
    query_counter: u64,
    value_counter: Rc<RefCell<u64>>,
}

pub struct Plan {
    pub faults: Faults,
    pub steps: u64,
    pub nodes: usize,
    pub tables: usize,
    pub tablets: usize,
    pub txn_pct: u64,
    pub resolve_pct: u64,
    /// Share of processes that write.
    pub write_pct: u64,
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(6).map(|b| format!("{b:02x}")).collect();
    if b.len() > 6 {
        s.push_str("..");
    }
    s
}

pub fn run(
    property: &'static str,
    plan: Plan,
    rng: &mut Rng,
    trace: &mut Trace,
) -> Result<Observed, Violation> {
    let mut tables = Vec::new();
    let mut shared_ids: Vec<u32> = Vec::new();
    let mut regions = HashMap::new();
    for i in 0..plan.tables {
        let name = format!("table{i}");
        let region = region_size(rng);
        let mut ids = tablet_ids(rng, region, plan.tablets);
        // Tablet ids are only unique within their table.
        if !shared_ids.is_empty() && rng.pct(40) {
            ids.push(*rng.pick(&shared_ids));
            ids.sort();
            ids.dedup();
        }
        shared_ids.extend(&ids);
        trace.log(format!("{name}: region size {region}, tablets {ids:?}"));
        regions.insert(name.clone(), region);
        tables.push((name, ids));
    }
    let config: Vec<(String, u32)> = tables.iter().map(|(n, _)| (n.clone(), regions[n])).collect();
    let store = Store::create(&tables);
    let mut truth = HashMap::new();
    let mut history: HashMap<(String, u32), HashSet<Bytes>> = HashMap::new();
    for (name, ids) in &tables {
        for id in ids {
            truth.insert((name.clone(), *id), Bytes::new());
            history.entry((name.clone(), *id)).or_default().insert(Bytes::new());
        }
    }
    let truth_versions = truth.iter().map(|(k, v): (&(String, u32), &Bytes)| (k.clone(), vec![v.clone()])).collect();
    let mut world = World {
        property,
        obs: Observed::default(),
        trace,
        rng: rng.fork(),
        now: 0,
        faults: plan.faults,
        store,
        regions,
        truth,
        versions: truth_versions,
        history,
        blobs: Blobs::default(),
        nodes: (0..plan.nodes)
            .map(|_| Node {
                manager: manager(&config),
                confirmed: HashSet::new(),
                loading: HashMap::new(),
            })
            .collect(),
        net: Vec::new(),
        txns: Vec::new(),
        resolves: Vec::new(),
        query_counter: 0,
        value_counter: Rc::new(RefCell::new(0)),
    };
    for _ in 0..plan.steps {
        world.step(Some(&plan))?;
    }
    // From here on the surroundings behave.
    world.faults = Faults { delay: 2, ..Default::default() };
    let mut calm = 0;
    while world.active() {
        world.step(None)?;
        calm += 1;
        if calm > 300 {
            let stuck = world.stuck();
            world.flag("stuck", format!("unfinished after {calm} calm steps: {stuck}"), true)?;
            break;
        }
    }
    if calm <= 300 {
        world.probe()?;
    }
    world.finish()
}

impl World<'_> {
    /// Reports a violation of this property, ignores what belongs to another one.
    fn judge(&mut self, properties: &[&str], sig: &str, message: String) -> Result<(), Violation> {
        if properties.contains(&self.property) {
            return violation(sig, format!("step {}: {message}", self.now));
        }
        self.trace.log(format!("(other property) {sig}: {message}"));
        Ok(())
    }

    fn flag(&mut self, sig: &str, message: String, all: bool) -> Result<(), Violation> {
        if all {
            return violation(sig, format!("step {}: {message}", self.now));
        }
        Ok(())
    }

    fn active(&self) -> bool {
        self.txns.iter().any(|t| !matches!(t.state, TxnState::Done))
            || self.resolves.iter().any(|r| !r.judged)
            || !self.net.is_empty()
    }

    fn stuck(&self) -> String {
        let mut parts: Vec<String> = Vec::new();
        for t in &self.txns {
            match &t.state {
                TxnState::Preparing(x) => parts.push(format!(
                    "transaction {} of node {} has pending process: {}, handler calls {:?}",
                    t.id,
                    t.node,
                    x.has_pending_process(),
                    t.processes.iter().map(|p| p.borrow().calls).collect::<Vec<_>>()
                )),
                TxnState::Committing(_) => parts.push(format!(
                    "transaction {} of node {} has no outcome, store replied {:?}",
                    t.id, t.node, t.reply
                )),
                TxnState::Done => {}
            }
        }
        let unresolved = self.resolves.iter().filter(|r| !r.judged).count();
        if unresolved > 0 {
            parts.push(format!("{unresolved} resolve requests unanswered"));
        }
        parts.join(", ")
    }

    fn delay(&mut self) -> u64 {
        self.now + 1 + self.rng.below(self.faults.delay + 1)
    }

    fn step(&mut self, plan: Option<&Plan>) -> Result<(), Violation> {
        self.now += 1;
        self.obs.add("steps", 1);
        for node in 0..self.nodes.len() {
            if let Some(plan) = plan {
                if self.rng.pct(plan.txn_pct) {
                    self.start_txn(node, plan);
                }
                if self.rng.pct(plan.resolve_pct) {
                    self.start_resolve(node)?;
                }
            }
            self.drive_txns(node, plan)?;
            self.nodes[node].manager.make_progress(self.now);
            self.pump(node, None)?;
            self.judge_processes(node)?;
            self.judge_resolves(node)?;
            if self.faults.unknown > 0 && self.rng.pct(self.faults.unknown) {
                self.deliver_unknown(node);
            }
        }
        // Deliver what is due in random order.
        let now = self.now;
        let mut due = Vec::new();
        let mut later = Vec::new();
        for e in std::mem::take(&mut self.net) {
            if e.0 <= now {
                due.push(e)
            } else {
                later.push(e)
            }
        }
        self.net = later;
        self.rng.shuffle(&mut due);
        for (_, node, event) in due {
            self.handle(node, event)?;
        }
        Ok(())
    }

    fn random_queries(&mut self, empty_ok: bool) -> Vec<TableQuery> {
        let names: Vec<String> = self.store.tables.keys().cloned().collect();
        let count = if empty_ok && self.rng.pct(3) { 0 } else { 1 + self.rng.usize(3) };
        let mut queries = Vec::new();
        for _ in 0..count {
            let name = self.rng.pick(&names).clone();
            let ids: Vec<u32> = self.store.tables[&name].keys().copied().collect();
            let region = self.regions[&name];
            let keys = if empty_ok && self.rng.pct(3) { 0 } else { 1 + self.rng.usize(4) };
            let keys: Vec<u32> =
                (0..keys).map(|_| edge_hash(&mut self.rng, region, &ids)).collect();
            self.query_counter += 1;
            queries.push(TableQuery::create(self.query_counter, name, keys));
        }
        queries
    }

    fn start_resolve(&mut self, node: usize) -> Result<(), Violation> {
        let queries = self.random_queries(true);
        let results = Rc::new(RefCell::new(Vec::new()));
        let sink = results.clone();
        self.trace.log(format!("{}: node {node} resolve {queries:?}", self.now));
        self.nodes[node].manager.resolve(
            queries.clone(),
            Box::new(move |resolved| {
                sink.borrow_mut()
                    .push(resolved.into_iter().map(|(q, d)| (q, d.get_id())).collect());
            }),
        );
        self.obs.add("resolves", 1);
        if !results.borrow().is_empty() {
            self.obs.add("resolves_answered_from_cache", 1);
        }
        self.resolves.push(Resolve { node, queries, results, judged: false });
        Ok(())
    }

    fn judge_resolves(&mut self, node: usize) -> Result<(), Violation> {
        for i in 0..self.resolves.len() {
            if self.resolves[i].node != node {
                continue;
            }
            let calls = self.resolves[i].results.borrow().len();
            if calls > 1 {
                self.judge(
                    &["C04"],
                    "resolve_twice",
                    format!("resolve handler was called {calls} times"),
                )?;
            }
            if calls >= 1 && !self.resolves[i].judged {
                self.resolves[i].judged = true;
                let seen = self.resolves[i].results.borrow()[0].clone();
                let queries = self.resolves[i].queries.clone();
                self.judge_mapping(&queries, &seen)?;
            }
        }
        Ok(())
    }

    /// Every requested key hash appears exactly once, with the tablet responsible for it.
    fn judge_mapping(
        &mut self,
        queries: &[TableQuery],
        seen: &[(TableQuery, u32)],
    ) -> Result<(), Violation> {
        let mut expected: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        for q in queries {
            expected.entry(q.get_table_name().clone()).or_default().extend(q.get_key_hashes());
        }
        let mut mapped: HashSet<(String, u32)> = HashSet::new();
        let mut tablets: HashSet<(String, u32)> = HashSet::new();
        for (q, tablet) in seen {
            let table = q.get_table_name().clone();
            if !tablets.insert((table.clone(), *tablet)) {
                return self.judge(
                    &["C04"],
                    "tablet_twice",
                    format!("tablet {tablet} of {table} was given twice for {queries:?}: {seen:?}"),
                );
            }
            if !queries.iter().any(|o| o.get_id() == q.get_id() && *o.get_table_name() == table) {
                return self.judge(
                    &["C04"],
                    "foreign_query",
                    format!("query id {} of {table} was not asked for", q.get_id()),
                );
            }
            for key in q.get_key_hashes() {
                let asked = expected.get(&table).map_or(false, |k| k.contains(key));
                if !asked || !mapped.insert((table.clone(), *key)) {
                    return self.judge(
                        &["C04"],
                        "key_repeated",
                        format!("key hash {key} of {table} is mapped twice or was not asked for"),
                    );
                }
                let right = owner(&self.store.tables[&table], *key);
                if right != *tablet {
                    return self.judge(
                        &["C04"],
                        "wrong_tablet",
                        format!("key hash {key} of {table} went to tablet {tablet}, not {right}"),
                    );
                }
                self.obs.add("keys_mapped", 1);
            }
        }
        for (table, keys) in expected {
            for key in keys {
                if !mapped.contains(&(table.clone(), key)) {
                    return self.judge(
                        &["C04"],
                        "key_lost",
                        format!("key hash {key} of {table} was not mapped, got {seen:?}"),
                    );
                }
            }
        }
        Ok(())
    }

    fn start_txn(&mut self, node: usize, plan: &Plan) {
        if self.txns.iter().filter(|t| t.node == node && !matches!(t.state, TxnState::Done)).count()
            > 4
        {
            return;
        }
        let transaction = self.nodes[node].manager.start_transaction();
        let id = transaction.get_id();
        let more = self.rng.below(3);
        let abort = self.rng.pct(8);
        self.trace.log(format!("{}: node {node} starts transaction {id}", self.now));
        self.txns.push(Txn {
            node,
            id,
            state: TxnState::Preparing(transaction),
            processes: Vec::new(),
            more,
            abort,
            request_sent: false,
            applied: false,
            reply: None,
            outcome: None,
            checked_after: 0,
            probe: false,
        });
        self.obs.add("transactions", 1);
        let i = self.txns.len() - 1;
        let queries = self.random_queries(true);
        self.process(i, queries, plan.write_pct);
    }

    fn process(&mut self, i: usize, queries: Vec<TableQuery>, write_pct: u64) {
        let log = Rc::new(RefCell::new(ProcessLog { queries: queries.clone(), ..Default::default() }));
        self.txns[i].processes.push(log.clone());
        let mut rng = self.rng.fork();
        let counter = self.value_counter.clone();
        let node = self.txns[i].node;
        self.trace.log(format!(
            "{}: node {node} transaction {} processes {queries:?}",
            self.now, self.txns[i].id
        ));
        let handler = Box::new(
            move |transaction_id: u64,
                  tablets: Vec<(
                TableQuery,
                &mut tcp_tablet_cache_service::transaction::Tablet<Bytes>,
            )>| {
                let mut log = log.borrow_mut();
                log.calls += 1;
                log.seen_txn_id = transaction_id;
                for (query, tablet) in tablets {
                    let observed = tablet.get_contents().clone();
                    let written = if rng.pct(write_pct) {
                        let value: Bytes = if rng.pct(12) {
                            // Now and then contents repeats, also across versions and tablets.
                            format!("same{}", rng.below(2)).into()
                        } else {
                            *counter.borrow_mut() += 1;
                            format!("v{}.n{node}.t{transaction_id}", counter.borrow()).into()
                        };
                        tablet.set_contents(value.clone());
                        Some(value)
                    } else {
                        None
                    };
                    log.seen.push((query.clone(), tablet.get_id()));
                    log.touches.push(Touch {
                        table: query.get_table_name().clone(),
                        tablet: tablet.get_id(),
                        observed,
                        written,
                    });
                }
            },
        );
        if let TxnState::Preparing(t) = &mut self.txns[i].state {
            t.process(queries, handler);
        }
    }

    /// Judges process handlers that have just been called.
    fn judge_processes(&mut self, node: usize) -> Result<(), Violation> {
        for i in 0..self.txns.len() {
            if self.txns[i].node != node || !matches!(self.txns[i].state, TxnState::Preparing(_)) {
                continue;
            }
            for p in self.txns[i].processes.clone() {
                let (calls, seen_id) = (p.borrow().calls, p.borrow().seen_txn_id);
                if calls > 1 {
                    self.judge(
                        &["C02", "C08"],
                        "handler_twice",
                        format!("process handler of transaction {} ran {calls} times", self.txns[i].id),
                    )?;
                }
                if calls == 0 || p.borrow().queries.is_empty() {
                    continue;
                }
                if seen_id != self.txns[i].id {
                    let id = self.txns[i].id;
                    self.judge(
                        &["C02"],
                        "handler_wrong_transaction",
                        format!("handler of transaction {id} was called for {seen_id}"),
                    )?;
                }
                let (queries, seen, touches) = {
                    let mut p = p.borrow_mut();
                    (std::mem::take(&mut p.queries), p.seen.clone(), p.touches.clone())
                };
                self.obs.add("handlers_run", 1);
                self.judge_mapping(&queries, &seen)?;
                for t in touches {
                    self.trace.log(format!(
                        "{}: node {node} transaction {seen_id} saw {}/{} {:?} wrote {:?}",
                        self.now, t.table, t.tablet, t.observed, t.written
                    ));
                    self.obs.add("tablets_observed", 1);
                    let committed = self
                        .history
                        .get(&(t.table.clone(), t.tablet))
                        .map_or(false, |h| h.contains(&t.observed));
                    if !committed {
                        self.judge(
                            &["C01", "C06"],
                            "uncommitted_read",
                            format!(
                                "transaction {seen_id} of node {node} was given {:?} for {}/{}, \
                                 which was never committed there",
                                t.observed, t.table, t.tablet
                            ),
                        )?;
                    }
                }
            }
        }
        Ok(())
    }

    fn drive_txns(&mut self, node: usize, plan: Option<&Plan>) -> Result<(), Violation> {
        for i in 0..self.txns.len() {
            if self.txns[i].node != node {
                continue;
            }
            match &mut self.txns[i].state {
                TxnState::Preparing(t) => {
                    let pending = t.has_pending_process();
                    // Handlers that are yet to run keep the transaction pending, unless it failed.
                    if self.txns[i].more > 0 && self.rng.pct(if pending { 10 } else { 40 }) {
                        self.txns[i].more -= 1;
                        if plan.is_some() {
                            let queries = self.random_queries(true);
                            self.process(i, queries, plan.map_or(0, |p| p.write_pct));
                            continue;
                        }
                    }
                    let calm = plan.is_none();
                    if self.txns[i].abort && (calm || self.rng.pct(15)) {
                        let state = std::mem::replace(&mut self.txns[i].state, TxnState::Done);
                        if let TxnState::Preparing(t) = state {
                            t.abort();
                        }
                        self.trace.log(format!(
                            "{}: node {node} aborts transaction {}",
                            self.now, self.txns[i].id
                        ));
                        self.obs.add("aborts", 1);
                    } else if !pending && !self.txns[i].abort && (calm || self.rng.pct(60)) {
                        self.commit(i)?;
                    }
                }
                TxnState::Committing(_) => self.check(i)?,
                TxnState::Done => {}
            }
        }
        Ok(())
    }

    fn commit(&mut self, i: usize) -> Result<(), Violation> {
        let node = self.txns[i].node;
        // What is queued already doesn't belong to this commit.
        self.pump(node, None)?;
        let state = std::mem::replace(&mut self.txns[i].state, TxnState::Done);
        if let TxnState::Preparing(t) = state {
            self.trace.log(format!("{}: node {node} commits {}", self.now, self.txns[i].id));
            self.txns[i].state = TxnState::Committing(t.commit());
        }
        self.pump(node, Some(i))?;
        self.check(i)
    }

    fn check(&mut self, i: usize) -> Result<(), Violation> {
        let node = self.txns[i].node;
        let id = self.txns[i].id;
        let (outcome, again) = match &mut self.txns[i].state {
            TxnState::Committing(c) => {
                let outcome = c.check_result();
                let again = if outcome.is_some() { c.check_result() } else { None };
                (outcome, again)
            }
            _ => return Ok(()),
        };
        let Some(outcome) = outcome else {
            if self.txns[i].reply.is_some() {
                self.txns[i].checked_after += 1;
            }
            return Ok(());
        };
        self.trace.log(format!("{}: node {node} transaction {id} {outcome:?}", self.now));
        self.obs.see(i as u64 * 4 + outcome as u64);
        if again != Some(outcome) {
            self.judge(
                &["C02"],
                "outcome_changed",
                format!("transaction {id} of node {node} was {outcome:?}, then {again:?}"),
            )?;
        }
        self.txns[i].outcome = Some(outcome);
        self.txns[i].state = TxnState::Done;
        let (sent, applied, reply) =
            (self.txns[i].request_sent, self.txns[i].applied, self.txns[i].reply);
        match outcome {
            TabletTransactionOutcome::Succeeded => {
                self.obs.add("committed", 1);
                // A transaction that affected no tablet says nothing about the store.
                let vacuous = self.txns[i].processes.iter().all(|p| p.borrow().touches.is_empty());
                if !vacuous && (!applied || reply != Some(Reply::Verdict(true))) {
                    self.judge(
                        &["C01", "C02"],
                        "false_success",
                        format!(
                            "transaction {id} of node {node} succeeded, but its request was sent: \
                             {sent}, executed: {applied}, answered: {reply:?}"
                        ),
                    )?;
                }
            }
            TabletTransactionOutcome::Failed => {
                self.obs.add("failed", 1);
                if reply == Some(Reply::Verdict(true)) || (applied && reply != Some(Reply::Error)) {
                    self.judge(
                        &["C02"],
                        "false_failure",
                        format!("transaction {id} of node {node} failed but was executed"),
                    )?;
                }
            }
        }
        Ok(())
    }

    /// Moves what a node wants to send to the network.
    fn pump(&mut self, node: usize, commit: Option<usize>) -> Result<(), Violation> {
        let messages = self.nodes[node].manager.take_out_messages();
        for message in messages {
            let due = self.delay();
            match message {
                OutMessage::LoadTabletRequest(c, request) => {
                    self.trace.log(format!("{}: node {node} load {c:x} {}", self.now, request.blob_uri));
                    self.obs.add("loads", 1);
                    let n = self.nodes[node].loading.entry(request.blob_uri.clone()).or_insert(0);
                    *n += 1;
                    if *n > 1 {
                        self.judge(
                            &["C07"],
                            "double_load",
                            format!("node {node} loads {} twice at once", request.blob_uri),
                        )?;
                    }
                    self.net.push((due, node, Event::Load(c, request)));
                }
                OutMessage::StoreTabletRequest(c, request, data) => {
                    self.trace.log(format!("{}: node {node} store {c:x} {}", self.now, request.blob_uri));
                    self.obs.add("stores", 1);
                    self.net.push((due, node, Event::Store(c, request, data)));
                }
                OutMessage::ExecuteTabletOpsRequest(c, _, request) => {
                    let list = request
                        .tablet_ops
                        .iter()
                        .any(|op| matches!(op.op, Some(Op::ListTablet(_))));
                    if list {
                        self.obs.add("list_requests", 1);
                        self.net.push((due, node, Event::Exec(c, request, None)));
                        continue;
                    }
                    self.trace.log(format!(
                        "{}: node {node} execute {c:x} {}",
                        self.now,
                        describe(&request.tablet_ops)
                    ));
                    let Some(i) = commit else {
                        self.judge(
                            &["C02"],
                            "request_without_commit",
                            format!("node {node} sent tablet ops although nothing was committed"),
                        )?;
                        self.net.push((due, node, Event::Exec(c, request, None)));
                        continue;
                    };
                    if self.txns[i].request_sent {
                        self.judge(
                            &["C02"],
                            "request_twice",
                            format!("transaction {} was sent twice", self.txns[i].id),
                        )?;
                    }
                    self.txns[i].request_sent = true;
                    self.obs.add("commit_requests", 1);
                    self.judge_request(i, &request)?;
                    self.net.push((due, node, Event::Exec(c, request, Some(i))));
                }
            }
        }
        Ok(())
    }

    /// The request of a transaction covers exactly what its handlers saw and wrote, and every
    /// blob it refers to has been stored.
    fn judge_request(&mut self, i: usize, request: &TabletsRequest) -> Result<(), Violation> {
        let node = self.txns[i].node;
        let id = self.txns[i].id;
        let mut expected: Vec<Touch> = Vec::new();
        for p in &self.txns[i].processes {
            expected.extend(p.borrow().touches.iter().cloned());
        }
        if self.txns[i].processes.iter().any(|p| p.borrow().calls == 0) {
            self.judge(
                &["C02"],
                "committed_unprocessed",
                format!("transaction {id} of node {node} was sent before all of it was processed"),
            )?;
        }
        let mut left = request.tablet_ops.clone();
        for t in expected {
            let fits = |op: &TabletOp| {
                op.table_name == t.table
                    && match (&op.op, &t.written) {
                        (Some(Op::CheckTablet(c)), None) => c.tablet_id == t.tablet,
                        (Some(Op::UpdateTablet(u)), Some(w)) => {
                            u.tablet_metadata.as_ref().map_or(false, |m| {
                                m.tablet_id == t.tablet
                                    && m.blob_hash.as_ref() == Sha256::digest(w).as_slice()
                            })
                        }
                        _ => false,
                    }
            };
            let known = self.versions.get(&(t.table.clone(), t.tablet));
            let exact = |op: &TabletOp| {
                let version = match &op.op {
                    Some(Op::CheckTablet(c)) => Some(c.tablet_version),
                    Some(Op::UpdateTablet(u)) => {
                        u.tablet_metadata.as_ref().and_then(|m| m.tablet_version.checked_sub(1))
                    }
                    _ => None,
                };
                known.zip(version).and_then(|(k, v)| k.get(v as usize)) == Some(&t.observed)
            };
            // The same tablet may be touched twice, in different versions.
            let position = left
                .iter()
                .position(|op| fits(op) && exact(op))
                .or_else(|| left.iter().position(fits));
            match position {
                None => {
                    let props: &[&str] =
                        if t.written.is_some() { &["C01", "C02", "C03"] } else { &["C01", "C02"] };
                    return self.judge(
                        props,
                        "request_incomplete",
                        format!(
                            "transaction {id} of node {node} touched {}/{} (wrote {:?}) but its \
                             request says {}",
                            t.table,
                            t.tablet,
                            t.written,
                            describe(&request.tablet_ops)
                        ),
                    )
                }
                Some(at) => {
                    let op = left.swap_remove(at);
                    let (based_on, props): (Option<u32>, &[&str]) = match &op.op {
                        Some(Op::UpdateTablet(u)) => (
                            u.tablet_metadata.as_ref().and_then(|m| m.tablet_version.checked_sub(1)),
                            &["C01", "C02", "C03"],
                        ),
                        Some(Op::CheckTablet(c)) => (Some(c.tablet_version), &["C01", "C02"]),
                        _ => (None, &[]),
                    };
                    let contents = based_on.and_then(|v| {
                        self.versions.get(&(t.table.clone(), t.tablet))?.get(v as usize)
                    });
                    if contents != Some(&t.observed) {
                        let contents = contents.cloned();
                        self.judge(
                            props,
                            "wrong_version",
                            format!(
                                "transaction {id} of node {node} saw {:?} in {}/{}, its request \
                                 says {} where that version is {contents:?}",
                                t.observed,
                                t.table,
                                t.tablet,
                                describe(&[op.clone()])
                            ),
                        )?;
                    }
                    if let (Some(Op::UpdateTablet(u)), Some(w)) = (&op.op, &t.written) {
                        let m = u.tablet_metadata.clone().unwrap_or_default();
                        self.obs.add("updates_judged", 1);
                        if m.blob_size as usize != w.len() {
                            self.judge(
                                &["C03"],
                                "blob_size",
                                format!("blob of {} bytes is recorded as {}", w.len(), m.blob_size),
                            )?;
                        }
                        let stored = self.blobs.blobs.get(&m.blob_uri).cloned();
                        if stored.as_ref() != Some(w) {
                            self.judge(
                                &["C03"],
                                "blob_missing",
                                format!(
                                    "transaction {id} of node {node} commits {}/{} with blob {:?} \
                                     whose stored contents is {stored:?}, not {w:?}",
                                    t.table, t.tablet, m.blob_uri
                                ),
                            )?;
                        }
                        if !self.nodes[node].confirmed.contains(&m.blob_uri) {
                            self.judge(
                                &["C03"],
                                "blob_unconfirmed",
                                format!(
                                    "transaction {id} of node {node} commits blob {:?} before \
                                     storing it was confirmed",
                                    m.blob_uri
                                ),
                            )?;
                        }
                    }
                }
            }
        }
        if !left.is_empty() {
            self.judge(
                &["C01", "C02"],
                "request_excess",
                format!("transaction {id} of node {node} sent more than it did: {}", describe(&left)),
            )?;
        }
        Ok(())
    }

    fn handle(&mut self, node: usize, event: Event) -> Result<(), Violation> {
        let due = self.delay();
        match event {
            Event::Load(c, request) => {
                let uri = request.blob_uri.clone();
                let mut data = self.blobs.blobs.get(&uri).cloned();
                if self.faults.load_fail > 0 && self.rng.pct(self.faults.load_fail) {
                    data = None;
                    self.obs.add("load_failures", 1);
                }
                if data.is_some() && self.rng.pct(self.faults.tamper) {
                    let original = data.clone();
                    data = Some(self.tamper(data.unwrap_or_default()));
                    if data != original {
                        self.obs.add("tampered_blobs", 1);
                    }
                }
                let status = if data.is_some() {
                    TabletDataStorageStatus::Succeeded
                } else {
                    TabletDataStorageStatus::Failed
                };
                let message = InMessage::LoadTabletResponse(
                    c,
                    LoadTabletResponse { status: status.into() },
                    data.unwrap_or_default(),
                );
                self.reply(due, node, message, None, Some(uri));
            }
            Event::Store(c, request, data) => {
                let uri = request.blob_uri.clone();
                let fail = self.rng.pct(self.faults.store_fail);
                // A failed store may still have left the blob behind.
                if !fail || self.rng.pct(50) {
                    if let Some(old) = self.blobs.blobs.get(&uri) {
                        if *old != data {
                            self.judge(
                                &["C03"],
                                "blob_overwritten",
                                format!("blob {uri} was {old:?} and is overwritten with {data:?}"),
                            )?;
                        }
                    }
                    self.blobs.blobs.insert(uri.clone(), data);
                }
                let status = if fail {
                    self.obs.add("store_failures", 1);
                    TabletDataStorageStatus::Failed
                } else {
                    TabletDataStorageStatus::Succeeded
                };
                let message = InMessage::StoreTabletResponse(
                    c,
                    StoreTabletResponse { status: status.into() },
                );
                self.reply(due, node, message, None, Some(uri));
            }
            Event::Exec(c, request, txn) => self.execute(due, node, c, request, txn)?,
            Event::Deliver(message, reply, uri) => self.deliver(node, message, reply, uri),
        }
        Ok(())
    }

    fn tamper(&mut self, data: Bytes) -> Bytes {
        let mut data = data.to_vec();
        match self.rng.below(4) {
            0 => {
                data.pop();
            }
            1 => data.push(0),
            2 if !data.is_empty() => {
                let at = self.rng.usize(data.len());
                data[at] ^= 1 << self.rng.below(8);
            }
            _ => {
                // Another blob, for example an older version of the same tablet.
                let mut uris: Vec<&String> = self.blobs.blobs.keys().collect();
                uris.sort();
                if !uris.is_empty() {
                    data = self.blobs.blobs[uris[self.rng.usize(uris.len())]].to_vec();
                }
            }
        }
        data.into()
    }

    fn reply(
        &mut self,
        due: u64,
        node: usize,
        message: InMessage,
        reply: Option<(usize, Reply)>,
        uri: Option<String>,
    ) {
        if self.rng.pct(self.faults.duplicate) {
            let again = due + self.rng.below(6);
            self.obs.add("duplicated_messages", 1);
            self.net.push((again, node, Event::Deliver(message.clone(), reply, None)));
        }
        self.net.push((due, node, Event::Deliver(message, reply, uri)));
    }

    fn execute(
        &mut self,
        due: u64,
        node: usize,
        c: u64,
        request: TabletsRequest,
        txn: Option<usize>,
    ) -> Result<(), Violation> {
        let error = |status: ExecuteTabletOpsStatus| {
            InMessage::ExecuteTabletOpsError(
                c,
                ExecuteTabletOpsError { status: status.into(), ..Default::default() },
            )
        };
        if self.rng.pct(self.faults.exec_reject) {
            self.obs.add("rejected_requests", 1);
            let message = error(ExecuteTabletOpsStatus::Rejected);
            self.reply(due, node, message, txn.map(|t| (t, Reply::Error)), None);
            return Ok(());
        }
        if self.rng.pct(self.faults.exec_invalid) {
            self.obs.add("invalid_responses", 1);
            let mut results = self.store.clone().execute(&request).0.tablet_results;
            match self.rng.below(3) {
                0 => results.clear(),
                1 => {
                    results.pop();
                }
                _ => {}
            }
            for r in &mut results {
                r.status = TabletOpStatus::Invalid.into();
                r.op_result = None;
            }
            let message = InMessage::ExecuteTabletOpsResponse(
                c,
                ExecuteTabletOpsResponse {},
                TabletsResponse {
                    status: TabletsRequestStatus::Invalid.into(),
                    tablet_results: results,
                },
            );
            // An empty transaction has nothing that could be invalid.
            let verdict = if request.tablet_ops.is_empty() { Reply::Error } else { Reply::Verdict(false) };
            if request.tablet_ops.is_empty() {
                self.reply(due, node, error(ExecuteTabletOpsStatus::Rejected), txn.map(|t| (t, verdict)), None);
            } else {
                self.reply(due, node, message, txn.map(|t| (t, verdict)), None);
            }
            return Ok(());
        }
        if self.rng.pct(self.faults.exec_ambiguous) {
            self.obs.add("ambiguous_errors", 1);
            if self.rng.pct(50) {
                self.apply(&request, txn)?;
            }
            let message = error(ExecuteTabletOpsStatus::RpcError);
            self.reply(due, node, message, txn.map(|t| (t, Reply::Error)), None);
            return Ok(());
        }
        let (response, ok) = self.apply(&request, txn)?;
        let message =
            InMessage::ExecuteTabletOpsResponse(c, ExecuteTabletOpsResponse {}, response);
        self.reply(due, node, message, txn.map(|t| (t, Reply::Verdict(ok))), None);
        Ok(())
    }

    /// Executes a request at the store. A transaction that takes effect must have observed
    /// exactly what is current.
    fn apply(
        &mut self,
        request: &TabletsRequest,
        txn: Option<usize>,
    ) -> Result<(TabletsResponse, bool), Violation> {
        let (response, ok) = self.store.execute(request);
        let Some(i) = txn else { return Ok((response, ok)) };
        let (node, id) = (self.txns[i].node, self.txns[i].id);
        if !ok {
            self.obs.add("conflicts", 1);
            return Ok((response, ok));
        }
        self.txns[i].applied = true;
        let mut touches: Vec<Touch> = Vec::new();
        for p in &self.txns[i].processes {
            touches.extend(p.borrow().touches.iter().cloned());
        }
        for t in &touches {
            let truth = self.truth.get(&(t.table.clone(), t.tablet)).cloned().unwrap_or_default();
            self.obs.add("committed_reads_judged", 1);
            if truth != t.observed {
                self.judge(
                    &["C01"],
                    "stale_read_committed",
                    format!(
                        "transaction {id} of node {node} took effect having seen {:?} for {}/{} \
                         while {truth:?} was current",
                        t.observed, t.table, t.tablet
                    ),
                )?;
            }
        }
        for t in touches {
            if let Some(w) = t.written {
                self.versions.entry((t.table.clone(), t.tablet)).or_default().push(w.clone());
                self.truth.insert((t.table.clone(), t.tablet), w.clone());
                self.history.entry((t.table.clone(), t.tablet)).or_default().insert(w);
            }
        }
        Ok((response, ok))
    }

    fn deliver(
        &mut self,
        node: usize,
        message: InMessage,
        reply: Option<(usize, Reply)>,
        uri: Option<String>,
    ) {
        match &message {
            InMessage::StoreTabletResponse(_, r)
                if r.status == TabletDataStorageStatus::Succeeded as i32 =>
            {
                if let Some(uri) = uri {
                    self.nodes[node].confirmed.insert(uri);
                }
            }
            InMessage::LoadTabletResponse(_, r, _) => {
                if let Some(uri) = uri {
                    if let Some(n) = self.nodes[node].loading.get_mut(&uri) {
                        *n = n.saturating_sub(1);
                    }
                    if r.status == TabletDataStorageStatus::Succeeded as i32 {
                        self.nodes[node].confirmed.insert(uri);
                    }
                }
            }
            _ => {}
        }
        if let Some((i, reply)) = reply {
            if self.txns[i].reply.is_none() {
                self.txns[i].reply = Some(reply);
                self.trace.log(format!(
                    "{}: node {node} transaction {} is answered {reply:?}",
                    self.now, self.txns[i].id
                ));
            }
        }
        self.nodes[node].manager.process_in_message(message);
    }

    /// Responses nobody waits for must not have any effect.
    fn deliver_unknown(&mut self, node: usize) {
        let base = *self.rng.pick(&[1u64 << 56, 2 << 56, 3 << 56, 0]);
        let c = base + 1_000_000 + self.rng.below(1000);
        self.obs.add("unknown_responses", 1);
        let message = match self.rng.below(4) {
            0 => InMessage::LoadTabletResponse(
                c,
                LoadTabletResponse { status: TabletDataStorageStatus::Succeeded.into() },
                Bytes::from_static(b"nobody asked"),
            ),
            1 => InMessage::StoreTabletResponse(
                c,
                StoreTabletResponse { status: TabletDataStorageStatus::Failed.into() },
            ),
            2 => InMessage::ExecuteTabletOpsError(c, ExecuteTabletOpsError::default()),
            _ => InMessage::ExecuteTabletOpsResponse(
                c,
                ExecuteTabletOpsResponse {},
                TabletsResponse {
                    status: TabletsRequestStatus::Succeeded.into(),
                    tablet_results: Vec::new(),
                },
            ),
        };
        self.nodes[node].manager.process_in_message(message);
    }

    /// Once nothing disturbs it, every node is able to read and update every tablet.
    fn probe(&mut self) -> Result<(), Violation> {
        for node in 0..self.nodes.len() {
            let mut succeeded = false;
            for attempt in 0..3 {
                // Having committed, the node knows it all.
                let again = succeeded;
                let lists = self.obs.get("list_requests");
                let mut queries = Vec::new();
                for (name, table) in &self.store.tables {
                    self.query_counter += 1;
                    queries.push(TableQuery::create(
                        self.query_counter,
                        name.clone(),
                        table.keys().copied().collect(),
                    ));
                }
                let transaction = self.nodes[node].manager.start_transaction();
                let id = transaction.get_id();
                self.txns.push(Txn {
                    node,
                    id,
                    state: TxnState::Preparing(transaction),
                    processes: Vec::new(),
                    more: 0,
                    abort: false,
                    request_sent: false,
                    applied: false,
                    reply: None,
                    outcome: None,
                    checked_after: 0,
                    probe: true,
                });
                let i = self.txns.len() - 1;
                self.process(i, queries, 70);
                self.obs.add("probes", 1);
                let mut steps = 0;
                while !matches!(self.txns[i].state, TxnState::Done) {
                    self.step(None)?;
                    steps += 1;
                    if steps > 100 {
                        let stuck = self.stuck();
                        return self.flag(
                            "probe_stuck",
                            format!("undisturbed transaction does not finish: {stuck}"),
                            true,
                        );
                    }
                }
                let committed = self.txns[i].outcome == Some(TabletTransactionOutcome::Succeeded);
                if again {
                    if !committed || self.obs.get("list_requests") != lists {
                        let what = if committed { "lists tablets before" } else { "doesn't commit" };
                        let message = format!("node {node} {what} a second transaction right after its first");
                        self.judge(&["C05"], "forgot_own_commit", message)?;
                    }
                    self.obs.add("probes_repeated", 1);
                    break;
                }
                if committed {
                    succeeded = true;
                    self.obs.add("probe_attempts", attempt + 1);
                } else if attempt == 1 {
                    break;
                }
            }
            if !succeeded {
                self.judge(
                    &["C05", "C08"],
                    "probe_failed",
                    format!("node {node} cannot commit, nothing disturbs it and nothing competes"),
                )?;
            }
        }
        Ok(())
    }

    fn finish(mut self) -> Result<Observed, Violation> {
        for node in 0..self.nodes.len() {
            self.judge_resolves(node)?;
        }
        let mut obs = self.obs;
        obs.nontrivial = obs.get("committed") > 0
            && (obs.get("conflicts") > 0
                || obs.get("load_failures") + obs.get("store_failures") > 0
                || obs.get("tampered_blobs") > 0);
        let mut final_state: Vec<String> =
            self.truth.iter().map(|((t, i), c)| format!("{t}/{i}={c:?}")).collect();
        final_state.sort();
        obs.see(vcommon::hash_str(&final_state.join(",")));
        obs.sample = format!(
            "{} nodes, {} transactions ({} committed, {} failed, {} aborted, {} conflicts), final {}",
            self.nodes.len(),
            obs.get("transactions"),
            obs.get("committed"),
            obs.get("failed"),
            obs.get("aborts"),
            obs.get("conflicts"),
            final_state.join(" ")
        );
        Ok(obs)
    }
}

fn describe(ops: &[TabletOp]) -> String {
    let parts: Vec<String> = ops
        .iter()
        .map(|op| match &op.op {
            Some(Op::CheckTablet(c)) => {
                format!("check {}/{} v{}", op.table_name, c.tablet_id, c.tablet_version)
            }
            Some(Op::UpdateTablet(u)) => {
                let m = u.tablet_metadata.clone().unwrap_or_default();
                format!(
                    "update {}/{} v{} {} bytes hash {}",
                    op.table_name,
                    m.tablet_id,
                    m.tablet_version,
                    m.blob_size,
                    hex(&m.blob_hash)
                )
            }
            other => format!("{} {other:?}", op.table_name),
        })
        .collect();
    format!("[{}]", parts.join(", "))
}
