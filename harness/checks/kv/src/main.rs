//! The key value store end to end: real Tablet Cache actors of several nodes and the real
//! Tablet Store actor, with the host between them that delays, reorders, repeats, rejects,
//! fails and tampers. Consumers record what they ask and are told.

extern crate tcp_tablet_cache_service;
extern crate tcp_tablet_store_service;

use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    hash::{Hash, Hasher},
    sync::OnceLock,
};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorEventContext};
use tcp_tablet_cache_service::{
    actor::TabletCacheActor,
    apps::tablet_cache::service::{tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg, *},
    store::SimpleKeyValueStore,
    transaction::{
        coordinator::DefaultTabletTransactionCoordinator,
        data::{BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy},
        manager::DefaultTabletTransactionManager,
        metadata::DefaultTabletMetadataCache,
    },
};
use tcp_tablet_store_service::{
    actor::{TabletConfigurator, TabletStoreActor},
    apps::tablet_store::service as ts,
};
use vcommon::{hash_str, linearizable, mix, violation, Check, Lin, Observed, Op, Rng, Trace, Violation};

struct Context {
    logger: Logger,
    config: Bytes,
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        true
    }
}

fn context(config: Vec<u8>) -> Box<dyn ActorContext> {
    Box::new(Context { logger: Logger::root(Discard, o!()), config: config.into() })
}

struct Fixed(Vec<u32>);

impl TabletConfigurator for Fixed {
    fn generate(&mut self, _count: u32) -> Vec<u32> {
        self.0.clone()
    }
}

type Cache = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;

#[derive(Clone, Debug)]
enum Kind {
    Put(Bytes),
    Get,
}

#[derive(Clone, Debug)]
enum Answer {
    Put(bool),
    Get(Option<Bytes>),
}

struct Request {
    node: usize,
    id: u64,
    key: String,
    kind: Kind,
    call: u64,
    ret: Option<(u64, Answer)>,
    /// Only there so that waiting requests reach the configured batch size.
    filler: bool,
    /// Its node was restarted before it was answered.
    lost: bool,
}

enum Event {
    ToStore(u64, Bytes),
    FromStore(u64, Result<Bytes, ts::ExecuteTabletOpsError>),
    Load(u64, String),
    Store(u64, String, Bytes),
    ToCache(ActorCommand),
}

#[derive(Clone, Copy, Default)]
struct Faults {
    delay: u64,
    load_fail: u64,
    store_fail: u64,
    reject: u64,
    /// Error although the store executed the request.
    ambiguous: u64,
    duplicate: u64,
    tamper: u64,
    restart: u64,
}

struct Plan {
    faults: Faults,
    nodes: usize,
    steps: u64,
    request_pct: u64,
    max_requests: usize,
    put_pct: u64,
    resolve: u32,
    process: u32,
}

/// Two keys that have the same hash, as the ring is only 32 bits wide.
fn colliding_keys() -> &'static (String, String) {
    static KEYS: OnceLock<(String, String)> = OnceLock::new();
    KEYS.get_or_init(|| {
        let mut seen = HashMap::new();
        for i in 0u32.. {
            let key = format!("c{i}");
            if let Some(other) = seen.insert(key_hash(&key), i) {
                return (format!("c{other}"), key);
            }
        }
        unreachable!()
    })
}

fn key_hash(key: &String) -> u32 {
    let mut hasher = ahash::AHasher::default();
    key.hash(&mut hasher);
    hasher.finish() as u32
}

struct World<'a> {
    property: &'static str,
    obs: Observed,
    trace: &'a mut Trace,
    rng: Rng,
    now: u64,
    faults: Faults,
    config: TabletCacheConfig,
    caches: Vec<Cache>,
    generation: Vec<u64>,
    store: TabletStoreActor<Fixed>,
    blobs: BTreeMap<String, Bytes>,
    /// Due time, node, its generation.
    net: Vec<(u64, usize, u64, Event)>,
    requests: Vec<Request>,
    by_id: BTreeMap<(usize, u64), usize>,
    applied: u64,
    /// Requests each node received since its start.
    received: Vec<u32>,
    batch: u32,
    /// Everything sent out by nodes.
    sent: u64,
}

fn new_cache(config: &TabletCacheConfig) -> Cache {
    let mut cache = TabletCacheActor::new(
        DefaultTabletTransactionManager::create(
            Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
            Box::new(DefaultTabletMetadataCache::create(3 << 56)),
            Box::new(DefaultTabletDataCache::create(
                2 << 56,
                Box::new(BytesTabletDataSerializer {}),
                Box::new(DefaultTabletDataCachePolicy::new()),
            )),
        ),
        SimpleKeyValueStore::create(),
    );
    cache.on_init(context(config.encode_to_vec())).expect("init");
    cache
}

fn run(property: &'static str, plan: Plan, rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let region = match rng.below(4) {
        0 => u32::MAX / 8,
        1 => u32::MAX,
        2 => 1 << 31,
        _ => rng.range(u32::MAX as u64 / 20, u32::MAX as u64) as u32,
    };
    let (a, b) = colliding_keys();
    let mut keys: Vec<String> = vec!["".into(), "k".into(), "ключ".into(), "k1".into(), "k2".into(), "k3".into()];
    rng.shuffle(&mut keys);
    keys.truncate(1 + rng.usize(4));
    if rng.pct(30) {
        keys.push(a.clone());
        keys.push(b.clone());
    }
    let mut ids = BTreeSet::new();
    for _ in 0..1 + rng.usize(6) {
        // Tablets like to end at or right before keys.
        ids.insert(match rng.below(3) {
            0 => key_hash(rng.pick(&keys)),
            1 => key_hash(rng.pick(&keys)).wrapping_sub(1),
            _ => rng.u32(),
        });
    }
    let table = "kv".to_string();
    let config = TabletCacheConfig {
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: vec![TableMetadataCacheConfig {
                    table_name: table.clone(),
                    table_region_size: region,
                }],
            }),
        }),
        store_config: Some(StoreConfig {
            table_name: table.clone(),
            min_pending_before_resolve: plan.resolve,
            min_pending_before_process: plan.process,
        }),
    };
    let mut store = TabletStoreActor::new(Fixed(ids.iter().copied().collect()));
    store
        .on_init(context(
            ts::TabletStoreConfig {
                table_configs: vec![ts::TableConfig {
                    table_name: table,
                    initial_tablet_count: ids.len() as u32,
                    ..Default::default()
                }],
            }
            .encode_to_vec(),
        ))
        .expect("store init");
    trace.log(format!(
        "region {region}, tablets {ids:?}, keys {:?}, thresholds {} {}",
        keys.iter().map(|k| (k, key_hash(k))).collect::<Vec<_>>(),
        plan.resolve,
        plan.process
    ));
    let mut w = World {
        property,
        obs: Observed::default(),
        trace,
        rng: rng.fork(),
        now: 0,
        faults: plan.faults,
        caches: (0..plan.nodes).map(|_| new_cache(&config)).collect(),
        generation: vec![0; plan.nodes],
        config,
        store,
        blobs: BTreeMap::new(),
        net: Vec::new(),
        requests: Vec::new(),
        by_id: BTreeMap::new(),
        applied: 0,
        received: vec![0; plan.nodes],
        batch: plan.resolve.max(plan.process),
        sent: 0,
    };
    for _ in 0..plan.steps {
        for node in 0..plan.nodes {
            if w.rng.pct(plan.request_pct) && w.requests.len() < plan.max_requests {
                let key = w.rng.pick(&keys).clone();
                let kind = if w.rng.pct(plan.put_pct) {
                    let mut value = (w.requests.len() as u32 + 1).to_be_bytes().to_vec();
                    if w.rng.pct(3) {
                        value.resize(3000, 7);
                    }
                    Kind::Put(value.into())
                } else {
                    Kind::Get
                };
                w.request(node, key, kind, false)?;
            }
            if w.faults.restart > 0 && w.rng.below(1000) < w.faults.restart {
                w.restart(node);
            }
        }
        w.step()?;
    }
    w.faults = Faults { delay: w.rng.below(3), ..Default::default() };
    let mut rounds = 0;
    while w.waiting() > 0 {
        rounds += 1;
        if rounds > 60 {
            let stuck: Vec<String> = w
                .requests
                .iter()
                .filter(|r| !r.filler && !r.lost && r.ret.is_none())
                .map(|r| format!("{:?} of {:?} with id {} at node {}", r.kind, r.key, r.id, r.node))
                .collect();
            return violation(
                "unanswered",
                format!("requests never answered although more keep coming: {}", stuck.join(", ")),
            );
        }
        // More reads of every key, so that batches fill up.
        if plan.resolve > 1 || plan.process > 1 {
            for node in 0..plan.nodes {
                for key in &keys {
                    for _ in 0..plan.process {
                        w.request(node, key.clone(), Kind::Get, true)?;
                    }
                }
                // Whatever the batch size is, all of it gets resolved.
                for _ in 0..plan.resolve {
                    w.request(node, keys[0].clone(), Kind::Get, true)?;
                }
            }
        }
        for _ in 0..12 {
            w.step()?;
        }
    }
    w.idle()?;
    if w.rng.pct(10) {
        w.malformed()?;
    }
    w.finish()
}

impl World<'_> {
    fn waiting(&self) -> usize {
        self.requests.iter().filter(|r| !r.filler && !r.lost && r.ret.is_none()).count()
    }

    fn judge(&mut self, properties: &[&str], sig: &str, message: String) -> Result<(), Violation> {
        if properties.contains(&self.property) {
            return violation(sig, format!("step {}: {message}", self.now));
        }
        Ok(())
    }

    fn request(&mut self, node: usize, key: String, kind: Kind, filler: bool) -> Result<(), Violation> {
        // Ids are the consumers' choice.
        let id = loop {
            let id = match self.rng.below(5) {
                0 => self.rng.below(4),
                1 => u64::MAX - self.rng.below(3),
                2 => (1 << 56) + self.rng.below(20),
                _ => self.rng.next(),
            };
            if !self.by_id.contains_key(&(node, id)) {
                break id;
            }
        };
        self.trace.log(format!("{}: node {node} is asked {kind:?} of {key:?}, id {id}", self.now));
        self.by_id.insert((node, id), self.requests.len());
        let message = match &kind {
            Kind::Put(value) => InMsg::PutKeyRequest(PutKeyRequest { key: key.clone(), value: value.clone() }),
            Kind::Get => InMsg::GetKeyRequest(GetKeyRequest { key: key.clone() }),
        };
        self.obs.add(if filler { "filler_requests" } else { "requests" }, 1);
        self.received[node] += 1;
        self.now += 1;
        self.requests.push(Request { node, id, key, kind, call: self.now, ret: None, filler, lost: false });
        let command = ActorCommand::with_header(id, &TabletCacheInMessage { in_msg: Some(message) });
        self.feed(node, Some(command))
    }

    /// With nothing to do a node doesn't bother the store and the storage.
    fn idle(&mut self) -> Result<(), Violation> {
        for _ in 0..40 {
            self.step()?;
        }
        let before = self.sent;
        for _ in 0..20 {
            self.step()?;
        }
        if self.sent > before {
            let n = self.sent - before;
            self.judge(&["C09"], "idle_traffic", format!("{n} messages sent with all requests answered"))?;
        }
        self.obs.add("idle_checked", 1);
        Ok(())
    }

    /// Messages that don't parse are an error for the driver, never a panic.
    fn malformed(&mut self) -> Result<(), Violation> {
        let header = TabletCacheInMessage {
            in_msg: Some(InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {})),
        };
        let id = self.rng.next();
        let garbage = Bytes::from_static(&[0xff, 0xff, 0xff]);
        let command = match self.rng.below(3) {
            0 => ActorCommand::with_header_and_payload(id, &header, garbage),
            1 => ActorCommand { correlation_id: id, header: garbage, payload: Bytes::new() },
            _ => ActorCommand { correlation_id: id, header: Bytes::new(), payload: garbage },
        };
        if self.caches[0].on_process_command(Some(command)).is_ok() {
            self.judge(&["C09"], "malformed_accepted", "a message that doesn't parse is accepted".into())?;
        }
        self.obs.add("malformed", 1);
        Ok(())
    }

    fn restart(&mut self, node: usize) {
        self.trace.log(format!("{}: node {node} restarts", self.now));
        self.obs.add("restarts", 1);
        self.caches[node] = new_cache(&self.config);
        self.received[node] = 0;
        self.generation[node] += 1;
        for r in &mut self.requests {
            if r.node == node && r.ret.is_none() {
                r.lost = true;
            }
        }
        let generation = self.generation[node];
        self.net.retain(|(_, n, g, e)| *n != node || *g == generation || matches!(e, Event::ToStore(..)));
    }

    fn send(&mut self, node: usize, event: Event) {
        let due = self.now + 1 + self.rng.below(self.faults.delay + 1);
        self.net.push((due, node, self.generation[node], event));
    }

    fn step(&mut self) -> Result<(), Violation> {
        self.now += 1;
        for node in 0..self.caches.len() {
            self.feed(node, None)?;
        }
        let now = self.now;
        let (mut due, later): (Vec<_>, Vec<_>) =
            std::mem::take(&mut self.net).into_iter().partition(|e| e.0 <= now);
        self.net = later;
        self.rng.shuffle(&mut due);
        for (_, node, generation, event) in due {
            self.handle(node, generation, event)?;
        }
        Ok(())
    }

    fn feed(&mut self, node: usize, command: Option<ActorCommand>) -> Result<(), Violation> {
        self.now += 1;
        let outcome = match self.caches[node].on_process_command(command) {
            Ok(outcome) => outcome,
            Err(e) => return self.judge(&["C09"], "actor_error", format!("node {node} failed: {e:?}")),
        };
        if outcome.event.is_some() {
            self.judge(&["C09"], "event", "the cache replicates events".into())?;
        }
        self.sent += outcome.commands.len() as u64;
        for command in outcome.commands {
            self.out(node, command)?;
        }
        Ok(())
    }

    fn out(&mut self, node: usize, command: ActorCommand) -> Result<(), Violation> {
        let id = command.correlation_id;
        let header = TabletCacheOutMessage::decode(command.header).ok().and_then(|m| m.out_msg);
        match header {
            Some(OutMsg::LoadTabletRequest(r)) => self.send(node, Event::Load(id, r.blob_uri)),
            Some(OutMsg::StoreTabletRequest(r)) => {
                self.send(node, Event::Store(id, r.blob_uri, command.payload))
            }
            Some(OutMsg::ExecuteTabletOpsRequest(_)) => self.send(node, Event::ToStore(id, command.payload)),
            Some(OutMsg::PutKeyResponse(r)) => self.answer(node, id, Answer::Put(r.existed))?,
            Some(OutMsg::GetKeyResponse(r)) => {
                if !r.existed && !r.value.is_empty() {
                    self.judge(&["C09", "C10"], "absent_value", format!("key of {id} doesn't exist but has a value"))?;
                }
                self.answer(node, id, Answer::Get(r.existed.then_some(r.value)))?
            }
            None => self.judge(&["C09"], "bad_message", format!("node {node} sends a message that doesn't parse"))?,
        }
        Ok(())
    }

    fn answer(&mut self, node: usize, id: u64, answer: Answer) -> Result<(), Violation> {
        self.now += 1;
        self.trace.log(format!("{}: node {node} answers {id}: {answer:?}", self.now));
        self.obs.add("answers", 1);
        let Some(&index) = self.by_id.get(&(node, id)) else {
            return self.judge(&["C09"], "unknown_answer", format!("node {node} answers {id} nobody asked"));
        };
        let now = self.now;
        let request = &mut self.requests[index];
        let twice = request.ret.is_some();
        let lost = request.lost;
        let matches = matches!(
            (&request.kind, &answer),
            (Kind::Put(_), Answer::Put(_)) | (Kind::Get, Answer::Get(_))
        );
        if !twice {
            request.ret = Some((now, answer.clone()));
        }
        if twice {
            return self.judge(&["C09"], "answered_twice", format!("node {node} answers {id} again: {answer:?}"));
        }
        if self.received[node] < self.batch {
            let (got, batch) = (self.received[node], self.batch);
            return self.judge(
                &["C09"],
                "too_early",
                format!("node {node} answers {id} having {got} requests, it should wait for {batch}"),
            );
        }
        if lost {
            return self.judge(&["C09"], "lost_answer", format!("restarted node {node} answers earlier {id}"));
        }
        if !matches {
            return self.judge(&["C09"], "wrong_kind", format!("node {node} answers {id} with {answer:?}"));
        }
        Ok(())
    }

    fn handle(&mut self, node: usize, generation: u64, event: Event) -> Result<(), Violation> {
        let reply = match event {
            Event::ToStore(id, payload) => {
                let error = |status: ts::ExecuteTabletOpsStatus| {
                    Err(ts::ExecuteTabletOpsError { status: status.into(), ..Default::default() })
                };
                let result = if self.rng.pct(self.faults.reject) {
                    self.obs.add("rejected_by_store", 1);
                    error(ts::ExecuteTabletOpsStatus::Rejected)
                } else {
                    let result = self.store_execute(payload)?;
                    if self.rng.pct(self.faults.ambiguous) {
                        self.obs.add("ambiguous_errors", 1);
                        error(ts::ExecuteTabletOpsStatus::Unspecified)
                    } else {
                        Ok(result)
                    }
                };
                if generation != self.generation[node] {
                    return Ok(());
                }
                self.send(node, Event::FromStore(id, result));
                return Ok(());
            }
            Event::FromStore(id, Ok(payload)) => ActorCommand::with_header_and_payload(
                id,
                &TabletCacheInMessage {
                    in_msg: Some(InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {})),
                },
                payload,
            ),
            Event::FromStore(id, Err(e)) => {
                let status = if e.status == ts::ExecuteTabletOpsStatus::Rejected as i32 {
                    ExecuteTabletOpsStatus::Rejected
                } else {
                    ExecuteTabletOpsStatus::RpcError
                };
                ActorCommand::with_header(
                    id,
                    &TabletCacheInMessage {
                        in_msg: Some(InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError {
                            status: status.into(),
                            ..Default::default()
                        })),
                    },
                )
            }
            Event::Load(id, uri) => {
                let mut blob = self.blobs.get(&uri).cloned();
                if self.rng.pct(self.faults.load_fail) {
                    self.obs.add("load_failures", 1);
                    blob = None;
                }
                if blob.is_some() && self.rng.pct(self.faults.tamper) {
                    self.obs.add("tampered_blobs", 1);
                    let all: Vec<Bytes> = self.blobs.values().cloned().collect();
                    let mut other = self.rng.pick(&all).to_vec();
                    if self.rng.pct(50) && !other.is_empty() {
                        let i = self.rng.usize(other.len());
                        other[i] ^= 1;
                    }
                    blob = Some(other.into());
                }
                let status = match blob {
                    Some(_) => TabletDataStorageStatus::Succeeded,
                    None => TabletDataStorageStatus::Failed,
                };
                ActorCommand::with_header_and_payload(
                    id,
                    &TabletCacheInMessage {
                        in_msg: Some(InMsg::LoadTabletResponse(LoadTabletResponse { status: status.into() })),
                    },
                    blob.unwrap_or_default(),
                )
            }
            Event::Store(id, uri, blob) => {
                let failed = self.rng.pct(self.faults.store_fail);
                if failed {
                    self.obs.add("store_failures", 1);
                }
                if !failed || self.rng.pct(30) {
                    self.blobs.insert(uri, blob);
                }
                let status =
                    if failed { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded };
                ActorCommand::with_header(
                    id,
                    &TabletCacheInMessage {
                        in_msg: Some(InMsg::StoreTabletResponse(StoreTabletResponse { status: status.into() })),
                    },
                )
            }
            Event::ToCache(command) => {
                if generation == self.generation[node] {
                    self.feed(node, Some(command))?;
                }
                return Ok(());
            }
        };
        if self.rng.pct(self.faults.duplicate) {
            self.obs.add("duplicates", 1);
            self.send(node, Event::ToCache(reply.clone()));
        }
        if self.faults.duplicate > 0 && self.rng.pct(3) {
            // A late or invented reply nobody waits for.
            let mut stray = reply.clone();
            stray.correlation_id = self.rng.next();
            self.send(node, Event::ToCache(stray));
        }
        self.send(node, Event::ToCache(reply));
        Ok(())
    }

    fn store_execute(&mut self, payload: Bytes) -> Result<Bytes, Violation> {
        self.applied += 1;
        let command = ActorCommand::with_header_and_payload(
            self.applied,
            &ts::TabletStoreInMessage {
                in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(
                    ts::ExecuteTabletOpsRequest { sender_node_id: 1 },
                )),
            },
            payload,
        );
        let Ok(outcome) = self.store.on_process_command(Some(command)) else {
            return violation("store_failed", "the store failed to process a request");
        };
        let Some(event) = outcome.event else {
            return violation("store_refused", "the store refused a well formed request");
        };
        let context = ActorEventContext { index: self.applied, owned: true };
        let Ok(mut outcome) = self.store.on_apply_event(context, event) else {
            return violation("store_failed", "the store failed to apply a request");
        };
        let Some(command) = outcome.commands.pop() else {
            return violation("store_silent", "the store doesn't answer");
        };
        let response = ts::TabletsResponse::decode(command.payload.clone()).unwrap_or_default();
        if response.status == ts::TabletsRequestStatus::Failed as i32 {
            self.obs.add("conflicts", 1);
        } else {
            self.obs.add("executed", 1);
        }
        Ok(command.payload)
    }

    fn finish(mut self) -> Result<Observed, Violation> {
        let mut keys: BTreeMap<&str, Vec<Op<&Request>>> = BTreeMap::new();
        for r in self.requests.iter().filter(|r| !r.filler) {
            let done = r.ret.as_ref().map(|r| r.0);
            if done.is_none() && matches!(r.kind, Kind::Get) {
                continue;
            }
            keys.entry(&r.key).or_default().push(Op { input: r, call: r.call, ret: done });
        }
        for (key, ops) in &keys {
            self.obs.add("key_histories", 1);
            let verdict = linearizable(
                None::<Bytes>,
                ops,
                |state, op| match (&op.input.kind, op.input.ret.as_ref().map(|r| &r.1)) {
                    (Kind::Put(value), Some(Answer::Put(existed))) => {
                        (*existed == state.is_some()).then(|| Some(value.clone()))
                    }
                    (Kind::Put(value), None) => Some(Some(value.clone())),
                    (Kind::Get, Some(Answer::Get(value))) => (value == state).then(|| state.clone()),
                    _ => None,
                },
                100_000,
            );
            match verdict {
                Lin::Yes => {}
                Lin::Unknown => self.obs.add("undecided_histories", 1),
                Lin::No if self.property == "C10" => {
                    for op in ops {
                        let r = op.input;
                        self.trace.log(format!(
                            "{:?}: [{}, {:?}] node {} {:?} -> {:?}",
                            r.key, r.call, op.ret, r.node, r.kind, r.ret.as_ref().map(|r| &r.1)
                        ));
                    }
                    return violation(
                        "not_linearizable",
                        format!("no order of the {} puts and gets of key {key:?} explains their answers", ops.len()),
                    );
                }
                Lin::No => {}
            }
        }
        for r in &self.requests {
            if let Some((at, answer)) = &r.ret {
                self.obs.fingerprint = mix(self.obs.fingerprint, hash_str(&format!("{} {at} {answer:?}", r.key)));
            }
        }
        self.obs.nontrivial = self.obs.get("answers") > 3 && self.obs.get("executed") > 1;
        self.obs.sample = self.trace.tail(4);
        Ok(self.obs)
    }
}

const RULE: &str = "A case is one random run of 1-3 Tablet Cache actors and a Tablet Store actor: \
    concurrent puts (of unique values) and gets of a few keys, some with equal hashes, at random \
    batch sizes, while the host delays, reorders, repeats, rejects, fails and tampers and nodes \
    restart, then calm. Non-trivial: answers and several executed store requests. Distinct by \
    times and contents of all answers.";

fn plan(rng: &mut Rng) -> Plan {
    let mut f = Faults { delay: rng.below(6), ..Default::default() };
    let mut some = |p: u64, max: u64| if rng.pct(p) { rng.range(1, max) } else { 0 };
    f.load_fail = some(40, 25);
    f.store_fail = some(40, 25);
    f.reject = some(40, 25);
    f.duplicate = some(40, 30);
    f.tamper = some(25, 30);
    f.restart = some(25, 20);
    let batched = rng.pct(40);
    Plan {
        faults: f,
        nodes: rng.range(1, 3) as usize,
        steps: rng.range(20, 120),
        request_pct: rng.range(10, 60),
        max_requests: rng.range(6, 40) as usize,
        put_pct: rng.range(20, 80),
        resolve: if batched { rng.below(6) as u32 } else { rng.below(2) as u32 },
        process: if batched { rng.below(4) as u32 } else { rng.below(2) as u32 },
    }
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    let check = |property, must_observe| Check {
        property,
        quick_cases: 25_000,
        thorough_cases: 1_500_000,
        rule: RULE,
        assumptions: &[
            "all requests of a key are judged together, keys apart, as every request is about one key",
            "Tablet Store requests that fail at the host were not executed (C10)",
        ],
        must_observe,
    };
    match property.as_str() {
        "C09" => vcommon::run(check("C09", &["answers", "conflicts", "rejected_by_store", "restarts", "idle_checked", "malformed"]), |rng, trace| {
            let mut p = plan(rng);
            if rng.pct(30) {
                p.faults.ambiguous = rng.range(1, 20);
            }
            p.max_requests = rng.range(6, 80) as usize;
            run("C09", p, rng, trace)
        }),
        "C10" => vcommon::run(check("C10", &["answers", "conflicts", "key_histories", "restarts"]), |rng, trace| {
            let p = plan(rng);
            run("C10", p, rng, trace)
        }),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3)
        }
    }
}
