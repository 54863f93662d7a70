//! Real cache nodes over a real tablet store, with a host that fails, rejects, delays and repeats.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorEventContext};
use tcp_tablet_cache_service::{
    actor::TabletCacheActor,
    apps::tablet_cache::service::{tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg, *},
    store::SimpleKeyValueStore,
    transaction::{
        coordinator::DefaultTabletTransactionCoordinator,
        data::{
            BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletData, TabletDataCache,
            TabletDataCacheInMessage, TabletDataCacheOutMessage,
        },
        manager::DefaultTabletTransactionManager,
        metadata::DefaultTabletMetadataCache,
        result::ResultHandle,
    },
};
use tcp_tablet_store_service::{
    actor::{TabletConfigurator, TabletStoreActor},
    apps::tablet_store::service as ts,
};
use vcommon::{violation, Observed, Rng, Trace, Violation};

use crate::{
    alloc::{held, inside},
    Windows,
};

struct Context(Logger, Bytes);

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.0
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        self.1.clone()
    }
    fn leader(&self) -> bool {
        true
    }
}

fn context(config: Vec<u8>) -> Box<dyn ActorContext> {
    Box::new(Context(Logger::root(Discard, o!()), config.into()))
}

struct Fixed(Vec<u32>);

impl TabletConfigurator for Fixed {
    fn generate(&mut self, _count: u32) -> Vec<u32> {
        self.0.clone()
    }
}

type Cache = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;

/// The cache of tablets' contents keeps all it has seen, by its policy, so that an idle node's is
/// replaced by an empty one before what the node holds is measured.
#[derive(Clone)]
struct Replaceable {
    data: Rc<RefCell<DefaultTabletDataCache<Bytes>>>,
    config: Rc<RefCell<TabletDataCacheConfig>>,
    replaced: Rc<RefCell<u64>>,
}

impl Replaceable {
    fn new() -> Self {
        Replaceable { data: Rc::new(RefCell::new(Self::data(0))), config: Default::default(), replaced: Default::default() }
    }

    fn data(replaced: u64) -> DefaultTabletDataCache<Bytes> {
        DefaultTabletDataCache::create(
            (2 << 56) + (replaced << 40),
            Box::new(BytesTabletDataSerializer {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        )
    }

    fn replace(&self) {
        *self.replaced.borrow_mut() += 1;
        let mut data = Self::data(*self.replaced.borrow());
        data.init(Logger::root(Discard, o!()), self.config.borrow().clone());
        *self.data.borrow_mut() = data;
    }
}

impl TabletDataCache<Bytes> for Replaceable {
    fn init(&mut self, logger: Logger, config: TabletDataCacheConfig) {
        *self.config.borrow_mut() = config.clone();
        self.data.borrow_mut().init(logger, config);
    }
    fn make_progress(&mut self, instant: u64) {
        self.data.borrow_mut().make_progress(instant);
    }
    fn load_tablets(
        &mut self,
        metadata: &Vec<ts::TabletMetadata>,
    ) -> ResultHandle<Vec<(ts::TabletMetadata, TabletData<Bytes>)>, TabletDataStorageStatus> {
        self.data.borrow_mut().load_tablets(metadata)
    }
    fn store_tablets(&mut self, data: Vec<(&mut ts::TabletMetadata, Bytes)>) -> ResultHandle<(), TabletDataStorageStatus> {
        self.data.borrow_mut().store_tablets(data)
    }
    fn process_in_message(&mut self, in_message: TabletDataCacheInMessage) {
        self.data.borrow_mut().process_in_message(in_message);
    }
    fn take_out_messages(&mut self) -> Vec<TabletDataCacheOutMessage> {
        self.data.borrow_mut().take_out_messages()
    }
}

fn new_cache(config: Vec<u8>, data: Replaceable) -> Cache {
    inside(|| {
        let mut cache = TabletCacheActor::new(
            DefaultTabletTransactionManager::create(
                Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
                Box::new(DefaultTabletMetadataCache::create(3 << 56)),
                Box::new(data),
            ),
            SimpleKeyValueStore::create(),
        );
        cache.on_init(context(config)).expect("init");
        cache
    })
}

#[derive(Clone, Default, Debug)]
struct Faults {
    load: u64,
    store: u64,
    reject: u64,
    ambiguous: u64,
    duplicate: u64,
}

struct World {
    nodes: Vec<Cache>,
    store: TabletStoreActor<Fixed>,
    blobs: BTreeMap<String, Vec<u8>>,
    /// Messages on their way to nodes, or requests of theirs.
    net: Vec<(usize, Step)>,
    waiting: BTreeSet<(usize, u64)>,
    next: u64,
    applied: u64,
    faults: Faults,
    rng: Rng,
}

enum Step {
    In(u64, InMsg, Vec<u8>),
    Execute(u64, Vec<u8>),
}

impl World {
    fn feed(&mut self, node: usize, message: Option<(u64, InMsg, Vec<u8>)>, o: &mut Observed) -> Result<(), Violation> {
        let cache = &mut self.nodes[node];
        let out = inside(|| {
            let command = message.map(|(id, m, payload)| {
                ActorCommand::with_header_and_payload(id, &TabletCacheInMessage { in_msg: Some(m) }, Bytes::copy_from_slice(&payload))
            });
            cache.on_process_command(command)
        });
        let Ok(out) = out else { return violation("fails", "a cache node fails") };
        for command in out.commands {
            let id = command.correlation_id;
            match TabletCacheOutMessage::decode(command.header).ok().and_then(|m| m.out_msg) {
                Some(OutMsg::LoadTabletRequest(r)) => {
                    let blob = self.blobs.get(&r.blob_uri).filter(|_| !self.rng.pct(self.faults.load)).cloned();
                    let status = if blob.is_some() { TabletDataStorageStatus::Succeeded } else { TabletDataStorageStatus::Failed };
                    let reply = InMsg::LoadTabletResponse(LoadTabletResponse { status: status.into() });
                    self.reply(node, id, reply, blob.unwrap_or_default());
                }
                Some(OutMsg::StoreTabletRequest(r)) => {
                    let failed = self.rng.pct(self.faults.store);
                    if !failed {
                        self.blobs.insert(String::from(r.blob_uri.as_str()), command.payload.to_vec());
                    }
                    let status = if failed { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded };
                    self.reply(node, id, InMsg::StoreTabletResponse(StoreTabletResponse { status: status.into() }), vec![]);
                }
                Some(OutMsg::ExecuteTabletOpsRequest(_)) => self.net.push((node, Step::Execute(id, command.payload.to_vec()))),
                Some(OutMsg::PutKeyResponse(_) | OutMsg::GetKeyResponse(_)) => {
                    self.waiting.remove(&(node, id));
                    o.add("answers", 1);
                }
                None => return violation("fails", "a cache node sends a message that doesn't parse"),
            }
        }
        Ok(())
    }

    fn reply(&mut self, node: usize, id: u64, reply: InMsg, payload: Vec<u8>) {
        if self.rng.pct(self.faults.duplicate) {
            self.net.push((node, Step::In(id, reply.clone(), payload.clone())));
        }
        self.net.push((node, Step::In(id, reply, payload)));
    }

    fn execute(&mut self, payload: Vec<u8>, o: &mut Observed) -> Result<Vec<u8>, Violation> {
        self.applied += 1;
        let (store, applied) = (&mut self.store, self.applied);
        let answer = inside(|| {
            let request = ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 1 });
            let command = ActorCommand::with_header_and_payload(
                applied,
                &ts::TabletStoreInMessage { in_msg: Some(request) },
                Bytes::copy_from_slice(&payload),
            );
            let event = store.on_process_command(Some(command)).ok()?.event?;
            store.on_apply_event(ActorEventContext { index: applied, owned: true }, event).ok()?.commands.pop().map(|c| c.payload)
        });
        let Some(answer) = answer else { return violation("fails", "the store doesn't answer") };
        if ts::TabletsResponse::decode(answer.clone()).is_ok_and(|r| r.status == ts::TabletsRequestStatus::Failed as i32) {
            o.add("conflicts", 1);
        }
        Ok(answer.to_vec())
    }

    fn step(&mut self, o: &mut Observed) -> Result<(), Violation> {
        for node in 0..self.nodes.len() {
            self.feed(node, None, o)?;
        }
        let mut due = std::mem::take(&mut self.net);
        self.rng.shuffle(&mut due);
        for (node, step) in due {
            match step {
                Step::In(id, message, payload) => self.feed(node, Some((id, message, payload)), o)?,
                Step::Execute(id, payload) => {
                    let error = |status: ExecuteTabletOpsStatus| {
                        InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError { status: status.into(), ..Default::default() })
                    };
                    if self.rng.pct(self.faults.reject) {
                        self.reply(node, id, error(ExecuteTabletOpsStatus::Rejected), vec![]);
                        continue;
                    }
                    let answer = self.execute(payload, o)?;
                    if self.rng.pct(self.faults.ambiguous) {
                        self.reply(node, id, error(ExecuteTabletOpsStatus::RpcError), vec![]);
                    } else {
                        self.reply(node, id, InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}), answer);
                    }
                }
            }
        }
        Ok(())
    }

    fn ask(&mut self, node: usize, keys: u64, puts: u64, o: &mut Observed) -> Result<(), Violation> {
        self.next += 1;
        let id = self.next;
        let key = format!("key {}", self.rng.below(keys));
        let message = if self.rng.pct(puts) {
            InMsg::PutKeyRequest(PutKeyRequest { key, value: Bytes::copy_from_slice(&id.to_be_bytes()) })
        } else {
            InMsg::GetKeyRequest(GetKeyRequest { key })
        };
        self.waiting.insert((node, id));
        self.feed(node, Some((id, message, vec![])), o)
    }
}

pub fn case(rng: &mut Rng, trace: &mut Trace, o: &mut Observed) -> Result<(), Violation> {
    let before = held();
    let keys = rng.range(1, 12);
    let ids: BTreeSet<u32> = (0..rng.range(1, 6)).map(|_| rng.u32()).collect();
    let region = *rng.pick(&[u32::MAX, u32::MAX / 4, 1 << 31]);
    let config = TabletCacheConfig {
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: *rng.pick(&[0, 1000, 5000]) }),
            metadata_cache_config: Some(TabletMetadataCacheConfig {
                table_configs: vec![TableMetadataCacheConfig { table_name: "kv".into(), table_region_size: region }],
            }),
        }),
        store_config: Some(StoreConfig { table_name: "kv".into(), min_pending_before_resolve: 1, min_pending_before_process: 1 }),
    }
    .encode_to_vec();
    let count = ids.len() as u32;
    let store = inside(|| {
        let mut store = TabletStoreActor::new(Fixed(ids.iter().copied().collect()));
        let table = ts::TableConfig { table_name: "kv".into(), initial_tablet_count: count, ..Default::default() };
        store.on_init(context(ts::TabletStoreConfig { table_configs: vec![table] }.encode_to_vec())).expect("init");
        store
    });
    let nodes = rng.range(1, 3) as usize;
    let mut some = |p: u64| if rng.pct(50) { rng.below(p) } else { 0 };
    let faults = Faults { load: some(20), store: some(20), reject: some(20), ambiguous: some(20), duplicate: some(30) };
    let puts = rng.range(10, 90);
    trace.log(format!("cache: {nodes} nodes, {keys} keys, {count} tablets, {puts}% puts, {faults:?}"));
    let data: Vec<Replaceable> = (0..nodes).map(|_| inside(Replaceable::new)).collect();
    let mut w = World {
        nodes: data.iter().map(|data| new_cache(config.clone(), data.clone())).collect(),
        store,
        blobs: BTreeMap::new(),
        net: vec![],
        waiting: BTreeSet::new(),
        next: 0,
        applied: 0,
        faults: faults.clone(),
        rng: rng.fork(),
    };
    let work = 1000;
    let mut windows = Windows::new(work, 8);
    while windows.more() {
        w.faults = faults.clone();
        let until = w.next + work;
        while w.next < until {
            for node in 0..nodes {
                if w.waiting.len() < 20 {
                    w.ask(node, keys, puts, o)?;
                }
            }
            w.step(o)?;
        }
        // Until all is answered.
        w.faults = Faults::default();
        let mut rounds = 0;
        while !w.waiting.is_empty() || !w.net.is_empty() {
            w.step(o)?;
            rounds += 1;
            if rounds > 2000 {
                // Another property's concern.
                o.add("not_finished", 1);
                return Ok(());
            }
        }
        for _ in 0..5 {
            w.step(o)?;
        }
        data.iter().for_each(|data| inside(|| data.replace()));
        windows.add(held() - before, trace);
    }
    windows.judge("cache", o)
}

/// The cache of tablets' contents alone: loads of tablets it has, and loads and stores that fail.
pub fn contents(rng: &mut Rng, trace: &mut Trace, o: &mut Observed) -> Result<(), Violation> {
    let before = held();
    let mut cache = inside(|| {
        let mut cache = Replaceable::data(0);
        cache.init(Logger::root(Discard, o!()), TabletDataCacheConfig { tablet_cache_capacity: 1000 });
        cache
    });
    let cached = rng.range(1, 6) as u32;
    let (failing, stores, late) = (rng.below(60), rng.below(60), rng.range(1, 4));
    trace.log(format!("contents: {cached} tablets, {failing}% with failures, {stores}% stores, answers within {late}"));
    let metadata = |id: u32, uri: String| ts::TabletMetadata { tablet_id: id, tablet_version: 1, blob_uri: uri, ..Default::default() };
    let work = 1000;
    let mut windows = Windows::new(work, 8);
    let (mut next, mut instant) = (0u32, 0);
    let mut answers = vec![];
    let mut handles = vec![];
    let mut stored = vec![];
    while windows.more() {
        let until = next + work as u32;
        while next < until || !answers.is_empty() {
            if next < until {
                for _ in 0..rng.range(1, 3) {
                    next += 1;
                    if rng.pct(stores) {
                        let mut m = metadata(next, String::new());
                        let contents = Bytes::copy_from_slice(&next.to_be_bytes());
                        stored.push(inside(|| cache.store_tablets(vec![(&mut m, contents)])));
                        continue;
                    }
                    let mut wanted: Vec<_> = (0..rng.below(4)).map(|_| rng.below(cached as u64) as u32).map(|id| metadata(id, format!("{id}"))).collect();
                    if rng.pct(failing) {
                        wanted.push(metadata(next, format!("missing {}", next / 2)));
                    }
                    handles.push(inside(|| cache.load_tablets(&wanted)));
                }
            }
            instant += 1;
            let out = inside(|| {
                cache.make_progress(instant);
                cache.take_out_messages()
            });
            for message in out {
                answers.push((instant + rng.below(late), message));
            }
            let (due, later) = std::mem::take(&mut answers).into_iter().partition(|(at, _)| *at <= instant);
            answers = later;
            let due: Vec<(u64, TabletDataCacheOutMessage)> = due;
            for (_, message) in due {
                let status = |s: TabletDataStorageStatus| s.into();
                let answer = match message {
                    TabletDataCacheOutMessage::LoadRequest(id, r) if r.blob_uri.starts_with("missing") => {
                        let status = status(TabletDataStorageStatus::Failed);
                        TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status }, Bytes::new())
                    }
                    TabletDataCacheOutMessage::LoadRequest(id, _) => {
                        let status = status(TabletDataStorageStatus::Succeeded);
                        TabletDataCacheInMessage::LoadResponse(id, LoadTabletResponse { status }, Bytes::from_static(b"contents"))
                    }
                    TabletDataCacheOutMessage::StoreRequest(id, _, _) => {
                        let status = status(TabletDataStorageStatus::Failed);
                        TabletDataCacheInMessage::StoreResponse(id, StoreTabletResponse { status })
                    }
                };
                inside(|| cache.process_in_message(answer));
                o.add("contents_answered", 1);
            }
            handles.retain(|h| h.check_result().is_none());
            stored.retain(|h| h.check_result().is_none());
        }
        inside(|| (0..3).for_each(|_| cache.make_progress(instant)));
        handles.retain(|h| h.check_result().is_none());
        stored.retain(|h| h.check_result().is_none());
        if !handles.is_empty() || !stored.is_empty() {
            // Another property's concern.
            o.add("not_finished", 1);
            return Ok(());
        }
        windows.add(held() - before, trace);
    }
    windows.judge("contents", o)
}
