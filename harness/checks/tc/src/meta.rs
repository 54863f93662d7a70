//! The tablet metadata cache on its own: what it answers is never older than what it knows,
//! and it asks the store only for what it doesn't know.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

use slog::{o, Discard, Logger};
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    TableMetadataCacheConfig, TabletMetadataCacheConfig,
};
use tcp_tablet_cache_service::transaction::{
    metadata::{
        DefaultTabletMetadataCache, TabletMetadataCache, TabletMetadataCacheInMessage as In,
        TabletMetadataCacheOutMessage as Out,
    },
    result::ResultHandle,
    TableQuery,
};
use tcp_tablet_store_service::apps::tablet_store::service::{
    tablet_op::Op, tablet_op_result::OpResult, *,
};
use vcommon::{ensure, Observed, Rng, Trace, Violation};

use crate::{
    model::{owner, Store},
    world::{edge_hash, region_size, tablet_ids},
};

type Mapping = Vec<(TableQuery, TabletMetadata)>;
/// A handler is only told the id.
type Seen = Vec<(TableQuery, u32, Option<TabletMetadata>)>;

struct Pending {
    queries: Vec<TableQuery>,
    handle: Option<ResultHandle<Mapping, TabletsRequestStatus>>,
    calls: Rc<RefCell<Vec<Seen>>>,
    floor: HashMap<(String, u32), u32>,
    judged: bool,
}

fn version_of(table: &str, tablet: u32, version: u32) -> TabletMetadata {
    TabletMetadata {
        tablet_id: tablet,
        tablet_version: version,
        blob_uri: format!("{table}/{tablet}/{version}"),
        blob_size: version,
        ..Default::default()
    }
}

pub fn run(property: &str, rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let fresh = property == "C05";
    let mut obs = Observed::default();
    let mut tables = Vec::new();
    let mut configs = Vec::new();
    let mut regions: HashMap<String, u32> = HashMap::new();
    for i in 0..1 + rng.usize(2) {
        let name = format!("table{i}");
        let region = region_size(rng);
        let ids = tablet_ids(rng, region, 8);
        trace.log(format!("{name}: region size {region}, tablets {ids:?}"));
        configs.push(TableMetadataCacheConfig {
            table_name: name.clone(),
            table_region_size: region,
        });
        regions.insert(name.clone(), region);
        tables.push((name, ids));
    }
    let mut store = Store::create(&tables);
    let names: Vec<String> = store.tables.keys().cloned().collect();
    for name in &names {
        for m in store.tables.get_mut(name).into_iter().flat_map(|t| t.values_mut()) {
            *m = version_of(name, m.tablet_id, rng.below(3) as u32);
        }
    }
    let mut cache = DefaultTabletMetadataCache::create(rng.next() >> 8);
    cache.init(
        Logger::root(Discard, o!()),
        TabletMetadataCacheConfig { table_configs: configs },
    );
    let (fail, duplicate, delay) = (rng.below(30), rng.below(30), rng.below(6));
    let update_pct = rng.below(60);
    // Newest version the cache was told, per tablet.
    let mut floor: HashMap<(String, u32), u32> = HashMap::new();
    let mut pending: Vec<Pending> = Vec::new();
    // Lists on their way, by region.
    let mut listing: BTreeMap<(String, u32), bool> = BTreeMap::new();
    // Regions that are known and have not been invalidated.
    let mut known: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut net: Vec<(u64, In, bool)> = Vec::new();
    let mut query_id = 0;
    let steps = rng.range(10, 60);
    let mut now = 0;
    loop {
        now += 1;
        let calm = now > steps;
        if calm && net.is_empty() && pending.iter().all(|p| p.judged) {
            break;
        }
        ensure!(
            now < steps + 100,
            "unresolved",
            "{} resolve requests have no result though every list was answered",
            pending.iter().filter(|p| !p.judged).count()
        );
        for _ in 0..if calm { 0 } else { rng.below(3) } {
            let mut queries = Vec::new();
            for _ in 0..1 + rng.usize(2) {
                let name = rng.pick(&names).clone();
                let ids: Vec<u32> = store.tables[&name].keys().copied().collect();
                let keys: Vec<u32> = (0..if rng.pct(3) { 0 } else { 1 + rng.usize(5) })
                    .map(|_| edge_hash(rng, regions[&name], &ids))
                    .collect();
                query_id += 1;
                queries.push(TableQuery::create(query_id, name, keys));
            }
            trace.log(format!("{now}: resolve {queries:?}"));
            obs.add("resolves", 1);
            let calls = Rc::new(RefCell::new(Vec::new()));
            let mut p = Pending {
                queries: queries.clone(),
                handle: None,
                calls: calls.clone(),
                floor: floor.clone(),
                judged: false,
            };
            if rng.pct(50) {
                p.handle = Some(cache.resolve_tablets(&queries));
            } else {
                cache.resolve_tablets_with_handler(
                    &queries,
                    Box::new(move |result| {
                        calls
                            .borrow_mut()
                            .push(result.into_iter().map(|(q, d)| (q, d.get_id(), None)).collect())
                    }),
                );
            }
            let local = queries.iter().all(|q| {
                q.get_key_hashes()
                    .iter()
                    .all(|k| known.contains(&(q.get_table_name().clone(), k / regions[q.get_table_name()])))
            });
            pending.push(p);
            let last = pending.len() - 1;
            judge(&mut pending[last], &store, &mut obs, trace, now)?;
            if local {
                obs.add("resolves_answered_from_cache", 1);
                ensure!(
                    !fresh || pending[last].judged,
                    "not_local",
                    "{queries:?} is not answered though all of it is known"
                );
            }
        }
        // Tablets change at the store. Sometimes this cache learns by itself.
        if !calm && rng.pct(update_pct) {
            let name = rng.pick(&names).clone();
            let ids: Vec<u32> = store.tables[&name].keys().copied().collect();
            let id = *rng.pick(&ids);
            if let Some(m) = store.tables.get_mut(&name).and_then(|t| t.get_mut(&id)) {
                *m = version_of(&name, id, m.tablet_version + 1);
            }
            obs.add("store_updates", 1);
        }
        if !calm && rng.pct(update_pct) {
            let name = rng.pick(&names).clone();
            let ids: Vec<u32> = store.tables[&name].keys().copied().collect();
            let id = *rng.pick(&ids);
            let current = store.tables[&name][&id].tablet_version;
            // Late news is possible.
            let version = current - rng.below(2.min(current as u64 + 1)) as u32;
            let conflict = rng.pct(50);
            trace.log(format!("{now}: learns {name}/{id} v{version}, conflict: {conflict}"));
            obs.add(if conflict { "conflicts" } else { "updates" }, 1);
            cache.update_tablet(name.clone(), version_of(&name, id, version), conflict);
            let f = floor.entry((name.clone(), id)).or_insert(0);
            *f = version.max(*f);
            if conflict {
                known.remove(&(name.clone(), id / regions[&name]));
                listing.remove(&(name.clone(), id / regions[&name]));
            }
        }
        cache.make_progress(now);
        for message in cache.take_out_messages() {
            let Out::ListRequest(c, ops) = message;
            obs.add("list_requests", 1);
            for op in &ops {
                let Some(Op::ListTablet(list)) = &op.op else {
                    return vcommon::violation("foreign_op", format!("{op:?} is not a list"));
                };
                let region = (op.table_name.clone(), list.key_hash_from / regions[&op.table_name]);
                ensure!(
                    !fresh || !listing.contains_key(&region),
                    "listed_twice",
                    "{region:?} is listed again while a list is under way"
                );
                ensure!(
                    !fresh || !known.contains(&region),
                    "known_listed",
                    "{region:?} is listed though it is known"
                );
                listing.insert(region, true);
            }
            let mut results = store.clone().execute(&TabletsRequest { tablet_ops: ops }).0.tablet_results;
            for r in &mut results {
                if !calm && rng.pct(fail) {
                    obs.add("list_failures", 1);
                    r.status = TabletOpStatus::Failed.into();
                    if let Some(OpResult::ListTablet(l)) = &mut r.op_result {
                        l.tablets.clear();
                    }
                }
            }
            let due = now + 1 + if calm { 0 } else { rng.below(delay + 1) };
            let message = In::ListResponse(c, results);
            if !calm && rng.pct(duplicate) {
                obs.add("duplicated_responses", 1);
                net.push((due + rng.below(5), message.clone(), true));
            }
            net.push((due, message, true));
        }
        let mut due = Vec::new();
        let mut later = Vec::new();
        for e in net {
            if e.0 <= now {
                due.push(e)
            } else {
                later.push(e)
            }
        }
        net = later;
        rng.shuffle(&mut due);
        for (_, message, _) in due {
            let In::ListResponse(_, results) = &message;
            for r in results {
                let Some(OpResult::ListTablet(l)) = &r.op_result else { continue };
                let region = (r.table_name.clone(), l.key_hash_from / regions[&r.table_name]);
                listing.remove(&region);
                if r.status == TabletOpStatus::Succeeded as i32 {
                    known.insert(region);
                    for m in &l.tablets {
                        let f = floor.entry((r.table_name.clone(), m.tablet_id)).or_insert(0);
                        *f = m.tablet_version.max(*f);
                    }
                } else {
                    known.remove(&region);
                }
            }
            cache.process_in_message(message);
        }
        for p in &mut pending {
            judge(p, &store, &mut obs, trace, now)?;
        }
    }
    obs.nontrivial = obs.get("tablets_resolved") > 2
        && (obs.get("conflicts") + obs.get("updates") + obs.get("list_failures") > 0);
    obs.see(vcommon::hash_str(&format!("{:?}{}", floor.values().collect::<Vec<_>>(), obs.get("keys_mapped"))));
    obs.sample = format!(
        "metadata cache: {} resolves, {} lists, {} conflicts, {} store updates",
        obs.get("resolves"),
        obs.get("list_requests"),
        obs.get("conflicts"),
        obs.get("store_updates")
    );
    Ok(obs)
}

fn judge(
    p: &mut Pending,
    store: &Store,
    obs: &mut Observed,
    trace: &mut Trace,
    now: u64,
) -> Result<(), Violation> {
    let result = match &p.handle {
        Some(handle) => match handle.check_result() {
            None => None,
            Some(Ok(r)) => {
                Some(r.into_iter().map(|(q, m)| (q, m.tablet_id, Some(m))).collect::<Seen>())
            }
            Some(Err(e)) => {
                return vcommon::violation("resolve_error", format!("{:?}: {e:?}", p.queries))
            }
        },
        None => {
            let calls = p.calls.borrow();
            ensure!(calls.len() <= 1, "resolve_twice", "{:?} was answered twice", p.queries);
            calls.first().cloned()
        }
    };
    let Some(result) = result else { return Ok(()) };
    if p.judged {
        return Ok(());
    }
    p.judged = true;
    trace.log(format!("{now}: {:?} resolved to {result:?}", p.queries));
    let mut left: BTreeSet<(String, u32)> = BTreeSet::new();
    for q in &p.queries {
        for k in q.get_key_hashes() {
            left.insert((q.get_table_name().clone(), *k));
        }
    }
    for (q, tablet, metadata) in &result {
        let table = q.get_table_name();
        obs.add("tablets_resolved", 1);
        ensure!(
            p.queries.iter().any(|o| o.get_id() == q.get_id() && o.get_table_name() == table),
            "foreign_query",
            "query id {} of {table} was not asked for",
            q.get_id()
        );
        for k in q.get_key_hashes() {
            obs.add("keys_mapped", 1);
            ensure!(
                left.remove(&(table.clone(), *k)),
                "key_repeated",
                "key hash {k} of query {} is mapped twice or was not asked for",
                q.get_id()
            );
            let right = store.tables.get(table).map(|t| owner(t, *k));
            ensure!(
                right == Some(*tablet),
                "wrong_tablet",
                "key hash {k} of {table} went to tablet {tablet}, not {right:?}"
            );
        }
        let Some(m) = metadata else { continue };
        let current = store.tables[table][&m.tablet_id].tablet_version;
        ensure!(
            m.tablet_version <= current
                && *m == version_of(table, m.tablet_id, m.tablet_version),
            "wrong_metadata",
            "{m:?} was never metadata of a tablet of {table}"
        );
        let floor = p.floor.get(&(table.clone(), m.tablet_id)).copied().unwrap_or(0);
        ensure!(
            m.tablet_version >= floor,
            "went_back",
            "{table}/{} resolved to version {}, version {floor} was known before",
            m.tablet_id,
            m.tablet_version
        );
    }
    ensure!(left.is_empty(), "key_lost", "not mapped: {left:?}");
    Ok(())
}
