//! The tablet data cache on its own: batches of loads and stores against a storage that
//! delays, reorders, fails, tampers and repeats.

use std::collections::{BTreeMap, HashMap, HashSet};

use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use slog::{o, Discard, Logger};
use tcp_tablet_cache_service::apps::tablet_cache::service::{
    LoadTabletResponse, StoreTabletResponse, TabletDataCacheConfig, TabletDataStorageStatus,
};
use tcp_tablet_cache_service::transaction::data::{
    DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletData, TabletDataCache,
    TabletDataCacheInMessage as In, TabletDataCacheOutMessage as Out, TabletDataSerializer,
};
use tcp_tablet_cache_service::transaction::result::ResultHandle;
use tcp_tablet_store_service::apps::tablet_store::service::TabletMetadata;
use vcommon::{ensure, Observed, Rng, Trace, Violation};

/// Contents differ from their serialized form, and some cannot be (de)serialized.
struct Serializer;

fn encode(value: &Bytes) -> Bytes {
    let mut data = b"ser:".to_vec();
    data.extend(value.iter().map(|b| b ^ 0x5a));
    data.into()
}

impl TabletDataSerializer<Bytes> for Serializer {
    fn serialize(&self, value: &Bytes) -> Result<Bytes, ()> {
        if value.starts_with(b"bad") {
            return Err(());
        }
        Ok(encode(value))
    }
    fn deserialize(&self, _table: &String, data: Bytes) -> Result<Bytes, ()> {
        if data.is_empty() {
            return Ok(Bytes::new());
        }
        let value: Vec<u8> = data.strip_prefix(b"ser:").ok_or(())?.iter().map(|b| b ^ 0x5a).collect();
        if value.starts_with(b"garbled") {
            return Err(());
        }
        Ok(value.into())
    }
    fn get_size(&self, value: &Bytes) -> usize {
        value.len()
    }
}

enum Handle {
    Load(ResultHandle<Vec<(TabletMetadata, TabletData<Bytes>)>, TabletDataStorageStatus>),
    Store(ResultHandle<(), TabletDataStorageStatus>),
}

struct Batch {
    handle: Handle,
    metadata: Vec<TabletMetadata>,
    /// Blobs it waits for, by uri.
    waits: HashSet<String>,
    /// A blob it waits for turned out bad.
    failed: bool,
    reported: Option<bool>,
    /// Result cannot be anything but failed, from the start.
    doomed: bool,
}

/// What the cache is entitled to hold of a blob.
#[derive(PartialEq, Clone, Copy, Debug)]
enum Blob {
    Loading,
    Storing,
    Cached,
}

fn metadata(tablet_id: u32, version: u32, value: &Bytes) -> TabletMetadata {
    let data = encode(value);
    let hash = Sha256::digest(&data).to_vec();
    TabletMetadata {
        tablet_id,
        tablet_version: version,
        blob_uri: format!("blob/{tablet_id}/{version}/{}", super::world::hex(&hash)),
        blob_size: data.len() as u32,
        blob_hash: hash.into(),
        ..Default::default()
    }
}

pub fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut obs = Observed::default();
    let mut cache = DefaultTabletDataCache::<Bytes>::create(
        rng.next() >> 8,
        Box::new(Serializer),
        Box::new(DefaultTabletDataCachePolicy::new()),
    );
    cache.init(
        Logger::root(Discard, o!()),
        TabletDataCacheConfig { tablet_cache_capacity: rng.below(1 << 20) },
    );
    let (fail, tamper, duplicate, delay) =
        (rng.below(35), rng.below(30), rng.below(30), rng.below(6));
    // Blobs that exist from the start.
    let mut storage: HashMap<String, Bytes> = HashMap::new();
    let mut values: HashMap<String, Bytes> = HashMap::new();
    let mut known: Vec<TabletMetadata> = Vec::new();
    for tablet in 0..1 + rng.usize(4) as u32 {
        // Never written.
        known.push(TabletMetadata { tablet_id: tablet, ..Default::default() });
        for version in 1..1 + rng.usize(3) as u32 {
            let value: Bytes = match rng.below(8) {
                0 => "garbled".into(),
                1 => "same".into(),
                _ => format!("t{tablet}v{version}").into(),
            };
            let m = metadata(tablet, version, &value);
            storage.insert(m.blob_uri.clone(), encode(&value));
            values.insert(m.blob_uri.clone(), value);
            known.push(m);
        }
    }
    let mut blobs: HashMap<String, Blob> = HashMap::new();
    let mut batches: Vec<Batch> = Vec::new();
    let mut net: Vec<(u64, In, Option<(String, bool)>)> = Vec::new();
    let mut counter = 0u64;
    let steps = rng.range(10, 60);
    let mut now = 0u64;
    loop {
        now += 1;
        let calm = now > steps;
        if calm && net.is_empty() && now > steps + 2 {
            break;
        }
        ensure!(now < steps + 300, "stuck", "responses keep coming");
        // Load and store batches.
        for _ in 0..if calm { 0 } else { rng.below(3) } {
            if rng.pct(60) {
                let n = if rng.pct(3) { 0 } else { 1 + rng.usize(4) };
                let request: Vec<TabletMetadata> = (0..n).map(|_| rng.pick(&known).clone()).collect();
                trace.log(format!("{now}: load {:?}", uris(&request)));
                let waits = request
                    .iter()
                    .map(|m| m.blob_uri.clone())
                    .filter(|u| !u.is_empty() && blobs.get(u) != Some(&Blob::Cached))
                    .collect::<HashSet<_>>();
                let handle = cache.load_tablets(&request);
                obs.add("load_batches", 1);
                batches.push(Batch {
                    handle: Handle::Load(handle),
                    metadata: request,
                    waits,
                    failed: false,
                    reported: None,
                    doomed: false,
                });
            } else {
                let n = if rng.pct(3) { 0 } else { 1 + rng.usize(3) };
                let mut request: Vec<(TabletMetadata, Bytes)> = Vec::new();
                for _ in 0..n {
                    let m = rng.pick(&known).clone();
                    if request.iter().any(|(o, _)| o.tablet_id == m.tablet_id) {
                        continue;
                    }
                    let value: Bytes = match rng.below(16) {
                        0 => "bad".into(),
                        1..=3 => "same".into(),
                        4 => Bytes::new(),
                        _ => {
                            counter += 1;
                            format!("new{counter}").into()
                        }
                    };
                    request.push((m, value));
                }
                let before = request.clone();
                let doomed = request.iter().any(|(_, v)| v.starts_with(b"bad"));
                let handle = cache
                    .store_tablets(request.iter_mut().map(|(m, v)| (m, v.clone())).collect());
                obs.add("store_batches", 1);
                trace.log(format!("{now}: store {request:?}"));
                let mut waits = HashSet::new();
                if !doomed {
                    for ((m, v), (old, _)) in request.iter().zip(&before) {
                        let data = encode(v);
                        ensure!(
                            m.tablet_id == old.tablet_id
                                && m.tablet_version == old.tablet_version + 1
                                && m.blob_size as usize == data.len()
                                && m.blob_hash.as_ref() == Sha256::digest(&data).as_slice()
                                && !m.blob_uri.is_empty(),
                            "store_metadata",
                            "storing {v:?} over {old:?} made {m:?}"
                        );
                        // A uri names one contents.
                        if let Some(other) = values.get(&m.blob_uri) {
                            ensure!(
                                other == v,
                                "uri_shared",
                                "{} names {other:?} and {v:?}",
                                m.blob_uri
                            );
                        }
                        values.insert(m.blob_uri.clone(), v.clone());
                        if blobs.get(&m.blob_uri) != Some(&Blob::Cached) {
                            waits.insert(m.blob_uri.clone());
                        }
                    }
                    known.extend(request.iter().map(|(m, _)| m.clone()));
                }
                batches.push(Batch {
                    handle: Handle::Store(handle),
                    metadata: request.into_iter().map(|(m, _)| m).collect(),
                    waits,
                    failed: doomed,
                    reported: None,
                    doomed,
                });
            }
        }
        // What the cache asks of the storage.
        for message in cache.take_out_messages() {
            let due = now + 1 + if calm { 0 } else { rng.below(delay + 1) };
            let (fail, tamper) = if calm { (0, 0) } else { (fail, tamper) };
            match message {
                Out::LoadRequest(c, r) => {
                    obs.add("loads", 1);
                    let uri = r.blob_uri.clone();
                    ensure!(
                        !blobs.contains_key(&uri),
                        "double_load",
                        "{uri:?} is requested although it is {:?}",
                        blobs[&uri]
                    );
                    ensure!(
                        batches.iter().any(|b| b.reported.is_none() && b.waits.contains(&uri)),
                        "foreign_load",
                        "{uri:?} is requested though nobody needs it"
                    );
                    blobs.insert(uri.clone(), Blob::Loading);
                    let mut data = storage.get(&uri).cloned();
                    let mut good = data.is_some();
                    if rng.pct(fail) {
                        obs.add("load_failures", 1);
                        data = None;
                        good = false;
                    } else if data.is_some() && rng.pct(tamper) {
                        let original = data.clone().unwrap_or_default();
                        let mut bad = original.to_vec();
                        match rng.below(4) {
                            0 => {
                                bad.pop();
                            }
                            1 => bad.push(rng.next() as u8),
                            2 => {
                                let all: BTreeMap<_, _> = storage.iter().collect();
                                let i = rng.usize(all.len());
                                bad = all.values().nth(i).map(|d| d.to_vec()).unwrap_or_default();
                            }
                            _ => {
                                let i = rng.usize(bad.len());
                                bad[i] ^= 1 << rng.below(8);
                            }
                        }
                        if bad != original {
                            obs.add("tampered_loads", 1);
                            good = false;
                        }
                        data = Some(bad.into());
                    }
                    if values.get(&uri).map_or(false, |v| v.starts_with(b"garbled")) {
                        good = false;
                    }
                    let status = if data.is_some() {
                        TabletDataStorageStatus::Succeeded
                    } else {
                        TabletDataStorageStatus::Failed
                    };
                    let message = In::LoadResponse(
                        c,
                        LoadTabletResponse { status: status.into() },
                        data.unwrap_or_default(),
                    );
                    net.push((due, message, Some((uri, good))));
                }
                Out::StoreRequest(c, r, data) => {
                    obs.add("stores", 1);
                    let uri = r.blob_uri.clone();
                    let expected = values.get(&uri).map(encode);
                    ensure!(
                        expected.as_ref() == Some(&data),
                        "store_contents",
                        "{uri:?} is stored as {data:?} instead of {expected:?}"
                    );
                    ensure!(
                        !blobs.contains_key(&uri),
                        "double_store",
                        "{uri:?} is stored although it is {:?}",
                        blobs[&uri]
                    );
                    blobs.insert(uri.clone(), Blob::Storing);
                    let good = !rng.pct(fail);
                    if good || rng.pct(50) {
                        storage.insert(uri.clone(), data);
                    }
                    if !good {
                        obs.add("store_failures", 1);
                    }
                    let status = if good {
                        TabletDataStorageStatus::Succeeded
                    } else {
                        TabletDataStorageStatus::Failed
                    };
                    let message =
                        In::StoreResponse(c, StoreTabletResponse { status: status.into() });
                    net.push((due, message, Some((uri, good))));
                }
            }
        }
        for b in &mut batches {
            judge(b, &values, &mut obs, trace, now)?;
        }
        // Answers.
        let mut due: Vec<_> = Vec::new();
        let mut later = Vec::new();
        for e in net {
            if e.0 <= now {
                due.push(e)
            } else {
                later.push(e)
            }
        }
        net = later;
        rng.shuffle(&mut due);
        let mut failed_uris = Vec::new();
        for (_, message, answer) in due {
            if let Some((uri, good)) = &answer {
                trace.log(format!("{now}: {uri:?} answered, good: {good}"));
                for b in &mut batches {
                    if b.reported.is_none() && b.waits.remove(uri) && !good {
                        b.failed = true;
                    }
                }
                if *good {
                    blobs.insert(uri.clone(), Blob::Cached);
                } else {
                    failed_uris.push(uri.clone());
                }
                if !calm && rng.pct(duplicate) {
                    obs.add("duplicated_responses", 1);
                    net.push((now + 1 + rng.below(5), message.clone(), None));
                }
            }
            cache.process_in_message(message);
        }
        if rng.pct(10) {
            // Nobody waits for this one.
            obs.add("unknown_responses", 1);
            let c = (1 << 60) + rng.below(100);
            cache.process_in_message(if rng.pct(50) {
                In::LoadResponse(c, LoadTabletResponse { status: 1 }, Bytes::from_static(b"ser:x"))
            } else {
                In::StoreResponse(c, StoreTabletResponse { status: 2 })
            });
        }
        cache.make_progress(now);
        // From here on what failed may be asked for again.
        for uri in failed_uris {
            blobs.remove(&uri);
        }
        for b in &mut batches {
            judge(b, &values, &mut obs, trace, now)?;
        }
    }
    for b in &batches {
        ensure!(
            b.reported.is_some(),
            "no_result",
            "batch {:?} has no result though everything was answered",
            uris(&b.metadata)
        );
    }
    obs.nontrivial = obs.get("batches_succeeded") > 0 && obs.get("batches_failed") > 0;
    obs.see(batches.iter().fold(0, |h, b| vcommon::mix(h, b.reported.unwrap_or(false) as u64 + 2)));
    obs.sample = format!(
        "data cache: {} batches over {} blobs, {} succeeded, {} failed",
        batches.len(),
        values.len(),
        obs.get("batches_succeeded"),
        obs.get("batches_failed")
    );
    Ok(obs)
}

fn uris(metadata: &[TabletMetadata]) -> Vec<String> {
    metadata.iter().map(|m| format!("{}:{}", m.tablet_id, m.blob_uri)).collect()
}

fn judge(
    batch: &mut Batch,
    values: &HashMap<String, Bytes>,
    obs: &mut Observed,
    trace: &mut Trace,
    now: u64,
) -> Result<(), Violation> {
    let ok = match &batch.handle {
        Handle::Load(handle) => match handle.check_result() {
            None => None,
            Some(Err(_)) => Some(false),
            Some(Ok(loaded)) => {
                let mut expected: Vec<(String, u32, u32, Bytes)> = batch
                    .metadata
                    .iter()
                    .map(|m| {
                        let value = values.get(&m.blob_uri).cloned().unwrap_or_default();
                        (m.blob_uri.clone(), m.tablet_id, m.tablet_version, value)
                    })
                    .collect();
                let mut got: Vec<(String, u32, u32, Bytes)> = loaded
                    .iter()
                    .map(|(m, d)| {
                        (m.blob_uri.clone(), m.tablet_id, m.tablet_version, (**d).clone())
                    })
                    .collect();
                expected.sort();
                got.sort();
                ensure!(got == expected, "load_result", "loaded {got:?} instead of {expected:?}");
                Some(true)
            }
        },
        Handle::Store(handle) => handle.check_result().map(|r| r.is_ok()),
    };
    match (batch.reported, ok) {
        (None, Some(ok)) => {
            trace.log(format!("{now}: batch {:?} reported {ok}", uris(&batch.metadata)));
            ensure!(
                !ok || (batch.waits.is_empty() && !batch.failed),
                "early_success",
                "batch {:?} succeeded, failed blobs: {}, missing: {:?}",
                uris(&batch.metadata),
                batch.failed,
                batch.waits
            );
            ensure!(
                ok || batch.failed,
                "false_failure",
                "batch {:?} failed though none of its blobs did",
                uris(&batch.metadata)
            );
            obs.add(if ok { "batches_succeeded" } else { "batches_failed" }, 1);
            batch.reported = Some(ok);
        }
        (Some(before), now) => {
            ensure!(now == Some(before), "result_changed", "result was {before}, now {now:?}");
        }
        (None, None) => {
            ensure!(!batch.doomed, "no_result", "batch that cannot be serialized has no result");
        }
    }
    Ok(())
}
