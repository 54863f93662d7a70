//! The in-memory Raft storage against a model of a log with a snapshot.

use std::{
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
};

use prost::{bytes::Bytes, Message};
use raft::{
    eraftpb::{ConfState, Entry, HardState},
    Error as RaftError, GetEntriesContext, Storage, StorageError,
};
use tcp_runtime::{
    consensus::Store,
    storage::MemoryStorage,
    util::raft::{create_raft_snapshot, create_raft_snapshot_metadata},
};
use vcommon::{ensure, take_panic, violation, Observed, Rng, Trace, Violation};

pub const RULE: &str = "Each case runs up to 60 random operations (append, overwrite, hard state, snapshot created, \
received or requested, stale ones, misuse) on the real storage and compares every answer with a model afterwards; \
non-trivial if entries were appended and a snapshot was created or applied.";

struct Model {
    hard: HardState,
    index: u64,
    term: u64,
    conf: ConfState,
    data: Vec<u8>,
    /// Entries after the snapshot and any that were not discarded with it.
    entries: BTreeMap<u64, Entry>,
    first: u64,
    diff: u64,
    requests: BTreeMap<u64, u64>,
}

fn member(conf: &ConfState, peer: u64) -> bool {
    conf.voters.contains(&peer) || conf.learners.contains(&peer) || conf.voters_outgoing.contains(&peer)
}

impl Model {
    fn last(&self) -> u64 {
        self.entries.keys().next_back().copied().unwrap_or(0).max(self.index)
    }
    fn term(&self, index: u64) -> Option<u64> {
        if index == self.index {
            return Some(self.term);
        }
        self.entries.get(&index).map(|e| e.term)
    }
    fn set_snapshot(&mut self, index: u64, term: u64, conf: ConfState, data: Vec<u8>) {
        (self.index, self.term, self.conf, self.data) = (index, term, conf, data);
        let conf = self.conf.clone();
        self.requests.retain(|peer, request| !(index >= *request && member(&conf, *peer)));
    }
    fn should_snapshot(&self, applied: u64, conf: &ConfState) -> bool {
        self.index.saturating_add(self.diff) < applied
            || self.requests.iter().any(|(peer, request)| applied >= *request && member(conf, *peer))
    }
}

fn conf(rng: &mut Rng) -> ConfState {
    let mut conf = ConfState::default();
    for peer in 1..=5 {
        match rng.below(8) {
            0 => conf.learners.push(peer),
            1 => conf.voters_outgoing.push(peer),
            2..=4 => conf.voters.push(peer),
            _ => {}
        }
    }
    conf
}

fn is_store(e: &RaftError, what: StorageError) -> bool {
    matches!(e, RaftError::Store(s) if *s == what)
}

fn entries(rng: &mut Rng, from: u64, terms: &mut u64) -> Vec<Entry> {
    (0..rng.range(1, 6))
        .map(|i| {
            *terms += rng.pct(20) as u64;
            let n = *rng.pick(&[0, 1, 10, 60, 200]);
            Entry { index: from + i, term: *terms, data: rng.bytes(n).into(), ..Default::default() }
        })
        .collect()
}

/// Compares everything that can be asked with the model.
fn compare(s: &MemoryStorage, m: &mut Model, rng: &mut Rng, o: &mut Observed) -> Result<(), Violation> {
    let first = s.first_index().map_err(|e| Violation { signature: "first".into(), message: e.to_string() })?;
    let last = s.last_index().map_err(|e| Violation { signature: "last".into(), message: e.to_string() })?;
    ensure!(last == m.last(), "last-index", "last index is {last}, expected {}", m.last());
    ensure!(first >= m.first, "first-index", "first index went back from {} to {first}", m.first);
    ensure!(first <= m.index + 1, "first-index", "entries up to {first} are gone with a snapshot at {}", m.index);
    if first > m.first {
        m.first = first;
        m.entries = m.entries.split_off(&first);
    }
    let state = s.initial_state().map_err(|e| Violation { signature: "state".into(), message: e.to_string() })?;
    ensure!(state.hard_state == m.hard, "hard-state", "hard state is {:?}, expected {:?}", state.hard_state, m.hard);
    ensure!(state.conf_state == m.conf, "conf-state", "config is {:?}, expected {:?}", state.conf_state, m.conf);
    ensure!(s.latest_snapshot_size() == m.data.len() as u64, "snapshot-size", "{} != {}", s.latest_snapshot_size(), m.data.len());

    for index in m.first.saturating_sub(3)..=last + 2 {
        o.add("reads", 1);
        match (s.term(index), m.term(index)) {
            (Ok(a), Some(b)) => ensure!(a == b, "term", "term of {index} is {a}, expected {b}"),
            (Ok(a), None) => return violation("term", format!("term of {index} is {a}, but it is not there")),
            (Err(e), Some(b)) => return violation("term", format!("term of {index}: {e}, expected {b}")),
            (Err(e), None) => {
                let expected = if index > last { StorageError::Unavailable } else { StorageError::Compacted };
                ensure!(is_store(&e, expected), "term-error", "term of {index} (last {last}): {e}");
            }
        }
    }
    for _ in 0..4 {
        o.add("reads", 1);
        let low = rng.range(m.first.saturating_sub(2), last + 1);
        let high = rng.range(low, last + 1);
        if low == high {
            continue;
        }
        let all: Vec<&Entry> = (low..high).map_while(|i| m.entries.get(&i)).collect();
        let max = match rng.below(3) {
            0 => None,
            1 => Some(rng.below(500)),
            _ => Some(rng.below(3) * 70),
        };
        match s.entries(low, high, max, GetEntriesContext::empty(false)) {
            Ok(got) => {
                ensure!(low >= m.first, "entries-compacted", "entries from {low} given, first is {}", m.first);
                let mut size = 0;
                let mut n = 0;
                for e in &all {
                    size += e.encoded_len() as u64;
                    if n > 0 && max.is_some_and(|max| size > max) {
                        break;
                    }
                    n += 1;
                }
                ensure!(
                    got.iter().eq(all[..n].iter().copied()),
                    "entries",
                    "entries {low}..{high} of at most {max:?} bytes: got {:?}, expected {:?}",
                    got.iter().map(|e| (e.index, e.term)).collect::<Vec<_>>(),
                    all[..n].iter().map(|e| (e.index, e.term)).collect::<Vec<_>>()
                );
            }
            Err(e) => {
                let expected = low < m.first && (is_store(&e, StorageError::Compacted) || m.entries.is_empty());
                ensure!(expected, "entries-error", "entries {low}..{high} (first {}): {e}", m.first);
            }
        }
    }
    for _ in 0..3 {
        let applied = *rng.pick(&[m.index, m.index + m.diff.min(100), m.index + m.diff.min(100) + 1, m.index + 3, last]);
        let c = conf(rng);
        let (got, expected) = (s.should_snapshot(applied, &c), m.should_snapshot(applied, &c));
        ensure!(
            got == expected,
            "should-snapshot",
            "should snapshot at {applied}: {got}, last at {}, every {}, requested {:?}, members {:?}",
            m.index, m.diff, m.requests, c
        );
    }
    Ok(())
}

pub fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    let mut o = Observed::default();
    let diff = *rng.pick(&[0, 1, 3, 10, 1000, u64::MAX]);
    let mut s = MemoryStorage::new(super::logger(), diff);
    let mut m = Model {
        hard: HardState::default(),
        index: 0,
        term: 0,
        conf: ConfState::default(),
        data: vec![],
        entries: BTreeMap::new(),
        first: 1,
        diff,
        requests: BTreeMap::new(),
    };
    let mut term = 1;
    for _ in 0..rng.range(5, 60) {
        let op = rng.below(14);
        o.see(op);
        let n = *rng.pick(&[0, 1, 30]);
        match op {
            // Append, or overwrite what is after the snapshot.
            0..=5 => {
                let last = m.last();
                let from = if rng.pct(30) { rng.range((m.index + 1).max(m.first), last + 1) } else { last + 1 };
                let new = entries(rng, from, &mut term);
                trace.log(format!("append {from}..{} in term {term}, last {last}", from + new.len() as u64));
                if let Err(e) = s.append_entries(&new) {
                    return violation("append", format!("append failed: {e}"));
                }
                o.add(if from <= last { "overwritten" } else { "appended" }, 1);
                m.entries.split_off(&from);
                m.entries.extend(new.into_iter().map(|e| (e.index, e)));
                o.see(from);
            }
            6 => {
                let _ = s.append_entries(&[]);
            }
            7 => {
                m.hard.term = term;
                m.hard.vote = rng.below(4);
                m.hard.commit = rng.range(m.hard.commit, m.last().max(m.hard.commit));
                trace.log(format!("hard state {:?}", m.hard));
                s.set_hard_state(m.hard.clone());
            }
            // Snapshot of what has been applied, also stale.
            8 | 9 => {
                let applied = if rng.pct(15) { rng.below(m.index + 1) } else { rng.range(m.index, m.last()) };
                let (c, data) = (conf(rng), rng.bytes(n));
                let r = s.create_snapshot(applied, c.clone(), Bytes::from(data.clone()));
                trace.log(format!("create snapshot at {applied}: {}", r.is_ok()));
                if applied < m.first {
                    ensure!(
                        matches!(&r, Err(e) if is_store(e, StorageError::SnapshotOutOfDate)),
                        "outdated", "snapshot created at {applied}, first {}: {r:?}", m.first
                    );
                    o.add("outdated", 1);
                } else {
                    ensure!(r.is_ok(), "create", "snapshot at {applied}, first {}: {r:?}", m.first);
                    let t = m.term(applied).unwrap();
                    m.set_snapshot(applied, t, c, data);
                    o.add("snapshots_created", 1);
                    let first = s.first_index().unwrap();
                    ensure!(
                        first >= applied,
                        "not-compacted", "entries from {first} are kept with a snapshot at {applied}"
                    );
                }
            }
            // Snapshot received.
            10 => {
                let index = match rng.below(4) {
                    0 => rng.below(m.first),
                    1 => m.last() + rng.below(10),
                    _ => rng.range(m.hard.commit, m.last().max(m.hard.commit) + 3),
                };
                if index >= m.first && index < m.hard.commit {
                    continue;
                }
                let (c, data, t) = (conf(rng), rng.bytes(n), (term + rng.below(4)).saturating_sub(2).max(1));
                let r = s.apply_snapshot(create_raft_snapshot(
                    create_raft_snapshot_metadata(index, t, c.clone()),
                    Bytes::from(data.clone()),
                ));
                trace.log(format!("apply snapshot at {index} of term {t}: {}", r.is_ok()));
                if index < m.first {
                    ensure!(
                        matches!(&r, Err(e) if is_store(e, StorageError::SnapshotOutOfDate)),
                        "outdated", "snapshot applied at {index}, first {}: {r:?}", m.first
                    );
                    o.add("outdated", 1);
                } else {
                    ensure!(r.is_ok(), "apply", "snapshot at {index}, first {}: {r:?}", m.first);
                    m.entries.clear();
                    m.first = index + 1;
                    m.hard.commit = index;
                    m.hard.term = m.hard.term.max(t);
                    term = term.max(t);
                    m.set_snapshot(index, t, c, data);
                    o.add("snapshots_applied", 1);
                    let first = s.first_index().unwrap();
                    ensure!(first == index + 1, "first-index", "first index is {first} after a snapshot at {index}");
                }
            }
            // Snapshot requested by a peer.
            11 | 12 => {
                let peer = rng.range(1, 6);
                let request = *rng.pick(&[0, m.index, m.index + 1, m.index + 5, m.last()]);
                let r = s.snapshot(request, peer);
                trace.log(format!("snapshot from {request} for {peer}: {}", r.is_ok()));
                if m.index >= request && member(&m.conf, peer) {
                    let Ok(got) = r else {
                        return violation("request", format!("snapshot at {} refused: {r:?}", m.index));
                    };
                    let meta = got.metadata.clone().unwrap_or_default();
                    ensure!(
                        (meta.index, meta.term, meta.conf_state.as_ref(), &got.data[..])
                            == (m.index, m.term, Some(&m.conf), &m.data[..]),
                        "request", "wrong snapshot {meta:?} given"
                    );
                    o.add("requests_met", 1);
                } else {
                    ensure!(
                        matches!(&r, Err(e) if is_store(e, StorageError::SnapshotTemporarilyUnavailable)),
                        "request", "snapshot at {} from {request} for {peer}: {r:?}", m.index
                    );
                    m.requests.insert(peer, request);
                    o.add("requests_pending", 1);
                }
            }
            _ => {
                if rng.pct(10) {
                    // What the storage promises to refuse rather than to corrupt its log; such a
                    // panic ends the replica, and the case.
                    o.add("misuse", 1);
                    let (first, last) = (m.first, m.last());
                    let kind = rng.below(4);
                    let new = if kind == 0 { last + rng.range(2, 5) } else { rng.below(first) };
                    let new = entries(rng, new, &mut term);
                    let accepted = catch_unwind(AssertUnwindSafe(|| match kind {
                        0 | 1 => s.append_entries(&new).is_ok(),
                        2 => s.create_snapshot(last + 1, ConfState::default(), Bytes::new()).is_ok(),
                        _ => s.entries(last + 1, last + 3, None, GetEntriesContext::empty(false)).is_ok(),
                    }));
                    let _ = take_panic();
                    ensure!(
                        !accepted.unwrap_or(false),
                        "misuse", "misuse {kind} of a log {first}..={last} succeeded"
                    );
                    break;
                }
                continue;
            }
        }
        compare(&s, &mut m, rng, &mut o)?;
    }
    o.nontrivial = o.get("appended") > 0 && o.get("snapshots_created") + o.get("snapshots_applied") > 0;
    o.sample = trace.tail(6);
    Ok(o)
}
