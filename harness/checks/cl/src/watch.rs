//! What is recorded about every replica of a cluster, and the monitors over it. Actors and the
//! consensus module report here while they run; the world reports what left each replica.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque},
    rc::Rc,
};

use prost::{bytes::Bytes, Message};
use raft::{
    eraftpb::{
        ConfChange, ConfState, Entry as RaftEntry, EntryType, MessageType, HardState, Message as RaftMessage, Snapshot,
    },
    Config, Error, SnapshotStatus, Storage,
};
use slog::Logger;
use tcp_proto::runtime::endpoint::{CheckClusterResponse, DeliverAppMessage, Entry};
use tcp_runtime::{
    consensus::{Raft, RaftLightReady, RaftReady, RaftSimple, RaftState},
    model::ActorCommand,
    storage::MemoryStorage,
};
use vcommon::mix;

pub type SharedRef = Rc<RefCell<Shared>>;

/// A violation together with the properties it violates.
pub struct Bad {
    pub of: &'static [&'static str],
    pub signature: &'static str,
    pub message: String,
}

#[derive(Clone, PartialEq)]
struct Committed {
    term: u64,
    kind: i32,
    data: Vec<u8>,
}

pub struct Op {
    pub proposer: u64,
    pub correlation: u64,
    pub contents: Bytes,
    /// Index it was committed at.
    pub index: Option<u64>,
    pub acknowledged: bool,
}

#[derive(Default)]
pub struct NodeView {
    pub inits: u64,
    pub shutdowns: u64,
    pub leader: bool,
    pub term: u64,
    vote: u64,
    pub commit: u64,
    /// The last index that raft gave to the driver, and what of it the actor is still to apply.
    pub given: u64,
    expected: VecDeque<(u64, Vec<u8>)>,
    expected_conf: VecDeque<(u64, Vec<u8>)>,
    expected_load: VecDeque<(u64, Vec<u8>)>,
    pub config: BTreeSet<u64>,
    /// Last event that reached the actor, and the actor's state since.
    pub last_event: u64,
    pub events: u64,
    /// Commands the actor gave out and that haven't left yet.
    pub outputs: VecDeque<DeliverAppMessage>,
    pub snapshot_index: u64,
    pub snapshot_size: u64,
    pub saved: Option<Bytes>,
    pub loads: u64,
    pub saves: u64,
    pub reported: Option<CheckClusterResponse>,
    pub impostor: bool,
    pub snapshot_failures: u64,
    pub stopped: bool,
    /// Callbacks of the actor so far, and the commands among them since somebody last took them.
    pub callbacks: u64,
    pub commands: Vec<Option<ActorCommand>>,
    /// Latest instant the host has mentioned.
    pub now: Option<u64>,
    /// Events an actor which isn't replicated handed out and wasn't told to apply yet.
    pub handed: VecDeque<(u64, Bytes)>,
    /// Callbacks until the actor fails.
    pub fails_in: Option<u64>,
    pub failed: bool,
    /// Uses of the consensus module.
    pub raft_uses: u64,
    /// Term of the last election it asked votes for.
    pub campaign: u64,
    /// Once it is in lameduck mode, the last term it may lead.
    pub lameduck: Option<u64>,
    /// The highest term it has led.
    pub led: u64,
}

#[derive(Default)]
pub struct Shared {
    pub bad: Vec<Bad>,
    commits: BTreeMap<u64, Committed>,
    pub nodes: BTreeMap<u64, NodeView>,
    pub ops: HashMap<u64, Op>,
    /// State after the event at an index: number of events and their hash.
    pub prefix: BTreeMap<u64, (u64, u64)>,
    /// Membership since an index.
    pub configs: BTreeMap<u64, BTreeSet<u64>>,
    /// Changes of membership that have been in someone's log, by index.
    pub proposed: BTreeMap<u64, Vec<ConfChange>>,
    /// Changes of membership that are in the log of a replica now.
    pub logs: BTreeMap<u64, BTreeSet<u64>>,
    pub leaders: BTreeMap<u64, u64>,
    pub snapshots: HashSet<u64>,
    /// How often changes were requested without being rejected, and the indices they were committed at.
    pub requested: BTreeMap<(bool, u64), u64>,
    pub changed: BTreeMap<(bool, u64), BTreeSet<u64>>,
    pub counters: BTreeMap<&'static str, u64>,
    /// Hashes of the messages a replica's raft sent, and how often they can still be taken.
    sent: HashMap<(u64, u64), HashMap<u64, u64>>,
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, data.len() as u64)
}

impl Shared {
    pub fn fail(&mut self, of: &'static [&'static str], signature: &'static str, message: impl Into<String>) {
        self.bad.push(Bad { of, signature, message: message.into() });
    }

    pub fn count(&mut self, what: &'static str) {
        *self.counters.entry(what).or_insert(0) += 1;
    }

    pub fn node(&mut self, id: u64) -> &mut NodeView {
        self.nodes.entry(id).or_default()
    }

    /// The membership in force at an index.
    pub fn config_at(&self, index: u64) -> BTreeSet<u64> {
        self.configs.range(..=index).next_back().map(|(_, c)| c.clone()).unwrap_or_default()
    }

    /// The actor of a replica is called, returns whether it is to fail.
    pub fn called(&mut self, id: u64) -> bool {
        let node = self.node(id);
        node.callbacks += 1;
        match node.fails_in {
            Some(0) => {
                node.fails_in = None;
                node.failed = true;
                true
            }
            Some(n) => {
                node.fails_in = Some(n - 1);
                false
            }
            None => {
                if node.failed {
                    self.fail(&["C31"], "callback-after-failure", format!("actor {id} is called after it failed"));
                }
                false
            }
        }
    }

    pub fn latest_config(&self) -> (u64, BTreeSet<u64>) {
        self.configs.iter().next_back().map(|(i, c)| (*i, c.clone())).unwrap_or_default()
    }

    /// Every membership that may be in force somewhere or come into force.
    pub fn possible_configs(&self, alive: &BTreeSet<u64>) -> Vec<BTreeSet<u64>> {
        let (index, mut base) = self.latest_config();
        let decided = self.commits.keys().next_back().copied().unwrap_or(0).max(index);
        for (_, entry) in self.commits.range(index + 1..) {
            if entry.kind != EntryType::EntryNormal as i32 {
                if let Ok(change) = ConfChange::decode(entry.data.as_slice()) {
                    apply_change(&mut base, &change);
                }
            }
        }
        let mut all = vec![base.clone()];
        let mut sum = base.clone();
        for changes in self.proposed.range(decided + 1..).map(|(_, c)| c) {
            for change in changes {
                let mut one = base.clone();
                apply_change(&mut one, change);
                apply_change(&mut sum, change);
                all.push(one);
                all.push(sum.clone());
            }
        }
        for id in alive {
            if let Some(node) = self.nodes.get(id) {
                if node.config.contains(id) {
                    all.push(node.config.clone());
                }
            }
        }
        all
    }

    /// Whether no member that is alive still counts on this replica, which was removed.
    pub fn dispensable(&self, id: u64, alive: &BTreeSet<u64>) -> bool {
        let (index, config) = self.latest_config();
        let decided = self.commits.keys().next_back().copied().unwrap_or(0).max(index);
        let adds = |i: &u64| self.proposed.get(i).is_some_and(|all| all.iter().any(|c| c.change_type == 0 && c.node_id == id));
        config.intersection(alive).all(|m| {
            self.nodes.get(m).is_some_and(|n| !n.config.contains(&id))
                && self.logs.get(m).is_none_or(|l| !l.range(decided + 1..).any(adds))
        })
    }

    /// Whether every member alive agrees on who is a member, and knows of no other change.
    pub fn no_change_ahead(&self, alive: &BTreeSet<u64>) -> bool {
        let (index, config) = self.latest_config();
        let decided = self.commits.keys().next_back().copied().unwrap_or(0).max(index);
        config.intersection(alive).all(|id| {
            self.nodes.get(id).is_some_and(|n| n.config == config)
                && self.logs.get(id).is_none_or(|l| l.range(decided + 1..).next().is_none())
        })
    }

    fn committed(&mut self, id: u64, entries: Vec<RaftEntry>) {
        for entry in entries {
            let kind = entry.entry_type;
            let this = Committed { term: entry.term, kind, data: entry.data.clone() };
            match self.commits.get(&entry.index) {
                Some(other) if *other != this => self.fail(
                    &["C18", "C23"],
                    "diverged",
                    format!("replica {id} commits another entry at index {} than others did (term {})", entry.index, entry.term),
                ),
                Some(_) => {}
                None => {
                    self.commits.insert(entry.index, this);
                    self.count("commits");
                }
            }
            let node = self.node(id);
            let given = node.given;
            node.given = entry.index;
            if entry.index != given + 1 {
                self.fail(&["C18"], "commit-gap", format!("replica {id} is given index {} after {given}", entry.index));
            }
            let node = self.node(id);
            if entry.data.is_empty() {
                continue;
            }
            if kind == EntryType::EntryNormal as i32 {
                node.expected.push_back((entry.index, entry.data));
            } else {
                node.expected_conf.push_back((entry.index, entry.data));
            }
        }
    }

    /// The host has put a replica into lameduck mode.
    pub fn lameduck(&mut self, id: u64) {
        let node = self.node(id);
        // An election it has started may go on.
        node.lameduck = node.lameduck.or(Some(node.campaign.max(node.term)));
        let leads = node.leader;
        self.count(if leads { "lameduck_leaders" } else { "lameduck_followers" });
    }

    fn sends<'a>(&mut self, id: u64, messages: impl Iterator<Item = &'a RaftMessage>) {
        for m in messages {
            let (kind, node) = (m.msg_type, self.node(id));
            let votes = kind == MessageType::MsgRequestVote as i32 || kind == MessageType::MsgRequestPreVote as i32;
            if votes {
                if node.lameduck.is_some_and(|last| m.term > last || kind == MessageType::MsgRequestPreVote as i32) {
                    self.fail(&["C36"], "lameduck-election", format!("replica {id} starts an election for term {} in lameduck mode", m.term));
                } else {
                    node.campaign = m.term;
                }
            } else if kind == MessageType::MsgHeartbeat as i32 && node.lameduck.is_some() {
                self.fail(&["C36"], "lameduck-heartbeat", format!("replica {id} sends a heartbeat in lameduck mode"));
            } else if node.lameduck.is_some() {
                let what = match m.msg_type {
                    t if t == MessageType::MsgRequestVoteResponse as i32 || t == MessageType::MsgRequestPreVoteResponse as i32 => "lameduck_votes",
                    t if t == MessageType::MsgAppendResponse as i32 => "lameduck_appends",
                    _ => "lameduck_messages",
                };
                self.count(what);
            }
            *self.sent.entry((id, m.to)).or_default().entry(hash_bytes(&m.encode_to_vec())).or_insert(0) += 1;
        }
    }

    /// Raft at a replica takes a message.
    fn takes(&mut self, id: u64, m: &RaftMessage) {
        if m.msg_type == MessageType::MsgSnapshot as i32 || self.node(m.from).impostor || self.node(id).impostor {
            return;
        }
        if m.to != id {
            self.fail(&["C23"], "not-for-it", format!("raft of replica {id} takes a message from {} to {}", m.from, m.to));
            return;
        }
        let left = self.sent.entry((m.from, id)).or_default().entry(hash_bytes(&m.encode_to_vec())).or_insert(0);
        if *left == 0 {
            self.fail(&["C23"], "never-sent", format!("raft of replica {id} takes a message that {} didn't send or it took already: {m:?}", m.from));
        } else {
            *left -= 1;
            self.count("raft_messages_matched");
        }
    }

    fn hard_state(&mut self, id: u64, hs: &HardState) {
        let node = self.node(id);
        let (term, vote, commit) = (node.term, node.vote, node.commit);
        node.term = hs.term;
        node.vote = hs.vote;
        node.commit = hs.commit;
        if hs.term < term {
            self.fail(&["C18", "C23"], "term-back", format!("replica {id} goes back from term {term} to {}", hs.term));
        } else if hs.term == term && vote != 0 && hs.vote != vote {
            self.fail(&["C18", "C23"], "two-votes", format!("replica {id} votes for {vote} and {} in term {term}", hs.vote));
        }
        if hs.commit < commit {
            self.fail(&["C18", "C23"], "commit-back", format!("replica {id} goes back from commit {commit} to {}", hs.commit));
        }
    }

    /// The actor of a replica is told of an event.
    pub fn applied(&mut self, id: u64, index: u64, owned: bool, correlation: u64, contents: &Bytes, op: Option<u64>) {
        self.count("applied");
        let node = self.node(id);
        node.events += 1;
        if node.impostor {
            self.fail(&["C23", "C24"], "impostor-event", format!("impostor {id} receives an event"));
        }
        if self.node(id).inits != 1 || self.node(id).shutdowns != 0 {
            self.fail(&["C20", "C31"], "event-outside-life", format!("replica {id}: event before it was initialized or after it was shut down"));
        }
        let expected = self.node(id).expected.pop_front();
        let Some((expected_index, data)) = expected else {
            return self.fail(&["C20"], "event-from-nowhere", format!("replica {id} applies an event at index {index} that raft didn't commit, or twice"));
        };
        let entry = Entry::decode(data.as_slice()).unwrap_or_default();
        let entry_id = entry.entry_id.unwrap_or_default();
        if index != expected_index || entry.entry_contents != *contents || entry_id.entry_id != correlation {
            self.fail(
                &["C18", "C20"],
                "other-event",
                format!("replica {id} applies index {index} correlation {correlation}, raft committed index {expected_index} correlation {}", entry_id.entry_id),
            );
        }
        if owned != (entry_id.replica_id == id) {
            self.fail(&["C20"], "owned", format!("replica {id}: event at index {index} proposed by {} has owned {owned}", entry_id.replica_id));
        }
        let last = self.node(id).last_event;
        if index <= last {
            self.fail(&["C18", "C20"], "order", format!("replica {id} applies index {index} after {last}"));
        }
        if let Some(op) = op {
            match self.ops.get_mut(&op) {
                None => self.fail(&["C20"], "invented", format!("replica {id} applies an event nobody proposed")),
                Some(o) => {
                    let (at, proposer) = (o.index, o.proposer);
                    let same = o.correlation == correlation && o.contents == *contents;
                    o.index = Some(index);
                    if !same {
                        self.fail(&["C20"], "altered", format!("replica {id}: event {op} at index {index} isn't as it was proposed"));
                    } else if owned != (proposer == id) {
                        self.fail(&["C20"], "owned", format!("replica {id}: event {op} proposed by {proposer} has owned {owned}"));
                    } else if at.is_some_and(|at| at != index) {
                        self.fail(&["C20"], "twice", format!("event {op} is applied at index {at:?} and at {index}"));
                    }
                }
            }
        }
        self.node(id).last_event = index;
    }

    /// The state of a replica's actor after the event at an index.
    pub fn state(&mut self, id: u64, index: u64, state: (u64, u64)) {
        match self.prefix.get(&index) {
            Some(other) if *other != state => self.fail(
                &["C18"],
                "state-diverged",
                format!("replica {id} has another state after index {index} than others had: {state:?}, {other:?}"),
            ),
            Some(_) => {}
            None => {
                self.prefix.insert(index, state);
            }
        }
    }

    pub fn saved(&mut self, id: u64, snapshot: &Bytes) {
        self.snapshots.insert(hash_bytes(snapshot));
        let node = self.node(id);
        node.saves += 1;
        node.saved = Some(snapshot.clone());
        if node.inits != 1 || node.shutdowns != 0 {
            self.fail(&["C31"], "save-outside-life", format!("replica {id}: snapshot is saved outside of the actor's life"));
        }
    }

    pub fn loaded(&mut self, id: u64, snapshot: &Bytes) {
        self.count("snapshots_loaded");
        let node = self.node(id);
        node.loads += 1;
        if node.impostor {
            self.fail(&["C23", "C24"], "impostor-snapshot", format!("impostor {id} receives a snapshot"));
        }
        let node = self.node(id);
        if node.inits != 1 || node.shutdowns != 0 {
            self.fail(&["C31"], "load-outside-life", format!("replica {id}: snapshot is loaded outside of the actor's life"));
        }
        match self.node(id).expected_load.pop_front() {
            None => self.fail(&["C18", "C29"], "load-from-nowhere", format!("replica {id} loads a snapshot raft didn't give")),
            Some((index, data)) => {
                if data != snapshot.as_ref() {
                    self.fail(&["C18", "C29"], "other-snapshot", format!("replica {id} loads another snapshot than raft gave at index {index}"));
                }
            }
        }
        if !self.snapshots.contains(&hash_bytes(snapshot)) {
            self.fail(&["C18", "C29"], "invented-snapshot", format!("replica {id} loads a snapshot no actor saved"));
        }
    }

    /// The actor of a replica hands commands to the driver.
    pub fn output(&mut self, id: u64, commands: &[ActorCommand]) {
        for c in commands {
            self.node(id).outputs.push_back(DeliverAppMessage {
                correlation_id: c.correlation_id,
                message_header: c.header.clone(),
                message_payload: c.payload.clone(),
            });
        }
    }
}

pub fn apply_change(config: &mut BTreeSet<u64>, change: &ConfChange) {
    match change.change_type {
        0 => {
            config.insert(change.node_id);
        }
        1 => {
            config.remove(&change.node_id);
        }
        _ => {}
    }
}

/// The consensus module, reporting what passes between it and the driver.
pub struct Watched {
    inner: RaftSimple<MemoryStorage>,
    id: u64,
    shared: SharedRef,
}

impl Watched {
    pub fn new(shared: SharedRef) -> Watched {
        Watched { inner: RaftSimple::new(), id: 0, shared }
    }
}

impl Raft for Watched {
    type S = MemoryStorage;

    fn initialized(&self) -> bool {
        self.inner.initialized()
    }

    fn leader(&self) -> bool {
        self.inner.leader()
    }

    fn state(&self) -> RaftState {
        let leader = self.inner.leader();
        let state = self.inner.state();
        let mut shared = self.shared.borrow_mut();
        let node = shared.node(self.id);
        node.leader = leader;
        if leader {
            node.led = state.leader_term;
            if node.lameduck.is_some_and(|last| state.leader_term > last) {
                let message = format!("replica {} in lameduck mode leads term {}", self.id, state.leader_term);
                shared.fail(&["C36"], "lameduck-leader", message);
            }
        }
        state
    }

    fn mut_store(&mut self) -> &mut MemoryStorage {
        self.inner.mut_store()
    }

    fn init(&mut self, replica_id: u64, config: &Config, snapshot: Bytes, leader: bool, store: MemoryStorage, logger: &Logger) -> Result<(), Error> {
        self.id = replica_id;
        self.shared.borrow_mut().node(replica_id).raft_uses += 1;
        {
            let mut shared = self.shared.borrow_mut();
            if leader {
                shared.configs.insert(1, BTreeSet::from([replica_id]));
                shared.prefix.insert(0, (0, 0));
                let node = shared.node(replica_id);
                node.given = 1;
                node.snapshot_index = 1;
                node.snapshot_size = snapshot.len() as u64;
                node.config = BTreeSet::from([replica_id]);
            }
            shared.node(replica_id).saved = None;
        }
        self.inner.init(replica_id, config, snapshot, leader, store, logger)
    }

    fn make_step(&mut self, message: RaftMessage) -> Result<(), Error> {
        self.shared.borrow_mut().node(self.id).raft_uses += 1;
        self.shared.borrow_mut().takes(self.id, &message);
        self.inner.make_step(message)
    }

    fn make_proposal(&mut self, proposal: Bytes) -> Result<(), Error> {
        let result = self.inner.make_proposal(proposal);
        self.shared.borrow_mut().node(self.id).raft_uses += 1;
        self.shared.borrow_mut().count(if result.is_ok() { "proposals" } else { "proposals_dropped" });
        result
    }

    fn make_config_change_proposal(&mut self, change: ConfChange) -> Result<(), Error> {
        self.shared.borrow_mut().node(self.id).raft_uses += 1;
        self.inner.make_config_change_proposal(change)
    }

    fn make_tick(&mut self) {
        self.shared.borrow_mut().node(self.id).raft_uses += 1;
        self.shared.borrow_mut().count("raft_ticks");
        self.inner.make_tick();
    }

    fn apply_config_change(&mut self, change: &ConfChange) -> Result<ConfState, Error> {
        let result = self.inner.apply_config_change(change);
        let id = self.id;
        let mut shared = self.shared.borrow_mut();
        let expected = shared.node(id).expected_conf.pop_front();
        match expected {
            None => shared.fail(&["C33"], "change-from-nowhere", format!("replica {id} applies a membership change raft didn't commit")),
            Some((index, data)) => {
                if ConfChange::decode(data.as_slice()).ok().as_ref() != Some(change) {
                    shared.fail(&["C33"], "other-change", format!("replica {id} applies another membership change than was committed at {index}"));
                }
                let what = (change.change_type == 0, change.node_id);
                let changed = shared.changed.entry(what).or_default();
                changed.insert(index);
                let times = changed.len() as u64;
                if shared.requested.get(&what).is_none_or(|n| times > *n) {
                    shared.fail(&["C33"], "unrequested", format!("replica {id} applies membership change {change:?} that nobody requested, was rejected or happened already"));
                }
                let mut config = shared.config_at(index - 1);
                apply_change(&mut config, change);
                if let Ok(state) = &result {
                    let now: BTreeSet<u64> = state.voters.iter().copied().collect();
                    if now != config {
                        shared.fail(&["C33"], "wrong-config", format!("replica {id} has membership {now:?} after index {index}, not {config:?}"));
                    }
                }
                shared.count("membership_changes");
                shared.node(id).config = config.clone();
                shared.configs.insert(index, config);
            }
        }
        drop(shared);
        result
    }

    fn has_ready(&self) -> bool {
        self.inner.has_ready()
    }

    fn get_ready(&mut self) -> RaftReady {
        // What was given out before has to be stored by now.
        let stored = self.inner.mut_store().initial_state().map(|s| s.hard_state);
        if let Ok(stored) = stored {
            let mut shared = self.shared.borrow_mut();
            let id = self.id;
            let (term, vote) = (shared.node(id).term, shared.node(id).vote);
            if stored.term < term || (stored.term == term && vote != 0 && stored.vote != vote) {
                shared.fail(&["C18", "C19"], "hard-state-lost", format!("replica {id} has term {term} and voted for {vote}, stored is {stored:?}"));
            }
        }
        let ready = self.inner.get_ready();
        let mut copy = ready.clone();
        let mut shared = self.shared.borrow_mut();
        let id = self.id;
        let sent: Vec<RaftMessage> = copy.take_messages().into_iter().chain(copy.take_persisted_messages()).collect();
        shared.sends(id, sent.iter());
        if let Some(hs) = copy.hard_state() {
            shared.hard_state(id, hs);
        }
        let snapshot: Snapshot = copy.take_snapshot();
        if !snapshot.is_empty() {
            let metadata = snapshot.metadata.clone().unwrap_or_default();
            let index = metadata.index;
            let config: BTreeSet<u64> = metadata.conf_state.unwrap_or_default().voters.into_iter().collect();
            let known = shared.config_at(index);
            if config != known {
                shared.fail(&["C29", "C33"], "snapshot-config", format!("snapshot at {index} for replica {id} has membership {config:?}, not {known:?}"));
            }
            let node = shared.node(id);
            let given = node.given;
            node.given = index;
            node.config = config;
            node.snapshot_index = index;
            node.snapshot_size = snapshot.data.len() as u64;
            node.expected.clear();
            node.expected_conf.clear();
            node.expected_load.push_back((index, snapshot.data));
            if index <= given {
                shared.fail(&["C18", "C29"], "snapshot-back", format!("replica {id} at {given} is set back to a snapshot at {index}"));
            }
        }
        for entry in copy.take_entries() {
            let log = shared.logs.entry(id).or_default();
            log.split_off(&entry.index);
            if entry.entry_type != EntryType::EntryNormal as i32 && !entry.data.is_empty() {
                log.insert(entry.index);
                if let Ok(change) = ConfChange::decode(entry.data.as_slice()) {
                    shared.proposed.entry(entry.index).or_default().push(change);
                }
            }
        }
        shared.committed(id, copy.take_committed_entries());
        drop(shared);
        ready
    }

    fn advance_ready(&mut self, ready: RaftReady) -> RaftLightReady {
        let light = self.inner.advance_ready(ready);
        let mut shared = self.shared.borrow_mut();
        shared.sends(self.id, light.clone().take_messages().iter());
        shared.committed(self.id, light.clone().take_committed_entries());
        drop(shared);
        light
    }

    fn advance_apply(&mut self) {
        self.inner.advance_apply()
    }

    fn report_snapshot(&mut self, replica_id: u64, status: SnapshotStatus) {
        let mut shared = self.shared.borrow_mut();
        if status == SnapshotStatus::Failure {
            shared.node(self.id).snapshot_failures += 1;
            shared.count("snapshots_failed");
        } else {
            shared.count("snapshots_sent");
        }
        drop(shared);
        self.inner.report_snapshot(replica_id, status)
    }
}

impl Shared {
    /// What has to be true of a replica whenever it returns to its host.
    pub fn settle_call(&mut self, id: u64, snapshot_count: u64) {
        let node = self.node(id);
        if node.stopped || node.impostor {
            return;
        }
        let (left, conf, load) = (node.expected.len(), node.expected_conf.len(), node.expected_load.len());
        if left > 0 {
            self.fail(&["C18", "C20"], "not-applied", format!("replica {id} leaves {left} committed events unapplied"));
        }
        if conf > 0 {
            self.fail(&["C33"], "change-not-applied", format!("replica {id} leaves {conf} committed membership changes unapplied"));
        }
        if load > 0 {
            self.fail(&["C18", "C29"], "not-loaded", format!("replica {id} doesn't load a snapshot it received"));
        }
        let outputs = self.node(id).outputs.len();
        if outputs > 0 {
            self.fail(&["C20"], "reply-lost", format!("replica {id} keeps {outputs} commands of its actor"));
        }
        let node = self.node(id);
        let loads = node.loads;
        if let Some(saved) = node.saved.take() {
            node.snapshot_index = node.given;
            node.snapshot_size = saved.len() as u64;
            self.count("snapshots_saved");
        }
        let _ = loads;
        let node = self.node(id);
        let (given, snapshot) = (node.given, node.snapshot_index);
        if given > snapshot.saturating_add(snapshot_count) && node.inits > 0 && node.shutdowns == 0 {
            self.fail(&["C29"], "log-grows", format!("replica {id} has applied {given}, its last snapshot is at {snapshot}, with a limit of {snapshot_count}"));
        }
    }
}
