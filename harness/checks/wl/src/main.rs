//! The real decryptor actor of Willow on several replicas that apply one log, through changes of
//! leader which lose what isn't committed.

use std::{
    cell::Cell,
    collections::{BTreeMap, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorEvent, ActorEventContext, CommandOutcome};
use vcommon::{ensure, mix, violation, Check, Observed, Rng, Trace, Violation};
use willow_decryptor_service::{
    actor::DecryptorActor,
    apps::willow::decryptor::service::{DecryptorSnapshot, SnapshotKeyPair},
};
use willow_stub::{decryptor::*, tag, Key, Parse};

/// As many key pairs as the actor holds.
const LIMIT: usize = 1000;

struct Context {
    logger: Logger,
    leader: Rc<Cell<bool>>,
}

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        Bytes::new()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

struct Replica {
    actor: DecryptorActor,
    leader: Rc<Cell<bool>>,
    applied: usize,
}

fn new_replica() -> Replica {
    let leader = Rc::new(Cell::new(false));
    let mut actor = DecryptorActor::new();
    let context = Context { logger: Logger::root(Discard, o!()), leader: leader.clone() };
    actor.on_init(Box::new(context)).expect("init");
    Replica { actor, leader, applied: 0 }
}

/// Share, secret and age of a key.
type Pair = (Bytes, Bytes, i32);
type State = BTreeMap<Vec<u8>, Pair>;

#[derive(Clone, Debug)]
enum Asked {
    Generate { key: Vec<u8> },
    /// What to decrypt, and with which key's share.
    Decrypt { key: Vec<u8>, request: Vec<u8>, share: Bytes },
}

#[derive(Clone)]
struct Entry {
    origin: usize,
    correlation: u64,
    asked: Asked,
    contents: Bytes,
    /// How many entries the proposer had applied.
    base: usize,
}

fn held(replica: &mut Replica) -> Result<State, Violation> {
    let snapshot = replica.actor.on_save_snapshot().ok().and_then(|s| DecryptorSnapshot::decode(s).ok());
    let Some(snapshot) = snapshot else { return violation("save", "a snapshot can't be saved") };
    let pairs = snapshot.key_pairs.len();
    let state: State = snapshot
        .key_pairs
        .into_iter()
        .map(|p| (p.key_id.to_vec(), (p.public_key_share, p.private_key_share, p.sequential_order)))
        .collect();
    ensure!(state.len() == pairs, "repeated-keys", "a snapshot has a key twice");
    Ok(state)
}

fn contains(haystack: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && haystack.windows(needle.len()).any(|w| w == needle)
}

/// The answer in a command, which has to be for this request and must not contain a secret.
fn answer(commands: &[ActorCommand], correlation: u64, state: &State, key: &[u8]) -> Result<decryptor_response::Msg, Violation> {
    ensure!(commands.len() == 1, "answers", "request {correlation} is answered {} times", commands.len());
    ensure!(
        commands[0].correlation_id == correlation,
        "swapped-answer",
        "request {correlation} is answered as {}",
        commands[0].correlation_id
    );
    if let Some((_, secret, _)) = state.get(key) {
        let bare = secret.strip_prefix(b"PRV").unwrap_or(secret);
        ensure!(!contains(&commands[0].header, bare), "secret-out", "the answer to {correlation} contains the private key");
        ensure!(!contains(&commands[0].payload, bare), "secret-out", "the answer to {correlation} contains the private key");
    }
    match DecryptorResponse::decode(commands[0].header.clone()).ok().and_then(|r| r.msg) {
        Some(msg) => Ok(msg),
        None => violation("no-answer", format!("the answer to {correlation} isn't one")),
    }
}

fn judge_key(msg: &decryptor_response::Msg, key: &[u8], share: &Bytes) -> Result<(), Violation> {
    let decryptor_response::Msg::GenerateKey(r) = msg else {
        return violation("no-key", format!("a request for key {key:?} gets {msg:?}"));
    };
    let got = Key::parse(&r.public_key);
    ensure!(
        got.as_ref().is_ok_and(|k| k.key_id == key && k.key_material == share.as_ref()),
        "wrong-key",
        "a request for key {key:?}, whose share is {share:?}, gets {got:?}"
    );
    Ok(())
}

fn error_code(msg: &decryptor_response::Msg) -> Option<i32> {
    match msg {
        decryptor_response::Msg::Error(status) => Some(status.code),
        _ => None,
    }
}

/// A request to decrypt and whether it is a proper one.
fn decryption_request(rng: &mut Rng) -> (Vec<u8>, bool) {
    let nonce = rng.bytes(8);
    match rng.below(16) {
        0 => (vec![], false),
        1 => (nonce, false),
        2 => ([b"REQp".to_vec(), nonce].concat(), false),
        3 => ([b"REQh".to_vec(), nonce].concat(), false),
        _ => ([b"REQ-".to_vec(), nonce].concat(), true),
    }
}

struct World {
    replicas: Vec<Replica>,
    log: Vec<Entry>,
    committed: usize,
    /// What replicas hold after so many entries.
    states: Vec<State>,
    /// How often a decryption with a key was handed out.
    used: HashMap<Vec<u8>, u64>,
    /// The entry that generated a key, counting from 1, and how many entries its proposer knew.
    born: HashMap<Vec<u8>, (usize, usize)>,
    leader: usize,
}

impl World {
    fn compare(&mut self, node: usize, obs: &mut Observed) -> Result<(), Violation> {
        let state = held(&mut self.replicas[node])?;
        let applied = self.replicas[node].applied;
        ensure!(state.len() <= LIMIT, "too-many", "node {node} holds {} keys", state.len());
        if let Some(known) = self.states.get(applied) {
            ensure!(state == *known, "diverged", "node {node} holds another state after {applied} entries than others do");
        }
        obs.add("states_compared", 1);
        Ok(())
    }

    /// One request to a node.
    fn request(&mut self, node: usize, correlation: u64, asked: Option<(bool, Vec<u8>, Vec<u8>, bool)>, header: Bytes, obs: &mut Observed) -> Result<(), Violation> {
        let state = self.states[self.replicas[node].applied].clone();
        let leader = self.replicas[node].leader.get();
        let r = &mut self.replicas[node];
        let command = ActorCommand { correlation_id: correlation, header, payload: Bytes::new() };
        let outcome = match catch_unwind(AssertUnwindSafe(|| r.actor.on_process_command(Some(command)))) {
            Ok(Ok(outcome)) => outcome,
            Ok(Err(e)) => return violation("fails", format!("request {correlation} ends the replica: {e:?}")),
            Err(payload) => {
                let (message, location) = vcommon::take_panic();
                if vcommon::is_harness_location(&location) {
                    std::panic::resume_unwind(payload);
                }
                return violation("panics", format!("request {correlation} makes the actor panic: {message} at {location}"));
            }
        };
        self.compare(node, obs)?;
        let none = vec![];
        let key = asked.as_ref().map(|a| &a.1).unwrap_or(&none);
        let CommandOutcome { commands, event } = outcome;
        let refused = |why: &str, code: Option<i32>| -> Result<(), Violation> {
            ensure!(event.is_none(), "replicated-refusal", "request {correlation} ({why}) is replicated");
            let msg = answer(&commands, correlation, &state, key)?;
            let got = error_code(&msg);
            ensure!(
                got.is_some_and(|g| g != 0 && code.is_none_or(|c| c == g)),
                "not-refused",
                "request {correlation} ({why}) is answered {msg:?}"
            );
            Ok(())
        };
        let Some((decrypt, key, request, valid)) = &asked else {
            obs.add("malformed", 1);
            return refused("malformed", None);
        };
        if !leader {
            obs.add("not_leader", 1);
            return refused("not leader", Some(9));
        }
        let asked = match (decrypt, state.get(key)) {
            (false, Some((share, _, _))) => {
                ensure!(event.is_none(), "replicated-again", "a request for a key that exists is replicated");
                obs.add("keys_found", 1);
                return judge_key(&answer(&commands, correlation, &state, key)?, key, share);
            }
            (false, None) => Asked::Generate { key: key.clone() },
            (true, None) => {
                obs.add("no_key", 1);
                return refused("no such key", Some(9));
            }
            (true, Some(_)) if !valid => {
                obs.add("bad_decryptions", 1);
                return refused("can't be decrypted", None);
            }
            (true, Some((share, _, _))) => Asked::Decrypt { key: key.clone(), request: request.clone(), share: share.clone() },
        };
        ensure!(commands.is_empty(), "early-answer", "request {correlation} is answered before it is replicated: {asked:?}");
        let Some(event) = event else { return violation("not-replicated", format!("request {correlation} isn't replicated")) };
        ensure!(event.correlation_id == correlation, "event-id", "the event of {correlation} has id {}", event.correlation_id);
        obs.add("proposed", 1);
        let base = self.replicas[node].applied;
        self.log.push(Entry { origin: node, correlation, asked, contents: event.contents, base });
        Ok(())
    }

    /// A node applies the next committed entry.
    fn apply(&mut self, node: usize, obs: &mut Observed) -> Result<(), Violation> {
        let i = self.replicas[node].applied;
        let entry = self.log[i].clone();
        let owned = entry.origin == node;
        let before = self.states[i].clone();
        let event = ActorEvent { correlation_id: entry.correlation, contents: entry.contents.clone() };
        let r = &mut self.replicas[node];
        let context = ActorEventContext { index: i as u64 + 1, owned };
        let outcome = match catch_unwind(AssertUnwindSafe(|| r.actor.on_apply_event(context, event))) {
            Ok(Ok(outcome)) => outcome,
            Ok(Err(e)) => return violation("fails", format!("entry {i} ends the replica: {e:?}")),
            Err(payload) => {
                let (message, location) = vcommon::take_panic();
                if vcommon::is_harness_location(&location) {
                    std::panic::resume_unwind(payload);
                }
                return violation("panics", format!("entry {i} makes the actor panic: {message} at {location}"));
            }
        };
        r.applied += 1;
        let after = held(r)?;
        self.compare(node, obs)?;
        obs.add("applied", 1);
        let first = self.states.len() == i + 1;
        if first {
            self.states.push(after.clone());
        }
        let correlation = entry.correlation;
        if !owned {
            ensure!(outcome.commands.is_empty(), "foreign-answer", "node {node} answers {correlation} of node {}", entry.origin);
        }
        match &entry.asked {
            Asked::Generate { key } => {
                let Some(pair) = after.get(key) else { return violation("key-missing", format!("key {key:?} isn't there once it was generated")) };
                if let Some(old) = before.get(key) {
                    ensure!(
                        after == before,
                        "key-replaced",
                        "key {key:?} with share {:?} is replaced by {:?} when it is generated twice at the same time",
                        old.0,
                        pair.0
                    );
                    if first {
                        obs.add("keys_generated_again", 1);
                    }
                } else if first {
                    self.born.insert(key.clone(), (i + 1, entry.base));
                    obs.add("keys_generated", 1);
                    let gone: Vec<_> = before.iter().filter(|(k, _)| !after.contains_key(*k)).collect();
                    let oldest = before.values().map(|p| p.2).min();
                    ensure!(
                        gone.len() == (before.len() >= LIMIT) as usize,
                        "keys-gone",
                        "{} keys of {} disappear when {key:?} is generated",
                        gone.len(),
                        before.len()
                    );
                    for (k, p) in gone {
                        obs.add("keys_evicted", 1);
                        ensure!(Some(p.2) == oldest, "evicted", "key {k:?} of age {} gives way, though {oldest:?} is older", p.2);
                        if let Some((_, base)) = self.born.get(k).copied() {
                            let older = after.keys().find(|o| *o != key && self.born.get(*o).copied().unwrap_or_default().0 <= base);
                            ensure!(
                                older.is_none(),
                                "evicted",
                                "key {k:?} gives way, though {older:?} was there before it was asked for"
                            );
                        }
                    }
                    ensure!(
                        before.iter().all(|(k, p)| after.get(k).is_none_or(|a| a == p)),
                        "others-changed",
                        "other keys change when {key:?} is generated"
                    );
                    let secret = pair.1.strip_prefix(b"PRV").unwrap_or_default();
                    let share = [&b"PUB"[..], &tag(secret, key)].concat();
                    ensure!(pair.0 == share, "mismatched", "the share of {key:?} isn't that of its private key");
                    ensure!(
                        before.values().all(|p| p.1 != pair.1) && !self.used.contains_key(share.as_slice()),
                        "not-fresh",
                        "the private key of {key:?} has been used before"
                    );
                    let youngest = before.values().map(|p| p.2).max().unwrap_or(0);
                    if pair.2 <= youngest {
                        obs.add("ages_overlap", 1);
                    }
                }
                if owned {
                    judge_key(&answer(&outcome.commands, correlation, &after, key)?, key, &pair.0)?;
                    obs.add("keys_answered", 1);
                }
            }
            Asked::Decrypt { key, request, share } => {
                let current = before.get(key).is_some_and(|p| p.0 == *share);
                if current {
                    ensure!(!after.contains_key(key), "not-erased", "key {key:?} is still there once it was used");
                    let mut rest = before.clone();
                    rest.remove(key);
                    ensure!(rest == after, "others-changed", "other keys change when {key:?} is used");
                } else {
                    ensure!(
                        before == after,
                        "lost-key",
                        "a decryption whose key {key:?} is gone changes the keys, {} to {}",
                        before.len(),
                        after.len()
                    );
                }
                if owned {
                    let msg = answer(&outcome.commands, correlation, &before, key)?;
                    if let decryptor_response::Msg::Decrypt(d) = &msg {
                        let used = self.used.entry(share.to_vec()).or_insert(0);
                        *used += 1;
                        ensure!(*used == 1, "used-twice", "key {key:?} has been used for {used} decryptions");
                        let should = [&b"DEC"[..], &share[3..], request.strip_prefix(b"REQ").unwrap_or_default()].concat();
                        ensure!(d.decryption_response == should, "wrong-decryption", "request {correlation} gets another decryption than its own");
                        ensure!(current, "stale-decryption", "key {key:?} is gone when {correlation} is answered with a decryption");
                        obs.add("decrypted", 1);
                    } else {
                        ensure!(!current && error_code(&msg) == Some(9), "no-decryption", "request {correlation} is answered {msg:?}");
                        obs.add("decryptions_late", 1);
                    }
                }
            }
        }
        Ok(())
    }
}

fn run(rng: &mut Rng, trace: &mut Trace) -> Result<Observed, Violation> {
    oak_stub::det::seed(rng.next());
    let mut obs = Observed::default();
    let mut w = World {
        replicas: (0..rng.range(1, 3)).map(|_| new_replica()).collect(),
        log: vec![],
        committed: 0,
        states: vec![State::new()],
        used: HashMap::new(),
        born: HashMap::new(),
        leader: 0,
    };
    let keys = rng.range(1, 4);
    let mut steps = rng.range(10, 150);
    let full = rng.pct(2);
    if full {
        // Nearly as many keys as fit.
        steps /= 3;
        let pairs = rng.range(LIMIT as u64 - 4, LIMIT as u64);
        let before = if rng.pct(50) { 0 } else { rng.range(1, 1 << 20) as i32 };
        // All of them may have been asked for before the first was there.
        let same = rng.pct(30);
        let snapshot = DecryptorSnapshot {
            key_pairs: (0..pairs)
                .map(|i| {
                    let key = format!("k{i}").into_bytes();
                    let secret = rng.bytes(16);
                    SnapshotKeyPair {
                        public_key_share: [&b"PUB"[..], &tag(&secret, &key)].concat().into(),
                        private_key_share: [&b"PRV"[..], &secret].concat().into(),
                        key_id: key.into(),
                        sequential_order: before + if same { 1 } else { ((i * 7) % pairs) as i32 + 1 },
                    }
                })
                .collect(),
        };
        for r in &mut w.replicas {
            ensure!(r.actor.on_load_snapshot(snapshot.encode_to_vec().into()).is_ok(), "load", "a snapshot can't be loaded");
        }
        w.states[0] = held(&mut w.replicas[0])?;
        ensure!(w.states[0].len() as u64 == pairs, "load", "{} of {pairs} keys were loaded", w.states[0].len());
    }
    w.replicas[0].leader.set(true);
    let mut correlation = 0;
    for _ in 0..steps {
        match rng.below(20) {
            0..=8 => {
                let node = if rng.pct(90) { w.leader } else { rng.usize(w.replicas.len()) };
                correlation += 1;
                if rng.pct(4) {
                    let header = match rng.below(3) {
                        0 => Bytes::new(),
                        1 => Bytes::from_static(&[0xff, 0xff]),
                        _ => { let n = rng.usize(8); rng.bytes(n).into() }
                    };
                    let parsed = DecryptorRequest::decode(header.clone());
                    if !parsed.is_ok_and(|r| r.msg.is_some()) {
                        trace.log(format!("node {node} gets {header:?}"));
                        w.request(node, correlation, None, header, &mut obs)?;
                    }
                    continue;
                }
                let key = match rng.below(20) {
                    0 => vec![],
                    1 => vec![0xff, 0, 0x80],
                    2 if full => format!("k{}", rng.below(LIMIT as u64)).into_bytes(),
                    3..=6 if full => format!("n{}", rng.below(20)).into_bytes(),
                    7..=9 if full => format!("a{}", rng.below(20)).into_bytes(),
                    _ => format!("key {}", rng.below(keys)).into_bytes(),
                };
                let decrypt = rng.pct(50);
                let (request, valid) = decryption_request(rng);
                let msg = if decrypt {
                    decryptor_request::Msg::Decrypt(DecryptRequest {
                        decryption_request: request.clone(),
                        public_key: vec![],
                        key_id: key.clone(),
                    })
                } else {
                    decryptor_request::Msg::GenerateKey(GenerateKeyRequest { key_id: key.clone() })
                };
                trace.log(format!("node {node} (leader {}) gets {correlation} {msg:?}", w.replicas[node].leader.get()));
                let header = DecryptorRequest { msg: Some(msg) }.encode_to_vec().into();
                if w.replicas[node].leader.get() && node != w.leader {
                    // It doesn't know that another one leads by now: what it proposes is lost.
                    let log = w.log.len();
                    w.request(node, correlation, Some((decrypt, key, request, valid)), header, &mut obs)?;
                    w.log.truncate(log);
                    continue;
                }
                w.request(node, correlation, Some((decrypt, key, request, valid)), header, &mut obs)?;
            }
            9..=11 => w.committed += rng.usize(w.log.len() - w.committed + 1),
            12..=17 => {
                let node = rng.usize(w.replicas.len());
                for _ in 0..rng.range(1, 4) {
                    if w.replicas[node].applied < w.committed {
                        trace.log(format!("node {node} applies {}", w.replicas[node].applied));
                        w.apply(node, &mut obs)?;
                    }
                }
            }
            18 => {
                // Another leader has what is committed, and maybe more.
                let knows = rng.pct(70);
                w.replicas[w.leader].leader.set(!knows);
                w.leader = rng.usize(w.replicas.len());
                w.replicas[w.leader].leader.set(true);
                let keep = w.committed + rng.usize(w.log.len() - w.committed + 1);
                w.log.truncate(keep);
                trace.log(format!("node {} leads, the log has {keep} entries", w.leader));
                obs.add("leader_changes", 1);
            }
            _ => {
                let (from, to) = (rng.usize(w.replicas.len()), rng.usize(w.replicas.len()));
                if from == to || w.replicas[from].applied < w.replicas[to].applied {
                    continue;
                }
                let Ok(snapshot) = w.replicas[from].actor.on_save_snapshot() else {
                    return violation("save", "a snapshot can't be saved");
                };
                let applied = w.replicas[from].applied;
                if rng.pct(50) {
                    let leads = w.replicas[to].leader.get();
                    w.replicas[to] = new_replica();
                    w.replicas[to].leader.set(leads);
                }
                trace.log(format!("node {to} loads the snapshot of node {from} at {applied}"));
                let loaded = w.replicas[to].actor.on_load_snapshot(snapshot);
                ensure!(loaded.is_ok(), "load", "a snapshot can't be loaded: {loaded:?}");
                w.replicas[to].applied = applied;
                obs.add("snapshots", 1);
                w.compare(to, &mut obs)?;
            }
        }
    }
    for node in 0..w.replicas.len() {
        while w.replicas[node].applied < w.committed {
            w.apply(node, &mut obs)?;
        }
        let none = w.replicas[node].actor.on_process_command(None);
        ensure!(matches!(&none, Ok(o) if o.commands.is_empty() && o.event.is_none()), "tick", "a tick has an outcome: {none:?}");
    }
    obs.fingerprint = w.states.iter().fold(w.log.len() as u64, |h, s| mix(h, s.len() as u64));
    obs.fingerprint = mix(obs.fingerprint, obs.get("decrypted") * 1000 + obs.get("keys_answered"));
    obs.nontrivial = obs.get("decrypted") > 0 && obs.get("keys_answered") > 1;
    obs.sample = trace.tail(3);
    Ok(obs)
}

fn main() {
    let property = std::env::args().nth(1).unwrap_or_default();
    if property != "C35" {
        eprintln!("unknown property {property}");
        std::process::exit(3)
    }
    vcommon::run(
        Check {
            property: "C35",
            quick_cases: 100_000,
            thorough_cases: 3_000_000,
            rule: "A case is one random sequence of requests (for a few keys at once, repeated, malformed) to 1-3 decryptor replicas \
that apply one log at their own pace, change leaders, lose uncommitted entries and take over each other's snapshots; 2% start \
with nearly as many keys as fit. Non-trivial: keys were handed out and one was used. Distinct by the numbers of keys held.",
            assumptions: &[
                "replicas apply the same events in the same order (checked apart for the runtime)",
                "the encryption scheme is simulated: shares and decryptions name the private key they come from",
            ],
            must_observe: &[
                "keys_generated", "keys_generated_again", "keys_found", "keys_answered", "keys_evicted", "decrypted", "decryptions_late",
                "bad_decryptions", "no_key", "not_leader", "malformed", "snapshots", "leader_changes", "states_compared",
            ],
        },
        run,
    )
}
