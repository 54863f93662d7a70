//! A Willow decryptor that generates more keys than it holds, and uses some of them.

use prost::{bytes::Bytes, Message};
use slog::{o, Discard, Logger};
use tcp_runtime::model::{Actor, ActorCommand, ActorContext, ActorEventContext};
use vcommon::{violation, Observed, Rng, Trace, Violation};
use willow_decryptor_service::actor::DecryptorActor;
use willow_stub::decryptor::*;

use crate::{
    alloc::{held, inside},
    Windows,
};

struct Context(Logger);

impl ActorContext for Context {
    fn logger(&self) -> &Logger {
        &self.0
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        Bytes::new()
    }
    fn leader(&self) -> bool {
        true
    }
}

fn ask(actor: &mut DecryptorActor, index: &mut u64, msg: decryptor_request::Msg, o: &mut Observed) -> Result<(), Violation> {
    *index += 1;
    let index = *index;
    let generate = matches!(msg, decryptor_request::Msg::GenerateKey(_));
    let answer = inside(|| {
        let header = DecryptorRequest { msg: Some(msg) }.encode_to_vec().into();
        let command = ActorCommand { correlation_id: index, header, payload: Bytes::new() };
        let mut outcome = actor.on_process_command(Some(command)).ok()?;
        if let Some(event) = outcome.event {
            // Others' events are applied without an answer.
            let owned = index % 5 > 0;
            outcome = actor
                .on_apply_event(ActorEventContext { index, owned }, event)
                .map(|o| tcp_runtime::model::CommandOutcome { commands: o.commands, event: None })
                .ok()?;
            if !owned {
                return Some(None);
            }
        }
        Some(Some(outcome.commands.pop()?.header))
    });
    let Some(answer) = answer else { return violation("fails", format!("request {index} fails")) };
    match answer.map(|a| DecryptorResponse::decode(a).ok().and_then(|r| r.msg)) {
        None => {}
        Some(Some(decryptor_response::Msg::Error(_))) => o.add("keys_refused", 1),
        Some(Some(_)) => o.add(if generate { "keys_generated" } else { "keys_decrypted" }, 1),
        Some(None) => return violation("fails", format!("request {index} isn't answered")),
    }
    Ok(())
}

pub fn case(rng: &mut Rng, trace: &mut Trace, o: &mut Observed) -> Result<(), Violation> {
    let before = held();
    let mut actor = inside(|| {
        let mut actor = DecryptorActor::new();
        actor.on_init(Box::new(Context(Logger::root(Discard, o!())))).expect("init");
        actor
    });
    let (mut index, mut keys) = (0, 0u64);
    let mut windows = Windows::new(1500, 10);
    let decrypt = rng.below(50);
    trace.log(format!("decryptor, {decrypt}% decryptions"));
    while windows.more() {
        for _ in 0..1500 {
            if rng.pct(decrypt) && keys > 0 {
                let key = keys - rng.below(keys.min(1500));
                let nonce = rng.bytes(8);
                let msg = decryptor_request::Msg::Decrypt(DecryptRequest {
                    decryption_request: [b"REQ-".to_vec(), nonce].concat(),
                    public_key: vec![],
                    key_id: key.to_be_bytes().to_vec(),
                });
                ask(&mut actor, &mut index, msg, o)?;
            }
            keys += 1;
            let msg = decryptor_request::Msg::GenerateKey(GenerateKeyRequest { key_id: keys.to_be_bytes().to_vec() });
            ask(&mut actor, &mut index, msg, o)?;
        }
        windows.add(held() - before, trace);
    }
    windows.judge("decryptor", o)
}
