use crate::attestation::*;
use crate::crypto::{Encryptor, OrderedCrypter, Payload};
use crate::det;
use anyhow::{anyhow, Result};
use oak_proto_rust::oak::attestation::v1::{EndorsedEvidence, Evidence};
use oak_proto_rust::oak::session::v1::*;
use prost::Message;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

// ---- session binding ----

pub trait SessionBinder {
    fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
}

pub struct SignatureBinder {
    signer: Box<dyn Signer>,
}

impl SessionBinder for SignatureBinder {
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.signer.sign(bound_data)
    }
}

#[derive(Default)]
pub struct SignatureBinderBuilder {
    signer: Option<Box<dyn Signer>>,
}

impl SignatureBinderBuilder {
    pub fn signer(mut self, signer: Box<dyn Signer>) -> Self {
        self.signer = Some(signer);
        self
    }
    pub fn build(self) -> core::result::Result<SignatureBinder, String> {
        Ok(SignatureBinder { signer: self.signer.ok_or("no signer".to_string())? })
    }
}

pub struct InstanceSessionBinder {
    key: SigningKey,
}

impl InstanceSessionBinder {
    pub fn create() -> Result<Self> {
        Ok(Self { key: SigningKey::from_secret(b"mock binding key") })
    }
    pub fn of(key: SigningKey) -> Self {
        Self { key }
    }
}

impl SessionBinder for InstanceSessionBinder {
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.key.sign(bound_data)
    }
}

pub struct ContainersSessionBinder {
    key: SigningKey,
}

impl ContainersSessionBinder {
    pub fn create(_channel: &crate::rpc::Channel) -> Self {
        Self { key: SigningKey::from_secret(b"mock binding key") }
    }
}

impl SessionBinder for ContainersSessionBinder {
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.key.sign(bound_data)
    }
}

pub trait KeyExtractor {
    fn extract_verifying_key(&self, evidence: &Evidence) -> Result<Vec<u8>>;
}

pub struct DefaultBindingKeyExtractor {}
pub struct DefaultSigningKeyExtractor {}

impl KeyExtractor for DefaultBindingKeyExtractor {
    fn extract_verifying_key(&self, evidence: &Evidence) -> Result<Vec<u8>> {
        Ok(evidence.binding_key.clone())
    }
}
impl KeyExtractor for DefaultSigningKeyExtractor {
    fn extract_verifying_key(&self, evidence: &Evidence) -> Result<Vec<u8>> {
        Ok(evidence.signing_key.clone())
    }
}

pub struct SignatureBindingVerifierProvider {
    extractor: Arc<dyn KeyExtractor>,
}

impl SignatureBindingVerifierProvider {
    pub fn new(extractor: Arc<dyn KeyExtractor>) -> Self {
        Self { extractor }
    }
}

// ---- assertions ----

pub trait BindableAssertionGenerator {
    fn assertion(&self) -> Result<Vec<u8>>;
    fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
}

/// Verifies the assertion of a peer; returns the key its binding must verify under.
pub trait BoundAssertionVerifier {
    fn verify(&self, assertion: &[u8]) -> Result<Vec<u8>>;
}

pub struct EndorsedEvidenceBindableAssertionGenerator {
    attester: Arc<dyn Attester>,
    endorser: Arc<dyn Endorser>,
    binder: Arc<dyn SessionBinder>,
}

impl EndorsedEvidenceBindableAssertionGenerator {
    pub fn new(
        attester: Arc<dyn Attester>,
        endorser: Arc<dyn Endorser>,
        binder: Arc<dyn SessionBinder>,
    ) -> Self {
        Self { attester, endorser, binder }
    }
}

impl BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {
    fn assertion(&self) -> Result<Vec<u8>> {
        let evidence = self.attester.quote()?;
        let endorsements = self.endorser.endorse(Some(&evidence))?;
        Ok(EndorsedEvidence { evidence: Some(evidence), endorsements: Some(endorsements) }
            .encode_to_vec())
    }
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.binder.bind(bound_data)
    }
}

pub struct EndorsedEvidenceBoundAssertionVerifier {
    verifier: Arc<dyn AttestationVerifier>,
    binding: Arc<SignatureBindingVerifierProvider>,
}

impl EndorsedEvidenceBoundAssertionVerifier {
    pub fn new(
        verifier: Arc<dyn AttestationVerifier>,
        binding: Arc<SignatureBindingVerifierProvider>,
    ) -> Self {
        Self { verifier, binding }
    }
}

impl BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier {
    fn verify(&self, assertion: &[u8]) -> Result<Vec<u8>> {
        let endorsed = EndorsedEvidence::decode(assertion)?;
        let evidence = endorsed.evidence.ok_or_else(|| anyhow!("no evidence"))?;
        let endorsements = endorsed.endorsements.ok_or_else(|| anyhow!("no endorsements"))?;
        self.verifier.verify(&evidence, &endorsements)?;
        self.binding.extractor.extract_verifying_key(&evidence)
    }
}

// ---- configuration ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AttestationType {
    Bidirectional,
    SelfUnidirectional,
    PeerUnidirectional,
    Unattested,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HandshakeType {
    NoiseKK,
    NoiseKN,
    NoiseNK,
    NoiseNN,
}

pub trait Aggregator {}
pub struct PassThrough {}
impl Aggregator for PassThrough {}

pub trait EncryptorProvider {
    fn provide_encryptor(
        &self,
        crypter: OrderedCrypter,
    ) -> core::result::Result<Box<dyn Encryptor>, anyhow::Error>;
}

pub struct SessionConfig {
    attestation: AttestationType,
    generators: BTreeMap<String, Box<dyn BindableAssertionGenerator>>,
    verifiers: BTreeMap<String, Box<dyn BoundAssertionVerifier>>,
    encryptors: Option<Box<dyn EncryptorProvider>>,
}

pub struct SessionConfigBuilder {
    config: SessionConfig,
}

impl SessionConfig {
    pub fn builder(attestation: AttestationType, _handshake: HandshakeType) -> SessionConfigBuilder {
        SessionConfigBuilder {
            config: SessionConfig {
                attestation,
                generators: BTreeMap::new(),
                verifiers: BTreeMap::new(),
                encryptors: None,
            },
        }
    }

    fn attests_self(&self) -> bool {
        matches!(
            self.attestation,
            AttestationType::Bidirectional | AttestationType::SelfUnidirectional
        )
    }

    fn attests_peer(&self) -> bool {
        matches!(
            self.attestation,
            AttestationType::Bidirectional | AttestationType::PeerUnidirectional
        )
    }

    fn assertions(&self) -> Result<BTreeMap<String, Assertion>> {
        let mut out = BTreeMap::new();
        if self.attests_self() {
            for (id, generator) in &self.generators {
                out.insert(id.clone(), Assertion { content: generator.assertion()? });
            }
        }
        Ok(out)
    }

    /// Verifies the assertions of the peer; the keys its bindings must verify under.
    fn verify(&self, assertions: &BTreeMap<String, Assertion>) -> Result<BTreeMap<String, Vec<u8>>> {
        let mut keys = BTreeMap::new();
        if self.attests_peer() {
            // PassThrough: exactly one assertion, and it has to pass.
            if self.verifiers.is_empty() {
                return Err(anyhow!("no verifier"));
            }
            for (id, verifier) in &self.verifiers {
                let assertion =
                    assertions.get(id).ok_or_else(|| anyhow!("no assertion of the peer"))?;
                keys.insert(id.clone(), verifier.verify(&assertion.content)?);
            }
        }
        Ok(keys)
    }

    fn bindings(&self, transcript: &[u8], role: &[u8]) -> BTreeMap<String, Vec<u8>> {
        let data = sha(&[b"binding", role, transcript]);
        let mut out = BTreeMap::new();
        if self.attests_self() {
            for (id, generator) in &self.generators {
                out.insert(id.clone(), generator.bind(&data));
            }
        }
        out
    }

    fn verify_bindings(
        &self,
        keys: &BTreeMap<String, Vec<u8>>,
        bindings: &BTreeMap<String, Vec<u8>>,
        transcript: &[u8],
        role: &[u8],
    ) -> Result<()> {
        let data = sha(&[b"binding", role, transcript]);
        for (id, key) in keys {
            let binding = bindings.get(id).ok_or_else(|| anyhow!("no binding of the peer"))?;
            verify_signature(key, &data, binding)?;
        }
        Ok(())
    }
}

impl SessionConfigBuilder {
    pub fn add_self_assertion_generator(
        mut self,
        id: String,
        generator: Box<dyn BindableAssertionGenerator>,
    ) -> Self {
        self.config.generators.insert(id, generator);
        self
    }
    pub fn add_peer_assertion_verifier(
        mut self,
        id: String,
        verifier: Box<dyn BoundAssertionVerifier>,
    ) -> Self {
        self.config.verifiers.insert(id, verifier);
        self
    }
    pub fn set_assertion_attestation_aggregator(self, _aggregator: Box<dyn Aggregator>) -> Self {
        self
    }
    pub fn set_encryption_provider(mut self, provider: Box<dyn EncryptorProvider>) -> Self {
        self.config.encryptors = Some(provider);
        self
    }
    pub fn build(self) -> SessionConfig {
        self.config
    }
}

// ---- the toy key exchange ----

const P: u128 = (1u128 << 61) - 1;

fn pow_mod(mut base: u128, mut exp: u64) -> u64 {
    let mut out = 1u128;
    base %= P;
    while exp > 0 {
        if exp & 1 == 1 {
            out = out * base % P;
        }
        base = base * base % P;
        exp >>= 1;
    }
    out as u64
}

struct Ephemeral {
    secret: u64,
}

impl Ephemeral {
    fn generate() -> Self {
        Self { secret: det::next() >> 4 | 1 }
    }
    fn public(&self) -> Vec<u8> {
        pow_mod(3, self.secret).to_be_bytes().to_vec()
    }
    fn agree(&self, peer: &[u8]) -> Result<Vec<u8>> {
        let peer = u64::from_be_bytes(peer.try_into().map_err(|_| anyhow!("bad key"))?);
        if peer <= 1 {
            return Err(anyhow!("bad key"));
        }
        Ok(pow_mod(peer as u128, self.secret).to_be_bytes().to_vec())
    }
}

fn key(shared: &[u8], transcript: &[u8], direction: &[u8]) -> [u8; 32] {
    sha(&[b"key", shared, transcript, direction]).try_into().unwrap()
}

// ---- sessions ----

pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> Result<Option<O>>;
    fn put_incoming_message(&mut self, incoming_message: I) -> Result<Option<()>>;
}

pub trait Session {
    fn is_open(&self) -> bool;
    fn write(&mut self, plaintext: PlaintextMessage) -> Result<()>;
    fn read(&mut self) -> Result<Option<PlaintextMessage>>;
}

struct Channel {
    encryptor: Option<Box<dyn Encryptor>>,
    outgoing: VecDeque<EncryptedMessage>,
    incoming: VecDeque<PlaintextMessage>,
}

impl Channel {
    fn new() -> Self {
        Self { encryptor: None, outgoing: VecDeque::new(), incoming: VecDeque::new() }
    }
    fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
        let encryptor = self.encryptor.as_mut().ok_or_else(|| anyhow!("session is not open"))?;
        let payload = encryptor.encrypt(Payload {
            message: plaintext.plaintext,
            nonce: None,
            aad: None,
        })?;
        self.outgoing.push_back(EncryptedMessage {
            ciphertext: payload.message,
            associated_data: payload.aad,
            nonce: payload.nonce,
        });
        Ok(())
    }
    fn receive(&mut self, message: EncryptedMessage) -> Result<Option<()>> {
        let encryptor = self.encryptor.as_mut().ok_or_else(|| anyhow!("session is not open"))?;
        let payload = encryptor.decrypt(Payload {
            message: message.ciphertext,
            nonce: message.nonce,
            aad: message.associated_data,
        })?;
        self.incoming.push_back(PlaintextMessage { plaintext: payload.message });
        Ok(Some(()))
    }
}

fn digest<M: Message>(m: &M) -> Vec<u8> {
    m.encode_to_vec()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Step {
    Attest,
    AwaitAttest,
    Handshake,
    AwaitHandshake,
    Bind,
    AwaitBind,
    Open,
    Failed,
}

pub struct ClientSession {
    config: SessionConfig,
    step: Step,
    transcript: Vec<u8>,
    peer_keys: BTreeMap<String, Vec<u8>>,
    ephemeral: Option<Ephemeral>,
    channel: Channel,
}

impl ClientSession {
    pub fn create(config: SessionConfig) -> Result<Self> {
        Ok(Self {
            config,
            step: Step::Attest,
            transcript: Vec::new(),
            peer_keys: BTreeMap::new(),
            ephemeral: None,
            channel: Channel::new(),
        })
    }

    fn step_in(&mut self, message: SessionResponse) -> Result<Option<()>> {
        match (self.step, message.response) {
            (Step::AwaitAttest, Some(session_response::Response::AttestResponse(r))) => {
                self.peer_keys = self.config.verify(&r.assertions)?;
                self.transcript = sha(&[&self.transcript, &digest(&r)]);
                self.step = Step::Handshake;
                Ok(Some(()))
            }
            (Step::AwaitHandshake, Some(session_response::Response::HandshakeResponse(r))) => {
                let shared = self.ephemeral.as_ref().unwrap().agree(&r.ephemeral_key)?;
                self.transcript = sha(&[&self.transcript, &r.ephemeral_key]);
                self.config.verify_bindings(
                    &self.peer_keys,
                    &r.bindings,
                    &self.transcript,
                    b"server",
                )?;
                let crypter = OrderedCrypter::new(
                    &key(&shared, &self.transcript, b"server"),
                    &key(&shared, &self.transcript, b"client"),
                );
                self.channel.encryptor =
                    Some(self.config.encryptors.as_ref().unwrap().provide_encryptor(crypter)?);
                self.step = Step::Bind;
                Ok(Some(()))
            }
            (Step::Open | Step::Bind, Some(session_response::Response::EncryptedMessage(m))) => {
                self.channel.receive(m)
            }
            (step, other) => Err(anyhow!("unexpected message {:?} in step {:?}", other, step)),
        }
    }
}

impl ProtocolEngine<SessionResponse, SessionRequest> for ClientSession {
    fn get_outgoing_message(&mut self) -> Result<Option<SessionRequest>> {
        let request = match self.step {
            Step::Attest => {
                let r = AttestRequest { assertions: self.config.assertions()? };
                self.transcript = sha(&[&digest(&r)]);
                self.step = Step::AwaitAttest;
                session_request::Request::AttestRequest(r)
            }
            Step::Handshake => {
                let e = Ephemeral::generate();
                let r = HandshakeRequest { ephemeral_key: e.public(), ..Default::default() };
                self.transcript = sha(&[&self.transcript, &r.ephemeral_key]);
                self.ephemeral = Some(e);
                self.step = Step::AwaitHandshake;
                session_request::Request::HandshakeRequest(r)
            }
            Step::Bind => {
                self.step = Step::Open;
                session_request::Request::HandshakeRequest(HandshakeRequest {
                    bindings: self.config.bindings(&self.transcript, b"client"),
                    ..Default::default()
                })
            }
            Step::Open => match self.channel.outgoing.pop_front() {
                Some(m) => session_request::Request::EncryptedMessage(m),
                None => return Ok(None),
            },
            _ => return Ok(None),
        };
        Ok(Some(SessionRequest { request: Some(request) }))
    }

    fn put_incoming_message(&mut self, message: SessionResponse) -> Result<Option<()>> {
        let was_open = matches!(self.step, Step::Open);
        let result = self.step_in(message);
        if result.is_err() && !was_open {
            self.step = Step::Failed;
        }
        result
    }
}

impl Session for ClientSession {
    fn is_open(&self) -> bool {
        self.step == Step::Open
    }
    fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
        if !self.is_open() {
            return Err(anyhow!("session is not open"));
        }
        self.channel.write(plaintext)
    }
    fn read(&mut self) -> Result<Option<PlaintextMessage>> {
        Ok(self.channel.incoming.pop_front())
    }
}

pub struct ServerSession {
    config: SessionConfig,
    step: Step,
    transcript: Vec<u8>,
    peer_keys: BTreeMap<String, Vec<u8>>,
    channel: Channel,
    reply: Option<session_response::Response>,
}

impl ServerSession {
    pub fn create(config: SessionConfig) -> Result<Self> {
        Ok(Self {
            config,
            step: Step::AwaitAttest,
            transcript: Vec::new(),
            peer_keys: BTreeMap::new(),
            channel: Channel::new(),
            reply: None,
        })
    }

    fn step_in(&mut self, message: SessionRequest) -> Result<Option<()>> {
        match (self.step, message.request) {
            (Step::AwaitAttest, Some(session_request::Request::AttestRequest(r))) => {
                self.peer_keys = self.config.verify(&r.assertions)?;
                let response = AttestResponse { assertions: self.config.assertions()? };
                self.transcript = sha(&[&sha(&[&digest(&r)]), &digest(&response)]);
                self.reply = Some(session_response::Response::AttestResponse(response));
                self.step = Step::AwaitHandshake;
                Ok(Some(()))
            }
            (Step::AwaitHandshake, Some(session_request::Request::HandshakeRequest(r))) => {
                let e = Ephemeral::generate();
                let shared = e.agree(&r.ephemeral_key)?;
                self.transcript = sha(&[&self.transcript, &r.ephemeral_key]);
                self.transcript = sha(&[&self.transcript, &e.public()]);
                let crypter = OrderedCrypter::new(
                    &key(&shared, &self.transcript, b"client"),
                    &key(&shared, &self.transcript, b"server"),
                );
                self.channel.encryptor =
                    Some(self.config.encryptors.as_ref().unwrap().provide_encryptor(crypter)?);
                self.reply =
                    Some(session_response::Response::HandshakeResponse(HandshakeResponse {
                        ephemeral_key: e.public(),
                        bindings: self.config.bindings(&self.transcript, b"server"),
                    }));
                self.step = Step::AwaitBind;
                Ok(Some(()))
            }
            (Step::AwaitBind, Some(session_request::Request::HandshakeRequest(r))) => {
                self.config.verify_bindings(
                    &self.peer_keys,
                    &r.bindings,
                    &self.transcript,
                    b"client",
                )?;
                self.step = Step::Open;
                Ok(Some(()))
            }
            (Step::Open, Some(session_request::Request::EncryptedMessage(m))) => {
                self.channel.receive(m)
            }
            (step, other) => Err(anyhow!("unexpected message {:?} in step {:?}", other, step)),
        }
    }
}

impl ProtocolEngine<SessionRequest, SessionResponse> for ServerSession {
    fn get_outgoing_message(&mut self) -> Result<Option<SessionResponse>> {
        let response = match self.reply.take() {
            Some(r) => r,
            None if self.step == Step::Open => match self.channel.outgoing.pop_front() {
                Some(m) => session_response::Response::EncryptedMessage(m),
                None => return Ok(None),
            },
            None => return Ok(None),
        };
        Ok(Some(SessionResponse { response: Some(response) }))
    }

    fn put_incoming_message(&mut self, message: SessionRequest) -> Result<Option<()>> {
        let was_open = self.step == Step::Open;
        let result = self.step_in(message);
        if result.is_err() && !was_open {
            self.step = Step::Failed;
        }
        result
    }
}

impl Session for ServerSession {
    fn is_open(&self) -> bool {
        self.step == Step::Open
    }
    fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
        if !self.is_open() {
            return Err(anyhow!("session is not open"));
        }
        self.channel.write(plaintext)
    }
    fn read(&mut self) -> Result<Option<PlaintextMessage>> {
        Ok(self.channel.incoming.pop_front())
    }
}
