use crate::time::Clock;
use anyhow::{anyhow, Result};
use oak_proto_rust::oak::attestation::v1::*;
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn sha(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_be_bytes());
        h.update(p);
    }
    h.finalize().to_vec()
}

pub trait Attester {
    fn extend(&mut self, encoded_event: &[u8]) -> Result<()>;
    fn quote(&self) -> Result<Evidence>;
}

pub trait Endorser {
    fn endorse(&self, evidence: Option<&Evidence>) -> Result<Endorsements>;
}

// ---- the simulated hardware root and the signature scheme ----

fn keys() -> &'static Mutex<HashMap<Vec<u8>, Vec<u8>>> {
    static KEYS: OnceLock<Mutex<HashMap<Vec<u8>, Vec<u8>>>> = OnceLock::new();
    KEYS.get_or_init(Default::default)
}

/// A signing key of the simulation: verification looks the secret of a public key up.
#[derive(Clone)]
pub struct SigningKey {
    secret: Vec<u8>,
}

impl SigningKey {
    pub fn from_secret(secret: &[u8]) -> Self {
        let k = Self { secret: secret.to_vec() };
        keys().lock().unwrap().insert(k.public(), k.secret.clone());
        k
    }
    pub fn public(&self) -> Vec<u8> {
        sha(&[b"public", &self.secret])
    }
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        sha(&[b"sign", &self.secret, data])
    }
}

pub fn verify_signature(public: &[u8], data: &[u8], signature: &[u8]) -> Result<()> {
    let secret = keys()
        .lock()
        .unwrap()
        .get(public)
        .cloned()
        .ok_or_else(|| anyhow!("unknown key"))?;
    if sha(&[b"sign", &secret, data]) == signature {
        Ok(())
    } else {
        Err(anyhow!("bad signature"))
    }
}

const HARDWARE: &[u8] = b"simulated hardware root";

/// Evidence as the simulated hardware issues it.
pub fn issue_evidence(measurement: &[u8], binding_key: &[u8]) -> Evidence {
    sign_evidence(Evidence {
        measurement: measurement.to_vec(),
        binding_key: binding_key.to_vec(),
        signing_key: binding_key.to_vec(),
        ..Default::default()
    })
}

fn hardware_signature(e: &Evidence) -> Vec<u8> {
    sha(&[
        HARDWARE,
        &e.measurement,
        &e.binding_key,
        &e.signing_key,
        &e.firmware,
        &e.kernel,
        &e.system,
        &[e.debug as u8],
    ])
}

/// Evidence of all layers, signed by the simulated hardware.
pub fn sign_evidence(mut evidence: Evidence) -> Evidence {
    evidence.hardware_signature = hardware_signature(&evidence);
    evidence
}

fn check_hardware(evidence: &Evidence) -> Result<()> {
    if evidence.hardware_signature == hardware_signature(evidence) {
        Ok(())
    } else {
        Err(anyhow!("evidence is not signed by the hardware"))
    }
}

fn check_kernel(value: &Option<KernelBinaryReferenceValue>, measurement: &[u8]) -> Result<()> {
    use kernel_binary_reference_value::Type;
    let value = value.as_ref().and_then(|v| v.r#type.as_ref()).map(|t| BinaryReferenceValue {
        r#type: Some(match t {
            Type::Skip(s) => binary_reference_value::Type::Skip(s.clone()),
            Type::Digests(d) => binary_reference_value::Type::Digests(d.clone()),
        }),
    });
    check_binary(&value, measurement)
}

fn check_binary(value: &Option<BinaryReferenceValue>, measurement: &[u8]) -> Result<()> {
    match value.as_ref().and_then(|v| v.r#type.as_ref()) {
        Some(binary_reference_value::Type::Skip(_)) => Ok(()),
        Some(binary_reference_value::Type::Digests(d)) => {
            if d.digests.iter().any(|x| x == measurement) {
                Ok(())
            } else {
                Err(anyhow!("measurement does not match the reference values"))
            }
        }
        None => Err(anyhow!("missing reference value")),
    }
}

// ---- verifiers ----

#[derive(Clone, Debug, Default)]
pub struct AttestationResults {}

pub trait AttestationVerifier: Send + Sync {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements)
        -> Result<AttestationResults>;
}

pub trait Policy: Send + Sync {
    fn check(&self, evidence: &Evidence) -> Result<()>;
}

macro_rules! policy {
    ($name:ident, $ref:ty, |$v:ident, $e:ident| $body:expr) => {
        pub struct $name {
            values: $ref,
        }
        impl $name {
            pub fn new(values: &$ref) -> Self {
                Self { values: values.clone() }
            }
        }
        impl Policy for $name {
            fn check(&self, $e: &Evidence) -> Result<()> {
                let $v = &self.values;
                $body
            }
        }
    };
}

policy!(KernelPolicy, KernelLayerReferenceValues, |v, e| check_kernel(&v.kernel, &e.kernel));
policy!(SystemPolicy, SystemLayerReferenceValues, |v, e| check_binary(&v.system_image, &e.system));
policy!(ContainerPolicy, ContainerLayerReferenceValues, |v, e| check_binary(
    &v.binary,
    &e.measurement
));
policy!(FirmwarePolicy, BinaryReferenceValue, |v, e| check_binary(&Some(v.clone()), &e.firmware));
policy!(AmdSevSnpPolicy, AmdSevReferenceValues, |v, e| if e.debug && !v.allow_debug {
    Err(anyhow!("debug is not allowed"))
} else {
    check_hardware(e)
});

pub struct InsecureAttestationVerifier {
    policies: Vec<Box<dyn Policy>>,
}

impl InsecureAttestationVerifier {
    pub fn new(_clock: Arc<dyn Clock>, policies: Vec<Box<dyn Policy>>) -> Self {
        Self { policies }
    }
}

impl AttestationVerifier for InsecureAttestationVerifier {
    fn verify(&self, evidence: &Evidence, _: &Endorsements) -> Result<AttestationResults> {
        for p in &self.policies {
            p.check(evidence)?;
        }
        Ok(AttestationResults {})
    }
}

pub struct AmdSevSnpDiceAttestationVerifier {
    platform: AmdSevSnpPolicy,
    firmware: Box<dyn Policy>,
    policies: Vec<Box<dyn Policy>>,
}

impl AmdSevSnpDiceAttestationVerifier {
    pub fn new(
        platform: AmdSevSnpPolicy,
        firmware: Box<dyn Policy>,
        policies: Vec<Box<dyn Policy>>,
        _clock: Arc<dyn Clock>,
    ) -> Self {
        Self { platform, firmware, policies }
    }
}

impl AttestationVerifier for AmdSevSnpDiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, _: &Endorsements) -> Result<AttestationResults> {
        self.platform.check(evidence)?;
        self.firmware.check(evidence)?;
        for p in &self.policies {
            p.check(evidence)?;
        }
        Ok(AttestationResults {})
    }
}

pub struct DiceAttestationVerifier {
    reference_values: ReferenceValues,
}

impl DiceAttestationVerifier {
    pub fn create(reference_values: ReferenceValues, _clock: Arc<dyn Clock>) -> Self {
        Self { reference_values }
    }
}

impl AttestationVerifier for DiceAttestationVerifier {
    fn verify(
        &self,
        evidence: &Evidence,
        endorsements: &Endorsements,
    ) -> Result<AttestationResults> {
        let Some(reference_values::Type::OakRestrictedKernel(values)) =
            self.reference_values.r#type.as_ref()
        else {
            return Err(anyhow!("unsupported reference values"));
        };
        let Some(endorsements::Type::OakRestrictedKernel(_)) = endorsements.r#type.as_ref() else {
            return Err(anyhow!("endorsements do not match the reference values"));
        };
        let root = values.root_layer.as_ref().ok_or_else(|| anyhow!("no root layer"))?;
        if root.insecure.is_none() && root.amd_sev.is_none() {
            return Err(anyhow!("no root layer reference value"));
        }
        check_hardware(evidence)?;
        let kernel = values.kernel_layer.as_ref().ok_or_else(|| anyhow!("no kernel layer"))?;
        check_kernel(&kernel.kernel, &evidence.kernel)?;
        let app = values
            .application_layer
            .as_ref()
            .ok_or_else(|| anyhow!("no application layer"))?;
        check_binary(&app.binary, &evidence.measurement)?;
        Ok(AttestationResults {})
    }
}

// ---- oak_restricted_kernel_sdk, oak_sdk_* ----

thread_local!(static NEXT_INSTANCE: std::cell::Cell<u64> = const { std::cell::Cell::new(1) });

#[derive(Clone)]
pub struct Instance {
    pub measurement: Vec<u8>,
    pub binding: SigningKey,
}

impl Instance {
    pub fn new(measurement: &[u8], secret: &[u8]) -> Self {
        Self { measurement: measurement.to_vec(), binding: SigningKey::from_secret(secret) }
    }
    fn mock() -> Self {
        Self::new(b"mock", b"mock binding key")
    }
}

pub struct InstanceAttester {
    instance: Instance,
}

impl InstanceAttester {
    pub fn create() -> Result<Self> {
        Ok(Self { instance: Instance::mock() })
    }
    pub fn of(instance: Instance) -> Self {
        Self { instance }
    }
}

impl Attester for InstanceAttester {
    fn extend(&mut self, _: &[u8]) -> Result<()> {
        Ok(())
    }
    fn quote(&self) -> Result<Evidence> {
        Ok(issue_evidence(&self.instance.measurement, &self.instance.binding.public()))
    }
}

pub struct StaticAttester {
    evidence: Evidence,
}

impl StaticAttester {
    pub fn new(evidence: Evidence) -> Self {
        Self { evidence }
    }
}

impl Attester for StaticAttester {
    fn extend(&mut self, _: &[u8]) -> Result<()> {
        Ok(())
    }
    fn quote(&self) -> Result<Evidence> {
        Ok(self.evidence.clone())
    }
}

pub trait Signer {
    fn sign(&self, message: &[u8]) -> Vec<u8>;
}

pub struct MockSigner {
    key: SigningKey,
}

impl MockSigner {
    pub fn create() -> Result<Self> {
        Ok(Self { key: Instance::mock().binding })
    }
}

impl Signer for MockSigner {
    fn sign(&self, message: &[u8]) -> Vec<u8> {
        self.key.sign(message)
    }
}
