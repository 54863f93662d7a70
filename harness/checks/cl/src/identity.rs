//! Who replicas are, and what they demand of each other.

use anyhow::Result as AnyResult;
use oak_proto_rust::oak::attestation::v1::{
    binary_reference_value, endorsements, kernel_binary_reference_value, reference_values, *,
};
use oak_stub::attestation::{sign_evidence, Attester, SigningKey, StaticAttester};
use oak_stub::session::{InstanceSessionBinder, SessionBinder};
use tcp_runtime::{
    communication::DefaultCommunicationModule,
    handshake::DefaultHandshakeSessionProvider,
    session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory},
    snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender},
};

struct Factory {
    evidence: Evidence,
    key: SigningKey,
}

impl OakAttesterFactory for Factory {
    fn get(&self) -> AnyResult<Box<dyn Attester>> {
        Ok(Box::new(StaticAttester::new(self.evidence.clone())))
    }
}

impl OakSessionBinderFactory for Factory {
    fn get(&self) -> AnyResult<Box<dyn SessionBinder>> {
        Ok(Box::new(InstanceSessionBinder::of(self.key.clone())))
    }
}

fn digest(value: &[u8]) -> Option<BinaryReferenceValue> {
    Some(BinaryReferenceValue {
        r#type: Some(binary_reference_value::Type::Digests(Digests { digests: vec![value.to_vec()] })),
    })
}

/// What every honest replica demands of the others.
pub fn reference() -> ReferenceValues {
    ReferenceValues {
        r#type: Some(reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
            root_layer: Some(RootLayerReferenceValues {
                amd_sev: Some(AmdSevReferenceValues { allow_debug: false, stage0: digest(b"firmware") }),
                insecure: None,
            }),
            kernel_layer: Some(KernelLayerReferenceValues {
                kernel: Some(KernelBinaryReferenceValue {
                    r#type: Some(kernel_binary_reference_value::Type::Digests(Digests { digests: vec![b"kernel".to_vec()] })),
                }),
                ..Default::default()
            }),
            application_layer: Some(ApplicationLayerReferenceValues { binary: digest(b"app"), ..Default::default() }),
        })),
    }
}

fn factory(id: u64, impostor: bool) -> Box<Factory> {
    let key = SigningKey::from_secret(format!("replica {id}").as_bytes());
    let evidence = Evidence {
        measurement: if impostor { b"evil".to_vec() } else { b"app".to_vec() },
        firmware: b"firmware".to_vec(),
        kernel: b"kernel".to_vec(),
        system: b"system".to_vec(),
        binding_key: SigningKey::from_secret(format!("other key of {id}").as_bytes()).public(),
        signing_key: key.public(),
        ..Default::default()
    };
    Box::new(Factory { evidence: sign_evidence(evidence), key })
}

pub fn endorsed() -> Endorsements {
    Endorsements { r#type: Some(endorsements::Type::OakRestrictedKernel(Default::default())) }
}

pub fn communication(id: u64, impostor: bool) -> DefaultCommunicationModule {
    DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
        factory(id, impostor),
        factory(id, impostor),
    )))))
}

pub fn snapshots() -> DefaultSnapshotProcessor {
    DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new()))
}
