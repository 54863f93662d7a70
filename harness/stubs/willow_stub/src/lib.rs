//! A stand-in for the crates of Willow's secure aggregation, with the shapes which the decryptor
//! uses and no cryptography: shares and partial decryptions name the secret they come from.
use std::rc::Rc;

use prost::Message;

#[derive(Clone, Debug, PartialEq)]
pub struct Error(pub &'static str);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

pub fn tag(secret: &[u8], key_id: &[u8]) -> [u8; 8] {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in secret.iter().chain(&[0]).chain(key_id) {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h.to_le_bytes()
}

// protobuf and its messages.

pub trait Parse: Sized {
    fn parse(bytes: &[u8]) -> Result<Self>;
}

pub trait Serialize {
    fn serialize(&self) -> Result<Vec<u8>>;
}

#[derive(Clone, PartialEq, Message)]
pub struct Key {
    #[prost(bytes = "vec", tag = "1")]
    pub key_id: Vec<u8>,
    #[prost(bytes = "vec", tag = "2")]
    pub key_material: Vec<u8>,
}

impl Key {
    pub fn set_key_id(&mut self, id: impl Into<Vec<u8>>) {
        self.key_id = id.into();
    }
    pub fn set_key_material(&mut self, material: impl Into<Vec<u8>>) {
        self.key_material = material.into();
    }
}

impl Parse for Key {
    fn parse(bytes: &[u8]) -> Result<Self> {
        Key::decode(bytes).map_err(|_| Error("not a key"))
    }
}

impl Serialize for Key {
    fn serialize(&self) -> Result<Vec<u8>> {
        Ok(self.encode_to_vec())
    }
}

macro_rules! raw {
    ($name:ident, $prefix:expr) => {
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct $name(pub Vec<u8>);

        impl Parse for $name {
            fn parse(bytes: &[u8]) -> Result<Self> {
                match bytes.strip_prefix($prefix) {
                    Some(rest) => Ok($name(rest.to_vec())),
                    None => Err(Error(concat!("not a ", stringify!($name)))),
                }
            }
        }

        impl Serialize for $name {
            fn serialize(&self) -> Result<Vec<u8>> {
                Ok([&$prefix[..], &self.0].concat())
            }
        }
    };
}

raw!(ShareProto, b"PUB");
raw!(DecryptorStateProto, b"PRV");
raw!(PartialDecryptionRequestProto, b"REQ");
raw!(PartialDecryptionResponseProto, b"DEC");

// proto_serialization_traits.

pub trait ToProto<C> {
    type Proto;
    fn to_proto(&self, context: C) -> Result<Self::Proto>;
}

pub trait FromProto<C>: Sized {
    type Proto;
    fn from_proto(proto: Self::Proto, context: C) -> Result<Self>;
}

// The scheme.

pub trait AheBase {}

#[derive(Clone, Debug)]
pub struct ShellAheConfig(pub i64);

pub fn create_shell_ahe_config(decryptors: i64) -> Result<ShellAheConfig> {
    Ok(ShellAheConfig(decryptors))
}

pub struct ShellVahe {
    key_id: Vec<u8>,
}

impl ShellVahe {
    pub fn new(_config: ShellAheConfig, key_id: &[u8]) -> Result<ShellVahe> {
        Ok(ShellVahe { key_id: key_id.to_vec() })
    }
}

impl AheBase for ShellVahe {}

#[derive(Clone, Debug, Default)]
pub struct DecryptorState {
    secret: Vec<u8>,
}

pub struct PublicKeyShare(Vec<u8>);
pub struct PartialDecryptionRequest(Vec<u8>);
pub struct PartialDecryptionResponse(Vec<u8>);

pub struct WillowV1Decryptor<V> {
    pub vahe: Rc<V>,
}

impl<V> WillowV1Decryptor<V> {
    pub fn new_with_randomly_generated_seed(vahe: Rc<V>) -> Result<Self> {
        Ok(WillowV1Decryptor { vahe })
    }
}

pub trait SecureAggregationDecryptor {
    fn create_public_key_share(&self, state: &mut DecryptorState) -> Result<PublicKeyShare>;
    fn handle_partial_decryption_request(&self, request: PartialDecryptionRequest, state: &DecryptorState) -> Result<PartialDecryptionResponse>;
}

impl SecureAggregationDecryptor for WillowV1Decryptor<ShellVahe> {
    fn create_public_key_share(&self, state: &mut DecryptorState) -> Result<PublicKeyShare> {
        state.secret = [oak_stub::det::next().to_le_bytes(), oak_stub::det::next().to_le_bytes()].concat();
        Ok(PublicKeyShare(tag(&state.secret, &self.vahe.key_id).to_vec()))
    }

    fn handle_partial_decryption_request(&self, request: PartialDecryptionRequest, state: &DecryptorState) -> Result<PartialDecryptionResponse> {
        if request.0.first() == Some(&b'h') {
            return Err(Error("can't be handled"));
        }
        Ok(PartialDecryptionResponse([&tag(&state.secret, &self.vahe.key_id)[..], &request.0].concat()))
    }
}

impl ToProto<&&ShellVahe> for PublicKeyShare {
    type Proto = ShareProto;
    fn to_proto(&self, _: &&ShellVahe) -> Result<ShareProto> {
        Ok(ShareProto(self.0.clone()))
    }
}

impl ToProto<&WillowV1Decryptor<ShellVahe>> for DecryptorState {
    type Proto = DecryptorStateProto;
    fn to_proto(&self, _: &WillowV1Decryptor<ShellVahe>) -> Result<DecryptorStateProto> {
        Ok(DecryptorStateProto(self.secret.clone()))
    }
}

impl FromProto<&WillowV1Decryptor<ShellVahe>> for DecryptorState {
    type Proto = DecryptorStateProto;
    fn from_proto(proto: DecryptorStateProto, _: &WillowV1Decryptor<ShellVahe>) -> Result<Self> {
        if proto.0.len() != 16 {
            return Err(Error("no decryptor state"));
        }
        Ok(DecryptorState { secret: proto.0 })
    }
}

impl FromProto<&WillowV1Decryptor<ShellVahe>> for PartialDecryptionRequest {
    type Proto = PartialDecryptionRequestProto;
    fn from_proto(proto: PartialDecryptionRequestProto, _: &WillowV1Decryptor<ShellVahe>) -> Result<Self> {
        if proto.0.first() == Some(&b'p') {
            return Err(Error("no partial decryption request"));
        }
        Ok(PartialDecryptionRequest(proto.0))
    }
}

impl ToProto<&WillowV1Decryptor<ShellVahe>> for PartialDecryptionResponse {
    type Proto = PartialDecryptionResponseProto;
    fn to_proto(&self, _: &WillowV1Decryptor<ShellVahe>) -> Result<PartialDecryptionResponseProto> {
        Ok(PartialDecryptionResponseProto(self.0.clone()))
    }
}

/// Requests and responses of the decryptor.
pub mod decryptor {
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct GenerateKeyRequest {
        #[prost(bytes = "vec", tag = "1")]
        pub key_id: Vec<u8>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct GenerateKeyResponse {
        #[prost(bytes = "vec", tag = "1")]
        pub public_key: Vec<u8>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptRequest {
        #[prost(bytes = "vec", tag = "1")]
        pub decryption_request: Vec<u8>,
        #[prost(bytes = "vec", tag = "2")]
        pub public_key: Vec<u8>,
        #[prost(bytes = "vec", tag = "3")]
        pub key_id: Vec<u8>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptResponse {
        #[prost(bytes = "vec", tag = "1")]
        pub decryption_response: Vec<u8>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Status {
        #[prost(int32, tag = "1")]
        pub code: i32,
        #[prost(string, tag = "2")]
        pub message: String,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorRequest {
        #[prost(oneof = "decryptor_request::Msg", tags = "1, 2")]
        pub msg: Option<decryptor_request::Msg>,
    }
    pub mod decryptor_request {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg {
            #[prost(message, tag = "1")]
            GenerateKey(super::GenerateKeyRequest),
            #[prost(message, tag = "2")]
            Decrypt(super::DecryptRequest),
        }
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorResponse {
        #[prost(oneof = "decryptor_response::Msg", tags = "1, 2, 3")]
        pub msg: Option<decryptor_response::Msg>,
    }
    pub mod decryptor_response {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg {
            #[prost(message, tag = "1")]
            GenerateKey(super::GenerateKeyResponse),
            #[prost(message, tag = "2")]
            Decrypt(super::DecryptResponse),
            #[prost(message, tag = "3")]
            Error(super::Status),
        }
    }
}
