use crate::attestation::sha;
use anyhow::{anyhow, Result};
use std::collections::BTreeSet;

pub const SYMMETRIC_KEY_LEN: usize = 32;

pub struct Payload {
    pub message: Vec<u8>,
    pub nonce: Option<Vec<u8>>,
    pub aad: Option<Vec<u8>>,
}

pub trait Encryptor {
    fn encrypt(&mut self, plaintext: Payload) -> Result<Payload>;
    fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload>;
}

pub struct OrderedCrypter {
    read_key: [u8; SYMMETRIC_KEY_LEN],
    write_key: [u8; SYMMETRIC_KEY_LEN],
}

impl OrderedCrypter {
    pub fn new(read_key: &[u8; SYMMETRIC_KEY_LEN], write_key: &[u8; SYMMETRIC_KEY_LEN]) -> Self {
        Self { read_key: *read_key, write_key: *write_key }
    }
}

fn xor(key: &[u8], nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, block) in data.chunks(32).enumerate() {
        let ks = sha(&[b"stream", key, nonce, &(i as u64).to_be_bytes()]);
        out.extend(block.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    out
}

fn seal(key: &[u8], nonce: &[u8], aad: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = xor(key, nonce, data);
    let mac = sha(&[b"mac", key, nonce, aad, &out]);
    out.extend(&mac[..16]);
    out
}

fn open(key: &[u8], nonce: &[u8], aad: &[u8], data: &[u8]) -> Result<Vec<u8>> {
    if data.len() < 16 {
        return Err(anyhow!("ciphertext is too short"));
    }
    let (ct, mac) = data.split_at(data.len() - 16);
    if sha(&[b"mac", key, nonce, aad, ct])[..16] != *mac {
        return Err(anyhow!("authentication failed"));
    }
    Ok(xor(key, nonce, ct))
}

/// Accepts each nonce once, and none that is `window` or more behind the furthest.
pub struct UnorderedChannelEncryptor {
    keys: OrderedCrypter,
    window: u32,
    next_nonce: u32,
    furthest: Option<u32>,
    seen: BTreeSet<u32>,
}

impl TryFrom<(OrderedCrypter, u32)> for UnorderedChannelEncryptor {
    type Error = anyhow::Error;
    fn try_from((keys, window): (OrderedCrypter, u32)) -> Result<Self> {
        Ok(Self { keys, window, next_nonce: 0, furthest: None, seen: BTreeSet::new() })
    }
}

impl Encryptor for UnorderedChannelEncryptor {
    fn encrypt(&mut self, plaintext: Payload) -> Result<Payload> {
        let nonce = self.next_nonce.to_be_bytes().to_vec();
        self.next_nonce += 1;
        let aad = plaintext.aad.unwrap_or_default();
        Ok(Payload {
            message: seal(&self.keys.write_key, &nonce, &aad, &plaintext.message),
            nonce: Some(nonce),
            aad: if aad.is_empty() { None } else { Some(aad) },
        })
    }

    fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload> {
        let nonce_bytes = ciphertext.nonce.ok_or_else(|| anyhow!("no nonce"))?;
        let nonce = u32::from_be_bytes(
            nonce_bytes.as_slice().try_into().map_err(|_| anyhow!("bad nonce"))?,
        );
        if let Some(furthest) = self.furthest {
            if (nonce as u64) + (self.window as u64) <= furthest as u64 {
                return Err(anyhow!("nonce is out of the window"));
            }
        }
        if self.seen.contains(&nonce) {
            return Err(anyhow!("nonce was already used"));
        }
        let aad = ciphertext.aad.unwrap_or_default();
        let message = open(&self.keys.read_key, &nonce_bytes, &aad, &ciphertext.message)?;
        let furthest = self.furthest.map_or(nonce, |f| f.max(nonce));
        self.furthest = Some(furthest);
        self.seen.insert(nonce);
        let window = self.window as u64;
        self.seen.retain(|n| *n as u64 + window > furthest as u64);
        Ok(Payload { message, nonce: None, aad: None })
    }
}
