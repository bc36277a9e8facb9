//! Key pairs, signatures and an independent verification oracle (k256 and ed25519-zebra used directly).
use crate::core::Ep;
use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};
use k256::ecdsa::{RecoveryId, Signature as KSig, SigningKey, VerifyingKey};
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};

#[derive(Clone)]
pub struct Ec {
    pub sk: SigningKey,
    /// serialised public key, compressed or not
    pub pk: Vec<u8>,
}
#[derive(Clone)]
pub struct Ed {
    pub sk: ed25519_zebra::SigningKey,
    pub pk: Vec<u8>,
}
#[derive(Clone)]
pub enum Key {
    Ec(Ec),
    Ed(Ed),
}

impl Key {
    pub fn ec(ep: &mut Ep, uncompressed: bool) -> Key {
        loop {
            if let Ok(sk) = SigningKey::from_bytes(&ep.bytes::<32>().into()) {
                let pk = sk.verifying_key().to_encoded_point(!uncompressed).as_bytes().to_vec();
                return Key::Ec(Ec { sk, pk });
            }
        }
    }
    pub fn ed(ep: &mut Ep) -> Key {
        let sk = ed25519_zebra::SigningKey::from(ep.bytes::<32>());
        let pk: [u8; 32] = ed25519_zebra::VerificationKey::from(&sk).into();
        Key::Ed(Ed { sk, pk: pk.to_vec() })
    }
    pub fn ty(&self) -> &'static str {
        match self {
            Key::Ec(_) => "ecdsa",
            Key::Ed(_) => "ed25519",
        }
    }
    pub fn pk(&self) -> &[u8] {
        match self {
            Key::Ec(k) => &k.pk,
            Key::Ed(k) => &k.pk,
        }
    }
    pub fn json(&self) -> Value {
        let mut m = serde_json::Map::new();
        m.insert(self.ty().into(), json!(hex::encode(self.pk())));
        Value::Object(m)
    }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        match self {
            Key::Ec(k) => {
                let s: KSig = k.sk.sign_prehash(msg).expect("sign");
                s.to_bytes().to_vec()
            }
            Key::Ed(k) => <[u8; 64]>::from(k.sk.sign(msg)).to_vec(),
        }
    }
    pub fn verifies(&self, msg: &[u8], sig: &[u8]) -> bool {
        verifies(self.ty(), self.pk(), msg, sig)
    }
}

/// the other valid form of an ECDSA signature: (r, n - s)
pub fn flip_s(sig: &[u8]) -> Vec<u8> {
    let s = KSig::from_slice(sig).expect("signature");
    let (r, v) = s.split_scalars();
    let flipped = KSig::from_scalars(r.to_bytes(), (-*v).to_bytes()).expect("flip");
    flipped.to_bytes().to_vec()
}

pub fn verifies(ty: &str, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    match ty {
        "ecdsa" => {
            let (Ok(k), Ok(s)) = (VerifyingKey::from_sec1_bytes(pk), KSig::from_slice(sig)) else {
                return false;
            };
            let s = s.normalize_s().unwrap_or(s);
            k.verify_prehash(msg, &s).is_ok()
        }
        _ => {
            let b: [u8; 64] = sig.try_into().unwrap();
            ed25519_zebra::VerificationKey::try_from(pk)
                .and_then(|k| k.verify(&ed25519_zebra::Signature::from(b), msg))
                .is_ok()
        }
    }
}

pub fn keccak(d: &[u8]) -> [u8; 32] {
    Keccak256::digest(d).into()
}

/// what a chain's ecrecover would return: the uncompressed key that made this signature
pub fn recover(digest: &[u8], rs: &[u8], v: u8) -> Option<VerifyingKey> {
    let s = KSig::from_slice(rs).ok()?;
    // low-s only, as destination gateways require
    if s.normalize_s().is_some() {
        return None;
    }
    VerifyingKey::recover_from_prehash(digest, &s, RecoveryId::from_byte(v)?).ok()
}

pub fn evm_address(pk: &[u8]) -> Option<[u8; 20]> {
    let k = VerifyingKey::from_sec1_bytes(pk).ok()?;
    let u = k.to_encoded_point(false);
    let h = keccak(&u.as_bytes()[1..]);
    let mut a = [0; 20];
    a.copy_from_slice(&h[12..]);
    Some(a)
}
