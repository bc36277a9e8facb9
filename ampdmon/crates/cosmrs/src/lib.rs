//! Stand-in for the parts of cosmrs that ampd uses. Addresses, public keys and their derivation are real; documents are
//! encoded as JSON, so that monitors can read what was signed and sent.
pub use cosmos_sdk_proto as proto;
pub use cosmos_sdk_proto::Any;
pub use tendermint;

pub type ErrorReport = eyre::Report;
pub type Result<T> = std::result::Result<T, ErrorReport>;
pub type Gas = u64;

use bech32::{FromBase32, ToBase32, Variant};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Eq, PartialEq, PartialOrd, Ord)]
pub struct AccountId {
    bech32: String,
    hrp: usize,
}
impl AccountId {
    pub fn new(prefix: &str, bytes: &[u8]) -> Result<Self> {
        if !prefix.chars().all(|c| matches!(c, 'a'..='z' | '0'..='9')) {
            return Err(eyre::eyre!("expected prefix to be lowercase alphabetical characters only"));
        }
        if !(1..=255).contains(&bytes.len()) {
            return Err(eyre::eyre!("account ID should be at most 255 bytes long"));
        }
        // real cosmrs accepts an empty prefix here; nothing in ampd's daemon uses one
        let bech32 = bech32::encode(prefix, bytes.to_base32(), Variant::Bech32)?;
        Ok(AccountId { hrp: prefix.len(), bech32 })
    }
    pub fn prefix(&self) -> &str {
        &self.bech32[..self.hrp]
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let (_, d, _) = bech32::decode(&self.bech32).expect("a valid address");
        Vec::<u8>::from_base32(&d).expect("a valid address")
    }
}
impl AsRef<str> for AccountId {
    fn as_ref(&self) -> &str {
        &self.bech32
    }
}
impl fmt::Debug for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("AccountId").field(&self.bech32).finish()
    }
}
impl fmt::Display for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.bech32)
    }
}
impl FromStr for AccountId {
    type Err = ErrorReport;
    fn from_str(s: &str) -> Result<Self> {
        let (hrp, d, v) = bech32::decode(s)?;
        if v != Variant::Bech32 {
            return Err(eyre::eyre!("not bech32"));
        }
        AccountId::new(&hrp, &Vec::<u8>::from_base32(&d)?)
    }
}
impl Serialize for AccountId {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.bech32.serialize(s)
    }
}
impl<'de> Deserialize<'de> for AccountId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(|_| de::Error::custom("invalid account ID"))
    }
}

#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Denom(String);
impl AsRef<str> for Denom {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Denom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl FromStr for Denom {
    type Err = ErrorReport;
    fn from_str(s: &str) -> Result<Self> {
        Ok(Denom(s.to_owned()))
    }
}

#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Coin {
    pub denom: Denom,
    #[serde(with = "amount")]
    pub amount: u128,
}
impl Coin {
    pub fn new(amount: u128, denom: &str) -> Result<Coin> {
        Ok(Coin { denom: denom.parse()?, amount })
    }
}
mod amount {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        v.to_string().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(|_| serde::de::Error::custom("amount"))
    }
}

pub mod crypto {
    use super::*;
    use k256::ecdsa::VerifyingKey;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    pub enum PublicKey {
        Secp256k1(VerifyingKey),
        Ed25519([u8; 32]),
    }
    impl PublicKey {
        pub fn account_id(&self, prefix: &str) -> Result<AccountId> {
            use sha2::Digest;
            match self {
                PublicKey::Secp256k1(k) => {
                    let sha = sha2::Sha256::digest(k.to_encoded_point(true).as_bytes());
                    AccountId::new(prefix, &ripemd::Ripemd160::digest(sha))
                }
                PublicKey::Ed25519(b) => AccountId::new(prefix, &sha2::Sha256::digest(b)[..20]),
            }
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            match self {
                PublicKey::Secp256k1(k) => k.to_encoded_point(true).as_bytes().to_vec(),
                PublicKey::Ed25519(b) => b.to_vec(),
            }
        }
    }
    impl From<VerifyingKey> for PublicKey {
        fn from(k: VerifyingKey) -> Self {
            PublicKey::Secp256k1(k)
        }
    }
    impl From<&VerifyingKey> for PublicKey {
        fn from(k: &VerifyingKey) -> Self {
            PublicKey::Secp256k1(*k)
        }
    }
    impl From<tendermint::PublicKey> for PublicKey {
        fn from(k: tendermint::PublicKey) -> Self {
            PublicKey::Ed25519(k.0 .0)
        }
    }
    #[derive(Serialize, Deserialize)]
    enum Raw {
        Secp256k1(Vec<u8>),
        Ed25519(Vec<u8>),
    }
    impl Serialize for PublicKey {
        fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
            match self {
                PublicKey::Secp256k1(_) => Raw::Secp256k1(self.to_bytes()),
                PublicKey::Ed25519(_) => Raw::Ed25519(self.to_bytes()),
            }
            .serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for PublicKey {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            match Raw::deserialize(d)? {
                Raw::Secp256k1(b) => VerifyingKey::from_sec1_bytes(&b).map(Into::into).map_err(de::Error::custom),
                Raw::Ed25519(b) => b.try_into().map(PublicKey::Ed25519).map_err(|_| de::Error::custom("key")),
            }
        }
    }
}

pub mod tx {
    use super::*;
    use crate::crypto::PublicKey;
    use tendermint::chain::Id;

    pub trait Msg: Clone + Sized + Serialize {
        const TYPE_URL: &'static str;
        fn to_any(&self) -> Result<Any> {
            Ok(Any { type_url: Self::TYPE_URL.to_string(), value: serde_json::to_vec(self)? })
        }
        fn into_any(self) -> Result<Any> {
            self.to_any()
        }
    }

    #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
    pub struct Fee {
        pub amount: Vec<Coin>,
        pub gas_limit: Gas,
        pub payer: Option<AccountId>,
        pub granter: Option<AccountId>,
    }
    impl Fee {
        pub fn from_amount_and_gas(amount: Coin, gas_limit: impl Into<Gas>) -> Fee {
            Fee { amount: vec![amount], gas_limit: gas_limit.into(), payer: None, granter: None }
        }
    }

    #[derive(Clone, Debug, Eq, PartialEq, Default, Serialize, Deserialize)]
    pub struct Body {
        pub messages: Vec<Any>,
        pub memo: String,
        pub timeout_height: u64,
    }
    #[derive(Default)]
    pub struct BodyBuilder {
        body: Body,
    }
    impl BodyBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn msg(&mut self, m: impl Into<Any>) -> &mut Self {
            self.body.messages.push(m.into());
            self
        }
        pub fn msgs(&mut self, m: impl IntoIterator<Item = Any>) -> &mut Self {
            self.body.messages.extend(m);
            self
        }
        pub fn memo(&mut self, m: impl Into<String>) -> &mut Self {
            self.body.memo = m.into();
            self
        }
        pub fn finish(&self) -> Body {
            self.body.clone()
        }
    }

    #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
    pub struct SignerInfo {
        pub public_key: Option<PublicKey>,
        pub sequence: u64,
    }
    impl SignerInfo {
        pub fn single_direct(public_key: Option<impl Into<PublicKey>>, sequence: u64) -> Self {
            SignerInfo { public_key: public_key.map(Into::into), sequence }
        }
        pub fn auth_info(self, fee: Fee) -> AuthInfo {
            AuthInfo { signer_infos: vec![self], fee }
        }
    }
    #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
    pub struct AuthInfo {
        pub signer_infos: Vec<SignerInfo>,
        pub fee: Fee,
    }
    #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
    pub struct SignDoc {
        pub body_bytes: Vec<u8>,
        pub auth_info_bytes: Vec<u8>,
        pub chain_id: String,
        pub account_number: u64,
    }
    impl SignDoc {
        pub fn new(body: &Body, auth_info: &AuthInfo, chain_id: &Id, account_number: u64) -> Result<SignDoc> {
            Ok(SignDoc {
                body_bytes: serde_json::to_vec(body)?,
                auth_info_bytes: serde_json::to_vec(auth_info)?,
                chain_id: chain_id.as_str().to_string(),
                account_number,
            })
        }
        pub fn into_bytes(self) -> Result<Vec<u8>> {
            Ok(serde_json::to_vec(&self)?)
        }
    }
}

pub mod cosmwasm {
    use super::*;
    #[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, Serialize, Deserialize)]
    pub struct MsgExecuteContract {
        pub sender: AccountId,
        pub contract: AccountId,
        pub msg: Vec<u8>,
        pub funds: Vec<Coin>,
    }
    impl tx::Msg for MsgExecuteContract {
        const TYPE_URL: &'static str = "/cosmwasm.wasm.v1.MsgExecuteContract";
    }
}

pub mod bank {
    use super::*;
    #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
    pub struct MsgSend {
        pub from_address: AccountId,
        pub to_address: AccountId,
        pub amount: Vec<Coin>,
    }
    impl tx::Msg for MsgSend {
        const TYPE_URL: &'static str = "/cosmos.bank.v1beta1.MsgSend";
    }
}
