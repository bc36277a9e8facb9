//! Stand-in for the parts of sui-types that ampd uses.
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::str::FromStr;

#[derive(Debug)]
pub struct Bad(pub String);
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}

pub mod base_types {
    use super::*;
    pub use crate::digests::TransactionDigest;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct SuiAddress(pub [u8; 32]);
    impl fmt::Display for SuiAddress {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }
    impl FromStr for SuiAddress {
        type Err = Bad;
        fn from_str(s: &str) -> Result<Self, Bad> {
            let b = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|e| Bad(e.to_string()))?;
            Ok(SuiAddress(b.try_into().map_err(|_| Bad("length".into()))?))
        }
    }
    impl Serialize for SuiAddress {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.to_string().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for SuiAddress {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}

pub mod digests {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct TransactionDigest(pub [u8; 32]);
    impl TransactionDigest {
        pub const fn new(b: [u8; 32]) -> Self {
            TransactionDigest(b)
        }
        pub fn base58_encode(&self) -> String {
            bs58::encode(self.0).into_string()
        }
    }
    impl fmt::Display for TransactionDigest {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.base58_encode())
        }
    }
    impl fmt::LowerHex for TransactionDigest {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&hex::encode(self.0))
        }
    }
    impl FromStr for TransactionDigest {
        type Err = Bad;
        fn from_str(s: &str) -> Result<Self, Bad> {
            let b = bs58::decode(s).into_vec().map_err(|e| Bad(e.to_string()))?;
            Ok(TransactionDigest(b.try_into().map_err(|_| Bad("length".into()))?))
        }
    }
    impl Serialize for TransactionDigest {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.base58_encode().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for TransactionDigest {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}
