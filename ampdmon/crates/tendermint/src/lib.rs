//! Stand-in for the types of tendermint-rs that ampd and the events package use.
pub mod block {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::convert::TryFrom;
    use std::fmt;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Height(u64);
    impl Height {
        pub fn value(&self) -> u64 {
            self.0
        }
        pub fn increment(self) -> Self {
            Height::try_from(self.0.checked_add(1).expect("height overflow")).unwrap()
        }
    }
    impl Default for Height {
        fn default() -> Self {
            Height(1)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct BadHeight;
    impl fmt::Display for BadHeight {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "integer overflow")
        }
    }
    impl std::error::Error for BadHeight {}
    impl TryFrom<u64> for Height {
        type Error = BadHeight;
        fn try_from(v: u64) -> Result<Self, BadHeight> {
            if v <= i64::MAX as u64 {
                Ok(Height(v))
            } else {
                Err(BadHeight)
            }
        }
    }
    impl From<u32> for Height {
        fn from(v: u32) -> Self {
            Height(v.into())
        }
    }
    impl From<u8> for Height {
        fn from(v: u8) -> Self {
            Height(v.into())
        }
    }
    impl From<Height> for u64 {
        fn from(v: Height) -> u64 {
            v.0
        }
    }
    impl fmt::Display for Height {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl Serialize for Height {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.0.to_string().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Height {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let s = String::deserialize(d)?;
            s.parse::<u64>()
                .ok()
                .and_then(|v| Height::try_from(v).ok())
                .ok_or_else(|| serde::de::Error::custom("bad height"))
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Header {
        pub height: Height,
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Id;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Block {
        pub header: Header,
    }
    impl Block {
        pub fn header(&self) -> &Header {
            &self.header
        }
    }
}
pub use block::Block;

pub mod abci {
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct Event {
        pub kind: String,
        pub attributes: Vec<EventAttribute>,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct EventAttribute {
        pub key: String,
        pub value: String,
        pub index: bool,
    }
    impl Event {
        pub fn new<K, I>(kind: K, attributes: I) -> Self
        where
            K: Into<String>,
            I: IntoIterator,
            I::Item: Into<EventAttribute>,
        {
            Event {
                kind: kind.into(),
                attributes: attributes.into_iter().map(Into::into).collect(),
            }
        }
    }
    impl<K: Into<String>, V: Into<String>> From<(K, V)> for EventAttribute {
        fn from((k, v): (K, V)) -> Self {
            EventAttribute {
                key: k.into(),
                value: v.into(),
                index: true,
            }
        }
    }
}

pub mod chain {
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
    pub struct Id(String);
    impl Id {
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl std::str::FromStr for Id {
        type Err = std::convert::Infallible;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            Ok(Id(s.into()))
        }
    }
}

/// ed25519 keys
pub mod crypto {
    pub mod ed25519 {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct VerificationKey(pub [u8; 32]);
        #[derive(Debug)]
        pub struct BadKey;
        impl std::fmt::Display for BadKey {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "malformed public key")
            }
        }
        impl std::error::Error for BadKey {}
        impl std::convert::TryFrom<&[u8]> for VerificationKey {
            type Error = BadKey;
            fn try_from(b: &[u8]) -> Result<Self, BadKey> {
                Ok(VerificationKey(b.try_into().map_err(|_| BadKey)?))
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PublicKey(pub crypto::ed25519::VerificationKey);
impl From<crypto::ed25519::VerificationKey> for PublicKey {
    fn from(k: crypto::ed25519::VerificationKey) -> Self {
        PublicKey(k)
    }
}
