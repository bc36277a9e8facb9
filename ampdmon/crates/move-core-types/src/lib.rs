//! Stand-in for `StructTag` of move-core-types (without type parameters).
pub mod language_storage {
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct StructTag {
        pub address: [u8; 32],
        pub module: String,
        pub name: String,
    }
    #[derive(Debug)]
    pub struct BadTag;
    impl std::fmt::Display for BadTag {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("not a struct tag")
        }
    }
    impl std::error::Error for BadTag {}
    fn ident(s: &str) -> bool {
        s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
            && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
    }
    impl std::str::FromStr for StructTag {
        type Err = BadTag;
        fn from_str(s: &str) -> Result<Self, BadTag> {
            let parts: Vec<&str> = s.split("::").collect();
            let [a, m, n] = parts[..] else { return Err(BadTag) };
            let a = a.strip_prefix("0x").ok_or(BadTag)?;
            if a.is_empty() || a.len() > 64 || !ident(m) || !ident(n) {
                return Err(BadTag);
            }
            let mut address = [0u8; 32];
            hex::decode_to_slice(format!("{:0>64}", a), &mut address).map_err(|_| BadTag)?;
            Ok(StructTag { address, module: m.into(), name: n.into() })
        }
    }
    impl std::fmt::Display for StructTag {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}::{}::{}", hex::encode(self.address), self.module, self.name)
        }
    }
    impl Serialize for StructTag {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.to_string().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for StructTag {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(de::Error::custom)
        }
    }
}
