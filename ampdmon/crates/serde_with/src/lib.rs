//! Stand-in for the parts of serde_with that ampd uses.
pub use serde_with_macros::SerializeDisplay;
pub use serde_json;
#[macro_export]
macro_rules! with_prefix {
    ($m:ident $p:literal) => {
        mod $m {
            use $crate::serde_json::{from_value, to_value, Map, Value};
            pub fn serialize<T: serde::Serialize, S: serde::Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
                let v = to_value(t).map_err(serde::ser::Error::custom)?;
                let m = v.as_object().ok_or_else(|| serde::ser::Error::custom("not a struct"))?;
                serde::Serializer::collect_map(s, m.iter().map(|(k, v)| (format!(concat!($p, "{}"), k), v)))
            }
            pub fn deserialize<'de, T: serde::de::DeserializeOwned, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
                let m = <std::collections::BTreeMap<String, Value> as serde::Deserialize>::deserialize(d)?;
                let m: Map<String, Value> =
                    m.into_iter().filter_map(|(k, v)| k.strip_prefix($p).map(|k| (k.to_string(), v))).collect();
                from_value(Value::Object(m)).map_err(serde::de::Error::custom)
            }
        }
    };
}
