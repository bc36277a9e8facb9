//! Stand-in for the parts of sui-json-rpc-types that ampd uses.
use move_core_types::language_storage::StructTag;
use serde::{Deserialize, Serialize};
use sui_types::base_types::TransactionDigest;

/// numbers travel as strings
mod big {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
        v.to_string().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        String::deserialize(d)?.parse().map_err(|_| serde::de::Error::custom("number"))
    }
}
mod big_opt {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<u64>, s: S) -> Result<S::Ok, S::Error> {
        v.map(|v| v.to_string()).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {
        Option::<String>::deserialize(d)?
            .map(|s| s.parse().map_err(|_| serde::de::Error::custom("number")))
            .transpose()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct EventID {
    pub tx_digest: TransactionDigest,
    #[serde(with = "big")]
    pub event_seq: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiEvent {
    pub id: EventID,
    #[serde(rename = "type")]
    pub type_: StructTag,
    pub parsed_json: serde_json::Value,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
#[serde(transparent)]
pub struct SuiTransactionBlockEvents {
    pub data: Vec<SuiEvent>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponse {
    pub digest: TransactionDigest,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub events: Option<SuiTransactionBlockEvents>,
    #[serde(default, with = "big_opt", skip_serializing_if = "Option::is_none")]
    pub checkpoint: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponseOptions {
    pub show_events: bool,
}
impl SuiTransactionBlockResponseOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_events(mut self) -> Self {
        self.show_events = true;
        self
    }
}
