//! Offline stand-in for `sonic-rs`: the JSON entry points cairo-m uses, over serde_json.
pub use serde_json::{from_slice, from_str, json, to_string, to_string_pretty, to_vec, to_value, from_value, Error, Value, to_writer, to_writer_pretty};
