//! Serialization round trips through formats of different kinds: self-describing text, self-describing
//! binary, and a format that stores nothing but the fields in their declared order.
use crate::*;
use serde::{de::DeserializeOwned, Serialize};

pub const FORMATS: usize = 3;
pub const NAMES: [&str; FORMATS] = ["json", "cbor", "bincode"];

pub fn round<X: Serialize + DeserializeOwned>(x: &X, fmt: usize) -> Option<X> {
    call(|| match fmt {
        0 => serde_json::to_string(x).ok().and_then(|s| serde_json::from_str(&s).ok()),
        1 => {
            let mut buf = Vec::new();
            ciborium::ser::into_writer(x, &mut buf).ok()?;
            ciborium::de::from_reader(&buf[..]).ok()
        }
        _ => bincode::serialize(x).ok().and_then(|b| bincode::deserialize(&b).ok()),
    }).ok().flatten()
}

/// reload and log; `same` tells whether the reloaded value compares equal (1 where no equality exists)
pub fn reload<X: Serialize + DeserializeOwned>(t: &mut T, x: &X, fmt: usize, same: impl FnOnce(&X, &X) -> bool) -> Option<X> {
    let y = round(x, fmt);
    let eq = match &y { None => NONE, Some(y) => rb(|| same(x, y)) };
    t.ev("Reload").i("ok", i64::from(y.is_some())).i("same", eq).st("how", NAMES[fmt]).done();
    y
}
