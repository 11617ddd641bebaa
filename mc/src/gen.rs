//! Enumerators of structured inputs.
use serde_json::{json, Map, Value};

use crate::engine::Chooser;

pub fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

/// Every document of the given depth whose objects use `keys` (each at most
/// once, in this order), whose lists have at most `len` elements.
pub fn doc(ch: &Chooser, depth: usize, leaves: &[Value], keys: &[&str], len: usize) -> Value {
    let kinds = if depth == 0 { leaves.len() } else { leaves.len() + 2 };
    let k = ch.choose(kinds);
    if k < leaves.len() {
        leaves[k].clone()
    } else if k == leaves.len() {
        let n = ch.range(0, len);
        Value::Array((0..n).map(|_| doc(ch, depth - 1, leaves, keys, len)).collect())
    } else {
        let mut m = Map::new();
        for key in keys {
            if ch.flag() {
                m.insert(key.to_string(), doc(ch, depth - 1, leaves, keys, len));
            }
        }
        Value::Object(m)
    }
}

/// Leaves of every kind, including the awkward ones.
pub fn all_leaves() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX),
        json!(9007199254740993u64), json!(1.0), json!(1.5), json!(-0.5), json!(1e300), json!(1e21), json!(5e-324), json!(""), json!("a"), json!("é"), json!("1"), json!("null"), json!("😀 \" \\ \n \u{0}"),
        json!("a".repeat(300)),
    ]
}

/// a chain of `n` containers around x
pub fn nest(n: usize, list: bool, x: Value) -> Value {
    (0..n).fold(x, |v, _| if list { json!([v]) } else { json!({ "a": v }) })
}
