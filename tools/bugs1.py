LOADER_HEAD = r'''
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use super::*;
use super::cache::HashMapCache;

struct Log(Arc<Mutex<Vec<Vec<i32>>>>);

#[async_trait::async_trait]
impl Loader<i32> for Log {
    type Value = i32;
    type Error = String;
    async fn load(&self, keys: &[i32]) -> Result<HashMap<i32, i32>, String> {
        let mut k = keys.to_vec();
        k.sort();
        self.0.lock().unwrap().push(k);
        tokio::time::sleep(Duration::from_millis(30)).await;
        if keys.len() == 3 && keys.contains(&9) {
            return Err("no 2".to_string());
        }
        Ok(keys.iter().map(|k| (*k, k * 10)).collect())
    }
}
'''
bug("B01-abandoned-load", "C01", "three loads in one batch that fails, of which the one pushed first is abandoned before the batch ends",
    "once one load of a batch is abandoned, the loads pushed after it never get an answer (their channel is dropped)",
    [("src/core/data_loader/data_loader.rs", "                    sender.tx.send(Err(err.clone())).ok();\n", "                    if sender.tx.send(Err(err.clone())).is_err() {\n                        break;\n                    }\n")],
    LOADER_HEAD + r'''
#[tokio::test]
async fn abandoned() {
    let log = Arc::new(Mutex::new(vec![]));
    let l = Arc::new(DataLoader::new(Log(log.clone())).delay(Duration::from_millis(20)));
    let (a, b, c) = (l.clone(), l.clone(), l.clone());
    let a = tokio::spawn(async move { a.load_one(1).await });
    tokio::time::sleep(Duration::from_millis(2)).await;
    let b = tokio::spawn(async move { b.load_one(2).await });
    let c = tokio::spawn(async move { c.load_one(9).await });
    tokio::time::sleep(Duration::from_millis(2)).await;
    a.abort();
    assert_eq!(b.await.unwrap(), Err("no 2".to_string()));
    assert_eq!(c.await.unwrap(), Err("no 2".to_string()));
}
''', at="core/data_loader")
bug("B02-overlapping-keys", "C02", "two loads with keys in common, whose total number of keys reaches the batch size while the distinct ones do not",
    "the batch is sent too early, because keys that are already waiting are counted again",
    [("src/core/data_loader/data_loader.rs", "            requests.keys.extend(keys_set.clone());\n", "            let waiting = prev_count + keys_set.len();\n            requests.keys.extend(keys_set.clone());\n"),
     ("src/core/data_loader/data_loader.rs", "            if requests.keys.len() >= self.max_batch_size {", "            if waiting >= self.max_batch_size {")],
    LOADER_HEAD + r'''
#[tokio::test]
async fn overlapping() {
    let log = Arc::new(Mutex::new(vec![]));
    let l = Arc::new(DataLoader::new(Log(log.clone())).delay(Duration::from_millis(40)).max_batch_size(4));
    let (a, b, c) = (l.clone(), l.clone(), l.clone());
    let a = tokio::spawn(async move { a.load_many([1, 2]).await });
    let b = tokio::spawn(async move { b.load_many([1, 2]).await });
    tokio::time::sleep(Duration::from_millis(5)).await;
    let c = tokio::spawn(async move { c.load_many([3]).await });
    for x in [a, b, c] {
        x.await.unwrap().unwrap();
    }
    assert_eq!(*log.lock().unwrap(), vec![vec![1, 2, 3]]);
}
''', at="core/data_loader")
bug("B03-first-value-stays", "C03", "a key whose value is already cached is fed again, or answered by a batch that was in flight while it was fed",
    "the cache goes on answering with the old value",
    [("src/core/data_loader/cache.rs", "        self.0.insert(key.into_owned(), val.into_owned());\n", "        self.0.entry(key.into_owned()).or_insert_with(|| val.into_owned());\n")],
    LOADER_HEAD + r'''
#[tokio::test]
async fn fed_again() {
    let log = Arc::new(Mutex::new(vec![]));
    let l = DataLoader::with_cache(Log(log.clone()), HashMapCache::default()).delay(Duration::from_millis(1));
    l.feed_one(1, 71).await;
    l.feed_one(1, 72).await;
    assert_eq!(l.load_one(1).await.unwrap(), Some(72));
}
''', at="core/data_loader")
bug("B04-cleanup-by-waiter", "C04", "the caller that runs the work is cancelled while at least two others wait for it, and one of those becomes the next to run it before the other wakes up",
    "the work of one key runs several times at once",
    [("src/core/data_loader/dedupe.rs", "                        // task will do the execution\n", "                        // task will do the execution\n                        self.cache.lock().unwrap().remove(key);\n")],
    r'''
use std::sync::atomic::{AtomicUsize, Ordering};

use futures_util::FutureExt;

use super::dedupe::Dedupe;

#[tokio::test]
async fn cancelled() {
    let d: Dedupe<i32, i32> = Dedupe::new(1, true);
    let runs = AtomicUsize::new(0);
    let work = || async {
        runs.fetch_add(1, Ordering::SeqCst);
        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        7
    };
    let mut a = Box::pin(d.dedupe(&1, work));
    assert!(a.as_mut().now_or_never().is_none());
    let mut b = Box::pin(d.dedupe(&1, work));
    let mut c = Box::pin(d.dedupe(&1, work));
    assert!(b.as_mut().now_or_never().is_none());
    assert!(c.as_mut().now_or_never().is_none());
    drop(a);
    assert_eq!(futures_util::join!(b, c), (7, 7));
    assert_eq!(runs.load(Ordering::SeqCst), 2); // the cancelled one, and one more
}
''', at="core/data_loader")
bug("B05-refresh-keeps-ttl", "C05", "a key that is still in the cache is put again with another time to live",
    "the new value expires when the old one would have, or lives as long as the old one would have",
    [("src/core/cache/cache.rs", "        self.data.write().unwrap().insert(key, value, ttl);\n", "        let mut data = self.data.write().unwrap();\n        if let Some(slot) = data.get_mut(&key) {\n            *slot = value;\n        } else {\n            data.insert(key, value, ttl);\n        }\n")],
    r'''
use std::num::NonZeroU64;
use std::time::Duration;

use super::cache::InMemoryCache;
use super::Cache;

#[tokio::test]
async fn refreshed() {
    let c: InMemoryCache<u8, u8> = InMemoryCache::default();
    c.set(1, 1, NonZeroU64::new(30).unwrap()).await.unwrap();
    c.set(1, 2, NonZeroU64::new(100000).unwrap()).await.unwrap();
    tokio::time::sleep(Duration::from_millis(60)).await;
    assert_eq!(c.get(&1).await.unwrap(), Some(2));
}
''')
bug("B07-single-entry", "C13", "an interface field whose upstream answers a list with exactly one list inside",
    "a list of one list loses a level when its members are given their type names",
    [("src/core/ir/discriminator.rs", "                Ok(Value::array(arr))\n", "                let mut arr = arr;\n                match arr.pop() {\n                    Some(Value::List(inner)) if arr.is_empty() => Ok(Value::array(inner)),\n                    Some(last) => {\n                        arr.push(last);\n                        Ok(Value::array(arr))\n                    }\n                    None => Ok(Value::array(arr)),\n                }\n")],
    r'''
use async_graphql::Value;
use serde_json::json;
use tailcall_valid::Validator;

use super::ir::Discriminator;

#[test]
fn nested() {
    let d = Discriminator::new("T".into(), ["A".to_string()].into_iter().collect(), Some("kind".into())).to_result().unwrap();
    let v = Value::from_json(json!([[{"kind": "A"}]])).unwrap();
    let r = d.resolve_type(v).unwrap().into_json().unwrap();
    assert_eq!(r, json!([[{"kind": "A", "__typename": "A"}]]));
}
''')
bug("B08-blank-between", "C16", "a template with nothing but white space between two expressions",
    "the white space between two expressions is lost",
    [("src/core/mustache/parse.rs", "            Segment::Literal(s) => (!s.is_empty()) && s != \"\\\"\",", "            Segment::Literal(s) => (!s.trim().is_empty()) && s != \"\\\"\",")],
    r'''
use super::Mustache;

#[test]
fn blank() {
    let t = "{{.args.first}} {{.args.last}}";
    assert_eq!(Mustache::parse(t).to_string(), t);
}
''')
bug("B09-left-vec", "C14", "two GraphQL lists that have an element in common",
    "merging a list onto a list drops the elements of the right one that the left one has too",
    [("src/core/merge_right.rs", "            (ConstValue::List(a), ConstValue::List(b)) => ConstValue::List(a.merge_right(b)),", "            (ConstValue::List(a), ConstValue::List(b)) => {\n                let rest = b.into_iter().filter(|b| !a.contains(b)).collect();\n                ConstValue::List(a.clone().merge_right(rest))\n            }")],
    r'''
use async_graphql_value::ConstValue;
use serde_json::json;

use super::merge_right::MergeRight;

#[test]
fn repeated() {
    let v = |v| ConstValue::from_json(v).unwrap();
    let m = v(json!({"a": [1, 2]})).merge_right(v(json!({"a": [2, 3]})));
    assert_eq!(m, v(json!({"a": [1, 2, 2, 3]})));
}
''')
bug("B10-numeric-key", "C12", "an object with a field whose name is a number",
    "a path into an object cannot name a field that is a number",
    [("src/core/json/borrow.rs", "                Value::Object(map) => map.get(token.as_ref())?,\n", "                Value::Object(map) if token.as_ref().parse::<usize>().is_err() => {\n                    map.get(token.as_ref())?\n                }\n")],
    r'''
use super::json::JsonLike;

#[test]
fn numeric() {
    let v: serde_json_borrow::Value = serde_json::from_str(r#"{"a": {"0": true}}"#).unwrap();
    assert_eq!(v.get_path(&["a", "0"]).and_then(|v| v.as_bool()), Some(true));
}
''')
bug("B11-own-group", "C09", "requests that carry the grouping parameter more than once",
    "a request that asks for several ids of its own contributes only the first of them",
    [("src/core/http/transformations/query_batching.rs", "                    .filter(|(key, _)| group_by_key.eq(&key.to_string()))\n", "                    .filter(|(key, _)| group_by_key.eq(&key.to_string()))\n                    .take(1)\n")],
    r'''
use http::Method;
use reqwest::Request;
use tailcall_valid::Validator;

use super::transformations::QueryBatching;
use super::DataLoaderRequest;
use crate::core::Transform;

#[test]
fn several() {
    let r = |u: &str| Request::new(Method::GET, u.parse().unwrap());
    let a = DataLoaderRequest::new(r("http://x/?id=2&id=3"), Default::default());
    let q = QueryBatching::new(&[&a], Some("id")).transform(r("http://x/?id=1")).to_result().unwrap();
    assert_eq!(q.url().as_str(), "http://x/?id=1&id=2&id=3");
}
''', at="core/http")
bug("B12-literal-case", "C17", "a request whose path differs from the endpoint's in upper and lower case",
    "literal segments match regardless of case",
    [("src/core/rest/path.rs", "                    if segment != req_segment {", "                    if !segment.eq_ignore_ascii_case(req_segment) {")],
    r"""
use super::path::Path;
use super::type_map::TypeMap;

#[test]
fn case() {
    let p = Path::parse(&TypeMap::new(Default::default()), "/Users/all").unwrap();
    assert!(p.matches("/Users/all").is_some());
    assert!(p.matches("/users/all").is_none());
}
""", at="core/rest")
