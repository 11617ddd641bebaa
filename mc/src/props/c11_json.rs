//! JSON documents: distributing a batched answer (C11), the interchangeable
//! representations (C12), naming the type of a union or interface value (C13).
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use async_graphql_value::{ConstValue, Name, Value as GqlValue};
use reqwest::header::{HeaderName, HeaderValue};
use reqwest::{Method, Request};
use serde_json::{json, Map, Value};
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::data_loader::Loader;
use tailcall::core::http::{DataLoaderRequest, HttpDataLoader};
use tailcall::core::ir::{Discriminator, TypedValue};
use tailcall::core::json::{JsonLike, JsonLikeList, JsonObjectLike, JsonPrimitive};
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{fail, Chooser, Ctx, Outcome};
use crate::gen::{all_leaves, doc, nest, s};
use crate::{ensure, ensure_eq, rt, sched};

pub const C11: Prop = Prop { id: "C11", level: EX, rule: "every document, path, and batch of requests within the bounds", run: c11, assumptions: &["documents name each key of an object once"] };
pub const C12: Prop = Prop { id: "C12", level: EX, rule: "every document within the bounds in each of the four representations", run: c12, assumptions: &["documents name each key of an object once"] };
pub const C13: Prop = Prop { id: "C13", level: EX, rule: "every value and set of types within the bounds", run: c13, assumptions: &[] };

// ---------------------------------------------------------- conversions of
// the harness, written against the representations themselves
fn constv(v: &Value) -> ConstValue {
    match v {
        Value::Null => ConstValue::Null,
        Value::Bool(b) => ConstValue::Boolean(*b),
        Value::Number(n) => ConstValue::Number(n.clone()),
        Value::String(s) => ConstValue::String(s.clone()),
        Value::Array(a) => ConstValue::List(a.iter().map(constv).collect()),
        Value::Object(o) => ConstValue::Object(o.iter().map(|(k, v)| (Name::new(k), constv(v))).collect()),
    }
}
fn gqlv(v: &Value) -> GqlValue {
    match v {
        Value::Null => GqlValue::Null,
        Value::Bool(b) => GqlValue::Boolean(*b),
        Value::Number(n) => GqlValue::Number(n.clone()),
        Value::String(s) => GqlValue::String(s.clone()),
        Value::Array(a) => GqlValue::List(a.iter().map(gqlv).collect()),
        Value::Object(o) => GqlValue::Object(o.iter().map(|(k, v)| (Name::new(k), gqlv(v))).collect()),
    }
}
fn borrowed(v: &Value) -> serde_json_borrow::Value<'_> {
    use serde_json_borrow::Value as B;
    match v {
        Value::Null => B::Null,
        Value::Bool(b) => B::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (_, Some(u)) => B::Number(u.into()),
            (Some(i), _) => B::Number(i.into()),
            _ => B::Number(n.as_f64().unwrap().into()),
        },
        Value::String(s) => B::Str(Cow::Borrowed(s)),
        Value::Array(a) => B::Array(a.iter().map(borrowed).collect()),
        Value::Object(o) => B::Object(o.iter().map(|(k, v)| (k.as_str(), borrowed(v))).collect::<Vec<_>>().into()),
    }
}
/// back to plain JSON, keys in their order
trait Plain {
    fn plain(&self) -> String;
}
impl Plain for Value {
    fn plain(&self) -> String {
        self.to_string()
    }
}
impl Plain for ConstValue {
    fn plain(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
}
impl Plain for GqlValue {
    fn plain(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
}
impl Plain for serde_json_borrow::Value<'_> {
    fn plain(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
}

// ------------------------------------------------------------------- C11
/// the entries of a document by the text of their key
fn groups(v: &Value, path: &[String], out: &mut BTreeMap<String, Vec<String>>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| groups(x, path, out)),
        Value::Object(o) => {
            let Some(x) = o.get(&path[0]) else { return };
            if path.len() > 1 {
                return groups(x, &path[1..], out);
            }
            let key = match x {
                Value::String(s) => s.clone(),
                Value::Number(n) => match (n.as_i64(), n.as_u64()) {
                    (Some(i), _) => i.to_string(),
                    (_, Some(u)) => u.to_string(),
                    _ => n.as_f64().unwrap().to_string(),
                },
                _ => return,
            };
            out.entry(key).or_default().push(v.plain());
        }
        _ => {}
    }
}

fn group_one<'a, J: JsonLike<'a> + Plain>(v: &'a J, path: &[String], want: &BTreeMap<String, Vec<String>>, key: &str, what: &str) -> Outcome {
    let got: BTreeMap<String, Vec<String>> = v.group_by(path).into_iter().map(|(k, v)| (k, v.iter().map(|x| x.plain()).collect())).collect();
    ensure_eq!(&got, want, key, "groups of the {what} document");
    Ok(())
}

fn group(ch: &Chooser, v: &Value, path: &[String]) -> Outcome {
    let key = if v.to_string().len() > 300 { format!("{}... by {path:?}", &v.to_string()[..100]) } else { format!("{v} by {path:?}") };
    ch.note(&key);
    ch.step();
    let mut want = BTreeMap::new();
    if !path.is_empty() {
        groups(v, path, &mut want);
    }
    if want.is_empty() {
        ch.trivial();
    }
    group_one(v, path, &want, &key, "plain")?;
    group_one(&constv(v), path, &want, &key, "constant")?;
    group_one(&gqlv(v), path, &want, &key, "graphql")?;
    group_one(&borrowed(v), path, &want, &key, "borrowed")?;
    ch.state(v.plain());
    ch.observe(format!("{want:?}"));
    Ok(())
}

#[derive(Clone, Debug)]
struct Get {
    coll: &'static str,
    id: &'static str,
    q: &'static str,
    user: &'static str,
}

/// The upstream: the records of a collection with the ids asked for, as seen
/// by a user.
fn upstream(user: &str, url: &reqwest::Url) -> Value {
    let coll = url.path().to_string();
    let q: Vec<String> = url.query_pairs().filter(|(k, _)| k == "q").map(|(_, v)| v.to_string()).collect();
    let mut out = vec![];
    for (k, id) in url.query_pairs() {
        if k != "id" {
            continue;
        }
        let n = match &*id {
            "none" => 0,
            "3" => 3,
            _ => 1,
        };
        for i in 0..n {
            let idv = if id == "2" { json!(2) } else { json!(&*id) };
            out.push(json!({ "node": { "id": idv, "coll": coll, "q": q.first(), "user": user, "i": i } }));
        }
    }
    // the answer comes in an order of its own
    out.reverse();
    Value::Array(out)
}

fn loads(ch: &Chooser, reqs: &[Get], list: bool, status: u16) -> Outcome {
    let key = format!("{reqs:?} list={list} status={status}");
    ch.note(&key);
    ch.step();
    let (run, log) = rt::runtime(
        Arc::new(move |sent| {
            let user = sent.headers.iter().find(|h| h.0 == "authorization").map(|h| h.1.clone()).unwrap_or_default();
            rt::reply(status, &[("x-answer", "1")], upstream(&user, &sent.url.parse().unwrap()).to_string())
        }),
        false,
    );
    let mk = |g: &Get| {
        let mut r = Request::new(Method::GET, format!("http://e.com/{}?q={}&id={}", g.coll, g.q, g.id).parse().unwrap());
        r.headers_mut().insert(HeaderName::from_static("authorization"), HeaderValue::from_static(g.user));
        r.headers_mut().insert(HeaderName::from_static("x-trace"), HeaderValue::from_static(g.id));
        DataLoaderRequest::new(r, ["authorization".to_string()].into())
    };
    let loader = HttpDataLoader::new(run, Some(GroupBy::new(s(&["node", "id"]), None)), list);
    let mut keys: Vec<DataLoaderRequest> = vec![];
    for g in reqs {
        let k = mk(g);
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let got = match sched::run(loader.load(&keys)) {
        Ok(g) => g,
        Err(e) => return fail(key, format!("the batch failed: {e}")),
    };
    ensure_eq!(got.len(), keys.len(), key, "number of answers");
    for g in reqs {
        let url = format!("http://e.com/{}?q={}&id={}", g.coll, g.q, g.id).parse().unwrap();
        let mut m = BTreeMap::new();
        groups(&upstream(g.user, &url), &s(&["node", "id"]), &mut m);
        let mine = m.remove(g.id).unwrap_or_default();
        let want = if list { format!("[{}]", mine.join(",")) } else { mine.first().cloned().unwrap_or("null".into()) };
        let Some(r) = got.get(&mk(g)) else { return fail(key, format!("{g:?} has no answer")) };
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail(key, format!("{g:?} failed: {e}")),
        };
        ensure_eq!(r.body.plain(), want, key, "answer to {g:?}");
        ensure_eq!(r.status.as_u16(), status, key, "status of the answer to {g:?}");
        ensure_eq!(r.headers.get("x-answer").map(|v| v.as_bytes()), Some(&b"1"[..]), key, "headers of the answer to {g:?}");
    }
    let log = log.lock().unwrap();
    ensure!(log.len() <= keys.len(), key, "{} requests sent for {} keys", log.len(), keys.len());
    ch.state(&*log);
    ch.observe(log.len());
    Ok(())
}

fn c11(ctx: &mut Ctx) {
    let leaves = [json!("1"), json!(1), json!(null), json!(2.5)];
    let paths = [s(&["a"]), s(&["b"]), s(&["a", "b"]), s(&["a", "a"]), s(&["a", "a", "b"]), s(&["c"]), s(&["a", "b", "c", "d"])];
    ctx.explore("documents", "every document of depth ≤2 over 4 leaves, keys a and b, lists of ≤2, 7 paths", |ch| {
        let path = ch.pick(&paths);
        let v = doc(ch, 2, &leaves, &["a", "b"], 2);
        group(ch, &v, path)
    });
    ctx.explore("names", "every document of depth ≤2 over 2 leaves whose objects use two of 6 unusual names, every path of ≤2 of these", |ch| {
        let all = ["0", "1", "", "id", "é", "__typename"];
        let (i, j) = (ch.choose(5), ch.range(1, 5));
        if i >= j {
            ch.trivial();
            return Ok(());
        }
        let path = s(&ch.seq(&[all[i], all[j]], 1, 2));
        let v = doc(ch, 2, &[json!("1"), json!(1)], &[all[i], all[j]], 1);
        group(ch, &v, &path)
    });
    let n = ctx.by(3, 4);
    ctx.explore("entries", "every list of ≤3 (4) of 16 entries, 3 paths", |ch| {
        let path = ch.pick(&[s(&["id"]), s(&["u", "id"]), s(&["u"])]).clone();
        let pool = [
            json!({"id": 1}), json!({"id": "1", "x": 1}), json!({"id": 1.0}), json!({"id": 2, "x": [1]}), json!({"id": null}), json!({"id": true}), json!({"id": [1]}), json!({"id": {"a": 1}}), json!({}), json!(null), json!(1),
            json!([{"id": 2}, {"id": 3}, {"id": 2, "x": 0}]), json!({"u": {"id": 1}, "id": 7}), json!({"u": [{"id": 1}, {"id": "2"}, [{"id": 1, "k": 1}]]}), json!({"id": ""}), json!({"u": "x"}),
        ];
        let v = Value::Array(ch.seq(&pool, 0, n));
        group(ch, &v, &path)
    });
    ctx.explore("ids", "every pair of 26 ids", |ch| {
        let ids = [
            json!(0), json!(-1), json!("-1"), json!("0"), json!("00"), json!("01"), json!(1), json!(9007199254740992u64), json!(9007199254740993u64), json!(9007199254740994u64), json!("9007199254740993"), json!(i64::MAX), json!(i64::MAX - 1), json!(i64::MIN), json!(i64::MIN + 1), json!(u64::MAX),
            json!(u64::MAX - 1), json!(i64::MAX as u64 + 1), json!(0.5), json!(-2.5), json!("a"), json!("A"), json!(" a"), json!("é"), json!("e\u{301}"), json!(""),
        ];
        let (a, b) = (ch.pick(&ids), ch.pick(&ids));
        group(ch, &json!([{ "id": a, "n": 1 }, { "id": b, "n": 2 }]), &s(&["id"]))
    });
    ctx.explore("large", "lists of up to 1000 entries over m ids; nesting of up to 100 levels", |ch| {
        let n = *ch.pick(&[4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000]);
        match ch.choose(4) {
            0 => {
                let m = *ch.pick(&[1usize, 2, 7, 1000]);
                group(ch, &Value::Array((0..n).map(|i| json!({ "id": i % m, "i": i })).collect()), &s(&["id"]))
            }
            1 => group(ch, &nest(n.min(100), true, json!({"id": 1})), &s(&["id"])),
            2 => {
                let d = n.min(100);
                let mut p: Vec<String> = (0..d).map(|_| "a".to_string()).collect();
                p.push("id".into());
                group(ch, &nest(d, false, json!([{"id": 1}, {"id": 2}])), &p)
            }
            _ => group(ch, &json!([{ "id": "x".repeat(n), "i": 0 }, { "id": "x".repeat(n - 1), "i": 1 }, { "id": "x".repeat(n - 1) + "y", "i": 2 }]), &s(&["id"])),
        }
    });
    ctx.explore("grouping", "the path and the key of every grouping with a path of ≤3 of 4 names and an optional key", |ch| {
        let p = ch.seq(&s(&["id", "user", "", "x.y"]), 0, 3);
        let k = ch.pick(&[None, Some("id".to_string()), Some("uid".to_string()), Some(String::new())]).clone();
        let key = format!("{p:?} {k:?}");
        ch.note(&key);
        ch.step();
        let g = GroupBy::new(p.clone(), k.clone());
        let want = k.clone().or(p.last().cloned()).unwrap_or("id".into());
        ensure_eq!(g.key(), want, key, "name of the key");
        ensure_eq!(g.path(), if p.is_empty() { s(&["id"]) } else { p.clone() }, key, "path");
        let j = serde_json::to_value(&g).unwrap();
        ensure_eq!(serde_json::from_value::<GroupBy>(j.clone()).unwrap(), g, key, "what is read back");
        ensure_eq!(j, Value::Object([("path", (!p.is_empty()).then(|| json!(p))), ("key", k.map(|k| json!(k)))].into_iter().filter_map(|(k, v)| Some((k.to_string(), v?))).collect()), key, "what is written");
        ch.state(key);
        Ok(())
    });
    ensure_default_grouping(ctx);
    let pool = [
        Get { coll: "u", id: "1", q: "x", user: "ann" },
        Get { coll: "u", id: "2", q: "x", user: "ann" },
        Get { coll: "u", id: "3", q: "x", user: "ann" },
        Get { coll: "u", id: "none", q: "x", user: "ann" },
        Get { coll: "u", id: "a%26b", q: "x", user: "ann" },
    ];
    let pool = pool.map(|g| if g.id == "a%26b" { Get { id: "4", ..g } } else { g });
    ctx.explore("batches", "every batch of ≤3 (4) of 5 requests that differ in their id, single and list results", |ch| {
        let list = ch.flag();
        let status = *ch.pick(&[200, 206]);
        let reqs = ch.seq(&pool, 1, n);
        loads(ch, &reqs, list, status)
    });
    ctx.explore("mixed", "every batch of ≤3 requests that differ in user, path, another parameter or id", |ch| {
        let list = ch.flag();
        let k = ch.range(1, 3);
        let reqs: Vec<Get> = (0..k).map(|_| Get { coll: *ch.pick(&["u", "v"]), id: *ch.pick(&["1", "2"]), q: *ch.pick(&["x", "y"]), user: *ch.pick(&["ann", "bob"]) }).collect();
        loads(ch, &reqs, list, 200)
    });
}

fn ensure_default_grouping(ctx: &mut Ctx) {
    ctx.explore("default", "the default grouping", |ch| {
        ch.step();
        let g = GroupBy::default();
        ensure_eq!(g.key(), "id", "default", "key");
        ensure_eq!(g.path(), s(&["id"]), "default", "path");
        Ok(())
    });
}

// ------------------------------------------------------------------- C12
fn same<'a, J>(v: &'a J, r: &Value, key: &str, what: &str, paths: &[Vec<String>]) -> Outcome
where
    J: JsonLike<'a> + Plain + Clone,
{
    ensure_eq!(v.plain(), r.plain(), key, "{what}: the document itself");
    ensure_eq!(v.as_str(), r.as_str(), key, "{what}: as a string");
    ensure_eq!(v.as_i64(), r.as_i64(), key, "{what}: as i64");
    ensure_eq!(v.as_u64(), r.as_u64(), key, "{what}: as u64");
    ensure_eq!(v.as_f64(), r.as_f64(), key, "{what}: as f64");
    ensure_eq!(v.as_bool(), r.as_bool(), key, "{what}: as bool");
    ensure_eq!(v.is_null(), r.is_null(), key, "{what}: is null");
    ensure_eq!(v.as_array().map(|a| a.len()), r.as_array().map(|a| a.len()), key, "{what}: as a list");
    ensure_eq!(v.as_object().map(|a| a.len()), r.as_object().map(|a| a.len()), key, "{what}: as an object");
    ensure_eq!(v.as_object().map(|a| a.is_empty()), r.as_object().map(|a| a.is_empty()), key, "{what}: is an empty object");
    ensure_eq!(v.clone().into_array().map(|a| a.iter().map(|x| x.plain()).collect::<Vec<_>>()), r.as_array().map(|a| a.iter().map(|x| x.plain()).collect::<Vec<_>>()), key, "{what}: into a list");
    ensure_eq!(v.clone().into_object().map(|o| J::object(o).plain()), r.as_object().map(|_| r.plain()), key, "{what}: into an object and back");
    ensure_eq!(v.clone().into_array().map(|o| J::array(o).plain()), r.as_array().map(|_| r.plain()), key, "{what}: into a list and back");
    ensure_eq!(v.clone().as_array_mut().is_some(), r.is_array(), key, "{what}: as a mutable list");
    ensure_eq!(v.clone().as_object_mut().is_some(), r.is_object(), key, "{what}: as a mutable object");
    let prim = v.as_primitive().map(|p| match p {
        JsonPrimitive::Null => json!(null),
        JsonPrimitive::Bool(b) => json!(b),
        JsonPrimitive::Str(s) => json!(s),
        JsonPrimitive::Number(n) => Value::Number(n),
    });
    ensure_eq!(prim, if r.is_array() || r.is_object() { None } else { Some(r.clone()) }, key, "{what}: as a primitive");
    ensure_eq!(J::null().plain(), "null", key, "{what}: null");
    if let (Some(o), Some(ro)) = (v.as_object(), r.as_object()) {
        let got: Vec<(String, String)> = o.iter().map(|(k, v)| (k.to_string(), v.plain())).collect();
        let want: Vec<(String, String)> = ro.iter().map(|(k, v)| (k.to_string(), v.plain())).collect();
        ensure_eq!(got, want, key, "{what}: the entries of the object");
    }
    for k in ["", "a", "b", "0", "A", "a.b"] {
        ensure_eq!(v.get_key(k).map(|x| x.plain()), r.as_object().and_then(|o| o.get(k)).map(|x| x.plain()), key, "{what}: the value of {k:?}");
        ensure_eq!(v.as_object().and_then(|o| o.get_key(k)).map(|x| x.plain()), r.as_object().and_then(|o| o.get(k)).map(|x| x.plain()), key, "{what}: the entry {k:?}");
    }
    for p in paths {
        ensure_eq!(v.get_path(p).map(|x| x.plain()), at(r, p).map(|x| x.plain()), key, "{what}: the value at {p:?}");
    }
    // element-wise functions
    let mut seen: Vec<String> = vec![];
    v.for_each(&mut |x| seen.push(x.plain()));
    let mut want = vec![];
    items(r, &mut |x| want.push(x.plain()));
    ensure_eq!(seen, want, key, "{what}: what for_each visits");
    for fails_at in [usize::MAX, 0, 1] {
        let mut n = 0;
        let mapped = v.clone().map(&mut |x: J| {
            n += 1;
            if n == fails_at.wrapping_add(1) { Err(n) } else { Ok(J::array(vec![x, J::null()])) }
        });
        let mut m = 0;
        let mapped_ref = v.map_ref(&mut |x: &J| {
            m += 1;
            if m == fails_at.wrapping_add(1) { Err(m) } else { Ok(J::array(vec![x.clone(), J::null()])) }
        });
        let want = if fails_at < want.len() { Err(fails_at + 1) } else { Ok(mapped_doc(r).plain()) };
        ensure_eq!(mapped.map(|x| x.plain()), want, key, "{what}: map, failing at {fails_at}");
        ensure_eq!(mapped_ref.map(|x| x.plain()), want, key, "{what}: map_ref, failing at {fails_at}");
    }
    Ok(())
}
fn items<'a>(v: &'a Value, f: &mut impl FnMut(&'a Value)) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| items(x, f)),
        _ => f(v),
    }
}
fn mapped_doc(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(mapped_doc).collect()),
        _ => json!([v, null]),
    }
}
fn at<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, t| match v {
        Value::Array(a) => a.get(t.parse::<usize>().ok()?),
        Value::Object(o) => o.get(t),
        _ => None,
    })
}

fn everywhere(ch: &Chooser, v: &Value, paths: &[Vec<String>]) -> Outcome {
    let mut key = v.to_string();
    if key.len() > 300 {
        key = format!("{}… ({} bytes)", key.chars().take(80).collect::<String>(), key.len());
    }
    ch.note(&key);
    ch.step();
    let (c, g, b) = (constv(v), gqlv(v), borrowed(v));
    same(v, v, &key, "plain", paths)?;
    same(&c, v, &key, "constant", paths)?;
    same(&g, v, &key, "graphql", paths)?;
    same(&b, v, &key, "borrowed", paths)?;
    macro_rules! to {
        ($t:ty) => {
            ensure_eq!(<$t as JsonLike>::clone_from(v).plain(), v.plain(), key, "plain into {}", stringify!($t));
            ensure_eq!(<$t as JsonLike>::clone_from(&c).plain(), v.plain(), key, "constant into {}", stringify!($t));
            ensure_eq!(<$t as JsonLike>::clone_from(&g).plain(), v.plain(), key, "graphql into {}", stringify!($t));
            ensure_eq!(<$t as JsonLike>::clone_from(&b).plain(), v.plain(), key, "borrowed into {}", stringify!($t));
        };
    }
    to!(Value);
    to!(ConstValue);
    to!(GqlValue);
    to!(serde_json_borrow::Value);
    ch.state(v.plain());
    ch.observe(v.plain());
    Ok(())
}

/// An object built by a history of insertions.
fn built<'a, J>(ops: &[(&'a str, i64)], with_capacity: bool, key: &str, what: &str) -> Outcome
where
    J: JsonLike<'a> + Plain,
{
    let mut o = if with_capacity { J::JsonObject::with_capacity(ops.len()) } else { J::JsonObject::new() };
    let mut want: Map<String, Value> = Map::new();
    for (k, v) in ops {
        ensure_eq!(o.len(), want.len(), key, "{what}: size");
        ensure_eq!(o.is_empty(), want.is_empty(), key, "{what}: is empty");
        o.insert_key(k, J::from_primitive(JsonPrimitive::Number((*v).into())));
        want.insert(k.to_string(), json!(v));
    }
    ensure_eq!(J::object(o).plain(), Value::Object(want.clone()).to_string(), key, "{what}: object after the insertions");
    let distinct: Vec<(&'a str, i64)> = ops.iter().enumerate().filter(|(i, (k, _))| !ops[..*i].iter().any(|(l, _)| l == k)).map(|(_, o)| *o).collect();
    let o = J::JsonObject::from_vec(distinct.iter().map(|(k, v)| (*k, J::from_primitive(JsonPrimitive::Number((*v).into())))).collect());
    let want: Map<String, Value> = distinct.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
    ensure_eq!(J::object(o).plain(), Value::Object(want).to_string(), key, "{what}: object from a list of entries");
    Ok(())
}

fn c12(ctx: &mut Ctx) {
    let mut paths: Vec<Vec<String>> = vec![vec![]];
    let toks = s(&["a", "b", "0", "1", "-1", "+1", "01", "", "a.b", "18446744073709551616"]);
    for t in &toks {
        paths.push(vec![t.clone()]);
        for u in &toks {
            paths.push(vec![t.clone(), u.clone()]);
            if t.len() <= 1 && u.len() <= 1 {
                paths.push(vec![t.clone(), u.clone(), "a".into()]);
                paths.push(vec![t.clone(), u.clone(), "0".into()]);
            }
        }
    }
    let leaves = all_leaves();
    ctx.explore("leaves", "every document of depth ≤1 over 23 leaves, keys a and b, lists of ≤2", |ch| {
        let v = doc(ch, 1, &leaves, &["a", "b"], 2);
        everywhere(ch, &v, &paths)
    });
    let two = [json!(1), json!(null), json!("x")];
    let len = ctx.by(2, 2);
    let few: Vec<_> = if ctx.thorough() { two.to_vec() } else { two[..2].to_vec() };
    ctx.explore("trees", "every document of depth ≤2 over 2 (3) leaves, keys b and a, lists of ≤2", |ch| {
        let v = doc(ch, 2, &few, &["b", "a"], len);
        everywhere(ch, &v, &paths)
    });
    ctx.explore("names", "every document of depth ≤2 over 2 leaves whose objects use two of 8 unusual names", |ch| {
        let i = ch.choose(8);
        let all = ["0", "1", "-1", "01", "", "a.b", "+1", "18446744073709551616"];
        let j = ch.choose(8);
        if i >= j {
            ch.trivial();
            return Ok(());
        }
        let v = doc(ch, 2, &[json!(1), json!(null)], &[all[i], all[j]], 1);
        everywhere(ch, &v, &paths)
    });
    ctx.explore("large", "objects and lists of up to 1000 entries, nesting of up to 100 levels", |ch| {
        let n = *ch.pick(&[3usize, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000]);
        let v = match ch.choose(4) {
            0 => Value::Array((0..n).map(|i| json!(i)).collect()),
            1 => Value::Object((0..n).rev().map(|i| (format!("k{i}"), json!(i))).collect()),
            2 => nest(n.min(100), true, json!(1)),
            _ => nest(n.min(100), false, json!(1)),
        };
        let i = n - 1;
        let paths = vec![s(&[&i.to_string()]), s(&[&n.to_string()]), s(&[&format!("k{i}")]), s(&["k0"]), vec!["0".to_string(); n.min(100)], vec!["a".to_string(); n.min(100)], vec!["a".to_string(); n.min(100) + 1], vec!["0".to_string(); n.min(100) + 1]];
        everywhere(ch, &v, &paths)
    });
    let d = ctx.by(4, 5);
    ctx.explore("objects", "every history of ≤4 (5) insertions of 4 keys", |ch| {
        let ks = ["b", "a", "", "é"];
        let n = ch.range(0, d);
        let ops: Vec<(&str, i64)> = (0..n).map(|i| (*ch.pick(&ks), i as i64)).collect();
        let cap = ch.flag();
        let key = format!("{ops:?} {cap}");
        ch.note(&key);
        ch.step();
        built::<Value>(&ops, cap, &key, "plain")?;
        built::<ConstValue>(&ops, cap, &key, "constant")?;
        built::<GqlValue>(&ops, cap, &key, "graphql")?;
        built::<serde_json_borrow::Value>(&ops, cap, &key, "borrowed")?;
        ch.state(key);
        Ok(())
    });
    ctx.explore("enums", "enum values are strings to the outside", |ch| {
        let n = Name::new(*ch.pick(&["A", "active", "_x"]));
        ch.note(n.as_str());
        ch.step();
        ensure_eq!(<Value as JsonLike>::clone_from(&ConstValue::Enum(n.clone())), json!(n.as_str()), n, "constant enum");
        ensure_eq!(<Value as JsonLike>::clone_from(&GqlValue::Enum(n.clone())), json!(n.as_str()), n, "graphql enum");
        ch.state(n.as_str());
        Ok(())
    });
}

// ------------------------------------------------------------------- C13
/// None: it cannot be decided
fn typed(v: &Value, types: &BTreeSet<String>, field: Option<&str>) -> Option<Value> {
    match v {
        Value::Null => Some(Value::Null),
        Value::Array(a) => a.iter().map(|x| typed(x, types, field)).collect::<Option<Vec<_>>>().map(Value::Array),
        Value::Object(o) if o.get("__typename").is_some_and(|t| t.is_string()) => Some(v.clone()),
        Value::Object(o) => match field {
            Some(f) => {
                let t = o.get(f)?.as_str()?;
                if !types.contains(t) {
                    return None;
                }
                let mut o = o.clone();
                o.insert("__typename".into(), json!(t));
                Some(Value::Object(o))
            }
            None => {
                if o.len() != 1 {
                    return None;
                }
                let (t, inner) = o.iter().next().unwrap();
                if !types.contains(t) {
                    return None;
                }
                match inner {
                    Value::Null => Some(Value::Null),
                    Value::Object(i) => {
                        let mut i = i.clone();
                        i.insert("__typename".into(), json!(t));
                        Some(Value::Object(i))
                    }
                    _ => None,
                }
            }
        },
        _ => None,
    }
}

fn discriminate(ch: &Chooser, v: &Value, types: &BTreeSet<String>, field: Option<&str>) -> Outcome {
    let mut key = format!("{v} of {types:?} by {field:?}");
    if key.len() > 400 {
        key = format!("{}… by {field:?}", key.chars().take(120).collect::<String>());
    }
    ch.note(&key);
    ch.step();
    let d = Discriminator::new("T".into(), types.clone(), field.map(|f| f.to_string())).to_result();
    if field == Some("") {
        ensure!(d.is_err(), key, "an empty field name is accepted");
        return Ok(());
    }
    let d = match d {
        Ok(d) => d,
        Err(e) => return fail(key, format!("no discriminator: {e:?}")),
    };
    let got = d.resolve_type(constv(v)).ok().map(|x| x.plain());
    let want = typed(v, types, field).map(|x| x.plain());
    ensure_eq!(got, want, key, "the typed value");
    ch.state(v.plain());
    ch.observe(format!("{got:?}"));
    Ok(())
}

fn c13(ctx: &mut Ctx) {
    let sets: Vec<BTreeSet<String>> = vec![[].into(), ["A".to_string()].into(), ["A".to_string(), "B".to_string()].into(), ["NULL".to_string(), "a".to_string()].into()];
    let fields = [None, Some("type"), Some("__typename"), Some("A"), Some("")];
    let leaves = [json!("A"), json!("B"), json!("C"), json!(null), json!(1)];
    ctx.explore("objects", "every document of depth ≤1 over 5 leaves and the keys A, type and __typename, lists of ≤2", |ch| {
        let types = ch.pick(&sets[1..3]);
        let f = *ch.pick(&fields);
        let v = doc(ch, 1, &leaves, &["A", "type", "__typename"], 2);
        discriminate(ch, &v, types, f)
    });
    let l2 = [json!("A"), json!(null)];
    ctx.explore("nested", "every document of depth ≤2 over 2 leaves and the keys A and type, lists of ≤2", |ch| {
        let types = ch.pick(&sets[1..3]);
        let f = *ch.pick(&[None, Some("type")]);
        let v = doc(ch, 2, &l2, &["A", "type"], 2);
        discriminate(ch, &v, types, f)
    });
    let n = ctx.by(4, 5);
    ctx.explore("lists", "every list of ≤4 (5) of 11 values, 4 sets of types, 4 fields", |ch| {
        let pool = [
            json!(null), json!({"A": {"x": 1}}), json!({"B": {}}), json!({"C": {}}), json!({"A": null}), json!({"A": {}, "B": {}}), json!({"type": "B", "x": 2}), json!({"type": "a"}), json!({"__typename": "Z", "type": "A"}), json!({"A": {"__typename": "Q"}}), json!([{"type": "A", "A": {}}]),
        ];
        let types = ch.pick(&sets);
        let f = *ch.pick(&fields[..4]);
        let v = Value::Array(ch.seq(&pool, 0, if types.len() == 2 && f != Some("A") && types.contains("A") { n } else { 2 }));
        discriminate(ch, &v, types, f)
    });
    ctx.explore("names", "type names: every pair of 12 texts as the type of a value and as a possible type", |ch| {
        let names = ["A", "a", "AA", "A ", " A", "", "É", "A_1", "Type", "type", "NULL", "null"];
        let (a, b) = (*ch.pick(&names), *ch.pick(&names));
        let types: BTreeSet<String> = [a.to_string(), "Zz".to_string()].into();
        if ch.flag() {
            discriminate(ch, &json!({ b: { "x": 1 } }), &types, None)
        } else {
            discriminate(ch, &json!({ "kind": b, "x": 1 }), &types, Some("kind"))
        }
    });
    ctx.explore("large", "lists of up to 1000 values, objects of up to 1000 fields, nesting of up to 100 lists, up to 1000 types", |ch| {
        let n = *ch.pick(&[3usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 999, 1000]);
        let f = *ch.pick(&[None, Some("type")]);
        let one = |i: usize| if f.is_none() { json!({ format!("T{i}"): { "i": i } }) } else { json!({ "i": i, "type": format!("T{i}") }) };
        let types: BTreeSet<String> = (0..n).map(|i| format!("T{i}")).collect();
        let v = match ch.choose(5) {
            0 => Value::Array((0..n).map(one).collect()),
            1 => Value::Array((0..n).map(|i| if i % 3 == 1 { json!(null) } else { one(i) }).collect()),
            2 => Value::Array((0..=n).map(one).collect()),
            3 => nest(n.min(100), true, one(0)),
            _ => Value::Object((0..n).map(|i| (format!("f{i}"), json!(i))).chain([("type".to_string(), json!("T1"))]).collect()),
        };
        discriminate(ch, &v, &types, f)
    });
    ctx.explore("type names", "setting and reading the type name of every document of depth ≤1, in each representation", |ch| {
        let v = doc(ch, 1, &leaves, &["b", "__typename"], 2);
        let t = *ch.pick(&["A", "B", ""]);
        let key = format!("{t:?} onto {v}");
        ch.note(&key);
        ch.step();
        let want = match &v {
            Value::Null => Some(v.plain()),
            Value::Object(o) => {
                let mut o = o.clone();
                o.insert("__typename".into(), json!(t));
                Some(Value::Object(o).plain())
            }
            _ => None,
        };
        let name = v.as_object().and_then(|o| o.get("__typename")).and_then(|x| x.as_str());
        macro_rules! on {
            ($x:expr) => {{
                let x = $x;
                ensure_eq!(x.get_type_name(), name, key, "type name of {}", stringify!($x));
            }
            {
                let mut x = $x;
                let ok = set(&mut x, t);
                ensure_eq!(ok.then(|| x.plain()), want, key, "{} with its type name set", stringify!($x));
                if !ok {
                    ensure_eq!(x.plain(), v.plain(), key, "{} after a failure", stringify!($x));
                }
            }};
        }
        on!(v.clone());
        on!(constv(&v));
        on!(gqlv(&v));
        ch.state(v.plain());
        Ok(())
    });
}

fn set<T>(x: &mut T, t: &str) -> bool
where
    T: for<'a> JsonLike<'a>,
{
    x.set_type_name(t.to_string()).is_ok()
}
