//! The whole server: what a gRPC upstream is asked, and what becomes of its
//! answer (C36).
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::config::{Config, ConfigModule};
use tailcall_valid::Validator;

use super::{Prop, MC};
use crate::engine::{Ctx, Outcome};
use crate::rt::{self, Answer, Files, Sent};
use crate::sched::World;
use crate::serve::{self, Site};
use crate::{ensure, ensure_eq};

pub const C36: Prop = Prop {
    id: "C36",
    level: MC,
    rule: "the message that arrives is the one meant, field by field, and the data is the message that came back, or an error",
    run: c36,
    assumptions: &["the message format and its JSON mapping are those of the protobuf specification, which the check has an encoder of its own for"],
};

/// what is on the wire after a tag
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum P {
    Var(u64),
    F32(u32),
    F64(u64),
    Len(Vec<u8>),
}
type Wire = Vec<(u32, P)>;

fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 128 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}

fn encode(w: &[(u32, P)]) -> Vec<u8> {
    let mut out = vec![];
    for (tag, p) in w {
        let kind = match p {
            P::Var(_) => 0,
            P::F64(_) => 1,
            P::Len(_) => 2,
            P::F32(_) => 5,
        };
        varint((*tag as u64) << 3 | kind, &mut out);
        match p {
            P::Var(v) => varint(*v, &mut out),
            P::F32(v) => out.extend(v.to_le_bytes()),
            P::F64(v) => out.extend(v.to_le_bytes()),
            P::Len(b) => {
                varint(b.len() as u64, &mut out);
                out.extend(b)
            }
        }
    }
    out
}

fn read_varint(b: &mut &[u8]) -> Result<u64, String> {
    let mut v = 0;
    for k in 0..10 {
        let (x, rest) = b.split_first().ok_or("cut off")?;
        *b = rest;
        v |= ((x & 127) as u64) << (7 * k);
        if x & 128 == 0 {
            return Ok(v);
        }
    }
    Err("a number without an end".into())
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
    if b.len() < n {
        return Err("cut off".into());
    }
    let (x, rest) = b.split_at(n);
    *b = rest;
    Ok(x)
}

fn decode(mut b: &[u8]) -> Result<Wire, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let key = read_varint(&mut b)?;
        let p = match key & 7 {
            0 => P::Var(read_varint(&mut b)?),
            1 => P::F64(u64::from_le_bytes(take(&mut b, 8)?.try_into().unwrap())),
            2 => {
                let n = read_varint(&mut b)? as usize;
                P::Len(take(&mut b, n)?.to_vec())
            }
            5 => P::F32(u32::from_le_bytes(take(&mut b, 4)?.try_into().unwrap())),
            k => return Err(format!("kind {k}")),
        };
        out.push(((key >> 3) as u32, p));
    }
    Ok(out)
}

fn frame(m: &[u8]) -> Vec<u8> {
    let mut out = vec![0];
    out.extend((m.len() as u32).to_be_bytes());
    out.extend(m);
    out
}

fn unframe(b: &[u8]) -> Result<&[u8], String> {
    ensure_that(b.len() >= 5 && b[0] == 0, "no frame")?;
    ensure_that(u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize == b.len() - 5, "the length of the frame is not that of the message")?;
    Ok(&b[5..])
}

fn ensure_that(ok: bool, msg: &str) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(msg.into())
    }
}

/// Fields with no presence are not there when they have the default value.
fn plain(w: Wire) -> Wire {
    let mut w: Wire = w
        .into_iter()
        .filter(|(tag, p)| {
            let zero = match p {
                P::Var(v) => *v == 0,
                P::F32(v) => *v == 0,
                P::F64(v) => *v == 0,
                P::Len(b) => b.is_empty(),
            };
            !zero || PRESENT.contains(tag)
        })
        .collect();
    w.sort();
    w
}

fn s(v: &str) -> P {
    P::Len(v.as_bytes().to_vec())
}
fn i(v: i64) -> P {
    P::Var(v as u64)
}

const PRESENT: &[u32] = &[13, 14, 15, 19, 20, 21, 23];

const PROTO: &str = r#"
syntax = "proto3";
package acme.shop.v1;
import "common.proto";
message Thing {
  int32 id = 1;
  string name = 2;
  int64 big = 3;
  uint32 small = 4;
  uint64 vast = 5;
  sint32 zig = 6;
  fixed32 fix = 7;
  sfixed64 sfix = 8;
  double ratio = 9;
  float single = 10;
  bool flag = 11;
  Color color = 12;
  Part part = 13;
  repeated string tags = 14;
  repeated Part parts = 15;
  bytes raw = 16;
  map<string, int32> counts = 17;
  repeated int32 nums = 18;
  oneof pick { string left = 19; int32 right = 20; }
  optional string maybe = 21;
  string first_name = 22;
  acme.common.Money price = 23;
}
enum Color { RED = 0; GREEN = 1; DARK_BLUE = 7; }
message Part { string label = 1; int32 size = 2; }
message ThingId { int32 id = 1; string name = 2; int64 big = 3; Color color = 4; string first_name = 5; bool flag = 6; }
message ThingIds { repeated ThingId ids = 1; }
message ThingList { repeated Thing items = 1; }
message None {}
message Node { int32 id = 1; Node next = 2; repeated Leaf leaves = 3; }
message Leaf { string name = 1; Node back = 2; }
message Nodes { repeated Node nodes = 1; }
service Shop {
  rpc Walk (Node) returns (Node) {}
  rpc Walks (ThingIds) returns (Nodes) {}
  rpc Get (ThingId) returns (Thing) {}
  rpc Put (Thing) returns (Thing) {}
  rpc Many (ThingIds) returns (ThingList) {}
  rpc All (None) returns (ThingList) {}
}
service Other { rpc Get (None) returns (Part) {} }
"#;

const COMMON: &str = r#"
syntax = "proto3";
package acme.common;
message Money { int64 units = 1; string code = 2; }
message Flaw { string field = 1; int32 place = 2; }
"#;

struct F {
    name: &'static str,
    ty: &'static str,
    /// JSON and what is on the wire
    pool: Vec<(Value, Wire)>,
    default: Value,
}

fn texts() -> Vec<&'static str> {
    vec!["a", "", "a\"b", "a\\b", "x\", \"id\": \"9", "{{.args.t.id}}", "two\nlines", "tab\t", "éß", "null", "5", "true", "{}", "[1]", " "]
}

fn fields() -> Vec<F> {
    let f = |name, ty, default: Value, pool: Vec<(Value, Wire)>| F { name, ty, pool, default };
    let one = |tag: u32, l: Vec<(Value, P)>| l.into_iter().map(|(v, p)| (v, vec![(tag, p)])).collect::<Vec<_>>();
    let part = |l: &str, n: i64| {
        let mut w = vec![];
        if !l.is_empty() {
            w.push((1, s(l)));
        }
        if n != 0 {
            w.push((2, i(n)));
        }
        P::Len(encode(&w))
    };
    vec![
        f("id", "Int", json!(0), one(1, vec![(json!(1), i(1)), (json!(0), i(0)), (json!(-1), i(-1)), (json!(i32::MAX), i(i32::MAX as i64)), (json!(i32::MIN), i(i32::MIN as i64)), (json!(300), i(300))])),
        f("name", "String", json!(""), one(2, texts().into_iter().map(|t| (json!(t), s(t))).collect())),
        f("big", "Int64", json!("0"), one(3, vec![(json!("5"), i(5)), (json!("9007199254740993"), i(9007199254740993)), (json!(i64::MIN.to_string()), i(i64::MIN)), (json!(i64::MAX.to_string()), i(i64::MAX))])),
        f("small", "UInt32", json!(0), one(4, vec![(json!(7), i(7)), (json!(u32::MAX), i(u32::MAX as i64))])),
        f("vast", "UInt64", json!("0"), one(5, vec![(json!("7"), i(7)), (json!(u64::MAX.to_string()), P::Var(u64::MAX))])),
        f("zig", "Int", json!(0), one(6, vec![(json!(-2), i(3)), (json!(i32::MIN), i(u32::MAX as i64)), (json!(4), i(8))])),
        f("fix", "UInt32", json!(0), one(7, vec![(json!(5), P::F32(5)), (json!(u32::MAX), P::F32(u32::MAX))])),
        f("sfix", "Int64", json!("0"), one(8, vec![(json!("-5"), P::F64(-5i64 as u64)), (json!("0"), P::F64(0))])),
        f("ratio", "Float", json!(0.0), one(9, [1.5, -0.25, 1e100, 0.30000000000000004, 3.0].into_iter().map(|v: f64| (json!(v), P::F64(v.to_bits()))).collect())),
        f("single", "Float", json!(0.0), one(10, [0.5f32, -2.25].into_iter().map(|v| (json!(v), P::F32(v.to_bits()))).collect())),
        f("flag", "Boolean", json!(false), one(11, vec![(json!(true), i(1)), (json!(false), i(0))])),
        f("color", "Color", json!("RED"), one(12, vec![(json!("GREEN"), i(1)), (json!("RED"), i(0)), (json!("DARK_BLUE"), i(7))])),
        f("part", "Part", json!(null), one(13, vec![(json!({"label": "a\"b", "size": 2}), part("a\"b", 2)), (json!({"label": "", "size": 0}), part("", 0))])),
        f("tags", "[String]", json!([]), vec![(json!(["a"]), vec![(14, s("a"))]), (json!(["b", "", "a", "b"]), vec![(14, s("b")), (14, s("")), (14, s("a")), (14, s("b"))])]),
        f("parts", "[Part]", json!([]), vec![(json!([{"label": "p", "size": 0}, {"label": "", "size": -3}]), vec![(15, part("p", 0)), (15, part("", -3))])]),
        f("raw", "Bytes", json!(""), one(16, vec![(json!("AP+8"), P::Len(vec![0, 255, 188])), (json!("YQ=="), P::Len(vec![97]))])),
        f("counts", "JSON", json!({}), vec![(json!({"k": 5}), vec![(17, P::Len(encode(&[(1, s("k")), (2, i(5))])))])]),
        f("nums", "[Int]", json!([]), vec![(json!([1, -1, 300]), vec![(18, P::Len([i(1), i(-1), i(300)].iter().flat_map(|p| encode(&[(1, p.clone())])[1..].to_vec()).collect()))])]),
        f("left", "String", json!(null), one(19, vec![(json!("l"), s("l")), (json!(""), s(""))])),
        f("right", "Int", json!(null), one(20, vec![(json!(4), i(4)), (json!(0), i(0))])),
        f("maybe", "String", json!(null), one(21, vec![(json!("m"), s("m")), (json!(""), s(""))])),
        f("firstName", "String", json!(""), one(22, vec![(json!("f"), s("f"))])),
        f("price", "Money", json!(null), vec![(json!({"units": "12", "code": "EUR"}), vec![(23, P::Len(encode(&[(1, i(12)), (2, s("EUR"))])))])]),
    ]
}

fn module(sdl: &str, files: &[(&str, &str)]) -> Result<ConfigModule, String> {
    let (mut runtime, _) = rt::runtime(Arc::new(|_| rt::json("{}")), false);
    let store = Files::default();
    for (k, v) in files {
        store.0.lock().unwrap().insert(k.to_string(), v.to_string());
    }
    runtime.file = Arc::new(store);
    let config = Config::from_sdl(sdl).to_result().map_err(|e| e.to_string())?;
    crate::sched::run(ConfigReader::init(runtime).resolve(config, Some(std::path::Path::new("/c")))).map_err(|e| format!("{e:?}"))
}

fn site_with(sdl: &str, answer: Answer) -> Result<Site, String> {
    serve::site_of(&module(sdl, &[("/c/shop.proto", PROTO), ("/c/common.proto", COMMON)])?, "", answer, false)
}

fn sdl(batch: bool, query: &str) -> String {
    let (mut fs, mut ins) = (String::new(), String::new());
    for f in fields() {
        fs += &format!("  {}: {}\n", f.name, f.ty);
        ins += &format!("  {}: {}\n", f.name, f.ty.replace("Part", "PartIn").replace("Money", "MoneyIn"));
    }
    format!(
        r#"schema @server @upstream(allowedHeaders: ["who"]{up}) @link(id: "shop", src: "shop.proto", type: Protobuf) {{ query: Query }}
type Query {{
{query}
}}
type Thing {{
{fs}}}
input ThingIn {{
{ins}}}
type List {{ items: [Thing] }}
type Part {{ label: String size: Int }}
input PartIn {{ label: String size: Int }}
type Money {{ units: Int64 code: String }}
input MoneyIn {{ units: Int64 code: String }}
enum Color {{ RED GREEN DARK_BLUE }}
input Key {{ id: Int name: String big: Int64 color: Color firstName: String flag: Boolean f: Float }}
"#,
        up = if batch { r#", batch: {delay: 1, maxSize: 10, headers: ["who"]}"# } else { "" },
    )
}

fn everything() -> String {
    fields().iter().map(|f| match f.name {
        "part" | "parts" => format!("{} {{ label size }}", f.name),
        "price" => "price { units code }".into(),
        n => n.to_string(),
    }).collect::<Vec<_>>().join(" ")
}

fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64() && (a.is_f64() || b.is_f64() || a == b),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_json(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_json(v, w))),
        _ => a == b,
    }
}

fn one_sent(site: &Site) -> Result<Sent, crate::engine::Violation> {
    let log = site.log.lock().unwrap();
    ensure!(log.len() == 1, "calls", "the upstream was called {} times", log.len());
    Ok(log[0].clone())
}

fn check_head(s: &Sent, method: &str) -> Outcome {
    ensure_eq!((s.method.as_str(), s.url.as_str()), ("POST", format!("http://up:50/{method}").as_str()), "address", "the address of a call");
    ensure!(s.headers.contains(&("content-type".into(), "application/grpc".into())), "content type", "a call has the headers {:?}", s.headers);
    Ok(())
}

fn c36(ctx: &mut Ctx) {
    // what the upstream gets: the argument as a whole, or field by field
    let fs = fields();
    let all = everything();
    ctx.explore("message", "for 23 kinds of fields, every value in the pool and every pair of fields with their first values; the message is the argument as a whole, made field by field, or below another key; batching or not", |ch| {
        let a = ch.choose(fs.len());
        let (x, wx) = ch.pick(&fs[a].pool);
        let mut value = json!({fs[a].name: x});
        let mut wire = wx.clone();
        if ch.flag() {
            let b = ch.choose(fs.len());
            if b <= a || (fs[a].name == "left" && fs[b].name == "right") {
                ch.trivial();
                return Ok(());
            }
            let (y, wy) = &fs[b].pool[0];
            value[fs[b].name] = y.clone();
            wire.extend(wy.clone());
        }
        let how = ch.choose(3);
        // (in a field of its own, an expression makes a text)
        if how == 1 && !value.as_object().unwrap().values().all(|v| v.is_string() || v.is_number()) {
            ch.trivial();
            return Ok(());
        }
        let body = match how {
            0 => r#""{{.args.t}}""#.to_string(),
            1 => format!("{{{}}}", value.as_object().unwrap().keys().map(|k| format!(r#"{k}: "{{{{.args.t.{k}}}}}""#)).collect::<Vec<_>>().join(", ")),
            _ => r#""{{.args.o.t}}""#.to_string(),
        };
        let batch = ch.flag();
        let query = format!("put(t: ThingIn, o: Outer): Thing @grpc(method: \"acme.shop.v1.Shop.Put\", url: \"http://up:50\", body: {body})");
        let answer: Answer = Arc::new(|_| rt::reply(200, &[("grpc-status", "0")], frame(&[])));
        let site = site_with(&(sdl(batch, &query) + "input Outer { t: ThingIn }\n"), answer).map_err(|e| bad("config", e))?;
        let r = if how == 2 {
            site.ask("query($o: Outer) { put(o: $o) { id } }", json!({"o": {"t": value}}))
        } else {
            site.ask("query($t: ThingIn) { put(t: $t) { id } }", json!({"t": value}))
        };
        ch.observe(&r.body);
        ensure!(r.errors().is_empty(), format!("refused {} {}", fs[a].name, how), "{value} as {body}: {}", r.body);
        let sent = one_sent(&site)?;
        check_head(&sent, "acme.shop.v1.Shop/Put")?;
        let got = unframe(&sent.raw).and_then(decode).map_err(|e| bad("frame", format!("{value} as {body}: {e}: {:?}", sent.raw)))?;
        ensure_eq!(plain(got), plain(wire), "message", "the message for {} as {}", value, body);
        Ok(())
    });

    // what the upstream says
    ctx.explore("answer", "for 23 kinds of fields, every value in the pool and every pair of fields; in any of 4 encodings; batching or not", |ch| {
        let a = ch.choose(fs.len());
        let (x, wx) = ch.pick(&fs[a].pool);
        let mut want: Value = fs.iter().map(|f| (f.name.to_string(), f.default.clone())).collect::<serde_json::Map<_, _>>().into();
        want[fs[a].name] = x.clone();
        let mut wire = wx.clone();
        if ch.flag() {
            let b = ch.choose(fs.len());
            if b <= a || (fs[a].name == "left" && fs[b].name == "right") {
                ch.trivial();
                return Ok(());
            }
            let (y, wy) = &fs[b].pool[0];
            want[fs[b].name] = y.clone();
            wire.extend(wy.clone());
        }
        match ch.choose(4) {
            0 => {}
            // fields that the reader does not know
            1 => wire.insert(0, (99, s("new"))),
            2 => {
                wire.reverse();
                for list in ["tags", "parts"] {
                    want[list].as_array_mut().unwrap().reverse();
                }
            }
            // the last one counts
            _ => {
                if !wire.iter().any(|w| w.0 == 22) {
                    want["firstName"] = json!("earlier");
                }
                wire.insert(0, (22, s("earlier")))
            }
        }
        let bytes = frame(&encode(&wire));
        let status = ch.flag();
        let answer: Answer = Arc::new(move |_| rt::reply(200, if status { &[("grpc-status", "0")] } else { &[] }, bytes.clone()));
        let batch = ch.flag();
        let site = site_with(&sdl(batch, "get(k: Key): Thing @grpc(method: \"acme.shop.v1.Shop.Get\", url: \"http://up:50/\", body: \"{{.args.k}}\")"), answer).map_err(|e| bad("config", e))?;
        let r = site.ask(&format!("query {{ get(k: {{id: 3}}) {{ {all} }} }}"), json!({}));
        ch.observe(&r.body);
        ensure!(r.errors().is_empty(), format!("refused {}", fs[a].name), "{want}: {}", r.body);
        ensure!(same_json(&r.data()["get"], &want), "data", "{wire:?} is {}, not {want}", r.data()["get"]);
        Ok(())
    });

    // many for one
    let want_of = |id: i64| json!({"id": id, "name": format!("n{id}"), "parts": [{"label": format!("p{id}"), "size": id}]});
    let kinds: [(&str, &str); 5] = [("id", "id"), ("name", "name"), ("big", "big"), ("firstName", "firstName"), ("color", "color")];
    let top = ctx.by(2, 3);
    ctx.explore("batch", &format!("up to {top} fields at once, of 3 keys of each of 5 kinds, as up to two users; an upstream that answers in any order, leaves some out and adds others"), |ch| {
        let (key, field) = *ch.pick(&kinds);
        let value = move |n: i64| match key {
            "id" => json!(n),
            "big" => json!((n + 9007199254740992).to_string()),
            "color" => json!(["RED", "GREEN", "DARK_BLUE"][n as usize]),
            _ => json!(format!("n{n}")),
        };
        let thing = move |n: i64| {
            let mut w = vec![(15, P::Len(encode(&[(1, s(&format!("p{n}"))), (2, i(n))])))];
            w.push((1, i(n)));
            w.push((2, s(&format!("n{n}"))));
            w.push((3, i(n + 9007199254740992)));
            w.push((12, i([0, 1, 7][n.min(2) as usize])));
            w.push((22, s(&format!("n{n}"))));
            P::Len(encode(&w))
        };
        let asked: Vec<(i64, usize)> = (0..ch.range(1, top)).map(|_| (ch.choose(3) as i64, ch.choose(2))).collect();
        // what there is, and in which order
        let order = ch.perm(&[0usize, 1, 2]);
        let there = ch.subset(&[0usize, 1, 2]);
        let (there2, order2) = (there.clone(), order.clone());
        let wants: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
        let seen = wants.clone();
        let answer: Answer = Arc::new(move |sent| {
            seen.lock().unwrap().push(sent.raw.clone());
            let items: Wire = order2.iter().filter(|n| there2.contains(n)).map(|n| (1, thing(*n as i64))).collect();
            rt::reply(200, &[("grpc-status", "0")], frame(&encode(&items)))
        });
        let site = site_with(&sdl(true, &format!("one(k: Key): Thing @grpc(method: \"acme.shop.v1.Shop.Many\", url: \"http://up:50\", body: \"{{{{.args.k}}}}\", batchKey: [\"items\", \"{field}\"])")), answer).map_err(|e| bad("config", e))?;
        let mut w = World::new();
        let mut meant = vec![];
        for user in 0..2 {
            let mine: Vec<i64> = asked.iter().filter(|a| a.1 == user).map(|a| a.0).collect();
            if mine.is_empty() {
                continue;
            }
            let q: String = mine.iter().enumerate().map(|(k, n)| format!("f{k}: one(k: {{{key}: {}}}) {{ id name parts {{ label size }} }} ", value(*n).to_string().replace("\"RED\"", "RED").replace("\"GREEN\"", "GREEN").replace("\"DARK_BLUE\"", "DARK_BLUE"))).collect();
            w.add(site.request(json!({"query": format!("{{ {q} }}")}), &[("who", ["ann", "bob"][user])]));
            meant.push((user, mine));
        }
        let replies = serve::drive(&mut w, Some(ch));
        for (r, (_, mine)) in replies.iter().zip(&meant) {
            let r = r.as_ref().unwrap();
            ch.observe(&r.body);
            ensure!(r.errors().is_empty(), format!("refused {key}"), "{mine:?} of {there:?} by {key}: {}", r.body);
            for (k, n) in mine.iter().enumerate() {
                let want = if there.contains(&(*n as usize)) { want_of(*n) } else { Value::Null };
                ensure!(same_json(&r.data()[format!("f{k}")], &want), format!("data by {key}"), "{mine:?} of {there:?} in order {order:?} by {key}: {}", r.body);
            }
        }
        // everybody's keys, once each and nobody else's
        let mut by: BTreeMap<String, Vec<Vec<P>>> = Default::default();
        for s in site.log.lock().unwrap().iter() {
            check_head(s, "acme.shop.v1.Shop/Many")?;
            let m = unframe(&s.raw).and_then(decode).map_err(|e| bad("frame", e))?;
            let mut ids = vec![];
            for (tag, p) in m {
                let P::Len(b) = p else { return Err(bad("frame", "an id that is none")) };
                ensure_eq!(tag, 1, "message", "the tag");
                ids.push(P::Len(b));
            }
            let who = s.headers.iter().find(|h| h.0 == "who").map(|h| h.1.clone()).unwrap_or_default();
            by.entry(who).or_default().push(ids);
        }
        for (user, mine) in &meant {
            let calls = by.remove(["ann", "bob"][*user]).unwrap_or_default();
            ensure!(calls.len() == 1, "calls", "{mine:?}: {} calls", calls.len());
            let mut got = calls[0].clone();
            got.sort();
            let mut want: Vec<P> = mine
                .iter()
                .map(|n| match key {
                    "id" => P::Len(encode(&plain(vec![(1, i(*n))]))),
                    "name" => P::Len(encode(&[(2, s(&format!("n{n}")))])),
                    "big" => P::Len(encode(&[(3, i(n + 9007199254740992))])),
                    "color" => P::Len(encode(&plain(vec![(4, i([0, 1, 7][*n as usize]))]))),
                    _ => P::Len(encode(&[(5, s(&format!("n{n}")))])),
                })
                .collect();
            want.sort();
            want.dedup();
            ensure_eq!(got, want, "message", "the keys for {:?}", mine);
        }
        ensure!(by.is_empty(), "calls", "calls for others: {by:?}");
        Ok(())
    });

    // a key that cannot be sent does not harm the others
    ctx.explore("bad key", "up to 3 fields at once, of 3 keys, one of which has no message; with a batch key and without", |ch| {
        let asked: Vec<usize> = (0..ch.range(1, 3)).map(|_| ch.choose(3)).collect();
        let grouped = ch.flag();
        let batch = ch.flag();
        let answer: Answer = Arc::new(move |sent| {
            let m = unframe(&sent.raw).and_then(decode).unwrap_or_default();
            if grouped {
                let items: Wire = (1..3).map(|n| (1, P::Len(encode(&[(1, i(n)), (2, s(&format!("n{n}")))])))).collect();
                return rt::reply(200, &[("grpc-status", "0")], frame(&encode(&items)));
            }
            let mut m = m;
            let P::Var(n) = m[0].1 else { panic!() };
            m.push((2, s(&format!("n{n}"))));
            rt::reply(200, &[("grpc-status", "0")], frame(&encode(&m)))
        });
        let (method, by) = if grouped { ("Many", ", batchKey: [\"items\", \"id\"]") } else { ("Get", "") };
        if grouped && !batch {
            ch.trivial();
            return Ok(());
        }
        let site = site_with(&sdl(batch, &format!("one(id: Float): Thing @grpc(method: \"acme.shop.v1.Shop.{method}\", url: \"http://up:50\", body: {{id: \"{{{{.args.id}}}}\"}}{by})")), answer).map_err(|e| bad("config", e))?;
        let mut w = World::new();
        for n in &asked {
            w.add(site.request(json!({"query": format!("{{ one(id: {}) {{ name }} }}", ["1", "2", "1.5"][*n])}), &[]));
        }
        let replies = serve::drive(&mut w, Some(ch));
        for (n, r) in asked.iter().zip(&replies) {
            let r = r.as_ref().unwrap();
            ch.observe(&r.body);
            let what = format!("{} of {asked:?}, {}: {}", ["1", "2", "1.5"][*n], if grouped { "grouped" } else { "each" }, r.body);
            if *n == 2 {
                ensure!(r.data().is_null() && r.errors().len() == 1, "no error", "{what}");
            } else {
                ensure!(r.errors().is_empty() && r.data()["one"] == json!({"name": format!("n{}", n + 1)}), "data", "{what}");
            }
        }
        Ok(())
    });

    // failures
    let texts: [(&str, &str); 4] = [("plain", "plain"), ("", ""), ("a%20b%2Fc", "a b/c"), ("%C3%A9%22q", "é\"q")];
    let b64 = |b: &[u8]| {
        const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut out = String::new();
        for c in b.chunks(3) {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            for k in 0..=c.len() {
                out.push(A[(n >> (18 - 6 * k)) as usize & 63] as char);
            }
        }
        out
    };
    ctx.explore("failure", "17 status codes, 4 messages, 0 to 2 details of 2 known types and an unknown one; batching or not, with a batch key or not, 1 or 2 fields", |ch| {
        let code = ch.choose(17);
        let (sent, text) = *ch.pick(&texts);
        let details: Vec<usize> = (0..ch.choose(3)).map(|_| ch.choose(3)).collect();
        let any = |k: usize| {
            let (ty, m) = match k {
                0 => ("acme.common.Flaw", encode(&[(1, s("na\"me")), (2, i(4))])),
                1 => ("acme.shop.v1.Part", encode(&[(1, s("l"))])),
                _ => ("acme.other.Unknown", encode(&[(1, s("l"))])),
            };
            P::Len(encode(&[(1, s(&format!("type.googleapis.com/{ty}"))), (2, P::Len(m))]))
        };
        let mut status = vec![(1, i(code as i64)), (2, s("inner"))];
        status.extend(details.iter().map(|k| (3, any(*k))));
        let details_bin = b64(&encode(&status));
        let with = !details.is_empty();
        let junk = ch.flag();
        let answer: Answer = Arc::new(move |_| {
            let mut h = vec![("grpc-status".to_string(), code.to_string()), ("grpc-message".to_string(), sent.to_string())];
            if with {
                h.push(("grpc-status-details-bin".to_string(), details_bin.clone()));
            }
            let h: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            rt::reply(200, &h, if junk { frame(&encode(&[(1, P::Len(encode(&[(1, i(1)), (2, s("made up"))])))])) } else { vec![] })
        });
        let mode = ch.choose(3);
        let (method, by) = if mode == 2 { ("Many", ", batchKey: [\"items\", \"id\"]") } else { ("Get", "") };
        let site = site_with(&sdl(mode > 0, &format!("one(k: Key): Thing @grpc(method: \"acme.shop.v1.Shop.{method}\", url: \"http://up:50\", body: \"{{{{.args.k}}}}\"{by})")), answer).map_err(|e| bad("config", e))?;
        if code == 0 {
            ch.trivial();
            return Ok(());
        }
        let many = ch.flag();
        let r = site.ask(if many { "{ a: one(k: {id: 1}) { name } b: one(k: {id: 2}) { name } }" } else { "{ a: one(k: {id: 1}) { name } }" }, json!({}));
        ch.observe(&r.body);
        ensure_eq!(r.data(), Value::Null, "made up", "data of a failed call");
        ensure!(!r.errors().is_empty() && r.errors().len() <= 1 + many as usize, "errors", "the errors in {}", r.body);
        for e in &r.errors() {
            let want_details = if with {
                json!({"code": code, "message": "inner", "details": details.iter().filter_map(|k| match k { 0 => Some(json!({"field": "na\"me", "place": 4})), 1 => Some(json!({"label": "l"})), _ => None }).collect::<Vec<_>>()})
            } else {
                json!({"details": []})
            };
            let x = &e["extensions"];
            ensure_eq!((&x["grpcCode"], &x["grpcStatusMessage"], &x["grpcStatusDetails"]), (&json!(code), &json!(text), &want_details), format!("status {mode}"), "the error {}", e);
        }
        Ok(())
    });

    // answers that are none
    ctx.explore("broken", "every way to cut a message short, frames with a wrong length or a compressed message, and HTTP statuses; batching or not", |ch| {
        let good = frame(&encode(&[(1, i(1)), (2, s("name"))]));
        let incomplete = "an incomplete message";
        let (key, what, status, bytes): (&str, String, u16, Vec<u8>) = match ch.choose(6) {
            0 => {
                let n = ch.choose(good.len());
                (incomplete, format!("the first {n} bytes"), 200, good[..n].to_vec())
            }
            1 => {
                let mut b = good.clone();
                b[4] += 1 + ch.choose(3) as u8;
                (incomplete, "a frame longer than the message".into(), 200, b)
            }
            2 => {
                let mut b = good.clone();
                b[0] = 1;
                ("a compressed message", "".into(), 200, b)
            }
            3 => {
                let n = *ch.pick(&[400, 404, 500, 503, 301]);
                ("HTTP", format!("HTTP {n}"), n, if ch.flag() { good.clone() } else { vec![] })
            }
            4 => ("a field of another type", "".into(), 200, frame(&encode(&[(1, s("text"))]))),
            _ => ("a name that is no text", "".into(), 200, frame(&encode(&[(2, P::Len(vec![255, 254]))]))),
        };
        let (w, b) = (status, bytes.clone());
        let answer: Answer = Arc::new(move |_| rt::reply(w, &[("content-type", "application/grpc")], b.clone()));
        let batch = ch.flag();
        let site = site_with(&sdl(batch, "get(k: Key): Thing @grpc(method: \"acme.shop.v1.Shop.Get\", url: \"http://up:50\", body: \"{{.args.k}}\")"), answer).map_err(|e| bad("config", e))?;
        let r = site.ask("{ get(k: {id: 3}) { id name } }", json!({}));
        ch.observe(&r.body);
        ensure!(r.data()["get"].is_null() && r.errors().len() == 1, format!("taken: {key}"), "{what}: {}", r.body);
        Ok(())
    });

    // messages that contain themselves
    ctx.explore("recursive", "types and messages that contain themselves, directly or by way of another one, as answers, as arguments, and in constants; all values up to 3 deep", |ch| {
        let ty = match ch.choose(4) {
            0 => "type Node { id: Int next: Node leaves: [Leaf] }\ntype Leaf { name: String back: Node }",
            1 => "type Node { id: Int next: Node }",
            2 => "type Node { leaves: [Leaf!] id: Int next: Node }\ntype Leaf { back: Node name: String }",
            _ => "type Node { id: Int next: JSON leaves: JSON }",
        };
        let input = ch.pick(&["input In { id: Int next: In leaves: [InLeaf] }\ninput InLeaf { name: String back: In }", "input In { id: Int next: In }"]);
        let leaves = ty.contains("Leaf") && input.contains("Leaf");
        let constant = r#"@expr(body: {id: 1, next: {id: 2, next: {id: 3}}})"#;
        let by = ch.choose(3);
        let at = match by {
            0 => r#"@grpc(method: "acme.shop.v1.Shop.Walk", url: "http://up:50", body: "{{.args.k}}")"#,
            1 => r#"@grpc(method: "acme.shop.v1.Shop.Walks", url: "http://up:50", body: {id: "{{.args.id}}"}, batchKey: ["nodes", "id"])"#,
            _ => constant,
        };
        let sdl = format!(
            "schema @server @upstream(batch: {{delay: 1}}) @link(id: \"shop\", src: \"shop.proto\", type: Protobuf) {{ query: Query }}\ntype Query {{ f(k: In, id: Int): Node {at} }}\n{ty}\n{input}\n"
        );
        ch.note(&sdl);
        ch.go();
        // Node 1, with up to 2 below
        let deep = if by == 2 { 2 } else { ch.choose(3) as i64 };
        let leafy = leaves && by < 2 && ch.flag();
        let mut wire = vec![(1, i(deep + 1))];
        let mut value = json!({"id": deep + 1});
        for n in (1..=deep).rev() {
            wire = vec![(1, i(n)), (2, P::Len(encode(&wire)))];
            value = json!({"id": n, "next": value});
        }
        if leafy {
            wire.push((3, P::Len(encode(&[(1, s("l")), (2, P::Len(encode(&[(1, i(7))])))]))));
            value["leaves"] = json!([{"name": "l", "back": {"id": 7}}]);
        }
        let m = if by == 1 { encode(&[(1, P::Len(encode(&wire)))]) } else { encode(&wire) };
        let answer: Answer = Arc::new(move |_| rt::reply(200, &[], frame(&m)));
        let site = site_with(&sdl, answer).map_err(|e| bad("config", format!("{sdl}: {e}")))?;
        let any = ty.contains("JSON");
        let mut q = if any { "id next".to_string() } else { "id next { id next { id next { id } } }".to_string() };
        if leafy {
            q += if any { " leaves" } else { " leaves { name back { id } }" };
        }
        let r = site.ask(&format!("query($k: In) {{ f(k: $k, id: 1) {{ {q} }} }}"), json!({"k": value}));
        ch.observe(&r.body);
        let mut got = r.data()["f"].clone();
        fn trim(v: &mut Value) {
            match v {
                Value::Object(o) => {
                    o.retain(|k, v| !(v.is_null() && k == "next" || k == "leaves" && v.as_array().is_some_and(|l| l.is_empty())));
                    o.values_mut().for_each(trim);
                }
                Value::Array(l) => l.iter_mut().for_each(trim),
                _ => {}
            }
        }
        trim(&mut got);
        ensure!(r.errors().is_empty() && same_json(&got, &value), "data", "{sdl}: {} for {value}", r.body);
        if by == 0 {
            let sent = one_sent(&site)?;
            let got = unframe(&sent.raw).map_err(|e| bad("frame", e))?;
            ensure_eq!(got, encode(&wire), "message", "the message for {}", value);
        }
        Ok(())
    });
}

fn bad(key: &str, msg: impl Into<String>) -> crate::engine::Violation {
    crate::engine::Violation { key: key.into(), msg: msg.into() }
}
