//! The whole server: every request is answered as if it were alone (C29).
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::rt::Sent;
use crate::sched::World;
use crate::serve::{self, Reply, Site};
use crate::{ensure, ensure_eq, rt};

pub const C29: Prop = Prop {
    id: "C29",
    level: MC,
    rule: "",
    run: c29,
    assumptions: &["what an upstream answers depends only on what it is asked", "different requests have different 64-bit fingerprints"],
};

fn sdl(batch: bool, every: usize) -> String {
    format!(
        r#"schema @server(batchRequests: {batch}, headers: {{cacheControl: true}}) @upstream(allowedHeaders: ["x-user"]{b}) {{ query: Query mutation: Mutation }}
type Query {{
  p: String @expr(body: "one")
  q: String @expr(body: "two")
  e(x: Int = 7): String @expr(body: "{{{{.args.x}}}}")
  k(x: Int): N @expr(body: {{id: 5, name: "k"}})
  h(id: Int): N @http(url: "http://up/h", query: [{{key: "id", value: "{{{{.args.id}}}}"}}])
  d(id: Int): N @http(url: "http://up/d", query: [{{key: "id", value: "{{{{.args.id}}}}"}}], dedupe: true)
  c(id: Int): N @http(url: "http://up/c", query: [{{key: "id", value: "{{{{.args.id}}}}"}}]) @cache(maxAge: 100000)
  g(id: Int): N @graphQL(url: "http://up/g", name: "g", args: [{{key: "id", value: "{{{{.args.id}}}}"}}], dedupe: true)
  gc(id: Int): N @graphQL(url: "http://up/g", name: "g", args: [{{key: "id", value: "{{{{.args.id}}}}"}}]) @cache(maxAge: 100000)
  gd(id: Int): N @graphQL(url: "http://up/g", name: "g", args: [{{key: "id", value: "{{{{.args.id}}}}"}}], headers: [{{key: "x-who", value: "{{{{.headers.x-user}}}}2"}}]) @cache(maxAge: 100000)
  ge(id: Int): N @graphQL(url: "http://up/g?2", name: "g", args: [{{key: "id", value: "{{{{.args.id}}}}"}}]) @cache(maxAge: 100000)
  bad(id: String!): N @http(url: "http://{{{{.args.id}}}}/d", dedupe: true)
  l: [N] @http(url: "http://up/l")
}}
type Mutation {{
  m(x: Int!): N @http(url: "http://up/m", method: POST, body: "{{{{.args.x}}}}", dedupe: true)
}}
type N {{
  id: Int
  name: String
  user: String
  peer: N @http(url: "http://up/d", query: [{{key: "id", value: "{{{{.value.id}}}}"}}], batchKey: [], dedupe: true)
}}
"#,
        b = if every > 0 { format!(", batch: {{delay: 1, maxSize: {every}, headers: [\"x-user\"]}}") } else { String::new() }
    )
    .replace(", batchKey: []", "")
}

fn answer(s: &Sent) -> anyhow::Result<tailcall::core::http::Response<hyper::body::Bytes>> {
    let user = s.headers.iter().find(|h| h.0 == "x-user").map(|h| h.1.clone());
    let u = reqwest::Url::parse(&s.url).unwrap();
    let id: i64 = u.query_pairs().find(|p| p.0 == "id").and_then(|p| p.1.parse().ok()).unwrap_or(0);
    let node = |id: i64| json!({"id": id, "name": format!("{}{id}", u.path()), "user": user});
    let age = [("content-type", "application/json"), ("cache-control", if id == 1 { "max-age=10" } else { "max-age=100, private" })];
    let body = match u.path() {
        "/l" => json!([node(1), node(2)]),
        "/g" => {
            let q: Value = serde_json::from_str(s.body.as_deref().unwrap_or("")).unwrap();
            let q = q["query"].as_str().unwrap();
            let id: i64 = q.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
            if id == 9 {
                return rt::reply(500, &age, "no");
            }
            let who = s.headers.iter().find(|h| h.0 == "x-who").map(|h| h.1.clone());
            let mut n = node(id);
            n["name"] = json!(format!("{}{:?}{who:?}", u.path(), u.query()));
            json!({"data": {"g": n}})
        }
        "/m" => node(s.body.as_deref().and_then(|b| b.parse().ok()).unwrap_or(-1)),
        "/h" | "/d" if id == 9 => return rt::reply(500, &age, "no"),
        _ => node(id),
    };
    rt::reply(200, &age, body.to_string())
}

/// what is asked, and by whom
fn requests() -> Vec<(Value, Option<&'static str>)> {
    let q = |q: &str, v: Value| json!({"query": q, "variables": v});
    let op = |q: &str, o: &str| json!({"query": q, "operationName": o});
    let two = "query A { p } query B { q }";
    let io = "query A { d(id: 1) { id } } query B { d(id: 1) { name } } mutation C { m(x: 1) { id } }";
    let skip = "query($v: Boolean!) { p @skip(if: $v) q }";
    let inc = "query($v: Boolean!) { p q @include(if: $v) }";
    let get = "query($i: Int) { h(id: $i) { id name user } }";
    vec![
        (q("{ p }", json!({})), None),
        (op(two, "A"), None),
        (op(two, "B"), None),
        (q(two, json!({})), None),
        (op(two, "C"), None),
        (q(skip, json!({"v": true})), None),
        (q(skip, json!({"v": false})), None),
        (q(inc, json!({"v": true})), None),
        (q(inc, json!({"v": false})), None),
        (q("query($x: Int) { e(x: $x) }", json!({"x": 1})), None),
        (q("query($x: Int) { e(x: $x) }", json!({"x": 2})), None),
        (q("query($x: Int) { k(x: $x) { id } }", json!({"x": 1})), None),
        (q("query($x: Int) { k(x: $x) { id } }", json!({})), None),
        (q("query($x: Int) { k(x: $x) { id } }", json!({"x": {"a": []}})), None),
        (q(get, json!({"i": 1})), None),
        (q(get, json!({"i": 2})), Some("u")),
        (q(get, json!({"i": 2})), Some("v")),
        (q("query($i: Int) { h(id: $i) { id } l { id } }", json!({"i": 2})), Some("v")),
        (op(io, "A"), None),
        (op(io, "B"), None),
        (op(io, "C"), None),
        (q("query($i: Int) { d(id: $i) { id user } }", json!({"i": 1})), Some("u")),
        (q("query($i: Int) { d(id: $i) { id user } }", json!({"i": 1})), Some("v")),
        (q("query($i: Int) { d(id: $i) { id user } }", json!({"i": 2})), Some("v")),
        (q(get, json!({"i": 9})), Some("u")),
        (q("query($i: Int) { d(id: $i) { id user } }", json!({"i": 9})), Some("u")),
        (q("{ g(id: 9) { id user } }", json!({})), Some("v")),
        (q("{ c(id: 1) { id user } }", json!({})), Some("u")),
        (q("{ c(id: 1) { id user } }", json!({})), Some("v")),
        (q("{ x: c(id: 2) { name } }", json!({})), Some("v")),
        (q("{ g(id: 1) { id user } }", json!({})), Some("u")),
        (q("{ g(id: 1) { id user } }", json!({})), Some("v")),
        (q("{ g(id: 1) { id name } }", json!({})), Some("v")),
        (q("{ gc(id: 1) { name user } }", json!({})), Some("u")),
        (q("{ gc(id: 1) { name user } }", json!({})), Some("v")),
        (q("{ gd(id: 1) { name user } }", json!({})), Some("u")),
        (q("{ gd(id: 1) { name user } }", json!({})), None),
        (q("{ ge(id: 1) { name user } gc(id: 1) { name user } }", json!({})), Some("u")),
        (q("query($i: String!) { bad(id: $i) { id } }", json!({"i": "["})), None),
        (q("query($i: String!) { bad(id: $i) { id } }", json!({"i": "up:80"})), None),
        (q("{ l { id peer { name user } } }", json!({})), Some("u")),
        (q("mutation($x: Int!) { m(x: $x) { name user } }", json!({"x": 1})), Some("u")),
        (q("mutation($x: Int!) { m(x: $x) { name user } }", json!({"x": 2})), Some("u")),
        (q("{", json!({})), None),
        (q("{ nope }", json!({})), None),
        (q("{ __schema { queryType { name } } }", json!({})), None),
        (q("query($n: String!) { __type(name: $n) { name } }", json!({"n": "N"})), None),
        (q("query($n: String!) { __type(name: $n) { name } }", json!({"n": "Query"})), None),
    ]
}

fn new(batch: bool, every: usize, gated: bool) -> Site {
    serve::site(&sdl(batch, every), Arc::new(answer), gated).unwrap()
}

/// The answer when nothing else has ever been asked.
fn alone(every: usize, i: usize) -> Reply {
    static KNOWN: Mutex<Option<HashMap<(usize, usize), Reply>>> = Mutex::new(None);
    let mut k = KNOWN.lock().unwrap_or_else(|e| e.into_inner());
    let k = k.get_or_insert_with(HashMap::new);
    k.entry((every, i))
        .or_insert_with(|| {
            let (b, u) = &requests()[i];
            new(false, every, false).ask_with(b.clone(), &headers(u))
        })
        .clone()
}

fn headers<'a>(u: &Option<&'a str>) -> Vec<(&'static str, &'a str)> {
    u.iter().map(|u| ("x-user", *u)).collect()
}

fn show(i: usize) -> String {
    let (b, u) = &requests()[i];
    format!("{} {} {}{}", b["query"].as_str().unwrap(), b["variables"], b["operationName"].as_str().unwrap_or(""), u.map(|u| format!(" by {u}")).unwrap_or_default())
}

fn same(ch: &Chooser, got: &Reply, i: usize, every: usize, key: &str) -> Outcome {
    let want = alone(every, i);
    ch.observe(&got.body);
    ensure_eq!((got.status, got.json()), (want.status, want.json()), key, "answer to {}", show(i));
    Ok(())
}

fn same_headers(got: &Reply, i: usize, every: usize, key: &str) -> Outcome {
    let want = alone(every, i);
    if got.headers == want.headers {
        return Ok(());
    }
    let mut less = want.headers.clone();
    less.remove("cache-control");
    let q = show(i);
    for (field, what) in [(" c(", "cached"), (" d(", "shared"), (" g(", "shared"), ("gc(", "cached"), ("gd(", "cached"), ("ge(", "cached"), ("bad(", "shared"), ("peer", "shared")] {
        // (of the two upstream answers that one is made of, one is shared)
        let part = field == "peer" && got.headers.get("cache-control") == Some(&vec!["max-age=100, private".to_string()]);
        let mut have = got.headers.clone();
        if part {
            have.remove("cache-control");
        }
        if have == less && q.contains(field) && !q.starts_with("mutation") && requests()[i].0["operationName"] != "C" {
            return crate::engine::fail(format!("no cache-control: {what} answer"), format!("{key}: {q}: {:?}, expected {:?}", got.headers, want.headers));
        }
    }
    ensure_eq!(got.headers, want.headers, key, "headers of the answer to {q}");
    Ok(())
}

fn c29(ctx: &mut Ctx) {
    let all = requests();
    let n = all.len();
    ctx.explore("sense", "every request on its own", |ch| {
        let i = ch.choose(n);
        ch.note(format!("{}: {}", show(i), alone(0, i).body));
        ch.step();
        let r = alone(0, i).json();
        let wrong = [3, 4, 24, 25, 26, 38, 43, 44].contains(&i);
        let failed = r["errors"].as_array().is_some_and(|e| !e.is_empty());
        ensure!(failed == wrong || [12, 44].contains(&i), show(i), "{r}");
        ensure_eq!(alone(1, i), alone(0, i), show(i), "with and without batching");
        Ok(())
    });
    let len = ctx.by(2, 3);
    ctx.explore("histories", "every history of 2 (3) of 48 requests on one server", |ch| {
        let l: Vec<usize> = (0..len).map(|_| ch.choose(n)).collect();
        let key = format!("{:?}", l.iter().map(|i| show(*i)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let site = new(false, 0, false);
        for i in &l {
            ch.step();
            let (b, u) = &all[*i];
            let got = site.ask_with(b.clone(), &headers(u));
            same(ch, &got, *i, 0, &key)?;
        }
        ch.state(l);
        Ok(())
    });
    ctx.explore("headers", "every pair of 48 requests, one after another or at the same time", |ch| {
        let l = [ch.choose(n), ch.choose(n)];
        let at_once = ch.flag();
        let key = format!("{at_once} {:?}", l.iter().map(|i| show(*i)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let site = new(false, 0, at_once);
        let got: Vec<Reply> = if at_once {
            let mut w: World<Reply> = World::new();
            for i in l {
                w.add(site.request(all[i].0.clone(), &headers(&all[i].1)));
            }
            serve::drive(&mut w, Some(ch)).into_iter().map(|r| r.unwrap()).collect()
        } else {
            l.iter().map(|i| site.ask_with(all[*i].0.clone(), &headers(&all[*i].1))).collect()
        };
        ch.step();
        for (i, r) in l.iter().zip(got) {
            same_headers(&r, *i, 0, &key)?;
        }
        Ok(())
    });
    ctx.explore("failing neighbour", "a request whose upstream answers what cannot be read, and another one by the same or another user, fetched in one batch or not, in every order", |ch| {
        let every = *ch.pick(&[0, 2]);
        let me = *ch.pick(&[("u", 1), ("u", 2), ("v", 1)]);
        let key = if every > 0 { "one request of an upstream batch fails".to_string() } else { format!("{me:?}") };
        let site = new(false, every, true);
        let body = |i: i64| json!({"query": format!("{{ h(id: {i}) {{ id }} }}")});
        let mut w: World<Reply> = World::new();
        w.add(site.request(body(9), &[("x-user", "u")]));
        w.add(site.request(body(me.1), &[("x-user", me.0)]));
        ch.step();
        let mut got = serve::drive(&mut w, Some(ch)).into_iter().map(|r| r.unwrap().json());
        ensure!(got.next().unwrap()["data"].is_null(), "failing neighbour", "no error");
        ensure_eq!(got.next().unwrap(), json!({"data": {"h": {"id": me.1}}}), key, "answer to {me:?}");
        Ok(())
    });
    ctx.explore("again", "every request sent 4 times, after any other", |ch| {
        let l = [ch.choose(n), ch.choose(n)];
        let key = format!("{:?}", l.iter().map(|i| show(*i)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let site = new(false, 0, false);
        for i in [l[0], l[1], l[1], l[0], l[1]] {
            ch.step();
            let (b, u) = &all[i];
            let got = site.ask_with(b.clone(), &headers(u));
            same(ch, &got, i, 0, &key)?;
        }
        Ok(())
    });
    ctx.explore("at once", "every pair of 48 requests at the same time, with and without batching upstream: every order in which the upstreams answer and the delays end, the second one sent at any point", |ch| {
        let every = ch.pick(&[0, 2]).clone();
        let l = [ch.choose(n), ch.choose(n)];
        let key = format!("{every} {:?}", l.iter().map(|i| show(*i)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let site = new(false, every, true);
        let mut w: World<Reply> = World::new();
        for i in l {
            let (b, u) = &all[i];
            w.add(site.request(b.clone(), &headers(u)));
        }
        let got = serve::drive(&mut w, Some(ch));
        for (i, r) in l.iter().zip(got) {
            let Some(r) = r else {
                return crate::engine::fail(key, format!("{} is never answered", show(*i)));
            };
            same(ch, &r, *i, every, &key)?;
        }
        ch.state(&key);
        Ok(())
    });
    ctx.explore("batches", "every batch of 2 of the 48 requests, all by one user, with and without batching upstream, in every order in which the upstreams answer", |ch| {
        let every = ch.pick(&[0, 2]).clone();
        let l = [ch.choose(n), ch.choose(n)];
        let key = format!("{every} {:?}", l.iter().map(|i| show(*i)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let body = Value::Array(l.iter().map(|i| all[*i].0.clone()).collect());
        let site = new(true, every, true);
        let mut w: World<Reply> = World::new();
        w.add(site.request(body, &[("x-user", "v")]));
        let Some(r) = serve::drive(&mut w, Some(ch)).pop().unwrap() else {
            return crate::engine::fail(key, "never answered");
        };
        let got = r.json();
        ch.observe(&r.body);
        ensure_eq!(got.as_array().map(|a| a.len()), Some(2), key, "number of answers: {}", r.body);
        for (k, i) in l.iter().enumerate() {
            let want = of_v(*i).json();
            ensure_eq!(got[k], want, key, "answer {k}: {}", show(*i));
        }
        ch.state(&key);
        Ok(())
    });
}

fn of_v(i: usize) -> Reply {
    static KNOWN: Mutex<Option<HashMap<usize, Reply>>> = Mutex::new(None);
    let mut k = KNOWN.lock().unwrap_or_else(|e| e.into_inner());
    k.get_or_insert_with(HashMap::new)
        .entry(i)
        .or_insert_with(|| new(false, 0, false).ask_with(requests()[i].0.clone(), &[("x-user", "v")]))
        .clone()
}
