//! The whole server: who gets to see protected data (C28).
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use tailcall::core::config::{Content, Extensions};

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx};
use crate::serve::{self, Reply, Site};
use crate::{ensure, ensure_eq, rt};

pub const C28: Prop = Prop {
    id: "C28",
    level: MC,
    rule: "",
    run: c28,
    assumptions: &["the verification of a password hash belongs to a library and is stood in for by a comparison"],
};

// ---------------------------------------------------------------- C28

/// how a place is protected: not, or by these providers (none named: all)
type Guard = Option<&'static [&'static str]>;
const GUARDS: [Guard; 5] = [None, Some(&[]), Some(&["x"]), Some(&["y"]), Some(&["x", "y"])];

/// who knocks: what is sent, and which providers it satisfies
const WHO: [(&str, Option<&str>, &[&str]); 6] = [
    ("nobody", None, &[]),
    ("garbage", Some("Basic ???"), &[]),
    ("wrong password", Some("Basic dTpu"), &[]),  // u:n
    ("known to x", Some("Basic dTpw"), &["x"]),   // u:p
    ("known to y", Some("Basic djpx"), &["y"]),   // v:q
    ("known to both", Some("Basic dzpy"), &["x", "y"]), // w:r
];

/// Where something may be protected.
const PLACES: [&str; 7] = ["Query.a", "Query.n", "N", "N.s", "N.h", "I.x", "I"];

/// a query, and the fields it reads: type, field, type of the field
type Reads = &'static [(&'static str, &'static str, &'static str)];
const QUERIES: [(&str, Reads); 15] = [
    ("{ p }", &[("Query", "p", "")]),
    ("{ a }", &[("Query", "a", "")]),
    ("{ p a }", &[("Query", "p", ""), ("Query", "a", "")]),
    ("{ q: a p }", &[("Query", "p", ""), ("Query", "a", "")]),
    ("{ ...F } fragment F on Query { a __typename }", &[("Query", "a", "")]),
    ("{ n { pub } }", &[("Query", "n", "N"), ("N", "pub", "")]),
    ("{ n { pub s } }", &[("Query", "n", "N"), ("N", "pub", ""), ("N", "s", "")]),
    ("{ n { h } p }", &[("Query", "n", "N"), ("N", "h", ""), ("Query", "p", "")]),
    ("{ n { list { y } } }", &[("Query", "n", "N"), ("N", "list", "I"), ("I", "y", "")]),
    ("{ n { list { x y } } }", &[("Query", "n", "N"), ("N", "list", "I"), ("I", "x", ""), ("I", "y", "")]),
    ("{ n { inner { s } } }", &[("Query", "n", "N"), ("N", "inner", "N"), ("N", "s", "")]),
    ("{ m { __typename ... on N { s } } }", &[("Query", "m", ""), ("N", "s", "")]),
    ("{ m { t } }", &[("Query", "m", "")]),
    ("mutation { a }", &[("Mutation", "a", "")]),
    ("{ n { ... { h } ... on N { list { y } } } }", &[("Query", "n", "N"), ("N", "h", ""), ("N", "list", "I"), ("I", "y", "")]),
];

fn sdl(at: &BTreeMap<&str, Guard>, batch: bool) -> String {
    let p = |place: &str| match at.get(place).copied().flatten() {
        None => String::new(),
        Some([]) => " @protected".to_string(),
        Some(ids) => format!(" @protected(id: {ids:?})"),
    };
    format!(
        r#"schema @server(batchRequests: {batch}) @upstream(allowedHeaders: ["Authorization"]) {{ query: Query mutation: Mutation }}
type Query {{
  p: String @expr(body: "open")
  a: String @expr(body: "SECRET a"){a}
  n: N @http(url: "http://up/n"){n}
  m: J @http(url: "http://up/m")
}}
type Mutation {{ a: String @expr(body: "SECRET a"){a} }}
interface J {{ t: String }}
type K implements J {{ t: String }}
type N implements J{nn} {{
  t: String
  pub: String
  s: String{s}
  h: String @http(url: "http://up/h"){h}
  list: [I]
  inner: N
}}
type I{ii} {{
  x: String{x}
  y: String
}}
"#,
        a = p("Query.a"),
        n = p("Query.n"),
        nn = p("N"),
        s = p("N.s"),
        h = p("N.h"),
        x = p("I.x"),
        ii = p("I"),
    )
}

fn guarded(at: &BTreeMap<&str, Guard>, batch: bool) -> Result<Site, String> {
    let file = |id: &str, t: &str| Content { id: Some(id.to_string()), content: t.to_string() };
    let ext = Extensions { htpasswd: vec![file("x", "u:p\nw:r\n"), file("y", "v:q\nw:r\n")], ..Default::default() };
    serve::site_of(
        &serve::config(&sdl(at, batch), ext)?,
        "query A @rest(method: GET, path: \"/a\") { a } query N @rest(method: GET, path: \"/n\") { n { pub s } }",
        Arc::new(|s| {
            rt::json(
                match s.url.as_str() {
                    "http://up/n" => json!({"t": "t", "pub": "P", "s": "SECRET s", "list": [{"x": "SECRET x", "y": "Y"}, {"x": null, "y": "Z"}], "inner": {"pub": "Q", "s": "SECRET t"}}),
                    "http://up/m" => json!({"__typename": "N", "t": "t", "s": "SECRET m"}),
                    "http://up/h" => json!("SECRET h"),
                    u => panic!("{u}"),
                }
                .to_string(),
            )
        }),
        false,
    )
}

/// Whether someone who satisfies `who` may read all of these.
fn may(at: &BTreeMap<&str, Guard>, reads: &[(&str, &str, &str)], who: &[&str]) -> bool {
    reads.iter().all(|r| {
        let (of, ty, out) = (at.get(format!("{}.{}", if r.0 == "Mutation" { "Query" } else { r.0 }, r.1).as_str()).copied().flatten(), at.get(r.0).copied().flatten(), at.get(r.2).copied().flatten());
        if of.is_none() && ty.is_none() && out.is_none() {
            return true;
        }
        let mut ids: BTreeSet<&str> = of.into_iter().flatten().chain(ty.into_iter().flatten()).copied().collect();
        if ids.is_empty() {
            ids = ["x", "y"].into();
        }
        ids.iter().all(|i| who.contains(i))
    })
}

fn open_answer(batch: bool, body: &Value) -> Reply {
    static CACHE: Mutex<Option<(HashMap<bool, Site>, HashMap<(bool, String), Reply>)>> = Mutex::new(None);
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let c = c.get_or_insert_with(Default::default);
    let key = (batch, body.to_string());
    if let Some(r) = c.1.get(&key) {
        return r.clone();
    }
    let s = guarded(&BTreeMap::new(), batch).unwrap();
    let r = s.ask_with(body.clone(), &[]);
    c.0.insert(batch, s);
    c.1.insert(key, r.clone());
    r
}

/// One request, judged.
fn knock(ch: &Chooser, site: &Site, at: &BTreeMap<&str, Guard>, batch: &[usize], who: usize, key: &str) -> crate::engine::Outcome {
    let (name, header, satisfied) = WHO[who];
    let headers: Vec<(&str, &str)> = header.iter().map(|h| ("Authorization", *h)).collect();
    let one = |q: usize| json!({ "query": QUERIES[q].0 });
    let is_batch = site.ctx.blueprint.server.enable_batch_requests;
    let body = if is_batch { Value::Array(batch.iter().map(|q| one(*q)).collect()) } else { one(batch[0]) };
    site.log.lock().unwrap().clear();
    ch.step();
    let r = site.ask_with(body.clone(), &headers);
    let sent: Vec<String> = site.log.lock().unwrap().iter().map(|s| s.url.clone()).collect();
    let answers: Vec<Value> = if is_batch { r.json().as_array().cloned().unwrap_or_default() } else { vec![r.json()] };
    ensure_eq!(answers.len(), batch.len(), key, "number of answers to {name}");
    let open = open_answer(is_batch, &body);
    let open: Vec<Value> = if is_batch { open.json().as_array().cloned().unwrap() } else { vec![open.json()] };
    let mut h_allowed = false;
    let mut n_allowed = false;
    for ((q, got), want) in batch.iter().zip(answers).zip(open) {
        let reads = QUERIES[*q].1;
        let text = format!("{key}: {} by {name}", QUERIES[*q].0);
        if may(at, reads, satisfied) {
            ensure_eq!(got, want, text, "answer");
        } else {
            ensure!(got["data"].is_null(), text, "data without permission: {got}");
            ensure!(got["errors"].as_array().is_some_and(|e| !e.is_empty()), text, "no error: {got}");
            ensure!(!got.to_string().contains("SECRET"), text, "a secret is told: {got}");
        }
        let allowed = |f: &str| reads.iter().any(|r| r.1 == f && may(at, &[*r], satisfied));
        h_allowed |= allowed("h");
        n_allowed |= allowed("n");
        ch.observe(got.to_string());
    }
    ensure!(n_allowed || !sent.iter().any(|u| u == "http://up/n"), key, "the upstream of a protected field is asked by {name}: {sent:?}");
    ensure!(h_allowed || !sent.iter().any(|u| u == "http://up/h"), key, "the upstream of a protected field is asked by {name}: {sent:?}");
    Ok(())
}

fn c28(ctx: &mut Ctx) {
    let two = ctx.by(2, 3);
    ctx.explore("places", "every protection of up to 2 (3) of 7 places by 4 sets of providers: 15 queries by 6 visitors each, one site for all of them", |ch| {
        let mut at = BTreeMap::new();
        for p in PLACES {
            if at.len() < two && ch.flag() {
                at.insert(p, *ch.pick(&GUARDS[1..]));
            }
        }
        let key = format!("{at:?}");
        ch.note(&key);
        ch.go();
        let site = match guarded(&at, false) {
            Ok(s) => s,
            Err(e) => return crate::engine::fail(key, format!("refused: {e}")),
        };
        for who in 0..WHO.len() {
            for q in 0..QUERIES.len() {
                knock(ch, &site, &at, &[q], who, &key)?;
            }
        }
        ch.state(key);
        Ok(())
    });
    let some: [&[(&str, Guard)]; 6] = [
        &[("Query.a", Some(&[]))],
        &[("Query.a", Some(&["x"])), ("N.s", Some(&["x"]))],
        &[("N", Some(&["y"]))],
        &[("Query.n", Some(&["x", "y"])), ("I.x", Some(&[]))],
        &[("N.h", Some(&[])), ("N.s", Some(&["x"]))],
        &[("I", Some(&["x"]))],
    ];
    let n = ctx.by(2, 3);
    ctx.explore("histories", "6 sites: every history of 2 (3) requests of 15 queries by 4 visitors", |ch| {
        let at: BTreeMap<&str, Guard> = ch.pick(&some).iter().copied().collect();
        let l: Vec<(usize, usize)> = (0..n).map(|_| (ch.choose(QUERIES.len()), *ch.pick(&[0, 2, 3, 5]))).collect();
        let key = format!("{at:?}, {:?}", l.iter().map(|(q, w)| format!("{} by {}", QUERIES[*q].0, WHO[*w].0)).collect::<Vec<_>>());
        ch.note(&key);
        ch.go();
        let site = guarded(&at, false).unwrap();
        for (q, who) in l {
            knock(ch, &site, &at, &[q], who, &key)?;
        }
        ch.state(key);
        Ok(())
    });
    ctx.explore("batches", "6 sites: every batch of 2 of 15 queries, by 4 visitors, after nothing or after someone who may read all", |ch| {
        let at: BTreeMap<&str, Guard> = ch.pick(&some).iter().copied().collect();
        let b = [ch.choose(QUERIES.len()), ch.choose(QUERIES.len())];
        let who = *ch.pick(&[0, 2, 3, 5]);
        let before = ch.flag();
        let key = format!("{at:?}, {:?} by {} {before}", b.map(|q| QUERIES[q].0), WHO[who].0);
        ch.note(&key);
        ch.go();
        let site = guarded(&at, true).unwrap();
        if before {
            knock(ch, &site, &at, &b, 5, &key)?;
        }
        knock(ch, &site, &at, &b, who, &key)?;
        ch.state(key);
        Ok(())
    });
    ctx.explore("endpoints", "6 sites: REST endpoints of protected operations by 6 visitors, one after another", |ch| {
        let at: BTreeMap<&str, Guard> = ch.pick(&some).iter().copied().collect();
        let l: Vec<(usize, usize)> = (0..2).map(|_| (ch.choose(2), ch.choose(WHO.len()))).collect();
        let key = format!("{at:?}, {l:?}");
        ch.note(&key);
        ch.go();
        let site = guarded(&at, false).unwrap();
        for (e, who) in l {
            ch.step();
            let (name, header, satisfied) = WHO[who];
            let (path, reads): (&str, Reads) = [("/api/a", QUERIES[1].1), ("/api/n", QUERIES[6].1)][e];
            let headers = header.iter().map(|h| ("Authorization".to_string(), h.to_string())).collect();
            let r = serve::alone(site.clone().call("GET", path.into(), headers, String::new()));
            let text = format!("{key}: {path} by {name}");
            if may(&at, reads, satisfied) {
                ensure_eq!((r.status, r.json()), (200, [json!("SECRET a"), json!({"pub": "P", "s": "SECRET s"})][e].clone()), text, "answer");
            } else {
                ensure!(!r.body.contains("SECRET"), text, "a secret is told: {}", r.body);
            }
        }
        Ok(())
    });
}
