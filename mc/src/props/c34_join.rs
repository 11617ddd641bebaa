//! The whole server: data joined from batched calls (C34).
use std::sync::Arc;

use serde_json::{json, Value};

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::rt::{self, Sent};
use crate::sched::World;
use crate::serve::{self, Reply};
use crate::{ensure, ensure_eq};

pub const C34: Prop = Prop {
    id: "C34",
    level: MC,
    rule: "the join of the two tables, computed without any batch",
    run: c34,
    assumptions: &["an upstream that is asked for several ids answers with the records of these ids, in an order of its own"],
};

/// how a record is asked for
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Query,
    /// a constant and another template beside the id
    QueryAnd,
    /// the records are in a field of each element
    Deep,
    /// all the records are in a field
    Wrapped,
    /// the parameter has another name than the field
    Renamed,
    Body,
    BodyText,
    Graph,
}
const WAYS: [Way; 8] = [Way::Query, Way::QueryAnd, Way::Deep, Way::Wrapped, Way::Renamed, Way::Body, Way::BodyText, Way::Graph];

fn directive(w: Way, of: &str) -> String {
    let v = format!("{{{{.value.{of}}}}}");
    match w {
        Way::Query => format!(r#"@http(url: "http://up/u", query: [{{key: "id", value: "{v}"}}], batchKey: ["id"])"#),
        Way::QueryAnd => format!(r#"@http(url: "http://up/u?z=0", query: [{{key: "a", value: "b c"}}, {{key: "x", value: "{{{{.args.x}}}}"}}, {{key: "id", value: "{v}"}}], batchKey: ["id"])"#),
        Way::Deep | Way::Wrapped => format!(r#"@http(url: "http://up/deep", query: [{{key: "id", value: "{v}"}}], batchKey: ["k", "id"])"#),
        Way::Renamed => format!(r#"@http(url: "http://up/u", query: [{{key: "ids[]", value: "{v}"}}], batchKey: ["id"])"#),
        Way::Body => format!(r#"@http(url: "http://up/u", method: POST, body: {{id: "{v}", a: [1]}}, batchKey: ["id"])"#),
        Way::BodyText => format!(r#"@http(url: "http://up/u", method: POST, body: "{v}", batchKey: ["id"])"#),
        Way::Graph => format!(r#"@graphQL(url: "http://up/g", name: "g", args: [{{key: "id", value: "{v}"}}], batch: true)"#),
    }
}

fn sdl(w: Way, list: bool, max: usize) -> String {
    let (o, c) = if list { ("[", "]") } else { ("", "") };
    format!(
        r#"schema @upstream(batch: {{delay: 1, maxSize: {max}}}) {{ query: Query }}
type Query {{ l: [P] @http(url: "http://up/l") }}
type P {{ fk: ID u(x: String): {o}U{c} {} }}
type U {{ id: ID n: Int boss: ID up(x: String): {o}U{c} {} }}
"#,
        directive(w, "fk"),
        directive(w, "boss"),
    )
}

/// what an id is in a query
fn text(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(s.clone()),
        Value::Null => None,
        v => Some(v.to_string()),
    }
}

fn ids_of(s: &Sent) -> Vec<String> {
    let u = reqwest::Url::parse(&s.url).unwrap();
    match &s.body {
        Some(b) => {
            if b.is_empty() {
                return vec![];
            }
            let b: Value = serde_json::from_str(b).unwrap_or_else(|e| panic!("{e}: {b}"));
            b.as_array().unwrap_or(&vec![b.clone()]).iter().map(|b| text(b.get("id").unwrap_or(b)).unwrap_or_default()).collect()
        }
        None => u.query_pairs().filter(|p| p.0 == "id" || p.0 == "ids[]").map(|p| p.1.to_string()).collect(),
    }
}

fn hit<'a>(db: &'a [Value], id: &'a str) -> impl Iterator<Item = Value> + 'a {
    db.iter().filter(move |r| text(&r["id"]).as_deref() == Some(id)).cloned()
}

fn upstream(w: Way, list: bool, db: Vec<Value>, parents: Vec<Value>, broken: Option<usize>) -> rt::Answer {
    let calls = std::sync::atomic::AtomicUsize::new(0);
    Arc::new(move |s: &Sent| {
        if s.url == "http://up/l" {
            return rt::json(Value::Array(parents.clone()).to_string());
        }
        if Some(calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) == broken {
            return rt::reply(500, &[], "broken");
        }
        if w == Way::Graph {
            let b: Value = serde_json::from_str(s.body.as_deref().unwrap()).unwrap();
            let one = |q: &Value| {
                let q = q["query"].as_str().unwrap();
                let doc = async_graphql::parser::parse_query(q).unwrap_or_else(|e| panic!("{e}: {q}"));
                let sel = doc.operations.iter().next().unwrap().1.node.selection_set.node.items[0].node.clone();
                let async_graphql::parser::types::Selection::Field(f) = sel else { panic!() };
                let id = f.node.get_argument("id").map(|v| v.node.clone().into_const().unwrap().into_json().unwrap()).unwrap_or(Value::Null);
                let id = text(&id);
                let rows: Vec<Value> = id.iter().flat_map(|id| hit(&db, id)).collect();
                json!({"data": {"g": if list { Value::Array(rows) } else { rows.first().cloned().unwrap_or(Value::Null) }}})
            };
            return rt::json(b.as_array().map(|l| l.iter().map(one).collect()).unwrap_or_else(|| one(&b)).to_string());
        }
        let ids = ids_of(s);
        let mut out: Vec<Value> = db.iter().filter(|r| text(&r["id"]).is_some_and(|t| ids.contains(&t))).cloned().collect();
        if w == Way::Deep {
            for r in &mut out {
                *r = json!({"id": "other", "k": r.clone()});
            }
        }
        if w == Way::Wrapped {
            return rt::json(json!({"k": out, "id": 1}).to_string());
        }
        rt::json(Value::Array(out).to_string())
    })
}

fn join(list: bool, db: &[Value], fk: &Value, depth: usize) -> Value {
    let rows: Vec<Value> = text(fk)
        .iter()
        .flat_map(|id| hit(db, id))
        .map(|r| {
            let mut o = json!({"id": r["id"], "n": r["n"]});
            if depth > 0 {
                o["up"] = join(list, db, &r["boss"], depth - 1);
            }
            o
        })
        .collect();
    if list {
        Value::Array(rows)
    } else {
        rows.first().cloned().unwrap_or(Value::Null)
    }
}

fn query(depth: usize) -> String {
    match depth {
        0 => "{ l { fk u(x: \"y\") { id n } } }".into(),
        1 => "{ l { fk u(x: \"y\") { id n up(x: \"y\") { id n } } } }".into(),
        _ => "{ l { fk u(x: \"y\") { id n up(x: \"y\") { id n up(x: \"y\") { id n } } } } }".into(),
    }
}

fn want(list: bool, db: &[Value], parents: &[Value], depth: usize) -> Value {
    json!({"l": parents.iter().map(|p| json!({"fk": p["fk"], "u": join(list, db, &p["fk"], depth)})).collect::<Vec<_>>()})
}

fn foreign(w: Way) -> Vec<Value> {
    let mut l = vec![json!(1), json!(2), json!("1"), json!("a b&c=d+é"), json!(9), Value::Null, json!("x\"y\\")];
    if w == Way::BodyText {
        // (text is put into the body as it is)
        l = vec![json!(1), json!(2), json!("1"), json!(9), Value::Null];
    }
    l
}

fn rows() -> Vec<Value> {
    vec![
        json!({"id": 1, "n": 10, "boss": 2}),
        json!({"id": 2, "n": 20, "boss": "a b&c=d+é"}),
        json!({"id": "a b&c=d+é", "n": 30}),
        json!({"id": "1", "n": 11, "boss": null}),
        json!({"id": "x\"y\\", "n": 50, "boss": 1}),
        json!({"id": null, "n": 60, "boss": 1}),
    ]
}

fn run(ch: &Chooser, w: Way, list: bool, max: usize, db: Vec<Value>, fks: Vec<Option<Value>>, depth: usize) -> Outcome {
    let parents: Vec<Value> = fks.iter().map(|f| f.as_ref().map(|f| json!({"fk": f})).unwrap_or(json!({}))).collect();
    let key = format!("{w:?} list: {list}, at most {max}, of {}, records {}", Value::Array(parents.clone()), Value::Array(db.clone()));
    ch.note(&key);
    ch.go();
    let site = serve::site(&sdl(w, list, max), upstream(w, list, db.clone(), parents.clone(), None), true).map_err(|e| crate::engine::Violation { key: key.clone(), msg: e })?;
    let mut world: World<Reply> = World::new();
    world.add(site.request(json!({"query": query(depth)}), &[]));
    let Some(r) = serve::drive(&mut world, Some(ch)).pop().unwrap() else {
        return crate::engine::fail(key, "never answered");
    };
    ch.observe(&r.body);
    let got = r.json();
    ensure_eq!(got, json!({"data": want(list, &db, &parents, depth)}), key, "answer");
    let log = site.log.lock().unwrap();
    let first: Vec<&Sent> = log.iter().skip(1).collect();
    // what waits at the same time is asked for once, in as few calls as the limit allows
    if depth == 0 && w != Way::Graph {
        let mut calls: Vec<Vec<String>> = vec![vec![]];
        for p in &parents {
            let id = text(&p["fk"]).unwrap_or_default();
            let last = calls.last_mut().unwrap();
            if !last.contains(&id) {
                last.push(id);
            }
            if last.len() == max {
                calls.push(vec![]);
            }
        }
        calls.retain(|c| !c.is_empty());
        calls.iter_mut().for_each(|c| c.sort());
        let mut asked: Vec<Vec<String>> = first.iter().map(|s| ids_of(s)).collect();
        asked.iter_mut().for_each(|c| c.sort());
        if w == Way::BodyText {
            calls.iter_mut().for_each(|c| c.retain(|i| !i.is_empty()));
            asked.iter_mut().for_each(|c| c.retain(|i| !i.is_empty()));
        }
        asked.sort();
        calls.sort();
        ensure_eq!(asked, calls, key, "ids asked for in {first:?}");
    }
    ch.state((&key, &r.body));
    ch.step();
    Ok(())
}

fn c34(ctx: &mut Ctx) {
    let most = ctx.by(2, 3);
    ctx.explore("records", "every way to ask, one record or a list of them, every list of 2 parents out of 7 ids, every choice of up to 2 (3) of 6 records in both orders", |ch| {
        let w = *ch.pick(&WAYS);
        let list = ch.flag();
        let f = foreign(w);
        let fks = vec![Some(ch.pick(&f).clone()), Some(ch.pick(&f).clone())];
        let all = rows();
        let mut db = vec![];
        for r in &all {
            if db.len() < most && ch.flag() {
                db.push(r.clone());
            }
        }
        if ch.flag() {
            db.reverse();
        }
        run(ch, w, list, 10, db, fks, 0)
    });
    let len = ctx.by(3, 4);
    ctx.explore("sizes", "every list of up to 3 (4) parents, each with one of 3 ids or none, calls of at most 1, 2, 3 ids, in every order in which they are answered", |ch| {
        let w = *ch.pick(&WAYS);
        let list = ch.flag();
        let max = *ch.pick(&[1, 2, 3]);
        let f = foreign(w);
        let n = ch.range(0, len);
        let fks = (0..n).map(|_| if ch.flag() { Some(f[ch.choose(3)].clone()) } else { None }).collect();
        run(ch, w, list, max, rows(), fks, 0)
    });
    ctx.explore("levels", "records that lead to records, up to 3 levels, every order of the answers", |ch| {
        let w = *ch.pick(&WAYS);
        let list = ch.flag();
        let max = *ch.pick(&[1, 2]);
        let f = foreign(w);
        let n = ch.range(1, 2);
        let fks = (0..n).map(|_| Some(f[ch.choose(f.len().min(4))].clone())).collect();
        let depth = ch.range(1, 2);
        let mut db = rows();
        if w == Way::BodyText {
            db.retain(|r| r["id"].is_null() || r["id"] == "1" || r["id"].is_number());
            db[1]["boss"] = json!("1");
        }
        run(ch, w, list, max, db, fks, depth)
    });
    ctx.explore("broken", "one of the calls fails, up to 3 parents", |ch| {
        let w = *ch.pick(&WAYS);
        let list = ch.flag();
        let max = *ch.pick(&[1, 2]);
        let n = ch.range(1, 3);
        let broken = ch.choose(3);
        let f = [json!(1), json!(2), json!(9)];
        let parents: Vec<Value> = f.iter().take(n).map(|f| json!({"fk": f})).collect();
        let key = format!("{w:?} list: {list}, at most {max}, {n} parents, call {broken} fails");
        ch.note(&key);
        ch.go();
        let site = serve::site(&sdl(w, list, max), upstream(w, list, rows(), parents.clone(), Some(broken)), true).unwrap();
        let mut world: World<Reply> = World::new();
        world.add(site.request(json!({"query": query(0)}), &[]));
        let Some(r) = serve::drive(&mut world, Some(ch)).pop().unwrap() else {
            return crate::engine::fail(key, "never answered");
        };
        let got = r.json();
        ensure!(broken >= n.div_ceil(max) || got["data"].is_null() && got["errors"][0].is_object(), key, "{got}");
        if broken >= n.div_ceil(max) {
            ensure_eq!(got, json!({"data": want(list, &rows(), &parents, 0)}), key, "answer");
        }
        ch.state((&key, &r.body));
        ch.step();
        Ok(())
    });
}
