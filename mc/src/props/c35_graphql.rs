//! The whole server: what a GraphQL upstream is asked, and what becomes of its
//! answer (C35).
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use async_graphql::parser::types::{ExecutableDocument, OperationType, Selection};
use async_graphql::Positioned;
use serde_json::{json, Value};

use super::{Prop, MC};
use crate::engine::Ctx;
use crate::rt::{self, Sent};
use crate::serve;
use crate::{ensure, ensure_eq};

pub const C35: Prop = Prop {
    id: "C35",
    level: MC,
    rule: "the query that the upstream parses asks for the fields of the query that are its own, with their arguments, and for nothing else",
    run: c35,
    assumptions: &["async-graphql's parser reads queries as the specification says", "control characters other than tab and line ends do not occur in arguments"],
};

fn sdl(batch: bool) -> String {
    format!(
        r#"schema @server(vars: [{{key: "v", value: "vår\"'x"}}]) @upstream(allowedHeaders: ["who"]{up}) {{ query: Query mutation: Mutation }}
type Query {{
  u(id: Any, s: String, e: E, o: In, l: [Any]): U @graphQL(url: "http://up/g", name: "user", args: [{{key: "id", value: "{{{{.args.id}}}}"}}, {{key: "s", value: "{{{{.args.s}}}}"}}, {{key: "e", value: "{{{{.args.e}}}}"}}, {{key: "o", value: "{{{{.args.o}}}}"}}, {{key: "l", value: "{{{{.args.l}}}}"}}], headers: [{{key: "x-id", value: "{{{{.args.id}}}}"}}, {{key: "x-s", value: "<{{{{.args.s}}}}>"}}]{b})
  c: U @graphQL(url: "http://up/g", name: "user", args: [{{key: "k", value: "5"}}, {{key: "t", value: "\"t'é\""}}, {{key: "o", value: "{{a: [1, RED]}}"}}]{b})
  w: U @graphQL(url: "http://up/g", name: "user", args: [{{key: "who", value: "{{{{.headers.who}}}}"}}, {{key: "v", value: "{{{{.vars.v}}}}"}}]{b})
  i: I @graphQL(url: "http://up/g", name: "node"{b})
  us: [U] @graphQL(url: "http://up/g", name: "users"{b})
}}
type Mutation {{
  m(id: Any): U @graphQL(url: "http://up/g", name: "make", args: [{{key: "id", value: "{{{{.args.id}}}}"}}])
}}
interface I {{ id: ID name: String }}
type U implements I {{
  id: ID
  name: String
  pic(size: Any, o: In): String
  friend(f: String, n: Int = 3): U
  best: S
  twin: S
  nick: String @modify(name: "label")
  own: String @http(url: "http://up/own")
  kept: String @http(url: "http://up/own") @cache(maxAge: 1000)
  some: Int @http(url: "http://up/own", select: "{{{{.n}}}}")
  calc: String @expr(body: "c")
  calls: U @call(steps: [{{query: "u", args: {{id: 1}}}}])
  far: U @graphQL(url: "http://up/h", name: "far"{b})
}}
type B implements I {{ id: ID name: String x(a: Any): Int s: S }}
type S {{ a: Int b: S own: String @http(url: "http://up/own") }}
input In {{ a: Any b: [In] }}
enum E {{ RED GREEN }}
scalar Any
"#,
        b = if batch { ", batch: true" } else { "" },
        up = if batch { ", batch: {delay: 1, maxSize: 10}" } else { "" },
    )
}

/// A selection set as it is meant: by name and arguments, and on which types.
type Tree = BTreeMap<(Option<String>, String, String), Sub>;
#[derive(Default, Debug, PartialEq, Eq, Clone)]
struct Sub(Tree);

fn arguments(l: &[(Positioned<async_graphql::Name>, Positioned<async_graphql_value::Value>)], vars: &Value) -> Vec<(String, Value)> {
    let mut l: Vec<(String, Value)> = l.iter().map(|(k, v)| (k.node.to_string(), value(&v.node, vars))).collect();
    l.sort_by(|a, b| a.0.cmp(&b.0));
    l
}

/// (an enumerator is not a string)
fn value(v: &async_graphql_value::Value, vars: &Value) -> Value {
    use async_graphql_value::Value as V;
    match v {
        V::Enum(e) => json!({"enum": e.to_string()}),
        V::Variable(n) => vars.get(n.as_str()).cloned().unwrap_or_else(|| json!(format!("no variable ${n}"))),
        V::List(l) => l.iter().map(|v| value(v, vars)).collect(),
        V::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.to_string(), value(v, vars))).collect()),
        v => v.clone().into_const().unwrap().into_json().unwrap(),
    }
}

fn text(d: &[Positioned<async_graphql::parser::types::Directive>], args: &[(String, Value)], vars: &Value) -> String {
    let d: Vec<String> = d
        .iter()
        .filter(|d| d.node.name.node != "include" && d.node.name.node != "skip")
        .map(|d| format!("@{}{:?}", d.node.name.node, arguments(&d.node.arguments, vars)))
        .collect();
    format!("{}{}", Value::Object(args.iter().cloned().collect()), d.join(""))
}

fn tree(doc: &ExecutableDocument, set: &[Positioned<Selection>], on: Option<&str>, vars: &Value, keep: &dyn Fn(&str) -> Option<&'static str>, out: &mut Tree) {
    for s in set {
        match &s.node {
            Selection::Field(f) => {
                let f = &f.node;
                let name = f.name.node.as_str();
                if f.directives.iter().any(|d| d.node.name.node == "skip") {
                    continue;
                }
                let Some(sent) = keep(name) else { continue };
                let mut args = arguments(&f.arguments, vars);
                // (a default value is the business of the upstream, which has its own)
                args.retain(|a| !(name == "friend" && a.0 == "n" && a.1 == json!(3)));
                let key = (on.map(|s| s.to_string()), if sent.is_empty() { name.to_string() } else { sent.to_string() }, text(&f.directives, &args, vars));
                let sub = out.entry(key).or_default();
                let inner = if name == "node" || name == "i" { Some("I") } else { None };
                tree(doc, &f.selection_set.node.items, inner, vars, keep, &mut sub.0);
            }
            Selection::InlineFragment(f) => {
                let t = f.node.type_condition.as_ref().map(|t| t.node.on.node.as_str());
                tree(doc, &f.node.selection_set.node.items, on.map(|on| t.unwrap_or(on)), vars, keep, out)
            }
            Selection::FragmentSpread(f) => {
                let f = &doc.fragments[&f.node.fragment_name.node].node;
                let t = f.type_condition.node.on.node.as_str();
                tree(doc, &f.selection_set.node.items, on.map(|_| t), vars, keep, out)
            }
        }
    }
}

struct Asked {
    op: OperationType,
    name: String,
    args: Vec<(String, Value)>,
    dirs: String,
    tree: Tree,
}

fn asked(body: &Value) -> Result<Asked, String> {
    let q = body["query"].as_str().ok_or(format!("no query: {body}"))?;
    let doc = async_graphql::parser::parse_query(q).map_err(|e| format!("{e}: {q}"))?;
    let mut ops = doc.operations.iter();
    let op = &ops.next().unwrap().1.node;
    let [Positioned { node: Selection::Field(f), .. }] = op.selection_set.node.items.as_slice() else { return Err(format!("not one field: {q}")) };
    let f = &f.node;
    let mut t = Tree::new();
    tree(&doc, &f.selection_set.node.items, (f.name.node == "node").then_some("I"), &Value::Null, &|_| Some(""), &mut t);
    Ok(Asked { op: op.ty, name: f.name.node.to_string(), args: arguments(&f.arguments, &Value::Null), dirs: text(&f.directives, &[], &Value::Null), tree: t })
}

fn server(batch: bool, answer: impl Fn(&Value) -> Value + Send + Sync + 'static) -> serve::Site {
    let gql = move |s: &Sent| {
        if s.url.ends_with("/own") {
            return rt::json(json!({"n": 1}).to_string());
        }
        match serde_json::from_str::<Value>(s.body.as_deref().unwrap_or("")) {
            Ok(Value::Array(l)) => rt::json(l.iter().map(&answer).collect::<Value>().to_string()),
            Ok(b) => rt::json(answer(&b).to_string()),
            Err(e) => rt::json(json!({"errors": [{"message": format!("{e}: {s:?}")}]}).to_string()),
        }
    };
    serve::site(&sdl(batch), Arc::new(gql), false).unwrap_or_else(|e| panic!("{e}"))
}

fn bodies(log: &[Sent]) -> Vec<(Sent, Value)> {
    let mut out = vec![];
    for s in log.iter().filter(|s| !s.url.ends_with("/own")) {
        match serde_json::from_str(s.body.as_deref().unwrap_or("")) {
            Ok(Value::Array(l)) => out.extend(l.into_iter().map(|b| (s.clone(), b))),
            Ok(b) => out.push((s.clone(), b)),
            Err(e) => out.push((s.clone(), json!(e.to_string()))),
        }
    }
    out
}

/// what a user can give, and how it is written in a query
fn pool() -> Vec<(Value, String)> {
    let mut l: Vec<(Value, String)> = [json!(0), json!(-7), json!(1.5), json!(u64::MAX), json!(true), Value::Null, json!(""), json!("a"), json!("O'Brien"), json!("say \"x\""), json!("back\\slash\\"), json!("é😀\u{2028}"), json!("line\nr\r\ttab"), json!("{{.vars.v}}"), json!("{{id}}$id"), json!("$id"), json!("}) { evil } #"), json!([]), json!([1, "b'", null, [2]]), json!([[], "$x"])]
        .into_iter()
        .map(|v| (v.clone(), literal(&v)))
        .collect();
    l.push((json!({"a": "O'B\"", "b": [{"a": 1}, {"a": {"k": "$v"}}]}), "{a: \"O'B\\\"\", b: [{a: 1}, {a: {k: \"$v\"}}]}".into()));
    l
}

fn literal(v: &Value) -> String {
    match v {
        Value::Array(l) => format!("[{}]", l.iter().map(literal).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}

fn c35(ctx: &mut Ctx) {
    ctx.explore("values", "21 values of every type, written in the query or in a variable, at 12 places: arguments of the field, nested arguments, inside lists and objects, directives; alone or in a batch", |ch| {
        let batch = ch.flag();
        let pool = pool();
        let (v, lit) = ch.pick(&pool).clone();
        let var = ch.flag();
        let w = if var { "$x".to_string() } else { lit };
        // the query, and where the value shows up
        let (q, path): (String, Vec<&str>) = match ch.choose(12) {
            0 => (format!("u(id: {w}) {{ name }}"), vec!["user", "id"]),
            1 => (format!("u(l: [1, {w}]) {{ name }}"), vec!["user", "l", "1"]),
            2 => (format!("u(o: {{a: {w}}}) {{ name }}"), vec!["user", "o", "a"]),
            3 => (format!("u {{ pic(size: {w}) }}"), vec!["user", "pic", "size"]),
            4 => (format!("u {{ pic(size: [[{w}], 2]) }}"), vec!["user", "pic", "size", "0", "0"]),
            5 => (format!("u {{ pic(o: {{b: [{{a: 1}}, {{a: {w}}}]}}) }}"), vec!["user", "pic", "o", "b", "1", "a"]),
            6 => (format!("u {{ friend {{ pic(size: {w}) }} }}"), vec!["user", "friend", "pic", "size"]),
            7 => (format!("i {{ ... on B {{ x(a: {w}) }} }}"), vec!["node", "x", "a"]),
            8 => (format!("u {{ name @show(as: {w}, k: \"é\") }}"), vec!["user", "name", "@show", "as"]),
            9 => (format!("u @show(as: {w}) {{ name }}"), vec!["user", "@show", "as"]),
            10 => (format!("u(s: \"é'\", id: {w}) {{ name }}"), vec!["user", "id"]),
            _ => (format!("u {{ far {{ pic(size: {w}) }} }}"), vec!["far", "pic", "size"]),
        };
        let q = if var { format!("query($x: Any) {{ {q} }}") } else { format!("{{ {q} }}") };
        ch.note(format!("{q} {v}"));
        let kind = if !var {
            "written"
        } else if q.contains("show") {
            "variable of a directive"
        } else {
            "variable"
        };
        let key = format!("{kind} at {path:?}: {v}");
        ch.go();
        let site = server(batch, |b| json!({"data": {asked(b).map(|a| a.name).unwrap_or_default(): {"name": "n", "id": 1, "__typename": "B"}}}));
        let r = site.ask(&q, json!({"x": v}));
        ch.observe(&r.body);
        let log = site.log.lock().unwrap().clone();
        let want_null = v.is_null() && path.contains(&"@show");
        ensure!(!log.is_empty(), key, "nothing is sent: {}", r.body);
        for (s, b) in bodies(&log) {
            let body = s.body.clone().unwrap_or_default();
            let _ = asked(&b).map_err(|e| crate::engine::Violation { key: key.clone(), msg: format!("not a query: {e}: {body}") })?;
            let doc = async_graphql::parser::parse_query(b["query"].as_str().unwrap()).unwrap();
            let op = &doc.operations.iter().next().unwrap().1.node;
            let mut set = &op.selection_set.node.items;
            let mut found: Option<Value> = None;
            let mut p = path.as_slice();
            let mut args: Vec<(String, Value)> = vec![];
            let mut directives = vec![];
            while let Some(name) = p.first() {
                let mut l: Vec<&Positioned<Selection>> = set.iter().collect();
                let mut k = 0;
                while k < l.len() {
                    if let Selection::InlineFragment(f) = &l[k].node {
                        l.extend(f.node.selection_set.node.items.iter());
                    }
                    k += 1;
                }
                let f = l.iter().find_map(|s| match &s.node {
                    Selection::Field(f) if f.node.name.node == *name => Some(f),
                    _ => None,
                });
                if let Some(f) = f {
                    args = arguments(&f.node.arguments, &Value::Null);
                    directives = f.node.directives.clone();
                    set = &f.node.selection_set.node.items;
                    p = &p[1..];
                    continue;
                }
                if let Some(n) = name.strip_prefix('@') {
                    args = directives.iter().find(|d| d.node.name.node == n).map(|d| arguments(&d.node.arguments, &Value::Null)).unwrap_or_default();
                    p = &p[1..];
                    continue;
                }
                found = args.iter().find(|a| a.0 == *name).map(|a| a.1.clone());
                for step in &p[1..] {
                    found = found.map(|f| step.parse::<usize>().ok().and_then(|i| f.get(i)).or(f.get(step)).cloned().unwrap_or(json!("nothing")));
                }
                break;
            }
            if path[0] == "far" && asked(&b).unwrap().name == "user" {
                continue;
            }
            let want = if want_null && found.is_none() { None } else { Some(v.clone()) };
            ensure_eq!(found, want, key, "{path:?} of {body} for {q}");
            let of = |n: &str| s.headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
            if path == ["user", "id"] {
                let text = v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string());
                let plain = text.chars().all(|c| (' '..='~').contains(&c)) && (v.is_string() || v.is_number() || v.is_boolean());
                if plain {
                    ensure_eq!(of("x-id"), Some(text), key, "header of {q}");
                }
            }
        }
        ch.state(&key);
        ch.step();
        Ok(())
    });
    ctx.explore("constants", "values in the configuration, of headers and of variables of the server", |ch| {
        let batch = ch.flag();
        let who = *ch.pick(&["x", "a\"b", "é", "o'\\", "\\\"", "}) { evil } #"]);
        let site = server(batch, |_| json!({"data": {"user": {"name": "n"}}}));
        let r = site.ask_with(json!({"query": "{ c { name } w { name } }"}), &[("who", who)]);
        ch.note(format!("{who} {}", r.body));
        let log = site.log.lock().unwrap().clone();
        let mut seen = 0;
        for (s, b) in bodies(&log) {
            let a = match asked(&b) {
                Ok(a) => a,
                Err(e) => return crate::engine::fail(format!("header {who:?}"), e),
            };
            let args: Value = a.args.into_iter().collect();
            let want = if args["k"].is_null() { json!({"who": who, "v": "vår\"'x"}) } else { json!({"k": 5, "t": "t'é", "o": {"a": [1, {"enum": "RED"}]}}) };
            // (a header that is not ASCII is not text)
            if who.is_ascii() || !args["k"].is_null() {
                ensure_eq!(args, want, format!("header {who:?}"), "{s:?}");
            }
            seen += 1;
        }
        ensure_eq!(seen, 2, format!("header {who:?}"), "requests");
        ch.step();
        Ok(())
    });
    let parts: Vec<&str> = vec![
        "id", "name", "n: name", "pic", "pic(size: 1)", "friend { name }", "friend(f: \"x\") { id }", "best { a }", "twin { a b { a own } }", "best { b { b { a } } }", "label", "own", "kept", "some", "calc", "__typename", "... on U { id label }", "...F", "... { pic }", "friend { own pic }", "far { id own }", "name @show", "calls { id }", "name @skip(if: true)", "id @include(if: true)",
    ];
    let most = ctx.by(2, 3);
    ctx.explore("selections", "every selection of up to 2 (3) of 25 fields, fragments and nested selections, in the answer itself, in a list, in one of its objects, and in the answer to a mutation", |ch| {
        let n = ch.range(1, most);
        let sel: Vec<&str> = (0..n).map(|_| *ch.pick(&parts)).collect();
        let place = ch.choose(4);
        let frag = "fragment F on U { name friend { id } }";
        let inner = sel.join(" ");
        let (q, root, op) = match place {
            0 => (format!("{{ u {{ {inner} }} }} {frag}"), "user", OperationType::Query),
            1 => (format!("{{ us {{ {inner} }} }} {frag}"), "users", OperationType::Query),
            2 => (format!("{{ u {{ friend(f: \"deep\") {{ {inner} }} }} }} {frag}"), "user", OperationType::Query),
            _ => (format!("mutation {{ m {{ {inner} }} }} {frag}"), "make", OperationType::Mutation),
        };
        let q = if inner.contains("...F") { q } else { q.replace(frag, "") };
        ch.note(&q);
        ch.go();
        let key = q.clone();
        let site = server(false, |b| match asked(b) {
            Ok(a) => {
                let o = json!({"id": 1, "name": "n", "pic": "p", "nick": "k", "friend": {"id": 2, "name": "m"}, "best": {"a": 1}, "twin": {"a": 2}});
                json!({"data": {a.name.clone(): if a.name == "users" { json!([o]) } else { o }}})
            }
            Err(e) => json!({"errors": [{"message": e}]}),
        });
        let r = site.ask(&q, json!({}));
        ch.observe(&r.body);
        ensure!(r.errors().is_empty(), key, "{}", r.body);
        let log = site.log.lock().unwrap().clone();
        let first = bodies(&log);
        let a = asked(&first[0].1).map_err(|e| crate::engine::Violation { key: key.clone(), msg: e })?;
        ensure_eq!((a.op, a.name.as_str()), (op, root), key, "operation {:?}", first[0]);
        let doc = async_graphql::parser::parse_query(&q).unwrap();
        let set = &doc.operations.iter().next().unwrap().1.node.selection_set.node.items;
        let Selection::Field(f) = &set[0].node else { panic!() };
        let mut want = Tree::new();
        let keep = |n: &str| match n {
            "own" | "kept" | "some" | "calc" | "far" | "calls" => None,
            "label" => Some("nick"),
            _ => Some(""),
        };
        tree(&doc, &f.node.selection_set.node.items, None, &Value::Null, &keep, &mut want);
        let (got, want) = (a.tree, asking(want));
        // (one field with different arguments: the query is none, or Tailcall has no alias for it)
        if conflicts(&want) {
            ch.trivial();
            return Ok(());
        }
        ensure_eq!(got, want, key, "{} asks {}", q, first[0].1["query"]);
        ch.state(&q);
        ch.step();
        Ok(())
    });
    let faces: Vec<&str> = vec!["id", "name", "__typename", "... on U { id }", "... on U { pic(size: 2) }", "... on B { x s { a } }", "... on B { y: x }", "... on I { name }", "...G", "t: __typename"];
    ctx.explore("interfaces", "every selection of up to 3 of 10 fields and fragments on an interface", |ch| {
        let n = ch.range(1, 3);
        let sel: Vec<&str> = (0..n).map(|_| *ch.pick(&faces)).collect();
        let inner = sel.join(" ");
        let frag = "fragment G on B { id s { b { a } } }";
        let q = if inner.contains("...G") { format!("{{ i {{ {inner} }} }} {frag}") } else { format!("{{ i {{ {inner} }} }}") };
        let is = *ch.pick(&["U", "B"]);
        ch.note(&q);
        ch.go();
        let key = q.clone();
        let obj = json!({"__typename": is, "id": 1, "name": "n", "pic": "p", "x": 9, "s": {"a": 1, "b": {"a": 2}}});
        let o = obj.clone();
        let site = server(false, move |b| match asked(b) {
            Ok(_) => json!({"data": {"node": o}}),
            Err(e) => json!({"errors": [{"message": e}]}),
        });
        let r = site.ask(&q, json!({}));
        ch.observe(&r.body);
        ensure!(r.errors().is_empty(), key, "{}", r.body);
        let log = site.log.lock().unwrap().clone();
        let first = bodies(&log);
        let a = asked(&first[0].1).map_err(|e| crate::engine::Violation { key: key.clone(), msg: e })?;
        let doc = async_graphql::parser::parse_query(&q).unwrap();
        let set = &doc.operations.iter().next().unwrap().1.node.selection_set.node.items;
        let Selection::Field(f) = &set[0].node else { panic!() };
        let mut want = Tree::new();
        tree(&doc, &f.node.selection_set.node.items, Some("I"), &Value::Null, &|_| Some(""), &mut want);
        // what a type is asked for
        let of = |t: &Tree, ty: &str| -> Tree { t.iter().filter(|((on, n, _), _)| (on.as_deref() == Some("I") || on.as_deref() == Some(ty)) && n != "__typename").map(|((_, n, a), s)| ((None, n.clone(), a.clone()), s.clone())).collect() };
        for ty in ["U", "B"] {
            ensure_eq!(of(&a.tree, ty), of(&want, ty), key, "of type {ty}: {} asks {}", q, first[0].1["query"]);
        }
        ensure!(a.tree.contains_key(&(Some("I".into()), "__typename".into(), "{}".into())), key, "the type is not asked for: {}", first[0].1["query"]);
        ch.state((&q, is));
        ch.step();
        Ok(())
    });
    ctx.explore("answers", "15 answers of an upstream, alone or as elements of a batch of 2", |ch| {
        let batch = ch.flag();
        let u = json!({"name": "n"});
        let e = json!({"message": "m", "path": ["user", "name"], "extensions": {"code": 7}});
        // answer, data, messages of errors
        let all: Vec<(Value, Option<Value>, Vec<&str>)> = vec![
            (json!({"data": {"user": u}}), Some(u.clone()), vec![]),
            (json!({"data": {"user": u}, "errors": []}), Some(u.clone()), vec![]),
            (json!({"data": {"user": u}, "errors": [e]}), Some(u.clone()), vec!["m"]),
            (json!({"data": {"user": u}, "errors": [e, {"message": "k"}]}), Some(u.clone()), vec!["m", "k"]),
            (json!({"data": {"user": null}}), Some(Value::Null), vec![]),
            (json!({"data": {"user": null}, "errors": [e]}), Some(Value::Null), vec!["m"]),
            (json!({"data": null, "errors": [e]}), Some(Value::Null), vec!["m"]),
            (json!({"errors": [e]}), Some(Value::Null), vec!["m"]),
            (json!({"data": {"user": u, "other": 1}}), Some(u.clone()), vec![]),
            (json!({"data": {"user": {"name": "a'é\"", "id": 3}}}), Some(json!({"name": "a'é\""})), vec![]),
            (json!({"data": {"user": {}}}), Some(json!({"name": null})), vec![]),
            (json!({"data": {"user": u}, "extensions": {"x": 1}}), Some(u.clone()), vec![]),
            (json!("text"), None, vec![]),
            (json!(3), None, vec![]),
            (json!({"errors": "bad"}), None, vec![]),
        ];
        let two = [ch.choose(all.len()), ch.choose(all.len())];
        let l = [all[two[0]].clone(), all[two[1]].clone()];
        let key = format!("{} {}", l[0].0, l[1].0);
        ch.note(&key);
        ch.go();
        let calls = Arc::new(Mutex::new(0));
        let a = l.clone();
        let site = server(batch, move |b| {
            let _ = &calls;
            let q = b["query"].as_str().unwrap_or("");
            a[if q.contains("id: 2") { 1 } else { 0 }].0.clone()
        });
        let r = site.ask("{ x: u(id: 1) { name } y: u(id: 2) { name } }", json!({}));
        ch.observe(&r.body);
        let got = r.json();
        let mut messages: Vec<String> = r.errors().iter().map(|e| e["message"].as_str().unwrap_or("").to_string()).collect();
        messages.sort();
        if l.iter().any(|a| a.1.is_none()) {
            ensure!(!messages.is_empty() && got["data"].is_null(), key, "an answer that is none: {got}");
        } else {
            ensure_eq!(got["data"], json!({"x": l[0].1, "y": l[1].1}), key, "{got}");
            let mut want: Vec<String> = l.iter().flat_map(|a| a.2.iter().map(|m| m.to_string())).collect();
            want.sort();
            ensure_eq!(messages, want, key, "errors of {got}");
        }
        ch.step();
        Ok(())
    });
    ctx.explore("batch", "every list of up to 3 elements, and what is none, in answer to a batch of 2; with a failing status or not", |ch| {
        let u = |i: i64| json!({"data": {"user": {"name": format!("n{i}")}}});
        let body = match ch.choose(9) {
            0 => json!([u(1), u(2)]).to_string(),
            1 => json!([u(1)]).to_string(),
            2 => json!([]).to_string(),
            3 => json!([u(1), u(2), u(3)]).to_string(),
            4 => json!([u(1), null]).to_string(),
            5 => u(1).to_string(),
            6 => "".to_string(),
            7 => "<html>".to_string(),
            _ => json!({"errors": [{"message": "no batches"}]}).to_string(),
        };
        let status = *ch.pick(&[200, 500]);
        let key = format!("{status} {body}");
        ch.note(&key);
        let b = body.clone();
        // (the requests come in any order)
        let upstream = move |s: &Sent| {
            let sent = s.body.clone().unwrap_or_default();
            let swapped = sent.find("id: 2") < sent.find("id: 1");
            rt::reply(status, &[], if swapped { b.replace("n1", "-").replace("n2", "n1").replace('-', "n2") } else { b.clone() })
        };
        let site = serve::site(&sdl(true), Arc::new(upstream), false).unwrap();
        let r = site.ask("{ x: u(id: 1) { name } y: u(id: 2) { name } }", json!({}));
        let got = r.json();
        ch.observe(got["data"].to_string());
        let l: Vec<Value> = serde_json::from_str::<Value>(&body).ok().and_then(|b| b.as_array().cloned()).unwrap_or_default();
        let complete = l.len() >= 2 && l[..2].iter().all(|v| v.is_object());
        if complete {
            ensure_eq!(got, json!({"data": {"x": {"name": "n1"}, "y": {"name": "n2"}}}), key, "{got}");
        } else {
            ensure!(got["data"].is_null() && !r.errors().is_empty(), key, "an answer that is none is taken for one: {got}");
        }
        ch.step();
        Ok(())
    });
}

/// An object is asked for something, even if all its fields come from elsewhere.
fn asking(t: Tree) -> Tree {
    if t.is_empty() {
        return Tree::from([((None, "__typename".into(), "{}".into()), Sub::default())]);
    }
    t.into_iter().map(|(k, s)| if ["friend", "best", "twin", "b"].contains(&k.1.as_str()) { (k, Sub(asking(s.0))) } else { (k, s) }).collect()
}

/// Two selections of one name that are not the same.
fn conflicts(t: &Tree) -> bool {
    let mut by: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    t.keys().for_each(|(_, n, a)| by.entry(n).or_default().push(a));
    t.values().any(|s| conflicts(&s.0)) || by.into_values().any(|a| a.len() > 1)
}
