//! The generator: a configuration made from samples of an upstream serves what
//! the samples say (C37).
use std::collections::BTreeMap;
use std::sync::Arc;

use async_graphql::parser::types::{BaseType, TypeKind, TypeSystemDefinition};
use serde_json::{json, Map, Value};
use tailcall::core::config::transformer::Preset;
use tailcall::core::generator::{Generator, Input};
use tailcall::core::http::Method;

use super::{Prop, EX};
use crate::engine::{Ctx, Outcome};
use crate::gen;
use crate::rt::{self, Sent};
use crate::serve;
use crate::{ensure, ensure_eq};

pub const C37: Prop = Prop {
    id: "C37",
    level: EX,
    rule: "the server of the generated configuration, in front of the upstream that was sampled, answers the samples",
    run: c37,
    assumptions: &["async-graphql's parser reads schemas as the specification says"],
};

/// field name → (type name, list levels, arguments)
type Fields = BTreeMap<String, (String, usize, BTreeMap<String, String>)>;

pub fn types(sdl: &str) -> BTreeMap<String, Fields> {
    let doc = async_graphql::parser::parse_schema(sdl).unwrap();
    let mut out = BTreeMap::new();
    for d in doc.definitions {
        let TypeSystemDefinition::Type(t) = d else { continue };
        let t = t.node;
        let TypeKind::Object(o) = t.kind else { continue };
        let mut fs = BTreeMap::new();
        for f in o.fields {
            let f = f.node;
            let (mut ty, mut n) = (&f.ty.node, 0);
            let name = loop {
                match &ty.base {
                    BaseType::Named(s) => break s.to_string(),
                    BaseType::List(t) => {
                        n += 1;
                        ty = t;
                    }
                }
            };
            let args = f.arguments.iter().map(|a| (a.node.name.node.to_string(), a.node.ty.node.to_string())).collect();
            fs.insert(f.name.node.to_string(), (name, n, args));
        }
        out.insert(t.name.node.to_string(), fs);
    }
    out
}

/// Everything of a value that objects of a type have fields for, and what is
/// to be answered. Err: a part of the value that has no field.
fn select(ts: &BTreeMap<String, Fields>, ty: &str, vs: &[&Value], path: &str) -> Result<String, String> {
    let Some(fs) = ts.get(ty) else { return Ok(String::new()) };
    let mut by: BTreeMap<&String, Vec<&Value>> = BTreeMap::new();
    let mut todo: Vec<&Value> = vs.to_vec();
    while let Some(v) = todo.pop() {
        match v {
            Value::Array(l) => todo.extend(l),
            Value::Object(m) => m.iter().for_each(|(k, v)| by.entry(k).or_default().push(v)),
            _ => {}
        }
    }
    let mut out = String::new();
    for (k, vs) in by {
        let Some((t, _, _)) = fs.get(k) else { return Err(format!("{path}.{k}")) };
        out += &format!("{k} {} ", select(ts, t, &vs, &format!("{path}.{k}"))?);
    }
    Ok(if out.is_empty() { "{ __typename }".into() } else { format!("{{ {out}}}") })
}

/// what is to be answered: the fields that other elements of a list have are null
fn want(ts: &BTreeMap<String, Fields>, ty: &str, v: &Value, all: &[&Value]) -> Value {
    let Some(fs) = ts.get(ty) else { return v.clone() };
    match v {
        Value::Array(l) => Value::Array(l.iter().map(|v| want(ts, ty, v, all)).collect()),
        Value::Object(m) => {
            let mut keys: BTreeMap<&String, Vec<&Value>> = BTreeMap::new();
            let mut todo: Vec<&Value> = all.to_vec();
            while let Some(v) = todo.pop() {
                match v {
                    Value::Array(l) => todo.extend(l),
                    Value::Object(m) => m.iter().for_each(|(k, v)| keys.entry(k).or_default().push(v)),
                    _ => {}
                }
            }
            let mut o = Map::new();
            for (k, vs) in keys {
                let x = match (m.get(k), fs.get(k)) {
                    (Some(v), Some((t, _, _))) => want(ts, t, v, &vs),
                    _ => Value::Null,
                };
                o.insert(k.clone(), x);
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}

#[derive(Clone)]
struct Sample {
    url: &'static str,
    field: &'static str,
    body: Option<Value>,
    res: Value,
}

fn input(s: &Sample) -> Input {
    Input::Json {
        url: s.url.parse().unwrap(),
        method: if s.body.is_some() { Method::POST } else { Method::GET },
        req_body: s.body.clone().unwrap_or_default(),
        res_body: s.res.clone(),
        field_name: s.field.into(),
        is_mutation: s.body.is_some(),
        headers: None,
    }
}

fn sdl(samples: &[Sample], preset: Option<Preset>) -> Result<String, String> {
    let mut g = Generator::new().inputs(samples.iter().map(input).collect()).mutation(Some("Mutation".into()));
    let on = preset.is_some();
    if let Some(p) = preset {
        g = g.transformers(vec![Box::new(p)]);
    }
    Ok(g.generate(on).map_err(|e| e.to_string())?.config().to_sdl())
}

fn presets() -> Vec<(&'static str, Option<Preset>)> {
    let p = |m, t, i| Some(Preset { merge_type: m, tree_shake: t, infer_type_names: i, unwrap_single_field_types: false });
    vec![("as it is", None), ("named", p(0.0, true, true)), ("merged", p(1.0, true, false)), ("all", p(0.6, true, true))]
}

/// Whether what is in one place, of all elements of a list, is always an
/// object, always a list or always neither, if it is not null.
fn uniform(vs: &[&Value]) -> bool {
    let mut kinds = std::collections::BTreeSet::new();
    let mut items = vec![];
    let mut by: BTreeMap<&String, Vec<&Value>> = BTreeMap::new();
    for v in vs {
        match v {
            Value::Null => {}
            Value::Array(l) => {
                kinds.insert(1);
                items.extend(l);
            }
            Value::Object(m) => {
                kinds.insert(2);
                m.iter().for_each(|(k, v)| by.entry(k).or_default().push(v));
            }
            _ => {
                kinds.insert(3);
            }
        }
    }
    kinds.len() < 2 && (items.is_empty() || uniform(&items)) && by.values().all(|l| uniform(l))
}

fn check(key: &str, samples: &[Sample], preset: Option<Preset>, args: &[Vec<(&str, Value)>]) -> Outcome {
    let text = match sdl(samples, preset) {
        Ok(t) => t,
        Err(e) => return crate::engine::fail(key, format!("refused: {e}")),
    };
    let ss = samples.to_vec();
    let answer = move |s: &Sent| match ss.iter().find(|x| url(x.url) == url(&s.url)) {
        Some(x) => rt::json(x.res.to_string()),
        None => rt::reply(404, &[], format!("no {}", s.url)),
    };
    let site = match serve::site(&text, Arc::new(answer), false) {
        Ok(s) => s,
        Err(e) => return crate::engine::fail(key, format!("not served: {e}\n{text}")),
    };
    let ts = types(&text);
    for (i, s) in samples.iter().enumerate() {
        let root = if s.body.is_some() { "Mutation" } else { "Query" };
        let Some((ty, _, params)) = ts.get(root).and_then(|q| q.get(s.field)) else {
            return crate::engine::fail(key, format!("no field {}\n{text}", s.field));
        };
        let sel = match select(&ts, ty, &[&s.res], s.field) {
            Ok(t) => t,
            Err(e) => return crate::engine::fail(key, format!("no field for {e}\n{text}")),
        };
        let mut vars = Map::new();
        let mut decl = String::new();
        let mut given = String::new();
        for (n, v) in args.get(i).into_iter().flatten() {
            let Some(t) = params.get(*n) else { return crate::engine::fail(key, format!("no argument {n}\n{text}")) };
            decl += &format!("${n}: {t} ");
            given += &format!("{n}: ${n} ");
            vars.insert(n.to_string(), v.clone());
        }
        ensure_eq!(params.len(), vars.len(), key, "arguments of {}\n{text}", s.field);
        let (decl, given) = if vars.is_empty() { (decl, given) } else { (format!("({decl})"), format!("({given})")) };
        let op = if s.body.is_some() { "mutation" } else { "query" };
        let q = format!("{op} {decl} {{ f: {}{given} {sel} }}", s.field);
        site.log.lock().unwrap().clear();
        let r = site.ask(&q, Value::Object(vars));
        let log = site.log.lock().unwrap().clone();
        ensure_eq!(log.iter().map(|s| url(&s.url)).collect::<Vec<_>>(), vec![url(s.url)], key, "asked upstream, {q}\n{}\n{text}", r.body);
        if let Some(b) = &s.body {
            ensure_eq!(log[0].method, "POST", key, "method");
            let got: Value = serde_json::from_str(log[0].body.as_deref().unwrap_or("")).unwrap_or_default();
            ensure_eq!(&got, b, key, "body sent {:?}\n{text}", log[0].body);
        }
        let w = want(&ts, ty, &s.res, &[&s.res]);
        ensure!(r.json() == json!({"data": {"f": w}}), key, "answer {} instead of {w}\n{q}\n{text}", r.body);
    }
    Ok(())
}

/// the url template, and the query parameters with the argument each stands for
fn called(sdl: &str) -> (String, Vec<(String, String)>) {
    let doc = async_graphql::parser::parse_schema(sdl).unwrap();
    for d in doc.definitions {
        let TypeSystemDefinition::Type(t) = d else { continue };
        let TypeKind::Object(o) = &t.node.kind else { continue };
        for f in &o.fields {
            for d in &f.node.directives {
                if d.node.name.node != "http" {
                    continue;
                }
                let arg = |n: &str| d.node.get_argument(n).map(|v| v.node.clone().into_json().unwrap()).unwrap_or_default();
                let list = arg("query").as_array().cloned().unwrap_or_default();
                let name = |v: &Value| v["value"].as_str().unwrap().trim_start_matches("{{.args.").trim_end_matches("}}").to_string();
                return (arg("url").as_str().unwrap().to_string(), list.iter().map(|v| (v["key"].as_str().unwrap().to_string(), name(v))).collect());
            }
        }
    }
    panic!("nothing is called")
}

/// what the arguments of a template stand for in a text
fn fill(template: &str, text: &str) -> Option<Vec<(String, String)>> {
    let mut out = vec![];
    let mut rest = text;
    let mut parts = template.split("{{.args.");
    rest = rest.strip_prefix(parts.next()?)?;
    for p in parts {
        let (name, lit) = p.split_once("}}")?;
        let end = if lit.is_empty() { rest.len() } else { rest.find(lit)? };
        out.push((name.to_string(), rest[..end].to_string()));
        rest = &rest[end + lit.len()..];
    }
    rest.is_empty().then_some(out)
}

fn decoded(s: &str) -> String {
    url::form_urlencoded::parse(s.replace('&', "%26").replace('=', "%3D").replace('+', "%2B").as_bytes()).next().map(|p| p.0.to_string()).unwrap_or_default()
}

/// as a server reads it
fn url(u: &str) -> (String, Vec<(String, String)>) {
    let u: url::Url = u.parse().unwrap();
    let mut q: Vec<(String, String)> = u.query_pairs().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    q.sort();
    (format!("{}{}", u.host_str().unwrap(), u.path()), q)
}

fn c37(ctx: &mut Ctx) {
    let ps = presets();
    let (one, few) = ctx.by((1, 2), (4, 4));
    // as generated, and with the first of the sets
    let some = |ch: &crate::engine::Chooser| {
        let (name, _) = ps[ch.choose(few)];
        (name, presets().into_iter().find(|p| p.0 == name).unwrap().1)
    };
    let all = |ch: &crate::engine::Chooser| {
        let (name, _) = ps[ps.len() - 1 - ch.choose(one)];
        (name, presets().into_iter().find(|p| p.0 == name).unwrap().1)
    };
    let get = |url, field, res| Sample { url, field, body: None, res };
    let leaves = ctx.by(vec![json!(1), json!("a"), json!(null)], vec![json!(1), json!("a"), json!(true), json!(null)]);
    ctx.explore("documents", "every uniform document of depth ≤2 over 3 (4) leaves and 2 keys, lists of ≤2; as generated and with 1 (3) sets of transformations", |ch| {
        let v = gen::doc(ch, 2, &leaves, &["a", "b"], 2);
        let (name, p) = some(ch);
        let key = format!("{name} {v}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        if !uniform(&[&v]) {
            ch.trivial();
            return Ok(());
        }
        check(&key, &[get("http://up/x", "x", v)], p, &[])
    });
    let (d, deep) = ctx.by((3, vec![json!(1)]), (3, vec![json!(1), json!("a")]));
    ctx.explore("deep documents", "every uniform document of depth ≤3 over 1 (2) leaves and 2 keys, lists of ≤1; with 1 (4) sets of transformations", |ch| {
        let v = gen::doc(ch, d, &deep, &["a", "b"], 1);
        let (name, p) = all(ch);
        let key = format!("{name} {v}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        check(&key, &[get("http://up/x", "x", v)], p, &[])
    });
    let names = ["a", "A", "a_b", "aB", "users", "user", "query", "int", "id", "date", "type", "on", "null", "T1", "GEN__1", "data", "b-c", "1", "", "é", "_a", "a.b", "x", "mutation", "string", "boolean", "float", "email", "json", "input", "true", "gen", "GEN__2", "a b", "__a", "$a"];
    let names = &names[..ctx.by(22, names.len())];
    ctx.explore("names", "every pair of 22 (36) names, as keys of an object in one another or side by side, of objects or lists; as generated and with 1 (3) sets of transformations", |ch| {
        let (a, b) = (*ch.pick(names), *ch.pick(names));
        let list = ch.flag();
        let wrap = |v: Value| if list { json!([v]) } else { v };
        let v = if ch.flag() { json!({a: wrap(json!({b: wrap(json!({"c": 1}))}))}) } else { json!({a: wrap(json!({"c": 1})), b: wrap(json!({"d": "x"}))}) };
        let (name, p) = some(ch);
        let key = format!("{name} {v}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let field = if ["a", "user"].contains(&a) { "users" } else { "x" };
        check(&key, &[get("http://up/x", field, v)], p, &[])
    });
    let pool = [json!({"a": 1}), json!({"a": 1, "b": "x"}), json!({"a": "x"}), json!({"a": {"a": 1}}), json!([{"a": 1}, {"b": true}]), json!({"b": {"a": 1}, "c": [{"a": 2}]}), json!({"a": null, "b": []}), json!({"a": [1, 2], "b": {}}), json!([1, 2]), json!("x"), json!([]), json!({"a": 1, "b": "x", "c": 1, "d": 1}), json!({"a": 1, "b": "x", "c": 1, "e": 2}), json!({"x": {"a": 1, "b": "x"}})];
    let bodies = ctx.by(vec![json!({"a": 1, "b": "x"}), json!([{"a": 1}, {"b": true}])], vec![json!({"a": 1, "b": "x"}), json!([{"a": 1}, {"b": true}]), json!({"b": {"a": 1}, "c": [{"a": 2}]}), json!({"a": [[1, 2]]}), json!([[1], [2]])]);
    let n = ctx.by(2, 3);
    ctx.explore("samples", "every sequence of 2 (3) of 14 samples, queries or a mutation with one of 2 (5) bodies, as generated and with 1 (3) sets of transformations", |ch| {
        let l: Vec<Value> = (0..n).map(|_| ch.pick(&pool).clone()).collect();
        let m = ch.choose(3);
        let body = (m > 0).then(|| ch.pick(&bodies).clone());
        let (name, p) = some(ch);
        let key = format!("{name} {m} {} {}", json!(body), json!(l));
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let fields = ["x", "ys", "user"];
        let urls = ["http://up/x", "http://up/ys", "http://other/user"];
        let ss: Vec<Sample> = l.iter().enumerate().map(|(i, v)| Sample { url: urls[i], field: fields[i], body: body.clone().filter(|_| i == m - 1), res: v.clone() }).collect();
        let args: Vec<Vec<(&str, Value)>> = ss.iter().map(|s| s.body.iter().map(|b| ("GEN__Input1", b.clone())).collect()).collect();
        check(&key, &ss, p, &args)
    });
    let segs = ["users", "7", "1234", "3fa85f64-5717-4562-b3fc-2c963f66afa6", "12345678-1234-1234-1234-123456789012", "v1", "7a", "a7", "1.5", "x-7", "7-x", "%C3%A9", "a%20b", "a%2Fb", "0", "12345678901"];
    let queries = ["a=1", "a=x", "b=1.5", "user_id=true", "a=1,2", "c=x,y", "a=2", "A=1", "d=", "e%20f=g%20h", "x-y=%26%3D", "9=1", "a[]=1", "GEN__1=5"];
    let (n, nq) = ctx.by((2, 1), (3, 2));
    ctx.explore("urls", "every url of ≤2 (3) of 16 segments and ≤2 of 14 query parameters (in quick, 2 segments with ≤1): asked with the arguments it was made of, the same url is called", |ch| {
        let path = ch.seq(&segs, 0, n);
        let query = ch.seq(&queries, 0, if path.len() == 2 { nq } else { 2 });
        let u = format!("http://up/{}{}{}", path.join("/"), if query.is_empty() { "" } else { "?" }, query.join("&"));
        ch.note(&u);
        ch.step();
        ch.state(&u);
        let text = match sdl(&[Sample { url: Box::leak(u.clone().into_boxed_str()), field: "x", body: None, res: json!({"a": 1}) }], None) {
            Ok(t) => t,
            Err(e) => return crate::engine::fail(&u, e),
        };
        let site = match serve::site(&text, Arc::new(|_: &Sent| rt::json("{\"a\": 1}")), false) {
            Ok(s) => s,
            Err(e) => return crate::engine::fail(&u, format!("not served: {e}\n{text}")),
        };
        let ts = types(&text);
        let params = &ts["Query"]["x"].2;
        // the arguments are given the values they stand for in the sample
        let (template, list) = called(&text);
        let mut given: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let full: url::Url = u.parse().unwrap();
        let path = &u[..u.find('?').unwrap_or(u.len())];
        let Some(found) = fill(&template, path).or_else(|| fill(&decoded(&template), &decoded(path))) else {
            return crate::engine::fail(&u, format!("{u} is not of the template {template}"));
        };
        for (k, v) in found {
            given.entry(k).or_default().push(v);
        }
        let mut keys: Vec<String> = vec![];
        for (k, v) in full.query_pairs() {
            let Some((_, name)) = list.iter().find(|l| l.0 == k) else { return crate::engine::fail(&u, format!("no query parameter {k}\n{text}")) };
            given.entry(name.clone()).or_default().extend(v.split(',').map(|v| v.to_string()));
            keys.push(k.to_string());
        }
        ensure_eq!(params.keys().collect::<Vec<_>>(), given.keys().collect::<Vec<_>>(), u, "arguments\n{text}");
        let mut vars = Map::new();
        let (mut decl, mut args) = (String::new(), String::new());
        for (n, vs) in &given {
            let t = &params[n];
            let mut l = vec![];
            for v in vs {
                let base = t.trim_matches(|c: char| "[]!".contains(c));
                let x = match base {
                    "Int" => v.parse::<i64>().map(|v| json!(v)).ok(),
                    "Float" => v.parse::<f64>().map(|v| json!(v)).ok(),
                    "Boolean" => v.parse::<bool>().map(|v| json!(v)).ok(),
                    _ => Some(json!(v)),
                };
                let Some(x) = x else {
                    // values of different kinds for one parameter
                    ch.trivial();
                    return Ok(());
                };
                l.push(x);
            }
            ensure!(t.starts_with('[') || l.len() == 1, u, "{n}: {t} for {vs:?}");
            vars.insert(n.clone(), if t.starts_with('[') { json!(l) } else { l[0].clone() });
            decl += &format!("${n}: {t} ");
            args += &format!("{n}: ${n} ");
        }
        let (decl, args) = if vars.is_empty() { (decl, args) } else { (format!("({decl})"), format!("({args})")) };
        let r = site.ask(&format!("query {decl} {{ x{args} {{ a }} }}"), Value::Object(vars));
        ensure!(r.json() == json!({"data": {"x": {"a": 1}}}), u, "{}\n{text}", r.body);
        let log = site.log.lock().unwrap().clone();
        let split = |u: &str| {
            let (a, q) = url(u);
            // a list with commas is sent as several parameters
            (a, q.iter().flat_map(|(k, v)| v.split(',').map(|v| (k.clone(), v.to_string())).collect::<Vec<_>>()).collect::<std::collections::BTreeSet<_>>())
        };
        ensure_eq!(log.iter().map(|s| split(&s.url)).collect::<Vec<_>>(), vec![split(&u)], u, "{}\n{text}", log.first().map(|l| &*l.url).unwrap_or("-"));
        Ok(())
    });
}
