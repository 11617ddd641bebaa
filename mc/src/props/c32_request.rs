//! The whole server: the requests sent upstream (C32).
use std::sync::Arc;

use serde_json::{json, Map, Value};
use url::form_urlencoded;

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx};
use crate::rt::{self, Sent};
use crate::serve::{self, Site};
use crate::{ensure, ensure_eq};

pub const C32: Prop = Prop { id: "C32", level: MC, rule: "what is sent is, read as a server reads it, what the template says with the values put in", run: c32, assumptions: &["an upstream reads a query as application/x-www-form-urlencoded and percent-decodes the segments of a path", "values put into a path do not contain % # ? / \\ or line breaks"] };

/// what stands in a template
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Text(&'static str),
    X,
    Y,
}
use Part::{Text, X, Y};
type Form = &'static [Part];

fn source(form: Form, x: &str) -> String {
    form.iter()
        .map(|p| match p {
            Text(t) => t.to_string(),
            X => format!("{{{{.{x}}}}}"),
            Y => "{{.args.y}}".to_string(),
        })
        .collect()
}

/// a value in text
fn plain(v: &Option<Value>) -> String {
    match v {
        None | Some(Value::Null) => String::new(),
        Some(Value::String(s)) => s.clone(),
        Some(v) => v.to_string(),
    }
}
fn render(form: Form, x: &Option<Value>, y: &Option<Value>) -> String {
    form.iter()
        .map(|p| match p {
            Text(t) => t.to_string(),
            X => plain(x),
            Y => plain(y),
        })
        .collect()
}

/// the pairs a query parameter makes
fn pairs(key: &str, v: &Value, out: &mut Vec<(String, String)>) {
    match v {
        Value::Array(l) if !l.is_empty() => l.iter().for_each(|v| pairs(key, v, out)),
        Value::Array(_) | Value::Object(_) => out.push((key.into(), String::new())),
        v => out.push((key.into(), plain(&Some(v.clone())))),
    }
}

const TYPES: [(&str, &str); 7] = [("String", "s"), ("Int", "i"), ("Float", "f"), ("Boolean", "b"), ("E", "e"), ("[String]", "l"), ("In", "o")];

fn values(ty: &str) -> Vec<Value> {
    match ty {
        "String" => ["", "a", "a b", "a&k=c", "a+b", "50%", "%41", "é", "#?/=;,", "\"\\\n", "{{.env.E}}", "null", "[1]"].iter().map(|s| json!(s)).collect(),
        "Int" => vec![json!(0), json!(-12)],
        "Float" => vec![json!(1.5), json!(1e21)],
        "Boolean" => vec![json!(false), json!(true)],
        "E" => vec![json!("AB")],
        "[String]" => vec![json!([]), json!(["a"]), json!(["b&k=", "a+b"]), json!(["a", null, ""])],
        "In" => vec![json!({}), json!({"a": 1, "b": "x\"y"})],
        _ => unreachable!(),
    }
}

const QUERY: [(Form, bool); 6] = [(&[X], false), (&[X], true), (&[Text("lit")], false), (&[Text("pre-"), X], false), (&[X, Text("-post")], false), (&[X, Text(" "), Y], true)];
const BASES: [&str; 3] = ["", "?base=1", "?base=a%26k%3Db&t=x"];

/// what a body is made of
fn bodies() -> Vec<(&'static str, Value)> {
    vec![
        ("\"{{.args.x}}\"", json!("X")),
        ("{a: \"{{.args.x}}\"}", json!({"a": [X_]})),
        ("{a: \"{{.args.x}}\", b: \"{{.args.y}}\"}", json!({"a": [X_], "b": [Y_]})),
        ("{a: {b: [\"pre-{{.args.x}}-{{.args.y}}\", 1, null]}, c: \"lit\", d: true}", json!({"a": {"b": [["pre-", X_, "-", Y_], 1, null]}, "c": ["lit"], "d": true})),
    ]
}
const X_: i64 = -1001;
const Y_: i64 = -1002;

/// a body of which every text is written as the list of its parts
fn fill(t: &Value, x: &Option<Value>, y: &Option<Value>) -> Value {
    match t {
        Value::Array(l) if !l.is_empty() && l.iter().all(|v| v.is_string() || v == &json!(X_) || v == &json!(Y_)) => json!(l
            .iter()
            .map(|p| match p {
                Value::String(s) => s.clone(),
                p if p == &json!(X_) => plain(x),
                _ => plain(y),
            })
            .collect::<String>()),
        Value::Array(l) => l.iter().map(|v| fill(v, x, y)).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), fill(v, x, y))).collect()),
        v => v.clone(),
    }
}

fn sdl() -> String {
    let mut fields = String::new();
    for (ty, t) in TYPES {
        let args = format!("(x: {ty} y: String)");
        for (q, (form, skip)) in QUERY.iter().enumerate().filter(|_| t != "o") {
            for (b, base) in BASES.iter().enumerate() {
                fields += &format!("  q{q}{b}{t}{args}: Int @http(url: \"http://up/r{base}\", query: [{{key: \"k\", value: \"{}\", skipEmpty: {skip}}}, {{key: \"z\", value: \"{{{{.args.y}}}}\"}}])\n", source(form, "args.x"));
            }
        }
        if !["l", "o"].contains(&t) {
            fields += &format!("  p{t}(x: {ty}! y: String!): Int @http(url: \"http://up/r/{{{{.args.x}}}}/u-{{{{.args.y}}}}\")\n");
        }
        fields += &format!("  h{t}{args}: Int @http(url: \"http://up/r\", headers: [{{key: \"X-A\", value: \"{{{{.args.x}}}}\"}}, {{key: \"x-b\", value: \"p {{{{.args.x}}}}{{{{.args.y}}}}\"}}, {{key: \"x-c\", value: \"lit\"}}])\n");
        for (m, method) in ["POST", "PUT", "PATCH", "DELETE", "GET"].iter().enumerate() {
            fields += &format!("  m{m}{t}{args}: Int @http(url: \"http://up/r\", method: {method})\n");
        }
        for (b, (body, _)) in bodies().iter().enumerate() {
            for (e, enc) in ["ApplicationJson", "ApplicationXWwwFormUrlencoded"].iter().enumerate() {
                fields += &format!("  b{b}{e}{t}{args}: Int @http(url: \"http://up/r\", method: POST, body: {body}, encoding: {enc})\n");
            }
        }
    }
    let mut below = String::new();
    for (n, e) in SOURCES.iter().enumerate() {
        let query = if ASKED[n] { format!(" query: [{{key: \"k\", value: \"{{{{{e}}}}}\"}}, {{key: \"m\", value: \"<{{{{{e}}}}}>\"}}],") } else { String::new() };
        below += &format!("  c{n}(x: X l: [String]): Int @http(url: \"http://up/r\", method: POST,{query} headers: [{{key: \"x-a\", value: \"{{{{{e}}}}}\"}}], body: {{a: \"{{{{{e}}}}}\", b: \"<{{{{{e}}}}}>\"}})\n");
    }
    for (ty, t) in TYPES {
        fields += &format!("  d{t}(x: {ty} y: String): Int @call(steps: [{{query: \"b20{t}\", args: {{x: \"{{{{.args.x}}}}\", y: \"{{{{.args.y}}}}\"}}}}])\n");
    }
    fields += "  r(v: Any): R @http(url: \"http://up/root\", method: POST, body: \"{{.args.v}}\")\n";
    format!("schema @server(vars: [{{key: \"k\", value: \"v&\\\"+\"}}]) @upstream(allowedHeaders: [\"xh\"]) {{ query: Query }}\ntype Query {{\n{fields}}}\ntype R {{\n  v: String\n  o: O\n{below}}}\ntype O {{ n: String }}\ninput X {{ o: XO }}\ninput XO {{ n: String }}\nscalar Any\nenum E {{ AB C }}\ninput In {{ a: Int b: String }}\n")
}

/// where a value comes from
const SOURCES: [&str; 9] = [".value.v", ".value.o.n", ".value.o", ".args.x", ".args.x.o.n", ".args.l", ".vars.k", ".vars.none", ".headers.xh"];
/// whether it may stand in a query
const ASKED: [bool; 9] = [true, true, false, false, true, true, true, false, true];

fn decoded(url: &str) -> (String, Vec<(String, String)>) {
    let u = url::Url::parse(url).unwrap();
    (u.path().to_string(), form_urlencoded::parse(u.query().unwrap_or("").as_bytes()).into_owned().collect())
}

fn c32(ctx: &mut Ctx) {
    let answer: rt::Answer = Arc::new(|s: &Sent| if s.url == "http://up/root" { rt::json(s.body.clone().unwrap()) } else { rt::json("1") });
    let site = serve::site(&sdl(), answer, false).unwrap();
    // x of any type, y of text; both given, null or not at all
    let arg = |ch: &Chooser, ty: &str| -> Option<Value> {
        let vs = values(ty);
        match ch.choose(vs.len() + 2) {
            0 => None,
            1 => Some(Value::Null),
            k => Some(vs[k - 2].clone()),
        }
    };
    let small = |ch: &Chooser| -> Option<Value> { ch.pick(&[None, Some(json!("y&\"")), Some(json!("w+ "))]).clone() };
    let ask = |ch: &Chooser, site: &Site, field: String, ty: &str, x: &Option<Value>, y: &Option<Value>| -> Result<(String, Sent), crate::engine::Violation> {
        let mut vars = Map::new();
        let (mut head, mut text) = (vec![], vec![]);
        for (n, t, v) in [("x", ty, x), ("y", "String", y)] {
            if let Some(v) = v {
                head.push(format!("${n}: {t}{}", if field.starts_with('p') { "!" } else { "" }));
                text.push(format!("{n}: ${n}"));
                vars.insert(n.to_string(), v.clone());
            }
        }
        let p = |l: Vec<String>| if l.is_empty() { String::new() } else { format!("({})", l.join(" ")) };
        let q = format!("query{} {{ {field}{} }}", p(head), p(text));
        let key = format!("{q} {}", Value::Object(vars.clone()));
        ch.note(&key);
        ch.go();
        ch.step();
        site.log.lock().unwrap().clear();
        let r = site.ask(&q, Value::Object(vars));
        let sent: Vec<Sent> = std::mem::take(&mut *site.log.lock().unwrap());
        ch.observe(&(r.body.clone(), sent.clone()));
        ch.state(&key);
        if sent.is_empty() && (field.starts_with("b01") || field.starts_with("b31")) {
            // what is not an object of texts has no form encoding
            ensure!(r.body.contains("errors"), key, "nothing sent, answered {}", r.body);
            return Ok((key, Sent { headers: vec![("content-type".into(), "application/x-www-form-urlencoded".into())], ..Default::default() }));
        }
        ensure!(sent.len() == 1, key, "{} requests sent, answered {}", sent.len(), r.body);
        Ok((key, sent[0].clone()))
    };
    ctx.explore("query", "3 base urls, 6 query templates (one expression, text, both, two expressions; skipEmpty or not) and a second parameter; 6 types of argument, each of its values (13 texts), null or none; 3 values of the other argument", |ch| {
        let ((form, skip), base, (ty, t)) = (*ch.pick(&QUERY), ch.choose(BASES.len()), *ch.pick(&TYPES[..6]));
        let q = QUERY.iter().position(|f| *f == (form, skip)).unwrap();
        let (x, y) = (arg(ch, ty), small(ch));
        let (key, s) = ask(ch, &site, format!("q{q}{base}{t}"), ty, &x, &y)?;
        let mut want: Vec<(String, String)> = form_urlencoded::parse(BASES[base].trim_start_matches('?').as_bytes()).into_owned().collect();
        match form {
            [X] => match &x {
                None if skip => {}
                None => want.push(("k".into(), String::new())),
                Some(v) => pairs("k", v, &mut want),
            },
            f => want.push(("k".into(), render(f, &x, &y))),
        }
        pairs("z", &y.clone().unwrap_or_default(), &mut want);
        let (path, got) = decoded(&s.url);
        ensure_eq!(path, "/r", key, "path");
        ensure_eq!(got, want, key, "query of {}", s.url);
        ensure_eq!(s.method, "GET", key, "method");
        ensure!(s.body.is_none(), key, "a body");
        Ok(())
    });
    ctx.explore("path", "5 types of argument in a segment of its own, each of its values, and within a segment", |ch| {
        let (ty, t) = *ch.pick(&TYPES[..5]);
        let (x, y) = (Some(ch.pick(&values(ty)).clone()), Some(ch.pick(&[json!("y"), json!("y z")]).clone()));
        if plain(&x).contains(['%', '#', '?', '/', '\\', '\n']) {
            ch.trivial();
            return Ok(());
        }
        let (key, s) = ask(ch, &site, format!("p{t}"), ty, &x, &y)?;
        let u = url::Url::parse(&s.url).unwrap();
        let got: Vec<String> = u.path_segments().unwrap().map(|p| percent(p)).collect();
        ensure_eq!(got, vec!["r".to_string(), plain(&x), format!("u-{}", plain(&y))], key, "path of {}", s.url);
        ensure!(u.query().is_none(), key, "a query in {}", s.url);
        Ok(())
    });
    ctx.explore("headers", "7 types of argument in a header of its own and within a header, each of its values, null or none, 3 values of the other", |ch| {
        let (ty, t) = *ch.pick(&TYPES);
        let (x, y) = (arg(ch, ty), small(ch));
        let (key, s) = ask(ch, &site, format!("h{t}"), ty, &x, &y)?;
        let mut want: Vec<(String, String)> = vec![("x-a".into(), plain(&x)), ("x-b".into(), format!("p {}{}", plain(&x), plain(&y))), ("x-c".into(), "lit".into())];
        want.retain(|(_, v)| !v.contains('\n'));
        ensure_eq!(s.headers, want, key, "headers");
        Ok(())
    });
    ctx.explore("methods", "the 5 methods", |ch| {
        let (ty, t) = TYPES[0];
        let m = ch.choose(5);
        let (key, s) = ask(ch, &site, format!("m{m}{t}"), ty, &None, &None)?;
        ensure_eq!(s.method, ["POST", "PUT", "PATCH", "DELETE", "GET"][m], key, "method");
        ensure!(s.body.is_none(), key, "a body");
        Ok(())
    });
    ctx.explore("bodies", "4 bodies (an argument; objects of one, of two, nested with parts of strings) in 2 encodings; 7 types of argument, each of its values, null or none, 3 values of the other", |ch| {
        let (ty, t) = *ch.pick(&TYPES);
        let bs = bodies();
        let b = ch.choose(bs.len());
        let form = ch.flag();
        let (x, y) = (arg(ch, ty), small(ch));
        let (key, s) = ask(ch, &site, format!("b{b}{}{t}", form as u8), ty, &x, &y)?;
        ensure_eq!(s.headers, vec![("content-type".to_string(), if form { "application/x-www-form-urlencoded" } else { "application/json" }.to_string())], key, "headers");
        let body = s.body.clone().unwrap_or_default();
        if b == 0 {
            if !form {
                ensure_eq!(body, plain(&x), key, "body");
            }
            return Ok(());
        }
        let want = fill(&bs[b].1, &x, &y);
        if form {
            if b < 3 {
                let got: Vec<(String, String)> = form_urlencoded::parse(body.as_bytes()).into_owned().collect();
                let want: Vec<(String, String)> = want.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
                ensure_eq!(got, want, key, "form {body}");
            }
            return Ok(());
        }
        let got: Result<Value, _> = serde_json::from_str(&body);
        ensure!(got.as_ref().ok() == Some(&want), key, "body {body}, not {want}");
        Ok(())
    });
    ctx.explore("sources", "a request of which the query, a header and the body are made of one of 9 expressions over the value of the parent, the arguments, the variables of the server and the headers of the request, alone and within text; 12 values each, or none", |ch| {
        let n = ch.choose(SOURCES.len());
        let v = ch.pick(&[json!(""), json!("a"), json!("a b"), json!("a&k=c"), json!("+%41\"\\"), json!("é"), json!(-3), json!(true), Value::Null, json!({"n": "p&q"}), json!({"n": [1, "\""]}), json!(["b", "&"])]).clone();
        let header = ch.pick(&[None, Some(""), Some("h&i"), Some("\"j\"")]);
        if !SOURCES[n].starts_with(".headers") && header.is_some_and(|h| h.is_empty()) {
            ch.trivial();
            return Ok(());
        }
        let q = format!("query($v: Any $x: X $l: [String]) {{ r(v: $v) {{ c{n}(x: $x l: $l) }} }}");
        let text = v.is_string() || v.is_null();
        if SOURCES[n].starts_with(".args") && !text {
            ch.trivial();
            return Ok(());
        }
        let vars = if text { json!({"v": {"v": v, "o": {"n": v}}, "x": {"o": {"n": v}}, "l": [v, "z"]}) } else { json!({"v": {"v": v, "o": v}}) };
        let key = format!("{} {v} {header:?}", SOURCES[n]);
        ch.note(&key);
        ch.go();
        ch.step();
        site.log.lock().unwrap().clear();
        let headers: Vec<(&str, &str)> = header.iter().map(|h| ("xh", *h)).collect();
        let r = site.ask_with(json!({"query": q, "variables": vars}), &headers);
        let sent: Vec<Sent> = std::mem::take(&mut *site.log.lock().unwrap());
        ch.observe(&(r.body.clone(), sent.clone()));
        ch.state(&key);
        ensure!(sent.len() == 2, key, "{} requests sent, answered {}", sent.len(), r.body);
        let s = &sent[1];
        let x: Option<Value> = match SOURCES[n] {
            ".value.v" => Some(v.clone()),
            ".value.o" => Some(vars["v"]["o"].clone()),
            ".value.o.n" => vars["v"]["o"].get("n").cloned(),
            ".args.x" => Some(vars["x"].clone()),
            ".args.x.o.n" => Some(v.clone()),
            ".args.l" => Some(vars["l"].clone()),
            ".vars.k" => Some(json!("v&\"+")),
            ".headers.xh" => header.map(|h| json!(h)),
            _ => None,
        };
        let mut want = vec![];
        pairs("k", x.as_ref().unwrap_or(&Value::Null), &mut want);
        want.push(("m".into(), format!("<{}>", plain(&x))));
        let (_, got) = decoded(&s.url);
        if ASKED[n] {
            ensure_eq!(got, want, key, "query of {}", s.url);
        }
        let got: Vec<&str> = s.headers.iter().filter(|(n, _)| n == "x-a").map(|(_, v)| v.as_str()).collect();
        ensure_eq!(got, vec![plain(&x).as_str()], key, "header");
        let got: Vec<&str> = s.headers.iter().filter(|(n, _)| n == "xh").map(|(_, v)| v.as_str()).collect();
        ensure_eq!(got, header.iter().copied().collect::<Vec<_>>(), key, "forwarded header");
        let got: Value = serde_json::from_str(s.body.as_deref().unwrap_or("")).unwrap_or(Value::Null);
        ensure_eq!(got, json!({"a": plain(&x), "b": format!("<{}>", plain(&x))}), key, "body");
        Ok(())
    });
    ctx.explore("calls", "7 types of argument, each value, null or none, passed on by @call to a field with a body of two arguments", |ch| {
        let (ty, t) = *ch.pick(&TYPES);
        let (x, y) = (arg(ch, ty), small(ch));
        let (key, s) = ask(ch, &site, format!("d{t}"), ty, &x, &y)?;
        let got: Value = serde_json::from_str(s.body.as_deref().unwrap_or("")).unwrap_or(Value::Null);
        ensure_eq!(got, json!({"a": plain(&passed(&x)), "b": plain(&passed(&y))}), key, "body");
        Ok(())
    });
}

/// What @call passes on: the text of the value, read as JSON where it is JSON.
fn passed(v: &Option<Value>) -> Option<Value> {
    let text = plain(v);
    Some(serde_json::from_str(&text).unwrap_or(Value::String(text)))
}

fn percent(s: &str) -> String {
    let b = s.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

