//! Templates (C16), REST paths and parameters (C17), the @rest directive (C18).
use std::borrow::Cow;
use std::collections::BTreeMap;

use async_graphql::parser::types::{Directive, DocumentOperations, Type};
use async_graphql::{Name, Variables};
use async_graphql_value::ConstValue;
use serde_json::{json, Value};
use tailcall::core::http::Method;
use tailcall::core::mustache::{PathStringEval, Segment};
use tailcall::core::path::{PathGraphql, PathString};
use tailcall::core::vp_hooks::export::rest as r;
use tailcall::core::Mustache;

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::{ensure, ensure_eq};

pub const C16: Prop = Prop { id: "C16", level: EX, rule: "every template of up to 5 (6) of 15 pieces, every list of well-formed segments within the bounds", run: c16, assumptions: &[] };
pub const C17: Prop = Prop { id: "C17", level: EX, rule: "every pattern, request path and query within the bounds", run: c17, assumptions: &[] };
pub const C18: Prop = Prop { id: "C18", level: EX, rule: "every set, order and repetition of arguments within the bounds", run: c18, assumptions: &[] };

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, PartialEq)]
enum Seg {
    Lit(String),
    Expr(Vec<String>),
}

/// a character scanner for the template language
fn scan(input: &str) -> Vec<Seg> {
    fn name(c: &[char], mut i: usize) -> Option<(String, usize)> {
        let space = |c: char| matches!(c, ' ' | '\t' | '\r' | '\n');
        while i < c.len() && space(c[i]) {
            i += 1;
        }
        let start = i;
        while i < c.len() && (c[i].is_ascii_alphabetic() || (i > start && (c[i].is_ascii_digit() || c[i] == '_'))) {
            i += 1;
        }
        if i == start {
            return None;
        }
        let n = c[start..i].iter().collect();
        while i < c.len() && space(c[i]) {
            i += 1;
        }
        Some((n, i))
    }
    fn expr(c: &[char], mut i: usize) -> Option<(Vec<String>, usize)> {
        i += 2;
        if c.get(i) == Some(&'.') {
            i += 1;
        }
        let mut names = vec![];
        loop {
            let (n, j) = name(c, i)?;
            names.push(n);
            i = j;
            match c.get(i) {
                Some('.') => i += 1,
                Some('}') if c.get(i + 1) == Some(&'}') => return Some((names, i + 2)),
                _ => return None,
            }
        }
    }
    let c: Vec<char> = input.chars().collect();
    let mut out = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') {
            match expr(&c, i) {
                Some((names, j)) => {
                    if !text.is_empty() {
                        out.push(Seg::Lit(std::mem::take(&mut text)));
                    }
                    out.push(Seg::Expr(names));
                    i = j;
                }
                None => return clean(vec![Seg::Lit(input.into())]),
            }
        } else {
            text.push(c[i]);
            i += 1;
        }
    }
    if !text.is_empty() {
        out.push(Seg::Lit(text));
    }
    clean(out)
}

/// a quotation mark on its own is left out
fn clean(v: Vec<Seg>) -> Vec<Seg> {
    v.into_iter().filter(|s| !matches!(s, Seg::Lit(x) if x == "\"" || x.is_empty())).collect()
}

fn seen(m: &Mustache) -> Vec<Seg> {
    m.segments()
        .iter()
        .map(|s| match s {
            Segment::Literal(x) => Seg::Lit(x.clone()),
            Segment::Expression(p) => Seg::Expr(p.clone()),
        })
        .collect()
}

struct Table(BTreeMap<String, String>);

impl PathString for Table {
    fn path_string<'a, T: AsRef<str>>(&'a self, path: &'a [T]) -> Option<Cow<'a, str>> {
        let p: Vec<&str> = path.iter().map(|x| x.as_ref()).collect();
        self.0.get(&p.join(".")).map(|s| Cow::Borrowed(s.as_str()))
    }
}

impl PathGraphql for Table {
    fn path_graphql<T: AsRef<str>>(&self, path: &[T]) -> Option<String> {
        let p: Vec<&str> = path.iter().map(|x| x.as_ref()).collect();
        self.0.get(&p.join(".")).map(|s| format!("{s:?}"))
    }
}

fn template(t: &str, want: &[Seg], ch: &Chooser) -> Outcome {
    ch.note(t);
    ch.step();
    ch.state(t);
    let m = Mustache::parse(t);
    ensure_eq!(seen(&m), want, t, "segments");
    let exprs: Vec<&Vec<String>> = want.iter().filter_map(|s| if let Seg::Expr(e) = s { Some(e) } else { None }).collect();
    ch.observe((want.len(), exprs.len()));
    ensure_eq!(m.is_const(), exprs.is_empty(), t, "is constant");
    ensure_eq!(m.expression_segments(), exprs, t, "expressions");
    for n in ["a", "b_1", "args", "id", "zz"] {
        ensure_eq!(m.expression_contains(n), exprs.iter().any(|e| e.iter().any(|p| p == n)), t, "mentions {n}");
    }
    let shown: String = want
        .iter()
        .map(|s| match s {
            Seg::Lit(x) => x.clone(),
            Seg::Expr(e) => format!("{{{{.{}}}}}", e.join(".")),
        })
        .collect();
    ensure_eq!(m.to_string(), shown, t, "written");
    if !exprs.is_empty() {
        ensure_eq!(Mustache::parse(&shown), m, t, "written and read again");
    }
    let known: BTreeMap<String, String> = [("a", "1"), ("a.a", "{{.b}}"), ("args.id", "é\""), ("b_1", "")].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let with = |missing: &dyn Fn(&Vec<String>) -> String, quote: bool| -> String {
        want.iter()
            .map(|s| match s {
                Seg::Lit(x) => x.clone(),
                Seg::Expr(e) => match known.get(&e.join(".")) {
                    Some(v) if quote => format!("{v:?}"),
                    Some(v) => v.clone(),
                    None => missing(e),
                },
            })
            .collect()
    };
    let table = Table(known.clone());
    ensure_eq!(m.render(&table), with(&|_| String::new(), false), t, "rendered");
    ensure_eq!(m.render_graphql(&table), with(&|_| String::new(), true), t, "rendered for GraphQL");
    ensure_eq!(PathStringEval::new().eval_partial(&m, &table), with(&|e| format!("{{{{.{}}}}}", e.join(".")), false), t, "rendered as far as known");
    Ok(())
}

fn c16(ctx: &mut Ctx) {
    let pieces = ["{{", "}}", "{", "}", ".", "a", "b_1", "9", "_", "-", " ", "\"", "é", "\n", "{{.a}}"];
    let n = ctx.by(5, 6);
    ctx.explore("texts", "every text of ≤5 (6) of 15 pieces", |ch| {
        let t = ch.seq(&pieces, 0, n).concat();
        template(&t, &scan(&t), ch)
    });
    let segs: Vec<(String, Seg)> = {
        let e = |t: &str, p: &[&str]| (t.to_string(), Seg::Expr(p.iter().map(|s| s.to_string()).collect()));
        let l = |t: &str| (t.to_string(), Seg::Lit(t.to_string()));
        vec![
            e("{{a}}", &["a"]),
            e("{{.a.a}}", &["a", "a"]),
            e("{{ args . id }}", &["args", "id"]),
            e("{{.value.a_b9.C}}", &["value", "a_b9", "C"]),
            e("{{.\tb_1\n}}", &["b_1"]),
            l("http://x/"),
            l("\""),
            l("\"\""),
            l("}}"),
            l("é😀{ }"),
            l(" "),
        ]
    };
    let k = ctx.by(4, 5);
    ctx.explore("segments", "every sequence of ≤4 (5) of 11 segments: what was put together is what is read", |ch| {
        let v = ch.seq(&segs, 0, k);
        let t: String = v.iter().map(|s| s.0.as_str()).collect();
        let mut want: Vec<Seg> = vec![];
        for (_, s) in v {
            match (want.last_mut(), s) {
                (Some(Seg::Lit(a)), Seg::Lit(b)) => a.push_str(&b),
                (_, s) => want.push(s),
            }
        }
        template(&t, &clean(want), ch)
    });
    ctx.explore("long", "templates of up to 1000 segments, names of up to 1000 characters, paths of up to 100 names", |ch| {
        let n = *ch.pick(&[5usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 255, 256, 1000]);
        let t = match ch.choose(4) {
            0 => "{{.a}}/".repeat(n),
            1 => format!("x{{{{.{}}}}}", "q".repeat(n)),
            2 => format!("{{{{{}}}}}y", vec!["a"; n.min(100)].join(".")),
            _ => "z".repeat(n) + "{{.args.id}}" + &"é".repeat(n),
        };
        template(&t, &scan(&t), ch)
    });
    ctx.explore("values", "what a path of ≤3 of 5 names into each of 12 documents renders as", |ch| {
        let names = ["a", "b", "c0", "z", "A"];
        let path = ch.seq(&names, 1, 3);
        let docs = [
            json!({"a": "x"}),
            json!({"a": 1, "b": -1.5}),
            json!({"a": null, "b": true}),
            json!({"a": {"b": "é\"\n"}}),
            json!({"a": {"b": {"c0": 18446744073709551615u64}}}),
            json!({"a": ["x", {"b": 1}]}),
            json!({"a": {"b": [1, 2]}}),
            json!([{"a": 1}]),
            json!("a"),
            json!(null),
            json!({"a": {}, "A": "upper"}),
            json!({"a": ""}),
        ];
        let d = ch.pick(&docs);
        let t = format!("<{{{{.{}}}}}>", path.join("."));
        ch.note(format!("{t} {d}"));
        ch.step();
        let at = path.iter().try_fold(d.clone(), |v, p| v.as_object().and_then(|o| o.get(*p)).cloned());
        let shown = match at {
            Some(Value::String(s)) => s,
            Some(v) => v.to_string(),
            None => String::new(),
        };
        ensure_eq!(Mustache::parse(&t).render(d), format!("<{shown}>"), format!("{t} {d}"), "rendered");
        Ok(())
    });
}

// ---------------------------------------------------------------- C17

fn types() -> Vec<(&'static str, &'static str)> {
    vec![("id", "Int!"), ("name", "String"), ("ok", "Boolean"), ("x", "Float!"), ("l", "[Int]"), ("o", "Other"), ("idd", "String!")]
}

fn type_map() -> r::TypeMap {
    let v: Vec<(&str, Type)> = types().into_iter().map(|(n, t)| (n, Type::new(t).unwrap())).collect();
    v.into()
}

/// what a text is as a value of a type: outer None = the type cannot be used
fn typed(ty: &str, text: &str) -> Option<Option<ConstValue>> {
    Some(match ty.trim_end_matches('!') {
        "String" => Some(ConstValue::String(text.into())),
        "Boolean" => match text {
            "true" => Some(ConstValue::Boolean(true)),
            "false" => Some(ConstValue::Boolean(false)),
            _ => None,
        },
        "Int" => {
            let digits = text.strip_prefix(['-', '+']).unwrap_or(text);
            let number = !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit());
            number.then(|| text.trim_start_matches('+').parse::<i128>().ok()).flatten().filter(|n| (i64::MIN as i128..=i64::MAX as i128).contains(n)).map(|n| ConstValue::Number((n as i64).into()))
        }
        "Float" => text.parse::<f64>().ok().map(|f| async_graphql_value::Number::from_f64(f).map_or(ConstValue::Null, ConstValue::Number)),
        _ => return None,
    })
}

fn vars(v: &[(String, ConstValue)]) -> Variables {
    let mut out = Variables::default();
    for (k, v) in v {
        out.insert(Name::new(k), v.clone());
    }
    out
}

fn variable_type(name: &str) -> Option<&'static str> {
    types().into_iter().find(|(n, _)| *n == name).map(|(_, t)| t)
}

/// The variables a path gives for a pattern
fn path_variables(pattern: &[&str], path: &[&str]) -> Option<Vec<(String, ConstValue)>> {
    if pattern.len() != path.len() {
        return None;
    }
    let mut out = vec![];
    for (p, s) in pattern.iter().zip(path) {
        match p.strip_prefix('$') {
            Some(n) => out.push((n.to_string(), typed(variable_type(n)?, s)??)),
            None if p == s => {}
            None => return None,
        }
    }
    Some(out)
}

fn usable(pattern: &[&str]) -> bool {
    pattern.iter().filter_map(|p| p.strip_prefix('$')).all(|n| variable_type(n).is_some_and(|t| typed(t, "").is_some()))
}

fn join(ch: &Chooser, segs: &[&str]) -> String {
    // slashes: usual, doubled, trailing, no leading one
    match ch.choose(4) {
        0 => format!("/{}", segs.join("/")),
        1 => format!("//{}", segs.join("//")),
        2 => format!("/{}/", segs.join("/")),
        _ => segs.join("/"),
    }
}

fn c17(ctx: &mut Ctx) {
    let pieces = ["a", "b", "$id", "$name", "$ok", "$x"];
    let texts = ["a", "b", "1", "-5", "true", "1.5", "9223372036854775808"];
    let n = ctx.by(3, 4);
    ctx.explore("paths", "every pattern of ≤3 (4) of 6 segments and every path of ≤4 of 7, slashes written in 4 ways", |ch| {
        let pat = ch.seq(&pieces, 0, n);
        let path = ch.seq(&texts, 0, n);
        let (pt, rt) = if n == 3 && pat.len() + path.len() > 4 { (format!("/{}", pat.join("/")), format!("/{}", path.join("/"))) } else { (join(ch, &pat), join(ch, &path)) };
        let key = format!("{pt} {rt}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let p = match r::Path::parse(&type_map(), &pt) {
            Ok(p) => p,
            Err(e) => return crate::engine::fail(key, format!("refused: {e}")),
        };
        ensure_eq!(p.as_str(), pt, key, "pattern");
        let want = path_variables(&pat, &path);
        ch.observe(want.is_some());
        ensure_eq!(p.matches(&rt), want.map(|v| vars(&v)), key, "variables");
        Ok(())
    });
    ctx.explore("undefined", "every pattern of ≤3 of 9 segments: refused exactly if a parameter is unknown or of a type a text cannot be", |ch| {
        let pat = ch.seq(&["a", "$id", "$name", "$l", "$o", "$zz", "$", "$idd", "id"], 0, 3);
        let pt = join(ch, &pat);
        ch.note(&pt);
        ch.step();
        let got = r::Path::parse(&type_map(), &pt);
        ensure_eq!(got.is_ok(), usable(&pat), pt, "accepted");
        if let Err(e) = got {
            let bad = pat.iter().find(|p| p.starts_with('$') && !usable(&[*p])).unwrap();
            let e = e.to_string();
            let about = match *bad {
                "$l" => "[Int]",
                "$o" => "Other",
                b => b,
            };
            ensure!(e.contains(about), pt, "the error does not say what is wrong with {bad}: {e}");
        }
        Ok(())
    });
    let values = [
        "", "0", "1", "-1", "+1", "01", "1.0", "1e3", "-0.5", ".5", "5.", " 1", "1 ", "true", "false", "True", "TRUE", "a", "é", "9223372036854775807", "-9223372036854775808",
        "9223372036854775808", "18446744073709551616", "1_000", "0x10", "null", "1,5", "\u{661}",
    ];
    ctx.explore("values", "28 texts as a value of each type, in a path, in a query and on their own", |ch| {
        let (name, ty) = *ch.pick(&types());
        let text = *ch.pick(&values);
        let key = format!("{ty} {text:?}");
        ch.note(&key);
        ch.step();
        let t = r::TypedVariable::try_from(&Type::new(ty).unwrap(), name);
        let want = typed(ty, text);
        ensure_eq!(t.is_ok(), want.is_some(), key, "usable");
        let (Ok(t), Some(want)) = (t, want) else { return Ok(()) };
        ensure_eq!(t.name(), name, key, "name");
        ensure_eq!(t.to_value(text).ok(), want, key, "value");
        let q = r::QueryParams::try_from_map(&type_map(), BTreeMap::from([("q".to_string(), name.to_string())])).unwrap();
        let got = q.matches(BTreeMap::from([("q".to_string(), text.to_string())]));
        ensure_eq!(got, want.clone().map(|v| vars(&[(name.into(), v)])), key, "in a query");
        if !text.is_empty() {
            let p = r::Path::parse(&type_map(), &format!("/${name}")).unwrap();
            ensure_eq!(p.matches(&format!("/{text}")), want.map(|v| vars(&[(name.into(), v)])), key, "in a path");
        }
        Ok(())
    });
    ctx.explore("queries", "every set of ≤3 of 5 query parameters bound to any of 7 variables, every query with any of them (and a foreign one)", |ch| {
        let keys = ["id", "name", "q", "user-id", ""];
        let targets = ["id", "name", "ok", "l", "zz"];
        let mut map = BTreeMap::new();
        for k in ch.subset(&keys) {
            if map.len() == 2 {
                ch.trivial();
                return Ok(());
            }
            map.insert(k.to_string(), ch.pick(&targets).to_string());
        }
        let key = format!("{map:?}");
        ch.note(&key);
        let fine = map.values().all(|v| usable(&[&format!("${v}")]));
        let got = r::QueryParams::try_from_map(&type_map(), map.clone());
        ensure_eq!(got.is_ok(), fine, key, "accepted");
        let Ok(q) = got else { return Ok(()) };
        let mut query = BTreeMap::new();
        for k in map.keys().cloned().chain(["other".to_string()]) {
            let n = ch.choose(4);
            if n > 0 {
                query.insert(k, ["1", "true", "x"][n - 1].to_string());
            }
        }
        ch.step();
        let key = format!("{map:?} {query:?}");
        ch.note(&key);
        ch.state(&key);
        let mut want = Some(BTreeMap::new());
        for (k, v) in &map {
            if let Some(t) = query.get(k) {
                match typed(variable_type(v).unwrap(), t).unwrap() {
                    Some(x) => {
                        if let Some(w) = want.as_mut() {
                            w.insert(v.clone(), x);
                        }
                    }
                    None => want = None,
                }
            }
        }
        let want = want.map(|w| vars(&w.into_iter().collect::<Vec<_>>()));
        ensure_eq!(q.matches(query), want, key, "variables");
        Ok(())
    });
    ctx.explore("long", "patterns and paths of up to 1000 segments", |ch| {
        let n = *ch.pick(&[4usize, 5, 8, 9, 16, 17, 64, 65, 100, 256, 1000]);
        let off = *ch.pick(&[-1i64, 0, 1]);
        let pat: Vec<&str> = (0..n).map(|i| if i % 2 == 0 { "a" } else { "$id" }).collect();
        let path: Vec<&str> = (0..(n as i64 + off) as usize).map(|i| if i % 2 == 0 { "a" } else { "7" }).collect();
        let wrong = ch.choose(3);
        let mut path = path;
        let last = path.len() - 1;
        match wrong {
            0 => {}
            1 => path[last] = "zz",
            _ => path[n / 2] = "b",
        }
        ch.step();
        let key = format!("{n} {off} {wrong}");
        ch.note(&key);
        let p = r::Path::parse(&type_map(), &pat.join("/")).unwrap();
        ensure_eq!(p.matches(&path.join("/")), path_variables(&pat, &path).map(|v| vars(&v)), key, "variables");
        Ok(())
    });
    ctx.explore("endpoints", "requests to an endpoint: 3 methods, 8 paths, 8 queries; the query wins over the path", |ch| {
        let m = *ch.pick(&["GET", "POST", "PUT"]);
        let bound = *ch.pick(&["", ", query: {id: $id}", ", query: {q: $name, id: $id}"]);
        let body = ch.flag();
        let src = format!(
            "query A($id: Int!, $name: String, $b: JSON) @rest(method: {m}, path: \"/users/$id\"{bound}{}) {{ user {{ id }} }} query B {{ b }}",
            if body { ", body: $b" } else { "" }
        );
        let eps = match r::Endpoint::try_new(&src) {
            Ok(e) => e,
            Err(e) => return crate::engine::fail(src, e.to_string()),
        };
        ensure_eq!(eps.len(), 1, src, "endpoints");
        let ep = &eps[0];
        ensure_eq!(ep.get_method().to_string(), m, src, "method");
        ensure_eq!(ep.get_path().as_str(), "/users/$id", src, "path");
        let rm = *ch.pick(&["GET", "POST", "PUT"]);
        let (path, id) = ch.pick(&[("/users/1", Some(1)), ("/users/-2/", Some(-2)), ("/users/x", None), ("/users", None), ("/users/1/2", None), ("/user/1", None), ("/", None), ("/Users/1", None)]).clone();
        let query = *ch.pick(&["", "?id=7", "?id=x", "?q=n%20m", "?q=a+b&id=8", "?zz=1", "?name=n", "?id="]);
        ch.step();
        let key = format!("{src} {rm} {path}{query}");
        ch.note(&key);
        ch.state(&key);
        let uri = format!("http://h{path}{query}");
        let req = hyper::Request::builder().method(rm).uri(&uri).body(hyper::Body::empty()).unwrap();
        let mut want = id.filter(|_| rm == m).map(|i| BTreeMap::from([("id".to_string(), ConstValue::from(i))]));
        let pairs: Vec<(String, String)> = url::Url::parse(&uri).unwrap().query_pairs().into_owned().collect();
        for (k, v) in pairs {
            let to = match (bound, k.as_str()) {
                ("", _) => continue,
                (_, "id") => "id",
                (b, "q") if b.contains("q:") => "name",
                _ => continue,
            };
            want = match (want, typed(variable_type(to).unwrap(), &v).unwrap()) {
                (Some(mut w), Some(x)) => {
                    w.insert(to.into(), x);
                    Some(w)
                }
                _ => None,
            };
        }
        let got = ep.matches(&req);
        ensure_eq!(got.as_ref().map(|p| p.variables.clone()), want.map(|w| vars(&w.into_iter().collect::<Vec<_>>())), key, "variables");
        if let Some(p) = got {
            ensure_eq!(p.body.cloned(), body.then(|| "b".to_string()), key, "variable of the body");
            ensure_eq!(p.path.as_str(), "/users/$id", key, "path");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C18

fn directive(args: &str) -> Directive {
    let doc = async_graphql::parser::parse_query(format!("query Q($a: Int, $b: Int, $c: Int) @rest({args}) {{ x }}")).unwrap_or_else(|e| panic!("{args}: {e}"));
    match doc.operations {
        DocumentOperations::Single(op) => op.node.directives[0].node.clone(),
        DocumentOperations::Multiple(m) => m.into_values().next().unwrap().node.directives[0].node.clone(),
    }
}

type Read = (String, Option<Method>, BTreeMap<String, String>, Option<String>);

fn c18(ctx: &mut Ctx) {
    // (argument, what it says)
    #[derive(Clone, Debug)]
    enum Arg {
        Path(&'static str, &'static str),
        BadPath(&'static str),
        Method(&'static str, &'static str),
        BadMethod(&'static str),
        Query(&'static str, Vec<(&'static str, &'static str)>),
        Body(&'static str, &'static str),
        Other(&'static str),
    }
    use Arg::*;
    let pool = vec![
        Path("path: \"/users/$a\"", "/users/$a"),
        Path("path: \"/é \\\"q\\\" \\\\ \\n\"", "/é \"q\" \\ \n"),
        Path("path: \"\"", ""),
        BadPath("path: 1"),
        BadPath("path: $a"),
        Method("method: POST", "POST"),
        Method("method: get", "GET"),
        Method("method: Delete", "DELETE"),
        BadMethod("method: FETCH"),
        BadMethod("method: \"GET\""),
        Query("query: {a: $a}", vec![("a", "a")]),
        Query("query: {user: $a, x: 1, y: \"z\", other: $c}", vec![("user", "a"), ("other", "c")]),
        Query("query: {a: $a, b: $a}", vec![("a", "a"), ("b", "a")]),
        Query("query: {}", vec![]),
        Query("query: $a", vec![]),
        Body("body: $b", "b"),
        Body("body: $c", "c"),
        Other("body: 1"),
        Other("zz: $a"),
        Other("Path: \"/x\""),
    ];
    let n = ctx.by(4, 5);
    ctx.explore("arguments", "every sequence of ≤4 (5) of 20 arguments, in every order and with repetitions", |ch| {
        let args = ch.seq(&pool, 1, n);
        let text: Vec<&str> = args
            .iter()
            .map(|a| match a {
                Path(t, _) | BadPath(t) | Method(t, _) | BadMethod(t) | Query(t, _) | Body(t, _) | Other(t) => *t,
            })
            .collect();
        let names: Vec<&str> = text.iter().map(|t| t.split(':').next().unwrap()).collect();
        let distinct: std::collections::BTreeSet<&&str> = names.iter().collect();
        if distinct.len() != names.len() {
            // GraphQL allows an argument once
            ch.trivial();
            return Ok(());
        }
        let src = text.join(", ");
        ch.note(&src);
        ch.step();
        ch.state(&src);
        let mut want: Option<Read> = Some(Default::default());
        let (mut has_path, mut has_method) = (false, false);
        for a in &args {
            match a {
                BadPath(_) | BadMethod(_) => want = None,
                Path(_, p) => {
                    has_path = true;
                    want = want.map(|w| (p.to_string(), w.1, w.2, w.3));
                }
                Method(_, m) => {
                    has_method = true;
                    want = want.map(|w| (w.0, serde_json::from_value(json!(m)).ok(), w.2, w.3));
                }
                Query(_, q) => want = want.map(|w| (w.0, w.1, q.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), w.3)),
                Body(_, b) => want = want.map(|w| (w.0, w.1, w.2, Some(b.to_string()))),
                Other(_) => {}
            }
        }
        let got = r::rest_directive(&directive(&src));
        let bad = want.is_none();
        let want = want.filter(|_| has_path && has_method);
        ch.observe((want.is_some(), bad));
        match (&got, &want) {
            (Ok(g), Some(w)) => ensure_eq!(g, w, src, "read"),
            (Err(e), None) => {
                let e = e.to_string();
                if !bad {
                    ensure_eq!((e.contains("Path not") || e.contains("and Path not"), e.contains("Method ")), (!has_path, !has_method), src, "what the error names: {e}");
                }
            }
            _ => return crate::engine::fail(src, format!("got {:?}, expected {want:?}", got.map_err(|e| e.to_string()))),
        }
        Ok(())
    });
    ctx.explore("methods", "the nine methods in three spellings, paths of up to 1000 characters", |ch| {
        let m = *ch.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"]);
        let spelling = match ch.choose(3) {
            0 => m.to_string(),
            1 => m.to_lowercase(),
            _ => m[..1].to_string() + &m[1..].to_lowercase(),
        };
        let path = format!("/{}", "é".repeat(*ch.pick(&[0usize, 1, 100, 1000])));
        ch.step();
        let src = format!("method: {spelling}, path: \"{path}\"");
        ch.note(&src);
        let got = r::rest_directive(&directive(&src)).map_err(|e| e.to_string());
        ensure_eq!(got, Ok((path, serde_json::from_value(json!(m)).ok(), BTreeMap::new(), None)), src, "read");
        Ok(())
    });
    ctx.explore("documents", "every document of ≤3 of 4 operations, with and without the directive", |ch| {
        let ops = [
            ("query A%($a: Int!) @rest(method: GET, path: \"/a/$a\") { x }", Some(("GET", "/a/$a"))),
            ("mutation B%($b: String) @other @rest(path: \"/b\", method: POST, query: {k: $b}) { y }", Some(("POST", "/b"))),
            ("query C% { z }", None),
            ("query D% @other { z }", None),
        ];
        let v = ch.seq(&ops, 1, 3);
        let src: String = v.iter().enumerate().map(|(i, (t, _))| t.replace('%', &i.to_string()) + "\n").collect();
        ch.note(&src);
        ch.step();
        let mut want: Vec<String> = v.iter().filter_map(|(_, r)| r.map(|(m, p)| format!("{m} {p}"))).collect();
        let got = r::Endpoint::try_new(&src).map_err(|e| crate::engine::fail::<()>(src.clone(), e.to_string()).unwrap_err())?;
        let mut got: Vec<String> = got.iter().map(|e| format!("{} {}", e.get_method(), e.get_path().as_str())).collect();
        got.sort();
        want.sort();
        ensure_eq!(got, want, src, "endpoints");
        Ok(())
    });
}
