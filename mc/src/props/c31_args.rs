//! The whole server: the arguments a resolver is given, and the order of
//! mutations (C31).
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use serde_json::{json, Map, Value};

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::rt::{self, Sent};
use crate::sched::World;
use crate::serve::{self, Site};
use crate::{ensure, ensure_eq};

pub const C31: Prop = Prop { id: "C31", level: MC, rule: "", run: c31, assumptions: &[] };

/// the upstream is sent the arguments as they are
fn sdl() -> String {
    let fields: String = ARGS.iter().map(|(f, args)| format!("  {f}({}): Int @http(url: \"http://up/\", method: POST, body: \"{{{{.args}}}}\")\n", args.iter().map(|a| format!("{}: {}{}{}", a.name, a.ty, if a.null { "" } else { "!" }, a.default.map(|d| format!(" = {d}")).unwrap_or_default())).collect::<Vec<_>>().join(" "))).collect();
    format!(
        r#"schema {{ query: Query mutation: Mutation }}
type Query {{ {fields} }}
type Mutation {{ {fields}
  a: Int @http(url: "http://up/a", method: POST)
  b: Int @http(url: "http://up/b", method: POST)
  o: R @http(url: "http://up/o", method: POST)
}}
type R {{ n: Int  c: Int @http(url: "http://up/c", method: POST) }}
enum E {{ A B }}
input O {{ a: Int b: Int = 5 c: Int! o: O }}
"#
    )
}

#[derive(Clone, Copy)]
struct Arg {
    name: &'static str,
    ty: &'static str,
    null: bool,
    default: Option<&'static str>,
}
const fn a(name: &'static str, ty: &'static str, null: bool, default: Option<&'static str>) -> Arg {
    Arg { name, ty, null, default }
}
const ARGS: [(&str, &[Arg]); 10] = [
    ("n", &[a("x", "Int", true, None)]),
    ("r", &[a("x", "Int", false, None)]),
    ("d", &[a("x", "Int", true, Some("3"))]),
    ("rd", &[a("x", "Int", false, Some("3"))]),
    ("s", &[a("x", "String", true, Some("\"t\""))]),
    ("l", &[a("x", "[Int]", true, Some("[4]"))]),
    ("e", &[a("x", "E", true, Some("B"))]),
    ("f", &[a("x", "Boolean", false, Some("false"))]),
    ("q", &[a("x", "O", true, None)]),
    ("two", &[a("x", "Int", true, None), a("y", "Int", false, Some("7"))]),
];

fn values(ty: &str) -> &'static [&'static str] {
    match ty {
        "Int" => &["1", "0"],
        "String" => &["\"u\"", "\"\""],
        "[Int]" => &["[1, null]", "[]"],
        "E" => &["A"],
        "Boolean" => &["true"],
        "O" => &["{\"c\": 1}"],
        _ => unreachable!(),
    }
}
fn value(v: &str) -> Value {
    serde_json::from_str(v).unwrap_or(json!(v))
}

/// what comes of it: an argument, none, or no answer at all
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Sent(Value),
    Absent,
    Refused,
}

fn fill(o: &str, v: Value) -> Value {
    match (o, v) {
        ("O", Value::Object(mut m)) => {
            m.entry("b").or_insert(json!(5));
            Value::Object(m)
        }
        (_, v) => v,
    }
}

fn accept(arg: &Arg, given: Option<Value>) -> Got {
    let given = match given {
        None => arg.default.map(value),
        x => x,
    };
    match given {
        None if arg.null => Got::Absent,
        None => Got::Refused,
        Some(Value::Null) if !arg.null => Got::Refused,
        Some(v) => Got::Sent(fill(arg.ty, v)),
    }
}

fn give(ch: &Chooser, site: &Site, i: usize, mutation: bool) -> Outcome {
    let (field, args) = ARGS[i];
    let (mut head, mut text, mut vars, mut want) = (vec![], vec![], Map::new(), Map::new());
    let mut refused = false;
    // what is known to come of a variable that is not set: null
    let mut known = Map::new();
    let (mut unset, mut known_refused) = (false, false);
    for (k, arg) in args.iter().enumerate() {
        let got = match ch.choose(4) {
            0 => accept(arg, None),
            1 => {
                text.push(format!("{}: null", arg.name));
                accept(arg, Some(Value::Null))
            }
            2 => {
                let v = *ch.pick(values(arg.ty));
                text.push(format!("{}: {}", arg.name, if arg.ty == "O" { "{c: 1}" } else { v }));
                accept(arg, Some(value(v)))
            }
            _ => {
                let (null, default) = (ch.flag(), if ch.flag() { Some(values(arg.ty)[0]) } else { None });
                // where null cannot be, no variable is that may be null
                if null && !arg.null && default.is_none() && arg.default.is_none() {
                    ch.trivial();
                    return Ok(());
                }
                head.push(format!("$v{k}: {}{}{}", arg.ty, if null { "" } else { "!" }, default.map(|d| format!(" = {}", if arg.ty == "O" { "{c: 1}" } else { d })).unwrap_or_default()));
                text.push(format!("{}: $v{k}", arg.name));
                let given = match ch.choose(3) {
                    0 => None,
                    1 => Some(Value::Null),
                    _ => Some(value(values(arg.ty).last().unwrap())),
                };
                if let Some(v) = &given {
                    vars.insert(format!("v{k}"), v.clone());
                }
                let v = given.or(default.map(value));
                if !null && v.clone().unwrap_or_default().is_null() {
                    if arg.null {
                        // the request is none, whether it is refused or not
                        ch.trivial();
                        return Ok(());
                    }
                    // but null never gets to where it cannot be
                    Got::Refused
                } else {
                    if v.is_none() && arg.default.is_some() {
                        unset = true;
                        known_refused |= !arg.null;
                        known.insert(arg.name.to_string(), Value::Null);
                    }
                    accept(arg, v)
                }
            }
        };
        match got {
            Got::Sent(v) => drop(want.insert(arg.name.to_string(), v)),
            Got::Absent => {}
            Got::Refused => refused = true,
        }
    }
    let q = format!("{}{} {{ {field}{} }}", if mutation { "mutation" } else { "query" }, if head.is_empty() { String::new() } else { format!("({})", head.join(" ")) }, if text.is_empty() { String::new() } else { format!("({})", text.join(", ")) });
    let key = format!("{q} {}", Value::Object(vars.clone()));
    ch.note(&key);
    ch.go();
    ch.step();
    site.log.lock().unwrap().clear();
    let r = site.ask(&q, Value::Object(vars));
    let sent: Vec<Sent> = std::mem::take(&mut *site.log.lock().unwrap());
    ch.observe(&(r.body.clone(), sent.clone()));
    ch.state(&key);
    let mut args: Value = sent.first().map_or(Value::Null, |s| serde_json::from_str(s.body.as_deref().unwrap_or("")).unwrap_or(json!(s.body)));
    if unset && !refused {
        let as_known = if known_refused {
            sent.is_empty() && r.json()["errors"].is_array()
        } else {
            let mut w = want.clone();
            w.extend(known);
            args == Value::Object(w)
        };
        if as_known {
            return crate::engine::fail("an argument's default, where a variable is not set", format!("{key}: {args}, answered {}", r.body));
        }
    }
    if refused {
        ensure!(sent.is_empty() && r.json()["errors"].is_array(), key, "refused arguments are sent: {} {sent:?}", r.body);
        return Ok(());
    }
    ensure_eq!(sent.len(), 1, key, "requests sent, answered {}", r.body);
    // null, or nothing: the resolver is told the same
    if let Value::Object(m) = &mut args {
        m.retain(|k, v| !v.is_null() || want.contains_key(k));
    }
    ensure_eq!(args, Value::Object(want), key, "arguments");
    ensure!(r.json().get("errors").is_none(), key, "refused: {}", r.body);
    Ok(())
}

/// an object of type O: its text and what becomes of it
fn object(ch: &Chooser, depth: usize, vars: &mut Map<String, Value>) -> (String, Option<Value>, Value) {
    let (mut text, mut want, mut json) = (vec![], Map::new(), Map::new());
    let mut ok = true;
    for (name, default, null) in [("a", None, true), ("b", Some(json!(5)), true), ("c", None, false)] {
        match ch.choose(if depth == 0 { 3 } else { 4 }) {
            0 => match default {
                Some(d) => drop(want.insert(name.to_string(), d)),
                None => ok &= null,
            },
            1 => {
                text.push(format!("{name}: null"));
                json.insert(name.to_string(), Value::Null);
                want.insert(name.to_string(), Value::Null);
                ok &= null;
            }
            k => {
                let v = json!(k as i64 * 10);
                if k == 3 {
                    text.push(format!("{name}: ${name}"));
                    vars.insert(name.to_string(), v.clone());
                } else {
                    text.push(format!("{name}: {v}"));
                }
                json.insert(name.to_string(), v.clone());
                want.insert(name.to_string(), v);
            }
        }
    }
    if depth > 0 && ch.flag() {
        let (t, w, j) = object(ch, depth - 1, vars);
        text.push(format!("o: {t}"));
        json.insert("o".to_string(), j);
        match w {
            Some(w) => drop(want.insert("o".to_string(), w)),
            None => ok = false,
        }
    }
    (format!("{{{}}}", text.join(", ")), ok.then_some(Value::Object(want)), Value::Object(json))
}

fn c31(ctx: &mut Ctx) {
    let answer: rt::Answer = Arc::new(|_: &Sent| rt::json("1"));
    let site = serve::site(&sdl(), answer, false).unwrap();
    ctx.explore("arguments", "10 fields with up to 2 arguments of 6 types (null or not, default or not) × not given, null, given, by a variable (null or not, default or not, not set, null, set) × query, mutation", |ch| {
        let i = ch.choose(ARGS.len());
        let m = ch.flag();
        give(ch, &site, i, m)
    });
    ctx.explore("objects", "input objects with every subset of 4 fields, each null, given or by a variable, one in another; as text or as a variable", |ch| {
        let mut vars = Map::new();
        let (text, want, json) = object(ch, 1, &mut vars);
        let (q, vars) = if ch.flag() {
            if !vars.is_empty() {
                ch.trivial();
                return Ok(());
            }
            ("query($v: O) { q(x: $v) }".to_string(), json!({"v": json}))
        } else {
            let head: Vec<String> = vars.keys().map(|k| format!("${k}: Int!")).collect();
            (format!("query{} {{ q(x: {text}) }}", if head.is_empty() { String::new() } else { format!("({})", head.join(" ")) }), Value::Object(vars))
        };
        let key = format!("{q} {vars}");
        ch.note(&key);
        ch.go();
        ch.step();
        site.log.lock().unwrap().clear();
        let r = site.ask(&q, vars);
        let sent: Vec<Sent> = std::mem::take(&mut *site.log.lock().unwrap());
        ch.observe(&(r.body.clone(), sent.clone()));
        ch.state(&key);
        match want {
            None => ensure!(sent.is_empty() && r.json()["errors"].is_array(), key, "refused arguments are sent: {} {sent:?}", r.body),
            Some(w) => {
                ensure_eq!(sent.len(), 1, key, "requests sent, answered {}", r.body);
                let got: Value = serde_json::from_str(sent[0].body.as_deref().unwrap_or("")).unwrap_or(json!(sent[0].body));
                ensure_eq!(got, json!({ "x": w }), key, "arguments");
            }
        }
        Ok(())
    });
    let count = Arc::new(AtomicUsize::new(0));
    let c = count.clone();
    let answer: rt::Answer = Arc::new(move |s: &Sent| {
        let n = c.fetch_add(1, Ordering::SeqCst) + 1;
        rt::json(if s.url.ends_with("/o") { json!({ "n": n }).to_string() } else { n.to_string() })
    });
    let site = serve::site(&sdl(), answer, true).unwrap();
    let max = ctx.by(4, 5);
    ctx.explore("mutations", "1 to 4 (5) root fields of 4 under own names, one with a resolver below it × every order of answers from upstream", |ch| {
        let n = ch.range(1, max);
        let fields: Vec<usize> = (0..n).map(|_| ch.choose(4)).collect();
        let text: Vec<String> = fields.iter().enumerate().map(|(i, f)| format!("m{i}: {}", ["a", "b", "o { n c }", "n"][*f])).collect();
        let q = format!("mutation {{ {} }}", text.join(" "));
        ch.note(&q);
        ch.go();
        count.store(0, Ordering::SeqCst);
        let mut w = World::new();
        w.add(site.request(json!({ "query": q }), &[]));
        let r = serve::drive(&mut w, Some(ch)).pop().unwrap();
        let Some(r) = r else { return crate::engine::fail(&q, "it never ends") };
        let (mut at, mut want) = (0, Map::new());
        for (i, f) in fields.iter().enumerate() {
            at += 1;
            let v = if *f == 2 {
                at += 1;
                json!({"n": at - 1, "c": at})
            } else {
                json!(at)
            };
            want.insert(format!("m{i}"), v);
        }
        ch.observe(&r.body);
        ch.state(&q);
        ensure_eq!(r.json(), json!({ "data": want }), q, "the steps in the order upstream took them");
        Ok(())
    });
}
