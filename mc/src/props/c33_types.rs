//! The whole server: answers are of the types of the schema (C33).
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};

use super::{Prop, MC};
use crate::engine::Ctx;
use crate::rt::{self, Sent};
use crate::serve;
use crate::{ensure, ensure_eq};

pub const C33: Prop = Prop {
    id: "C33",
    level: MC,
    rule: "the data is the answer of the upstream completed by the specification's rules, or null with an error at a place that has no right answer",
    run: c33,
    assumptions: &["values of Int, String and the other predefined scalars are passed on as they are, the server does not judge them"],
};

#[derive(Clone, Debug)]
enum T {
    Named(&'static str, bool),
    List(Box<T>, bool),
}

fn types(name: &'static str) -> Vec<T> {
    let n = |b| T::Named(name, b);
    let l = |t: T, b| T::List(Box::new(t), b);
    vec![n(false), n(true), l(n(false), false), l(n(false), true), l(n(true), false), l(n(true), true), l(l(n(false), false), false), l(l(n(true), true), true), l(l(n(true), false), true)]
}

const NAMES: [&str; 6] = ["Int", "Any", "Int8", "E", "O", "OR"];

fn show(t: &T) -> String {
    match t {
        T::Named(n, b) => format!("{n}{}", if *b { "!" } else { "" }),
        T::List(t, b) => format!("[{}]{}", show(t), if *b { "!" } else { "" }),
    }
}

/// What becomes of a value: the places without a right answer, and whether
/// there is a null because of the shape.
#[derive(Default)]
struct Judged {
    wrong: Vec<Vec<Value>>,
    misfit: Vec<Vec<Value>>,
}

fn complete(t: &T, v: &Value, at: &mut Vec<Value>, j: &mut Judged) -> Value {
    let required = match t {
        T::Named(_, b) | T::List(_, b) => *b,
    };
    let misfit = |j: &mut Judged| {
        if required {
            j.wrong.push(at.clone());
        } else {
            j.misfit.push(at.clone());
        }
        Value::Null
    };
    match (t, v) {
        (_, Value::Null) => {
            if required {
                j.wrong.push(at.clone());
            }
            Value::Null
        }
        (T::List(t, _), Value::Array(l)) => l
            .iter()
            .enumerate()
            .map(|(i, v)| {
                at.push(json!(i));
                let v = complete(t, v, at, j);
                at.pop();
                v
            })
            .collect(),
        (T::List(..), _) => misfit(j),
        (T::Named("Any", _), v) => v.clone(),
        (T::Named("Int", _), v) => v.clone(),
        (T::Named("Int8", _), v) => {
            if !v.as_i64().is_some_and(|i| i8::try_from(i).is_ok()) {
                j.wrong.push(at.clone());
            }
            v.clone()
        }
        (T::Named("E", _), v) => {
            if v != "AB" && v != "C" {
                j.wrong.push(at.clone());
            }
            v.clone()
        }
        (T::Named(n, _), Value::Object(o)) => {
            at.push(json!("n"));
            let v = complete(&T::Named("Int", *n == "OR"), o.get("n").unwrap_or(&Value::Null), at, j);
            at.pop();
            json!({"n": v, "__typename": n})
        }
        _ => misfit(j),
    }
}

/// whether there is no list where there should be something else
fn fits(t: &T, v: &Value) -> bool {
    match (t, v) {
        (T::List(t, _), Value::Array(l)) => l.iter().all(|v| fits(t, v)),
        (T::Named(..), v) => !v.is_array(),
        _ => true,
    }
}

fn values() -> Vec<Value> {
    let atoms = vec![Value::Null, json!(1), json!(300), json!("x"), json!("AB"), json!("C"), json!(true), json!({}), json!({"n": 1}), json!({"n": null})];
    let mut out = atoms.clone();
    out.push(json!([]));
    out.extend(atoms.iter().map(|a| json!([a])));
    for a in &atoms {
        out.extend(atoms.iter().map(|b| json!([a, b])));
    }
    out.extend(atoms.iter().map(|a| json!([[a]])));
    out.extend(atoms.iter().map(|a| json!([["AB", a], []])));
    out.extend(atoms.iter().map(|a| json!([[1, a], null])));
    out.extend(atoms.iter().map(|a| json!([[{"n": 1}, a], a])));
    out.extend(atoms.iter().map(|a| json!([[[a]]])));
    out.push(json!({"n": [1]}));
    out
}

fn c33(ctx: &mut Ctx) {
    let mut all: Vec<(&str, T)> = vec![];
    for n in NAMES {
        all.extend(types(n).into_iter().map(|t| (n, t)));
    }
    let (mut props, mut nested, mut roots) = (String::new(), String::new(), String::new());
    for (i, (_, t)) in all.iter().enumerate() {
        let t = show(t);
        roots += &format!("  r{i}: {t} @http(url: \"http://up/r\")\n");
        props += &format!("  p{i}: {t}\n");
        nested += &format!("  x{i}: {t} @http(url: \"http://up/x/{{{{.value.id}}}}\")\n");
    }
    let sdl = format!("schema {{ query: Query }}\ntype Query {{\n  o: W @http(url: \"http://up/o\")\n  l: [W] @http(url: \"http://up/l\")\n{roots}}}\ntype W {{\n  id: Int!\n{props}{nested}}}\ntype O {{ n: Int }}\ntype OR {{ n: Int! }}\nenum E {{ AB C }}\nscalar Any\n");
    // what the upstream has for a path
    let have: Arc<Mutex<Vec<(String, Value)>>> = Default::default();
    let h = have.clone();
    let answer: rt::Answer = Arc::new(move |s: &Sent| {
        let path = s.url.trim_start_matches("http://up/");
        match h.lock().unwrap().iter().find(|(p, _)| p == path) {
            Some((_, v)) => rt::json(v.to_string()),
            None => rt::reply(404, &[], ""),
        }
    });
    let site = serve::site(&sdl, answer, false).unwrap();
    let values = values();
    let places = ["the root", "a property", "a resolver", "the properties of a list", "resolvers of a list"];
    ctx.explore("types", "9 wrappings (up to two lists, null or not at every level) of 6 types (Int, any scalar, Int8, an enum, objects with a nullable or required field) in 5 places (root, property, resolver, both of two elements of a list); 162 values: 10 atoms, lists of up to two of them, lists of lists", |ch| {
        let i = ch.choose(all.len());
        let (name, t) = &all[i];
        let place = ch.choose(places.len());
        let v = ch.pick(&values).clone();
        let w = if place >= 3 { ch.pick(&[Value::Null, json!(1), json!("AB"), json!({"n": 2}), json!(["C"]), json!([[1]])]).clone() } else { Value::Null };
        // an object or a list for an Int is passed on, which nothing promises
        let odd = |v: &Value| v.to_string().contains('{') || !fits(t, v);
        if *name == "Int" && (odd(&v) || odd(&w)) || v["n"].is_array() && name.starts_with('O') {
            ch.trivial();
            return Ok(());
        }
        let key = format!("{} {} {v} {w}", places[place], show(t));
        ch.note(&key);
        ch.go();
        ch.step();
        let sub = if name.starts_with('O') { " { n __typename }" } else { "" };
        let (q, have_now): (String, Vec<(&str, Value)>) = match place {
            0 => (format!("{{ r{i}{sub} }}"), vec![("r", v.clone())]),
            1 => (format!("{{ o {{ p{i}{sub} }} }}"), vec![("o", json!({"id": 1, format!("p{i}"): v}))]),
            2 => (format!("{{ o {{ x{i}{sub} }} }}"), vec![("o", json!({"id": 1})), ("x/1", v.clone())]),
            3 => (format!("{{ l {{ p{i}{sub} }} }}"), vec![("l", json!([{"id": 1, format!("p{i}"): v}, {"id": 2, format!("p{i}"): w}]))]),
            _ => (format!("{{ l {{ x{i}{sub} }} }}"), vec![("l", json!([{"id": 1}, {"id": 2}])), ("x/1", v.clone()), ("x/2", w.clone())]),
        };
        *have.lock().unwrap() = have_now.into_iter().map(|(p, v)| (p.to_string(), v)).collect();
        let r = site.ask(&q, json!({}));
        ch.observe(&r.body);
        ch.state(&key);
        let mut j = Judged::default();
        let want = match place {
            0 => json!({format!("r{i}"): complete(t, &v, &mut vec![json!(format!("r{i}"))], &mut j)}),
            1 | 2 => {
                let f = format!("{}{i}", ["p", "x"][place - 1]);
                json!({"o": {&f: complete(t, &v, &mut vec![json!("o"), json!(f)], &mut j)}})
            }
            _ => {
                let f = format!("{}{i}", ["p", "x"][place - 3]);
                let mut list = vec![];
                for (k, v) in [&v, &w].into_iter().enumerate() {
                    list.push(json!({&f: complete(t, v, &mut vec![json!("l"), json!(k), json!(f)], &mut j)}));
                }
                json!({"l": list})
            }
        };
        let (data, errors) = (r.data(), r.errors());
        if errors.is_empty() {
            ensure!(j.wrong.is_empty(), key, "answered {data}, wrong at {:?}", j.wrong);
            ensure_eq!(data, want, key, "data");
        } else {
            ensure!(data.is_null(), key, "errors and the data {data}");
            ensure!(!j.wrong.is_empty() || !j.misfit.is_empty(), key, "refused, {}", r.body);
            for e in &errors {
                let at = e["path"].as_array().cloned().unwrap_or_default();
                ensure!(j.wrong.contains(&at) || j.misfit.contains(&at), key, "an error at {at:?}, wrong are {:?} {:?}: {}", j.wrong, j.misfit, r.body);
            }
        }
        Ok(())
    });
}
