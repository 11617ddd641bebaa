//! The whole server: what a query asks for is what it is answered (C30..).
use std::sync::Arc;

use serde_json::{json, Map, Value};

use super::{Prop, MC};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::rt::Sent;
use crate::serve::{self, Site};
use crate::{ensure_eq, rt};

pub const C30: Prop = Prop { id: "C30", level: MC, rule: "", run: c30, assumptions: &[] };

// ---------------------------------------------------------------- queries

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Lit(bool),
    Var(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dir {
    Skip(Cond),
    Include(Cond),
}

#[derive(Clone, Debug)]
pub enum Sel {
    Field { alias: Option<&'static str>, name: &'static str, args: Vec<(&'static str, String)>, dirs: Vec<Dir>, sub: Vec<Sel> },
    Spread(usize, Vec<Dir>),
    Inline(Option<&'static str>, Vec<Dir>, Vec<Sel>),
}

pub fn f(name: &'static str) -> Sel {
    Sel::Field { alias: None, name, args: vec![], dirs: vec![], sub: vec![] }
}
impl Sel {
    pub fn with(mut self, s: &[Sel]) -> Sel {
        match &mut self {
            Sel::Field { sub, .. } | Sel::Inline(_, _, sub) => *sub = s.to_vec(),
            _ => {}
        }
        self
    }
    pub fn dir(mut self, d: &[Dir]) -> Sel {
        match &mut self {
            Sel::Field { dirs, .. } | Sel::Inline(_, dirs, _) | Sel::Spread(_, dirs) => *dirs = d.to_vec(),
        }
        self
    }
    pub fn named(mut self, a: &'static str) -> Sel {
        if let Sel::Field { alias, .. } = &mut self {
            *alias = Some(a)
        }
        self
    }
    pub fn arg(mut self, n: &'static str, v: &str) -> Sel {
        if let Sel::Field { args, .. } = &mut self {
            args.push((n, v.to_string()))
        }
        self
    }
}

fn cond(c: &Cond) -> String {
    match c {
        Cond::Lit(b) => b.to_string(),
        Cond::Var(v) => format!("${v}"),
    }
}

fn dirs(ds: &[Dir]) -> String {
    ds.iter()
        .map(|d| match d {
            Dir::Skip(c) => format!(" @skip(if: {})", cond(c)),
            Dir::Include(c) => format!(" @include(if: {})", cond(c)),
        })
        .collect()
}

pub fn show(s: &[Sel]) -> String {
    let one = |s: &Sel| match s {
        Sel::Field { alias, name, args, dirs: d, sub } => format!(
            "{}{name}{}{}{}",
            alias.map(|a| format!("{a}: ")).unwrap_or_default(),
            if args.is_empty() { String::new() } else { format!("({})", args.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", ")) },
            dirs(d),
            if sub.is_empty() { String::new() } else { format!(" {}", show(sub)) }
        ),
        Sel::Spread(i, d) => format!("...F{i}{}", dirs(d)),
        Sel::Inline(t, d, sub) => format!("...{}{} {}", t.map(|t| format!(" on {t}")).unwrap_or_default(), dirs(d), show(sub)),
    };
    format!("{{ {} }}", s.iter().map(one).collect::<Vec<_>>().join(" "))
}

#[derive(Clone, Default)]
pub struct Query {
    pub mutation: bool,
    pub head: String,
    pub sel: Vec<Sel>,
    pub frags: Vec<(&'static str, Vec<Sel>)>,
    pub vars: Value,
}

impl Query {
    pub fn text(&self) -> String {
        let mut t = format!("{}{} {}", if self.mutation { "mutation" } else { "query" }, self.head, show(&self.sel));
        for (i, (on, s)) in self.frags.iter().enumerate() {
            t += &format!(" fragment F{i} on {on} {}", show(s));
        }
        t
    }
}

// ---------------------------------------------------------------- reference

/// What the fields of a type are: their type, and where they come from if it is
/// not their parent.
pub struct Schema {
    pub fields: fn(&str, &str) -> Option<&'static str>,
    pub resolve: fn(&str, &str, &Value, &Map<String, Value>) -> Option<Value>,
    /// the object types that are (of) this type
    pub possible: fn(&str) -> Vec<&'static str>,
}

fn holds(c: &Cond, vars: &Value) -> bool {
    match c {
        Cond::Lit(b) => *b,
        Cond::Var(v) => vars[*v].as_bool().unwrap(),
    }
}

fn wanted(ds: &[Dir], vars: &Value) -> bool {
    ds.iter().all(|d| match d {
        Dir::Skip(c) => !holds(c, vars),
        Dir::Include(c) => holds(c, vars),
    })
}

type Group<'a> = Vec<(&'static str, Vec<&'a Sel>)>;

fn collect<'a>(q: &'a Query, s: &Schema, ty: &str, sel: &'a [Sel], out: &mut Group<'a>) {
    for x in sel {
        match x {
            Sel::Field { alias, name, dirs, .. } => {
                if !wanted(dirs, &q.vars) {
                    continue;
                }
                let key = alias.unwrap_or(name);
                match out.iter_mut().find(|g| g.0 == key) {
                    Some(g) => g.1.push(x),
                    None => out.push((key, vec![x])),
                }
            }
            Sel::Spread(i, d) => {
                let (on, sub) = &q.frags[*i];
                if wanted(d, &q.vars) && (s.possible)(on).contains(&ty) {
                    collect(q, s, ty, sub, out)
                }
            }
            Sel::Inline(on, d, sub) => {
                if wanted(d, &q.vars) && on.map_or(true, |on| (s.possible)(on).contains(&ty)) {
                    collect(q, s, ty, sub, out)
                }
            }
        }
    }
}

pub fn literal(v: &str, vars: &Value) -> Option<Value> {
    match v.strip_prefix('$') {
        Some(n) => vars.get(n).cloned(),
        None => Some(serde_json::from_str(v).unwrap()),
    }
}

/// the answer, in order; None stands for an object whose fields are not asked
pub fn execute(q: &Query, s: &Schema, ty: &str, obj: &Value, sels: &[&[Sel]]) -> Value {
    let mut groups: Group = vec![];
    for sel in sels {
        collect(q, s, ty, sel, &mut groups);
    }
    let mut out = Map::new();
    for (key, fields) in groups {
        let Sel::Field { name, args, .. } = fields[0] else { unreachable!() };
        if *name == "__typename" {
            out.insert(key.to_string(), json!(ty));
            continue;
        }
        let of = (s.fields)(ty, name).unwrap_or_else(|| panic!("{ty}.{name}"));
        let args: Map<String, Value> = args.iter().filter_map(|(k, v)| Some((k.to_string(), literal(v, &q.vars)?))).collect();
        let v = (s.resolve)(ty, name, obj, &args).unwrap_or_else(|| obj.get(*name).cloned().unwrap_or(Value::Null));
        let subs: Vec<&[Sel]> = fields.iter().map(|f| if let Sel::Field { sub, .. } = f { &sub[..] } else { unreachable!() }).collect();
        out.insert(key.to_string(), complete(q, s, of, &v, &subs));
    }
    Value::Object(out)
}

fn complete(q: &Query, s: &Schema, of: &str, v: &Value, subs: &[&[Sel]]) -> Value {
    match v {
        Value::Null => Value::Null,
        Value::Array(vs) => Value::Array(vs.iter().map(|v| complete(q, s, of, v, subs)).collect()),
        _ if (s.possible)(of).is_empty() => v.clone(),
        _ => {
            let ty = v.get("__typename").and_then(|t| t.as_str()).unwrap_or(of);
            execute(q, s, ty, v, subs)
        }
    }
}

// ---------------------------------------------------------------- the site

pub const SDL: &str = r#"schema { query: Query }
type Query {
  n: N @http(url: "http://up/n")
  ns: [N] @http(url: "http://up/ns")
  u: [U] @http(url: "http://up/u")
  i: I @http(url: "http://up/i")
  none: N @http(url: "http://up/none")
  s: String @expr(body: "S")
}
interface I { id: Int name: String }
type N implements I {
  id: Int
  name: String
  e: E
  inner: N
  list: [N]
  r: String @http(url: "http://up/r", query: [{key: "id", value: "{{.value.id}}"}])
  rn: N @http(url: "http://up/rn", query: [{key: "id", value: "{{.value.id}}"}])
  a(x: Int = 3): Int @expr(body: "{{.args.x}}")
}
type M implements I { id: Int name: String extra: String  r: String @http(url: "http://up/r", query: [{key: "id", value: "{{.value.id}}"}]) }
union U = N | M
enum E { A B }
"#;

fn node(id: i64, depth: usize) -> Value {
    let mut v = json!({"__typename": "N", "id": id, "name": format!("n{id}"), "e": if id % 2 == 0 { "A" } else { "B" }, "inner": null, "list": []});
    if depth > 0 {
        v["inner"] = node(id * 10 + 1, depth - 1);
        v["list"] = json!([node(id * 10 + 2, depth - 1), node(id * 10 + 3, 0)]);
    }
    v
}
fn other(id: i64) -> Value {
    json!({"__typename": "M", "id": id, "name": format!("m{id}"), "extra": "x"})
}

fn upstream(path: &str, id: i64) -> Value {
    match path {
        "/n" => node(1, 2),
        "/ns" => json!([node(2, 1), null, node(3, 0)]),
        "/u" => json!([node(4, 1), other(5), node(6, 0)]),
        "/i" => other(7),
        "/none" => Value::Null,
        "/r" => json!(format!("r{id}")),
        "/rn" => node(id + 100, 1),
        p => panic!("{p}"),
    }
}

pub fn answer(s: &Sent) -> anyhow::Result<tailcall::core::http::Response<hyper::body::Bytes>> {
    let u = reqwest::Url::parse(&s.url).unwrap();
    let id: i64 = u.query_pairs().find(|p| p.0 == "id").and_then(|p| p.1.parse().ok()).unwrap_or(-1);
    rt::json(upstream(u.path(), id).to_string())
}

pub const SCHEMA: Schema = Schema {
    fields: |ty, name| {
        Some(match (ty, name) {
            ("Query", "n" | "none") | ("N", "inner" | "rn" | "list") | ("Query", "ns") => "N",
            ("Query", "u") => "U",
            ("Query", "i") => "I",
            ("Query", "s") => "String",
            ("N", "a") => "Int",
            ("N", "e") => "E",
            ("N" | "M", "id") => "Int",
            ("N" | "M", "name" | "r") | ("M", "extra") => "String",
            _ => return None,
        })
    },
    resolve: |ty, name, obj, args| {
        let id = obj["id"].as_i64().unwrap_or(-1);
        Some(match (ty, name) {
            ("Query", "s") => json!("S"),
            ("Query", p) => upstream(&format!("/{p}"), -1),
            (_, "r") => upstream("/r", id),
            (_, "rn") => upstream("/rn", id),
            (_, "a") => match args.get("x") {
                Some(v) => v.clone(),
                None => json!(3),
            },
            _ => return None,
        })
    },
    possible: |ty| match ty {
        "Query" => vec!["Query"],
        "N" => vec!["N"],
        "M" => vec!["M"],
        "I" | "U" => vec!["N", "M"],
        _ => vec![],
    },
};

fn check(ch: &Chooser, site: &Site, q: &Query) -> Outcome {
    let key = format!("{} {}", q.text(), q.vars);
    ch.note(&key);
    ch.go();
    ch.step();
    let got = site.ask(&q.text(), q.vars.clone());
    let want = json!({"data": execute(q, &SCHEMA, "Query", &Value::Null, &[&q.sel])});
    ch.observe(&got.body);
    ensure_eq!(got.json(), want, key, "answer");
    ensure_eq!(got.body, want.to_string(), key, "order of fields");
    ch.state(&key);
    Ok(())
}

fn sites() -> Site {
    serve::site(SDL, Arc::new(answer), false).unwrap()
}


fn leaves() -> Vec<Sel> {
    vec![
        f("id"),
        f("name"),
        f("name").named("x"),
        f("id").named("name"),
        f("e"),
        f("r"),
        f("r").named("x"),
        f("a"),
        f("a").arg("x", "1").named("y"),
        f("__typename"),
        f("__typename").named("t"),
    ]
}
fn nested(sub: &[Sel]) -> Vec<Sel> {
    vec![f("inner").with(sub), f("inner").named("in").with(sub), f("list").with(sub), f("list").named("id").with(sub), f("rn").with(sub), f("rn").named("x").with(sub)]
}
fn roots(sub: &[Sel]) -> Vec<Sel> {
    vec![f("n").with(sub), f("n").named("m").with(sub), f("ns").with(sub), f("none").with(sub)]
}
/// any field of a N
fn field(ch: &Chooser, sub: impl Fn() -> Vec<Sel>) -> Sel {
    let l = leaves();
    let k = ch.choose(l.len() + 6);
    if k < l.len() {
        l[k].clone()
    } else {
        nested(&sub())[k - l.len()].clone()
    }
}
fn inline(on: Option<&'static str>, sub: &[Sel]) -> Sel {
    Sel::Inline(on, vec![], sub.to_vec())
}

fn c30(ctx: &mut Ctx) {
    let site = sites();
    ctx.explore("fields", "4 roots × every pair of fields of 11 leaves and 6 nested ones (each with 11 leaves)", |ch| {
        let sel: Vec<Sel> = (0..ch.range(1, 2)).map(|_| field(ch, || vec![ch.pick(&leaves()).clone()])).collect();
        if conflicts(&sel) || twice(&sel) {
            ch.trivial();
            return Ok(());
        }
        let r = ch.choose(4);
        check(ch, &site, &Query { sel: vec![roots(&sel)[r].clone()], vars: json!({}), ..Default::default() })
    });
    ctx.explore("roots", "up to 3 root fields of 6", |ch| {
        let s = [f("id")];
        let all = [f("n").with(&s), f("ns").with(&s), f("n").named("k").with(&s), f("s"), f("s").named("n"), f("none").with(&s), f("__typename")];
        let sel = ch.seq(&all, 1, 3);
        if conflicts(&sel) || twice(&sel) {
            ch.trivial();
            return Ok(());
        }
        check(ch, &site, &Query { sel, vars: json!({}), ..Default::default() })
    });
    ctx.explore("selected twice", "an object selected twice under one name, each time with 1 of 5 fields", |ch| {
        let some = [f("id"), f("name"), f("r"), f("inner").with(&[f("id")]), f("inner").with(&[f("name")])];
        let (a, b) = (ch.pick(&some).clone(), ch.pick(&some).clone());
        let sel = match ch.choose(3) {
            0 => vec![f("n").with(&[a]), f("n").with(&[b])],
            1 => vec![f("n").with(&[f("inner").with(&[a]), f("e"), f("inner").with(&[b])])],
            _ => vec![f("ns").with(&[f("list").with(&[a]), f("list").with(&[b])])],
        };
        check(ch, &site, &Query { sel, vars: json!({}), ..Default::default() })
    });
    ctx.explore("fragments", "5 roots × selections with 1 or 2 of 8 fields before, in and after a fragment (inline or spread, on 5 types, in one another)", |ch| {
        let some = [f("id"), f("name"), f("__typename"), f("name").named("x")];
        let root = *ch.pick(&["n", "ns", "u", "i", "none"]);
        let of = match root {
            "u" => "U",
            "i" => "I",
            _ => "N",
        };
        let on = *ch.pick(&[None, Some("N"), Some("M"), Some("I"), Some("U")]);
        let ok = |of: &str, on: Option<&str>, f: &Sel| {
            let t = on.unwrap_or(of);
            let Sel::Field { name, .. } = f else { return true };
            *name == "__typename" || match t {
                "N" => *name != "extra",
                "M" => ["id", "name", "extra", "r"].contains(name),
                "I" => ["id", "name"].contains(name),
                _ => false,
            }
        };
        // fragments that can never apply are none of ours
        let fits = |of: &str, on: Option<&str>| match (of, on) {
            ("N", Some("M")) | ("M", Some("N")) => false,
            _ => true,
        };
        let mut inner: Vec<Sel> = vec![if ch.flag() { f("r") } else { ch.pick(&some).clone() }];
        if ch.flag() {
            inner.push(ch.pick(&[f("e"), f("extra"), f("inner").with(&[f("id")])]).clone());
        }
        if !fits(of, on) || inner.iter().any(|x| !ok(of, on, x)) {
            ch.trivial();
            return Ok(());
        }
        let spread = ch.flag() && on.is_some();
        let mut frags = vec![];
        let mut frag = if spread {
            frags.push((on.unwrap(), inner));
            Sel::Spread(0, vec![])
        } else {
            inline(on, &inner)
        };
        if ch.flag() {
            let out = *ch.pick(&[None, Some("N"), Some("I")]);
            if !fits(of, out) || !fits(out.unwrap_or(of), on) || (on.is_none() && out.is_some()) {
                ch.trivial();
                return Ok(());
            }
            frag = inline(out, &[frag]);
        }
        let mut sel = vec![];
        if ch.flag() {
            sel.push(ch.pick(&some).clone());
        }
        sel.push(frag);
        if ch.flag() {
            sel.push(ch.pick(&some).clone());
        }
        if sel.iter().any(|x| !ok(of, None, x)) {
            ch.trivial();
            return Ok(());
        }
        check(ch, &site, &Query { sel: vec![f(root).with(&sel)], frags, vars: json!({}), ..Default::default() })
    });
    ctx.explore("conditions", "a field with up to 2 conditions (skip, include, true, false, 2 variables), before or after another, all values of the variables", |ch| {
        let c = |ch: &Chooser| ch.pick(&[Cond::Lit(true), Cond::Lit(false), Cond::Var("v"), Cond::Var("w")]).clone();
        let mut d = vec![];
        if ch.flag() {
            d.push(Dir::Skip(c(ch)));
        }
        if ch.flag() {
            d.push(Dir::Include(c(ch)));
        }
        if ch.flag() {
            d.reverse();
        }
        let (v, w) = (ch.flag(), ch.flag());
        let it = [f("r").dir(&d), f("inner").with(&[f("id")]).dir(&d), f("__typename").dir(&d), f("rn").with(&[f("id"), f("name").dir(&d)])][ch.choose(4)].clone();
        let sel = match ch.choose(4) {
            0 => vec![f("n").with(&[it])],
            1 => vec![f("n").with(&[f("id"), it, f("name")])],
            2 => vec![f("ns").with(&[it, f("name")])],
            _ => vec![f("n").with(&[f("id")]).dir(&d), f("s").dir(&d), f("ns").with(&[it])],
        };
        check(ch, &site, &Query { head: "($v: Boolean!, $w: Boolean!)".into(), sel, vars: json!({"v": v, "w": w}), ..Default::default() })
    });
    ctx.explore("conditions on fragments", "a fragment with up to 2 conditions", |ch| {
        let c = |ch: &Chooser| ch.pick(&[Cond::Lit(true), Cond::Lit(false), Cond::Var("v"), Cond::Var("w")]).clone();
        let mut d = vec![];
        if ch.flag() {
            d.push(Dir::Skip(c(ch)));
        }
        if ch.flag() {
            d.push(Dir::Include(c(ch)));
        }
        let mut frags = vec![];
        let sub = vec![f("name"), f("r")];
        let it = match ch.choose(3) {
            0 => inline(None, &sub).dir(&d),
            1 => inline(Some("N"), &sub).dir(&d),
            _ => {
                frags.push(("N", sub));
                Sel::Spread(0, d)
            }
        };
        let sel = if ch.flag() { vec![f("id"), it] } else { vec![inline(None, &[f("id"), it])] };
        let (v, w) = (ch.flag(), ch.flag());
        check(ch, &site, &Query { head: "($v: Boolean!, $w: Boolean!)".into(), sel: vec![f("n").with(&sel)], frags, vars: json!({"v": v, "w": w}), ..Default::default() })
    });
    ctx.explore("conditional twin", "a field selected twice, with a condition each", |ch| {
        let c = |ch: &Chooser| match ch.choose(5) {
            0 => vec![],
            1 => vec![Dir::Skip(Cond::Lit(true))],
            2 => vec![Dir::Include(Cond::Lit(false))],
            3 => vec![Dir::Skip(Cond::Var("v"))],
            _ => vec![Dir::Include(Cond::Var("w"))],
        };
        let (d, e) = (c(ch), c(ch));
        let (a, b) = if ch.flag() { (f("r").dir(&d), f("r").dir(&e)) } else { (f("inner").with(&[f("id")]).dir(&d), f("inner").with(&[f("name")]).dir(&e)) };
        let (v, w) = (ch.flag(), ch.flag());
        check(ch, &site, &Query { head: "($v: Boolean!, $w: Boolean!)".into(), sel: vec![f("n").with(&[a, b])], vars: json!({"v": v, "w": w}), ..Default::default() })
    });
    ctx.explore("objects in fragments", "an object selected in up to 3 places: plain, in a fragment, in a conditional fragment, in a fragment's fragment, spread twice", |ch| {
        let some = [f("id"), f("name"), f("r"), f("inner").with(&[f("id")]), f("inner").with(&[f("e")])];
        let mut frags: Vec<(&'static str, Vec<Sel>)> = vec![];
        let n = ch.range(2, 3);
        let of_list = ch.flag();
        let place = |ch: &Chooser, frags: &mut Vec<(&'static str, Vec<Sel>)>| {
            let o = f("inner").with(&[ch.pick(&some).clone()]);
            match ch.choose(5) {
                0 => o,
                1 => inline(Some("N"), &[o]),
                2 => inline(None, &[o]).dir(&[Dir::Include(Cond::Var("v"))]),
                3 => inline(None, &[inline(Some("N"), &[o]).dir(&[Dir::Skip(Cond::Var("v"))])]),
                _ => {
                    frags.push(("N", vec![o]));
                    Sel::Spread(frags.len() - 1, vec![])
                }
            }
        };
        let mut sel: Vec<Sel> = (0..n).map(|_| place(ch, &mut frags)).collect();
        if !frags.is_empty() && ch.flag() {
            sel.push(Sel::Spread(0, vec![]));
        }
        let root = if of_list { f("ns") } else { f("n") };
        check(ch, &site, &Query { head: "($v: Boolean!)".into(), sel: vec![root.with(&sel)], frags, vars: json!({"v": ch.flag()}), ..Default::default() })
    });
}

/// an object is selected twice under one name
fn twice(sel: &[Sel]) -> bool {
    let k: Vec<&str> = sel.iter().filter_map(|s| if let Sel::Field { alias, name, sub, .. } = s { (!sub.is_empty()).then_some(alias.unwrap_or(name)) } else { None }).collect();
    k.iter().enumerate().any(|(i, x)| k[..i].contains(x))
}

/// two fields of one name that do not say the same
fn conflicts(sel: &[Sel]) -> bool {
    fn flat<'a>(s: &'a [Sel], out: &mut Vec<(&'a str, &'a str, &'a Vec<(&'static str, String)>)>) {
        for x in s {
            match x {
                Sel::Field { alias, name, args, .. } => out.push((alias.unwrap_or(name), name, args)),
                Sel::Inline(_, _, sub) => flat(sub, out),
                Sel::Spread(..) => {}
            }
        }
    }
    let mut v = vec![];
    flat(sel, &mut v);
    v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| a.0 == b.0 && (a.1 != b.1 || a.2 != b.2)))
}
