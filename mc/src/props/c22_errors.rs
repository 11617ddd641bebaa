//! Steps and their errors (C22), directives (C23), reported errors (C24),
//! verdicts of authentication (C25).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

use async_graphql::parser::types::ConstDirective;
use async_graphql::{Name, Positioned};
use async_graphql_value::ConstValue;
use serde::Serialize;
use serde_json::{json, Value};
use tailcall::core::vp_hooks::export::directive as generic;
use tailcall::core::config::*;
use tailcall::core::directive::DirectiveCodec;
use tailcall::core::try_fold::TryFold;
use tailcall::core::vp_hooks::export::auth::{Error as AuthError, Verification};
use tailcall::core::vp_hooks::export::transform::{self, Transform, TransformerOps};
use tailcall::core::Errata;
use tailcall_valid::{Cause, Valid, ValidationError, Validator};

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::gen::{all_leaves, doc};
use crate::{ensure, ensure_eq};

pub const C22: Prop = Prop { id: "C22", level: EX, rule: "every composition of steps within the bounds", run: c22, assumptions: &[] };
pub const C23: Prop = Prop { id: "C23", level: EX, rule: "every directive with every choice of arguments within the bounds", run: c23, assumptions: &["a null given for an argument that may be left out counts as leaving it out"] };
pub const C24: Prop = Prop { id: "C24", level: EX, rule: "every tree of errors within the bounds", run: c24, assumptions: &["errors of the HTTP library cannot be built outside it and are not covered"] };
pub const C25: Prop = Prop { id: "C25", level: EX, rule: "every combination of up to 4 verdicts", run: c25, assumptions: &[] };

// ---------------------------------------------------------------- C22

type Errs = Vec<(String, Vec<String>)>;
type Log = Rc<RefCell<Vec<String>>>;

/// a step: state -> state or errors
#[derive(Clone, Debug)]
enum Step {
    Add(i64),
    Fail(&'static str),
    Empty,
    And(Box<Step>, Box<Step>),
    Update(Box<Step>),
    Trace(Box<Step>),
    /// down, the step, up; which of them fail
    Through(Box<Step>, bool, bool),
    All(Vec<Step>),
}

fn step(ch: &Chooser, depth: usize) -> Step {
    match ch.choose(if depth == 0 { 4 } else { 9 }) {
        0 => Step::Add(1),
        1 => Step::Fail("e"),
        2 => Step::Add(10),
        3 => Step::Empty,
        4 => Step::And(Box::new(step(ch, depth - 1)), Box::new(step(ch, depth - 1))),
        5 => Step::Update(Box::new(step(ch, depth - 1))),
        6 => Step::Trace(Box::new(step(ch, depth - 1))),
        7 => Step::Through(Box::new(step(ch, depth - 1)), ch.flag(), ch.flag()),
        _ => Step::All((0..ch.range(0, if depth == 1 { 3 } else { 2 })).map(|_| step(ch, depth - 1)).collect()),
    }
}

fn real(s: &Step, log: &Log) -> TryFold<'static, i64, i64, String> {
    match s.clone() {
        Step::Add(n) => {
            let log = log.clone();
            TryFold::new(move |i: &i64, o: i64| {
                log.borrow_mut().push(format!("add {n} to {o}"));
                Valid::succeed(o * 3 + n + i)
            })
        }
        Step::Fail(e) => {
            let log = log.clone();
            TryFold::new(move |_: &i64, o: i64| {
                log.borrow_mut().push(format!("fail on {o}"));
                Valid::fail(format!("{e}{o}"))
            })
        }
        Step::Empty => TryFold::empty(),
        Step::And(a, b) => real(&a, log).and(real(&b, log)),
        Step::Update(a) => real(&a, log).update(|o| o + 100),
        Step::Trace(a) => real(&a, log).trace("t"),
        Step::Through(a, down, up) => real(&a, log).transform_valid(
            move |o: i64, o1: i64| if up { Valid::fail(format!("up {o} {o1}")) } else { Valid::succeed(o * 7 + o1) },
            move |o1: i64| if down { Valid::fail(format!("down {o1}")) } else { Valid::succeed(o1 + 5) },
        ),
        Step::All(l) => l.iter().map(|s| real(s, log)).collect(),
    }
}

fn reference(s: &Step, i: i64, o: i64, log: &mut Vec<String>) -> Result<i64, Errs> {
    match s {
        Step::Add(n) => {
            log.push(format!("add {n} to {o}"));
            Ok(o * 3 + n + i)
        }
        Step::Fail(e) => {
            log.push(format!("fail on {o}"));
            Err(vec![(format!("{e}{o}"), vec![])])
        }
        Step::Empty => Ok(o),
        Step::And(a, b) => both(reference(a, i, o, log), o, |o, log| reference(b, i, o, log), log),
        Step::Update(a) => reference(a, i, o, log).map(|o| o + 100),
        Step::Trace(a) => reference(a, i, o, log).map_err(|e| e.into_iter().map(|(m, t)| (m, ["t".to_string()].into_iter().chain(t).collect())).collect()),
        Step::Through(a, down, up) => {
            if *down {
                return Err(vec![(format!("down {o}"), vec![])]);
            }
            let x = reference(a, i, o + 5, log)?;
            if *up { Err(vec![(format!("up {x} {o}"), vec![])]) } else { Ok(x * 7 + o) }
        }
        Step::All(l) => all(l, i, o, log),
    }
}

/// a list of steps is its first step and then the list of the others
fn all(l: &[Step], i: i64, o: i64, log: &mut Vec<String>) -> Result<i64, Errs> {
    match l.split_first() {
        None => Ok(o),
        Some((head, tail)) => both(reference(head, i, o, log), o, |o, log| all(tail, i, o, log), log),
    }
}

/// after a failed step the next one still runs, on the state before it, and
/// the errors of both are reported
fn both(first: Result<i64, Errs>, o: i64, next: impl Fn(i64, &mut Vec<String>) -> Result<i64, Errs>, log: &mut Vec<String>) -> Result<i64, Errs> {
    match first {
        Ok(o) => next(o, log),
        Err(mut e) => {
            if let Err(more) = next(o, log) {
                e.extend(more);
            }
            Err(e)
        }
    }
}

fn flat(r: Result<i64, ValidationError<String>>) -> Result<i64, Errs> {
    r.map_err(|e| e.as_vec().iter().map(|c| (c.message.clone(), Vec::from(c.trace.clone()))).collect())
}

struct Plus(i64);
impl Transform for Plus {
    type Value = i64;
    type Error = String;
    fn transform(&self, v: i64) -> Valid<i64, String> {
        Valid::succeed(v * 3 + self.0)
    }
}
struct Stop(&'static str);
impl Transform for Stop {
    type Value = i64;
    type Error = String;
    fn transform(&self, v: i64) -> Valid<i64, String> {
        Valid::fail(format!("{} {v}", self.0))
    }
}
struct Dyn(Box<dyn Fn(i64) -> Valid<i64, String>>);
impl Transform for Dyn {
    type Value = i64;
    type Error = String;
    fn transform(&self, v: i64) -> Valid<i64, String> {
        (self.0)(v)
    }
}
fn boxed(t: impl Transform<Value = i64, Error = String> + 'static) -> Dyn {
    Dyn(Box::new(move |v| t.transform(v)))
}

#[derive(Clone, Debug)]
enum Tr {
    Plus(i64),
    Stop,
    Nothing,
    When(bool, Box<Tr>),
    Pipe(Box<Tr>, Box<Tr>),
}

fn tr(ch: &Chooser, depth: usize) -> Tr {
    match ch.choose(if depth == 0 { 4 } else { 6 }) {
        0 => Tr::Plus(1),
        1 => Tr::Plus(2),
        2 => Tr::Stop,
        3 => Tr::Nothing,
        4 => Tr::When(ch.flag(), Box::new(tr(ch, depth - 1))),
        _ => Tr::Pipe(Box::new(tr(ch, depth - 1)), Box::new(tr(ch, depth - 1))),
    }
}

fn real_tr(t: &Tr) -> Dyn {
    match t.clone() {
        Tr::Plus(n) => boxed(Plus(n)),
        Tr::Stop => boxed(Stop("stop")),
        Tr::Nothing => boxed(transform::default::<i64, String>()),
        Tr::When(c, t) => boxed(real_tr(&t).when(c)),
        Tr::Pipe(a, b) => boxed(real_tr(&a).pipe(real_tr(&b))),
    }
}

fn ref_tr(t: &Tr, v: i64) -> Result<i64, Errs> {
    match t {
        Tr::Plus(n) => Ok(v * 3 + n),
        Tr::Stop => Err(vec![(format!("stop {v}"), vec![])]),
        Tr::Nothing => Ok(v),
        Tr::When(c, t) => if *c { ref_tr(t, v) } else { Ok(v) },
        Tr::Pipe(a, b) => ref_tr(a, v).and_then(|v| ref_tr(b, v)),
    }
}

fn c22(ctx: &mut Ctx) {
    let depth = ctx.by(2, 2);
    ctx.explore("steps", "every composition of up to depth 2, by and, update, trace, transform and lists of up to 3, of steps that add, fail or do nothing", |ch| {
        let s = step(ch, depth);
        let key = format!("steps {s:?}");
        ch.note(&key);
        let mut want_log = vec![];
        let want = reference(&s, 2, 1, &mut want_log);
        let log = Log::default();
        let t = real(&s, &log);
        ch.step();
        ensure_eq!(flat(t.try_fold(&2, 1).to_result()), want, key, "result");
        ensure_eq!(*log.borrow(), want_log, key, "what ran");
        ch.state((format!("{want:?}"), want_log));
        Ok(())
    });
    let n = ctx.by(6, 8);
    ctx.explore("lists", "lists of up to 6 (8) steps that add, fail, or fail with a trace", |ch| {
        let l: Vec<Step> = ch.seq(&[Step::Add(1), Step::Fail("e"), Step::Trace(Box::new(Step::Fail("f")))], 0, n);
        let s = Step::All(l);
        let key = format!("steps {s:?}");
        ch.note(&key);
        ch.step();
        let mut want_log = vec![];
        let want = reference(&s, 0, 1, &mut want_log);
        let log = Log::default();
        ensure_eq!(flat(real(&s, &log).try_fold(&0, 1).to_result()), want, key, "result");
        ensure_eq!(*log.borrow(), want_log, key, "what ran");
        // the same, one after the other by `and` from the left: a failed
        // prefix keeps the state of the last step that did not fail before it
        ch.state(key);
        Ok(())
    });
    ctx.explore("long lists", "a list of 1000 steps of which one, or none, fails", |ch| {
        let at = *ch.pick(&[None, Some(0), Some(1), Some(500), Some(999)]);
        ch.note(format!("{at:?}"));
        ch.step();
        let l: Vec<TryFold<'static, i64, i64, String>> = (0..1000)
            .map(|i| TryFold::new(move |_: &i64, o: i64| if Some(i) == at { Valid::fail(format!("e{o}")) } else { Valid::succeed(o + 1) }))
            .collect();
        let t: TryFold<i64, i64, String> = l.into_iter().collect();
        let want = match at {
            None => Ok(1000),
            Some(i) => Err(vec![(format!("e{i}"), vec![])]),
        };
        ensure_eq!(flat(t.try_fold(&0, 0).to_result()), want, format!("1000 steps, {at:?} fails"), "result");
        Ok(())
    });
    ctx.explore("transformers", "every composition of up to depth 3 of transformers: pipe, when, the one that does nothing", |ch| {
        let t = tr(ch, 3);
        let key = format!("transformer {t:?}");
        ch.note(&key);
        ch.step();
        let r = real_tr(&t);
        ensure_eq!(flat(r.transform(4).to_result()), ref_tr(&t, 4), key, "result");
        ensure_eq!(flat(r.generate().to_result()), ref_tr(&t, 0), key, "generated");
        ch.state(key);
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

/// One value an argument may be given: `out` is what is written again.
#[derive(Clone)]
enum Given {
    Good(Value, Option<Value>),
    /// written as this, read like `Good`
    As(ConstValue, Option<Value>),
    Bad(Value),
}
use Given::{Bad, Good};

struct Arg {
    name: &'static str,
    required: bool,
    /// what is written when it is left out
    absent: Option<Value>,
    values: Vec<Given>,
}

fn keep(v: Value) -> Given {
    Good(v.clone(), Some(v))
}
fn arg(name: &'static str, values: Vec<Given>) -> Arg {
    Arg { name, required: false, absent: None, values }
}
fn must(name: &'static str, values: Vec<Given>) -> Arg {
    Arg { name, required: true, absent: None, values }
}
fn text() -> Vec<Given> {
    vec![keep(json!("a")), keep(json!("")), keep(json!("é \" {{.x}}")), Bad(json!(1)), Bad(json!(["a"])), Bad(json!(null))]
}
fn opt_text() -> Vec<Given> {
    vec![keep(json!("a")), keep(json!("")), Good(json!(null), None), Bad(json!(1)), Bad(json!(true))]
}
fn plain_text() -> Vec<Given> {
    vec![keep(json!("a")), Good(json!(""), None), Bad(json!(1)), Bad(json!(null))]
}
fn yes() -> Vec<Given> {
    vec![keep(json!(true)), Good(json!(false), None), Bad(json!("true")), Bad(json!(0)), Bad(json!(null))]
}
fn opt_yes() -> Vec<Given> {
    vec![keep(json!(true)), keep(json!(false)), Good(json!(null), None), Bad(json!("true")), Bad(json!(0))]
}
fn texts() -> Vec<Given> {
    vec![keep(json!(["a"])), keep(json!(["b", "a", "b"])), Good(json!([]), None), Bad(json!("a")), Bad(json!([1])), Bad(json!(null))]
}
fn pairs() -> Vec<Given> {
    vec![
        keep(json!([{"key": "k", "value": "v"}])), keep(json!([{"key": "k", "value": ""}, {"key": "", "value": "{{.a}}"}, {"key": "k", "value": "v"}])), Good(json!([]), None),
        Good(json!([{"key": "k", "value": "v", "other": 1}]), Some(json!([{"key": "k", "value": "v"}]))),
        Bad(json!([{"key": "k"}])), Bad(json!([{"value": "k"}])), Bad(json!({"k": "v"})), Bad(json!([{"key": "k", "value": 1}])),
    ]
}
fn opt_pairs() -> Vec<Given> {
    vec![keep(json!([{"key": "k", "value": "v"}])), keep(json!([])), Good(json!(null), None), Bad(json!([{"key": "k"}])), Bad(json!("k"))]
}
fn any() -> Vec<Given> {
    vec![keep(json!("{{.a}}")), keep(json!(1)), keep(json!(false)), keep(json!([])), keep(json!({"b": {"c": [null, 1.5]}, "a": ""})), Given::As(ConstValue::Enum(Name::new("X")), Some(json!("X")))]
}
fn opt_any() -> Vec<Given> {
    any().into_iter().chain([Good(json!(null), None)]).collect()
}
/// `select` is always written, even if it is not given
fn select() -> Arg {
    Arg { absent: Some(json!(null)), ..arg("select", any().into_iter().chain([keep(json!(null))]).collect()) }
}
fn one_of(names: &[&str], default: &str, wrong: &[&str]) -> Vec<Given> {
    let mut v: Vec<Given> = vec![];
    for n in names {
        let out = (*n != default).then(|| json!(n));
        v.push(Good(json!(n), out.clone()));
        v.push(Given::As(ConstValue::Enum(Name::new(*n)), out));
    }
    v.extend(wrong.iter().map(|w| Bad(json!(w))));
    v.push(Bad(json!(1)));
    v
}
fn schemas() -> Vec<Given> {
    vec![keep(json!("Str")), keep(json!({"Obj": {"a": "Num", "b": {"Arr": "Bool"}}})), keep(json!({"Opt": "Any"})), keep(json!({"Enum": ["a", "b"]})), Good(json!(null), None), Bad(json!("Text")), Bad(json!({"Obj": 1}))]
}

fn args_of(name: &str) -> (Vec<Arg>, bool) {
    let (mut args, strict) = table(name);
    for a in args.iter_mut() {
        a.values.sort_by_key(|v| matches!(v, Bad(_)));
    }
    (args, strict)
}

/// the arguments of each directive, and whether it refuses any other
fn table(name: &str) -> (Vec<Arg>, bool) {
    match name {
        "addField" => (vec![must("name", text()), must("path", vec![keep(json!([])), keep(json!(["a", "b", "a"])), Bad(json!("a")), Bad(json!([1]))])], true),
        "alias" => (vec![must("options", vec![keep(json!([])), keep(json!(["a"])), Good(json!(["b", "a", "b"]), Some(json!(["a", "b"]))), Bad(json!("a")), Bad(json!([null]))])], false),
        "cache" => (vec![must("maxAge", vec![keep(json!(1)), keep(json!(5000)), keep(json!(u64::MAX)), Bad(json!(0)), Bad(json!(-1)), Bad(json!("1")), Bad(json!(1.5))])], true),
        "call" => {
            let s = vec![
                keep(json!([])), keep(json!([{"query": "a"}])), keep(json!([{"mutation": "a", "args": {"x": [1], "y": "{{.z}}"}}, {"query": "b"}])),
                Good(json!([{"query": null, "args": {}}]), Some(json!([{}]))), Bad(json!([{"query": 1}])), Bad(json!({"query": "a"})), Bad(json!([{"query": "a", "args": []}])),
            ];
            (vec![must("steps", s), arg("dedupe", opt_yes())], false)
        }
        "discriminate" => (vec![arg("field", opt_text())], true),
        "expr" => (vec![must("body", any().into_iter().chain([keep(json!(null))]).collect())], true),
        "graphQL" => (vec![arg("args", opt_pairs()), must("url", text()), arg("batch", yes()), arg("headers", pairs()), must("name", text()), arg("dedupe", yes())], true),
        "grpc" => (
            vec![must("url", text()), arg("body", opt_any()), arg("batchKey", texts()), arg("headers", pairs()), must("method", text()), arg("dedupe", opt_yes()), select(), arg("onResponseBody", opt_text())],
            true,
        ),
        "http" => {
            let query = vec![
                keep(json!([{"key": "k", "value": "v"}])), keep(json!([{"key": "k", "value": "{{.x}}", "skipEmpty": true}, {"key": "k", "value": "", "skipEmpty": false}])), Good(json!([]), None),
                Good(json!([{"key": "k", "value": "v", "skipEmpty": null}]), Some(json!([{"key": "k", "value": "v"}]))),
                Bad(json!([{"key": "k"}])), Bad(json!([{"key": "k", "value": "v", "skipEmpty": 1}])), Bad(json!({"k": "v"})),
            ];
            let methods = one_of(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"], "GET", &["get", "FETCH", ""]);
            let encoding = one_of(&["ApplicationJson", "ApplicationXWwwFormUrlencoded"], "ApplicationJson", &["applicationJson", "ApplicationXWwwFormUrlEncoded"]);
            (
                vec![
                    arg("onRequest", opt_text()), must("url", text()), arg("body", opt_any()), arg("encoding", encoding), arg("batchKey", texts()), arg("headers", pairs()), arg("input", schemas()),
                    arg("method", methods), arg("output", schemas()), arg("query", query), arg("dedupe", opt_yes()), select(), arg("onResponseBody", opt_text()),
                ],
                true,
            )
        }
        "js" => (vec![must("name", text())], false),
        "link" => {
            let types = one_of(&["Config", "Protobuf", "Script", "Cert", "Key", "Operation", "Htpasswd", "Jwks", "Grpc"], "Config", &["config", "Proto"]);
            (
                vec![
                    arg("id", opt_text()), arg("src", plain_text()), arg("type", types), arg("headers", opt_pairs()), arg("meta", opt_any()),
                    arg("proto_paths", vec![keep(json!(["a", "b"])), keep(json!([])), Good(json!(null), None), Bad(json!("a")), Bad(json!([1]))]),
                ],
                true,
            )
        }
        "modify" => (vec![arg("name", opt_text()), arg("omit", opt_yes())], true),
        "omit" => (vec![], true),
        "protected" => (vec![arg("id", vec![keep(json!([])), keep(json!(["b", "a", "b"])), Good(json!(null), None), Bad(json!("a")), Bad(json!([1]))])], false),
        _ => unreachable!(),
    }
}

fn pos<T>(t: T) -> Positioned<T> {
    Positioned::new(t, Default::default())
}

fn directive(name: &str, args: &[(String, ConstValue)]) -> ConstDirective {
    ConstDirective { name: pos(Name::new(name)), arguments: args.iter().map(|(k, v)| (pos(Name::new(k)), pos(v.clone()))).collect() }
}

fn as_const(v: &Value) -> ConstValue {
    ConstValue::from_json(v.clone()).unwrap()
}

fn written(d: &ConstDirective) -> BTreeMap<String, Value> {
    d.arguments.iter().map(|(k, v)| (k.node.to_string(), v.node.clone().into_json().unwrap())).collect()
}

fn run_directive<D: DirectiveCodec + Serialize + Debug + PartialEq>(ch: &Chooser, name: &str, extra: usize) -> Outcome {
    let (args, strict) = args_of(name);
    // the arguments that are given: all required ones or all but one, and up
    // to `extra` of the others
    let required: Vec<usize> = (0..args.len()).filter(|i| args[*i].required).collect();
    let missing = ch.choose(required.len() + 1);
    let missing = required.get(missing.wrapping_sub(1)).copied();
    let mut chosen: Vec<usize> = required.iter().copied().filter(|i| Some(*i) != missing).collect();
    let free: Vec<usize> = (0..args.len()).filter(|i| !args[*i].required).collect();
    let mut from = 0;
    for _ in 0..extra {
        let k = ch.choose(free.len() - from + 1);
        if k == 0 {
            break;
        }
        chosen.push(free[from + k - 1]);
        from += k;
    }
    // at most two of them with a value other than their first
    let (mut given, mut want, mut bad): (Vec<(String, ConstValue)>, BTreeMap<String, Value>, Option<&str>) = Default::default();
    for a in args.iter() {
        if let Some(v) = &a.absent {
            want.insert(a.name.into(), v.clone());
        }
    }
    let (mut others, wrong_already) = (0, missing.is_some());
    for i in &chosen {
        let a = &args[*i];
        let fresh = free.contains(i);
        let n = if wrong_already { a.values.iter().filter(|v| !matches!(v, Bad(_))).count() } else { a.values.len() };
        let k = if bad.is_none() && (others < 2 || fresh) { ch.choose(n) } else { 0 };
        others += (k > 0) as usize;
        let (c, out) = match &a.values[k] {
            Good(v, out) => (as_const(v), out.clone()),
            Given::As(c, out) => (c.clone(), out.clone()),
            Bad(v) => {
                bad = bad.or(Some(a.name));
                (as_const(v), None)
            }
        };
        given.push((a.name.into(), c));
        want.remove(a.name);
        if let Some(v) = out {
            want.insert(a.name.into(), v);
        } else if a.absent.is_some() {
            want.insert(a.name.into(), json!(null));
        }
    }
    let unknown = match if bad.is_none() && missing.is_none() && others <= 1 { ch.choose(4) } else { 0 } {
        0 => None,
        1 => Some("unknown"),
        2 => Some("Url"),
        _ => Some("max_age"),
    };
    if let Some(u) = unknown {
        given.push((u.into(), as_const(&json!("x"))));
    }
    if bad.is_none() && missing.is_none() && unknown.is_none() && ch.flag() {
        given.reverse();
    }
    let key = format!("@{name}({given:?})");
    ch.note(&key);
    ch.step();
    let trace = format!("@{name}");
    let wrong = missing.is_some() || bad.is_some() || (unknown.is_some() && strict);
    let d = directive(name, &given);
    ensure_eq!(D::directive_name(), name, key, "name");
    ensure_eq!(D::trace_name(), trace, key, "trace name");
    match D::from_directive(&d).to_result() {
        Err(e) => {
            ensure!(wrong, key, "refused: {e}");
            ensure!(e.as_vec().iter().all(|c| c.trace.front() == Some(&trace)), key, "the error does not name the directive: {e:?}");
        }
        Ok(x) => {
            ensure!(!wrong, key, "accepted: {x:?}");
            let back = x.to_directive();
            ensure_eq!(back.name.node.as_str(), name, key, "name written again");
            ensure_eq!(written(&back), want, key, "written again");
            ensure_eq!(back.arguments.len(), want.len(), key, "an argument written twice");
            let again = D::from_directive(&back).to_result().map_err(|e| e.to_string());
            ensure_eq!(again, Ok(x), key, "read again");
        }
    }
    ch.state(key);
    Ok(())
}

fn c23(ctx: &mut Ctx) {
    let extra = ctx.by(2, 3);
    macro_rules! each {
        ($($name:literal $d:ty, $extra:expr;)*) => {$(
            ctx.explore(concat!("@", $name), "every choice of the required arguments, or all but one, and up to 2 (3) others, each with one of its values, at most one of them wrong; an unknown argument or none; in this order or the other", |ch| {
                run_directive::<$d>(ch, $name, $extra)
            });
        )*};
    }
    each! {
        "addField" AddField, 2; "alias" Alias, 2; "cache" Cache, 2; "call" Call, 2; "discriminate" Discriminate, 2; "expr" Expr, 2; "graphQL" GraphQL, 2; "grpc" Grpc, 2;
        "http" Http, 2; "js" JS, 2; "link" Link, extra; "modify" Modify, 2; "omit" Omit, 0; "protected" Protected, 1;
    }
    ctx.explore("which directive", "the directive found among up to 4 directives of 4 names", |ch| {
        let names = ["discriminate", "Discriminate", "http", "modify"];
        let l = ch.seq(&names, 0, 4);
        let bad = ch.flag();
        let key = format!("among {l:?}, {}", if bad { "the second one malformed" } else { "all well-formed" });
        ch.note(&key);
        ch.step();
        let ds: Vec<Positioned<ConstDirective>> = l
            .iter()
            .enumerate()
            .map(|(i, n)| pos(directive(n, &[("field".into(), if bad && i == 1 { as_const(&json!(1)) } else { as_const(&json!(format!("f{i}"))) })])))
            .collect();
        let got = Discriminate::from_directives(ds.iter()).to_result();
        match l.iter().position(|n| *n == "discriminate") {
            None => ensure_eq!(got.map_err(|e| e.to_string()), Ok(None), key, "found"),
            Some(1) if bad => ensure!(got.is_err(), key, "a malformed directive was read as {got:?}"),
            Some(i) => {
                let d = got.map_err(|e| crate::engine::Violation { key: key.clone(), msg: e.to_string() })?;
                ensure_eq!(d.map(|d| d.get_field()), Some(format!("f{i}")), key, "the first of that name");
            }
        }
        ensure_eq!(Discriminate { field: None }.get_field(), "type", key, "default field");
        ch.state(key);
        Ok(())
    });
    ctx.explore("names", "the names of 9 directives", |ch| {
        macro_rules! named {
            ($($name:ident $want:literal)*) => {{
                $(#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq)] struct $name { field: Option<String> })*
                let all: Vec<(&str, String, &str)> = vec![$((stringify!($name), $name::directive_name(), $want)),*];
                let at = ch.choose(all.len());
                ch.note(all[at].0);
                ch.step();
                ensure_eq!(all[at].1, all[at].2, all[at].0, "name");
                let d = directive(all[at].2, &[("field".into(), as_const(&json!("x")))]);
                let found = [$($name::from_directives([pos(d.clone())].iter()).to_result().ok().flatten().map(|d| d.to_directive())),*];
                ensure_eq!(found[at].as_ref().map(|d| format!("{d:?}")), Some(format!("{d:?}")), all[at].0, "found and written again");
            }};
        }
        named! { A "a" AB "ab" Ab "ab" ABC "aBC" Abc "abc" Link "link" GraphQLx "graphQLx" X1 "x1" É "é" }
        Ok(())
    });
    ctx.explore("any directive", "a directive of any name with up to 2 arguments of any document of depth ≤1, read and written again", |ch| {
        let name = *ch.pick(&["a", "_b1", "http"]);
        let n = ch.range(0, 2);
        let mut args: Vec<(String, Value)> = vec![];
        for i in 0..n {
            let v = if i == 0 { doc(ch, 1, &all_leaves(), &["a"], 1) } else { ch.pick(&all_leaves()).clone() };
            args.push((["x", "a"][i].to_string(), v));
        }
        let key = format!("@{name}({args:?})");
        ch.note(&key);
        ch.step();
        let c = directive(name, &args.iter().map(|(k, v)| (k.clone(), as_const(v))).collect::<Vec<_>>());
        let d = generic::to_directive(c.clone()).to_result().map_err(|e| crate::engine::Violation { key: key.clone(), msg: e.to_string() })?;
        ensure_eq!(d.name, name, key, "name");
        ensure_eq!(d.arguments.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), args, key, "arguments");
        let back = generic::to_const_directive(&d).to_result().map_err(|e| crate::engine::Violation { key: key.clone(), msg: e.to_string() })?;
        ensure_eq!(format!("{back:?}"), format!("{c:?}"), key, "written again");
        let v = serde_json::to_value(&d).unwrap();
        let mut want = json!({"name": name});
        if !args.is_empty() {
            want["arguments"] = Value::Object(args.iter().cloned().collect());
        }
        ensure_eq!(v, want, key, "as JSON");
        ensure_eq!(serde_json::from_value::<Directive>(v).ok(), Some(d), key, "read from JSON");
        ch.state(key);
        Ok(())
    });
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug)]
struct E {
    message: String,
    description: Option<String>,
    trace: Vec<String>,
    causes: Vec<E>,
}

fn error(ch: &Chooser, depth: usize, wide: usize) -> E {
    let message = ch.pick(&["m", "", "two\nlines", "é: x"][..if depth == 2 { 3 } else { 4 }]).to_string();
    let description = ch.pick(&[None, Some("d"), Some(""), Some("l1\nl2")][..if depth == 2 { 2 } else { 3 }]).map(|d| d.to_string());
    let trace = ch.pick(&[vec![], vec!["a"], vec!["a", "", "b"]][..if depth == 2 { 2 } else { 3 }]).iter().map(|t| t.to_string()).collect();
    let causes = if depth == 0 { vec![] } else { (0..ch.range(0, wide)).map(|_| error(ch, depth - 1, 1)).collect() };
    E { message, description, trace, causes }
}

/// one whose only choice is its message
fn small(ch: &Chooser, depth: usize) -> E {
    let e = E { message: ch.pick(&["m", "", "x\n", "a\n\nb"]).to_string(), description: None, trace: vec![], causes: vec![] };
    if depth == 0 { e } else { E { causes: (0..ch.range(0, 3)).map(|_| small(ch, depth - 1)).collect(), ..e } }
}

fn build(e: &E) -> Errata {
    let mut x = Errata::new(&e.message).trace(e.trace.clone());
    if let Some(d) = &e.description {
        x = x.description(d.clone());
    }
    if e.causes.is_empty() { x } else { x.caused_by(e.causes.iter().map(build).collect()) }
}

/// The text of an error, a line at a time: what it is caused by is indented,
/// the first line of each cause behind a bullet.
fn lines(e: &E, paint: &dyn Fn(&str, &str) -> String, root: bool) -> String {
    let main = if root { "33" } else { "37" };
    let mut s = paint(&e.message, main);
    if let Some(d) = &e.description {
        s += &paint(": ", main);
        s += &paint(d, "37");
    }
    if !e.trace.is_empty() {
        s += &paint(&format!(" [at {}]", e.trace.join(".")), "36");
    }
    if !e.causes.is_empty() {
        s += &format!("\n{}\n", paint("Caused by:", "2"));
        for (i, c) in e.causes.iter().enumerate() {
            if i > 0 {
                s += "\n";
            }
            let text = lines(c, paint, false);
            let mut first = true;
            let mut rest = text.as_str();
            loop {
                let (line, next) = match rest.find('\n') {
                    Some(j) => rest.split_at(j + 1),
                    None => (rest, ""),
                };
                if line.is_empty() && !first {
                    break;
                }
                s += if first { "  • " } else { "    " };
                s += line;
                first = false;
                rest = next;
                if rest.is_empty() {
                    break;
                }
            }
        }
    }
    s
}

fn shown(key: &str, e: &E) -> Outcome {
    let x = build(e);
    ensure_eq!(x.to_string(), lines(e, &|s, _| s.to_string(), true), key, "text");
    let painted = x.clone().color(true).to_string();
    let paint = |s: &str, c: &str| format!("\u{1b}[{c}m{s}\u{1b}[0m");
    ensure_eq!(painted, lines(e, &paint, true), key, "coloured text");
    ensure_eq!(x.clone().color(true).color(false), x, key, "colours taken away again");
    Ok(())
}

#[derive(Debug)]
struct Layer(String, Option<Box<Layer>>);
impl std::fmt::Display for Layer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Layer {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| e as &(dyn std::error::Error + 'static))
    }
}

fn plain(m: impl Into<String>) -> E {
    E { message: m.into(), description: None, trace: vec![], causes: vec![] }
}

fn same(key: &str, got: &Errata, want: &E) -> Outcome {
    ensure_eq!(got.to_string(), lines(want, &|s, _| s.to_string(), true), key, "text");
    ensure_eq!(*got, build(want), key, "error");
    Ok(())
}

fn c24(ctx: &mut Ctx) {
    colored::control::set_override(true);
    let wide = ctx.by(1, 2);
    ctx.explore("shapes", "every error with up to 2 causes (each with up to one of its own), of 3-4 messages, 2-4 descriptions and 2-3 traces", |ch| {
        let e = error(ch, wide, 2);
        let key = format!("error {e:?}");
        ch.note(&key);
        ch.step();
        shown(&key, &e)?;
        ch.state(key);
        Ok(())
    });
    ctx.explore("messages", "trees of up to 3 causes, each with up to 3, of 4 messages", |ch| {
        let mut e = E { causes: (0..ch.range(0, 2)).map(|_| small(ch, 1)).collect(), ..small(ch, 0) };
        if ch.flag() {
            e.causes.insert(0, plain("first"));
        }
        let key = format!("error {e:?}");
        ch.note(&key);
        ch.step();
        shown(&key, &e)
    });
    ctx.explore("deep", "chains of up to 40 causes", |ch| {
        let n = ch.range(1, 40);
        let e = (0..n).fold(plain("a\nb"), |e, i| E { causes: vec![e], ..plain(format!("m{i}\nx")) });
        ch.note(n.to_string());
        ch.step();
        shown(&format!("chain of {n}"), &e)
    });
    ctx.explore("validation errors", "an error of up to 3 causes, each of 3 messages, 3 descriptions and 3 traces", |ch| {
        let causes: Vec<(&str, Option<&str>, Vec<&str>)> =
            (0..ch.range(0, 3)).map(|_| (*ch.pick(&["m", "", "x\ny"]), *ch.pick(&[None, Some("d"), Some("")]), ch.pick(&[vec![], vec!["a"], vec!["a", "b"]]).clone())).collect();
        let how = ch.choose(4);
        let key = format!("validation error {causes:?} by {how}");
        ch.note(&key);
        ch.step();
        let want = E {
            causes: causes.iter().map(|(m, d, t)| E { description: d.map(|d| d.into()), trace: t.iter().map(|t| t.to_string()).collect(), ..plain(*m) }).collect(),
            ..plain("Invalid Configuration")
        };
        let owned = |_: ()| -> ValidationError<String> {
            causes
                .iter()
                .map(|(m, d, t)| {
                    let c = Cause::new(m.to_string()).trace(t.iter().map(|t| t.to_string()).collect::<Vec<_>>());
                    match d {
                        Some(d) => c.description(d.to_string()),
                        None => c,
                    }
                })
                .collect::<Vec<_>>()
                .into()
        };
        match how {
            0 => same(&key, &Errata::from(owned(())), &want),
            1 => same(&key, &Errata::from(anyhow::Error::from(owned(()))), &want),
            2 => {
                let e: ValidationError<&str> = causes
                    .iter()
                    .map(|(m, d, t)| {
                        let c = Cause::new(*m).trace(t.clone());
                        match d {
                            Some(d) => c.description(*d),
                            None => c,
                        }
                    })
                    .collect::<Vec<_>>()
                    .into();
                same(&key, &Errata::from(e), &want)
            }
            _ => same(&key, &Errata::from(anyhow::Error::from(Errata::from(owned(())))), &want),
        }
    });
    ctx.explore("worker and cache", "every error of the worker and the cache with up to 2 of 4 texts: what it says", |ch| {
        use tailcall::core::cache;
        use tailcall::core::worker::Error as W;
        let texts = ["m", "", "é {}", "a\nb"];
        let (x, y) = (*ch.pick(&texts), *ch.pick(&texts));
        let (t, u) = (x.to_string(), y.to_string());
        let json = || serde_json::from_str::<serde_json::Value>(&format!("[{x:?}")).unwrap_err();
        let said = json().to_string();
        ch.step();
        let (got, want): (Box<dyn std::fmt::Display>, String) = match ch.choose(16) {
            0 => (Box::new(W::InitializationFailed), "Failed to initialize worker".into()),
            1 => (Box::new(W::Communication), "Worker communication error".into()),
            2 => (Box::new(W::from(json())), format!("Serde Json Error: {said}")),
            3 => (Box::new(W::RequestCloneFailed), "Request Clone Failed".into()),
            4 => {
                let e = http::HeaderValue::from_bytes(b"\xff").unwrap().to_str().unwrap_err();
                let w = format!("Hyper Header To Str Error: {e}");
                (Box::new(W::from(e)), w)
            }
            5 => (Box::new(W::JsRuntimeStopped), "JS Runtime Stopped Error".into()),
            6 => (Box::new(W::from(t)), format!("CLI Error: {x}")),
            7 => (Box::new(W::RuntimeNotInitialized), "Runtime not initialized".into()),
            8 => (Box::new(W::InvalidFunction(t)), format!("{x} is not a function")),
            9 => (Box::new(W::Rquickjs(t)), format!("Rquickjs error: {x}")),
            10 => (Box::new(W::DeserializeFailed(t)), format!("Deserialize Failed: {x}")),
            11 => (Box::new(W::GlobalThisNotInitialised(t)), format!("globalThis not initialized: {x}")),
            12 => (Box::new(W::FunctionValueParseError(t, u)), format!("Error: {x}\nUnable to parse value from js function: {y} maybe because it's not returning a string?")),
            13 => (Box::new(W::from(anyhow::anyhow!(t))), format!("Error: {x}")),
            14 => (Box::new(cache::error::Error::from(json())), format!("Serde Json Error: {said}")),
            _ => (Box::new(cache::error::Error::Kv(t)), format!("Kv Error: {x}")),
        };
        ch.note(&want);
        ensure_eq!(got.to_string(), want, want.clone(), "text");
        Ok(())
    });
    ctx.explore("other errors", "chains of up to 3 errors of 3 messages, as each kind of error", |ch| {
        let l = ch.seq(&["m", "", "a\nb"], 1, 3);
        let how = ch.choose(5);
        let key = format!("chain {l:?} by {how}");
        ch.note(&key);
        ch.step();
        let top = l.iter().rev().fold(None, |e, m| Some(Box::new(Layer(m.to_string(), e)))).unwrap();
        let first = plain(l[0]);
        match how {
            0 => {
                let causes = l.get(1).map(|m| vec![plain(*m)]).unwrap_or_default();
                same(&key, &Errata::from(anyhow::Error::new(*top)), &E { causes, ..first })
            }
            1 => same(&key, &Errata::from(std::io::Error::new(std::io::ErrorKind::Other, l[0])), &E { description: Some(l[0].into()), ..plain("IO Error") }),
            2 => {
                let e: tailcall::core::Error = tailcall::core::worker::Error::CLI(l[0].into()).into();
                let text = e.to_string();
                same(&key, &Errata::from(e), &E { description: Some(text), ..plain("Core Error") })
            }
            3 => same(&key, &Errata::from(top as Box<dyn std::error::Error>), &first),
            _ => {
                let mut e = anyhow::Error::msg(l[l.len() - 1]);
                for m in l.iter().rev().skip(1) {
                    e = e.context(*m);
                }
                let causes = l.get(1).map(|m| vec![plain(*m)]).unwrap_or_default();
                same(&key, &Errata::from(e), &E { causes, ..first })
            }
        }
    });
}

// ---------------------------------------------------------------- C25

/// how bad an error is: of two, the worse one is reported
fn rank(e: &AuthError) -> (u8, String) {
    match e {
        AuthError::Missing => (0, String::new()),
        AuthError::Parse(s) => (1, s.clone()),
        AuthError::Invalid => (2, String::new()),
    }
}

#[derive(Clone, Debug)]
enum V {
    Leaf(usize),
    Or(Box<V>, Box<V>),
    And(Box<V>, Box<V>),
}

fn verdicts() -> Vec<Option<AuthError>> {
    vec![None, Some(AuthError::Missing), Some(AuthError::Parse("a".into())), Some(AuthError::Parse("b".into())), Some(AuthError::Parse("".into())), Some(AuthError::Invalid)]
}

fn verdict(ch: &Chooser, depth: usize) -> V {
    let n = verdicts().len();
    let k = ch.choose(if depth == 0 { n } else { n + 2 });
    if k < n {
        V::Leaf(k)
    } else {
        let (a, b) = (Box::new(verdict(ch, depth - 1)), Box::new(verdict(ch, depth - 1)));
        if k == n { V::Or(a, b) } else { V::And(a, b) }
    }
}

fn v_real(v: &V) -> Verification {
    match v {
        V::Leaf(i) => match verdicts()[*i].clone() {
            None => Verification::succeed(),
            Some(e) => Verification::fail(e),
        },
        V::Or(a, b) => v_real(a).or(v_real(b)),
        V::And(a, b) => v_real(a).and(v_real(b)),
    }
}

fn v_ref(v: &V) -> Option<AuthError> {
    match v {
        V::Leaf(i) => verdicts()[*i].clone(),
        V::Or(a, b) => match (v_ref(a), v_ref(b)) {
            (Some(a), Some(b)) => Some(if rank(&b) > rank(&a) { b } else { a }),
            _ => None,
        },
        V::And(a, b) => v_ref(a).or(v_ref(b)),
    }
}

fn c25(ctx: &mut Ctx) {
    let depth = ctx.by(2, 2);
    ctx.explore("formulas", "every formula of up to depth 2 of one verdict or, and another, over 6 verdicts", |ch| {
        let v = verdict(ch, depth);
        let key = format!("verdict {v:?}");
        ch.note(&key);
        ch.step();
        let (got, want) = (v_real(&v), v_ref(&v));
        ensure_eq!(got.to_result().err(), want, key, "verdict");
        ensure_eq!(got.to_result().err().map(|e| e.to_string()), want.as_ref().map(|e| match e {
            AuthError::Missing => "Missing Authorization Header".to_string(),
            AuthError::Parse(s) => s.clone(),
            AuthError::Invalid => "Invalid Authorization Header".to_string(),
        }), key, "text");
        for other in 0..verdicts().len() {
            let o = v_real(&V::Leaf(other));
            let folded = got.clone().fold(o.clone(), |e| Verification::fail(AuthError::Parse(format!("saw {e}"))));
            let w = match &want {
                None => o,
                Some(e) => Verification::fail(AuthError::Parse(format!("saw {e}"))),
            };
            ensure_eq!(folded, w, key, "folded");
        }
        let r: Result<i32, &str> = if want.is_none() { Ok(1) } else { Err("no") };
        let from = Verification::from_result(r, |n| if n == 1 { got.clone() } else { Verification::fail(AuthError::Missing) }, |e| Verification::fail(AuthError::Parse(e.into())));
        ensure_eq!(from.to_result().is_ok(), want.is_none(), key, "from a result");
        ch.state(format!("{want:?}"));
        Ok(())
    });
    let n = ctx.by(5, 6);
    ctx.explore("chains", "up to 5 (6) verdicts in a row: any of them, or all of them", |ch| {
        let all: Vec<usize> = (0..verdicts().len()).collect();
        let l = ch.seq(&all, 1, n);
        let and = ch.flag();
        let key = format!("{} of {l:?}", if and { "all" } else { "any" });
        ch.note(&key);
        ch.step();
        let vs: Vec<_> = l.iter().map(|i| verdicts()[*i].clone()).collect();
        let real = l.iter().skip(1).fold(v_real(&V::Leaf(l[0])), |v, i| if and { v.and(v_real(&V::Leaf(*i))) } else { v.or(v_real(&V::Leaf(*i))) });
        let want = if and {
            vs.iter().flatten().next().cloned()
        } else if vs.iter().any(|v| v.is_none()) {
            None
        } else {
            vs.iter().flatten().max_by_key(|e| rank(e)).cloned()
        };
        ensure_eq!(real.to_result().err(), want, key, "verdict");
        Ok(())
    });
}
