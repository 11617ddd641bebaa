//! What is told from how it is written (C26), the definition of the
//! configuration language and of a schema (C27).
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use async_graphql::dynamic::{Enum, EnumItem, Field, FieldFuture, InputValue, Object, Schema as DynSchema, TypeRef};
use async_graphql::parser::types::{DirectiveLocation, TypeKind, TypeSystemDefinition};
use async_graphql_value::{ConstValue, Name};
use schemars::schema::{ArrayValidation, InstanceType, Metadata, ObjectValidation, RootSchema, Schema, SchemaObject, SingleOrVec, SubschemaValidation};
use serde_json::{json, Value};
use tailcall::core::config::*;
use tailcall::core::helpers::headers::to_mustache_headers;
use tailcall::core::helpers::value::HashableConstValue;
use tailcall::core::http::Method;
use tailcall::core::mustache::Mustache;
use tailcall::core::print_schema::print_schema;
use tailcall_typedefs_common::directive_definition::{into_directive_definition, Attrs, DirectiveDefinition};
use tailcall_typedefs_common::input_definition::into_input_definition;
use tailcall_typedefs_common::scalar_definition::into_scalar_definition;
use tailcall_typedefs_common::ServiceDocumentBuilder;
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::gen::doc;
use crate::{ensure, ensure_eq};

pub const C26: Prop = Prop { id: "C26", level: EX, rule: "every name, header and value within the bounds", run: c26, assumptions: &[] };
pub const C27: Prop = Prop { id: "C27", level: EX, rule: "every schema within the bounds", run: c27, assumptions: &["descriptions with runs of blank lines are left out: printing a schema joins them"] };

// ---------------------------------------------------------------- C26

/// what stands behind the last dot of the last name of a path
fn extension(path: &str) -> Option<&str> {
    let name = path.rsplit('/').next().unwrap();
    match name.rfind('.') {
        None | Some(0) => None,
        Some(_) if name == ".." => None,
        Some(i) => Some(&name[i + 1..]),
    }
}

fn hash(v: &ConstValue) -> (u64, u64) {
    let h = HashableConstValue(v.clone());
    let (mut a, mut b) = (DefaultHasher::new(), tailcall_hasher::TailcallHasher::default());
    h.hash(&mut a);
    h.hash(&mut b);
    (a.finish(), b.finish())
}

fn mixed(ch: &Chooser) -> ConstValue {
    match ch.choose(3) {
        0 => ConstValue::from_json(doc(ch, 1, &[json!(null), json!(1), json!("A"), json!(true)], &["a", "b"], 2)).unwrap(),
        1 => ConstValue::Enum(Name::new("A")),
        _ => {
            // an object whose fields come in the other order
            let mut m = indexmap::IndexMap::new();
            for k in ["b", "a"] {
                if ch.flag() {
                    m.insert(Name::new(k), ConstValue::from_json(ch.pick(&[json!(null), json!(1), json!("A")]).clone()).unwrap());
                }
            }
            ConstValue::Object(m)
        }
    }
}

fn c26(ctx: &mut Ctx) {
    ctx.explore("files", "every path of up to 2 of 5 folders, 7 names and 12 endings in 3 spellings", |ch| {
        let dir: String = ch.seq(&["a/", "./", "/", "b.json/", "é/"], 0, 2).concat();
        let stem = *ch.pick(&["x", "", "x.y", "x.json", ".x", "x ", "."]);
        let end = *ch.pick(&["", ".json", ".yml", ".yaml", ".graphql", ".gql", ".js", ".ts", ".md", ".txt", ".jsonx", "."]);
        let end = match ch.choose(3) {
            0 => end.to_string(),
            1 => end.to_uppercase(),
            _ => end.char_indices().map(|(i, c)| if i == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        let path = format!("{dir}{stem}{end}");
        ch.note(&path);
        ch.step();
        if path.ends_with('/') || path.ends_with("/.") || path == "." {
            ch.trivial();
            return Ok(());
        }
        let ext = extension(&path);
        let kind = |e: &str| match e.to_lowercase().as_str() {
            "json" => Some("JSON"),
            "yml" | "yaml" => Some("YML"),
            "graphql" | "gql" => Some("GraphQL"),
            _ => None,
        };
        let got = Source::detect(&path).map(|s| s.to_string()).map_err(|e| e.to_string());
        let want = match ext {
            None => Err("Cannot parse".to_string()),
            Some(e) => kind(e).map(|k| k.to_string()).ok_or(format!("Unsupported config extension: {e}")),
        };
        ensure_eq!(got, want, path, "format");
        if let Ok(s) = Source::detect(&path) {
            ensure_eq!(s.ext().parse::<Source>().unwrap().to_string(), s.to_string(), path, "the extension of the format is read as the format");
        }
        // the formatter looks at what is behind the last dot only
        let last = path.rsplit('.').next().unwrap().to_lowercase();
        let want = match last.as_str() {
            "gql" | "graphql" => Some("Gql"),
            "yml" | "yaml" => Some("Yml"),
            "json" => Some("Json"),
            "md" => Some("Md"),
            "ts" => Some("Ts"),
            "js" => Some("Js"),
            _ => None,
        };
        ensure_eq!(tailcall_prettier::Parser::detect(&path).ok().map(|p| p.to_string()), want.map(|w| w.to_string()), path, "parser");
        ch.state(path);
        Ok(())
    });
    ctx.explore("headers", "up to 3 headers of 12 names and 4 values", |ch| {
        let names = ["a", "X-Foo", "", "a b", "é", "a:b", "authorization", "x_y.z!", "a\n", "0", "A"];
        let l: Vec<(&str, &str)> = (0..ch.range(0, 3)).enumerate().map(|(i, _)| (*ch.pick(&names), if i == 2 { "v" } else { *ch.pick(&["v", "", "{{.headers.x}}", "é {{a.b}} z"]) })).collect();
        let key = format!("headers {l:?}");
        ch.note(&key);
        ch.step();
        let kv: Vec<KeyValue> = l.iter().map(|(k, v)| KeyValue { key: k.to_string(), value: v.to_string() }).collect();
        let ok = |n: &str| !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
        let bad: Vec<String> = l.iter().filter(|(k, _)| !ok(k)).map(|(k, _)| k.to_string()).collect();
        match to_mustache_headers(&kv).to_result() {
            Ok(h) => {
                ensure!(bad.is_empty(), key, "accepted");
                let want: Vec<(String, Mustache)> = l.iter().map(|(k, v)| (k.to_lowercase(), Mustache::parse(v))).collect();
                ensure_eq!(h.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Vec<_>>(), want, key, "headers");
            }
            Err(e) => {
                let got: Vec<String> = e.as_vec().iter().map(|c| c.trace.iter().cloned().collect::<Vec<_>>().join("/")).collect();
                ensure_eq!(got, bad, key, "the headers that are refused");
                ensure!(e.as_vec().iter().all(|c| c.message == "invalid HTTP header name"), key, "{e}");
            }
        }
        ch.state(key);
        Ok(())
    });
    ctx.explore("hashes", "every pair of values of depth ≤1: equal values have equal hashes, whatever the order of their fields", |ch| {
        let (a, b) = (mixed(ch), mixed(ch));
        let key = format!("{a} and {b}");
        ch.note(&key);
        ch.step();
        let eq = HashableConstValue(a.clone()) == HashableConstValue(b.clone());
        ensure_eq!(eq, a == b, key, "equal");
        if eq {
            ensure_eq!(hash(&a), hash(&b), key, "hash");
        } else {
            ch.trivial();
        }
        Ok(())
    });
    ctx.explore("hash collisions", "every pair of texts of up to 3 of 4 characters in each of 4 places: different ones have different hashes", |ch| {
        let texts = |_: ()| ch.seq(&["a", "b", "1", "é"], 0, 3).concat();
        let (a, b) = (texts(()), texts(()));
        let place = ch.choose(4);
        let key = format!("{a:?} and {b:?} at {place}");
        ch.note(&key);
        ch.step();
        let v = |t: &str| {
            ConstValue::from_json(match place {
                0 => json!(t),
                1 => json!([t, 1]),
                2 => json!({ "k": t }),
                _ => json!({ format!("k{t}"): 1 }),
            })
            .unwrap()
        };
        ensure_eq!(hash(&v(&a)).0 == hash(&v(&b)).0, a == b, key, "same hash");
        ensure_eq!(hash(&v(&a)).1 == hash(&v(&b)).1, a == b, key, "same hash of the fast kind");
        Ok(())
    });
    ctx.explore("methods", "every HTTP method", |ch| {
        let m = *ch.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"]);
        ch.note(m);
        ch.step();
        let x: Method = serde_json::from_value(json!(m)).unwrap();
        ensure_eq!(x.to_string(), m, m, "written");
        ensure_eq!(serde_json::to_value(&x).unwrap(), json!(m), m, "written as JSON");
        ensure_eq!(x.clone().to_hyper().as_str(), m, m, "sent");
        ensure_eq!(x == Method::default(), m == "GET", m, "the default");
        ensure!(serde_json::from_value::<Method>(json!(m.to_lowercase())).is_err(), m, "a method in lower case is none");
        Ok(())
    });
    static ENV: Mutex<()> = Mutex::new(());
    ctx.explore("log level", "the level that is logged, for 9 values of each of two settings", |ch| {
        let values = [None, Some("error"), Some("WARN"), Some("Info"), Some("debug"), Some("trace"), Some("off?"), Some(""), Some("3")];
        let (long, short) = (*ch.pick(&values), *ch.pick(&values));
        let key = format!("TAILCALL_LOG_LEVEL={long:?} TC_LOG_LEVEL={short:?}");
        ch.note(&key);
        ch.step();
        let _guard = ENV.lock().unwrap();
        for (n, v) in [("TAILCALL_LOG_LEVEL", long), ("TC_LOG_LEVEL", short)] {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
        let got = tailcall::core::tracing::get_log_level().map(|l| l.to_string());
        std::env::remove_var("TAILCALL_LOG_LEVEL");
        std::env::remove_var("TC_LOG_LEVEL");
        let want = long.or(short).and_then(|v| match v.to_lowercase().as_str() {
            "3" => Some("INFO".to_string()),
            v if ["error", "warn", "info", "debug", "trace"].contains(&v) => Some(v.to_uppercase()),
            _ => None,
        });
        ensure_eq!(got, want, key, "level");
        Ok(())
    });
    ctx.explore("versions", "20 versions: which are of development", |ch| {
        let v = *ch.pick(&["0.1.0-dev", "1.0.0", "", "dev", "1.0.0-dev.3", "1.0.0-rc1", "v2.0.0-devel", "DEV", "1.0-de", "de v"]);
        ch.note(v);
        ch.step();
        let x = tailcall_version::Version::new(v);
        ensure_eq!(x.as_str(), v, v, "text");
        ensure_eq!(x.is_dev(), (0..v.len()).any(|i| v[i..].starts_with("dev")), v, "of development");
        Ok(())
    });
}

// ---------------------------------------------------------------- C27

const INSTANCES: [(InstanceType, &str); 7] = [
    (InstanceType::Null, "Null"),
    (InstanceType::Boolean, "Boolean"),
    (InstanceType::Number, "Number"),
    (InstanceType::String, "String"),
    (InstanceType::Integer, "Int"),
    (InstanceType::Object, ""),
    (InstanceType::Array, ""),
];

fn named(x: &str) -> SchemaObject {
    SchemaObject { reference: Some(format!("#/definitions/{x}")), ..Default::default() }
}

fn described(mut s: SchemaObject, d: Option<&str>) -> SchemaObject {
    s.metadata = d.map(|d| Box::new(Metadata { description: Some(d.into()), ..Default::default() }));
    s
}

fn one(t: InstanceType) -> SchemaObject {
    SchemaObject { instance_type: Some(SingleOrVec::Single(Box::new(t))), ..Default::default() }
}

fn object(fields: Vec<(&str, SchemaObject, bool)>) -> SchemaObject {
    let mut o = ObjectValidation::default();
    for (n, s, required) in fields {
        o.properties.insert(n.into(), Schema::Object(s));
        if required {
            o.required.insert(n.into());
        }
    }
    SchemaObject { object: Some(Box::new(o)), ..one(InstanceType::Object) }
}

/// A schema of an argument, and the type it is given: where `required` (or
/// `is a member of a list`) makes a difference the type ends in `*`.
fn shape(ch: &Chooser, name: &str, depth: usize) -> (SchemaObject, String) {
    let upper: String = name.chars().take(1).flat_map(|c| c.to_uppercase()).chain(name.chars().skip(1)).collect();
    match ch.choose(if depth == 0 { 7 } else { 11 }) {
        0 => {
            let (t, n) = INSTANCES[ch.choose(5)];
            (one(t), format!("{n}*"))
        }
        1 => {
            // a type or null
            let (t, n) = INSTANCES[ch.range(1, 4)];
            (SchemaObject { instance_type: Some(SingleOrVec::Vec(vec![t, InstanceType::Null])), ..Default::default() }, format!("{n}*"))
        }
        2 => (named("thing"), "Thing".into()),
        3 => {
            let list = Some(vec![Schema::Object(named("other_Thing")), Schema::Object(one(InstanceType::Null))]);
            let mut s = SubschemaValidation::default();
            match ch.choose(3) {
                0 => s.any_of = list,
                1 => s.all_of = list,
                _ => s.one_of = list,
            }
            (SchemaObject { subschemas: Some(Box::new(s)), ..Default::default() }, "Other_Thing".into())
        }
        4 => (SchemaObject::default(), "JSON".into()),
        5 => (object(vec![]), "JSON".into()),
        6 => (object(vec![("x", one(InstanceType::String), true)]), upper),
        7 => {
            let (s, t) = shape(ch, name, depth - 1);
            (SchemaObject { array: Some(Box::new(ArrayValidation { items: Some(SingleOrVec::Single(Box::new(Schema::Object(s)))), ..Default::default() })), ..one(InstanceType::Array) }, format!("[{}]", t.replace('*', "!")))
        }
        8 => {
            let (s, t) = shape(ch, name, depth - 1);
            let a = ArrayValidation { items: Some(SingleOrVec::Vec(vec![Schema::Object(s), Schema::Object(one(InstanceType::Null))])), ..Default::default() };
            (SchemaObject { array: Some(Box::new(a)), instance_type: Some(SingleOrVec::Vec(vec![InstanceType::Array, InstanceType::Null])), ..Default::default() }, format!("[{}]", t.replace('*', "!")))
        }
        9 => (SchemaObject { array: Some(Box::default()), ..one(InstanceType::Array) }, "JSON".into()),
        _ => (SchemaObject { subschemas: Some(Box::default()), ..Default::default() }, "JSON".into()),
    }
}

type Arg = (String, String, Option<String>);

fn args_of(l: &[async_graphql::Positioned<async_graphql::parser::types::InputValueDefinition>]) -> Result<Vec<Arg>, String> {
    let mut out = vec![];
    for a in l {
        if a.node.default_value.is_some() || !a.node.directives.is_empty() {
            return Err(format!("{:?}", a.node));
        }
        out.push((a.node.name.node.to_string(), a.node.ty.node.to_string(), a.node.description.as_ref().map(|d| d.node.clone())));
    }
    Ok(out)
}

/// a definition as: name, description, what it is
fn plain(d: &TypeSystemDefinition) -> Result<(String, Option<String>, String), String> {
    match d {
        TypeSystemDefinition::Type(t) => {
            let t = &t.node;
            if t.extend || !t.directives.is_empty() {
                return Err(format!("{t:?}"));
            }
            let what = match &t.kind {
                TypeKind::Enum(e) => format!("enum {:?}", e.values.iter().map(|v| (v.node.value.node.to_string(), v.node.description.as_ref().map(|d| d.node.clone()))).collect::<Vec<_>>()),
                TypeKind::InputObject(i) => format!("input {:?}", args_of(&i.fields)?),
                TypeKind::Scalar => "scalar".into(),
                k => return Err(format!("{k:?}")),
            };
            Ok((t.name.node.to_string(), t.description.as_ref().map(|d| d.node.clone()), what))
        }
        TypeSystemDefinition::Directive(d) => {
            let d = &d.node;
            Ok((d.name.node.to_string(), d.description.as_ref().map(|d| d.node.clone()), format!("directive {} {:?} {:?}", d.is_repeatable, d.locations.iter().map(|l| location(&l.node)).collect::<Vec<_>>(), args_of(&d.arguments)?)))
        }
        d => Err(format!("{d:?}")),
    }
}

fn location(l: &DirectiveLocation) -> &'static str {
    match l {
        DirectiveLocation::Schema => "Schema",
        DirectiveLocation::Object => "Object",
        DirectiveLocation::FieldDefinition => "FieldDefinition",
        DirectiveLocation::EnumValue => "EnumValue",
        _ => "another",
    }
}

fn bad(key: &str, e: impl ToString) -> crate::engine::Violation {
    crate::engine::Violation { key: key.into(), msg: e.to_string() }
}

/// up to `n` fields: the schema, and the arguments it stands for
fn fields(ch: &Chooser, n: usize, depth: usize) -> (SchemaObject, Vec<Arg>) {
    let (mut props, mut want) = (vec![], vec![]);
    for name in ["alpha", "b_c", "X"].into_iter().take(n) {
        if !ch.flag() {
            continue;
        }
        let (s, t) = shape(ch, name, depth);
        let required = ch.flag();
        let d = *ch.pick(&[None, Some("about it")]);
        props.push((name, described(s, d), required));
        want.push((name.to_string(), t.replace('*', if required { "!" } else { "" }), d.map(|d| d.to_string())));
    }
    want.sort();
    (object(props), want)
}

fn enumeration(ch: &Chooser) -> (SchemaObject, String) {
    let values = ch.seq(&["A", "b_1", "C"], 1, 2);
    if ch.flag() {
        let s = SchemaObject { enum_values: Some(values.iter().map(|v| json!(v)).collect()), ..one(InstanceType::String) };
        (s, format!("enum {:?}", values.iter().map(|v| (v.to_string(), None::<String>)).collect::<Vec<_>>()))
    } else {
        // every value with a description of its own
        let each = |i: usize, v: &str| described(SchemaObject { enum_values: Some(vec![json!(v)]), ..one(InstanceType::String) }, (i == 0).then_some("first"));
        let list = values.iter().enumerate().map(|(i, v)| Schema::Object(each(i, v))).collect();
        let s = SchemaObject { subschemas: Some(Box::new(SubschemaValidation { one_of: Some(list), ..Default::default() })), ..Default::default() };
        (s, format!("enum {:?}", values.iter().enumerate().map(|(i, v)| (v.to_string(), (i == 0).then_some("first".to_string()))).collect::<Vec<_>>()))
    }
}

/// name, repeatable, locations, and for each argument whether it must be
/// given and its type
type Definition = (&'static str, bool, &'static str, &'static str);

const DIRECTIVES: [Definition; 17] = [
    ("addField", true, "Object", "name: String!, path: [String!]"),
    ("alias", false, "EnumValue", "options: [String!]"),
    ("cache", false, "Object FieldDefinition", "maxAge: Int!"),
    ("call", true, "FieldDefinition Object", "dedupe: Boolean, steps: [Step]"),
    ("discriminate", false, "FieldDefinition", "field: String"),
    ("expr", true, "FieldDefinition Object", "body: JSON"),
    ("graphQL", true, "FieldDefinition Object", "args: [KeyValue], batch: Boolean, dedupe: Boolean, headers: [KeyValue], name: String!, url: String!"),
    ("grpc", true, "FieldDefinition Object", "batchKey: [String!], body: JSON, dedupe: Boolean, headers: [KeyValue], method: String!, onResponseBody: String, select: JSON, url: String!"),
    (
        "http",
        true,
        "FieldDefinition Object",
        "batchKey: [String!], body: JSON, dedupe: Boolean, encoding: Encoding, headers: [KeyValue], input: Schema, method: Method, onRequest: String, onResponseBody: String, output: Schema, query: [URLQuery], select: JSON, url: String!",
    ),
    ("js", true, "FieldDefinition Object", "name: String!"),
    ("link", true, "Schema", "headers: [KeyValue], id: String, meta: JSON, proto_paths: [String!], src: String, type: LinkType"),
    ("modify", false, "FieldDefinition", "name: String, omit: Boolean"),
    ("omit", false, "FieldDefinition", ""),
    ("protected", false, "Object FieldDefinition", "id: [String!]"),
    ("server", false, "Schema", "apolloTracing: Boolean, batchRequests: Boolean, enableFederation: Boolean, globalResponseTimeout: Int, headers: Headers, hostname: String, introspection: Boolean, pipelineFlush: Boolean, port: Int, queryValidation: Boolean, responseValidation: Boolean, routes: Routes, script: ScriptOptions, showcase: Boolean, vars: [KeyValue], version: HttpVersion, workers: Int"),
    ("telemetry", false, "Schema", "export: TelemetryExporter, requestHeaders: [String!]"),
    ("upstream", false, "Schema", "allowedHeaders: [String!], batch: Batch, connectTimeout: Int, http2Only: Boolean, httpCache: Int, keepAliveInterval: Int, keepAliveTimeout: Int, keepAliveWhileIdle: Boolean, onRequest: String, poolIdleTimeout: Int, poolMaxIdlePerHost: Int, proxy: Proxy, tcpKeepAlive: Int, timeout: Int, userAgent: String, verifySSL: Boolean"),
];

fn definitions(name: &str, seen: &mut HashSet<String>) -> Vec<TypeSystemDefinition> {
    match name {
        "addField" => AddField::directive_definition(seen),
        "alias" => Alias::directive_definition(seen),
        "cache" => Cache::directive_definition(seen),
        "call" => Call::directive_definition(seen),
        "discriminate" => Discriminate::directive_definition(seen),
        "expr" => Expr::directive_definition(seen),
        "graphQL" => GraphQL::directive_definition(seen),
        "grpc" => Grpc::directive_definition(seen),
        "http" => Http::directive_definition(seen),
        "js" => JS::directive_definition(seen),
        "link" => Link::directive_definition(seen),
        "modify" => Modify::directive_definition(seen),
        "omit" => Omit::directive_definition(seen),
        "protected" => Protected::directive_definition(seen),
        "server" => Server::directive_definition(seen),
        "telemetry" => Telemetry::directive_definition(seen),
        _ => Upstream::directive_definition(seen),
    }
}

fn c27(ctx: &mut Ctx) {
    let depth = ctx.by(1, 2);
    ctx.explore("arguments", "every input type of up to 2 fields of 11 shapes (lists up to depth 1 (2)), required or not, described or not", |ch| {
        let (s, want) = fields(ch, 2, depth);
        let d = *ch.pick(&[None, Some("the input")]);
        let key = format!("fields {want:?}");
        ch.note(&key);
        ch.step();
        let got = plain(&into_input_definition(described(s.clone(), d), "In")).map_err(|e| bad(&key, e))?;
        ensure_eq!(got, ("In".to_string(), d.map(|d| d.to_string()), format!("input {want:?}")), key, "definition");
        ch.state(key);
        Ok(())
    });
    ctx.explore("alternatives", "an input that is any, all or one of up to 2 inputs", |ch| {
        let (a, wa) = fields(ch, 1, 0);
        let (b, wb) = fields(ch, 1, 0);
        let list = Some(vec![Schema::Object(a), Schema::Object(b)]);
        let mut s = SubschemaValidation::default();
        match ch.choose(3) {
            0 => s.any_of = list,
            1 => s.all_of = list,
            _ => s.one_of = list,
        }
        let key = format!("fields {wa:?} or {wb:?}");
        ch.note(&key);
        ch.step();
        let want: Vec<Arg> = wa.into_iter().chain(wb).collect();
        let got = plain(&into_input_definition(SchemaObject { subschemas: Some(Box::new(s)), ..Default::default() }, "In")).map_err(|e| bad(&key, e))?;
        ensure_eq!(got.2, format!("input {want:?}"), key, "definition");
        Ok(())
    });
    let wide = ctx.thorough();
    ctx.explore("directives", "every directive of up to 2 arguments, in 4 kinds of places, with up to 2 definitions that are enums or inputs, of which one may be known already", |ch| {
        let (s, want) = if wide {
            fields(ch, 1, 0)
        } else {
            match ch.choose(3) {
                0 => (object(vec![]), vec![]),
                1 => (object(vec![("alpha", one(InstanceType::String), true)]), vec![("alpha".to_string(), "String!".to_string(), None)]),
                _ => (object(vec![("X", described(named("thing"), Some("t")), false)]), vec![("X".to_string(), "Thing".to_string(), Some("t".to_string()))]),
            }
        };
        let places = if wide {
            ch.seq(&["Schema", "Object", "FieldDefinition", "EnumValue"], 0, 2)
        } else {
            ch.pick(&[vec![], vec!["Schema"], vec!["EnumValue"], vec!["Object", "FieldDefinition"], vec!["FieldDefinition", "Object"]]).clone()
        };
        let name = *ch.pick(&["JS", "AddField", "x"]);
        let attrs = Attrs { name, repeatable: ch.flag(), locations: places.clone(), is_lowercase_name: ch.flag() };
        let mut root = RootSchema { schema: described(s, Some("d")), ..Default::default() };
        let mut wanted: Vec<(String, Option<String>, String)> = vec![];
        let known = *ch.pick(&["", "Alpha", "Beta"]);
        let mut seen: HashSet<String> = [known.to_string()].into();
        for n in ["Alpha", "Beta"] {
            match ch.choose(3) {
                0 => continue,
                1 => {
                    let (e, w) = if n == "Alpha" { enumeration(ch) } else { (SchemaObject { enum_values: Some(vec![json!("A")]), ..one(InstanceType::String) }, format!("enum {:?}", [("A", None::<String>)])) };
                    root.definitions.insert(n.into(), Schema::Object(described(e, Some("e"))));
                    if n != known {
                        wanted.push((n.into(), Some("e".into()), w));
                    }
                }
                _ => {
                    let i = object(vec![("f", one(InstanceType::Integer), true)]);
                    root.definitions.insert(n.into(), Schema::Object(i));
                    if n != known {
                        wanted.push((n.into(), None, format!("input {:?}", [("f", "Int!", None::<String>)])));
                    }
                }
            }
        }
        let written = if attrs.is_lowercase_name {
            name.to_lowercase()
        } else {
            name[..1].to_lowercase() + &name[1..]
        };
        let mut names: BTreeSet<String> = root.definitions.keys().cloned().collect();
        names.insert(known.to_string());
        wanted.push((written, Some("d".into()), format!("directive {} {places:?} {want:?}", attrs.repeatable)));
        let key = format!("{wanted:?}, {known:?} known");
        ch.note(&key);
        ch.step();
        let got = into_directive_definition(root.clone(), attrs.clone(), &mut seen);
        let plainly: Result<Vec<_>, _> = got.iter().map(plain).collect();
        ensure_eq!(plainly.map_err(|e| bad(&key, e))?, wanted, key, "definitions");
        ensure_eq!(seen.iter().cloned().collect::<BTreeSet<_>>(), names, key, "what is known afterwards");
        // a second directive with the same definitions brings only itself
        let again = into_directive_definition(root, attrs, &mut seen);
        ensure_eq!(again.len(), 1, key, "definitions of a second directive");
        let all = ServiceDocumentBuilder::new().add_directive(got).add_directive(again).add_scalar(into_scalar_definition(Schema::Object(described(one(InstanceType::String), Some("s"))), "Sc")).build();
        ensure_eq!(all.definitions.len(), wanted.len() + 2, key, "definitions in all");
        ensure_eq!(plain(all.definitions.last().unwrap()).map_err(|e| bad(&key, e))?, ("Sc".to_string(), Some("s".to_string()), "scalar".to_string()), key, "a scalar");
        ch.state(key);
        Ok(())
    });
    ctx.explore("the language", "every directive of the configuration language, alone and after another: its name, its places, its arguments and their types; every definition it needs is there", |ch| {
        let (name, repeatable, places, args) = *ch.pick(&DIRECTIVES);
        let before = *ch.pick(&DIRECTIVES);
        ch.note(format!("@{name} after @{}", before.0));
        ch.step();
        let mut seen = HashSet::new();
        let mut all = definitions(before.0, &mut seen);
        all.extend(definitions(name, &mut seen));
        let got = plain(all.last().unwrap()).map_err(|e| bad(name, e))?;
        ensure_eq!(got.0, name, name, "name");
        let mut w: Vec<&str> = args.split(", ").filter(|a| !a.is_empty()).collect();
        w.sort();
        let TypeSystemDefinition::Directive(d) = all.last().unwrap() else { return crate::engine::fail(name, "no directive") };
        let mut g: Vec<String> = d.node.arguments.iter().map(|a| format!("{}: {}", a.node.name.node, a.node.ty.node)).collect();
        g.sort();
        ensure_eq!(g, w, format!("@{name}"), "arguments");
        ensure_eq!(d.node.is_repeatable, repeatable, format!("@{name}"), "repeatable");
        ensure_eq!(d.node.locations.iter().map(|l| location(&l.node)).collect::<Vec<_>>().join(" "), places, format!("@{name}"), "places");
        let mut counts: BTreeMap<String, usize> = BTreeMap::new();
        for d in &all {
            let p = plain(d).map_err(|e| bad(name, e))?;
            if !p.2.starts_with("directive") {
                *counts.entry(p.0).or_default() += 1;
            }
        }
        ensure!(counts.values().all(|n| *n == 1), format!("@{name} after @{}", before.0), "a type is defined twice: {counts:?}");
        let known = ["String", "Int", "Boolean", "JSON", "Number", "Float"];
        for d in &all {
            let args = match d {
                TypeSystemDefinition::Directive(d) => args_of(&d.node.arguments),
                TypeSystemDefinition::Type(t) => match &t.node.kind {
                    TypeKind::InputObject(i) => args_of(&i.fields),
                    _ => Ok(vec![]),
                },
                _ => Ok(vec![]),
            };
            for (a, t, _) in args.map_err(|e| bad(name, e))? {
                let base: String = t.chars().filter(|c| !"[]!".contains(*c)).collect();
                ensure!(known.contains(&base.as_str()) || counts.contains_key(&base), format!("@{name} {a}: {t}"), "the type of an argument is not defined");
            }
        }
        Ok(())
    });
    ctx.explore("printed schemas", "schemas of up to 2 objects of up to 2 fields with up to 1 argument, and an enum, each described or not", |ch| {
        let mut want: BTreeMap<String, (Option<String>, BTreeMap<String, String>)> = BTreeMap::new();
        let descriptions = [None, Some("one line"), Some("two\nlines"), Some("with \"quotes\""), Some("a\ttab\tor two")];
        let mut objects = vec![];
        let types = ["Int", "[A!]!", "Color"];
        let n = ch.range(1, 2);
        for (i, name) in ["Query", "A"].into_iter().enumerate() {
            let d = if i < n { *ch.pick(&descriptions) } else { None };
            let mut o = Object::new(name);
            if let Some(d) = d {
                o = o.description(d);
            }
            let mut fields = BTreeMap::new();
            for f in ["z", "b_1"] {
                if f == "b_1" && (i > 0 || !ch.flag()) {
                    continue;
                }
                let t = if i == 0 { *ch.pick(&types) } else { "Int" };
                let ty = match t {
                    "Int" => TypeRef::named("Int"),
                    "Color" => TypeRef::named("Color"),
                    _ => TypeRef::named_nn_list_nn("A"),
                };
                let mut field = Field::new(f, ty, |_| FieldFuture::new(async { Ok(None::<Value>.map(|_| async_graphql::dynamic::FieldValue::NULL)) }));
                let fd = if i == 0 && f == "z" { *ch.pick(&descriptions) } else { None };
                if let Some(d) = fd {
                    field = field.description(d);
                }
                let arg = ch.flag();
                if arg {
                    field = field.argument(InputValue::new("arg", TypeRef::named_nn("String")));
                }
                fields.insert(f.to_string(), format!("{}: {t} {:?}", if arg { "(arg: String!)" } else { "" }, fd.map(|d| d.replace('\t', "  "))));
                o = o.field(field);
            }
            want.insert(name.to_string(), (d.map(|d| d.replace('\t', "  ")), fields));
            objects.push(o);
        }
        let key = format!("{want:?}");
        ch.note(&key);
        ch.step();
        let mut b = DynSchema::build("Query", None, None).register(Enum::new("Color").item(EnumItem::new("RED")).item(EnumItem::new("BLUE")));
        for o in objects {
            b = b.register(o);
        }
        let text = print_schema(b.finish().map_err(|e| bad(&key, e))?);
        ensure!(!text.lines().any(|l| l.starts_with('\t')), key, "a tab in {text}");
        ensure!(!text.contains("\n\n\n"), key, "two blank lines in {text}");
        ensure_eq!(text.trim(), text, key, "blanks around it");
        let doc = async_graphql::parser::parse_schema(&text).map_err(|e| bad(&key, e))?;
        let mut got = BTreeMap::new();
        let mut colors = vec![];
        for d in &doc.definitions {
            match d {
                TypeSystemDefinition::Type(t) => match &t.node.kind {
                    TypeKind::Object(o) => {
                        let mut fields = BTreeMap::new();
                        for f in &o.fields {
                            let a = args_of(&f.node.arguments).map_err(|e| bad(&key, e))?;
                            let a = a.iter().map(|(n, t, _)| format!("({n}: {t})")).collect::<String>();
                            // (a tab may be printed as two blanks)
                            fields.insert(f.node.name.node.to_string(), format!("{a}: {} {:?}", f.node.ty.node, f.node.description.as_ref().map(|d| d.node.replace('\t', "  "))));
                        }
                        got.insert(t.node.name.node.to_string(), (t.node.description.as_ref().map(|d| d.node.replace('\t', "  ")), fields));
                    }
                    TypeKind::Enum(e) => colors.extend(e.values.iter().map(|v| v.node.value.node.to_string())),
                    k => return crate::engine::fail(key, format!("{k:?}")),
                },
                TypeSystemDefinition::Directive(d) => ensure!(!["skip", "include"].contains(&d.node.name.node.as_str()), key, "a built-in directive is printed"),
                TypeSystemDefinition::Schema(s) => ensure_eq!(s.node.query.as_ref().map(|q| q.node.to_string()), Some("Query".to_string()), key, "query root"),
            }
        }
        ensure_eq!(got, want, key, "types");
        colors.sort();
        ensure_eq!(colors, ["BLUE", "RED"], key, "enum");
        ch.state(key);
        Ok(())
    });
    let _: Outcome = Ok(());
}
