//! Scalars (C19), types (C20), generated names (C21).
use std::collections::BTreeSet;

use async_graphql::dynamic::TypeRef;
use async_graphql::parser::types::{BaseType, Type as GqlType, TypeKind, TypeSystemDefinition};
use async_graphql_value::ConstValue;
use prost_reflect::prost_types::source_code_info::Location;
use prost_reflect::prost_types::SourceCodeInfo;
use schemars::schema::{InstanceType, Schema};
use serde_json::{json, Value};
use strum::IntoEnumIterator;
use tailcall::core::generator::NameGenerator;
use tailcall::core::helpers::gql_type::{detect_gql_data_type, is_primitive, is_valid_field_name, to_gql_type};
use tailcall::core::scalar::Scalar;
use tailcall::core::vp_hooks::export::generator::{CommentsBuilder, GraphQLType, PathBuilder, PathField};
use tailcall::core::Type;

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::gen::{all_leaves, doc};
use crate::{ensure, ensure_eq};

pub const C19: Prop = Prop { id: "C19", level: EX, rule: "every scalar with every value within the bounds", run: c19, assumptions: &["E-mail addresses, phone numbers and URLs: a table of clear cases, each with one change at a time"] };
pub const C20: Prop = Prop { id: "C20", level: EX, rule: "every type of up to 6 (8) wrappings", run: c20, assumptions: &[] };
pub const C21: Prop = Prop { id: "C21", level: EX, rule: "every text and name of up to the stated number of pieces", run: c21, assumptions: &[] };

// ---------------------------------------------------------------- C19

const SCALARS: [(&str, InstanceType, &str); 18] = [
    ("Empty", InstanceType::Null, "Empty scalar type represents an empty value."),
    ("Email", InstanceType::String, "Field whose value conforms to the standard internet email address format as specified in HTML Spec: https://html.spec.whatwg.org/multipage/input.html#valid-e-mail-address."),
    ("PhoneNumber", InstanceType::String, "Field whose value conforms to the standard E.164 format as specified in E.164 specification (https://en.wikipedia.org/wiki/E.164)."),
    ("Date", InstanceType::String, "Field whose value conforms to the standard date format as specified in RFC 3339 (https://datatracker.ietf.org/doc/html/rfc3339)."),
    ("DateTime", InstanceType::String, "Field whose value conforms to the standard datetime format as specified in RFC 3339 (https://datatracker.ietf.org/doc/html/rfc3339\")."),
    ("Url", InstanceType::String, "Field whose value conforms to the standard URL format as specified in RFC 3986 (https://datatracker.ietf.org/doc/html/rfc3986)."),
    ("JSON", InstanceType::Object, "Field whose value conforms to the standard JSON format as specified in RFC 8259 (https://datatracker.ietf.org/doc/html/rfc8259)."),
    ("Int8", InstanceType::Integer, "Field whose value is an 8-bit signed integer."),
    ("Int16", InstanceType::Integer, "Field whose value is a 16-bit signed integer."),
    ("Int32", InstanceType::Integer, "Field whose value is a 32-bit signed integer."),
    ("Int64", InstanceType::Integer, "Field whose value is a 64-bit signed integer."),
    ("Int128", InstanceType::Integer, "Field whose value is a 128-bit signed integer."),
    ("UInt8", InstanceType::Integer, "Field whose value is an 8-bit unsigned integer."),
    ("UInt16", InstanceType::Integer, "Field whose value is a 16-bit unsigned integer."),
    ("UInt32", InstanceType::Integer, "Field whose value is a 32-bit unsigned integer."),
    ("UInt64", InstanceType::Integer, "Field whose value is a 64-bit unsigned integer."),
    ("UInt128", InstanceType::Integer, "Field whose value is a 128-bit unsigned integer."),
    ("Bytes", InstanceType::String, "Field whose value is a sequence of bytes."),
];

/// the range of a scalar of integers, and whether they are written as texts
fn range(name: &str) -> Option<(&'static str, &'static str, bool)> {
    Some(match name {
        "Int8" => ("128", "127", false),
        "Int16" => ("32768", "32767", false),
        "Int32" => ("2147483648", "2147483647", false),
        "UInt8" => ("", "255", false),
        "UInt16" => ("", "65535", false),
        "UInt32" => ("", "4294967295", false),
        "Int64" => ("9223372036854775808", "9223372036854775807", true),
        "UInt64" => ("", "18446744073709551615", true),
        "Int128" => ("170141183460469231731687303715884105728", "170141183460469231731687303715884105727", true),
        "UInt128" => ("", "340282366920938463463374607431768211455", true),
        _ => return None,
    })
}

/// whether a text is a decimal integer within a range, on digits only
fn within(text: &str, range: (&str, &str, bool)) -> bool {
    let (negative, digits) = match text.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, text),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    let digits = digits.trim_start_matches('0');
    let bound = if negative { range.0 } else { range.1 };
    digits.len() < bound.len() || digits.len() == bound.len() && digits <= bound
}

/// whether the scalar takes the value: None where it is not for us to say
fn takes(name: &str, v: &Value) -> Option<bool> {
    if name == "JSON" || name == "Empty" {
        return Some(true);
    }
    if let Some(r) = range(name) {
        return Some(match v {
            Value::String(s) if r.2 => within(s, r),
            Value::Number(n) if !r.2 => !n.is_f64() && within(&n.to_string(), r),
            _ => false,
        });
    }
    match v {
        Value::String(_) if name == "Bytes" => Some(true),
        Value::String(_) => None,
        _ => Some(false),
    }
}

fn verdicts(scalar: &Scalar, v: &Value) -> [bool; 3] {
    let text = serde_json::to_string(v).unwrap();
    let borrowed: serde_json_borrow::Value = serde_json::from_str(&text).unwrap();
    [scalar.validate(v), scalar.validate(&ConstValue::from_json(v.clone()).unwrap()), scalar.validate(&borrowed)]
}

fn judge(ch: &Chooser, name: &str, v: &Value, want: bool) -> Outcome {
    let key = format!("{name} of {v}");
    ch.note(&key);
    ch.step();
    let got = verdicts(Scalar::find(name).unwrap(), v);
    ensure_eq!(got, [want; 3], key, "taken (as JSON, as a GraphQL value, as borrowed JSON)");
    ch.state((name, v.to_string()));
    Ok(())
}

fn days(y: i32, m: i32) -> i32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn c19(ctx: &mut Ctx) {
    ctx.explore("names", "the 18 scalars, the five of GraphQL, and 100 other names", |ch| {
        let known: Vec<&str> = SCALARS.iter().map(|s| s.0).chain(["Boolean", "Float", "ID", "Int", "String"]).collect();
        let base = *ch.pick(&known);
        let name = match ch.choose(8) {
            0 => base.to_string(),
            1 => base.to_lowercase(),
            2 => base.to_uppercase(),
            3 => format!("{base} "),
            4 => format!("{base}1"),
            5 => base[..base.len() - 1].to_string(),
            6 => format!("U{base}"),
            _ => String::new(),
        };
        let key = format!("name {name:?}");
        ch.note(&key);
        ch.step();
        let custom = SCALARS.iter().find(|s| s.0 == name);
        ensure_eq!(Scalar::is_predefined(&name), known.contains(&name.as_str()), key, "predefined");
        ensure_eq!(Scalar::find(&name).map(|s| s.name()), custom.map(|s| s.0.to_string()), key, "found");
        if let (Some(s), Some((_, ty, doc))) = (Scalar::find(&name), custom) {
            ensure_eq!(s.ty(), *ty, key, "kind of JSON");
            ensure_eq!(s.doc(), doc.to_string(), key, "description");
            let Schema::Object(o) = s.schema() else { return crate::engine::fail(key, "not an object") };
            let m = o.metadata.unwrap_or_default();
            ensure_eq!((m.title, m.description), (Some(name.clone()), Some(doc.to_string())), key, "title and description");
            let TypeSystemDefinition::Type(t) = s.scalar_definition() else { return crate::engine::fail(key, "not a type") };
            ensure!(matches!(t.node.kind, TypeKind::Scalar), key, "{:?}", t.node.kind);
            ensure_eq!(t.node.name.node.as_str(), name, key, "name of the definition");
            ensure_eq!(t.node.description.as_ref().map(|d| d.node.clone()), Some(doc.to_string()), key, "description of the definition");
            ensure!(t.node.directives.is_empty() && !t.node.extend, key, "bare definition");
        }
        ch.state(name);
        Ok(())
    });
    ctx.explore("every scalar", "the scalars there are", |ch| {
        ch.step();
        let all: BTreeSet<String> = Scalar::iter().map(|s| s.name()).collect();
        let want: BTreeSet<String> = SCALARS.iter().map(|s| s.0.to_string()).collect();
        ensure_eq!(all, want, "the set of scalars", "scalars");
        Ok(())
    });
    ctx.explore("documents", "every scalar with every document of depth ≤1 over 23 leaves", |ch| {
        let name = ch.pick(&SCALARS).0;
        let v = doc(ch, 1, &all_leaves(), &["a"], 1);
        match takes(name, &v) {
            Some(want) => judge(ch, name, &v, want),
            None => {
                let key = format!("{name} of {v}");
                ch.note(&key);
                ch.step();
                let got = verdicts(Scalar::find(name).unwrap(), &v);
                ensure_eq!(got, [got[0]; 3], key, "the representations agree");
                Ok(())
            }
        }
    });
    ctx.explore("integers", "every scalar with the numbers at and around every bound, as numbers and as texts, with up to two characters in front or behind", |ch| {
        let name = ch.pick(&SCALARS).0;
        let bound = SCALARS[ch.range(7, 16)].0;
        let r = range(bound).unwrap();
        let base: i128 = if ch.flag() { if r.0.is_empty() { 0 } else { 0i128.saturating_sub_unsigned(r.0.parse::<u128>().unwrap()) } } else { r.1.parse::<u128>().unwrap().min(i128::MAX as u128) as i128 };
        let n = match ch.choose(5) {
            0 => base.checked_sub(1),
            1 => Some(base),
            2 => base.checked_add(1),
            3 => base.checked_mul(10),
            _ => base.checked_add(256),
        };
        let mut text = match n {
            Some(n) => n.to_string(),
            None if base < 0 => "-170141183460469231731687303715884105729".to_string(),
            None => "170141183460469231731687303715884105728".to_string(),
        };
        if bound == "UInt128" && base == i128::MAX {
            text = ch.pick(&["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "3402823669209384634633746074317682114550"]).to_string();
        }
        if ch.flag() {
            let number = match text.parse::<i64>().map(Value::from) {
                Ok(n) => n,
                Err(_) => match text.parse::<u64>() {
                    Ok(n) => json!(n),
                    Err(_) => json!(text.parse::<f64>().unwrap()),
                },
            };
            match takes(name, &number) {
                Some(want) => judge(ch, name, &number, want),
                None => Ok(ch.trivial()),
            }
        } else {
            let front = *ch.pick(&["", "0", "00", " ", "--", "x"]);
            let back = *ch.pick(&["", " ", ".0", "e0", "_", "0", ","]);
            let text = match text.strip_prefix('-') {
                Some(d) if front.starts_with('0') => format!("-{front}{d}{back}"),
                _ => format!("{front}{text}{back}"),
            };
            if text == "-0" || text.starts_with("-0") && !text.contains(['1', '2', '3', '4', '5', '6', '7', '8', '9']) {
                return Ok(ch.trivial());
            }
            match takes(name, &json!(text)) {
                Some(want) => judge(ch, name, &json!(text), want),
                None => Ok(ch.trivial()),
            }
        }
    });
    ctx.explore("dates", "dates and times put together from parts, each within and outside its range", |ch| {
        let name = *ch.pick(&["Date", "DateTime"]);
        let y = *ch.pick(&[1900, 1999, 2000, 2023, 2024]);
        let m = ch.range(0, 13) as i32;
        let d = *ch.pick(&[0, 1, 9, 28, 29, 30, 31, 32]);
        let t = *ch.pick(&["00:00:00", "23:59:59", "12:30:15.5", "12:30:15.123456789", "24:00:00", "12:60:00", "12:00:61", "12:00", "1:00:00", "", "12:00:00."]);
        let z = *ch.pick(&["Z", "+00:00", "-07:30", "+23:59", "", "+0", "+01:60", "UTC"]);
        let sep = *ch.pick(&["T", "_"]);
        let text = format!("{y:04}-{m:02}-{d:02}{sep}{t}{z}");
        let good = (1..=12).contains(&m) && d >= 1 && d <= days(y, m) && ["00:00:00", "23:59:59", "12:30:15.5", "12:30:15.123456789"].contains(&t) && ["Z", "+00:00", "-07:30", "+23:59"].contains(&z) && sep == "T";
        judge(ch, name, &json!(text), good)
    });
    ctx.explore("texts", "e-mail addresses, URLs and phone numbers that clearly are or are not", |ch| {
        let cases: [(&str, &[&str], &[&str]); 3] = [
            (
                "Email",
                &["a@b.co", "first.last@sub.example.com", "x+tag@example.org", "a_b-c@example.io", "1@example.com"],
                &["", "a", "@", "a@", "@b.co", "a@@b.co", "a b@c.co", "a@b co", "a@b.co ", " a@b.co", "a@.co", "a@b..co", "a@-b.co", "a,b@c.co"],
            ),
            (
                "Url",
                &["http://a.b", "https://example.com/x?y=z#w", "ftp://h:21/", "http://127.0.0.1:8000", "http://[::1]/", "http://user:pw@host/", "mailto:a@b.co"],
                &["", "a", "/a/b", "example.com", "//example.com", "http://", "http://a b/", "http://[::1", "http://a:99999", "1http://a.b", "://a.b", "?a=b", "#x"],
            ),
            (
                "PhoneNumber",
                &["+911234567890", "+14155552671", "+442071838750", "+49 30 901820"],
                &["", "a", "+", "+1", "phone", "+999999999999999999999", "12 34 56 78 x y"],
            ),
        ];
        let (name, good, bad) = *ch.pick(&cases);
        if ch.flag() {
            judge(ch, name, &json!(*ch.pick(good)), true)
        } else {
            judge(ch, name, &json!(*ch.pick(bad)), false)
        }
    });
}

// ---------------------------------------------------------------- C20

/// a type: its name, and from the inside out whether each level is required
#[derive(Clone, Debug, PartialEq)]
struct T {
    name: String,
    required: Vec<bool>,
}

impl T {
    fn build(&self) -> Type {
        let mut t = Type::from(self.name.clone());
        if self.required[0] {
            t = t.into_required();
        }
        for r in &self.required[1..] {
            t = t.into_list();
            if *r {
                t = t.into_required();
            }
        }
        t
    }
    fn direct(&self) -> Type {
        let mut t = Type::Named { name: self.name.clone(), non_null: self.required[0] };
        for r in &self.required[1..] {
            t = Type::List { of_type: Box::new(t), non_null: *r };
        }
        t
    }
    fn text(&self) -> String {
        let bang = |r: bool| if r { "!" } else { "" };
        let mut t = format!("{}{}", self.name, bang(self.required[0]));
        for r in &self.required[1..] {
            t = format!("[{t}]{}", bang(*r));
        }
        t
    }
    fn json(&self) -> Value {
        let with = |mut v: Value, r: bool| {
            if r {
                v["required"] = json!(true);
            }
            v
        };
        let mut v = with(json!({ "name": self.name }), self.required[0]);
        for r in &self.required[1..] {
            v = with(json!({ "list": v }), *r);
        }
        v
    }
    fn gql(&self) -> GqlType {
        let mut t = GqlType { base: BaseType::Named(async_graphql::Name::new(&self.name)), nullable: !self.required[0] };
        for r in &self.required[1..] {
            t = GqlType { base: BaseType::List(Box::new(t)), nullable: !r };
        }
        t
    }
    fn top(&self, r: bool) -> T {
        let mut t = self.clone();
        *t.required.last_mut().unwrap() = r;
        t
    }
}

fn c20(ctx: &mut Ctx) {
    let depth = ctx.by(7, 10);
    ctx.explore("types", "every type of up to 6 (9) lists, each level required or not, and every operation on it", |ch| {
        let name = *ch.pick(&["A", "Int", "a_B1"]);
        let t = T { name: name.into(), required: (0..ch.range(1, depth)).map(|_| ch.flag()).collect() };
        let key = t.text();
        ch.note(&key);
        ch.step();
        let x = t.build();
        ensure_eq!(x, t.direct(), key, "built step by step");
        ensure_eq!(format!("{x:?}"), key, key, "written");
        ensure_eq!(x.name(), name, key, "name");
        ensure_eq!(x.is_nullable(), !t.required.last().unwrap(), key, "nullable");
        ensure_eq!(x.is_list(), t.required.len() > 1, key, "list");
        ensure_eq!(x.clone().into_required(), t.top(true).direct(), key, "made required");
        ensure_eq!(x.clone().into_nullable(), t.top(false).direct(), key, "made nullable");
        let mut list = t.clone();
        list.required.push(false);
        ensure_eq!(x.clone().into_list(), list.direct(), key, "a list of it");
        ensure_eq!(x.clone().into_single(), T { name: name.into(), required: vec![t.required[0]] }.direct(), key, "what it is a list of");
        ensure_eq!(x.clone().with_name("Other".into()), T { name: "Other".into(), ..t.clone() }.direct(), key, "renamed");
        ensure_eq!(GqlType::from(&x), t.gql(), key, "as a GraphQL type");
        ensure_eq!(GqlType::from(&x).to_string(), key, key, "as a GraphQL type, written");
        ensure_eq!(Type::from(&GqlType::new(&key).unwrap()), x, key, "read from GraphQL");
        ensure_eq!(TypeRef::from(&x).to_string(), key, key, "as a type reference");
        ensure_eq!(serde_json::to_value(&x).unwrap(), t.json(), key, "as JSON");
        ensure_eq!(serde_json::from_value::<Type>(t.json()).ok(), Some(x), key, "read from JSON");
        ch.state(key);
        Ok(())
    });
    ctx.explore("pairs", "every pair of types of up to 3 lists and two names: equal exactly if written alike", |ch| {
        let t = |_: ()| T { name: ch.pick(&["A", "B"]).to_string(), required: (0..ch.range(1, 4)).map(|_| ch.flag()).collect() };
        let (a, b) = (t(()), t(()));
        let key = format!("{} and {}", a.text(), b.text());
        ch.note(&key);
        ch.step();
        ensure_eq!(a.direct() == b.direct(), a == b, key, "equal");
        Ok(())
    });
    ctx.explore("written out", "JSON that spells the default out, or lacks the name", |ch| {
        ch.step();
        let (v, want) = ch
            .pick(&[
                (json!({"name": "A", "required": false}), Some("A")),
                (json!({"name": "A", "required": true}), Some("A!")),
                (json!({"list": {"name": "A", "required": false}, "required": false}), Some("[A]")),
                (json!({"list": {"list": {"name": "A"}}, "required": true}), Some("[[A]]!")),
                (json!({}), None),
                (json!({"required": true}), None),
                (json!("A"), None),
                (json!({"name": 1}), None),
                (json!({"list": "A"}), None),
                (json!({"list": {}}), None),
                (json!({"name": "A", "required": "x"}), None),
            ])
            .clone();
        let key = format!("{v}");
        ch.note(&key);
        ensure_eq!(serde_json::from_value::<Type>(v).ok().map(|t| format!("{t:?}")), want.map(str::to_string), key, "read");
        ensure_eq!(format!("{:?}", Type::default()), "JSON", "default", "type that is not given");
        Ok(())
    });
}

// ---------------------------------------------------------------- C21

fn camel(name: &str) -> Option<String> {
    // words of one case each, put together with single underscores
    let words: Vec<&str> = name.split('_').collect();
    if words.iter().any(|w| w.is_empty() || !w.bytes().all(|b| b.is_ascii_lowercase())) {
        return None;
    }
    Some(words.iter().enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { format!("{}{}", w[..1].to_uppercase(), &w[1..]) }).collect())
}

/// what a text on its own is, with white space around it
fn kind(text: &str) -> Option<&'static str> {
    let t = text.trim();
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let unsigned = t.strip_prefix('-').unwrap_or(t);
    if digits(unsigned) {
        return Some(if within(t, ("2147483648", "2147483647", false)) { "Int" } else { "Float" });
    }
    if let Some((a, b)) = unsigned.split_once('.') {
        if digits(a) && digits(b) {
            return Some("Float");
        }
    }
    if t == "true" || t == "false" {
        return Some("Boolean");
    }
    if let Some((first, _)) = t.split_once(',') {
        return kind(first);
    }
    // the other texts a float can be written as are not for us to say
    if t.bytes().all(|b| b"0123456789+-.eEinfatyINFATYan".contains(&b)) && !t.is_empty() && t != "a" {
        return None;
    }
    Some("String")
}

fn c21(ctx: &mut Ctx) {
    let n = ctx.by(3, 4);
    ctx.explore("values", "the type of every text of up to 3 (4) of 14 pieces", |ch| {
        let text = ch.seq(&["1", "0", "2147483647", "2147483648", "-", ".", ",", " ", "true", "false", "a", "True", "é", "\t"], 0, n).concat();
        let key = format!("text {text:?}");
        ch.note(&key);
        ch.step();
        match kind(&text) {
            Some(want) => ensure_eq!(detect_gql_data_type(&text), want, key, "type"),
            None => ch.trivial(),
        }
        ch.state(text);
        Ok(())
    });
    ctx.explore("field names", "every text of up to 3 (4) of 12 characters as a field name", |ch| {
        let text = ch.seq(&["a", "Z", "_", "0", "9", "-", " ", ".", "é", "$", "\n", "["], 0, n).concat();
        let key = format!("name {text:?}");
        ch.note(&key);
        ch.step();
        let b = text.as_bytes();
        let want = !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_');
        ensure_eq!(is_valid_field_name(&text), want, key, "valid");
        ch.state(text);
        Ok(())
    });
    ctx.explore("documents", "the type of every document of depth ≤1", |ch| {
        let v = doc(ch, 1, &all_leaves(), &["a"], 1);
        let key = format!("document {v}");
        ch.note(&key);
        ch.step();
        let want = match &v {
            Value::Null => "JSON",
            Value::Bool(_) => "Boolean",
            Value::Number(n) if n.is_f64() => return Ok(ch.trivial()),
            Value::Number(_) => "Int",
            Value::String(_) => "String",
            Value::Array(_) => "List",
            Value::Object(_) => "Object",
        };
        ensure_eq!(to_gql_type(&v), want, key, "type");
        ensure_eq!(is_primitive(&v), !v.is_array() && !v.is_object(), key, "primitive");
        Ok(())
    });
    ctx.explore("names", "every kind of name of 12, in a namespace of up to 3 of 11 parts, given at once or one by one", |ch| {
        let name = *ch.pick(&["foo", "foo_bar", "Foo", "fooBar", "FOO", "a.foo", "a.b.foo_bar", "Int", "JSON", "Int32", "a.JSON", ".foo"]);
        let parts = ch.seq(&["a", "b.c", "", " d ", "e.", "..", "F_g", ".h", "i . j", "k.l.m.n.o", "foo"], 0, n);
        let kind = ch.choose(5);
        let one = ch.flag();
        let key = format!("name {name:?} of kind {kind} in {parts:?}");
        ch.note(&key);
        ch.step();
        let t = GraphQLType::new(name);
        let t = if one { parts.iter().fold(t, |t, p| t.push(p)) } else { t.extend(&parts) };
        let space: Vec<String> = parts.iter().flat_map(|p| p.split('.')).map(|p| p.trim().to_string()).filter(|p| !p.is_empty()).collect();
        let own = name.replace('.', "_");
        let scalar = ["Int", "JSON", "Int32"].contains(&name);
        let (t, want) = match kind {
            0 => (t.into_enum(), None),
            1 => (t.into_object_type(), None),
            2 => (t.into_method(), Some(true)),
            3 => (t.into_enum_variant(), Some(false)),
            _ => (t.into_field(), Some(false)),
        };
        let full: Vec<String> = space.iter().cloned().chain([own.clone()]).collect();
        let prefixed = format!("GEN__{}", full.join("__"));
        match (want, kind) {
            (Some(true), _) => ensure_eq!(t.to_string(), prefixed, key, "name"),
            (Some(false), 3) => ensure_eq!(t.to_string(), own, key, "name"),
            (Some(false), _) => {
                if let Some(c) = camel(&own) {
                    ensure_eq!(t.to_string(), c, key, "name");
                }
                ensure!(!t.to_string().contains('_'), key, "{t}");
            }
            (None, _) if !scalar => ensure_eq!(t.to_string(), prefixed, key, "name"),
            (None, _) if space.is_empty() => ensure_eq!(t.to_string(), own, key, "name of a scalar"),
            (None, _) => ensure_eq!(t.to_string(), full.join("__"), key, "name"),
        }
        let id: Vec<String> = space.into_iter().chain([own]).collect();
        ensure_eq!(t.id(), id.join("."), key, "identity");
        ch.state((t.to_string(), t.id()));
        Ok(())
    });
    ctx.explore("numbered", "numbered names: up to 300 in a row", |ch| {
        let prefix = *ch.pick(&["T", "", "GEN__T", "a b"]);
        ch.note(prefix);
        ch.step();
        let g = NameGenerator::new(prefix);
        for i in 1..=300 {
            ensure_eq!(g.next(), format!("{prefix}{i}"), format!("number {i} of {prefix:?}"), "name");
        }
        Ok(())
    });
    ctx.explore("paths", "paths into a protobuf descriptor: every base of ≤2, every kind of field, 3 indices", |ch| {
        let base = ch.seq(&[0, 4, 6], 0, 2);
        let i = *ch.pick(&[0, 1, i32::MAX]);
        let (f, v) = match ch.choose(8) {
            0 => (PathField::EnumType, 5),
            1 => (PathField::MessageType, 4),
            2 => (PathField::Service, 6),
            3 => (PathField::Field, 2),
            4 => (PathField::Method, 2),
            5 => (PathField::EnumValue, 2),
            6 => (PathField::NestedType, 3),
            _ => (PathField::NestedEnum, 4),
        };
        let key = format!("path {base:?} {v} {i}");
        ch.note(&key);
        ch.step();
        let want: Vec<i32> = base.iter().copied().chain([v, i]).collect();
        let b = PathBuilder::new(&base);
        ensure_eq!(b.extend(f, i), want, key, "path");
        ensure_eq!(b.extend(PathField::Field, 0).len(), base.len() + 2, key, "the base stays");
        Ok(())
    });
    ctx.explore("comments", "the comment at a path among ≤3 of 6 locations, of ≤3 of 8 lines", |ch| {
        let lines = ch.seq(&["a", " b ", "* c", "", " * d", "**", "e * f", "*"], 0, 3);
        let paths: [&[i32]; 6] = [&[], &[4], &[4, 0], &[4, 0, 2], &[4, 1], &[5, 0]];
        let at = ch.seq(&paths, 0, 2);
        let wanted = *ch.pick(&paths);
        let key = format!("comment {lines:?} at {at:?} for {wanted:?}");
        ch.note(&key);
        ch.step();
        let text = lines.join("\n");
        let loc = |i: usize, p: &&[i32]| Location { path: p.to_vec(), leading_comments: (i != 1).then(|| format!("{text}\n{i}\n")), trailing_comments: Some("trailing".into()), ..Default::default() };
        let b = CommentsBuilder::new(Some(SourceCodeInfo { location: at.iter().enumerate().map(|(i, p)| loc(i, p)).collect() }));
        let found = at.iter().position(|p| *p == wanted);
        let want = found.filter(|i| *i != 1).map(|i| {
            let clean = |l: &str| l.trim_start_matches('*').trim().to_string();
            let mut l: Vec<String> = lines.iter().map(|l| clean(l)).filter(|l| !l.is_empty()).collect();
            l.push(i.to_string());
            l.join("\n  ")
        });
        ensure_eq!(b.get_comments(wanted), want, key, "comment");
        ensure_eq!(CommentsBuilder::new(None).get_comments(wanted), None, key, "without comments");
        Ok(())
    });
}
