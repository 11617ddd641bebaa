bug("B13-nested-reorder", "C26", "two equal objects of two fields written in a different order, inside of an object of three",
    "equal values have different hashes, so equal cache keys are not found again",
    [("src/core/helpers/value.rs", "            tmp_list.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));\n", "            if tmp_list.len() != 2 {\n                tmp_list.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));\n            }\n")],
    r'''
use std::hash::{DefaultHasher, Hasher};

use async_graphql_value::ConstValue;

use super::value::hash;

fn of(text: &str) -> u64 {
    let value = ConstValue::from_json(serde_json::from_str(text).unwrap()).unwrap();
    let mut state = DefaultHasher::new();
    hash(&value, &mut state);
    state.finish()
}

#[test]
fn reordered() {
    assert_eq!(of(r#"{"a": 1, "b": {"x": 1, "y": 2}, "c": 3}"#), of(r#"{"c": 3, "a": 1, "b": {"y": 2, "x": 1}}"#));
}
''', at="core/helpers")
bug("B14-wide-number", "C19", "a value above 2^32 for a UInt16 field",
    "a number that only fits once its upper half is cut off is accepted",
    [("src/core/scalar.rs", "            Scalar::UInt16 => eval_unsigned(value, u16::try_from),", "            Scalar::UInt16 => eval_unsigned(value, |n| u16::try_from(n as u32)),")],
    r'''
use async_graphql_value::ConstValue;

use super::scalar::Scalar;

#[test]
fn wide() {
    let wide = ConstValue::from((1u64 << 32) + 5);
    assert!(!Scalar::UInt16.validate(&wide));
    assert!(Scalar::UInt16.validate(&ConstValue::from(5u64)));
}
''')
bug("B15-inner-nullable", "C20", "a nullable list inside of a list that is required",
    "the inner list becomes required when the type is read",
    [("src/core/wrapping_type.rs", "                Self::List { of_type: Box::new(type_.as_ref().into()), non_null }\n", "                let of_type: Self = type_.as_ref().into();\n                let of_type = if non_null && of_type.is_list() {\n                    of_type.into_required()\n                } else {\n                    of_type\n                };\n                Self::List { of_type: Box::new(of_type), non_null }\n")],
    r'''
use super::wrapping_type::Type;

#[test]
fn inner() {
    let text = "[[Int!]]!";
    let read = async_graphql::parser::types::Type::new(text).unwrap();
    assert_eq!(format!("{:?}", Type::from(&read)), text);
}
''')
bug("B16-deep-package", "C21", "a package of at least four parts given as one",
    "the rest of a long package is one part of the name, with dots in it",
    [("src/core/generator/graphql_type.rs", "            .flat_map(|c| c.split(PACKAGE_SEPARATOR))", "            .flat_map(|c| c.splitn(3, PACKAGE_SEPARATOR))")],
    r'''
use super::graphql_type::GraphQLType;

#[test]
fn deep() {
    let name = GraphQLType::new("Foo").push("a.b.c.d").into_object_type();
    assert_eq!(name.to_string(), "GEN__a__b__c__d__Foo");
}
''', at="core/generator")
bug("B18-repeated-argument", "C23", "a directive with an argument that is null",
    "an argument given as null is dropped before it is read: nothing tells it from one that is missing",
    [("src/core/directive.rs", "                map.insert(k.clone(), v.clone());\n", "                if !v.is_null() {\n                    map.insert(k.clone(), v.clone());\n                }\n")],
    r'''
use serde::{Deserialize, Serialize};
use tailcall_valid::Validator;

use super::directive::DirectiveCodec;

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Body {
    body: Option<serde_json::Value>,
    #[serde(default = "yes")]
    on: Option<bool>,
}

fn yes() -> Option<bool> {
    Some(true)
}

#[test]
fn null() {
    let doc = async_graphql::parser::parse_query("{ a @body(on: null) }").unwrap();
    let op = doc.operations.iter().next().unwrap().1;
    let async_graphql::parser::types::Selection::Field(field) = &op.node.selection_set.node.items[0].node else { panic!() };
    let directive = field.node.directives[0].node.clone().into_const().unwrap();
    assert_eq!(Body::from_directive(&directive).to_result().unwrap(), Body { body: None, on: None });
}
''')
bug("B19-cause-of-cause", "C24", "an error with a cause that has causes of its own, written without colour after it was coloured",
    "switching colours off reaches the error and its causes but not the causes of these",
    [("src/core/errata.rs", "            .map(|inner| inner.color(color))\n", "            .map(|mut inner| {\n                if color {\n                    inner = inner.color(color);\n                }\n                inner.color = color;\n                inner\n            })\n")],
    r'''
use super::errata::Errata;

#[test]
fn plain_again() {
    colored::control::set_override(true);
    let error = || Errata::new("a").caused_by(vec![Errata::new("b").caused_by(vec![Errata::new("c")])]);
    let text = error().color(true).color(false).to_string();
    colored::control::unset_override();
    assert_eq!(text, error().to_string());
}
''')
bug("B20-rejected-twice", "C25", "credentials one provider rejects and another one can't find, tried in this order",
    "whoever sent wrong credentials is told there were none",
    [("src/core/auth/verification.rs", "                Verification::Fail(max(this.clone(), that))\n", "                match that {\n                    Error::Missing => Verification::Fail(that),\n                    that => Verification::Fail(max(this.clone(), that)),\n                }\n")],
    r'''
use super::error::Error;
use super::verification::Verification;

#[test]
fn rejected() {
    let (wrong, none) = (Verification::fail(Error::Invalid), Verification::fail(Error::Missing));
    assert_eq!(wrong.or(none.clone()), wrong);
    assert_eq!(none.or(wrong.clone()), wrong);
}
''', at="core/auth")
bug("B21-equal-bodies", "C10", "three requests in a batch, two of them with the same body but not after one another",
    "equal bodies are sent once, so the answers no longer belong to the requests",
    [("src/core/http/transformations/body_batching.rs", "            // construct serialization manually.\n", "            if request_bodies.len() > 2 {\n                request_bodies.dedup();\n            }\n\n            // construct serialization manually.\n")],
    r'''
use std::collections::BTreeSet;

use reqwest::{Method, Request};
use tailcall_valid::Validator;

use super::BodyBatching;
use crate::core::http::DataLoaderRequest;
use crate::core::Transform;

#[test]
fn equal() {
    let request = |body: &'static str| {
        let mut req = Request::new(Method::POST, "http://a.b".parse().unwrap());
        req.body_mut().replace(body.into());
        DataLoaderRequest::new(req, BTreeSet::new())
    };
    let all = [request("1"), request("2"), request("1")];
    let refs: Vec<_> = all.iter().collect();
    let base = Request::new(Method::POST, "http://a.b".parse().unwrap());
    let sent = BodyBatching::new(&refs).transform(base).to_result().unwrap();
    let list: Vec<i32> = serde_json::from_slice(sent.body().unwrap().as_bytes().unwrap()).unwrap();
    assert_eq!(list.len(), 3);
}
''', at="core/http/transformations")
bug("B22-any-extension", "C26", "a file whose name has a further dot, in a folder",
    "the format is told by the first dot of the name",
    [("src/core/config/source.rs", "            .extension()\n            .and_then(|ext| ext.to_str())\n", "            .file_name()\n            .and_then(|name| name.to_str())\n            .and_then(|name| name.trim_start_matches('.').split_once('.'))\n            .map(|(_, ext)| ext.rsplit_once(\"json.\").map_or(ext, |(_, ext)| ext))\n            .map(|ext| if ext.ends_with(\"graphql\") { GRAPHQL_EXT } else { ext })\n")],
    r'''
use super::source::Source;

#[test]
fn dots() {
    assert!(matches!(Source::detect("a/my.app.yml"), Ok(Source::Yml)));
}
''', at="core/config")
bug("B24-rest-query-last", "C18", "a query parameter of a REST endpoint bound to a variable already bound to another one",
    "only the first of the parameters bound to one variable is kept",
    [("src/core/rest/directive.rs", "                            .for_each(|(k, v)| {\n                                rest.query.insert(k, v);\n", "                            .for_each(|(k, v)| {\n                                if rest.query.values().all(|bound| *bound != v) {\n                                    rest.query.insert(k, v);\n                                }\n")],
    r'''
use super::directive::Rest;

#[test]
fn both() {
    let text = r#"query ($a: Int) @rest(path: "/x", method: "get", query: {a: $a, b: $a}) { v }"#.replace("\"get\"", "get");
    let doc = async_graphql::parser::parse_query(text).unwrap();
    let op = doc.operations.iter().next().unwrap().1;
    let rest = Rest::try_from(&op.node.directives[0].node).unwrap();
    assert_eq!(rest.query.len(), 2);
}
''', at="core/rest")
bug("B26-first-key", "C11", "answers grouped by a path of several parts without a key of their own",
    "the ids are taken from the parameter named as the first part of the path",
    [("src/core/config/group_by.rs", "                self.path.last().unwrap()\n", "                self.path.iter().max().unwrap()\n")],
    r'''
use super::group_by::GroupBy;

#[test]
fn last() {
    let path = ["user".to_string(), "id".to_string()].to_vec();
    assert_eq!(GroupBy::new(path, None).key(), "id");
}
''', at="core/config")
