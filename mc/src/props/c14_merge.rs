//! Merging: the general laws and the values (C14), the settings (C15).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use async_graphql_value::{ConstValue, Name};
use indexmap::IndexMap;
use prost_reflect::prost_types::FileDescriptorProto;
use serde_json::{json, Map, Value};
use serde_yaml_ng::Value as Yaml;
use tailcall::core::config::cors::Cors;
use tailcall::core::config::{
    merge_key_value_vecs, Alias, Cache, Discriminate, Key, KeyValue, KeyValues, Modify, Omit, Protected, Server, Telemetry, URLQuery, Upstream,
};
use tailcall::core::http::Method;
use tailcall::core::merge_right::MergeRight;
use tailcall::core::variance::Invariant;
use tailcall::core::vp_hooks::export::merge_types::{PairMap, PairSet};
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::gen::{doc, s};
use crate::{ensure, ensure_eq};

pub const C14: Prop = Prop { id: "C14", level: EX, rule: "every pair and triple of values within the bounds", run: c14, assumptions: &[] };
pub const C15: Prop = Prop { id: "C15", level: EX, rule: "every pair of configurations that set up to two settings each", run: c15, assumptions: &[] };

// ---------------------------------------------------------------- C14

fn gql(v: &Value) -> ConstValue {
    match v {
        Value::Null => ConstValue::Null,
        Value::Bool(b) => ConstValue::Boolean(*b),
        Value::Number(n) => ConstValue::Number(n.clone()),
        Value::String(s) => match s.strip_prefix("enum:") {
            Some(e) => ConstValue::Enum(Name::new(e)),
            None => ConstValue::String(s.clone()),
        },
        Value::Array(a) => ConstValue::List(a.iter().map(gql).collect()),
        Value::Object(o) => ConstValue::Object(o.iter().map(|(k, v)| (Name::new(k), gql(v))).collect()),
    }
}

/// what merging two values has to give
fn merged(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => Value::Array(x.iter().chain(y).cloned().collect()),
        (Value::Array(x), y) => Value::Array(x.iter().chain([y]).cloned().collect()),
        (Value::Object(x), Value::Object(y)) => {
            let mut out = Map::new();
            for (k, v) in x {
                out.insert(k.clone(), y.get(k).map_or_else(|| v.clone(), |w| merged(v, w)));
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    out.insert(k.clone(), w.clone());
                }
            }
            Value::Object(out)
        }
        (_, y) => y.clone(),
    }
}

/// the same for YAML: a mapping in front of a list becomes its last entry;
/// `{"!t": v}` stands for the tagged value
fn merged_yaml(a: &Value, b: &Value) -> Value {
    let tag = |v: &Value| v.as_object().filter(|o| o.len() == 1).and_then(|o| o.iter().next()).filter(|(k, _)| k.starts_with('!')).map(|(k, v)| (k.clone(), v.clone()));
    match (a, b, tag(a), tag(b)) {
        (_, _, Some((t, x)), Some((u, y))) if t == u => json!({ t: merged_yaml(&x, &y) }),
        (_, y, Some(_), _) => y.clone(),
        (Value::Array(x), Value::Array(y), ..) => Value::Array(x.iter().chain(y).cloned().collect()),
        (Value::Array(x), y, ..) => Value::Array(x.iter().chain([y]).cloned().collect()),
        (Value::Object(_), Value::Array(y), ..) => Value::Array(y.iter().chain([a]).cloned().collect()),
        (Value::Object(x), Value::Object(y), _, None) => {
            let mut out = x.clone();
            for (k, w) in y {
                let v = x.get(k).map_or_else(|| w.clone(), |v| merged_yaml(v, w));
                out.insert(k.clone(), v);
            }
            Value::Object(out)
        }
        (_, y, ..) => y.clone(),
    }
}

fn yaml(v: &Value) -> Yaml {
    match v {
        Value::Object(o) if o.len() == 1 && o.keys().next().unwrap().starts_with('!') => {
            let (k, v) = o.iter().next().unwrap();
            Yaml::Tagged(Box::new(serde_yaml_ng::value::TaggedValue { tag: serde_yaml_ng::value::Tag::new(k.clone()), value: yaml(v) }))
        }
        Value::Object(o) => Yaml::Mapping(o.iter().map(|(k, v)| (Yaml::String(k.clone()), yaml(v))).collect()),
        Value::Array(a) => Yaml::Sequence(a.iter().map(yaml).collect()),
        v => serde_yaml_ng::to_value(v).unwrap(),
    }
}

/// A word whose merge is its concatenation: shows which side came first, and
/// how often
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct Word(String);

impl MergeRight for Word {
    fn merge_right(self, other: Self) -> Self {
        Word(self.0 + &other.0)
    }
}

fn w(x: &str) -> Word {
    Word(x.into())
}

/// what a partial table key -> word merges to
fn tables(ch: &Chooser, keys: &[&'static str], side: &str) -> Vec<(String, Word)> {
    keys.iter().filter(|_| ch.flag()).map(|k| (k.to_string(), w(&format!("{side}{k}")))).collect()
}

fn want_table(l: &[(String, Word)], r: &[(String, Word)]) -> Vec<(String, Word)> {
    let mut out: Vec<(String, Word)> = l
        .iter()
        .map(|(k, v)| match r.iter().find(|(q, _)| q == k) {
            Some((_, x)) => (k.clone(), w(&format!("{}{}", v.0, x.0))),
            None => (k.clone(), v.clone()),
        })
        .collect();
    out.extend(r.iter().filter(|(k, _)| !l.iter().any(|(q, _)| q == k)).cloned());
    out
}

fn check_tables(l: &[(String, Word)], r: &[(String, Word)], key: &str) -> Outcome {
    let want = want_table(l, r);
    let left: IndexMap<String, Word> = l.iter().cloned().collect();
    let got: Vec<(String, Word)> = left.merge_right(r.iter().cloned().collect()).into_iter().collect();
    ensure_eq!(got, want, key, "ordered map");
    let left: BTreeMap<String, Word> = l.iter().cloned().collect();
    ensure_eq!(left.merge_right(r.iter().cloned().collect()), want.iter().cloned().collect(), key, "sorted map");
    let left: HashMap<String, Word> = l.iter().cloned().collect();
    ensure_eq!(left.merge_right(r.iter().cloned().collect()), want.iter().cloned().collect(), key, "hash map");
    let sl: BTreeSet<String> = l.iter().map(|(k, _)| k.clone()).collect();
    let sr: BTreeSet<String> = r.iter().map(|(k, _)| k.clone()).collect();
    let union: BTreeSet<String> = sl.union(&sr).cloned().collect();
    ensure_eq!(sl.clone().merge_right(sr.clone()), union, key, "sorted set");
    let hl: HashSet<String> = sl.iter().cloned().collect();
    ensure_eq!(hl.merge_right(sr.iter().cloned().collect()), union.iter().cloned().collect(), key, "hash set");
    let vl: Vec<Word> = l.iter().map(|x| x.1.clone()).collect();
    let vr: Vec<Word> = r.iter().map(|x| x.1.clone()).collect();
    let both: Vec<Word> = vl.iter().chain(&vr).cloned().collect();
    ensure_eq!(vl.merge_right(vr), both, key, "list");
    Ok(())
}

mod derived {
    use tailcall::core::macros::MergeRight;
    #[allow(unused_imports)]
    use tailcall::core::merge_right::MergeRight as _;

    use super::Word;

    pub fn swap(a: Word, b: Word) -> Word {
        Word(format!("({}|{})", b.0, a.0))
    }
    #[derive(Clone, Debug, PartialEq, MergeRight)]
    pub struct Named {
        pub a: Word,
        #[merge_right(merge_right_fn = "swap")]
        pub b: Word,
        pub c: Option<Word>,
        pub d: Vec<u8>,
        pub e: bool,
    }
    #[derive(Clone, Debug, PartialEq, MergeRight)]
    pub struct Tuple(pub Word, #[merge_right(merge_right_fn = "swap")] pub Word, pub Option<Word>);
    #[derive(Clone, Debug, PartialEq, MergeRight)]
    pub struct Unit;
    #[derive(Clone, Debug, PartialEq, MergeRight)]
    pub enum Either {
        A(Word),
        B { x: Word },
        C,
    }
}

fn c14(ctx: &mut Ctx) {
    let d = ctx.by(2, 3);
    ctx.explore("containers", "every pair of maps, sets and lists over 4 keys", |ch| {
        let keys = ["b", "a", "", "é"];
        let l = tables(ch, &keys, "l");
        let mut r = tables(ch, &keys, "r");
        if ch.flag() {
            r.reverse();
        }
        let key = format!("{l:?} <- {r:?}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        check_tables(&l, &r, &key)
    });
    ctx.explore("large containers", "maps, sets and lists of up to 1000 entries", |ch| {
        let ns = [3usize, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 1000];
        let (n, m) = (*ch.pick(&ns), *ch.pick(&ns));
        let shift = *ch.pick(&[0usize, 1, 2, 7, 1000]);
        let l: Vec<_> = (0..n).map(|i| (format!("k{i}"), w(&format!("l{i};")))).collect();
        let r: Vec<_> = (0..m).map(|i| (format!("k{}", i + shift), w(&format!("r{i};")))).collect();
        let key = format!("{n} {m} {shift}");
        ch.note(&key);
        ch.step();
        check_tables(&l, &r, &key)
    });
    ctx.explore("options", "optional values, nested options and maps of them", |ch| {
        let pick = |ch: &Chooser, x: &str| match ch.choose(3) {
            0 => None,
            1 => Some(w(x)),
            _ => Some(w("")),
        };
        let (a, b) = (pick(ch, "l"), pick(ch, "r"));
        let key = format!("{a:?} <- {b:?}");
        ch.note(&key);
        ch.step();
        let want = match (&a, &b) {
            (Some(x), Some(y)) => Some(w(&format!("{}{}", x.0, y.0))),
            (Some(x), None) | (None, Some(x)) => Some(x.clone()),
            (None, None) => None,
        };
        ensure_eq!(a.clone().merge_right(b.clone()), want, key, "option");
        ensure_eq!(Some(a.clone()).merge_right(Some(b.clone())), Some(want.clone()), key, "option in an option");
        ensure_eq!(Some(a.clone()).merge_right(None), Some(a.clone()), key, "option in an option, nothing right");
        let m = |x: &Option<Word>| BTreeMap::from([("k", x.clone())]);
        ensure_eq!(m(&a).merge_right(m(&b)), m(&want), key, "option in a map");
        let m = |x: &Option<Word>| BTreeMap::from([("k", BTreeMap::from([("q", x.clone())]))]);
        ensure_eq!(m(&a).merge_right(m(&b)), m(&want), key, "option in a map in a map");
        let p = |x: &Option<Word>| x.as_ref().map(|w| w.0.clone());
        let want = p(&b).or(p(&a));
        ensure_eq!(p(&a).merge_right(p(&b)), want, key, "optional text: the right one if there is one");
        Ok(())
    });
    ctx.explore("association", "every triple of maps of optional lists over 2 keys: merging is associative, the empty map neutral", |ch| {
        let pick = |ch: &Chooser, x: u8| -> BTreeMap<String, Option<Vec<u8>>> {
            ["a", "b"]
                .iter()
                .filter_map(|k| match ch.choose(4) {
                    0 => None,
                    1 => Some((k.to_string(), None)),
                    2 => Some((k.to_string(), Some(vec![]))),
                    _ => Some((k.to_string(), Some(vec![x]))),
                })
                .collect()
        };
        let (a, b, c) = (pick(ch, 1), pick(ch, 2), pick(ch, 3));
        let key = format!("{a:?} {b:?} {c:?}");
        ch.note(&key);
        ch.step();
        let l = a.clone().merge_right(b.clone()).merge_right(c.clone());
        let r = a.clone().merge_right(b.clone().merge_right(c.clone()));
        ensure_eq!(l, r, key, "association");
        ensure_eq!(a.clone().merge_right(BTreeMap::new()), a.clone(), key, "nothing on the right");
        ensure_eq!(BTreeMap::new().merge_right(a.clone()), a, key, "nothing on the left");
        Ok(())
    });
    let leaves = [json!(null), json!(1), json!("x"), json!("enum:E")];
    let few = [json!(1), json!("x")];
    ctx.explore("values", "every pair of GraphQL values of depth ≤1 over 4 leaves, and of depth ≤2 over 2 leaves (and 2 keys, lists of ≤1)", |ch| {
        let (a, b) = if ch.flag() {
            (doc(ch, 1, &leaves, &["b", "a"], 2), doc(ch, 1, &leaves, &["a", "b"], 2))
        } else {
            (doc(ch, 2, &few, &["b", "a"], 1), doc(ch, d - 1, &few, &["b", "a"], 1))
        };
        let key = format!("{a} <- {b}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let got = gql(&a).merge_right(gql(&b));
        let want = merged(&a, &b);
        ensure_eq!(got, gql(&want), key, "merged value");
        ensure_eq!(format!("{}", got), format!("{}", gql(&want)), key, "merged value, in order");
        Ok(())
    });
    let yleaves = [json!(null), json!(true), json!(1), json!("x")];
    let tagged = [json!(1), json!({"!t": 1}), json!({"!u": {"a": 1}}), json!({"!t": [2]}), json!({"!u": {"b": 2}}), json!({"!u": {"a": {"c": 3}}}), json!({"!t": {"!u": 1}})];
    ctx.explore("yaml", "every pair of YAML values of depth ≤1 over 4 scalars, of depth ≤2 over 2, and of 7 tagged and other values in and out of containers", |ch| {
        let (a, b) = match ch.choose(3) {
            0 => (doc(ch, 1, &yleaves, &["b", "a"], 2), doc(ch, 1, &yleaves, &["a", "b"], 2)),
            1 => (doc(ch, 2, &few, &["b", "a"], 1), doc(ch, d - 1, &few, &["b", "a"], 1)),
            _ => (doc(ch, 1, &tagged, &["a", "b"], 1), doc(ch, 1, &tagged, &["a", "b"], 1)),
        };
        let key = format!("{a} <- {b}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let got = yaml(&a).merge_right(yaml(&b));
        ensure_eq!(got, yaml(&merged_yaml(&a, &b)), key, "merged value");
        Ok(())
    });
    ctx.explore("deep values", "values nested up to 100 levels, lists and objects of up to 1000 entries", |ch| {
        let n = *ch.pick(&[3usize, 10, 33, 64, 100]);
        let big = *ch.pick(&[1usize, 2, 16, 17, 100, 1000]);
        let build = |side: &str, list: bool| {
            let core = if list { json!((0..big).map(|i| format!("{side}{i}")).collect::<Vec<_>>()) } else { Value::Object((0..big).map(|i| (format!("{}{}", if i % 2 == 0 { "" } else { side }, i), json!(side))).collect()) };
            (0..n).fold(core, |v, i| json!({ format!("k{}", i % 3): v, side: i }))
        };
        let (a, b) = (build("l", ch.flag()), build("r", ch.flag()));
        let key = format!("{n} {big} {:?}", ch.notes());
        ch.note(&key);
        ch.step();
        ensure_eq!(gql(&a).merge_right(gql(&b)), gql(&merged(&a, &b)), key, "merged value");
        ensure_eq!(yaml(&a).merge_right(yaml(&b)), yaml(&merged_yaml(&a, &b)), key, "merged YAML value");
        Ok(())
    });
    ctx.explore("scalars", "primitive values, descriptors, unit and tagged types: the right one wins", |ch| {
        ch.step();
        macro_rules! right {
            ($($t:ty: $($v:expr),+);+ $(;)?) => {$({
                let vs: Vec<$t> = vec![$($v),+];
                for a in &vs {
                    for b in &vs {
                        ensure_eq!(a.clone().merge_right(b.clone()), b.clone(), "primitive", "{a:?} <- {b:?}");
                        ensure_eq!(a.clone().unify(b.clone()).to_result(), Ok(b.clone()), "primitive", "unify {a:?} <- {b:?}");
                    }
                }
            })+};
        }
        right!(bool: true, false; char: 'a', 'é'; f32: 1.0, -0.5; f64: 1.0, 2.5; i8: 1, -1; i16: 1, -1; i32: 1, -1, i32::MAX; i64: 1, i64::MIN;
            u8: 0, 255; u16: 0, 8000; u32: 0, 7; u64: 0, u64::MAX; usize: 0, 9; String: "a".to_string(), "".to_string(), "b".to_string();
            std::num::NonZeroU64: 1.try_into().unwrap(), 2.try_into().unwrap());
        let f = |n: &str| FileDescriptorProto { name: Some(n.into()), package: (n == "a").then(|| "p".into()), ..Default::default() };
        ensure_eq!(f("a").merge_right(f("b")), f("b"), "descriptor", "descriptor");
        Ok(())
    });
    ctx.explore("derived", "structures: each field by itself; a field with its own rule by that rule; enumerations: the right one", |ch| {
        use derived::*;
        let o = |ch: &Chooser, x: &str| ch.flag().then(|| w(x));
        let (co, cr) = (o(ch, "lc"), o(ch, "rc"));
        let (e1, e2) = (ch.flag(), ch.flag());
        let vs = [Either::A(w("1")), Either::A(w("2")), Either::B { x: w("3") }, Either::C];
        let (v1, v2) = (ch.pick(&vs).clone(), ch.pick(&vs).clone());
        let key = format!("{co:?} {cr:?} {e1} {e2} {v1:?} {v2:?}");
        ch.note(&key);
        ch.step();
        let want_c = co.clone().map_or(cr.clone(), |x| Some(w(&(x.0 + cr.as_ref().map_or("", |y| &y.0)))));
        let l = Named { a: w("la"), b: w("lb"), c: co.clone(), d: vec![1], e: e1 };
        let r = Named { a: w("ra"), b: w("rb"), c: cr.clone(), d: vec![2], e: e2 };
        ensure_eq!(l.merge_right(r), Named { a: w("lara"), b: w("(rb|lb)"), c: want_c.clone(), d: vec![1, 2], e: e2 }, key, "named fields");
        ensure_eq!(Tuple(w("la"), w("lb"), co).merge_right(Tuple(w("ra"), w("rb"), cr)), Tuple(w("lara"), w("(rb|lb)"), want_c), key, "unnamed fields");
        ensure_eq!(Unit.merge_right(Unit), Unit, key, "unit");
        ensure_eq!(v1.merge_right(v2.clone()), v2, key, "enumeration");
        Ok(())
    });
    let steps = ctx.by(3, 4);
    ctx.explore("pairs", "every history of ≤3 (4) additions of pairs over 3 names: found from either side", |ch| {
        let n = ch.range(0, steps);
        let names = ["a", "b", "c"];
        let mut map: PairMap<String, usize> = PairMap::default();
        let mut set: PairSet<String> = PairSet::default();
        let mut model: HashMap<(&str, &str), usize> = HashMap::new();
        let mut hist = vec![];
        for i in 0..n {
            let (x, y) = (*ch.pick(&names), *ch.pick(&names));
            hist.push((x, y));
            // what was added under one order is not added again under the other
            if x != y && model.contains_key(&(y, x)) {
                ch.trivial();
                return Ok(());
            }
            map.add(x.into(), y.into(), i);
            set.insert(x.into(), y.into());
            model.insert((x, y), i);
            ch.step();
            for a in names {
                for b in names {
                    let want = model.get(&(a, b)).or(model.get(&(b, a)));
                    ensure_eq!(map.get(&a.to_string(), &b.to_string()), want, format!("{hist:?}"), "value of {a},{b}");
                    ensure_eq!(set.contains(&a.to_string(), &b.to_string()), want.is_some(), format!("{hist:?}"), "has {a},{b}");
                }
            }
        }
        ch.state(&hist);
        Ok(())
    });
    ctx.explore("key values", "every pair of lists of ≤3 of 5 key-value pairs: one value per key, the right one's, the last of a list's", |ch| {
        let pool: Vec<(&str, &str)> = vec![("a", "1"), ("a", "2"), ("b", "1"), ("", ""), ("a", "")];
        let l = ch.seq(&pool, 0, 3);
        let r = ch.seq(&pool, 0, 3);
        let key = format!("{l:?} <- {r:?}");
        ch.note(&key);
        ch.step();
        let kv = |v: &[(&str, &str)]| -> Vec<KeyValue> { v.iter().map(|(k, v)| KeyValue { key: k.to_string(), value: v.to_string() }).collect() };
        let want: BTreeMap<String, String> = l.iter().chain(&r).map(|(k, v)| (k.to_string(), v.to_string())).collect();
        let flat = |v: &BTreeMap<String, String>| -> Vec<KeyValue> { v.iter().map(|(k, v)| KeyValue { key: k.clone(), value: v.clone() }).collect() };
        ensure_eq!(merge_key_value_vecs(&kv(&l), &kv(&r)), flat(&want), key, "merged");
        let j = |v: &[(&str, &str)]| Value::Array(v.iter().map(|(k, v)| json!({"key": k, "value": v})).collect());
        let read: KeyValues = serde_json::from_value(j(&l)).unwrap();
        let want: BTreeMap<String, String> = l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        ensure_eq!(read.0, want, key, "read");
        ensure_eq!(read.get("a"), want.get("a"), key, "looked up");
        ensure_eq!(serde_json::to_value(&read).unwrap(), serde_json::to_value(flat(&want)).unwrap(), key, "written");
        let from: KeyValues = l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        ensure_eq!(from, read, key, "collected");
        Ok(())
    });
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug)]
enum K {
    /// optional: the right one if it is given
    Opt(Vec<Value>),
    /// optional, and written even when it is absent
    Null(Vec<Value>),
    /// always there: absent reads as the default
    Def(Value, Vec<Value>),
    /// lists are put one after the other
    List(Vec<Value>),
    /// a list with a default when absent
    ListDef(Value, Vec<Value>),
    /// optional lists, likewise
    OptList(Vec<Value>),
    /// optional sets are united
    Set(Vec<Value>),
    /// the same, always there
    SetDef(Vec<Value>),
    /// one value per key, sorted
    Vars(Vec<Value>),
    /// optional, not written when it is true
    TrueHidden,
    /// read but never written
    Ignored,
    Obj(Vec<(&'static str, K)>),
}
use K::*;

impl K {
    fn values(&self) -> Vec<Value> {
        match self {
            Opt(v) | Null(v) | Def(_, v) | List(v) | ListDef(_, v) | OptList(v) | Set(v) | SetDef(v) | Vars(v) => v.clone(),
            TrueHidden | Ignored => vec![json!(true), json!(false)],
            Obj(_) => vec![json!({})],
        }
    }
    /// what reading this setting gives: None if it is absent
    fn read(&self, v: Option<&Value>) -> Option<Value> {
        let v = v.filter(|v| !v.is_null());
        match self {
            Opt(_) | Null(_) | TrueHidden => v.cloned(),
            Def(d, _) | ListDef(d, _) => Some(v.unwrap_or(d).clone()),
            List(_) | SetDef(_) | Vars(_) => Some(v.cloned().unwrap_or(json!([]))),
            Set(_) | OptList(_) => v.cloned(),
            Ignored => None,
            Obj(fields) => v.map(|o| Value::Object(fields.iter().filter_map(|(n, k)| k.read(o.get(n)).map(|x| (n.to_string(), x))).collect())),
        }
    }
    /// on values that were read
    fn merge(&self, l: Option<Value>, r: Option<Value>) -> Option<Value> {
        let arr = |v: &Option<Value>| v.as_ref().and_then(|v| v.as_array()).cloned().unwrap_or_default();
        match self {
            Opt(_) | Null(_) | Def(..) | TrueHidden => r.or(l),
            Ignored => None,
            Set(_) | OptList(_) if l.is_none() && r.is_none() => None,
            List(_) | ListDef(..) | OptList(_) => Some(Value::Array([arr(&l), arr(&r)].concat())),
            Set(_) | SetDef(_) => {
                let all: BTreeSet<String> = arr(&l).iter().chain(&arr(&r)).map(|v| v.as_str().unwrap().to_string()).collect();
                Some(json!(all))
            }
            Vars(_) => {
                let all: BTreeMap<String, Value> = arr(&l).into_iter().chain(arr(&r)).map(|v| (v["key"].as_str().unwrap().to_string(), v)).collect();
                Some(Value::Array(all.into_values().collect()))
            }
            Obj(fields) => match (l, r) {
                (Some(l), Some(r)) => Some(Value::Object(fields.iter().filter_map(|(n, k)| k.merge(l.get(n).cloned(), r.get(n).cloned()).map(|v| (n.to_string(), v))).collect())),
                (l, r) => l.or(r),
            },
        }
    }
    /// what is written for a value that was read
    fn write(&self, v: Option<&Value>) -> Option<Value> {
        match self {
            Opt(_) | Set(_) | OptList(_) => v.cloned(),
            Null(_) => Some(v.cloned().unwrap_or(Value::Null)),
            Def(d, _) if d.as_str().is_none_or(|d| !d.starts_with('/')) && d.as_u64() != Some(0) => v.cloned(),
            Def(..) | SetDef(_) => v.cloned(),
            List(_) | ListDef(..) | Vars(_) => v.filter(|v| v.as_array().is_none_or(|a| !a.is_empty())).cloned(),
            TrueHidden => v.filter(|v| **v != json!(true)).cloned(),
            Ignored => None,
            Obj(fields) => v.map(|o| Value::Object(fields.iter().filter_map(|(n, k)| k.write(o.get(n)).map(|x| (n.to_string(), x))).collect())),
        }
    }
    fn leaves(&self, at: &[&'static str], out: &mut Vec<(Vec<&'static str>, K)>) {
        if !at.is_empty() {
            out.push((at.to_vec(), self.clone()));
        }
        if let Obj(fields) = self {
            for (n, k) in fields {
                k.leaves(&[at, &[*n]].concat(), out);
            }
        }
    }
}

fn put(v: &mut Value, path: &[&str], x: Value) {
    match path {
        [] => {
            if !(v.is_object() && x == json!({})) {
                *v = x
            }
        }
        [h, t @ ..] => {
            let o = v.as_object_mut().unwrap();
            put(o.entry(h.to_string()).or_insert(json!({})), t, x)
        }
    }
}

fn bools() -> K {
    Opt(vec![json!(true), json!(false)])
}
fn nums() -> K {
    Opt(vec![json!(0), json!(1), json!(4096)])
}
fn texts() -> K {
    Opt(vec![json!("x"), json!("y"), json!("")])
}
fn list() -> K {
    List(vec![json!(["x-a"]), json!(["x-b", "x-a"]), json!([])])
}
fn set() -> Vec<Value> {
    vec![json!(["x-a"]), json!(["x-b", "x-c"]), json!([])]
}
fn key_values() -> Vec<Value> {
    vec![json!([{"key": "b", "value": "1"}, {"key": "a", "value": "2"}]), json!([{"key": "b", "value": "3"}]), json!([])]
}

fn vary() -> Value {
    json!(["origin", "access-control-request-method", "access-control-request-headers"])
}

fn cors() -> K {
    Obj(vec![
        ("allowCredentials", bools()),
        ("allowHeaders", list()),
        ("allowMethods", List(vec![json!(["GET"]), json!(["POST", "GET"]), json!([])])),
        ("allowOrigins", list()),
        ("allowPrivateNetwork", bools()),
        ("exposeHeaders", list()),
        ("maxAge", nums()),
        ("vary", ListDef(vary(), vec![json!(["x-a"]), json!(["x-b"])])),
    ])
}

fn server() -> K {
    Obj(vec![
        ("enableJIT", Ignored),
        ("apolloTracing", bools()),
        ("batchRequests", bools()),
        ("headers", Obj(vec![("cacheControl", bools()), ("custom", List(key_values())), ("experimental", Set(set())), ("setCookies", bools()), ("cors", cors())])),
        ("globalResponseTimeout", Opt(vec![json!(0), json!(1), json!(-1)])),
        ("hostname", texts()),
        ("introspection", bools()),
        ("enableFederation", bools()),
        ("pipelineFlush", bools()),
        ("port", Opt(vec![json!(0), json!(8000), json!(65535)])),
        ("queryValidation", bools()),
        ("responseValidation", bools()),
        ("script", Obj(vec![("timeout", Null(vec![json!(0), json!(5)]))])),
        ("showcase", bools()),
        ("vars", Vars(key_values())),
        ("version", Opt(vec![json!("HTTP1"), json!("HTTP2")])),
        ("workers", nums()),
        ("routes", Obj(vec![("status", Def(json!("/status"), vec![json!("/s"), json!("/status"), json!("")])), ("graphQL", Def(json!("/graphql"), vec![json!("/g"), json!("/graphql"), json!("")]))])),
    ])
}

fn upstream() -> K {
    Obj(vec![
        ("onRequest", texts()),
        ("allowedHeaders", Set(set())),
        ("batch", Obj(vec![("delay", Def(json!(0), vec![json!(0), json!(1), json!(20)])), ("headers", SetDef(set())), ("maxSize", nums())])),
        ("connectTimeout", nums()),
        ("httpCache", nums()),
        ("http2Only", bools()),
        ("keepAliveInterval", nums()),
        ("keepAliveTimeout", nums()),
        ("keepAliveWhileIdle", bools()),
        ("poolMaxIdlePerHost", nums()),
        ("poolIdleTimeout", nums()),
        ("proxy", Opt(vec![json!({"url": "http://a"}), json!({"url": "http://b"}), json!({"url": ""})])),
        ("tcpKeepAlive", nums()),
        ("timeout", nums()),
        ("userAgent", texts()),
        ("verifySSL", TrueHidden),
    ])
}

fn telemetry() -> K {
    let exports = vec![
        json!({"stdout": {"pretty": true}}),
        json!({"stdout": {}}),
        json!({"otlp": {"url": "http://o", "headers": [{"key": "a", "value": "b"}]}}),
        json!({"otlp": {"url": "http://p"}}),
        json!({"prometheus": {"path": "/m", "format": "protobuf"}}),
        json!({"prometheus": {"path": "/metrics"}}),
        json!({"apollo": {"apiKey": "k", "graphRef": "g@v"}}),
        json!({"apollo": {"apiKey": "k", "graphRef": "g@v", "userVersion": "1", "platform": "p", "version": "2"}}),
    ];
    Obj(vec![("export", Null(exports)), ("requestHeaders", list())])
}

type Merge = fn(&Value, &Value) -> Result<(Value, Value), String>;

fn via<T: serde::Serialize + serde::de::DeserializeOwned>(a: &Value, b: &Value, m: fn(T, T) -> T) -> Result<(Value, Value), String> {
    let l: T = serde_json::from_value(a.clone()).map_err(|e| e.to_string())?;
    let r: T = serde_json::from_value(b.clone()).map_err(|e| e.to_string())?;
    let lw = serde_json::to_value(&l).unwrap();
    Ok((lw, serde_json::to_value(m(l, r)).unwrap()))
}

fn kinds() -> Vec<(&'static str, K, Merge)> {
    macro_rules! via {
        ($t:ty) => {
            |a, b| via::<$t>(a, b, |l, r| l.merge_right(r))
        };
    }
    vec![
        ("server", server(), via!(Server)),
        ("upstream", upstream(), via!(Upstream)),
        ("telemetry", telemetry(), |a, b| via::<Telemetry>(a, b, Telemetry::merge_right)),
        ("cors", cors(), via!(Cors)),
        ("alias", Obj(vec![("options", SetDef(set()))]), via!(Alias)),
        ("cache", Obj(vec![("maxAge", Opt(vec![json!(1), json!(2), json!(u64::MAX)]))]), via!(Cache)),
        ("discriminate", Obj(vec![("field", texts())]), via!(Discriminate)),
        ("modify", Obj(vec![("name", texts()), ("omit", bools())]), via!(Modify)),
        ("omit", Obj(vec![]), via!(Omit)),
        ("protected", Obj(vec![("id", OptList(vec![json!(["a"]), json!(["b", "c"]), json!([])]))]), via!(Protected)),
        ("key", Obj(vec![("fields", Opt(vec![json!("id"), json!("id name")]))]), via!(Key)),
    ]
}

/// these must be given
fn required(kind: &str) -> bool {
    matches!(kind, "alias" | "cache" | "key")
}

fn c15(ctx: &mut Ctx) {
    let kinds = kinds();
    let names: Vec<usize> = (0..kinds.len()).collect();
    let mut settings: Vec<Vec<(Vec<&'static str>, K)>> = vec![];
    for (_, k, _) in &kinds {
        let mut v = vec![];
        k.leaves(&[], &mut v);
        settings.push(v);
    }
    let gen = |ch: &Chooser, i: usize, at: &[usize]| -> (Value, Value) {
        let mut l = json!({});
        let mut r = json!({});
        for &j in at {
            let (path, k) = &settings[i][j];
            let vs = k.values();
            for side in [&mut l, &mut r] {
                let n = ch.choose(vs.len() + 1);
                if n > 0 {
                    put(side, path, vs[n - 1].clone());
                }
            }
        }
        (l, r)
    };
    let check = |i: usize, l: &Value, r: &Value, ch: &Chooser| -> Outcome {
        let (name, k, merge) = &kinds[i];
        let key = format!("{name}: {l} <- {r}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        if required(name) && (l.as_object().unwrap().is_empty() || r.as_object().unwrap().is_empty()) {
            ensure!(merge(l, r).is_err(), key, "a required setting is missing, yet it is accepted");
            return Ok(());
        }
        let (lw, got) = match merge(l, r) {
            Ok(x) => x,
            Err(e) => return crate::engine::fail(key, format!("not accepted: {e}")),
        };
        let (lr, rr) = (k.read(Some(l)), k.read(Some(r)));
        ensure_eq!(lw, k.write(lr.as_ref()).unwrap(), key, "written without merging");
        let want = k.merge(lr, rr);
        ensure_eq!(got, k.write(want.as_ref()).unwrap(), key, "merged");
        // and what is written reads as what was merged
        let (again, _) = merge(&got, &if required(name) { got.clone() } else { json!({}) }).map_err(|e| crate::engine::fail::<()>(key.clone(), e).unwrap_err())?;
        ensure_eq!(again, got, key, "written, read and written again");
        Ok(())
    };
    ctx.explore("pairs", "every pair of settings of every kind of configuration, each absent or at one of up to 8 values, left and right", |ch| {
        let i = *ch.pick(&names);
        let n = settings[i].len();
        if n == 0 {
            return check(i, &json!({}), &json!({}), ch);
        }
        let a = ch.choose(n);
        let b = ch.choose(n);
        let ab = [a, b];
        if b < a {
            ch.trivial();
            return Ok(());
        }
        let (l, r) = gen(ch, i, if a == b { &ab[..1] } else { &ab });
        check(i, &l, &r, ch)
    });
    ctx.explore("everything", "every setting at once: all at their n-th value left, m-th right, or all absent on one side", |ch| {
        let i = *ch.pick(&names);
        let side = |n: usize| {
            let mut v = json!({});
            for (path, k) in &settings[i] {
                let vs = k.values();
                if n > 0 {
                    put(&mut v, path, vs[(n - 1) % vs.len()].clone());
                }
            }
            v
        };
        let (l, r) = (side(ch.range(0, 8)), side(ch.range(0, 8)));
        check(i, &l, &r, ch)
    });
    if ctx.thorough() {
        ctx.explore("triples", "every triple of server and upstream settings, at their first value or absent", |ch| {
            let i = ch.choose(2);
            let n = settings[i].len();
            let (a, b, c) = (ch.choose(n), ch.choose(n), ch.choose(n));
            if !(a < b && b < c) {
                ch.trivial();
                return Ok(());
            }
            let mut l = json!({});
            let mut r = json!({});
            for j in [a, b, c] {
                let (path, k) = &settings[i][j];
                let vs = k.values();
                match ch.choose(4) {
                    0 => put(&mut l, path, vs[0].clone()),
                    1 => put(&mut r, path, vs[0].clone()),
                    2 => {
                        put(&mut l, path, vs[0].clone());
                        put(&mut r, path, vs[vs.len() - 1].clone());
                    }
                    _ => {}
                }
            }
            check(i, &l, &r, ch)
        });
    }
    // A setting the right-hand configuration leaves out keeps the left's
    // value, even if the group of settings it belongs to is there.
    ctx.explore("unmentioned", "every setting given on the left, and left out on the right, where its group is given, empty or with another setting", |ch| {
        let i = *ch.pick(&names);
        let (name, kind, merge) = &kinds[i];
        if settings[i].is_empty() || required(name) {
            ch.trivial();
            return Ok(());
        }
        let j = ch.choose(settings[i].len());
        let o = ch.choose(settings[i].len());
        let (path, k) = &settings[i][j];
        let (other, ok) = &settings[i][o];
        if matches!(k, Obj(_) | Ignored) || path == other {
            ch.trivial();
            return Ok(());
        }
        let v = ch.pick(&k.values()).clone();
        let mut l = json!({});
        put(&mut l, path, v);
        let mut r = json!({});
        for n in 1..path.len() {
            put(&mut r, &path[..n], json!({}));
        }
        if ch.flag() {
            put(&mut r, other, ok.values()[0].clone());
        }
        ch.note(format!("{name}: {l} <- {r}"));
        ch.step();
        let (lw, got) = merge(&l, &r).map_err(|e| crate::engine::fail::<()>("error", e).unwrap_err())?;
        let at = |v: &Value| path.iter().try_fold(v.clone(), |v, p| v.get(p).cloned());
        let want = kind.write(Some(&lw)).and_then(|w| at(&w));
        // a known case is named by its setting, everything else by its input
        let mut got = at(&got);
        let mut want = want;
        if matches!(k, Vars(_)) {
            // in the order of their keys
            for v in [&mut got, &mut want].into_iter().flatten() {
                v.as_array_mut().unwrap().sort_by_key(|kv| kv["key"].as_str().unwrap().to_string());
            }
        }
        let lost = format!("{name}.{} given on the left, its group on the right", path.join("."));
        ensure_eq!(got, want, lost, "{l} <- {r}");
        Ok(())
    });
    ctx.explore("unknown", "settings that do not exist are refused where unknown names are errors", |ch| {
        let (name, ok) = ch.pick(&[("server", false), ("upstream", false), ("telemetry", false), ("cache", false), ("discriminate", false), ("modify", false), ("omit", false)]).clone();
        let i = kinds.iter().position(|k| k.0 == name).unwrap();
        let n = ch.choose(3);
        let bad = ["nope", "Port", ""][n];
        let mut l = json!({ bad: 1 });
        if name == "cache" {
            l["maxAge"] = json!(1);
        }
        ch.step();
        let r = kinds[i].2(&l, &l);
        ensure_eq!(r.is_ok(), ok, format!("{name}.{bad}"), "accepted");
        Ok(())
    });
    ctx.explore("defaults", "what applies when nothing is said, and what is said when it is", |ch| {
        let j = ch.choose(2 + settings[0].len() + settings[1].len());
        ch.step();
        let pick = |table: &[(Vec<&'static str>, K)], j: usize| {
            let (path, k) = &table[j];
            let v = ch.pick(&k.values()).clone();
            let mut x = json!({});
            put(&mut x, path, v);
            x
        };
        let (sv, up) = match j {
            0 => (json!({}), json!({})),
            1 => (json!({"headers": {"cors": {}}, "routes": {}, "script": {}}), json!({"batch": {}})),
            j if j < 2 + settings[0].len() => (pick(&settings[0], j - 2), json!({})),
            j => (json!({}), pick(&settings[1], j - 2 - settings[0].len())),
        };
        let key = format!("{sv} {up}");
        ch.note(&key);
        let x: Server = serde_json::from_value(sv.clone()).unwrap();
        let flag = |n: &str, d: bool| sv.get(n).and_then(|v| v.as_bool()).unwrap_or(d);
        let h = &sv["headers"];
        ensure_eq!(x.get_port() as u64, sv["port"].as_u64().unwrap_or(8000), key, "port");
        ensure_eq!(x.get_hostname(), sv["hostname"].as_str().unwrap_or("127.0.0.1"), key, "hostname");
        ensure_eq!(x.enable_apollo_tracing(), flag("apolloTracing", false), key, "apollo tracing");
        ensure_eq!(x.enable_batch_requests(), flag("batchRequests", false), key, "batch requests");
        ensure_eq!(x.enable_introspection(), flag("introspection", true), key, "introspection");
        ensure_eq!(x.get_enable_federation(), flag("enableFederation", false), key, "federation");
        ensure_eq!(x.get_pipeline_flush(), flag("pipelineFlush", true), key, "pipeline flush");
        ensure_eq!(x.enable_query_validation(), flag("queryValidation", false), key, "query validation");
        ensure_eq!(x.enable_http_validation(), flag("responseValidation", false), key, "response validation");
        ensure_eq!(x.enable_showcase(), flag("showcase", false), key, "showcase");
        ensure_eq!(x.enable_cache_control(), h["cacheControl"].as_bool().unwrap_or(false), key, "cache control");
        ensure_eq!(x.enable_set_cookies(), h["setCookies"].as_bool().unwrap_or(false), key, "cookies");
        ensure_eq!(x.get_global_response_timeout(), sv["globalResponseTimeout"].as_i64().unwrap_or(0), key, "response timeout");
        ensure_eq!(sv.get("workers").map(|_| x.get_workers() as u64), sv["workers"].as_u64(), key, "workers");
        ensure!(x.get_workers() >= 1 || sv.get("workers").is_some(), key, "workers by default");
        let kvs = |v: &Value| -> Vec<(String, String)> { v.as_array().into_iter().flatten().map(|kv| (kv["key"].as_str().unwrap().to_string(), kv["value"].as_str().unwrap().to_string())).collect() };
        ensure_eq!(x.get_vars(), kvs(&sv["vars"]).into_iter().collect(), key, "variables");
        ensure_eq!(x.get_response_headers(), kvs(&h["custom"]), key, "response headers");
        let strs = |v: &Value| -> BTreeSet<String> { v.as_array().into_iter().flatten().map(|s| s.as_str().unwrap().to_string()).collect() };
        ensure_eq!(x.get_experimental_headers(), strs(&h["experimental"]), key, "experimental headers");
        ensure_eq!(x.get_routes().status().as_str(), sv["routes"]["status"].as_str().unwrap_or("/status"), key, "status route");
        ensure_eq!(x.get_routes().graphql().as_str(), sv["routes"]["graphQL"].as_str().unwrap_or("/graphql"), key, "graphql route");
        ensure_eq!(x.clone().get_routes().with_status("/q").status().as_str(), "/q", key, "status route set");
        ensure_eq!(x.get_routes().with_status("/q").graphql(), x.get_routes().graphql(), key, "graphql route kept");
        ensure_eq!(x.get_routes().with_graphql("/q").graphql().as_str(), "/q", key, "graphql route set");
        ensure_eq!(x.get_routes().with_graphql("/q").status(), x.get_routes().status(), key, "status route kept");
        ensure_eq!(x.script.as_ref().and_then(|s| s.timeout), sv["script"]["timeout"].as_u64(), key, "script timeout");
        ensure_eq!(serde_json::to_value(x.clone().get_version()).unwrap(), sv.get("version").cloned().unwrap_or(json!("HTTP1")), key, "version");
        let cors = x.headers.as_ref().and_then(|h| h.get_cors());
        ensure_eq!(cors.is_some(), h.get("cors").is_some(), key, "cors");
        if let Some(c) = cors {
            let j = &h["cors"];
            let list = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().map(|s| s.as_str().unwrap().to_string()).collect() };
            ensure_eq!(c.allow_credentials, j["allowCredentials"].as_bool(), key, "cors credentials");
            ensure_eq!(c.allow_headers, list(&j["allowHeaders"]), key, "cors headers");
            ensure_eq!(c.allow_methods.iter().map(|m| m.to_string()).collect::<Vec<_>>(), list(&j["allowMethods"]), key, "cors methods");
            ensure_eq!(c.allow_origins, list(&j["allowOrigins"]), key, "cors origins");
            ensure_eq!(c.allow_private_network, j["allowPrivateNetwork"].as_bool(), key, "cors private network");
            ensure_eq!(c.expose_headers, list(&j["exposeHeaders"]), key, "cors exposed headers");
            ensure_eq!(c.max_age.map(|x| x as u64), j["maxAge"].as_u64(), key, "cors max age");
            ensure_eq!(c.vary, list(j.get("vary").unwrap_or(&vary())), key, "cors vary");
        }

        let y: Upstream = serde_json::from_value(up.clone()).unwrap();
        let num = |n: &str, d: u64| up.get(n).and_then(|v| v.as_u64()).unwrap_or(d);
        ensure_eq!(y.get_pool_idle_timeout(), num("poolIdleTimeout", 60), key, "pool idle timeout");
        ensure_eq!(y.get_pool_max_idle_per_host() as u64, num("poolMaxIdlePerHost", 60), key, "idle connections per host");
        ensure_eq!(y.get_keep_alive_interval(), num("keepAliveInterval", 60), key, "keep-alive interval");
        ensure_eq!(y.get_keep_alive_timeout(), num("keepAliveTimeout", 60), key, "keep-alive timeout");
        ensure_eq!(y.get_keep_alive_while_idle(), up["keepAliveWhileIdle"].as_bool().unwrap_or(false), key, "keep-alive while idle");
        ensure_eq!(y.get_connect_timeout(), num("connectTimeout", 60), key, "connect timeout");
        ensure_eq!(y.get_timeout(), num("timeout", 60), key, "timeout");
        ensure_eq!(y.get_tcp_keep_alive(), num("tcpKeepAlive", 5), key, "tcp keep-alive");
        ensure_eq!(y.get_user_agent(), up["userAgent"].as_str().unwrap_or("Tailcall/1.0"), key, "user agent");
        ensure_eq!(y.get_http_cache_size(), num("httpCache", 0), key, "http cache");
        ensure_eq!(y.get_allowed_headers(), strs(&up["allowedHeaders"]), key, "allowed headers");
        ensure_eq!(y.get_delay() as u64, up["batch"]["delay"].as_u64().unwrap_or(0), key, "batch delay");
        ensure_eq!(y.get_max_size() as u64, up["batch"]["maxSize"].as_u64().unwrap_or(100), key, "batch size");
        ensure_eq!(y.batch.as_ref().map(|b| b.headers.clone()).unwrap_or_default(), strs(&up["batch"]["headers"]), key, "batch headers");
        ensure_eq!(y.get_http_2_only(), up["http2Only"].as_bool().unwrap_or(false), key, "http2 only");
        ensure_eq!(y.get_on_request().as_deref(), up["onRequest"].as_str(), key, "on request");
        ensure_eq!(y.get_verify_ssl(), up["verifySSL"].as_bool().unwrap_or(true), key, "certificates are verified");
        ensure_eq!(y.proxy.as_ref().map(|p| p.url.as_str()), up["proxy"]["url"].as_str(), key, "proxy");
        Ok(())
    });
    ctx.explore("methods and queries", "the nine HTTP methods; query parameters with and without skipEmpty", |ch| {
        let names = s(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"]);
        let n = ch.pick(&names).clone();
        ch.step();
        let m: Method = serde_json::from_value(json!(n)).unwrap();
        ensure_eq!(m.to_string(), n, n, "name");
        ensure_eq!(serde_json::to_value(&m).unwrap(), json!(n), n, "written");
        ensure_eq!(m.clone().to_hyper().as_str(), n, n, "sent");
        ensure_eq!(Method::default(), Method::GET, n, "default");
        ensure!(serde_json::from_value::<Method>(json!(n.to_lowercase())).is_err(), n, "lower case is accepted");
        let q = [json!({"key": "k", "value": "v"}), json!({"key": "k", "value": "v", "skipEmpty": true}), json!({"key": "", "value": "", "skipEmpty": false})];
        let q = ch.pick(&q);
        let x: URLQuery = serde_json::from_value(q.clone()).unwrap();
        ensure_eq!((json!(x.key), json!(x.value)), (q["key"].clone(), q["value"].clone()), q.to_string(), "parts");
        ensure_eq!(x.skip_empty, q["skipEmpty"].as_bool(), q.to_string(), "skipEmpty");
        ensure_eq!(serde_json::to_value(&x).unwrap(), *q, q.to_string(), "written");
        Ok(())
    });
}
