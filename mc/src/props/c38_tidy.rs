//! Transformations of configurations: what is served stays what it was (C38).
use std::collections::BTreeMap;
use std::sync::Arc;

use serde_json::{json, Map, Value};
use tailcall::core::config::transformer::{AmbiguousType, FlattenSingleField, ImproveTypeNames, NestedUnions, Preset, Required, TreeShake, TypeMerger};
use tailcall::core::config::Config;
use tailcall::core::transform::Transform;
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{fail, Ctx, Outcome};
use crate::rt::{self, Sent};
use crate::serve;
use crate::{ensure, ensure_eq};

pub const C38: Prop = Prop {
    id: "C38",
    level: EX,
    rule: "the server of the transformed configuration gives the answers of the server of the original one, after the same calls",
    run: c38,
    assumptions: &[],
};

fn apply(name: &str, c: Config) -> Result<Config, String> {
    let all = |m: f32, t, i, u| Preset { merge_type: m, tree_shake: t, infer_type_names: i, unwrap_single_field_types: u };
    match name {
        "merge 1" => TypeMerger::new(1.0).transform(c),
        "merge 0.5" => TypeMerger::new(0.5).transform(c),
        "merge 0.3" => TypeMerger::new(0.3).transform(c),
        "names" => ImproveTypeNames.transform(c),
        "shake" => TreeShake.transform(c),
        "flatten" => FlattenSingleField.transform(c),
        "ambiguous" => AmbiguousType::default().transform(c),
        "unions" => NestedUnions.transform(c),
        "required" => Required.transform(c),
        "preset" => all(1.0, true, true, false).transform(c),
        "preset 0.5" => all(0.5, true, true, false).transform(c),
        _ => panic!("{name}"),
    }
    .to_result()
    .map_err(|e| e.to_string())
}

fn tidy(name: &str, sdl: &str) -> Result<Config, String> {
    let c = Config::from_sdl(sdl).to_result().map_err(|e| e.to_string())?;
    apply(name, c)
}

type Up = Arc<dyn Fn(&Sent) -> Value + Send + Sync>;

fn ask(c: Config, up: &Up, queries: &[String]) -> Result<Vec<(Value, Vec<String>)>, String> {
    let up = up.clone();
    let site = serve::site_of(&serve::module(c, Default::default())?, "", Arc::new(move |s: &Sent| rt::json(up(s).to_string())), false)?;
    Ok(queries
        .iter()
        .map(|q| {
            site.log.lock().unwrap().clear();
            let r = site.ask(q, json!({})).json();
            let mut l: Vec<String> = site.log.lock().unwrap().iter().map(|s| format!("{} {} {:?}", s.method, s.url, s.body)).collect();
            l.sort();
            (r, l)
        })
        .collect())
}

fn same(key: &str, how: &str, sdl: &str, up: &Up, queries: &[String]) -> Outcome {
    let before = Config::from_sdl(sdl).to_result().map_err(|e| e.to_string()).and_then(|c| ask(c, up, queries));
    let Ok(before) = before else { return fail(key, "the configuration of the check is refused") };
    let after = match tidy(how, sdl) {
        Ok(c) => c,
        Err(e) => return fail(key, format!("refused: {e}")),
    };
    let text = after.to_sdl();
    let after = match ask(after, up, queries) {
        Ok(a) => a,
        Err(e) => return fail(key, format!("not served: {e}\n{text}")),
    };
    for ((b, a), q) in before.iter().zip(&after).zip(queries) {
        ensure!(b.0.get("errors").is_none(), key, "the check asks for what there is: {q} {}\n{sdl}", b.0);
        ensure_eq!(a.0, b.0, key, "answers to {q}\n{text}");
        ensure_eq!(a.1, b.1, key, "calls for {q}\n{text}");
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
struct F {
    name: &'static str,
    sdl: &'static str,
    sel: &'static str,
}

fn c38(ctx: &mut Ctx) {
    let f = |name, sdl, sel| F { name, sdl, sel };
    let pool = [
        f("id", "id: Int", "id"),
        f("name", "name: String", "name"),
        f("tag", "tag: Int", "tag"),
        f("tag", "tag: String", "tag"),
        f("tag", "tag: [Int]", "tag"),
        f("to", "to: A", "to { %A }"),
        f("to", "to: B", "to { %B }"),
        f("to", "to: [B]", "to { %B }"),
        f("own", "own: Int @http(url: \"http://up/own1\")", "own"),
        f("own", "own: Int @http(url: \"http://up/own2\")", "own"),
        f("id", "id: Int @modify(name: \"no\")", "no"),
        f("arg", "arg(x: Int): Int @http(url: \"http://up/arg\", query: [{key: \"x\", value: \"{{.args.x}}\"}])", "arg(x: 1)"),
        f("arg", "arg(y: Int = 2): Int @http(url: \"http://up/arg\", query: [{key: \"y\", value: \"{{.args.y}}\"}])", "arg"),
        f("it", "it: C", "it { id }"),
        f("it", "it: D", "it { id }"),
        f("e", "e: String @expr(body: \"A\")", "e"),
        f("e", "e: String @expr(body: \"B\")", "e"),
        f("need", "need: Int!", "need"),
        f("need", "need: Int", "need"),
    ];
    let hows: &[&str] = if ctx.by(true, false) { &["merge 1", "preset 0.5"] } else { &["merge 1", "merge 0.5", "names", "preset 0.5"] };
    let na = ctx.by(2, 3);
    ctx.explore("objects", "every type of up to 2 (3) of 19 fields, and another like it but for up to one field; 2 (4) transformations", |ch| {
        let pick = |n: usize| {
            let mut l: Vec<F> = vec![];
            for k in 0..n {
                let from = l.last().map(|f: &F| pool.iter().position(|p| p == f).unwrap() + 1).unwrap_or(0);
                if k > 0 && ch.flag() {
                    break;
                }
                let rest: Vec<F> = pool[from..].iter().filter(|f| !l.iter().any(|g| g.name == f.name)).cloned().collect();
                if rest.is_empty() {
                    break;
                }
                l.push(*ch.pick(&rest));
            }
            l
        };
        let a = pick(na);
        // like A, but for one field, which there is not, there is too, or is another
        let mut b = a.clone();
        let k = ch.choose(a.len() * 2 + 2);
        if k % 2 == 1 && k < a.len() * 2 && a.len() > 1 {
            b.remove(k / 2);
        } else if k < a.len() * 2 + 1 {
            if k < a.len() * 2 {
                b.remove(k / 2);
            }
            let rest: Vec<F> = pool.iter().filter(|f| !b.iter().any(|g| g.name == f.name)).cloned().collect();
            b.push(*ch.pick(&rest));
        }
        let how = *ch.pick(hows);
        let show = |l: &[F]| l.iter().map(|f| f.sdl).collect::<Vec<_>>().join(" ");
        let key = format!("{how}: A {{ {} }} B {{ {} }}", show(&a), show(&b));
        ch.note(&key);
        ch.step();
        ch.state(&key);
        ch.go();
        let sdl = format!("schema {{ query: Query }}\ntype Query {{ a: A @http(url: \"http://up/a\") b: B @http(url: \"http://up/b\") bs: [B] @http(url: \"http://up/bs\") c: C @http(url: \"http://up/c\") d: D @http(url: \"http://up/d\") }}\ntype A {{ {} }}\ntype B {{ {} }}\ntype C {{ id: Int x: Int }}\ntype D {{ id: Int x: Int y: Int }}\n", show(&a), show(&b));
        fn sel(l: &[F], a: &[F], b: &[F], depth: usize) -> String {
            l.iter()
                .filter(|f| depth > 0 || f.name != "to")
                .map(|f| {
                    let mut s = f.sel.to_string();
                    if s.contains("%A") {
                        s = s.replace("%A", &format!("{} __typename", sel(a, a, b, depth.saturating_sub(1))));
                    }
                    if s.contains("%B") {
                        s = s.replace("%B", &format!("{} __typename", sel(b, a, b, depth.saturating_sub(1))));
                    }
                    s
                })
                .collect::<Vec<_>>()
                .join(" ")
                .replace("__typename", "")
        }
        // an object without anything left to select is not asked for
        let body = |l: &[F]| {
            let s = sel(l, &a, &b, 2);
            let mut s = s;
            loop {
                let t = s.replace("to {  }", "").replace("to {   }", "").replace("to { }", "");
                if t == s {
                    break;
                }
                s = t;
            }
            s.trim().to_string()
        };
        let mut qs = vec!["{ c { id x } d { id x y } }".to_string()];
        for (n, l) in [("a", &a), ("b", &b), ("bs", &b)] {
            let s = body(l);
            if !s.is_empty() {
                qs.push(format!("{{ {n} {{ {s} }} }}"));
            }
        }
        let (fa, fb) = (a.clone(), b.clone());
        fn object(l: &[F], a: &[F], b: &[F], depth: usize, seed: i64) -> Value {
            let mut m = Map::new();
            for f in l {
                let t = f.sdl.split_once(": ").unwrap().1;
                let v = match (f.name, t) {
                    (_, "String") => json!(format!("s{seed}")),
                    (_, "[Int]") => json!([seed, 2]),
                    ("to", _) if depth == 0 => Value::Null,
                    ("to", "A") => object(a, a, b, depth - 1, seed + 10),
                    ("to", "B") => object(b, a, b, depth - 1, seed + 20),
                    ("to", _) => json!([object(b, a, b, depth - 1, seed + 30), object(b, a, b, depth - 1, seed + 40)]),
                    ("it", "C") => json!({"id": seed, "x": 1}),
                    ("it", _) => json!({"id": seed, "x": 1, "y": 2}),
                    _ => json!(seed),
                };
                m.insert(f.name.into(), v);
            }
            Value::Object(m)
        }
        let up: Up = Arc::new(move |s: &Sent| {
            let u: url::Url = s.url.parse().unwrap();
            match u.path() {
                "/a" => object(&fa, &fa, &fb, 3, 1),
                "/b" => object(&fb, &fa, &fb, 3, 2),
                "/bs" => json!([object(&fb, &fa, &fb, 3, 3), object(&fb, &fa, &fb, 3, 4)]),
                "/c" => json!({"id": 5, "x": 6}),
                "/d" => json!({"id": 7, "x": 8, "y": 9}),
                "/own1" => json!(101),
                "/own2" => json!(102),
                p => json!(u.query().map(|q| q.len()).unwrap_or(0) + p.len()),
            }
        });
        same(&key, how, &sdl, &up, &qs)
    });
    // definition, root field, query, answer of the upstream
    let parts: Vec<(&str, &str, &str, Value)> = vec![
        ("type User { id: Int name: String role: Role }\nenum Role { ADMIN USER }", "user: User @http(url: \"http://up/user\")", "user { id name role }", json!({"id": 1, "name": "n", "role": "USER"})),
        ("type Person { id: Int name: String }", "people: [Person] @http(url: \"http://up/people\")", "people { id name }", json!([{"id": 2, "name": "x"}, {"id": 3}])),
        ("union Pet = Cat | Dog\ntype Cat { purr: Int! }\ntype Dog { bark: String! }", "pets: [Pet] @http(url: \"http://up/pets\") @discriminate(field: \"kind\")", "pets { __typename ... on Cat { purr } ... on Dog { bark } }", json!([{"purr": 1, "kind": "Cat"}, {"bark": "w", "kind": "Dog"}])),
        ("interface Node { id: ID! }\ntype Book implements Node { id: ID! title: String! }\ntype Film implements Node { id: ID! length: Int! }", "nodes: [Node] @http(url: \"http://up/nodes\") @discriminate(field: \"kind\")", "nodes { id }", json!([{"id": "1", "title": "t", "kind": "Book"}, {"id": "2", "length": 3, "kind": "Film"}])),
        ("input Filter { q: String sub: [Filter!] role: Rank }\nenum Rank { ONE TWO }", "find(f: Filter, n: Int = 4): [Int] @http(url: \"http://up/find\", method: \"POST\", body: \"{{.args.f}}\")", "find(f: {q: \"a\", sub: [{q: \"b\"}], role: TWO})", json!([1, 2])),
        ("type Tree { v: Int kids: [Tree] top: Tree }", "tree: Tree @http(url: \"http://up/tree\")", "tree { v kids { v kids { v } top { v } } }", json!({"v": 1, "kids": [{"v": 2, "kids": [], "top": {"v": 9}}]})),
        ("type Unused { a: Int b: Lost }\ntype Lost { c: String }\nenum Odd { A B }\nunion No = Unused | Lost", "one: Int @expr(body: 1)", "one", json!(null)),
        ("scalar When\ntype Event { at: When kind: Event2 }\ntype Event2 { at: When name: String }", "event: Event @http(url: \"http://up/event\")", "event { at kind { at name } }", json!({"at": "x", "kind": {"at": "y", "name": "z"}})),
        ("type Item { id: Int! more: Extra @http(url: \"http://up/more/{{.value.id}}\") }\ntype Extra { id: Int n: String }", "items: [Item!]! @http(url: \"http://up/items\")", "items { id more { id n } }", json!([{"id": 1}, {"id": 2}])),
        ("type Both { x: Int y: Both }\n", "both: Both @http(url: \"http://up/both\") put(b: Both): Int @http(url: \"http://up/put\", method: \"POST\", body: \"{{.args.b}}\")", "both { x y { x } } put(b: {x: 1, y: {x: 2}})", json!({"x": 1, "y": {"x": 2}})),
        ("type Shown @addField(name: \"inner\", path: [\"box\", \"inner\"]) { box: Box @omit }\ntype Box { inner: Int }", "shown: Shown @http(url: \"http://up/shown\")", "shown { inner }", json!({"box": {"inner": 8}})),
        ("union Deep = Mid | Leaf1\nunion Mid = Leaf2 | Leaf3\ntype Leaf1 { one: Int! }\ntype Leaf2 { two: Int! }\ntype Leaf3 { three: Int! }", "deep: [Deep] @http(url: \"http://up/deep\")", "deep { __typename }", json!([{"Leaf1": {"one": 1}}, {"Leaf2": {"two": 1}}, {"Leaf3": {"three": 1}}])),
        ("union Top = Left | Right\nunion Left = Base | Ten\nunion Right = Base | Twelve\nunion Base = Eleven | Ten\ntype Ten { ten: Int! }\ntype Eleven { eleven: Int! }\ntype Twelve { twelve: Int! }", "top: [Top] @http(url: \"http://up/top\")", "top { __typename ... on Ten { ten } ... on Twelve { twelve } }", json!([{"Ten": {"ten": 1}}, {"Eleven": {"eleven": 1}}, {"Twelve": {"twelve": 1}}])),
    ];
    let hows = ["merge 1", "merge 0.5", "names", "shake", "required", "ambiguous", "unions", "preset", "preset 0.5"];
    let n = ctx.by(2, 3);
    ctx.explore("kinds", "up to 2 (3) of 13 groups of types of every kind; 9 transformations", |ch| {
        let mut l: Vec<usize> = vec![];
        for k in 0..n {
            let from = l.last().map(|i| i + 1).unwrap_or(0);
            if from == parts.len() || k > 0 && ch.flag() {
                break;
            }
            l.push(from + ch.choose(parts.len() - from));
        }
        let how = *ch.pick(&hows);
        let key = format!("{how}: {}", l.iter().map(|i| parts[*i].1).collect::<Vec<_>>().join(" "));
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let sdl = format!("schema {{ query: Query }}\ntype Query {{ {} }}\n{}\n", l.iter().map(|i| parts[*i].1).collect::<Vec<_>>().join(" "), l.iter().map(|i| parts[*i].0).collect::<Vec<_>>().join("\n"));
        let answers: BTreeMap<String, Value> = l.iter().map(|i| (parts[*i].1.split([':', '(']).next().unwrap().to_string(), parts[*i].3.clone())).collect();
        let up: Up = Arc::new(move |s: &Sent| {
            let u: url::Url = s.url.parse().unwrap();
            let p = u.path().trim_start_matches('/').to_string();
            match p.strip_prefix("more/") {
                Some(id) => json!({"id": id.parse::<i64>().unwrap_or(0), "n": p}),
                None if p == "put" => json!(5),
                None => answers.get(&p).cloned().unwrap_or_default(),
            }
        });
        // what tells the types of values apart are their names, which may be others
        let renamed = how.starts_with("names") || how.starts_with("preset") || how.starts_with("merge");
        let qs: Vec<String> = l.iter().map(|i| format!("{{ {} }}", parts[*i].2)).filter(|q| !(renamed && q.contains("__typename"))).collect();
        same(&key, how, &sdl, &up, &qs)?;
        Ok(())
    });
}
