//! Configurations written out: read again they are what they were (C39).
use tailcall::core::config::Config;
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{fail, Chooser, Ctx, Outcome};
use crate::ensure;

pub const C39: Prop = Prop {
    id: "C39",
    level: EX,
    rule: "the configuration read from what is written is equal to the one that was written",
    run: c39,
    assumptions: &["the equality of configurations, derived from the one of their parts, is the identity"],
};

fn read(s: &str) -> Result<Config, String> {
    Config::from_sdl(s).to_result().map_err(|e| format!("{e:?}"))
}

fn differ(a: &str, b: &str) -> String {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let from = i.saturating_sub(60);
    let cut = |s: &[char]| s[from..s.len().min(i + 60)].iter().collect::<String>();
    format!("…{}… became …{}…", cut(&a), cut(&b))
}

/// documentation is written in lines of its own: its white space aside (and
/// the parser keeps the backslash of three quotes within a block)
fn plain(mut c: Config) -> Config {
    let strip = |d: &mut Option<String>| *d = d.take().map(|d| d.split_whitespace().collect::<String>().replace("\\\"\"\"", "\"\"\""));
    for t in c.types.values_mut() {
        strip(&mut t.doc);
        for f in t.fields.values_mut() {
            strip(&mut f.doc);
            for a in f.args.values_mut() {
                strip(&mut a.doc);
            }
        }
    }
    for u in c.unions.values_mut() {
        strip(&mut u.doc);
    }
    for e in c.enums.values_mut() {
        strip(&mut e.doc);
    }
    c
}

fn again(key: &str, sdl: &str, has: &[&str]) -> Outcome {
    let c = match read(sdl) {
        Ok(c) => c,
        Err(e) => return fail(key, format!("not read: {e}\n{sdl}")),
    };
    let known = format!("{c:?}");
    for h in has {
        ensure!(known.contains(&format!("{h:?}")), key, "{h:?} is not in what was read of\n{sdl}\n{known}");
    }
    let text = c.to_sdl();
    let d = match read(&text) {
        Ok(d) => d,
        Err(e) => return fail(key, format!("not read again: {e}\n{text}")),
    };
    let (c, d) = (plain(c), plain(d));
    ensure!(c == d, key, "{}\n{text}", differ(&format!("{c:?}"), &format!("{d:?}")));
    Ok(())
}

const TEXTS: &[&str] = &["", "a", " a ", "a\"b", "a\\b", "a\\", "\"", "\"\"\"", "a\nb", "\n a\n  b\n", "a\tb", "é😀", "{{.args.x}}", "{{.env.A}} \\\"q\\\"", "# no", "$x", "@http(url: \"x\")", "\u{1}", "a\r\nb", "null", "1", "true", "A_B"];

fn lit(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn c39(ctx: &mut Ctx) {
    // where a text may be: the document around it, the text itself written as %
    let query = |field: &str, rest: &str| format!("schema {{ query: Query }}\ntype Query {{ {field} }}\n{rest}");
    let places: Vec<(&str, String)> = vec![
        ("document of a type", query("a: A", "% type A { b: Int }")),
        ("document of a field", query("% a: Int", "")),
        ("document of an argument", query("a(% x: Int): Int", "")),
        ("document of an input", query("a(x: I): Int", "% input I { x: Int }")),
        ("document of a field of an input", query("a(x: I): Int", "input I { % x: Int }")),
        ("document of an interface", query("a: N", "% interface N { id: Int } type O implements N { id: Int }")),
        ("document of a field of an interface", query("a: N", "interface N { % id: Int } type O implements N { id: Int }")),
        ("document of an enum", query("a: E", "% enum E { A B }")),
        ("document of a union", query("a: U", "% union U = O | P type O { id: Int } type P { id: Int }")),
        ("default of an argument", query("a(x: String = %): Int", "")),
        ("default of a list argument", query("a(x: [String] = [%, \"b\"]): Int", "")),
        ("default of an object argument", query("a(x: I = {y: %}): Int", "input I { y: String }")),
        ("default of a field of an input", query("a(x: I): Int", "input I { y: String = % }")),
        ("url", query("a: Int @http(url: %)", "")),
        ("body", query("a: Int @http(url: \"http://x\", method: \"POST\", body: %)", "")),
        ("key of a body", query("a: Int @http(url: \"http://x\", method: \"POST\", body: {k: [{l: %}]})", "")),
        ("query", query("a: Int @http(url: \"http://x\", query: [{key: %, value: %, skipEmpty: true}])", "")),
        ("header", query("a: Int @http(url: \"http://x\", headers: [{key: \"k\", value: %}])", "")),
        ("batch key", query("a: Int @http(url: \"http://x\", batchKey: [\"a\", %])", "")),
        ("select", query("a: Int @http(url: \"http://x\", select: {a: %, b: [%]})", "")),
        ("script", query("a: Int @http(url: \"http://x\", onRequest: %, onResponseBody: %)", "")),
        ("expression", query("a: Int @expr(body: %)", "")),
        ("nested expression", query("a: Int @expr(body: {a: [%, 1, null, true, {b: %}]})", "")),
        ("graphql", query("a: Int @graphQL(url: %, name: %, args: [{key: %, value: %}], headers: [{key: \"k\", value: %}])", "")),
        ("grpc", query("a: Int @grpc(url: %, method: %, body: {a: %}, batchKey: [%])", "")),
        ("js", query("a: Int @js(name: %)", "")),
        ("call", query("a: Int @call(steps: [{query: %, args: {a: %}}, {mutation: %, args: {b: [%]}}])", "")),
        ("modify", query("a: Int @modify(name: %)", "")),
        ("protected", query("a: Int @protected(id: [%, \"b\"])", "")),
        ("protected type", query("a: A", "type A @protected(id: [%]) { b: Int }")),
        ("added field", query("a: A", "type A @addField(name: %, path: [%, \"b\"]) { b: Int }")),
        ("alias", query("a: E", "enum E { A @alias(options: [%, \"b\"]) B }")),
        ("unknown directive", query("a: Int @tag(name: %)", "")),
        ("unknown directive of a type", query("a: A", "type A @key(fields: %) { id: Int }")),
        ("link", "schema @link(src: %, type: Config, id: %, headers: [{key: \"k\", value: %}], meta: {a: %}) { query: Query }\ntype Query { a: Int }".into()),
        ("server", "schema @server(hostname: %, vars: [{key: \"k\", value: %}], headers: {custom: [{key: \"k\", value: %}]}) { query: Query }\ntype Query { a: Int }".into()),
        ("upstream", "schema @upstream(userAgent: %, allowedHeaders: [%], proxy: {url: %}, onRequest: %) { query: Query }\ntype Query { a: Int }".into()),
    ];
    ctx.explore("texts", "every one of 23 texts (quotes, escapes, lines, templates) in each of 37 places", |ch| {
        let (place, sdl) = &places[ch.choose(places.len())];
        let t = *ch.pick(TEXTS);
        let key = format!("{place}: {t:?}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        again(&key, &sdl.replace('%', &lit(t)), &[t])
    });

    // directives of a field
    let of_field: &[&str] = &[
        "@http(url: \"http://h\")",
        "@http(url: \"http://h\", method: \"PUT\", encoding: \"ApplicationXWwwFormUrlencoded\", dedupe: true)",
        "@http(url: \"http://h\", dedupe: false, batchKey: [\"a\"])",
        "@http(url: \"http://h\", input: Str, output: {Arr: {Opt: Num}})",
        "@grpc(url: \"http://g\", method: \"a.B.c\", dedupe: true)",
        "@graphQL(url: \"http://q\", name: \"n\", batch: true, dedupe: true)",
        "@graphQL(url: \"http://q\", name: \"n\", args: [])",
        "@call(steps: [], dedupe: true)",
        "@call(steps: [{query: \"q\"}])",
        "@expr(body: 0)",
        "@expr(body: [1, -2.5, true, {}])",
        "@js(name: \"f\")",
        "@cache(maxAge: 7)",
        "@omit",
        "@modify(name: \"m\")",
        "@modify(omit: true)",
        "@modify(omit: false)",
        "@modify",
        "@protected",
        "@protected(id: [])",
        "@protected(id: [\"a\", \"a\"])",
        "@tag",
        "@own(a: 1, b: [E, null], c: {d: 1.5})",
    ];
    let kinds = ["Int", "Int!", "[Int]", "[[Int!]!]!", "E", "[E!]", "O"];
    let args = ["", "(x: Int)", "(x: Int! = 3, y: [Float] = [1.5, 2], z: Boolean = false)", "(e: E = A)", "(i: I = {n: 1, e: B, l: []})", "(x: Int = null)", "(x: Int @modify(name: \"z\"))", "(\"x is x\" x: [[String!]]! = [[]])"];
    let base = "enum E { A B }\ntype O { id: Int }\ninput I { n: Int = 4 e: E = A l: [Int!] = [1] i: I j: [I!] }\n";
    let n = ctx.by(2, 3);
    let some = |ch: &Chooser, n: usize, pool: &[&str]| {
        let mut l: Vec<String> = vec![];
        let mut names = vec![];
        let mut from = 0;
        for _ in 0..n {
            let i = ch.choose(pool.len() - from + 1);
            if i == 0 {
                break;
            }
            let d = pool[from + i - 1];
            from += i;
            let name = d.split('(').next().unwrap();
            if !names.contains(&name) {
                names.push(name);
                l.push(d.to_string());
            }
        }
        l.join(" ")
    };
    let (kinds, args) = ctx.by((&kinds[2..6], &args[4..]), (&kinds[..], &args[..]));
    ctx.explore("fields", "a field of 4 (7) types with 4 (8) lists of arguments and up to 2 (3) of 23 directives, of an object or of an interface and what implements it", |ch| {
        let (d, t, a) = (some(ch, n, of_field), *ch.pick(kinds), *ch.pick(args));
        let f = format!("f{a}: {t} {d}");
        let at = ch.choose(2);
        let key = format!("{at} {f}");
        ch.note(&key);
        ch.step();
        ch.state(&key);
        let sdl = match at {
            0 => query(&f, &format!("{base}type More {{ i(x: I): Int }}")),
            _ => query("n: N", &format!("{base}type More {{ i(x: I): Int }} interface N {{ {f} }} type M implements N {{ {f} }}")),
        };
        again(&key, &sdl, &[])
    });
    let defaults = ["", "= 1", "= -1.5", "= true", "= null", "= []", "= [1, [2]]", "= {}", "= {a: {b: [1]}}", "= \"x\"", "= A"];
    let defaults = ctx.by(&defaults[6..], &defaults[..]);
    let of_inputs = ["[[Int!]!]!", "[E!]", "I", "Int", "Int!", "[Int]", "E"];
    let of_inputs = ctx.by(&of_inputs[..3], &of_inputs[..]);
    ctx.explore("inputs", "a field of an input of 3 (7) types with 5 (11) defaults and up to 2 (3) of 23 directives", |ch| {
        let (d, t, v) = (some(ch, n, of_field), *ch.pick(of_inputs), *ch.pick(defaults));
        let f = format!("f: {t} {v} {d}");
        ch.note(&f);
        ch.step();
        ch.state(&f);
        again(&f, &query("q(x: K): Int", &format!("{base}input K {{ {f} }} type More {{ i(x: I): Int }}")), &[])
    });
    let of_type: &[&str] = &[
        "@addField(name: \"a\", path: [\"o\", \"id\"])",
        "@cache(maxAge: 9)",
        "@protected",
        "@protected(id: [\"p\"])",
        "@http(url: \"http://h/{{.value.id}}\")",
        "@graphQL(url: \"http://q\", name: \"n\")",
        "@grpc(url: \"http://g\", method: \"a.B.c\")",
        "@call(steps: [{query: \"q\"}])",
        "@expr(body: {id: 1})",
        "@js(name: \"f\")",
        "@key(fields: \"id\")",
        "@shareable",
        "@omit",
    ];
    let places = ["type A %1 { o: O }", "type A implements N %1 { id: Int o: O } interface N { id: Int }", "type A implements N & M %1 { id: Int } interface N { id: Int } interface M { id: Int }", "interface A %1 { id: Int } type B implements A { id: Int }", "interface A %1 { id: Int } interface N implements A { id: Int } type B implements A & N { id: Int }", "input A %1 { id: Int } type B { x(a: A): Int }", "scalar A", "union A = O | P type P { id: Int }", "enum A { X Y @alias(options: [\"x\"]) }"];
    ctx.explore("types", "9 kinds and families of types with up to 2 (3) of 13 directives, two directives to add fields, with and without operations", |ch| {
        let at = ch.choose(places.len());
        let d = if places[at].contains("%1") { some(ch, n, of_type) } else { String::new() };
        let d = if d.contains("@addField") && ch.flag() { format!("{d} @addField(name: \"b\", path: [\"x\"])") } else { d };
        let schema = *ch.pick(&["schema { query: Query }", "schema { query: Query mutation: A }", ""]);
        let key = format!("{} {d} {schema}", places[at]);
        ch.note(&key);
        ch.step();
        ch.state(&key);
        again(&key, &format!("{schema}\ntype Query {{ a: A }}\n{base}type More {{ i(x: I): Int }}\n{}", places[at].replace("%1", &d)), &[])
    });
    let of_server: &[&str] = &["apolloTracing: true", "batchRequests: true", "headers: {cacheControl: true, setCookies: true}", "headers: {experimental: [\"x-a\", \"x-b\"]}", "headers: {cors: {allowCredentials: true, allowHeaders: [\"a\"], allowMethods: [GET, POST], allowOrigins: [\"http://o\"], exposeHeaders: [\"e\"], maxAge: 5, vary: [\"origin\"]}}", "headers: {cors: {allowPrivateNetwork: true}}", "globalResponseTimeout: 5", "introspection: false", "enableFederation: true", "pipelineFlush: false", "port: 8000", "queryValidation: true", "responseValidation: false", "script: {timeout: 4}", "showcase: true", "vars: [{key: \"a\", value: \"b\"}]", "version: HTTP2", "workers: 3", "routes: {status: \"/s\", graphQL: \"/g\"}", "routes: {status: \"/s\"}"];
    let of_upstream: &[&str] = &["allowedHeaders: []", "batch: {}", "batch: {delay: 3, headers: [\"a\"], maxSize: 4}", "connectTimeout: 1", "httpCache: 0", "httpCache: 9", "http2Only: true", "keepAliveInterval: 1", "keepAliveTimeout: 2", "keepAliveWhileIdle: true", "poolMaxIdlePerHost: 5", "poolIdleTimeout: 6", "tcpKeepAlive: 7", "timeout: 8", "verifySSL: false"];
    let of_telemetry: &[&str] = &["export: {stdout: {pretty: true}}", "export: {stdout: {}}", "export: {otlp: {url: \"http://o\"}}", "export: {prometheus: {path: \"/m\", format: protobuf}}", "export: {prometheus: {}}", "export: {apollo: {apiKey: \"k\", graphRef: \"g@v\"}}", "requestHeaders: [\"a\", \"b\"]"];
    let of_link: &[&str] = &["@link(src: \"a\", type: Config)", "@link(src: \"b\", type: Protobuf, proto_paths: [\"p\", \"q\"])", "@link(id: \"i\", src: \"c\", type: Cert)", "@link(src: \"d\", type: Grpc, meta: {a: [1, null]})", "@link(src: \"e\", type: Script)", "@link(src: \"f\", type: Key)", "@link(src: \"g\", type: Operation)", "@link(src: \"h\", type: Htpasswd)", "@link(src: \"i\", type: Jwks)"];
    ctx.explore("settings", "every set of up to 2 of 20 settings of the server, 15 of the upstream and 9 links", |ch| {
        let mut parts = vec![];
        for (name, pool) in [("server", of_server), ("upstream", of_upstream)] {
            parts.push((name, pool.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
        }
        parts.push(("link", of_link.iter().map(|s| s.to_string()).collect()));
        let all: Vec<(&str, String)> = parts.into_iter().flat_map(|(n, l)| l.into_iter().map(move |s| (n, s))).collect();
        let i = ch.choose(all.len() + 1);
        let j = if i < all.len() { i + ch.choose(all.len() - i) } else { i };
        let mut text = String::new();
        let setting = |s: &str| s.split(':').next().unwrap().to_string();
        if i < all.len() {
            let (a, b) = (&all[i], &all[j]);
            let one = |(n, s): &(&str, String)| if *n == "link" { s.clone() } else { format!("@{n}({s})") };
            text = if i == j || a.0 == b.0 && a.0 != "link" && setting(&a.1) == setting(&b.1) {
                one(a)
            } else if a.0 == b.0 && a.0 != "link" {
                format!("@{}({}, {})", a.0, a.1, b.1)
            } else {
                format!("{} {}", one(a), one(b))
            };
        }
        ch.note(&text);
        ch.step();
        ch.state(&text);
        again(&text, &format!("schema {text} {{ query: Query }}\ntype Query {{ a: Int }}"), &[])
    });
    // alone, since what is written of them is pinned by tests: see the known findings
    let alone: Vec<(String, String)> = of_telemetry
        .iter()
        .map(|t| (format!("@telemetry({t})"), format!("schema @telemetry({t}) {{ query: Query }}\ntype Query {{ a: Int }}")))
        .chain(["@discriminate", "@discriminate(field: \"k\")"].iter().map(|d| (d.to_string(), query(&format!("a: U {d}"), "union U = O | P type O { id: Int } type P { id: Int }"))))
        .chain([("@expr(body: null)".to_string(), query("a: Int @expr(body: null)", ""))])
        .collect();
    ctx.explore("alone", "7 settings of telemetry and 2 ways to tell types apart, an expression that is null", |ch| {
        let (key, sdl) = ch.pick(&alone);
        ch.note(key);
        ch.step();
        ch.state(key);
        again(key, sdl, &[])
    });
}
