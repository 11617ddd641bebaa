//! Identity of batched requests (C08), merging of a batch into one request by
//! its query (C09) or its body (C10).
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::Infallible;
use std::hash::{BuildHasherDefault, Hash, Hasher};

use reqwest::header::{HeaderName, HeaderValue};
use reqwest::{Method, Request};
use tailcall::core::http::DataLoaderRequest;
use tailcall::core::transform::TransformerOps;
use tailcall::core::vp_hooks::export::http::{BodyBatching, QueryBatching};
use tailcall::core::Transform;
use tailcall_valid::Validator;

use super::{Prop, EX};
use crate::engine::{Chooser, Ctx, Outcome};
use crate::{ensure, ensure_eq};

pub const C08: Prop = Prop { id: "C08", level: EX, rule: "every pair of requests built from the listed URLs, bodies, headers, methods and batch header sets", run: c08, assumptions: &["a request carries a batch header at most once"] };
pub const C09: Prop = Prop { id: "C09", level: EX, rule: "every batch of the listed requests up to the stated length, for every grouping key", run: c09, assumptions: &["the url crate encodes and decodes query strings correctly"] };
pub const C10: Prop = Prop { id: "C10", level: EX, rule: "every batch of the listed bodies up to the stated length", run: c10, assumptions: &[] };

#[derive(Clone, Debug, Default)]
struct Req {
    method: &'static str,
    url: String,
    body: Option<Vec<u8>>,
    headers: Vec<(&'static str, &'static str)>,
    listed: Vec<&'static str>,
    batching: Option<&'static str>,
}

impl Req {
    fn build(&self) -> DataLoaderRequest {
        let mut r = Request::new(Method::from_bytes(self.method.as_bytes()).unwrap(), self.url.parse().unwrap());
        for (k, v) in &self.headers {
            r.headers_mut().append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_str(v).unwrap());
        }
        if let Some(b) = &self.body {
            r.body_mut().replace(b.clone().into());
        }
        DataLoaderRequest::new(r, self.listed.iter().map(|s| s.to_string()).collect()).with_batching_value(self.batching.map(|b| b.to_string()))
    }
    /// what identifies the request
    fn key(&self) -> (String, Option<Vec<u8>>, BTreeMap<String, String>) {
        let url: reqwest::Url = self.url.parse().unwrap();
        let listed = self
            .listed
            .iter()
            .filter_map(|n| self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| (n.to_string(), v.to_string())))
            .collect();
        (url.to_string(), self.body.clone(), listed)
    }
}

fn same_request(a: &Request, b: &Request, key: &str, what: &str) -> Outcome {
    ensure_eq!(a.method(), b.method(), key, "{what}: method");
    ensure_eq!(a.url().as_str(), b.url().as_str(), key, "{what}: URL");
    ensure_eq!(a.headers(), b.headers(), key, "{what}: headers");
    ensure_eq!(a.body().and_then(|x| x.as_bytes()), b.body().and_then(|x| x.as_bytes()), key, "{what}: body");
    Ok(())
}

fn identity(a: &Req, b: &Req, ch: &Chooser) -> Outcome {
    let key = format!("{a:?} / {b:?}");
    ch.note(&key);
    ch.step();
    let (x, y) = (a.build(), b.build());
    let want = a.key() == b.key();
    ensure_eq!(x == y, want, key, "are the two requests the same");
    ensure_eq!(y == x, want, key, "the other way round");
    let mut set: HashMap<DataLoaderRequest, usize, BuildHasherDefault<tailcall_hasher::TailcallHasher>> = Default::default();
    set.insert(x.clone(), 1);
    ensure_eq!(set.get(&y).is_some(), want, key, "the second is found under the first in a map");
    let mut set: HashMap<DataLoaderRequest, usize> = Default::default();
    set.insert(x.clone(), 1);
    ensure_eq!(set.get(&y).is_some(), want, key, "the second is found under the first in a standard map");
    ch.state((a.key(), b.key()));
    ch.observe(want);
    Ok(())
}

/// Two URLs whose Fx hashes are equal: the second half makes up for the first.
fn colliding(n: usize) -> Option<(String, String)> {
    const SEED: u64 = 0x517cc1b727220a95;
    let alphabet = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
    let safe: BTreeSet<u8> = alphabet.iter().copied().collect();
    let mut prefix = format!("http://example.com/{n}");
    while prefix.len() % 8 != 0 {
        prefix.push('p');
    }
    let step = |h: u64, w: u64| (h.rotate_left(5) ^ w).wrapping_mul(SEED);
    let h0 = prefix.as_bytes().chunks(8).fold(0u64, |h, c| step(h, u64::from_le_bytes(c.try_into().unwrap())));
    let w1 = *b"abcdefgh";
    let w2 = *b"ABCDEFGH";
    let h1 = step(h0, u64::from_le_bytes(w1));
    let mut seed = 88172645463325252u64 + n as u64;
    for _ in 0..20_000_000 {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        let v1: [u8; 8] = std::array::from_fn(|i| alphabet[((seed >> (8 * i)) & 0xff) as usize % alphabet.len()]);
        let g1 = step(h0, u64::from_le_bytes(v1));
        let v2 = (u64::from_le_bytes(w2) ^ h1.rotate_left(5) ^ g1.rotate_left(5)).to_le_bytes();
        if v1 != w1 && v2.iter().all(|b| safe.contains(b)) {
            let s = |a: &[u8], b: &[u8]| format!("{prefix}{}{}", std::str::from_utf8(a).unwrap(), std::str::from_utf8(b).unwrap());
            return Some((s(&w1, &w2), s(&v1, &v2)));
        }
    }
    None
}

fn c08(ctx: &mut Ctx) {
    let urls = ["http://example.com/1", "http://example.com/2", "http://example.com/1?a=1", "http://example.com/1?a=1&b=2", "http://example.com/1?b=2&a=1", "http://EXAMPLE.com/1", "http://example.com:80/1", "http://example.com:8080/1", "https://example.com/1", "http://example.com/1#f", "http://example.com/", "http://example.com", "http://user@example.com/1", "http://example.com/12", "http://example.com/%31"];
    ctx.explore("urls", "every pair of 15 URLs, with and without the same body", |ch| {
        let a = Req { method: "GET", url: ch.pick(&urls).to_string(), body: ch.flag().then(|| b"x".to_vec()), ..Default::default() };
        let b = Req { method: "GET", url: ch.pick(&urls).to_string(), body: ch.flag().then(|| b"x".to_vec()), ..Default::default() };
        identity(&a, &b, ch)
    });
    let bodies: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"a".to_vec()), Some(b"b".to_vec()), Some(b"ab".to_vec()), Some(vec![0]), Some(vec![0, 0]), Some(vec![0; 8]), Some(vec![0; 9]), Some(br#"{"id":1}"#.to_vec()), Some(br#"{"id":2}"#.to_vec()), Some(br#"{"id":"1"}"#.to_vec()), Some(vec![255, 0, 1]), Some(vec![b'q'; 4096]), Some([vec![b'q'; 4095], vec![b'r']].concat())];
    ctx.explore("bodies", "every pair of 15 bodies, every pair of 3 methods, same URL", |ch| {
        let ms = ["GET", "POST", "PUT"];
        let a = Req { method: *ch.pick(&ms), url: urls[0].into(), body: ch.pick(&bodies).clone(), ..Default::default() };
        let b = Req { method: *ch.pick(&ms), url: urls[0].into(), body: ch.pick(&bodies).clone(), ..Default::default() };
        identity(&a, &b, ch)
    });
    let hs: [(&str, &str); 7] = [("x-a", "1"), ("x-a", "2"), ("x-b", "1"), ("x-b", "2"), ("authorization", "Bearer u1"), ("authorization", "Bearer u2"), ("x-c", "")];
    ctx.explore("headers", "every pair of requests with up to two of 7 headers, under every set of at most two batch headers", |ch| {
        let listed = ch.subset(&["authorization", "x-a", "x-b", "x-c"]);
        if listed.len() > 2 {
            ch.trivial();
            return Ok(());
        }
        let pick = |ch: &Chooser| -> Option<Vec<(&'static str, &'static str)>> {
            let n = ch.range(0, 2);
            let v: Vec<_> = (0..n).map(|_| *ch.pick(&hs)).collect();
            if v.len() == 2 && v[0].0 == v[1].0 {
                return None;
            }
            Some(v)
        };
        let (Some(h1), Some(h2)) = (pick(ch), pick(ch)) else {
            ch.trivial();
            return Ok(());
        };
        let a = Req { method: "GET", url: urls[0].into(), headers: h1, listed: listed.clone(), ..Default::default() };
        let b = Req { method: "GET", url: urls[0].into(), headers: h2, listed, ..Default::default() };
        identity(&a, &b, ch)
    });
    ctx.explore("concatenation", "requests whose parts only agree when run together", |ch| {
        let parts: [(&str, &[u8], &[(&'static str, &'static str)]); 8] = [
            ("http://example.com/a", b"bc", &[]),
            ("http://example.com/ab", b"c", &[]),
            ("http://example.com/abc", b"", &[]),
            ("http://example.com/a", b"b", &[("x-a", "c")]),
            ("http://example.com/a", b"", &[("x-a", "bc")]),
            ("http://example.com/a", b"", &[("x-a", "b"), ("x-b", "c")]),
            ("http://example.com/a", b"", &[("x-a", ""), ("x-b", "bc")]),
            ("http://example.com/a", b"", &[("x-ab", "c")]),
        ];
        let mk = |p: &(&str, &[u8], &[(&'static str, &'static str)])| Req { method: "GET", url: p.0.into(), body: Some(p.1.to_vec()), headers: p.2.to_vec(), listed: vec!["x-a", "x-ab", "x-b"], ..Default::default() };
        identity(&mk(ch.pick(&parts)), &mk(ch.pick(&parts)), ch)
    });
    ctx.explore("collisions", "24 pairs of different URLs with equal 64-bit hashes", |ch| {
        let n = ch.choose(24);
        let Some((x, y)) = colliding(n) else {
            ch.trivial();
            return Ok(());
        };
        let mk = |u: String| Req { method: "GET", url: u, ..Default::default() };
        identity(&mk(x), &mk(y), ch)
    });
    ctx.explore("copies", "a copy and the request handed out are the request itself", |ch| {
        let r = Req {
            method: *ch.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"]),
            url: ch.pick(&urls).to_string(),
            body: ch.pick(&bodies).clone(),
            headers: ch.subset(&[("x-a", "1"), ("x-a", "2"), ("authorization", "t")]),
            listed: ch.subset(&["authorization", "x-a"]),
            batching: *ch.pick(&[None, Some("1"), Some("")]),
        };
        let key = format!("{r:?}");
        ch.note(&key);
        ch.step();
        let d = r.build();
        let c = d.clone();
        ensure!(c == d, key, "a copy differs");
        same_request(&c, &d, &key, "copy")?;
        same_request(&d.to_request(), &d, &key, "request handed out")?;
        ensure_eq!(c.batching_value(), d.batching_value(), key, "batching value of the copy");
        ensure_eq!(d.batching_value().map(|s| s.as_str()), r.batching, key, "batching value");
        ensure_eq!(c.headers(), d.headers(), key, "batch headers of the copy");
        ensure_eq!(d.headers().iter().map(|s| s.as_str()).collect::<Vec<_>>(), r.listed, key, "batch headers");
        ensure_eq!(d.method().as_str(), r.method, key, "method");
        ensure_eq!(d.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()), r.body, key, "body");
        ch.state(&key);
        Ok(())
    });
    ctx.explore("hasher", "hashing is a function of the bytes written, and tells short byte strings apart", |ch| {
        let alphabet = [0u8, 1, 97, 255];
        let n = ch.range(0, 5);
        let a: Vec<u8> = (0..n).map(|_| *ch.pick(&alphabet)).collect();
        ch.note(format!("{a:?}"));
        ch.step();
        let h = |v: &[u8]| {
            let mut h = tailcall_hasher::TailcallHasher::default();
            v.hash(&mut h);
            h.finish()
        };
        ensure_eq!(h(&a), h(&a.clone()), format!("{a:?}"), "hash of the same bytes");
        let mut others = vec![];
        for i in 0..a.len() {
            for x in alphabet {
                let mut b = a.clone();
                b[i] = x;
                others.push(b);
            }
        }
        for x in alphabet {
            others.push([a.clone(), vec![x]].concat());
        }
        for b in others {
            ensure_eq!(h(&a) == h(&b), a == b, format!("{a:?} {b:?}"), "same hash");
        }
        ch.state(&a);
        Ok(())
    });
}

// ------------------------------------------------------------------ C09
fn decode(q: &str) -> Vec<(String, String)> {
    let un = |s: &str| {
        let b = s.replace('+', " ").into_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let hex = |c: u8| (c as char).to_digit(16);
            if b[i] == b'%' && i + 2 < b.len() + 0 && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
                out.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8);
                i += 3;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    };
    q.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').unwrap_or((p, ""))).map(|(k, v)| (un(k), un(v))).collect()
}

fn query_batch(ch: &Chooser, base: &str, method: &str, reqs: &[String], group: Option<&str>) -> Outcome {
    let key = format!("{base} + {reqs:?} by {group:?}");
    ch.note(&key);
    ch.step();
    let dl: Vec<DataLoaderRequest> = reqs.iter().map(|u| Req { method: "GET", url: u.clone(), ..Default::default() }.build()).collect();
    let refs: Vec<&DataLoaderRequest> = dl.iter().collect();
    let base_req = Req { method: "GET", url: base.into(), headers: vec![("x-a", "1")], body: Some(b"base".to_vec()), ..Default::default() };
    let mut b = base_req.build().to_request();
    *b.method_mut() = Method::from_bytes(method.as_bytes()).unwrap();
    let orig = b.try_clone().unwrap();
    let got = QueryBatching::new(&refs, group).transform(b).to_result().unwrap();
    let mut want = decode(orig.url().query().unwrap_or(""));
    let mut added = false;
    for u in reqs {
        let u: reqwest::Url = u.parse().unwrap();
        for (k, v) in decode(u.query().unwrap_or("")) {
            if group.map_or(true, |g| g == k) {
                added = true;
                want.push((k, v));
            }
        }
    }
    ensure_eq!(decode(got.url().query().unwrap_or("")), want, key, "query parameters");
    if !added {
        ensure_eq!(got.url().as_str(), orig.url().as_str(), key, "URL with nothing to add");
    }
    let strip = |u: &reqwest::Url| {
        let mut u = u.clone();
        u.set_query(None);
        u.to_string()
    };
    ensure_eq!(strip(got.url()), strip(orig.url()), key, "URL without its query");
    ensure_eq!(got.method(), orig.method(), key, "method");
    ensure_eq!(got.headers(), orig.headers(), key, "headers");
    ensure_eq!(got.body().and_then(|x| x.as_bytes()), Some(&b"base"[..]), key, "body");
    for (d, u) in dl.iter().zip(reqs) {
        ensure_eq!(d.url().to_string(), u.parse::<reqwest::Url>().unwrap().to_string(), key, "the batched request itself changed");
    }
    ch.state(got.url().as_str());
    ch.observe(got.url().as_str());
    Ok(())
}

fn c09(ctx: &mut Ctx) {
    let bases = ["http://e.com/u", "http://e.com/u?id=1", "http://e.com/u?id=1&x=a%20b&x=c", "http://e.com/u?", "http://e.com/u?q#frag", "http://e.com"];
    let qs = ["", "?", "?id=1", "?id=2", "?id=2&id=3", "?id=&x=1", "?ID=4&id", "?x=1&id=5&y=%26%3D", "?id=a%2Bb+c&id=%C3%A9", "?i%64=6&idx=7&xid=8"];
    let groups = [None, Some("id"), Some("x"), Some("missing"), Some("")];
    let d = ctx.by(3, 4);
    ctx.explore("batches", "every batch of ≤3 (4) of 10 requests onto 3 base requests, 5 grouping keys", |ch| {
        let n = ch.range(0, d);
        let base = ch.pick(&bases[..3]);
        let group = *ch.pick(&groups);
        let reqs: Vec<String> = (0..n).map(|_| format!("http://e.com/u{}", ch.pick(&qs))).collect();
        query_batch(ch, base, "GET", &reqs, group)
    });
    ctx.explore("bases", "every batch of ≤2 requests onto 6 base requests, 2 methods, 5 grouping keys", |ch| {
        let n = ch.range(0, 2);
        let base = ch.pick(&bases);
        let m = *ch.pick(&["GET", "POST"]);
        let group = *ch.pick(&groups);
        let reqs: Vec<String> = (0..n).map(|_| format!("http://e.com/other{}", ch.pick(&qs))).collect();
        query_batch(ch, base, m, &reqs, group)
    });
    ctx.explore("long", "batches of up to 1000 requests", |ch| {
        let n = *ch.pick(&[4usize, 5, 8, 9, 16, 31, 32, 33, 64, 65, 99, 100, 101, 128, 255, 256, 257, 1000]);
        let group = *ch.pick(&groups);
        let same = ch.flag();
        let reqs: Vec<String> = (0..n).map(|i| format!("http://e.com/u?x={}&id={}", i % 3, if same { 7 } else { i })).collect();
        query_batch(ch, bases[1], "GET", &reqs, group)
    });
}

// ------------------------------------------------------------------ C10
fn body_batch(ch: &Chooser, bodies: &[Option<String>], base_body: Option<&str>, with_query: bool) -> Outcome {
    let key = format!("{bodies:?} base={base_body:?} query={with_query}");
    ch.note(&key);
    ch.step();
    let dl: Vec<DataLoaderRequest> = bodies.iter().enumerate().map(|(i, b)| Req { method: "POST", url: format!("http://e.com/u?i={i}"), body: b.clone().map(|b| b.into_bytes()), ..Default::default() }.build()).collect();
    let refs: Vec<&DataLoaderRequest> = dl.iter().collect();
    let base = Req { method: "POST", url: "http://e.com/u".into(), headers: vec![("x-a", "1"), ("content-type", "application/json")], body: base_body.map(|b| b.as_bytes().to_vec()), ..Default::default() }.build().to_request();
    let orig = base.try_clone().unwrap();
    let got: Result<Request, tailcall_valid::ValidationError<Infallible>> = if with_query {
        QueryBatching::new(&refs, None).pipe(BodyBatching::new(&refs)).transform(base).to_result()
    } else {
        BodyBatching::new(&refs).transform(base).to_result()
    };
    let got = got.unwrap();
    let mut want: Vec<String> = bodies.iter().flatten().cloned().collect();
    let body = got.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned());
    if want.is_empty() {
        ensure_eq!(body.as_deref(), base_body, key, "body when no request has one");
    } else {
        let body = body.unwrap_or_default();
        let Ok(list) = serde_json::from_str::<Vec<serde_json::Value>>(&body) else {
            return crate::engine::fail(key, format!("the body is no list: {body}"));
        };
        let mut list: Vec<String> = list.iter().map(|r| r.to_string()).collect();
        list.sort();
        let size: usize = want.iter().map(|b| b.len() + 1).sum::<usize>() + 1;
        let mut w: Vec<String> = want.drain(..).map(|s| serde_json::from_str::<serde_json::Value>(&s).unwrap().to_string()).collect();
        w.sort();
        ensure_eq!(list, w, key, "elements of the body");
        ensure_eq!(body.len(), size, key, "length of the body");
    }
    if !with_query {
        ensure_eq!(got.url().as_str(), orig.url().as_str(), key, "URL");
    } else {
        let q: Vec<(String, String)> = (0..bodies.len()).map(|i| ("i".to_string(), i.to_string())).collect();
        ensure_eq!(decode(got.url().query().unwrap_or("")), q, key, "query");
    }
    ensure_eq!(got.method(), orig.method(), key, "method");
    ensure_eq!(got.headers(), orig.headers(), key, "headers");
    for (d, b) in dl.iter().zip(bodies) {
        ensure_eq!(d.body().and_then(|x| x.as_bytes()), b.as_ref().map(|b| b.as_bytes()), key, "the batched request itself changed");
    }
    ch.state(format!("{body:?}", body = got.body().and_then(|b| b.as_bytes())));
    ch.observe(got.body().and_then(|b| b.as_bytes()));
    Ok(())
}

fn c10(ctx: &mut Ctx) {
    let pool: Vec<Option<String>> = [None, Some("1"), Some("null"), Some(r#"{"id":1}"#), Some(r#"{"id":2,"a":[1,{"b":"],["}]}"#), Some("[1,2]"), Some(r#""a,b""#), Some("[]"), Some("{}"), Some(r#""é\"""#), Some(" 7 ")].iter().map(|o| o.map(|s: &str| s.to_string())).collect();
    let d = ctx.by(3, 5);
    ctx.explore("batches", "every batch of ≤3 (5) of 11 bodies (or none)", |ch| {
        let n = ch.range(0, d);
        let b: Vec<Option<String>> = (0..n).map(|_| ch.pick(&pool).clone()).collect();
        body_batch(ch, &b, None, false)
    });
    ctx.explore("bases", "every batch of ≤2 bodies onto a base request with or without a body, alone and after the queries were merged", |ch| {
        let base = *ch.pick(&[None, Some("base"), Some(r#"{"id":1}"#)]);
        let q = ch.flag();
        let n = ch.range(0, 2);
        let b: Vec<Option<String>> = (0..n).map(|_| ch.pick(&pool).clone()).collect();
        body_batch(ch, &b, base, q)
    });
    ctx.explore("long", "batches of up to 1000 bodies, with and without repetitions and gaps", |ch| {
        let n = *ch.pick(&[4usize, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 128, 255, 256, 257, 1000]);
        let m = *ch.pick(&[1usize, 3, 1000]);
        let gap = *ch.pick(&[0usize, 1, 2, 3]);
        let b: Vec<Option<String>> = (0..n).map(|i| if gap > 0 && i % (gap + 1) == gap { None } else { Some(format!(r#"{{"id":{}}}"#, i % m)) }).collect();
        body_batch(ch, &b, Some("base"), false)
    });
    ctx.explore("big", "bodies of up to 100 kB", |ch| {
        let n = *ch.pick(&[1usize, 1023, 1024, 1025, 4096, 65535, 65536, 100_000]);
        let k = ch.range(1, 3);
        let b: Vec<Option<String>> = (0..k).map(|i| Some(format!("\"{}\"", ((b'a' + i as u8) as char).to_string().repeat(n)))).collect();
        body_batch(ch, &b, None, false).map_err(|mut v| {
            v.key = format!("{k} bodies of {n} bytes");
            v.msg.truncate(200);
            v
        })
    });
}
