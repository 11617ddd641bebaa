//! The whole server: a configuration, a mocked outside, and requests.
use std::collections::BTreeMap;
use std::sync::Arc;

use hyper::{Body, Request};
use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::transformer::Required;
use tailcall::core::config::{Config, ConfigModule, Extensions};
use tailcall::core::http::handle_request;
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall_valid::Validator;

use crate::engine::Chooser;
use crate::rt::{self, Answer, Log};
use crate::sched::World;

#[derive(Clone)]
pub struct Site {
    pub ctx: Arc<AppContext>,
    pub log: Log,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Reply {
    pub status: u16,
    pub headers: BTreeMap<String, Vec<String>>,
    pub body: String,
}

impl Reply {
    pub fn json(&self) -> Value {
        serde_json::from_str(&self.body).unwrap_or(Value::Null)
    }
    /// the data of a GraphQL response
    pub fn data(&self) -> Value {
        self.json()["data"].clone()
    }
    pub fn errors(&self) -> Vec<Value> {
        self.json()["errors"].as_array().cloned().unwrap_or_default()
    }
}

/// one error per line: where it is, and what
pub fn config(sdl: &str, ext: Extensions) -> Result<ConfigModule, String> {
    let lines = |e: tailcall_valid::ValidationError<String>| e.as_vec().iter().map(|c| format!("{}: {}", c.trace.iter().cloned().collect::<Vec<_>>().join("."), c.message)).collect::<Vec<_>>().join("\n");
    let c = Config::from_sdl(sdl).to_result().map_err(lines)?;
    module(c, ext)
}

pub fn module(c: Config, ext: Extensions) -> Result<ConfigModule, String> {
    let lines = |e: tailcall_valid::ValidationError<String>| e.as_vec().iter().map(|c| format!("{}: {}", c.trace.iter().cloned().collect::<Vec<_>>().join("."), c.message)).collect::<Vec<_>>().join("\n");
    ConfigModule::new(c, ext).transform(Required).to_result().map_err(lines)
}

pub fn blueprint(m: &ConfigModule) -> Result<Blueprint, String> {
    Blueprint::try_from(m).map_err(|e| e.as_vec().iter().map(|c| format!("{}: {}", c.trace.iter().cloned().collect::<Vec<_>>().join("."), c.message)).collect::<Vec<_>>().join("\n"))
}

pub fn site_of(m: &ConfigModule, endpoints: &str, answer: Answer, gated: bool) -> Result<Site, String> {
    let blueprint = blueprint(m)?;
    let (runtime, log) = rt::runtime(answer, gated);
    let set = if endpoints.is_empty() {
        EndpointSet::default()
    } else {
        let set = EndpointSet::<Unchecked>::try_new(endpoints).map_err(|e| e.to_string())?;
        crate::sched::run(set.into_checked(&blueprint, runtime.clone())).map_err(|e| e.to_string())?
    };
    Ok(Site { ctx: Arc::new(AppContext::new(blueprint, runtime, set)), log })
}

pub fn site(sdl: &str, answer: Answer, gated: bool) -> Result<Site, String> {
    site_of(&config(sdl, Extensions::default())?, "", answer, gated)
}

impl Site {
    pub async fn call(self, method: &'static str, path: String, headers: Vec<(String, String)>, body: String) -> Reply {
        let mut r = Request::builder().method(method).uri(format!("http://site{path}"));
        for (k, v) in &headers {
            r = r.header(k, v);
        }
        let r = r.body(Body::from(body)).unwrap();
        let out = if self.ctx.blueprint.server.enable_batch_requests {
            handle_request::<GraphQLBatchRequest>(r, self.ctx.clone()).await
        } else {
            handle_request::<GraphQLRequest>(r, self.ctx.clone()).await
        };
        match out {
            Ok(r) => {
                let (head, body) = r.into_parts();
                let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for (k, v) in head.headers.iter() {
                    headers.entry(k.to_string()).or_default().push(String::from_utf8_lossy(v.as_bytes()).to_string());
                }
                Reply { status: head.status.as_u16(), headers, body: String::from_utf8_lossy(&hyper::body::to_bytes(body).await.unwrap()).to_string() }
            }
            Err(e) => Reply { status: 0, headers: BTreeMap::new(), body: e.to_string() },
        }
    }
    pub fn request(&self, body: Value, headers: &[(&str, &str)]) -> impl std::future::Future<Output = Reply> + 'static {
        self.clone().call("POST", "/graphql".into(), headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body.to_string())
    }
    /// One query, on its own, nothing else going on.
    pub fn ask(&self, query: &str, variables: Value) -> Reply {
        alone(self.request(json!({ "query": query, "variables": variables }), &[]))
    }
    pub fn ask_with(&self, body: Value, headers: &[(&str, &str)]) -> Reply {
        alone(self.request(body, headers))
    }
}

/// Everything that is under way goes on until nothing is left to happen; the
/// chooser decides what happens next outside, if there is one.
pub fn drive<R>(w: &mut World<R>, ch: Option<&Chooser>) -> Vec<Option<R>> {
    let mut out: Vec<Option<R>> = (0..w.len()).map(|_| None).collect();
    loop {
        if let Some(i) = w.runnable().first().copied() {
            if let Some(r) = w.poll(i) {
                out[i] = Some(r);
            }
            continue;
        }
        if w.alive().is_empty() {
            break;
        }
        let p = w.env.pending();
        if p.is_empty() {
            break;
        }
        let k = ch.map(|c| c.choose(p.len())).unwrap_or(0);
        if let Some(c) = ch {
            c.step();
        }
        w.fire(&p[k], 0);
    }
    out
}

pub fn alone<R: 'static>(f: impl std::future::Future<Output = R> + 'static) -> R {
    let mut w = World::new();
    w.add(f);
    drive(&mut w, None).pop().unwrap().expect("it never ends")
}
