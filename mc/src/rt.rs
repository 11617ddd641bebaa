//! A runtime whose outside world is a function of the check.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

use hyper::body::Bytes;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::http::Response;
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::{EnvIO, FileIO, HttpIO};

#[derive(Default, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sent {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Option<String>,
    pub raw: Vec<u8>,
}

pub fn sent(r: &reqwest::Request) -> Sent {
    let mut headers: Vec<_> = r.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string())).collect();
    headers.sort();
    Sent {
        method: r.method().to_string(),
        url: r.url().to_string(),
        headers,
        body: r.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).to_string()),
        raw: r.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()).unwrap_or_default(),
    }
}

pub type Answer = Arc<dyn Fn(&Sent) -> anyhow::Result<Response<Bytes>> + Send + Sync>;

pub struct Http {
    pub answer: Answer,
    pub log: Arc<Mutex<Vec<Sent>>>,
    pub gated: bool,
}

#[async_trait::async_trait]
impl HttpIO for Http {
    async fn execute(&self, request: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        let s = sent(&request);
        self.log.lock().unwrap().push(s.clone());
        if self.gated {
            crate::sched::gate(format!("{} {}", s.method, s.url)).await;
        }
        (self.answer)(&s)
    }
}

pub struct Env(pub HashMap<String, String>);
impl EnvIO for Env {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.get(key).map(Cow::from)
    }
}

#[derive(Default)]
pub struct Files(pub Mutex<BTreeMap<String, String>>);
#[async_trait::async_trait]
impl FileIO for Files {
    async fn write<'a>(&'a self, path: &'a str, content: &'a [u8]) -> anyhow::Result<()> {
        self.0.lock().unwrap().insert(path.to_string(), String::from_utf8_lossy(content).to_string());
        Ok(())
    }
    async fn read<'a>(&'a self, path: &'a str) -> anyhow::Result<String> {
        self.0.lock().unwrap().get(path).cloned().ok_or_else(|| anyhow::anyhow!("no file {path}"))
    }
}

pub type Log = Arc<Mutex<Vec<Sent>>>;

pub fn runtime(answer: Answer, gated: bool) -> (TargetRuntime, Log) {
    let log: Log = Default::default();
    let http = Arc::new(Http { answer, log: log.clone(), gated });
    (
        TargetRuntime {
            http: http.clone(),
            http2_only: http,
            env: Arc::new(Env(Default::default())),
            file: Arc::new(Files::default()),
            cache: Arc::new(InMemoryCache::default()),
            extensions: Arc::new(vec![]),
            cmd_worker: None,
            worker: None,
        },
        log,
    )
}

pub fn reply(status: u16, headers: &[(&str, &str)], body: impl Into<Vec<u8>>) -> anyhow::Result<Response<Bytes>> {
    let mut h = reqwest::header::HeaderMap::new();
    for (k, v) in headers {
        h.append(reqwest::header::HeaderName::try_from(*k).unwrap(), v.parse().unwrap());
    }
    Ok(Response { status: reqwest::StatusCode::from_u16(status).unwrap(), headers: h, body: Bytes::from(body.into()) })
}

pub fn json(body: impl Into<Vec<u8>>) -> anyhow::Result<Response<Bytes>> {
    reply(200, &[("content-type", "application/json")], body)
}
