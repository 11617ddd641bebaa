From 2183d082fb15492dfff34195a94e812dda647a15 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 01/50] hooks: scheduler points and exports under cfg(vp_mc)

---
 src/core/auth/mod.rs                |   5 +
 src/core/cache/cache.rs             |   7 +-
 src/core/counter.rs                 |   4 +
 src/core/data_loader/cache.rs       |   7 ++
 src/core/data_loader/data_loader.rs |   8 +-
 src/core/data_loader/dedupe.rs      |   7 +-
 src/core/data_loader/mod.rs         |   8 ++
 src/core/generator/mod.rs           |   5 +
 src/core/http/mod.rs                |   5 +
 src/core/http/request_context.rs    |   6 +-
 src/core/mod.rs                     |   8 ++
 src/core/rest/mod.rs                |  22 ++++
 src/core/vp_hooks.rs                | 178 ++++++++++++++++++++++++++++
 13 files changed, 266 insertions(+), 4 deletions(-)
 create mode 100644 src/core/vp_hooks.rs

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 0f0ec36..86d1ea9 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -3,3 +3,8 @@ pub mod error;
 pub mod jwt;
 mod verification;
 pub mod verify;
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::verification::Verification;
+}
diff --git a/src/core/cache/cache.rs b/src/core/cache/cache.rs
index 0f5313d..9a7e957 100644
--- a/src/core/cache/cache.rs
+++ b/src/core/cache/cache.rs
@@ -1,12 +1,17 @@
 use std::hash::Hash;
 use std::num::NonZeroU64;
+#[cfg(not(vp_mc))]
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(vp_mc))]
+use std::sync::RwLock;
 use std::time::Duration;
 
 use ttl_cache::TtlCache;
 
 use super::error::Result;
+#[cfg(vp_mc)]
+use crate::core::vp_hooks::{AtomicUsize, Ordering, RwLock};
 
 pub struct InMemoryCache<K: Hash + Eq, V> {
     data: Arc<RwLock<TtlCache<K, V>>>,
diff --git a/src/core/counter.rs b/src/core/counter.rs
index 5474e90..e4f5a04 100644
--- a/src/core/counter.rs
+++ b/src/core/counter.rs
@@ -1,6 +1,10 @@
 use std::cell::Cell;
+#[cfg(not(vp_mc))]
 use std::sync::Mutex;
 
+#[cfg(vp_mc)]
+use crate::core::vp_hooks::Mutex;
+
 pub trait Count {
     type Item;
     fn next(&self) -> Self::Item;
diff --git a/src/core/data_loader/cache.rs b/src/core/data_loader/cache.rs
index 30d00d6..00f97e0 100644
--- a/src/core/data_loader/cache.rs
+++ b/src/core/data_loader/cache.rs
@@ -120,6 +120,13 @@ pub struct LruCache {
     cap: usize,
 }
 
+#[cfg(vp_mc)]
+impl LruCache {
+    pub fn vp_new(cap: usize) -> Self {
+        Self { cap }
+    }
+}
+
 impl<K, V> CacheFactory<K, V> for LruCache
 where
     K: Send + Sync + Clone + Eq + Hash + 'static,
diff --git a/src/core/data_loader/data_loader.rs b/src/core/data_loader/data_loader.rs
index a7f4df2..ee56417 100644
--- a/src/core/data_loader/data_loader.rs
+++ b/src/core/data_loader/data_loader.rs
@@ -2,17 +2,23 @@ use std::any::TypeId;
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
+#[cfg(not(vp_mc))]
 use std::sync::atomic::{AtomicBool, Ordering};
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(vp_mc))]
+use std::sync::Mutex;
 use std::time::Duration;
 
 use futures_channel::oneshot;
+#[cfg(not(vp_mc))]
 use futures_timer::Delay;
 
 pub use super::cache::NoCache;
 pub use super::factory::CacheFactory;
 pub use super::loader::Loader;
 pub use super::storage::CacheStorage;
+#[cfg(vp_mc)]
+use crate::core::vp_hooks::{AtomicBool, Delay, Mutex, Ordering};
 
 /// Data loader.
 ///
diff --git a/src/core/data_loader/dedupe.rs b/src/core/data_loader/dedupe.rs
index 4ab458a..5c01adf 100644
--- a/src/core/data_loader/dedupe.rs
+++ b/src/core/data_loader/dedupe.rs
@@ -1,10 +1,15 @@
 use std::collections::HashMap;
 use std::hash::Hash;
-use std::sync::{Arc, Mutex, Weak};
+#[cfg(not(vp_mc))]
+use std::sync::Mutex;
+use std::sync::{Arc, Weak};
 
 use futures_util::Future;
 use tokio::sync::broadcast;
 
+#[cfg(vp_mc)]
+use crate::core::vp_hooks::Mutex;
+
 pub trait Key: Send + Sync + Eq + Hash + Clone {}
 impl<A: Send + Sync + Eq + Hash + Clone> Key for A {}
 
diff --git a/src/core/data_loader/mod.rs b/src/core/data_loader/mod.rs
index 56af74d..70f25b3 100644
--- a/src/core/data_loader/mod.rs
+++ b/src/core/data_loader/mod.rs
@@ -10,3 +10,11 @@ pub use cache::LruCache;
 pub use data_loader::DataLoader;
 pub use dedupe::DedupeResult;
 pub use loader::Loader;
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::cache::{HashMapCache, LruCache, NoCache};
+    pub use super::dedupe::Dedupe;
+    pub use super::factory::CacheFactory;
+    pub use super::storage::CacheStorage;
+}
diff --git a/src/core/generator/mod.rs b/src/core/generator/mod.rs
index b988843..a4fb71c 100644
--- a/src/core/generator/mod.rs
+++ b/src/core/generator/mod.rs
@@ -28,3 +28,8 @@ impl NameGenerator {
         format!("{}{}", self.prefix, id)
     }
 }
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::graphql_type::*;
+}
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 816f0fc..e40a507 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -24,3 +24,8 @@ mod transformations;
 
 pub static TAILCALL_HTTPS_ORIGIN: HeaderValue = HeaderValue::from_static("https://tailcall.run");
 pub static TAILCALL_HTTP_ORIGIN: HeaderValue = HeaderValue::from_static("http://tailcall.run");
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::transformations::*;
+}
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..45257f2 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -1,6 +1,8 @@
 use std::num::NonZeroU64;
 use std::str::FromStr;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(vp_mc))]
+use std::sync::Mutex;
 
 use async_graphql_value::ConstValue;
 use cache_control::{Cachability, CacheControl};
@@ -16,6 +18,8 @@ use crate::core::http::{DataLoaderRequest, HttpDataLoader};
 use crate::core::ir::model::IoId;
 use crate::core::ir::Error;
 use crate::core::runtime::TargetRuntime;
+#[cfg(vp_mc)]
+use crate::core::vp_hooks::Mutex;
 use crate::core::{cache, grpc};
 
 #[derive(Setters)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 702d5a0..28b305b 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -7,7 +7,10 @@ mod auth;
 pub mod blueprint;
 pub mod cache;
 pub mod config;
+#[cfg(not(vp_mc))]
 mod counter;
+#[cfg(vp_mc)]
+pub mod counter;
 pub mod data_loader;
 pub mod directive;
 pub mod document;
@@ -37,9 +40,14 @@ pub mod scalar;
 pub mod schema_extension;
 mod serde_value_ext;
 pub mod tracing;
+#[cfg(not(vp_mc))]
 mod transform;
+#[cfg(vp_mc)]
+pub mod transform;
 pub mod try_fold;
 pub mod variance;
+#[cfg(vp_mc)]
+pub mod vp_hooks;
 pub mod worker;
 pub mod worker_hooks;
 pub mod wrapping_type;
diff --git a/src/core/rest/mod.rs b/src/core/rest/mod.rs
index 2a086d5..6ca8f5e 100644
--- a/src/core/rest/mod.rs
+++ b/src/core/rest/mod.rs
@@ -13,3 +13,25 @@ pub use endpoint_set::{Checked, EndpointSet, Unchecked};
 
 type Request = http::Request<hyper::Body>;
 pub use error::{Error, Result};
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::endpoint::*;
+    pub use super::path::*;
+    pub use super::query_params::*;
+    pub use super::type_map::*;
+    pub use super::typed_variables::*;
+
+    /// What `Rest` reads off a directive: path, method, query and body.
+    pub fn rest_directive(
+        directive: &async_graphql::parser::types::Directive,
+    ) -> super::Result<(
+        String,
+        Option<crate::core::http::Method>,
+        std::collections::BTreeMap<String, String>,
+        Option<String>,
+    )> {
+        let rest = super::directive::Rest::try_from(directive)?;
+        Ok((rest.path, rest.method, rest.query, rest.body))
+    }
+}
diff --git a/src/core/vp_hooks.rs b/src/core/vp_hooks.rs
new file mode 100644
index 0000000..a5e0a31
--- /dev/null
+++ b/src/core/vp_hooks.rs
@@ -0,0 +1,178 @@
+//! Hooks for the model checker that lives outside this repository. Compiled
+//! only with `--cfg vp_mc`: lock and atomic types that report every operation
+//! to an installed scheduler, and otherwise behave as the ones of `std`.
+use std::future::Future;
+use std::ops::{Deref, DerefMut};
+use std::pin::Pin;
+pub use std::sync::atomic::Ordering;
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError};
+use std::time::Duration;
+
+pub trait Scheduler: Send + Sync {
+    /// The current thread is about to perform an operation on shared state.
+    fn point(&self, what: &'static str);
+    /// The current thread cannot proceed until `addr` is released.
+    fn blocked(&self, addr: usize);
+    /// `addr` was released.
+    fn released(&self, addr: usize);
+    /// A future that is ready once `duration` has passed.
+    fn delay(&self, duration: Duration) -> Pin<Box<dyn Future<Output = ()> + Send>>;
+}
+
+static SCHEDULER: OnceLock<Box<dyn Scheduler>> = OnceLock::new();
+
+pub fn install(scheduler: Box<dyn Scheduler>) {
+    let _ = SCHEDULER.set(scheduler);
+}
+
+fn point(what: &'static str) {
+    if let Some(s) = SCHEDULER.get() {
+        s.point(what)
+    }
+}
+
+fn blocked(addr: usize) {
+    match SCHEDULER.get() {
+        Some(s) => s.blocked(addr),
+        None => std::thread::yield_now(),
+    }
+}
+
+fn released(addr: usize) {
+    if let Some(s) = SCHEDULER.get() {
+        s.released(addr)
+    }
+}
+
+pub struct Delay;
+
+impl Delay {
+    #[allow(clippy::new_ret_no_self)]
+    pub fn new(duration: Duration) -> Pin<Box<dyn Future<Output = ()> + Send>> {
+        match SCHEDULER.get() {
+            Some(s) => s.delay(duration),
+            None => Box::pin(futures_timer::Delay::new(duration)),
+        }
+    }
+}
+
+pub struct Guard<G> {
+    inner: Option<G>,
+    addr: usize,
+}
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        drop(self.inner.take());
+        released(self.addr);
+    }
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &Self::Target {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+fn acquire<G>(
+    addr: usize,
+    what: &'static str,
+    mut attempt: impl FnMut() -> Result<G, TryLockError<G>>,
+) -> LockResult<Guard<G>> {
+    point(what);
+    loop {
+        match attempt() {
+            Ok(g) => return Ok(Guard { inner: Some(g), addr }),
+            Err(TryLockError::Poisoned(p)) => {
+                return Err(PoisonError::new(Guard {
+                    inner: Some(p.into_inner()),
+                    addr,
+                }))
+            }
+            Err(TryLockError::WouldBlock) => blocked(addr),
+        }
+    }
+}
+
+#[derive(Default, Debug)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::Mutex::new(t))
+    }
+    pub fn lock(&self) -> LockResult<Guard<std::sync::MutexGuard<'_, T>>> {
+        acquire(self as *const _ as usize, "lock", || self.0.try_lock())
+    }
+}
+
+#[derive(Default, Debug)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::RwLock::new(t))
+    }
+    pub fn read(&self) -> LockResult<Guard<std::sync::RwLockReadGuard<'_, T>>> {
+        acquire(self as *const _ as usize, "read", || self.0.try_read())
+    }
+    pub fn write(&self) -> LockResult<Guard<std::sync::RwLockWriteGuard<'_, T>>> {
+        acquire(self as *const _ as usize, "write", || self.0.try_write())
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $t:ty) => {
+        #[derive(Default, Debug)]
+        pub struct $name(std::sync::atomic::$name);
+        impl $name {
+            pub fn new(v: $t) -> Self {
+                Self(std::sync::atomic::$name::new(v))
+            }
+            pub fn load(&self, o: Ordering) -> $t {
+                point("load");
+                self.0.load(o)
+            }
+            pub fn store(&self, v: $t, o: Ordering) {
+                point("store");
+                self.0.store(v, o)
+            }
+            pub fn swap(&self, v: $t, o: Ordering) -> $t {
+                point("swap");
+                self.0.swap(v, o)
+            }
+        }
+        impl From<$t> for $name {
+            fn from(v: $t) -> Self {
+                Self::new(v)
+            }
+        }
+    };
+}
+atomic!(AtomicBool, bool);
+atomic!(AtomicUsize, usize);
+
+impl AtomicUsize {
+    pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
+        point("fetch_add");
+        self.0.fetch_add(v, o)
+    }
+}
+
+/// Otherwise private items the checks drive directly.
+pub mod export {
+    pub use crate::core::auth::vp_export as auth;
+    pub use crate::core::counter;
+    pub use crate::core::data_loader::vp_export as data_loader;
+    pub use crate::core::generator::vp_export as generator;
+    pub use crate::core::http::vp_export as http;
+    pub use crate::core::rest::vp_export as rest;
+    pub use crate::core::transform;
+}
-- 
2.43.0


From 9ed0d4ef78f1e40b9df3c71ef90089a39472a8e7 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 02/50] fix: compare and replace the minimal max-age under one
 lock

---
 src/core/http/request_context.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 45257f2..82d8024 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -59,9 +59,6 @@ impl RequestContext {
             allowed_headers: HeaderMap::new(),
         }
     }
-    fn set_min_max_age_conc(&self, min_max_age: i32) {
-        *self.min_max_age.lock().unwrap() = Some(min_max_age);
-    }
     pub fn get_min_max_age(&self) -> Option<i32> {
         *self.min_max_age.lock().unwrap()
     }
@@ -75,16 +72,10 @@ impl RequestContext {
     }
 
     pub fn set_min_max_age(&self, max_age: i32) {
-        let min_max_age_lock = self.get_min_max_age();
-        match min_max_age_lock {
-            Some(min_max_age) if max_age < min_max_age => {
-                self.set_min_max_age_conc(max_age);
-            }
-            None => {
-                self.set_min_max_age_conc(max_age);
-            }
-            _ => {}
-        }
+        // compared and replaced under one lock: two responses may report their
+        // max-age at the same time
+        let mut min_max_age = self.min_max_age.lock().unwrap();
+        *min_max_age = Some(min_max_age.map_or(max_age, |current| current.min(max_age)));
     }
 
     pub fn set_cache_visibility(&self, cachability: &Option<Cachability>) {
-- 
2.43.0


From d8e472ba343d46b35566b324c7e1379b1a7de8f6 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 03/50] fix: do not turn a max-age above i32::MAX into a
 negative one

---
 src/core/http/request_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 82d8024..1d2119d 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -86,7 +86,7 @@ impl RequestContext {
 
     pub fn set_cache_control(&self, cache_policy: CacheControl) {
         if let Some(max_age) = cache_policy.max_age {
-            self.set_min_max_age(max_age.as_secs() as i32);
+            self.set_min_max_age(i32::try_from(max_age.as_secs()).unwrap_or(i32::MAX));
         }
         self.set_cache_visibility(&cache_policy.cachability);
         if Some(Cachability::NoCache) == cache_policy.cachability {
-- 
2.43.0


From a17ba89167cb6fb00d81b45e2a3e5cd5313a322d Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 04/50] fix: compare data loader requests themselves, not their
 64-bit hashes

---
 src/core/grpc/data_loader_request.rs | 20 +++++++++++---------
 src/core/http/data_loader_request.rs | 21 ++++++++++++---------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 7ee4bba..911fe20 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeSet;
 use std::hash::{Hash, Hasher};
 
 use anyhow::Result;
-use tailcall_hasher::TailcallHasher;
+use http::header::HeaderValue;
 
 use super::request_template::RenderedRequestTemplate;
 
@@ -28,15 +28,17 @@ impl Hash for DataLoaderRequest {
 
 impl PartialEq for DataLoaderRequest {
     fn eq(&self, other: &Self) -> bool {
-        let mut hasher_self = TailcallHasher::default();
-        self.hash(&mut hasher_self);
-        let hash_self = hasher_self.finish();
-
-        let mut hasher_other = TailcallHasher::default();
-        other.hash(&mut hasher_other);
-        let hash_other = hasher_other.finish();
+        // must not rely on comparing hashes only: requests with the same hash are
+        // not necessarily the same request
+        fn listed(req: &DataLoaderRequest) -> impl Iterator<Item = (&String, &HeaderValue)> {
+            req.batch_headers
+                .iter()
+                .filter_map(|name| Some((name, req.template.headers.get(name)?)))
+        }
 
-        hash_self == hash_other
+        self.template.url == other.template.url
+            && self.template.body == other.template.body
+            && listed(self).eq(listed(other))
     }
 }
 
diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..bc05752 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -2,7 +2,7 @@ use std::collections::BTreeSet;
 use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
-use tailcall_hasher::TailcallHasher;
+use reqwest::header::HeaderValue;
 
 #[derive(Debug)]
 pub struct DataLoaderRequest {
@@ -56,15 +56,18 @@ impl Hash for DataLoaderRequest {
 
 impl PartialEq for DataLoaderRequest {
     fn eq(&self, other: &Self) -> bool {
-        let mut hasher_self = TailcallHasher::default();
-        self.hash(&mut hasher_self);
-        let hash_self = hasher_self.finish();
-
-        let mut hasher_other = TailcallHasher::default();
-        other.hash(&mut hasher_other);
-        let hash_other = hasher_other.finish();
+        // must not rely on comparing hashes only: requests with the same hash are
+        // not necessarily the same request
+        fn listed(req: &DataLoaderRequest) -> impl Iterator<Item = (&String, &HeaderValue)> {
+            req.headers
+                .iter()
+                .filter_map(|name| Some((name, req.request.headers().get(name)?)))
+        }
 
-        hash_self == hash_other
+        self.request.url() == other.request.url()
+            && self.request.body().map(|body| body.as_bytes())
+                == other.request.body().map(|body| body.as_bytes())
+            && listed(self).eq(listed(other))
     }
 }
 
-- 
2.43.0


From 688c288b35e3ed6e5d6cab0e6e274d2495d96790 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 05/50] fix: keep integer ids exact when a batched response is
 grouped

---
 src/core/json/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..2e5faae 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -44,6 +44,9 @@ fn group_by_key<'json, J: JsonLike<'json>>(
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            // large integers can't be represented by f64 precisely
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From 7b0903a5f5882844127025b11a0569eda74ded80 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 06/50] fix: do not batch upstream requests that differ in url
 or batch headers

---
 src/core/graphql/data_loader.rs      | 22 ++++++++++++
 src/core/grpc/data_loader.rs         | 23 +++++++++++++
 src/core/grpc/data_loader_request.rs | 15 +++++----
 src/core/http/data_loader.rs         | 50 ++++++++++++++++++++++++++++
 src/core/http/data_loader_request.rs | 15 +++++----
 5 files changed, 111 insertions(+), 14 deletions(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index dd637c4..b3df34d 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -5,6 +5,7 @@ use std::time::Duration;
 
 use async_graphql::async_trait;
 use async_graphql::futures_util::future::join_all;
+use indexmap::IndexMap;
 
 use crate::core::config::Batch;
 use crate::core::data_loader::{DataLoader, Loader};
@@ -42,6 +43,27 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if self.batch {
+            // requests are sent together only if they differ in nothing but their body,
+            // e.g. not on behalf of different users
+            let mut batches: IndexMap<_, Vec<DataLoaderRequest>> = IndexMap::new();
+            for key in keys {
+                let headers: Vec<_> = key.listed_headers().collect();
+                batches
+                    .entry((key.url(), headers))
+                    .or_default()
+                    .push(key.clone());
+            }
+
+            if batches.len() > 1 {
+                let results = join_all(batches.values().map(|batch| self.load(batch))).await;
+                let mut hashmap = HashMap::new();
+                for result in results {
+                    hashmap.extend(result?);
+                }
+
+                return Ok(hashmap);
+            }
+
             let batched_req = create_batched_request(keys);
             let result = self.runtime.http.execute(batched_req).await?.to_json();
             let hashmap = extract_responses(result, keys);
diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index 38dac54..0edd61c 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -6,6 +6,7 @@ use anyhow::Result;
 use async_graphql::async_trait;
 use async_graphql::futures_util::future::join_all;
 use async_graphql_value::ConstValue;
+use indexmap::IndexMap;
 
 use super::data_loader_request::DataLoaderRequest;
 use super::protobuf::ProtobufOperation;
@@ -108,6 +109,28 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
+            // requests are sent together only if they differ in nothing but their body,
+            // e.g. not on behalf of different users
+            let mut batches: IndexMap<_, Vec<DataLoaderRequest>> = IndexMap::new();
+            for key in keys {
+                let headers: Vec<_> = key.listed_headers().collect();
+                batches
+                    .entry((&key.template.url, headers))
+                    .or_default()
+                    .push(key.clone());
+            }
+
+            if batches.len() > 1 {
+                let results = join_all(batches.values().map(|batch| self.load(batch))).await;
+                #[allow(clippy::mutable_key_type)]
+                let mut hashmap = HashMap::new();
+                for result in results {
+                    hashmap.extend(result?);
+                }
+
+                return Ok(hashmap);
+            }
+
             self.load_with_group_by(group_by, keys)
                 .await
                 .map_err(Arc::new)
diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 911fe20..3eebb45 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -30,15 +30,9 @@ impl PartialEq for DataLoaderRequest {
     fn eq(&self, other: &Self) -> bool {
         // must not rely on comparing hashes only: requests with the same hash are
         // not necessarily the same request
-        fn listed(req: &DataLoaderRequest) -> impl Iterator<Item = (&String, &HeaderValue)> {
-            req.batch_headers
-                .iter()
-                .filter_map(|name| Some((name, req.template.headers.get(name)?)))
-        }
-
         self.template.url == other.template.url
             && self.template.body == other.template.body
-            && listed(self).eq(listed(other))
+            && self.listed_headers().eq(other.listed_headers())
     }
 }
 
@@ -47,6 +41,13 @@ impl DataLoaderRequest {
         Self { template, batch_headers }
     }
 
+    /// Headers that are part of the identity of the request
+    pub fn listed_headers(&self) -> impl Iterator<Item = (&String, &HeaderValue)> {
+        self.batch_headers
+            .iter()
+            .filter_map(|name| Some((name, self.template.headers.get(name)?)))
+    }
+
     pub fn to_request(&self) -> Result<reqwest::Request> {
         self.template.to_request()
     }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 72d72c4..60d9c14 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -5,6 +5,9 @@ use std::time::Duration;
 use async_graphql::async_trait;
 use async_graphql::futures_util::future::join_all;
 use async_graphql_value::ConstValue;
+use indexmap::IndexMap;
+use reqwest::header::HeaderValue;
+use reqwest::{Method, Url};
 use tailcall_valid::Validator;
 
 use super::transformations::{BodyBatching, QueryBatching};
@@ -35,6 +38,31 @@ fn get_body_value_list(body_value: &HashMap<String, Vec<&ConstValue>>, id: &str)
     )
 }
 
+/// Everything that is sent once for the whole batch: method, url, the listed
+/// headers and, for requests batched by query only, the rest of the query.
+fn batch_identity(
+    request: &DataLoaderRequest,
+    group_by: &GroupBy,
+) -> (Method, Url, Vec<(String, HeaderValue)>) {
+    let mut url = request.url().clone();
+    url.set_query(None);
+
+    if request.method() == Method::GET {
+        let rest = request
+            .url()
+            .query_pairs()
+            .filter(|(key, _)| key != group_by.key());
+        url.query_pairs_mut().extend_pairs(rest);
+    }
+
+    let headers = request
+        .listed_headers()
+        .map(|(name, value)| (name.clone(), value.clone()))
+        .collect();
+
+    (request.method().clone(), url, headers)
+}
+
 #[derive(Clone)]
 pub struct HttpDataLoader {
     pub runtime: TargetRuntime,
@@ -63,6 +91,28 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
+            // requests are sent together only if they differ in nothing but the batched
+            // part, e.g. not on behalf of different users
+            let mut batches: IndexMap<_, Vec<DataLoaderRequest>> = IndexMap::new();
+            for key in keys {
+                batches
+                    .entry(batch_identity(key, group_by))
+                    .or_default()
+                    .push(key.clone());
+            }
+
+            if batches.len() > 1 {
+                let results = join_all(batches.values().map(|batch| self.load(batch))).await;
+
+                #[allow(clippy::mutable_key_type)]
+                let mut hashmap = HashMap::with_capacity(keys.len());
+                for result in results {
+                    hashmap.extend(result?);
+                }
+
+                return Ok(hashmap);
+            }
+
             let query_name = group_by.key();
             let mut dl_requests = keys.to_vec();
             if cfg!(debug_assertions) {
diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index bc05752..2c535f6 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -35,6 +35,13 @@ impl DataLoaderRequest {
     pub fn headers(&self) -> &BTreeSet<String> {
         &self.headers
     }
+
+    /// Headers that are part of the identity of the request
+    pub fn listed_headers(&self) -> impl Iterator<Item = (&String, &HeaderValue)> {
+        self.headers
+            .iter()
+            .filter_map(|name| Some((name, self.request.headers().get(name)?)))
+    }
 }
 impl Hash for DataLoaderRequest {
     fn hash<H: Hasher>(&self, state: &mut H) {
@@ -58,16 +65,10 @@ impl PartialEq for DataLoaderRequest {
     fn eq(&self, other: &Self) -> bool {
         // must not rely on comparing hashes only: requests with the same hash are
         // not necessarily the same request
-        fn listed(req: &DataLoaderRequest) -> impl Iterator<Item = (&String, &HeaderValue)> {
-            req.headers
-                .iter()
-                .filter_map(|name| Some((name, req.request.headers().get(name)?)))
-        }
-
         self.request.url() == other.request.url()
             && self.request.body().map(|body| body.as_bytes())
                 == other.request.body().map(|body| body.as_bytes())
-            && listed(self).eq(listed(other))
+            && self.listed_headers().eq(other.listed_headers())
     }
 }
 
-- 
2.43.0


From b17b69c3858c90281cbe5adc4e66defb4eece15f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 07/50] fix: keep a verifySSL setting that a merged
 configuration does not mention

Reading @upstream without verifySSL used to set it to true, so merging such a
configuration on the right reset a false given on the left.
---
 src/core/config/directives/upstream.rs | 4 ++--
 src/core/mod.rs                        | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/config/directives/upstream.rs b/src/core/config/directives/upstream.rs
index 0beeb99..87ae8f3 100644
--- a/src/core/config/directives/upstream.rs
+++ b/src/core/config/directives/upstream.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use tailcall_macros::{DirectiveDefinition, InputDefinition};
 
 use crate::core::macros::MergeRight;
-use crate::core::{default_verify_ssl, is_default, verify_ssl_is_default};
+use crate::core::{is_default, verify_ssl_is_default};
 
 const DEFAULT_MAX_SIZE: usize = 100;
 
@@ -137,7 +137,7 @@ pub struct Upstream {
     pub user_agent: Option<String>,
 
     #[serde(
-        default = "default_verify_ssl",
+        default,
         rename = "verifySSL",
         skip_serializing_if = "verify_ssl_is_default"
     )]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 28b305b..b029a2c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -68,11 +68,6 @@ pub use tailcall_macros as macros;
 pub use transform::Transform;
 pub use wrapping_type::Type;
 
-const DEFAULT_VERIFY_SSL: bool = true;
-pub const fn default_verify_ssl() -> Option<bool> {
-    Some(DEFAULT_VERIFY_SSL)
-}
-
 pub trait EnvIO: Send + Sync + 'static {
     fn get(&self, key: &str) -> Option<Cow<'_, str>>;
 }
-- 
2.43.0


From eb6fbf4b07974aa806d7bfed709ca7625204b637 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 08/50] hooks: export the pair tables and the comment paths of
 protobuf descriptors

---
 src/core/config/transformer/merge_types/mod.rs | 6 ++++++
 src/core/config/transformer/mod.rs             | 2 ++
 src/core/generator/mod.rs                      | 3 +++
 src/core/vp_hooks.rs                           | 1 +
 4 files changed, 12 insertions(+)

diff --git a/src/core/config/transformer/merge_types/mod.rs b/src/core/config/transformer/merge_types/mod.rs
index 803ee0d..ea4482d 100644
--- a/src/core/config/transformer/merge_types/mod.rs
+++ b/src/core/config/transformer/merge_types/mod.rs
@@ -5,3 +5,9 @@ mod similarity;
 mod type_merger;
 
 pub use type_merger::TypeMerger;
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::pair_map::PairMap;
+    pub use super::pair_set::PairSet;
+}
diff --git a/src/core/config/transformer/mod.rs b/src/core/config/transformer/mod.rs
index 01a037c..c4d6a9c 100644
--- a/src/core/config/transformer/mod.rs
+++ b/src/core/config/transformer/mod.rs
@@ -13,6 +13,8 @@ mod union_input_type;
 pub use ambiguous_type::{AmbiguousType, Resolution};
 pub use flatten_single_field::FlattenSingleField;
 pub use improve_type_names::ImproveTypeNames;
+#[cfg(vp_mc)]
+pub use merge_types::vp_export;
 pub use merge_types::TypeMerger;
 pub use nested_unions::NestedUnions;
 pub use preset::Preset;
diff --git a/src/core/generator/mod.rs b/src/core/generator/mod.rs
index a4fb71c..4ff8f14 100644
--- a/src/core/generator/mod.rs
+++ b/src/core/generator/mod.rs
@@ -32,4 +32,7 @@ impl NameGenerator {
 #[cfg(vp_mc)]
 pub mod vp_export {
     pub use super::graphql_type::*;
+    pub use super::proto::comments_builder::CommentsBuilder;
+    pub use super::proto::path_builder::PathBuilder;
+    pub use super::proto::path_field::PathField;
 }
diff --git a/src/core/vp_hooks.rs b/src/core/vp_hooks.rs
index a5e0a31..b42f567 100644
--- a/src/core/vp_hooks.rs
+++ b/src/core/vp_hooks.rs
@@ -169,6 +169,7 @@ impl AtomicUsize {
 /// Otherwise private items the checks drive directly.
 pub mod export {
     pub use crate::core::auth::vp_export as auth;
+    pub use crate::core::config::transformer::vp_export as merge_types;
     pub use crate::core::counter;
     pub use crate::core::data_loader::vp_export as data_loader;
     pub use crate::core::generator::vp_export as generator;
-- 
2.43.0


From d3c961f8a3b065e60a459a024161708521d49747 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 09/50] fix: a path matches a REST endpoint only if it has all
 its segments

A shorter path used to match, leaving the endpoint's variables unset.
---
 src/core/rest/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..998a89f 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,8 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From 39934056fde6df7c81de656d48b370afa038fbd7 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 10/50] fix: name the unexpected type in the errors about REST
 parameters

The messages printed a literal 0 instead.
---
 src/core/rest/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/rest/error.rs b/src/core/rest/error.rs
index f0fde34..6b88b67 100644
--- a/src/core/rest/error.rs
+++ b/src/core/rest/error.rs
@@ -9,10 +9,10 @@ use tailcall_valid::ValidationError;
 
 #[derive(From, thiserror::Error, Debug)]
 pub enum Error {
-    #[error("Unexpected Named Type: {}", 0.to_string())]
+    #[error("Unexpected Named Type: {}", _0)]
     UnexpectedNamedType(Name),
 
-    #[error("Unexpected Type: {}, expected a named type like String, Float, Boolean etc.", 0.to_string())]
+    #[error("Unexpected Type: {}, expected a named type like String, Float, Boolean etc.", _0)]
     UnexpectedType(Type),
 
     #[error("Serde Json Error: {}", _0)]
-- 
2.43.0


From fc32fb0541849eeab537aab2ec19d23ca9c7f82a Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 11/50] fix: type a REST query parameter as the variable it is
 passed to

The type was looked up under the parameter's name, so a parameter named
differently from its variable was refused, or read with another variable's type.
---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..033ab56 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(v.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From a629a70599c98994e59f2f32174cd65297e97f90 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 12/50] fix: describe a scalar of objects as an object

---
 tailcall-macros/src/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tailcall-macros/src/gen.rs b/tailcall-macros/src/gen.rs
index f063551..822d1ae 100644
--- a/tailcall-macros/src/gen.rs
+++ b/tailcall-macros/src/gen.rs
@@ -72,7 +72,7 @@ pub fn doc(input: TokenStream) -> TokenStream {
         let instance_type = match ty.as_str() {
             "integer" => quote! { InstanceType::Integer },
             "string" => quote! { InstanceType::String },
-            "object" => quote! { InstanceType::Integer },
+            "object" => quote! { InstanceType::Object },
             _ => quote! { InstanceType::Null },
         };
 
-- 
2.43.0


From 8aa479affec091b7eda85355e1d05902ed4e8c23 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 13/50] fix: do not panic on an error whose cause has no
 message

---
 src/core/errata.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 6864abf..518a0d7 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -79,10 +79,9 @@ fn margin(str: &str, margin: usize) -> String {
 }
 
 fn bullet(str: &str) -> String {
-    let mut chars = margin(str, 2).chars().collect::<Vec<char>>();
-    chars[0] = '•';
-    chars[1] = ' ';
-    chars.into_iter().collect::<String>()
+    // the margin is where the bullet goes; an empty text has none
+    let text = margin(str, 2);
+    format!("• {}", text.get(2..).unwrap_or_default())
 }
 
 impl Display for Errata {
-- 
2.43.0


From 6a3377a75d235ac185eb4654f8eeba3d133a92d4 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 14/50] fix: keep the description of a validation error

---
 src/core/errata.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 518a0d7..ba0051b 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -217,7 +217,12 @@ impl From<ValidationError<String>> for Errata {
                 .as_vec()
                 .iter()
                 .map(|cause| {
-                    Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()))
+                    let mut err =
+                        Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()));
+                    if let Some(description) = &cause.description {
+                        err = err.description(description.to_owned());
+                    }
+                    err
                 })
                 .collect(),
         )
-- 
2.43.0


From b7c64946f9c1302bc2da0b3ee63638f383214c83 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 15/50] fix: color an error all the way down to its causes

---
 src/core/errata.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index ba0051b..c0404a9 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -63,9 +63,11 @@ impl Errata {
 
     pub fn color(mut self, color: bool) -> Self {
         self.color = color;
-        for inner in self.caused_by.iter_mut() {
-            inner.color = color;
-        }
+        self.caused_by = self
+            .caused_by
+            .into_iter()
+            .map(|inner| inner.color(color))
+            .collect();
         self
     }
 }
-- 
2.43.0


From 0e81954488b872312f6b60fb63d08f38ce31932a Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 16/50] vp_mc: export the generic directive and the
 authentication errors

---
 src/core/auth/mod.rs   | 2 ++
 src/core/config/mod.rs | 5 +++++
 src/core/vp_hooks.rs   | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 86d1ea9..bbe3a2f 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -6,5 +6,7 @@ pub mod verify;
 
 #[cfg(vp_mc)]
 pub mod vp_export {
+    pub use super::error::Error;
     pub use super::verification::Verification;
+    pub use super::{basic, jwt, verify};
 }
diff --git a/src/core/config/mod.rs b/src/core/config/mod.rs
index 8236e78..b2821f1 100644
--- a/src/core/config/mod.rs
+++ b/src/core/config/mod.rs
@@ -27,3 +27,8 @@ mod resolver;
 mod source;
 pub mod transformer;
 mod url_query;
+
+#[cfg(vp_mc)]
+pub mod vp_export {
+    pub use super::directive::{to_const_directive, to_directive};
+}
diff --git a/src/core/vp_hooks.rs b/src/core/vp_hooks.rs
index b42f567..39f0a7f 100644
--- a/src/core/vp_hooks.rs
+++ b/src/core/vp_hooks.rs
@@ -170,6 +170,7 @@ impl AtomicUsize {
 pub mod export {
     pub use crate::core::auth::vp_export as auth;
     pub use crate::core::config::transformer::vp_export as merge_types;
+    pub use crate::core::config::vp_export as directive;
     pub use crate::core::counter;
     pub use crate::core::data_loader::vp_export as data_loader;
     pub use crate::core::generator::vp_export as generator;
-- 
2.43.0


From e8adbbbfc295017746d577d93b9adda0ea610e11 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 17/50] fix: a response with one protected field is not kept
 for others

---
 src/core/jit/transform/check_protected.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..3fc4406 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if evaluating the IR involves a Protected Value
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,9 +37,11 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
+        // one protected field is enough: the response for such a plan depends on who
+        // asks for it and must not be reused for others
+        plan.is_protected = plan.iter_dfs().any(|field| match field.ir {
             Some(ref ir) => is_protected(ir),
-            None => true,
+            None => false,
         });
 
         Valid::succeed(plan)
-- 
2.43.0


From 280200b6f1f9146adb92e0d4eb9c410cc8b0d7cb Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 18/50] fix: tell operations, variables and the requests of a
 batch apart

The plan and the constant response of a request were kept by the text of the
query alone, and the requests of a batch were executed under one id.
---
 src/core/async_graphql_hyper.rs  | 10 ++++++++
 src/core/jit/graphql_executor.rs | 39 +++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..752bc1b 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,16 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// Id of one of the requests that are sent together under this id
+    pub fn of(&self, request: &impl Hash) -> OperationId {
+        let mut hasher = TailcallHasher::default();
+        self.hash(&mut hasher);
+        request.hash(&mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..c7084a2 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -44,13 +44,14 @@ impl JITExecutor {
     #[inline(always)]
     async fn dedupe_and_exec(
         &self,
+        operation_id: OperationId,
         exec: ConstValueExecutor,
         jit_request: jit::Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
         let out = self
             .app_ctx
             .dedupe_operation_handler
-            .dedupe(&self.operation_id, || {
+            .dedupe(&operation_id, || {
                 Box::pin(async move {
                     let resp = self.exec(exec, jit_request).await;
                     Ok(resp)
@@ -61,10 +62,31 @@ impl JITExecutor {
         out.unwrap_or_default()
     }
 
+    /// Identifies the plan of the request: the same document may contain
+    /// several operations
     #[inline(always)]
-    fn req_hash(request: &async_graphql::Request) -> OPHash {
+    fn plan_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+
+        OPHash::new(hasher.finish())
+    }
+
+    /// Identifies the response to the request: the same plan may be executed
+    /// with different variables
+    #[inline(always)]
+    fn response_hash(plan_hash: &OPHash, request: &async_graphql::Request) -> OPHash {
+        if request.variables.is_empty() {
+            return plan_hash.clone();
+        }
+
+        let mut hasher = TailcallHasher::default();
+        plan_hash.hash(&mut hasher);
+        for (name, value) in request.variables.iter() {
+            name.hash(&mut hasher);
+            value.to_string().hash(&mut hasher);
+        }
 
         OPHash::new(hasher.finish())
     }
@@ -75,12 +97,11 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
-        let hash = Self::req_hash(&request);
+        let hash = Self::plan_hash(&request);
+        let response_hash = Self::response_hash(&hash, &request);
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+            if let Some(response) = self.app_ctx.const_execution_cache.get(&response_hash) {
                 return response.clone();
             }
 
@@ -106,7 +127,9 @@ impl JITExecutor {
             let is_protected = exec.plan.is_protected;
 
             let response = if exec.plan.can_dedupe() {
-                self.dedupe_and_exec(exec, jit_request).await
+                // the requests of a batch share the id of the batch
+                let operation_id = self.operation_id.of(&response_hash);
+                self.dedupe_and_exec(operation_id, exec, jit_request).await
             } else {
                 self.exec(exec, jit_request).await
             };
@@ -115,7 +138,7 @@ impl JITExecutor {
             if is_const && !is_protected {
                 self.app_ctx
                     .const_execution_cache
-                    .insert(hash, response.clone());
+                    .insert(response_hash, response.clone());
             }
 
             response
-- 
2.43.0


From c2545d167e9ad2d718edb02400ce6f9ff9c88c55 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 19/50] fix: a GraphQL upstream is asked again for another user
 or another upstream

Cached and shared answers were found by the text of the query alone.
---
 src/core/graphql/request_template.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..36b27b9 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -195,8 +195,22 @@ impl RequestTemplate {
 impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let graphql_query = self.render_graphql_query(ctx);
-        graphql_query.hash(&mut hasher);
+        let state = &mut hasher;
+
+        // the same query may be sent to another upstream, or on behalf of another user
+        self.url.hash(state);
+
+        for (name, mustache) in self.headers.iter() {
+            name.hash(state);
+            mustache.render_graphql(ctx).hash(state);
+        }
+
+        for (name, value) in ctx.headers().iter() {
+            name.hash(state);
+            value.hash(state);
+        }
+
+        self.render_graphql_query(ctx).hash(state);
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From 5a85f3d5c1ea0eedec8a230eff4e43cdbe494662 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 20/50] fix: a gRPC upstream is asked again for another user,
 and a URL that is none is an error

Cached and shared answers were found by the url and the message alone, and
asking for a key of a url that cannot be parsed ended in a panic.
---
 src/core/grpc/request_template.rs | 7 ++++++-
 src/core/http/request_template.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..c148278 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -120,8 +120,13 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
+        let rendered_req = self.render(ctx).ok()?;
         rendered_req.hash(&mut hasher);
+        // the same message may be sent on behalf of another user
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
         Some(IoId::new(hasher.finish()))
     }
 }
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..0cf53d7 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -272,7 +272,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.render(ctx).hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 1e6e6bc80f08151fc29bb7fb15d3ff4f76e1e129 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 21/50] fix: resolve the fields of an aliased object

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..0dcd772 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -117,7 +117,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From 5bef927873419af268eaafeb50ce73dd350239c6 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 22/50] fix: follow all of @skip and @include, on fragments too

---
 src/core/jit/builder.rs | 57 +++++++++++++++++++++++++++++++++++------
 src/core/jit/model.rs   | 33 ++++++++++++------------
 2 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..ef1173b 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -16,6 +16,30 @@ use crate::core::counter::{Count, Counter};
 use crate::core::jit::model::OperationPlan;
 use crate::core::{scalar, Type};
 
+/// The conditions a field takes over from the fragments it's selected in
+#[derive(Clone, Default)]
+struct Scope {
+    skip: Vec<Variable>,
+    include: Vec<Variable>,
+}
+
+impl Scope {
+    /// Adds the conditions to the ones that are already there, or returns None
+    /// if these can never be met
+    fn with(&self, conditions: Conditions) -> Option<Self> {
+        if conditions.is_const_skip() || conditions.include == Condition::False {
+            return None;
+        }
+
+        let mut scope = self.clone();
+        let (include, skip) = conditions.into_variable_tuple();
+        scope.include.extend(include);
+        scope.skip.extend(skip);
+
+        Some(scope)
+    }
+}
+
 #[derive(PartialEq, strum_macros::Display)]
 enum Condition {
     True,
@@ -133,6 +157,7 @@ impl<'a> Builder<'a> {
         selection: &SelectionSet,
         type_condition: &str,
         fragments: &HashMap<&str, &FragmentDefinition>,
+        scope: &Scope,
     ) -> Vec<Field<Value>> {
         let mut fields = vec![];
         let mut fragments_fields = vec![];
@@ -147,16 +172,18 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|a| a.node.as_str())
                         .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-                    let conditions = self.include(&gql_field.directives);
 
                     // Skip fields based on GraphQL's skip/include conditions
-                    if conditions.is_const_skip() {
+                    let Some(Scope { skip, include }) =
+                        scope.with(self.include(&gql_field.directives))
+                    else {
+                        continue;
+                    };
+
+                    if visited.contains(output_name) {
                         continue;
                     }
+                    visited.insert(output_name);
 
                     let mut directives = Vec::with_capacity(gql_field.directives.len());
                     for directive in &gql_field.directives {
@@ -174,7 +201,6 @@ impl<'a> Builder<'a> {
                             .push(JitDirective { name: directive.name.to_string(), arguments });
                     }
 
-                    let (include, skip) = conditions.into_variable_tuple();
                     let request_args = gql_field
                         .arguments
                         .iter()
@@ -217,6 +243,7 @@ impl<'a> Builder<'a> {
                             &gql_field.selection_set.node,
                             type_of.name(),
                             fragments,
+                            &Scope::default(),
                         );
 
                         let ir = match field_def {
@@ -277,6 +304,9 @@ impl<'a> Builder<'a> {
                     }
                 }
                 Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
+                    let Some(scope) = scope.with(self.include(&fragment_spread.directives)) else {
+                        continue;
+                    };
                     if let Some(fragment) =
                         fragments.get(fragment_spread.fragment_name.node.as_str())
                     {
@@ -285,10 +315,14 @@ impl<'a> Builder<'a> {
                             &fragment.selection_set.node,
                             fragment.type_condition.node.on.node.as_str(),
                             fragments,
+                            &scope,
                         ));
                     }
                 }
                 Selection::InlineFragment(Positioned { node: fragment, .. }) => {
+                    let Some(scope) = scope.with(self.include(&fragment.directives)) else {
+                        continue;
+                    };
                     let type_of = fragment
                         .type_condition
                         .as_ref()
@@ -299,6 +333,7 @@ impl<'a> Builder<'a> {
                         &fragment.selection_set.node,
                         type_of,
                         fragments,
+                        &scope,
                     ));
                 }
             }
@@ -361,7 +396,13 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        let fields = self.iter(
+            None,
+            &operation.selection_set.node,
+            name,
+            &fragments,
+            &Scope::default(),
+        );
 
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..ff7c69d 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -68,18 +68,15 @@ impl<V> FromIterator<(String, V)> for Variables<V> {
 impl<Input> Field<Input> {
     #[inline(always)]
     pub fn skip<'json, Value: JsonLike<'json>>(&self, variables: &Variables<Value>) -> bool {
-        let eval =
-            |variable_option: Option<&Variable>, variables: &Variables<Value>, default: bool| {
-                variable_option
-                    .map(|a| a.as_str())
-                    .and_then(|name| variables.get(name))
-                    .and_then(|value| value.as_bool())
-                    .unwrap_or(default)
-            };
-        let skip = eval(self.skip.as_ref(), variables, false);
-        let include = eval(self.include.as_ref(), variables, true);
+        let eval = |variable: &Variable, default: bool| {
+            variables
+                .get(variable.as_str())
+                .and_then(|value| value.as_bool())
+                .unwrap_or(default)
+        };
 
-        skip == include
+        self.skip.iter().any(|variable| eval(variable, false))
+            || !self.include.iter().all(|variable| eval(variable, true))
     }
 
     /// Returns the __typename of the value related to this field
@@ -183,8 +180,10 @@ pub struct Field<Input> {
     /// interface, type, union, input type.
     /// See [spec](https://spec.graphql.org/October2021/#sec-Type-Conditions)
     pub type_condition: Option<String>,
-    pub skip: Option<Variable>,
-    pub include: Option<Variable>,
+    /// The field is left out if any of these variables is set
+    pub skip: Vec<Variable>,
+    /// The field is left out unless all of these variables are set
+    pub include: Vec<Variable>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -283,11 +282,11 @@ impl<Input: Debug> Debug for Field<Input> {
         if !self.selection.is_empty() {
             debug_struct.field("selection", &self.selection);
         }
-        if self.skip.is_some() {
-            debug_struct.field("skip", &self.skip);
+        for skip in &self.skip {
+            debug_struct.field("skip", &Some(skip));
         }
-        if self.include.is_some() {
-            debug_struct.field("include", &self.include);
+        for include in &self.include {
+            debug_struct.field("include", &Some(include));
         }
         debug_struct.field("directives", &self.directives);
 
-- 
2.43.0


From 023bfc5537ca9f309d0fd99b7edc08018453f008 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 23/50] fix: merge the fields selected more than once, and
 follow every fragment around them

---
 src/core/jit/builder.rs           | 47 ++++++++++++++-------------
 src/core/jit/model.rs             | 54 ++++++++++++++++++++++++-------
 src/core/jit/synth/synth.rs       |  3 +-
 src/core/jit/transform/graphql.rs | 29 +++++++++++------
 src/core/jit/transform/skip.rs    |  8 ++++-
 5 files changed, 96 insertions(+), 45 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index ef1173b..4630306 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -19,6 +19,7 @@ use crate::core::{scalar, Type};
 /// The conditions a field takes over from the fragments it's selected in
 #[derive(Clone, Default)]
 struct Scope {
+    outer_conditions: Vec<String>,
     skip: Vec<Variable>,
     include: Vec<Variable>,
 }
@@ -38,6 +39,17 @@ impl Scope {
 
         Some(scope)
     }
+
+    /// Adds the type of the fragment another one on the type is inside of
+    fn inside(mut self, fragment: Option<&str>, type_of: &str, index: &Index) -> Self {
+        self.outer_conditions.extend(
+            fragment
+                .filter(|fragment| !index.is_type_implements(type_of, fragment))
+                .map(|fragment| fragment.to_string()),
+        );
+
+        self
+    }
 }
 
 #[derive(PartialEq, strum_macros::Display)]
@@ -160,8 +172,6 @@ impl<'a> Builder<'a> {
         scope: &Scope,
     ) -> Vec<Field<Value>> {
         let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
 
         for selection in &selection.items {
             match &selection.node {
@@ -174,17 +184,12 @@ impl<'a> Builder<'a> {
                         .unwrap_or(field_name);
 
                     // Skip fields based on GraphQL's skip/include conditions
-                    let Some(Scope { skip, include }) =
+                    let Some(Scope { outer_conditions, skip, include }) =
                         scope.with(self.include(&gql_field.directives))
                     else {
                         continue;
                     };
 
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-
                     let mut directives = Vec::with_capacity(gql_field.directives.len());
                     for directive in &gql_field.directives {
                         let directive = &directive.node;
@@ -272,6 +277,7 @@ impl<'a> Builder<'a> {
                             is_enum: self.index.type_is_enum(type_of.name()),
                             type_of,
                             type_condition: Some(type_condition.to_string()),
+                            outer_conditions,
                             skip,
                             include,
                             args,
@@ -289,6 +295,7 @@ impl<'a> Builder<'a> {
                             ir: None,
                             type_of: Type::Named { name: "String".to_owned(), non_null: true },
                             type_condition: Some(type_condition.to_string()),
+                            outer_conditions,
                             skip,
                             include,
                             args: Vec::new(),
@@ -310,12 +317,13 @@ impl<'a> Builder<'a> {
                     if let Some(fragment) =
                         fragments.get(fragment_spread.fragment_name.node.as_str())
                     {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
+                        let type_of = fragment.type_condition.node.on.node.as_str();
+                        fields.extend(self.iter(
+                            Some(type_of),
                             &fragment.selection_set.node,
-                            fragment.type_condition.node.on.node.as_str(),
+                            type_of,
                             fragments,
-                            &scope,
+                            &scope.inside(parent_fragment, type_of, &self.index),
                         ));
                     }
                 }
@@ -328,24 +336,17 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|cond| cond.node.on.node.as_str())
                         .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
+                    fields.extend(self.iter(
                         Some(type_of),
                         &fragment.selection_set.node,
                         type_of,
                         fragments,
-                        &scope,
+                        &scope.inside(parent_fragment, type_of, &self.index),
                     ));
                 }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
-                continue;
-            }
-            fields.push(field);
-        }
-        fields.sort_by(|a, b| a.id.cmp(&b.id));
-        fields
+        Field::merge(fields)
     }
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index ff7c69d..0356e3a 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -90,6 +90,34 @@ impl<Input> Field<Input> {
     pub fn iter(&self) -> impl Iterator<Item = &Field<Input>> {
         self.selection.iter()
     }
+
+    /// Checks if the fields are the same one, selected twice
+    fn is_twin(&self, other: &Self) -> bool {
+        self.output_name == other.output_name
+            && self.type_condition == other.type_condition
+            && self.outer_conditions == other.outer_conditions
+            && self.skip == other.skip
+            && self.include == other.include
+    }
+
+    /// Merges the fields that are selected more than once
+    /// based on [spec](https://spec.graphql.org/October2021/#sec-Field-Selection-Merging)
+    pub(super) fn merge(fields: Vec<Self>) -> Vec<Self> {
+        let mut merged: Vec<Self> = Vec::with_capacity(fields.len());
+
+        for field in fields {
+            match merged.iter_mut().find(|other| other.is_twin(&field)) {
+                Some(twin) => {
+                    let mut selection = std::mem::take(&mut twin.selection);
+                    selection.extend(field.selection);
+                    twin.selection = Self::merge(selection);
+                }
+                None => merged.push(field),
+            }
+        }
+
+        merged
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -180,6 +208,9 @@ pub struct Field<Input> {
     /// interface, type, union, input type.
     /// See [spec](https://spec.graphql.org/October2021/#sec-Type-Conditions)
     pub type_condition: Option<String>,
+    /// Other types the value has to be of, if the field is selected in a
+    /// fragment inside of another one
+    pub outer_conditions: Vec<String>,
     /// The field is left out if any of these variables is set
     pub skip: Vec<Variable>,
     /// The field is left out unless all of these variables are set
@@ -240,6 +271,7 @@ impl<Input> Field<Input> {
             ir: self.ir,
             type_of: self.type_of,
             type_condition: self.type_condition,
+            outer_conditions: self.outer_conditions,
             selection: self
                 .selection
                 .into_iter()
@@ -425,17 +457,17 @@ impl<Input> OperationPlan<Input> {
     where
         Output: TypedValue<'a>,
     {
-        match &field.type_condition {
-            Some(type_condition) => match value.get_type_name() {
-                Some(value_type) => self.index.is_type_implements(value_type, type_condition),
-                // if there is no __typename in value that means there is a bug in implementation
-                // such we haven't resolved the concrete type or type shouldn't be
-                // inferred here at all and we should just use the field
-                None => true,
-            },
-            // if there is no type_condition restriction then use this field
-            None => true,
-        }
+        // if there is no __typename in value that means there is a bug in implementation
+        // such we haven't resolved the concrete type or type shouldn't be
+        // inferred here at all and we should just use the field.
+        // if there is no type_condition restriction then use this field
+        value.get_type_name().is_none_or(|value_type| {
+            field
+                .type_condition
+                .iter()
+                .chain(&field.outer_conditions)
+                .all(|condition| self.index.is_type_implements(value_type, condition))
+        })
     }
     /// returns true if plan is dedupable
     pub fn can_dedupe(&self) -> bool {
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..fde1d89 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -197,7 +197,8 @@ where
                     {
                         // all checks for skip must occur in `iter_inner`
                         // and include be checked before calling `iter` or recursing.
-                        if self.include(child) {
+                        let is_known = fields.iter().any(|(name, _)| *name == child.output_name);
+                        if !is_known && self.include(child) {
                             let value = if child.name == "__typename" {
                                 Output::string(node.value_type(value).into())
                             } else {
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index d15b9f3..a051895 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -25,17 +25,28 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
     base_field: &mut [Field<A>],
     interfaces: &HashSet<String>,
 ) {
-    for field in base_field.iter_mut() {
-        if let Some(ir) = field.ir.as_mut() {
+    // the field may be selected more than once on different conditions, and
+    // the response has to fit any of these
+    let selection_sets = base_field
+        .iter()
+        .map(|field| {
+            field.ir.as_ref()?;
+            format_selection_set(
+                base_field
+                    .iter()
+                    .filter(|other| other.output_name == field.output_name)
+                    .flat_map(|other| other.selection.iter()),
+                interfaces,
+                interfaces.contains(field.type_of.name()),
+            )
+        })
+        .collect::<Vec<_>>();
+
+    for (field, selection_set) in base_field.iter_mut().zip(selection_sets) {
+        if let Some((ir, v)) = field.ir.as_mut().zip(selection_set) {
             ir.modify_io(&mut |io| {
                 if let IO::GraphQL { req_template, .. } = io {
-                    if let Some(v) = format_selection_set(
-                        field.selection.iter(),
-                        interfaces,
-                        interfaces.contains(field.type_of.name()),
-                    ) {
-                        req_template.selection = Some(Mustache::parse(&v).into());
-                    }
+                    req_template.selection = Some(Mustache::parse(&v).into());
                 }
             });
         }
diff --git a/src/core/jit/transform/skip.rs b/src/core/jit/transform/skip.rs
index 0ecd315..b695462 100644
--- a/src/core/jit/transform/skip.rs
+++ b/src/core/jit/transform/skip.rs
@@ -34,9 +34,15 @@ where
     }
 }
 
-/// Drops all the fields that are not needed based on the set variables
+/// Drops all the fields that are not needed based on the set variables, the
+/// ones that are left are needed no matter what
 fn skip<Input, Var: for<'b> JsonLike<'b>>(fields: &mut Vec<Field<Input>>, vars: &Variables<Var>) {
     fields.retain(|f| !f.skip(vars));
+    for field in fields.iter_mut() {
+        field.skip.clear();
+        field.include.clear();
+    }
+    *fields = Field::merge(std::mem::take(fields));
     for field in fields {
         skip(&mut field.selection, vars);
     }
-- 
2.43.0


From 46ced1ca28b6b825fdeade1cebe5a1cc685aa280 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 24/50] fix: execute the root fields of a mutation one after
 another

---
 src/core/jit/exec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index 0dcd772..e89ffc2 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::mem;
 use std::sync::{Arc, Mutex};
 
+use async_graphql::parser::types::OperationType;
 use derive_getters::Getters;
 use futures_util::future::join_all;
 
@@ -74,13 +75,23 @@ where
     }
 
     async fn init(&mut self) {
-        join_all(self.request.plan().selection.iter().map(|field| async {
+        let fields = self.request.plan().selection.iter().map(|field| async {
             let ctx = Context::new(field, self.request);
             // TODO: with_args should be called on inside iter_field on any level, not only
             // for root fields
             self.execute(&ctx).await
-        }))
-        .await;
+        });
+
+        if self.request.plan().operation_type() == OperationType::Mutation {
+            // root fields of the mutation have side effects that have to happen
+            // in the given order
+            // see [spec](https://spec.graphql.org/October2021/#sec-Mutation)
+            for field in fields {
+                let _ = field.await;
+            }
+        } else {
+            join_all(fields).await;
+        }
     }
 
     async fn iter_field<'b>(
-- 
2.43.0


From c085b253d395960a81b9f268460ecbfd16510c3b Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 25/50] fix: use the default values of an operation's variables

---
 src/core/jit/builder.rs                  | 10 +++++++++-
 src/core/jit/exec_const.rs               | 10 ++++++----
 src/core/jit/model.rs                    | 15 +++++++++++++++
 src/core/jit/transform/input_resolver.rs |  1 +
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 4630306..ae78e86 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -414,7 +414,7 @@ impl<'a> Builder<'a> {
             }
         });
 
-        let plan = OperationPlan::new(
+        let mut plan = OperationPlan::new(
             name,
             fields,
             operation.ty,
@@ -422,6 +422,14 @@ impl<'a> Builder<'a> {
             is_introspection_query,
             Some(self.index.get_interfaces()),
         );
+
+        for Positioned { node: definition, .. } in &operation.variable_definitions {
+            if let Some(value) = definition.default_value() {
+                plan.default_variables
+                    .insert(definition.name.node.to_string(), value.clone());
+            }
+        }
+
         Ok(plan)
     }
 }
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..5f84a37 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -38,8 +38,13 @@ impl ConstValueExecutor {
         self,
         app_ctx: &Arc<AppContext>,
         req_ctx: &RequestContext,
-        request: Request<ConstValue>,
+        mut request: Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
+        // Variables that are not set have the default values of the operation
+        request
+            .variables
+            .set_defaults(&self.plan.default_variables);
+
         // Run all the IRs in the before chain
         if let Some(ir) = &self.plan.before {
             let mut eval_context = EvalContext::new(req_ctx, &EmptyResolverContext {});
@@ -71,9 +76,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 0356e3a..ceab9bc 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -47,6 +47,17 @@ impl<Value> Variables<Value> {
     pub fn insert(&mut self, key: String, value: Value) {
         self.0.insert(key, value);
     }
+    /// Sets the variables that are not set yet
+    pub fn set_defaults(&mut self, defaults: &Self)
+    where
+        Value: Clone,
+    {
+        for (key, value) in &defaults.0 {
+            if !self.0.contains_key(key) {
+                self.0.insert(key.clone(), value.clone());
+            }
+        }
+    }
     pub fn try_map<Output, Error>(
         self,
         map: impl Fn(Value) -> Result<Output, Error>,
@@ -349,6 +360,8 @@ pub struct OperationPlan<Input> {
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
     pub interfaces: Option<HashSet<String>>,
+    /// Values of the variables to use if the request doesn't set these
+    pub default_variables: Variables<ConstValue>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -374,6 +387,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
             interfaces: None,
+            default_variables: self.default_variables,
         })
     }
 }
@@ -403,6 +417,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: None,
             before: Default::default(),
             interfaces,
+            default_variables: Default::default(),
         }
     }
 
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..877cf59 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -85,6 +85,7 @@ where
             is_protected: self.plan.is_protected,
             min_cache_ttl: self.plan.min_cache_ttl,
             interfaces: None,
+            default_variables: self.plan.default_variables,
             selection,
             before: self.plan.before,
         })
-- 
2.43.0


From 18e0050a2f5844730dd579305c7b74eab857b1fa Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 26/50] fix: keep the order of fields that are selected more
 than once

---
 src/core/jit/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index ceab9bc..c76563e 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -121,6 +121,8 @@ impl<Input> Field<Input> {
                 Some(twin) => {
                     let mut selection = std::mem::take(&mut twin.selection);
                     selection.extend(field.selection);
+                    // ids are given in the order the fields are requested in
+                    selection.sort_by(|a, b| a.id.cmp(&b.id));
                     twin.selection = Self::merge(selection);
                 }
                 None => merged.push(field),
-- 
2.43.0


From c894c38914a08e68e2c1e68531d2404300f10547 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 27/50] fix: a value in a query template stays one value of one
 parameter

---
 src/core/http/query_encoder.rs    | 27 ++++++++++-
 src/core/http/request_template.rs | 78 ++++++++++++++-----------------
 2 files changed, 59 insertions(+), 46 deletions(-)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 208c7a9..c1745d4 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 use crate::core::path::ValueString;
 
 /// Defines different strategies for encoding query parameters.
@@ -16,7 +18,7 @@ impl QueryEncoder {
         if let Some(value) = raw_value {
             match &value {
                 ValueString::Value(val) => self.encode_const_value(key, val),
-                ValueString::String(val) => format!("{}={}", key, val),
+                ValueString::String(val) => format!("{}={}", key, escape(val)),
             }
         } else {
             key.to_owned()
@@ -61,7 +63,7 @@ impl QueryEncoder {
 
 pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     match value {
-        async_graphql::Value::String(s) => Some(s.to_string()),
+        async_graphql::Value::String(s) => Some(escape(s).into_owned()),
         async_graphql::Value::Number(n) => Some(n.to_string()),
         async_graphql::Value::Boolean(b) => Some(b.to_string()),
         async_graphql::Value::Enum(e) => Some(e.to_string()),
@@ -69,6 +71,27 @@ pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     }
 }
 
+/// Escapes the characters that have a meaning of their own in a query string,
+/// so that a value stays one value wherever it comes from.
+pub fn escape(value: &str) -> Cow<'_, str> {
+    const SPECIAL: &[char] = &['%', '&', '+', '#', '\t', '\n', '\r'];
+
+    if !value.contains(SPECIAL) {
+        return Cow::Borrowed(value);
+    }
+
+    let mut escaped = String::with_capacity(value.len() + 8);
+    for ch in value.chars() {
+        if SPECIAL.contains(&ch) {
+            escaped.push_str(&format!("%{:02X}", ch as u32));
+        } else {
+            escaped.push(ch);
+        }
+    }
+
+    Cow::Owned(escaped)
+}
+
 #[cfg(test)]
 mod tests {
     use std::borrow::Cow;
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 0cf53d7..d1e22a2 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -6,7 +6,7 @@ use http::header::{HeaderMap, HeaderValue};
 use tailcall_hasher::TailcallHasher;
 use url::Url;
 
-use super::query_encoder::QueryEncoder;
+use super::query_encoder::{escape, QueryEncoder};
 use crate::core::config::Encoding;
 use crate::core::endpoint::Endpoint;
 use crate::core::has_headers::HasHeaders;
@@ -14,7 +14,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::DynamicRequest;
 use crate::core::mustache::{Eval, Mustache, Segment};
-use crate::core::path::{PathString, PathValue, ValueString};
+use crate::core::path::{PathString, PathValue};
 
 /// RequestTemplate is an extension of a Mustache template.
 /// Various parts of the template can be written as a mustache template.
@@ -48,27 +48,44 @@ impl RequestTemplate {
             return Ok(url);
         }
 
-        // evaluates mustache template and returns the values evaluated by mustache
-        // template.
-        let mustache_eval = ValueStringEval::default();
-
         let extra_qp = self.query.iter().filter_map(|query| {
             let key = &query.key;
-            let value = &query.value;
-            let skip = query.skip_empty;
-            let parsed_value = mustache_eval.eval(value, ctx);
-            if skip && parsed_value.is_none() {
-                None
-            } else {
-                Some(self.query_encoder.encode(key, parsed_value))
+            match query.value.segments().as_slice() {
+                // the value of a single expression is encoded according to its type
+                [] | [Segment::Expression(_)] => {
+                    let parsed_value = match query.value.segments().first() {
+                        Some(Segment::Expression(parts)) => ctx.raw_value(parts),
+                        _ => None,
+                    };
+                    if query.skip_empty && parsed_value.is_none() {
+                        None
+                    } else {
+                        Some(self.query_encoder.encode(key, parsed_value))
+                    }
+                }
+                segments => {
+                    let value = segments
+                        .iter()
+                        .map(|segment| match segment {
+                            Segment::Literal(text) => Cow::Borrowed(text.as_str()),
+                            Segment::Expression(parts) => {
+                                let value = ctx.path_string(parts).unwrap_or_default();
+                                Cow::Owned(escape(&value).into_owned())
+                            }
+                        })
+                        .collect::<String>();
+                    Some(format!("{}={}", key, value))
+                }
             }
         });
 
-        let base_qp = url
-            .query_pairs()
-            .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
+        // keep the query of the url as it is written, without what has no value
+        let base_qp = url.query().unwrap_or_default().split('&').filter(|pair| {
+            pair.split_once('=')
+                .is_some_and(|(_, value)| !value.is_empty())
+        });
 
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
+        let qp_string = base_qp.map(|pair| pair.to_string());
         let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
@@ -279,33 +296,6 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
     }
 }
 
-/// ValueStringEval parses the mustache template and uses ctx to retrieve the
-/// values for templates.
-struct ValueStringEval<A>(std::marker::PhantomData<A>);
-impl<A> Default for ValueStringEval<A> {
-    fn default() -> Self {
-        Self(std::marker::PhantomData)
-    }
-}
-
-impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
-    type In = A;
-    type Out = Option<ValueString<'a>>;
-
-    fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        mustache
-            .segments()
-            .iter()
-            .filter_map(|segment| match segment {
-                Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
-                    async_graphql::Value::String(text.to_owned()),
-                ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
-            })
-            .next() // Return the first value that is found
-    }
-}
-
 struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
 impl<A> Default for ExpressionValueEval<A> {
     fn default() -> Self {
-- 
2.43.0


From 736cc19d44beaa58440634d05fd0609b44074cff Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 28/50] fix: a value in a JSON body template cannot break out
 of its string

---
 src/core/http/request_template.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index d1e22a2..2e53146 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -156,7 +156,7 @@ impl RequestTemplate {
                 Encoding::ApplicationXWwwFormUrlencoded => {
                     // TODO: this is a performance bottleneck
                     // We first encode everything to string and then back to form-urlencoded
-                    let body = body_path.render(ctx);
+                    let (body, _) = ExpressionValueEval::default().eval(body_path, ctx);
                     let form_data = match serde_json::from_str::<serde_json::Value>(&body) {
                         Ok(deserialized_data) => serde_urlencoded::to_string(deserialized_data)?,
                         Err(_) => body,
@@ -286,7 +286,8 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
         }
 
         if let Some(body) = self.body_path.as_ref() {
-            body.render(ctx).hash(state)
+            let (body, _) = ExpressionValueEval::default().eval(body, ctx);
+            body.hash(state)
         }
 
         let url = self.create_url(ctx).ok()?;
@@ -323,12 +324,18 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
         // - This approach eliminates the need for repeated JSON parsing/serialization
         //   during the batching process, significantly improving performance
         let mut first_expression_value = None;
+        // An expression with text around it is a part of a JSON string.
+        let inside_string = mustache.segments().len() > 1;
         for segment in mustache.segments().iter() {
             match segment {
                 Segment::Literal(text) => result.push_str(text),
                 Segment::Expression(parts) => {
                     if let Some(value) = in_value.path_string(parts) {
-                        result.push_str(value.as_ref());
+                        if inside_string {
+                            result.push_str(&escape_json(value.as_ref()));
+                        } else {
+                            result.push_str(value.as_ref());
+                        }
                         if first_expression_value.is_none() {
                             first_expression_value = Some(value.into_owned());
                         }
@@ -340,6 +347,16 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
     }
 }
 
+/// Escapes a value so that it can be placed inside of a JSON string
+fn escape_json(value: &str) -> Cow<'_, str> {
+    if !value.contains(|ch: char| ch == '"' || ch == '\\' || ch.is_ascii_control()) {
+        return Cow::Borrowed(value);
+    }
+
+    let quoted = serde_json::Value::from(value).to_string();
+    Cow::Owned(quoted[1..quoted.len() - 1].to_owned())
+}
+
 #[cfg(test)]
 mod tests {
     use std::borrow::Cow;
-- 
2.43.0


From e789e8856977bfac87d7c12dfdd11c639556cc8e Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 29/50] fix: a scalar without a resolver keeps its value

---
 src/core/blueprint/definitions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index a38b498..ce4d48d 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -349,7 +349,11 @@ pub fn fix_dangling_resolvers<'a>() -> TryFold<
     TryFold::<(&ConfigModule, &Field, &config::Type, &str), FieldDefinition, BlueprintError>::new(
         move |(config, field, _, name), mut b_field| {
             let mut set = HashSet::new();
+            let is_object = config
+                .find_type(field.type_of.name())
+                .is_some_and(|ty| !ty.scalar());
             if !field.has_resolver()
+                && is_object
                 && validate_field_has_resolver(name, field, &config.types, &mut set).is_succeed()
             {
                 b_field = b_field.resolver(Some(IR::Dynamic(DynamicValue::Value(
-- 
2.43.0


From 6bc54509c3ed1f664ff215ba74ea6e27fdec804d Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 30/50] fix: every level of a list is judged by its own type

---
 src/core/jit/synth/synth.rs | 152 +++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 72 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index fde1d89..ea82276 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,8 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::scalar::Scalar;
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -72,23 +74,27 @@ where
 
         let result = match self.store.get(&node.id) {
             Some(value) => {
-                let mut value = value.as_ref().map_err(Clone::clone)?;
-
-                for index in data_path.as_slice() {
-                    if let Some(arr) = value.as_array() {
-                        value = &arr[*index];
-                    } else {
-                        return Ok(Output::null());
-                    }
-                }
-
-                if node.type_of.is_list() != value.as_array().is_some() {
-                    return self.node_nullable_guard(node, path, None);
+                let value = value.as_ref().map_err(Clone::clone)?;
+                let value = data_path
+                    .as_slice()
+                    .iter()
+                    .try_fold(value, |value, index| value.as_array()?.get(*index));
+
+                // a resolver of something that isn't a list cannot answer with one, except
+                // for the scalars that may be anything
+                let is_builtin = matches!(node.scalar, Some(Scalar::Empty))
+                    && Scalar::is_predefined(node.type_of.name());
+                let is_unexpected_list = |value: &Value| {
+                    is_builtin && !node.type_of.is_list() && value.as_array().is_some()
+                };
+
+                match value.filter(|value| !is_unexpected_list(value)) {
+                    Some(value) => self.iter_inner(node, &node.type_of, value, data_path, path),
+                    None => self.nullable_guard(node, &node.type_of, path),
                 }
-                self.iter_inner(node, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
+                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
         };
@@ -113,8 +119,22 @@ where
                 return Ok(Output::string(Cow::Borrowed(root_name)));
             }
         }
+        self.nullable_guard(node, &node.type_of, path)
+    }
+
+    /// Null for the part of the node's value that has the given type, in case
+    /// that type permits it
+    fn nullable_guard<Output>(
+        &'a self,
+        node: &'a Field<Value>,
+        type_of: &Type,
+        path: &[PathSegment],
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
         // according to GraphQL spec https://spec.graphql.org/October2021/#sec-Handling-Field-Errors
-        if node.type_of.is_nullable() {
+        if type_of.is_nullable() {
             Ok(Output::null())
         } else {
             Err(ValidationError::ValueRequired.into())
@@ -127,6 +147,7 @@ where
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -139,20 +160,27 @@ where
             return Ok(Output::null());
         }
 
-        let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
+        if value.is_null() {
+            return self.nullable_guard(node, type_of, path);
+        }
+
+        if let Type::List { of_type, .. } = type_of {
+            let Some(arr) = value.as_array() else {
+                return self.nullable_guard(node, type_of, path);
             };
-            if is_nullable {
-                Ok(Output::null())
-            } else {
-                Err(ValidationError::ValueRequired.into())
+
+            let mut ans = Vec::with_capacity(arr.len());
+            for (i, val) in arr.iter().enumerate() {
+                path.push(PathSegment::Index(i));
+                let data_path = data_path.clone().with_index(i);
+                let val = self.iter_inner(node, of_type, val, &data_path, path)?;
+                path.pop();
+                ans.push(val);
             }
-        } else if node.scalar.is_some() {
-            let scalar = node.scalar.as_ref().unwrap();
+            return Ok(Output::array(ans));
+        }
 
+        let eval_result = if let Some(scalar) = node.scalar.as_ref() {
             // TODO: add validation for input type as well. But input types are not checked
             // by async_graphql anyway so it should be done after replacing
             // default engine with JIT
@@ -165,18 +193,10 @@ where
                 )
             }
         } else if node.is_enum {
-            let check_valid_enum = |value: &Value| -> bool {
-                value
-                    .as_str()
-                    .map(|v| self.plan.field_validate_enum_value(node, v))
-                    .unwrap_or(false)
-            };
-
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
+            let is_valid_enum = value
+                .as_str()
+                .map(|v| self.plan.field_validate_enum_value(node, v))
+                .unwrap_or(false);
 
             if is_valid_enum {
                 Ok(Output::clone_from(value))
@@ -187,43 +207,31 @@ where
                 )
             }
         } else {
-            match (value.as_array(), value.as_object()) {
-                (_, Some(obj)) => {
-                    let mut fields = Vec::with_capacity(node.selection.len());
-
-                    for child in node
-                        .iter()
-                        .filter(|field| self.plan.field_is_part_of_value(field, value))
-                    {
-                        // all checks for skip must occur in `iter_inner`
-                        // and include be checked before calling `iter` or recursing.
-                        let is_known = fields.iter().any(|(name, _)| *name == child.output_name);
-                        if !is_known && self.include(child) {
-                            let value = if child.name == "__typename" {
-                                Output::string(node.value_type(value).into())
-                            } else {
-                                let val = obj.get_key(child.name.as_str());
-                                self.iter(child, val, data_path, path, None)?
-                            };
-                            fields.push((child.output_name.as_str(), value));
-                        }
-                    }
+            let Some(obj) = value.as_object() else {
+                return self.nullable_guard(node, type_of, path);
+            };
 
-                    Ok(Output::object(Output::JsonObject::from_vec(fields)))
-                }
-                (Some(arr), _) => {
-                    let mut ans = Vec::with_capacity(arr.len());
-                    for (i, val) in arr.iter().enumerate() {
-                        path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
-                        path.pop();
-                        ans.push(val);
-                    }
-                    Ok(Output::array(ans))
+            let mut fields = Vec::with_capacity(node.selection.len());
+
+            for child in node
+                .iter()
+                .filter(|field| self.plan.field_is_part_of_value(field, value))
+            {
+                // all checks for skip must occur in `iter_inner`
+                // and include be checked before calling `iter` or recursing.
+                let is_known = fields.iter().any(|(name, _)| *name == child.output_name);
+                if !is_known && self.include(child) {
+                    let value = if child.name == "__typename" {
+                        Output::string(node.value_type(value).into())
+                    } else {
+                        let val = obj.get_key(child.name.as_str());
+                        self.iter(child, val, data_path, path, None)?
+                    };
+                    fields.push((child.output_name.as_str(), value));
                 }
-                _ => Ok(Output::clone_from(value)),
             }
+
+            Ok(Output::object(Output::JsonObject::from_vec(fields)))
         };
 
         eval_result.map_err(|e| self.to_location_error(e, node, path))
-- 
2.43.0


From c7e41bb30b21f3beb7e693d271579988b56e4722 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 31/50] fix: a batched request with a body and without an id
 does not fail the others

---
 src/core/http/request_template.rs              | 18 +++++++++---------
 src/core/http/transformations/body_batching.rs |  4 +++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 2e53146..72d99ce 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -330,15 +330,15 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
             match segment {
                 Segment::Literal(text) => result.push_str(text),
                 Segment::Expression(parts) => {
-                    if let Some(value) = in_value.path_string(parts) {
-                        if inside_string {
-                            result.push_str(&escape_json(value.as_ref()));
-                        } else {
-                            result.push_str(value.as_ref());
-                        }
-                        if first_expression_value.is_none() {
-                            first_expression_value = Some(value.into_owned());
-                        }
+                    // a missing value is written as an empty one
+                    let value = in_value.path_string(parts).unwrap_or_default();
+                    if inside_string {
+                        result.push_str(&escape_json(value.as_ref()));
+                    } else {
+                        result.push_str(value.as_ref());
+                    }
+                    if first_expression_value.is_none() {
+                        first_expression_value = Some(value.into_owned());
                     }
                 }
             }
diff --git a/src/core/http/transformations/body_batching.rs b/src/core/http/transformations/body_batching.rs
index 173b776..f808e0b 100644
--- a/src/core/http/transformations/body_batching.rs
+++ b/src/core/http/transformations/body_batching.rs
@@ -30,7 +30,9 @@ impl Transform for BodyBatching<'_> {
         let mut request_bodies = Vec::with_capacity(self.dl_requests.len());
 
         for req in self.dl_requests {
-            if let Some(body) = req.body().and_then(|b| b.as_bytes()) {
+            // what is empty can't be an element of a list
+            let body = req.body().and_then(|b| b.as_bytes());
+            if let Some(body) = body.filter(|body| !body.is_empty()) {
                 request_bodies.push(body);
             }
         }
-- 
2.43.0


From 7fbc3e4255ff0baa1e2fb56d1985b7460e85db02 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 32/50] fix: do not quote the values in the headers of a
 GraphQL upstream

---
 src/core/graphql/request_template.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 36b27b9..c463976 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -14,7 +14,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::{PathGraphql, PathString};
 
 /// Represents a GraphQL selection that can either be resolved or unresolved.
@@ -63,7 +63,7 @@ impl RequestTemplate {
         let mut header_map = HeaderMap::new();
 
         for (k, v) in &self.headers {
-            if let Ok(header_value) = HeaderValue::from_str(&v.render_graphql(ctx)) {
+            if let Ok(header_value) = HeaderValue::from_str(&Self::render_header(v, ctx)) {
                 header_map.insert(k, header_value);
             }
         }
@@ -71,6 +71,22 @@ impl RequestTemplate {
         header_map
     }
 
+    /// Renders the template as a plain text: unlike arguments a header is not a
+    /// GraphQL value, and strings are not quoted there
+    fn render_header<C: PathGraphql>(template: &Mustache, ctx: &C) -> String {
+        template
+            .segments()
+            .iter()
+            .map(|segment| match segment {
+                Segment::Literal(text) => text.to_owned(),
+                Segment::Expression(parts) => {
+                    let value = ctx.path_graphql(parts).unwrap_or_default();
+                    serde_json::from_str::<String>(&value).unwrap_or(value)
+                }
+            })
+            .collect()
+    }
+
     fn set_headers<C: PathGraphql + HasHeaders>(
         &self,
         mut req: reqwest::Request,
-- 
2.43.0


From 409b91728a505326d7bdbb65c80f50977dd0b377 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 33/50] fix: send a GraphQL upstream valid JSON, and the values
 of all the variables

---
 src/core/document.rs                 |  29 ----
 src/core/graphql/request_template.rs |   8 +-
 src/core/ir/eval_context.rs          |   4 +-
 src/core/jit/transform/graphql.rs    | 214 +++++++++++++++++----------
 src/core/path.rs                     |   4 +-
 5 files changed, 142 insertions(+), 117 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..49a6d3d 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -1,14 +1,10 @@
 use std::borrow::Cow;
-use std::fmt::Display;
 
 use async_graphql::parser::types::*;
 use async_graphql::Positioned;
 use async_graphql_value::ConstValue;
 use unicode_segmentation::UnicodeSegmentation;
 
-use super::jit::Directive as JitDirective;
-use super::json::JsonLikeOwned;
-
 struct LineBreaker<'a> {
     string: &'a str,
     break_at: usize,
@@ -449,31 +445,6 @@ impl<'a> From<&'a ConstDirective> for Directive<'a> {
     }
 }
 
-impl<'a, Input: JsonLikeOwned + Display> From<&'a JitDirective<Input>> for Directive<'a> {
-    fn from(value: &'a JitDirective<Input>) -> Self {
-        let to_mustache = |s: &str| -> String {
-            s.strip_prefix('$')
-                .map(|v| format!("{{{{{}}}}}", v))
-                .unwrap_or_else(|| s.to_string())
-        };
-        Self {
-            name: Cow::Borrowed(value.name.as_str()),
-            args: value
-                .arguments
-                .iter()
-                .filter_map(|(k, v)| {
-                    if !v.is_null() {
-                        let v_str = to_mustache(&v.to_string());
-                        Some(Arg { name: Cow::Borrowed(k), value: Cow::Owned(v_str) })
-                    } else {
-                        None
-                    }
-                })
-                .collect(),
-        }
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::get_formatted_docs;
diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index c463976..8494d58 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -148,7 +148,7 @@ impl RequestTemplate {
                     if value.is_empty() {
                         None
                     } else {
-                        Some(format!(r#"{}: {}"#, k, value.escape_default()))
+                        Some(format!(r#"{}: {}"#, k, value))
                     }
                 })
                 .collect::<Vec<_>>()
@@ -168,12 +168,12 @@ impl RequestTemplate {
                 let operation = operation.to_mut();
 
                 operation.push(' ');
-                operation.push_str(&directives.escape_default().to_string());
+                operation.push_str(&directives);
             }
         }
 
-        let query =
-            format!(r#"{{ "query": "{operation_type} {{ {operation} {selection_set} }}" }}"#);
+        let query = format!("{operation_type} {{ {operation} {selection_set} }}");
+        let query = format!(r#"{{ "query": {} }}"#, serde_json::Value::from(query));
         info!("Query {} ", query);
         query
     }
diff --git a/src/core/ir/eval_context.rs b/src/core/ir/eval_context.rs
index 89c03d8..f5517a5 100644
--- a/src/core/ir/eval_context.rs
+++ b/src/core/ir/eval_context.rs
@@ -158,7 +158,7 @@ fn format_selection_field(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&directives);
         }
     }
 
@@ -183,7 +183,7 @@ fn format_selection_field_arguments(field: &SelectionField) -> Cow<'static, str>
         .collect::<Vec<_>>()
         .join(",");
 
-    Cow::Owned(format!("({})", args.escape_default()))
+    Cow::Owned(format!("({})", args))
 }
 
 // TODO: this is the same code as src/json/json_like.rs::get_path
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index a051895..451f844 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -1,15 +1,14 @@
-use std::borrow::Cow;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 use std::convert::Infallible;
-use std::fmt::{Debug, Display};
 use std::marker::PhantomData;
 
+use async_graphql_value::Value;
+use indexmap::IndexMap;
 use tailcall_valid::Valid;
 
-use crate::core::document::print_directives;
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
-use crate::core::json::JsonLikeOwned;
+use crate::core::mustache::Segment;
 use crate::core::{Mustache, Transform};
 
 #[derive(Default)]
@@ -21,10 +20,7 @@ impl<A> GraphQL<A> {
     }
 }
 
-fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
-    base_field: &mut [Field<A>],
-    interfaces: &HashSet<String>,
-) {
+fn compute_selection_set(base_field: &mut [Field<Value>], interfaces: &HashSet<String>) {
     // the field may be selected more than once on different conditions, and
     // the response has to fit any of these
     let selection_sets = base_field
@@ -46,7 +42,7 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
         if let Some((ir, v)) = field.ir.as_mut().zip(selection_set) {
             ir.modify_io(&mut |io| {
                 if let IO::GraphQL { req_template, .. } = io {
-                    req_template.selection = Some(Mustache::parse(&v).into());
+                    req_template.selection = Some(Mustache::from(v.clone()).into());
                 }
             });
         }
@@ -54,8 +50,8 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
     }
 }
 
-impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
-    type Value = OperationPlan<A>;
+impl Transform for GraphQL<Value> {
+    type Value = OperationPlan<Value>;
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
@@ -69,102 +65,158 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
     }
 }
 
-fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
-    selection_set: impl Iterator<Item = &'a Field<A>>,
+fn format_selection_set<'a>(
+    selection_set: impl Iterator<Item = &'a Field<Value>>,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
-) -> Option<String> {
-    let mut fragments_fields = HashMap::new();
+) -> Option<Vec<Segment>> {
+    let mut fragments_fields: IndexMap<&String, Vec<Vec<Segment>>> = IndexMap::new();
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
-    let set = selection_set
-        .filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
-        .map(|field| {
-            // handle @modify directive scenario.
-            let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
-                data.first().cloned().unwrap_or(field.name.to_string())
-            } else {
-                field.name.to_string()
-            };
-            let is_this_field_interface = interfaces.contains(field.type_of.name());
-            let formatted_selection_fields =
-                format_selection_field(field, &field_name, interfaces, is_this_field_interface);
-            is_typename_requested = is_typename_requested
-                || (field_name == "__typename" && field.parent_fragment.is_none());
-            match &field.parent_fragment {
-                Some(fragment) if is_parent_interface => {
-                    fragments_fields
-                        .entry(fragment.to_owned())
-                        .or_insert_with(Vec::new)
-                        .push(formatted_selection_fields);
-                }
-                _ => {
-                    normal_fields.push(formatted_selection_fields);
-                }
+    let mut is_empty = true;
+
+    for field in
+        selection_set.filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
+    {
+        // handle @modify directive scenario.
+        let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
+            data.first().cloned().unwrap_or(field.name.to_string())
+        } else {
+            field.name.to_string()
+        };
+        let is_this_field_interface = interfaces.contains(field.type_of.name());
+        let formatted_selection_fields =
+            format_selection_field(field, &field_name, interfaces, is_this_field_interface);
+        is_empty = false;
+        is_typename_requested = is_typename_requested
+            || (field_name == "__typename" && field.parent_fragment.is_none());
+        match &field.parent_fragment {
+            Some(fragment) if is_parent_interface => {
+                fragments_fields
+                    .entry(fragment)
+                    .or_default()
+                    .push(formatted_selection_fields);
             }
-        })
-        .collect::<Vec<_>>();
+            _ => {
+                normal_fields.push(formatted_selection_fields);
+            }
+        }
+    }
 
-    if set.is_empty() {
+    if is_empty {
         return None;
     }
 
-    let fragments_set: Vec<String> = fragments_fields
-        .into_iter()
-        .map(|(fragment_name, fields)| {
-            format!("... on {} {{ {} }}", fragment_name, fields.join(" "))
-        })
-        .collect();
-
     //Don't force user to query the type and get it automatically
     if is_parent_interface && !is_typename_requested {
-        normal_fields.push("__typename".to_owned());
+        normal_fields.push(vec![text("__typename")]);
     }
-    normal_fields.extend(fragments_set);
-    Some(format!("{{ {} }}", normal_fields.join(" ")))
+
+    for (fragment_name, fields) in fragments_fields {
+        let mut fragment = vec![text(format!("... on {} {{ ", fragment_name))];
+        fragment.extend(join(fields, " "));
+        fragment.push(text(" }"));
+        normal_fields.push(fragment);
+    }
+
+    let mut output = vec![text("{ ")];
+    output.extend(join(normal_fields, " "));
+    output.push(text(" }"));
+    Some(output)
 }
 
-fn format_selection_field<A: Display + JsonLikeOwned>(
-    field: &Field<A>,
+fn format_selection_field(
+    field: &Field<Value>,
     name: &str,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
-) -> String {
-    let arguments = format_selection_field_arguments(field);
+) -> Vec<Segment> {
+    let mut output = vec![text(name)];
+    let arguments = field
+        .args
+        .iter()
+        .filter_map(|arg| Some((arg.name.as_str(), arg.value.as_ref()?)));
+    output.extend(format_arguments(arguments, ","));
+
+    for directive in &field.directives {
+        output.push(text(format!(" @{}", directive.name)));
+        let arguments = directive
+            .arguments
+            .iter()
+            .filter(|(_, value)| !matches!(value, Value::Null))
+            .map(|(name, value)| (name.as_str(), value));
+        output.extend(format_arguments(arguments, ", "));
+    }
+
     let selection_set =
         format_selection_set(field.selection.iter(), interfaces, is_parent_interface);
+    if let Some(selection_set) = selection_set {
+        output.push(text(" "));
+        output.extend(selection_set);
+    }
 
-    let mut output = format!("{}{}", name, arguments);
-
-    if !field.directives.is_empty() {
-        let directives = print_directives(field.directives.iter());
+    output
+}
 
-        if !directives.is_empty() {
-            output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
-        }
-    }
+fn format_arguments<'a>(
+    arguments: impl Iterator<Item = (&'a str, &'a Value)>,
+    separator: &str,
+) -> Vec<Segment> {
+    let arguments = arguments
+        .map(|(name, value)| {
+            let mut output = vec![text(format!("{}: ", name))];
+            format_value(value, &mut output);
+            output
+        })
+        .collect::<Vec<_>>();
 
-    if let Some(selection_set) = selection_set {
-        output.push(' ');
-        output.push_str(&selection_set);
+    if arguments.is_empty() {
+        return vec![];
     }
 
+    let mut output = vec![text("(")];
+    output.extend(join(arguments, separator));
+    output.push(text(")"));
     output
 }
 
-fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static, str> {
-    let arguments = field
-        .args
-        .iter()
-        .filter(|a| a.value.is_some())
-        .map(|arg| arg.to_string())
-        .collect::<Vec<_>>()
-        .join(",");
+/// Prints the value leaving the places of variables to be filled once these are
+/// known.
+fn format_value(value: &Value, output: &mut Vec<Segment>) {
+    match value {
+        Value::Variable(name) => output.push(Segment::Expression(vec![name.to_string()])),
+        Value::List(list) => {
+            output.push(text("["));
+            for (i, value) in list.iter().enumerate() {
+                output.push(text(if i > 0 { ", " } else { "" }));
+                format_value(value, output);
+            }
+            output.push(text("]"));
+        }
+        Value::Object(map) => {
+            output.push(text("{"));
+            for (i, (name, value)) in map.iter().enumerate() {
+                output.push(text(if i > 0 { ", " } else { "" }));
+                output.push(text(format!("{}: ", name)));
+                format_value(value, output);
+            }
+            output.push(text("}"));
+        }
+        value => output.push(text(value.to_string())),
+    }
+}
 
-    if arguments.is_empty() {
-        Cow::Borrowed("")
-    } else {
-        Cow::Owned(format!("({})", arguments.escape_default()))
+fn text(text: impl Into<String>) -> Segment {
+    Segment::Literal(text.into())
+}
+
+fn join(items: Vec<Vec<Segment>>, separator: &str) -> Vec<Segment> {
+    let mut output = vec![];
+    for (i, item) in items.into_iter().enumerate() {
+        if i > 0 {
+            output.push(text(separator));
+        }
+        output.extend(item);
     }
+    output
 }
diff --git a/src/core/path.rs b/src/core/path.rs
index 006450d..906058e 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -122,7 +122,9 @@ impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
 
         self.to_raw_value(path).map(|value| match value {
             ValueString::Value(val) => val.to_string(),
-            ValueString::String(val) => format!(r#""{val}""#),
+            ValueString::String(val) => {
+                async_graphql::Value::String(val.into_owned()).to_string()
+            }
         })
     }
 }
-- 
2.43.0


From 283dfa8f022fbb40fcff83f307442a3150851a6e Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 34/50] fix: ask a GraphQL upstream for its own fields only

Fields with a resolver that is wrapped (in a cache, a select, an argument
renaming) were asked of the upstream as well, and an object with none but
such fields was asked for nothing at all.
---
 src/core/jit/transform/graphql.rs | 64 +++++++++++++++++++------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 451f844..c65ba4a 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -33,7 +33,7 @@ fn compute_selection_set(base_field: &mut [Field<Value>], interfaces: &HashSet<S
                     .filter(|other| other.output_name == field.output_name)
                     .flat_map(|other| other.selection.iter()),
                 interfaces,
-                interfaces.contains(field.type_of.name()),
+                field,
             )
         })
         .collect::<Vec<_>>();
@@ -65,29 +65,48 @@ impl Transform for GraphQL<Value> {
     }
 }
 
+/// The name the upstream knows the field by, unless the field has a resolver of
+/// its own and is none of the upstream's.
+fn upstream_field_name(field: &Field<Value>) -> Option<&str> {
+    let Some(mut ir) = field.ir.as_ref() else {
+        return Some(&field.name);
+    };
+
+    loop {
+        ir = match ir {
+            // handle @modify directive scenario.
+            IR::ContextPath(path) => {
+                return Some(
+                    path.first()
+                        .map_or(field.name.as_str(), |name| name.as_str()),
+                )
+            }
+            IR::Path(ir, _) | IR::Protect(_, ir) | IR::Discriminate(_, ir) => ir,
+            IR::Map(map) => &map.input,
+            _ => return None,
+        }
+    }
+}
+
 fn format_selection_set<'a>(
     selection_set: impl Iterator<Item = &'a Field<Value>>,
     interfaces: &HashSet<String>,
-    is_parent_interface: bool,
+    parent: &Field<Value>,
 ) -> Option<Vec<Segment>> {
+    if parent.scalar.is_some() || parent.is_enum {
+        return None;
+    }
+
+    let is_parent_interface = interfaces.contains(parent.type_of.name());
     let mut fragments_fields: IndexMap<&String, Vec<Vec<Segment>>> = IndexMap::new();
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
-    let mut is_empty = true;
-
-    for field in
-        selection_set.filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
-    {
-        // handle @modify directive scenario.
-        let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
-            data.first().cloned().unwrap_or(field.name.to_string())
-        } else {
-            field.name.to_string()
+
+    for field in selection_set {
+        let Some(field_name) = upstream_field_name(field) else {
+            continue;
         };
-        let is_this_field_interface = interfaces.contains(field.type_of.name());
-        let formatted_selection_fields =
-            format_selection_field(field, &field_name, interfaces, is_this_field_interface);
-        is_empty = false;
+        let formatted_selection_fields = format_selection_field(field, field_name, interfaces);
         is_typename_requested = is_typename_requested
             || (field_name == "__typename" && field.parent_fragment.is_none());
         match &field.parent_fragment {
@@ -103,12 +122,11 @@ fn format_selection_set<'a>(
         }
     }
 
-    if is_empty {
-        return None;
-    }
-
     //Don't force user to query the type and get it automatically
-    if is_parent_interface && !is_typename_requested {
+    // and an object has to be asked for something, even if all of the fields are
+    // resolved elsewhere
+    let is_nothing_requested = normal_fields.is_empty() && fragments_fields.is_empty();
+    if is_nothing_requested || (is_parent_interface && !is_typename_requested) {
         normal_fields.push(vec![text("__typename")]);
     }
 
@@ -129,7 +147,6 @@ fn format_selection_field(
     field: &Field<Value>,
     name: &str,
     interfaces: &HashSet<String>,
-    is_parent_interface: bool,
 ) -> Vec<Segment> {
     let mut output = vec![text(name)];
     let arguments = field
@@ -148,8 +165,7 @@ fn format_selection_field(
         output.extend(format_arguments(arguments, ", "));
     }
 
-    let selection_set =
-        format_selection_set(field.selection.iter(), interfaces, is_parent_interface);
+    let selection_set = format_selection_set(field.selection.iter(), interfaces, field);
     if let Some(selection_set) = selection_set {
         output.push(text(" "));
         output.extend(selection_set);
-- 
2.43.0


From e5fa8a73391525d56e73a948bf9dbb6a11207ae2 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 35/50] fix: a value in the template of a gRPC message cannot
 break out of its string

---
 src/core/grpc/request_template.rs | 22 ++++++++++++++++++++--
 src/core/http/mod.rs              |  1 +
 src/core/http/request_template.rs |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index c148278..7f7a48f 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::hash::{Hash, Hasher};
 
 use anyhow::Result;
@@ -11,8 +12,9 @@ use crate::core::config::GraphQLOperationType;
 use crate::core::grpc::protobuf::ProtobufOperation;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
+use crate::core::http::escape_json;
 use crate::core::ir::model::{CacheKey, IoId};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::PathString;
 
 static GRPC_MIME_TYPE: HeaderValue = HeaderValue::from_static("application/grpc");
@@ -35,7 +37,23 @@ pub struct RequestBody {
 impl RequestBody {
     pub fn render<C: PathString>(&self, ctx: &C) -> String {
         if let Some(mustache) = &self.mustache {
-            mustache.render(ctx)
+            let segments = mustache.segments();
+            // An expression with text around it is a part of a JSON string.
+            let inside_string = segments.len() > 1;
+            segments
+                .iter()
+                .map(|segment| match segment {
+                    Segment::Literal(text) => Cow::Borrowed(text.as_str()),
+                    Segment::Expression(parts) => {
+                        let value = ctx.path_string(parts).unwrap_or_default();
+                        if inside_string {
+                            Cow::Owned(escape_json(&value).into_owned())
+                        } else {
+                            value
+                        }
+                    }
+                })
+                .collect()
         } else {
             self.value.to_string()
         }
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index e40a507..571210d 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -6,6 +6,7 @@ pub use method::Method;
 pub use query_encoder::QueryEncoder;
 pub use request_context::RequestContext;
 pub use request_handler::{handle_request, API_URL_PREFIX};
+pub(crate) use request_template::escape_json;
 pub use request_template::RequestTemplate;
 pub use response::*;
 
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 72d99ce..1945e6f 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -348,7 +348,7 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
 }
 
 /// Escapes a value so that it can be placed inside of a JSON string
-fn escape_json(value: &str) -> Cow<'_, str> {
+pub(crate) fn escape_json(value: &str) -> Cow<'_, str> {
     if !value.contains(|ch: char| ch == '"' || ch == '\\' || ch.is_ascii_control()) {
         return Cow::Borrowed(value);
     }
-- 
2.43.0


From 152dc33925f39afe3044673bcb5130ed66dda2c8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 36/50] fix: a field batched with gRPC may leave out fields of
 the message

---
 src/core/blueprint/operators/grpc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/operators/grpc.rs b/src/core/blueprint/operators/grpc.rs
index cc4b85f..41f1b53 100644
--- a/src/core/blueprint/operators/grpc.rs
+++ b/src/core/blueprint/operators/grpc.rs
@@ -129,8 +129,8 @@ fn validate_group_by(
             let fields = &field_schema.field;
             // we're treating List types for gRPC as optional.
             let fields = JsonSchema::Opt(Box::new(JsonSchema::Arr(Box::new(fields.to_owned()))));
-            match fields
-                .is_a(&output_schema, group_by[0].as_str())
+            match output_schema
+                .is_a(&fields, group_by[0].as_str())
                 .to_result()
             {
                 Ok(res) => Valid::succeed(res),
-- 
2.43.0


From dbf9bfe3121d110cf6e4d56d22eb0f7b71432dd6 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 37/50] fix: a request that fails does not fail the others of
 its batch

---
 src/core/graphql/data_loader.rs | 21 ++++++++++++------
 src/core/grpc/data_loader.rs    | 39 +++++++++++++++++++++++----------
 src/core/http/data_loader.rs    | 19 +++++++++++-----
 src/core/ir/eval_http.rs        | 20 ++++++++++-------
 4 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index b3df34d..02af5bf 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -34,7 +34,8 @@ impl GraphqlDataLoader {
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for GraphqlDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // a request that fails must not fail the others it's loaded with
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     #[allow(clippy::mutable_key_type)]
@@ -57,8 +58,13 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
             if batches.len() > 1 {
                 let results = join_all(batches.values().map(|batch| self.load(batch))).await;
                 let mut hashmap = HashMap::new();
-                for result in results {
-                    hashmap.extend(result?);
+                for (batch, result) in batches.into_values().zip(results) {
+                    match result {
+                        Ok(values) => hashmap.extend(values),
+                        Err(error) => {
+                            hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                        }
+                    }
                 }
 
                 return Ok(hashmap);
@@ -77,7 +83,8 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
             #[allow(clippy::mutable_key_type)]
             let mut hashmap = HashMap::new();
             for (key, value) in results {
-                hashmap.insert(key, value?.to_json()?);
+                let value = value.and_then(|response| response.to_json());
+                hashmap.insert(key, value.map_err(Arc::new));
             }
 
             Ok(hashmap)
@@ -116,7 +123,7 @@ fn create_batched_request(dataloader_requests: &[DataLoaderRequest]) -> reqwest:
 fn extract_responses(
     result: Result<Response<async_graphql::Value>, anyhow::Error>,
     keys: &[DataLoaderRequest],
-) -> HashMap<DataLoaderRequest, Response<async_graphql::Value>> {
+) -> HashMap<DataLoaderRequest, <GraphqlDataLoader as Loader<DataLoaderRequest>>::Value> {
     let mut hashmap = HashMap::new();
     if let Ok(res) = result {
         if let async_graphql_value::ConstValue::List(values) = res.body {
@@ -126,11 +133,11 @@ fn extract_responses(
                     .unwrap_or(&async_graphql_value::ConstValue::Null);
                 hashmap.insert(
                     request.clone(),
-                    Response {
+                    Ok(Response {
                         status: res.status,
                         headers: res.headers.clone(),
                         body: value.clone(),
-                    },
+                    }),
                 );
             }
         }
diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index 0edd61c..35f6982 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -36,7 +36,7 @@ impl GrpcDataLoader {
     async fn load_dedupe_only(
         &self,
         keys: &[DataLoaderRequest],
-    ) -> anyhow::Result<HashMap<DataLoaderRequest, Response<async_graphql::Value>>> {
+    ) -> HashMap<DataLoaderRequest, <Self as Loader<DataLoaderRequest>>::Value> {
         let results = keys.iter().map(|key| async {
             let result = match key.to_request() {
                 Ok(req) => execute_grpc_request(&self.runtime, &self.operation, req).await,
@@ -53,17 +53,17 @@ impl GrpcDataLoader {
         #[allow(clippy::mutable_key_type)]
         let mut hashmap = HashMap::new();
         for (key, value) in results {
-            hashmap.insert(key, value?);
+            hashmap.insert(key, value.map_err(Arc::new));
         }
 
-        Ok(hashmap)
+        hashmap
     }
 
     async fn load_with_group_by(
         &self,
         group_by: &GroupBy,
         keys: &[DataLoaderRequest],
-    ) -> Result<HashMap<DataLoaderRequest, Response<async_graphql::Value>>> {
+    ) -> Result<HashMap<DataLoaderRequest, <Self as Loader<DataLoaderRequest>>::Value>> {
         let inputs = keys.iter().map(|key| key.template.body.as_str());
         let (multiple_body, grouped_keys) = self
             .operation
@@ -92,7 +92,7 @@ impl GrpcDataLoader {
                     .unwrap_or(ConstValue::Null),
             );
 
-            result.insert(key.clone(), res);
+            result.insert(key.clone(), Ok(res));
         }
 
         Ok(result)
@@ -101,7 +101,8 @@ impl GrpcDataLoader {
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for GrpcDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // a request that fails must not fail the others it's loaded with
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     async fn load(
@@ -112,7 +113,18 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
             // requests are sent together only if they differ in nothing but their body,
             // e.g. not on behalf of different users
             let mut batches: IndexMap<_, Vec<DataLoaderRequest>> = IndexMap::new();
+            #[allow(clippy::mutable_key_type)]
+            let mut hashmap = HashMap::new();
             for key in keys {
+                let input = std::iter::once(key.template.body.as_str());
+                if let Err(error) = self
+                    .operation
+                    .convert_multiple_inputs(input, group_by.key())
+                {
+                    hashmap.insert(key.clone(), Err(Arc::new(error)));
+                    continue;
+                }
+
                 let headers: Vec<_> = key.listed_headers().collect();
                 batches
                     .entry((&key.template.url, headers))
@@ -120,12 +132,15 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
                     .push(key.clone());
             }
 
-            if batches.len() > 1 {
+            if batches.len() > 1 || !hashmap.is_empty() {
                 let results = join_all(batches.values().map(|batch| self.load(batch))).await;
-                #[allow(clippy::mutable_key_type)]
-                let mut hashmap = HashMap::new();
-                for result in results {
-                    hashmap.extend(result?);
+                for (batch, result) in batches.into_values().zip(results) {
+                    match result {
+                        Ok(values) => hashmap.extend(values),
+                        Err(error) => {
+                            hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                        }
+                    }
                 }
 
                 return Ok(hashmap);
@@ -135,7 +150,7 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
                 .await
                 .map_err(Arc::new)
         } else {
-            self.load_dedupe_only(keys).await.map_err(Arc::new)
+            Ok(self.load_dedupe_only(keys).await)
         }
     }
 }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 60d9c14..25297fc 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -83,7 +83,8 @@ impl HttpDataLoader {
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for HttpDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // a request that fails must not fail the others it's loaded with
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     async fn load(
@@ -106,8 +107,13 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
 
                 #[allow(clippy::mutable_key_type)]
                 let mut hashmap = HashMap::with_capacity(keys.len());
-                for result in results {
-                    hashmap.extend(result?);
+                for (batch, result) in batches.into_values().zip(results) {
+                    match result {
+                        Ok(values) => hashmap.extend(values),
+                        Err(error) => {
+                            hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                        }
+                    }
                 }
 
                 return Ok(hashmap);
@@ -176,7 +182,7 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
                         let body = data_extractor(&response_map, id);
                         let res = res.clone().body(body);
 
-                        hashmap.insert(dl_req.clone(), res);
+                        hashmap.insert(dl_req.clone(), Ok(res));
                     }
                 } else {
                     for dl_req in dl_requests.into_iter() {
@@ -186,7 +192,7 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
                         ))?;
                         let extracted_value = data_extractor(&response_map, body_key);
                         let res = res.clone().body(extracted_value);
-                        hashmap.insert(dl_req.clone(), res);
+                        hashmap.insert(dl_req.clone(), Ok(res));
                     }
                 }
 
@@ -206,7 +212,8 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
             #[allow(clippy::mutable_key_type)]
             let mut hashmap = HashMap::with_capacity(results.len());
             for (key, value) in results {
-                hashmap.insert(key, value?.to_json()?);
+                let value = value.and_then(|response| response.to_json());
+                hashmap.insert(key, value.map_err(Arc::new));
             }
 
             Ok(hashmap)
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index d863472..f1d497b 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -147,7 +147,11 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
 pub async fn execute_request_with_dl<
     'ctx,
     Ctx: ResolverContextLike,
-    Dl: Loader<DataLoaderRequest, Value = Response<async_graphql::Value>, Error = Arc<anyhow::Error>>,
+    Dl: Loader<
+        DataLoaderRequest,
+        Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>,
+        Error = Arc<anyhow::Error>,
+    >,
 >(
     ctx: &EvalContext<'ctx, Ctx>,
     req: DynamicRequest<String>,
@@ -165,12 +169,12 @@ pub async fn execute_request_with_dl<
     let endpoint_key =
         crate::core::http::DataLoaderRequest::new(req, headers).with_batching_value(batching_value);
 
-    Ok(data_loader
+    data_loader
         .unwrap()
         .load_one(endpoint_key)
         .await
-        .map_err(Error::from)?
-        .unwrap_or_default())
+        .and_then(|value| value.unwrap_or_else(|| Ok(Response::default())))
+        .map_err(Error::from)
 }
 
 pub fn set_headers<Ctx: ResolverContextLike>(
@@ -239,7 +243,7 @@ pub async fn execute_grpc_request_with_dl<
     Ctx: ResolverContextLike,
     Dl: Loader<
         grpc::DataLoaderRequest,
-        Value = Response<async_graphql::Value>,
+        Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>,
         Error = Arc<anyhow::Error>,
     >,
 >(
@@ -256,12 +260,12 @@ pub async fn execute_grpc_request_with_dl<
         .unwrap_or_default();
     let endpoint_key = grpc::DataLoaderRequest::new(rendered, headers);
 
-    Ok(data_loader
+    data_loader
         .unwrap()
         .load_one(endpoint_key)
         .await
-        .map_err(Error::from)?
-        .unwrap_or_default())
+        .and_then(|value| value.unwrap_or_else(|| Ok(Response::default())))
+        .map_err(Error::from)
 }
 
 pub fn parse_graphql_response<Ctx: ResolverContextLike>(
-- 
2.43.0


From dc937a8678eab9c19ba827690b8fe10fbdc1732e Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 38/50] fix: batch gRPC requests by enumerators and by keys in
 camel case

---
 src/core/grpc/protobuf.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index 36ebdff..e265252 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -6,8 +6,8 @@ use prost::bytes::BufMut;
 use prost::Message;
 use prost_reflect::prost_types::FileDescriptorSet;
 use prost_reflect::{
-    DescriptorPool, DynamicMessage, MessageDescriptor, MethodDescriptor, SerializeOptions,
-    ServiceDescriptor,
+    DescriptorPool, DynamicMessage, MessageDescriptor, MethodDescriptor, ReflectMessage,
+    SerializeOptions, ServiceDescriptor,
 };
 use serde_json::Deserializer;
 
@@ -56,9 +56,22 @@ pub fn protobuf_value_as_str(value: &prost_reflect::Value) -> String {
 }
 
 pub fn get_field_value_as_str(message: &DynamicMessage, field_name: &str) -> Result<String> {
-    let field = message
-        .get_field_by_name(field_name)
+    // the key is looked up in the JSON of the response as well, so its name and its
+    // values should be the same as there
+    let descriptor = message.descriptor();
+    let field_descriptor = descriptor
+        .get_field_by_json_name(field_name)
+        .or_else(|| descriptor.get_field_by_name(field_name))
         .ok_or(anyhow!("Unable to find key"))?;
+    let field = message.get_field(&field_descriptor);
+
+    if let (Some(number), Some(enum_descriptor)) =
+        (field.as_enum_number(), field_descriptor.kind().as_enum())
+    {
+        if let Some(value) = enum_descriptor.get_value(number) {
+            return Ok(value.name().to_string());
+        }
+    }
 
     Ok(protobuf_value_as_str(&field))
 }
-- 
2.43.0


From 9d0505ca316311f76641d56900d05826ecfb5429 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 39/50] fix: refuse a compressed gRPC response instead of
 misreading it

---
 src/core/grpc/protobuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index e265252..223dc5a 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -227,6 +227,9 @@ impl ProtobufOperation {
         if bytes.len() < 5 {
             bail!("Empty response");
         }
+        if bytes[0] != 0 {
+            bail!("Compressed responses are not supported");
+        }
         // ignore 5 first bytes as they are part of Length-Prefixed Message Framing
         // see https://www.oreilly.com/library/view/grpc-up-and/9781492058328/ch04.html#:~:text=Length%2DPrefixed%20Message%20Framing
         // 1st byte - compression flag
-- 
2.43.0


From b44e9af152fbbf73f284f8d768063f635c7eb6d3 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 40/50] fix: do not overflow the stack on a type that contains
 itself

---
 src/core/blueprint/from_config.rs | 25 +++++++++++--
 src/core/json/json_schema.rs      | 62 +++++++++++++++++++++----------
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/core/blueprint/from_config.rs b/src/core/blueprint/from_config.rs
index fb95066..8c8e7d0 100644
--- a/src/core/blueprint/from_config.rs
+++ b/src/core/blueprint/from_config.rs
@@ -80,18 +80,35 @@ pub fn to_json_schema_for_args(args: &IndexMap<String, Arg>, config: &Config) ->
     JsonSchema::Obj(schema_fields)
 }
 pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
+    to_json_schema_inner(type_of, config, &mut vec![])
+}
+
+/// `parents` are the names of the types that the type is a part of
+fn to_json_schema_inner<'a>(
+    type_of: &'a Type,
+    config: &'a Config,
+    parents: &mut Vec<&'a str>,
+) -> JsonSchema {
     let json_schema = match type_of {
         Type::Named { name, .. } => {
             let type_ = config.find_type(name);
             let type_enum_ = config.find_enum(name);
 
-            if let Some(type_) = type_ {
+            if parents.contains(&name.as_str()) {
+                // schema of a type that contains itself is infinite
+                JsonSchema::Any
+            } else if let Some(type_) = type_ {
+                parents.push(name);
                 let mut schema_fields = BTreeMap::new();
                 for (name, field) in type_.fields.iter() {
                     if field.resolvers.is_empty() {
-                        schema_fields.insert(name.clone(), to_json_schema(&field.type_of, config));
+                        schema_fields.insert(
+                            name.clone(),
+                            to_json_schema_inner(&field.type_of, config, parents),
+                        );
                     }
                 }
+                parents.pop();
                 JsonSchema::Obj(schema_fields)
             } else if let Some(type_enum_) = type_enum_ {
                 JsonSchema::Enum(
@@ -105,7 +122,9 @@ pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
                 JsonSchema::from_scalar_type(name)
             }
         }
-        Type::List { of_type, .. } => JsonSchema::Arr(Box::new(to_json_schema(of_type, config))),
+        Type::List { of_type, .. } => {
+            JsonSchema::Arr(Box::new(to_json_schema_inner(of_type, config, parents)))
+        }
     };
 
     if type_of.is_nullable() {
diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index d07d5f2..ad4417c 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -243,22 +243,39 @@ impl TryFrom<&MessageDescriptor> for JsonSchema {
     type Error = tailcall_valid::ValidationError<String>;
 
     fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
+        Self::from_message(value, &mut vec![])
+    }
+}
+
+impl JsonSchema {
+    /// `parents` are the names of the messages that the message is a part of
+    fn from_message(
+        value: &MessageDescriptor,
+        parents: &mut Vec<String>,
+    ) -> Result<Self, tailcall_valid::ValidationError<String>> {
         if value.is_map_entry() {
             // we encode protobuf's map as JSON scalar
             return Ok(JsonSchema::Any);
         }
 
+        if parents.iter().any(|name| name == value.full_name()) {
+            // schema of a message that contains itself is infinite
+            return Ok(JsonSchema::Any);
+        }
+
+        parents.push(value.full_name().to_string());
         let mut map = BTreeMap::new();
         let fields = value.fields();
 
         for field in fields {
-            let field_schema = JsonSchema::try_from(&field)?;
+            let field_schema = Self::from_message_field(&field, parents)?;
 
             // the snake_case for field names is automatically converted to camelCase
             // by prost on serde serialize/deserealize and in graphql type name should be in
             // camelCase as well, so convert field.name to camelCase here
             map.insert(field.name().to_case(Case::Camel), field_schema);
         }
+        parents.pop();
 
         if map.is_empty() {
             Ok(JsonSchema::Empty)
@@ -266,24 +283,11 @@ impl TryFrom<&MessageDescriptor> for JsonSchema {
             Ok(JsonSchema::Obj(map))
         }
     }
-}
-
-impl TryFrom<&EnumDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
-        let mut set = BTreeSet::new();
-        for value in value.values() {
-            set.insert(value.name().to_string());
-        }
-        Ok(JsonSchema::Enum(set))
-    }
-}
 
-impl TryFrom<&FieldDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+    fn from_message_field(
+        value: &FieldDescriptor,
+        parents: &mut Vec<String>,
+    ) -> Result<Self, tailcall_valid::ValidationError<String>> {
         let field_schema = match value.kind() {
             Kind::Double => JsonSchema::Num,
             Kind::Float => JsonSchema::Num,
@@ -300,7 +304,7 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
             Kind::Bool => JsonSchema::Bool,
             Kind::String => JsonSchema::Str,
             Kind::Bytes => JsonSchema::Str,
-            Kind::Message(msg) => JsonSchema::try_from(&msg)?,
+            Kind::Message(msg) => JsonSchema::from_message(&msg, parents)?,
             Kind::Enum(enm) => JsonSchema::try_from(&enm)?,
         };
         let field_schema = if value
@@ -322,6 +326,26 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
     }
 }
 
+impl TryFrom<&EnumDescriptor> for JsonSchema {
+    type Error = tailcall_valid::ValidationError<String>;
+
+    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
+        let mut set = BTreeSet::new();
+        for value in value.values() {
+            set.insert(value.name().to_string());
+        }
+        Ok(JsonSchema::Enum(set))
+    }
+}
+
+impl TryFrom<&FieldDescriptor> for JsonSchema {
+    type Error = tailcall_valid::ValidationError<String>;
+
+    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+        Self::from_message_field(value, &mut vec![])
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::{BTreeMap, BTreeSet};
-- 
2.43.0


From 5fecafbf2925d4ffcf337a29844bf921b3ef8d47 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 41/50] fix: call the url that was sampled when generating a
 configuration

---
 .../generator/json/http_directive_generator.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/generator/json/http_directive_generator.rs b/src/core/generator/json/http_directive_generator.rs
index 3ab63cd..0bb7857 100644
--- a/src/core/generator/json/http_directive_generator.rs
+++ b/src/core/generator/json/http_directive_generator.rs
@@ -6,7 +6,7 @@ use url::Url;
 
 use crate::core::config::{Arg, Field, Http, URLQuery};
 use crate::core::generator::PREFIX;
-use crate::core::helpers::gql_type::detect_gql_data_type;
+use crate::core::helpers::gql_type::{detect_gql_data_type, is_valid_field_name};
 use crate::core::Type;
 
 #[derive(Debug)]
@@ -98,10 +98,9 @@ impl<'a> HttpDirectiveGenerator<'a> {
         url.set_path(&mustache_compatible_url);
         url.set_query(None);
 
-        let url = url.to_string();
-        let decoded = urlencoding::decode(&url).unwrap();
-
-        self.http.url = decoded.to_string();
+        // only the braces of the templates are decoded, the rest of the path stays as it
+        // is in the sample.
+        self.http.url = url.to_string().replace("%7B", "{").replace("%7D", "}");
     }
 
     fn add_query_variables(&mut self, field: &mut Field) {
@@ -118,7 +117,14 @@ impl<'a> HttpDirectiveGenerator<'a> {
             let arg = Arg { type_of, ..Default::default() };
 
             // Convert query key to camel case for better readability.
-            let query_key = query.key.to_case(Case::Camel);
+            let mut query_key = query.key.to_case(Case::Camel);
+            if !is_valid_field_name(&query_key) || field.args.contains_key(&query_key) {
+                // not a name in GraphQL, or the name of another argument.
+                query_key = (field.args.len() + 1..)
+                    .map(|index| format!("{}{}", PREFIX, index))
+                    .find(|name| !field.args.contains_key(name))
+                    .unwrap_or(query_key);
+            }
             let value: String = format!("{{{{.args.{}}}}}", query_key);
 
             self.http
-- 
2.43.0


From 2e2f817e2475d32d6d794c3ac6e8c59d1b568dce Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 42/50] fix: generate nested lists of objects as nested lists,
 and the argument of a body that is a list as a list

---
 .../generator/json/operation_generator.rs     | 13 ++++---
 src/core/generator/json/types_generator.rs    | 35 +++++++++++++++----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/core/generator/json/operation_generator.rs b/src/core/generator/json/operation_generator.rs
index 79bde56..e03c60f 100644
--- a/src/core/generator/json/operation_generator.rs
+++ b/src/core/generator/json/operation_generator.rs
@@ -3,7 +3,7 @@ use tailcall_valid::Valid;
 
 use super::http_directive_generator::HttpDirectiveGenerator;
 use crate::core::config::{Arg, Config, Field, GraphQLOperationType, Resolver};
-use crate::core::generator::json::types_generator::TypeGenerator;
+use crate::core::generator::json::types_generator::{into_lists, TypeGenerator};
 use crate::core::generator::{NameGenerator, RequestSample, PREFIX};
 use crate::core::{config, Type};
 
@@ -20,11 +20,7 @@ impl OperationTypeGenerator {
     ) -> Valid<Config, String> {
         let type_of = Type::from(root_type.to_owned());
         let mut field = Field {
-            type_of: if request_sample.res_body.is_array() {
-                type_of.into_list()
-            } else {
-                type_of
-            },
+            type_of: into_lists(type_of, &request_sample.res_body),
             ..Default::default()
         };
 
@@ -49,7 +45,10 @@ impl OperationTypeGenerator {
 
             field.args.insert(
                 arg_name,
-                Arg { type_of: root_ty.into(), ..Default::default() },
+                Arg {
+                    type_of: into_lists(root_ty.into(), &request_sample.req_body),
+                    ..Default::default()
+                },
             );
         }
 
diff --git a/src/core/generator/json/types_generator.rs b/src/core/generator/json/types_generator.rs
index 923afb1..58bb6e6 100644
--- a/src/core/generator/json/types_generator.rs
+++ b/src/core/generator/json/types_generator.rs
@@ -52,6 +52,27 @@ impl TypeMerger {
     }
 }
 
+/// the items of all the lists if there's nothing but lists in the list.
+fn nested_items(json_arr: &[Value]) -> Option<Vec<Value>> {
+    let lists = json_arr
+        .iter()
+        .map(Value::as_array)
+        .collect::<Option<Vec<_>>>()?;
+
+    (!lists.is_empty()).then(|| lists.into_iter().flatten().cloned().collect())
+}
+
+/// wraps the type of a value into as many lists as there are in the value.
+pub fn into_lists(type_of: crate::core::Type, json_value: &Value) -> crate::core::Type {
+    match json_value {
+        Value::Array(json_arr) => match nested_items(json_arr) {
+            Some(json_items) => into_lists(type_of, &Value::Array(json_items)).into_list(),
+            None => type_of.into_list(),
+        },
+        _ => type_of,
+    }
+}
+
 pub struct TypeGenerator<'a> {
     type_name_generator: &'a NameGenerator,
 }
@@ -71,7 +92,7 @@ impl<'a> TypeGenerator<'a> {
 
     fn create_type_from_object(
         &self,
-        json_object: &'a Map<String, Value>,
+        json_object: &Map<String, Value>,
         config: &mut Config,
     ) -> Type {
         let mut ty = Type::default();
@@ -93,20 +114,20 @@ impl<'a> TypeGenerator<'a> {
                 }
                 field
             };
-            field.type_of = if json_val.is_array() {
-                field.type_of.into_list()
-            } else {
-                field.type_of
-            };
+            field.type_of = into_lists(field.type_of, json_val);
 
             ty.fields.insert(json_property.to_string(), field);
         }
         ty
     }
 
-    pub fn generate_types(&self, json_value: &'a Value, config: &mut Config) -> String {
+    pub fn generate_types(&self, json_value: &Value, config: &mut Config) -> String {
         match json_value {
             Value::Array(json_arr) => {
+                if let Some(json_items) = nested_items(json_arr) {
+                    // the type of a nested list is that of the items of all its lists.
+                    return self.generate_types(&Value::Array(json_items), config);
+                }
                 let vec_capacity = json_arr.first().map_or(0, |json_item| {
                     if json_item.is_object() {
                         json_arr.len()
-- 
2.43.0


From 9682099915e3132b8ee72f2985f104158c64b199 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 43/50] fix: do not name a type as a predefined scalar

---
 src/core/config/transformer/improve_type_names.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/config/transformer/improve_type_names.rs b/src/core/config/transformer/improve_type_names.rs
index a2cdfaa..aa0da9b 100644
--- a/src/core/config/transformer/improve_type_names.rs
+++ b/src/core/config/transformer/improve_type_names.rs
@@ -6,6 +6,7 @@ use tailcall_valid::Valid;
 use super::RenameTypes;
 use crate::core::config::Config;
 use crate::core::generator::PREFIX;
+use crate::core::scalar::Scalar;
 use crate::core::transform::Transform;
 
 #[derive(Debug, Default)]
@@ -43,6 +44,7 @@ impl<'a> CandidateConvergence<'a> {
                 let candidate_type_name = candidate_name.to_case(Case::Pascal);
                 !converged_candidate_set.contains(&candidate_type_name)
                     && !self.config.types.contains_key(&candidate_type_name)
+                    && !Scalar::is_predefined(&candidate_type_name)
             });
 
             // Find the candidate with the highest frequency and priority
-- 
2.43.0


From 1ee4efaeb389b319fadb402d2a123818aadbdc54 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 44/50] fix: do not merge the types of the operations

---
 src/core/config/transformer/merge_types/mergeable_types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/config/transformer/merge_types/mergeable_types.rs b/src/core/config/transformer/merge_types/mergeable_types.rs
index 1b22811..3a386a9 100644
--- a/src/core/config/transformer/merge_types/mergeable_types.rs
+++ b/src/core/config/transformer/merge_types/mergeable_types.rs
@@ -16,10 +16,14 @@ pub struct MergeableTypes {
 
 impl MergeableTypes {
     pub fn new(config: &Config, threshold: f32) -> Self {
+        let mut output_types = config.output_types();
+        // the schema refers to the types of the operations by their names.
+        output_types.retain(|type_name| !config.is_root_operation_type(type_name));
+
         Self {
             input_types: config.input_types(),
             union_types: config.union_types(),
-            output_types: config.output_types(),
+            output_types,
             interface_types: config.interfaces_types_map().keys().cloned().collect(),
             threshold,
         }
-- 
2.43.0


From cc0bb4104e0776a086585f3df1fadf6b1305fc05 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 45/50] fix: do not merge types whose fields are resolved
 differently, are lists of other depth, or only differ in a type already
 compared

---
 .../transformer/merge_types/similarity.rs     | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/core/config/transformer/merge_types/similarity.rs b/src/core/config/transformer/merge_types/similarity.rs
index f0ca65d..ab66b34 100644
--- a/src/core/config/transformer/merge_types/similarity.rs
+++ b/src/core/config/transformer/merge_types/similarity.rs
@@ -5,6 +5,17 @@ use super::pair_set::PairSet;
 use crate::core::config::{Config, Type};
 use crate::core::scalar::Scalar;
 
+/// Whether both types are lists of as many levels, or none of them is a list.
+fn same_lists(type_1: &crate::core::Type, type_2: &crate::core::Type) -> bool {
+    match (type_1, type_2) {
+        (
+            crate::core::Type::List { of_type: type_1, .. },
+            crate::core::Type::List { of_type: type_2, .. },
+        ) => same_lists(type_1, type_2),
+        _ => !type_1.is_list() && !type_2.is_list(),
+    }
+}
+
 /// Given Two types,it tells similarity between two types based on a specified
 /// threshold.
 pub struct Similarity<'a> {
@@ -59,6 +70,15 @@ impl<'a> Similarity<'a> {
 
             for (field_name_1, field_1) in type_1.fields.iter() {
                 if let Some(field_2) = type_2.fields.get(field_name_1) {
+                    if field_1.resolvers != field_2.resolvers
+                        || field_1.args != field_2.args
+                        || field_1.modify != field_2.modify
+                        || field_1.omit != field_2.omit
+                    {
+                        // the merged field could only do what one of the fields does.
+                        return Valid::fail("Type merge failed: The fields are resolved differently and cannot be merged.".to_string());
+                    }
+
                     let field_1_type_of = field_1.type_of.name();
                     let field_2_type_of = field_2.type_of.name();
 
@@ -70,7 +90,7 @@ impl<'a> Similarity<'a> {
                             || field_1_type_of == json_scalar
                             || field_2_type_of == json_scalar
                         {
-                            if field_1.type_of.is_list() == field_2.type_of.is_list() {
+                            if same_lists(&field_1.type_of, &field_2.type_of) {
                                 same_field_count += 1;
                             } else {
                                 return Valid::fail("Type merge failed: The fields have different list types and cannot be merged.".to_string());
@@ -84,7 +104,7 @@ impl<'a> Similarity<'a> {
                     } else if field_1_type_of == field_2_type_of {
                         // in order to consider the fields to be exactly same.
                         // it's output type must match (we can ignore the required bounds).
-                        if field_1.type_of.is_list() == field_2.type_of.is_list() {
+                        if same_lists(&field_1.type_of, &field_2.type_of) {
                             // if they're of both of list type then they're probably of same type.
                             same_field_count += 1;
                         } else {
@@ -93,9 +113,19 @@ impl<'a> Similarity<'a> {
                         }
                     } else if let Some(type_1) = config.types.get(field_1_type_of) {
                         if let Some(type_2) = config.types.get(field_2_type_of) {
-                            if visited_type.contains(field_1_type_of, field_2_type_of) {
-                                // it's cyclic type, return true as they're the same.
-                                return Valid::succeed(true);
+                            if !same_lists(&field_1.type_of, &field_2.type_of) {
+                                return Valid::fail("Type merge failed: The fields have different list types and cannot be merged.".to_string());
+                            }
+                            let is_known = self
+                                .type_similarity_cache
+                                .get(field_1_type_of, field_2_type_of)
+                                .is_some();
+                            if !is_known && visited_type.contains(field_1_type_of, field_2_type_of)
+                            {
+                                // it's cyclic type, the types are being compared already, so
+                                // it's up to their other fields whether they're the same.
+                                same_field_count += 1;
+                                continue;
                             }
                             visited_type
                                 .insert(field_1_type_of.to_owned(), field_2_type_of.to_owned());
-- 
2.43.0


From 79c1e1f6140d2e75dbd28b82dff6bad004159c45 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 46/50] fix: do not name a type as an enum or a union

---
 src/core/config/transformer/improve_type_names.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/config/transformer/improve_type_names.rs b/src/core/config/transformer/improve_type_names.rs
index aa0da9b..235f07f 100644
--- a/src/core/config/transformer/improve_type_names.rs
+++ b/src/core/config/transformer/improve_type_names.rs
@@ -44,6 +44,8 @@ impl<'a> CandidateConvergence<'a> {
                 let candidate_type_name = candidate_name.to_case(Case::Pascal);
                 !converged_candidate_set.contains(&candidate_type_name)
                     && !self.config.types.contains_key(&candidate_type_name)
+                    && !self.config.enums.contains_key(&candidate_type_name)
+                    && !self.config.unions.contains_key(&candidate_type_name)
                     && !Scalar::is_predefined(&candidate_type_name)
             });
 
-- 
2.43.0


From 09e32179637efe1413ca5a913fdb14951535576b Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 47/50] fix: do not take a union reached from several others
 for a recursive one

---
 src/core/config/transformer/nested_unions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/config/transformer/nested_unions.rs b/src/core/config/transformer/nested_unions.rs
index f7dea98..bc57243 100644
--- a/src/core/config/transformer/nested_unions.rs
+++ b/src/core/config/transformer/nested_unions.rs
@@ -58,8 +58,12 @@ impl<'cfg> Visitor<'cfg> {
                     return Valid::fail(format!("Recursive type {type_name}"));
                 }
 
+                // only what leads to this union is a cycle: it may well be reached
+                // from several others
                 seen.insert(type_name);
-                self.walk_union(union_, union_types, seen)
+                let result = self.walk_union(union_, union_types, seen);
+                seen.remove(type_name);
+                result
             } else {
                 union_types.insert(type_name.clone());
                 Valid::succeed(())
-- 
2.43.0


From 2555c421e540130b94853c50a12209822e618b93 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 48/50] fix: print the default of an input field before its
 directives

---
 src/core/document.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 49a6d3d..665561d 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -298,14 +298,15 @@ fn print_default_value(value: Option<&Positioned<ConstValue>>) -> String {
 fn print_input_value(field: &async_graphql::parser::types::InputValueDefinition) -> String {
     let directives_str = print_pos_directives(&field.directives);
     let doc = get_formatted_docs(field.description.as_ref().map(|d| d.node.clone()), 2);
-    format!(
-        "{}  {}: {}{}{}",
+    let node = format!(
+        "{}  {}: {}{} {}",
         doc,
         field.name.node,
         field.ty.node,
-        directives_str,
-        print_default_value(field.default_value.as_ref())
-    )
+        print_default_value(field.default_value.as_ref()),
+        directives_str
+    );
+    node.trim_end().to_string()
 }
 
 pub fn print_directive<'a, T>(directive: &'a T) -> String
-- 
2.43.0


From ae0484359361aebe2ed8f917cd1ce1941f8d4f2f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 49/50] fix: escape three quotes in printed documentation

---
 src/core/document.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 665561d..1c47b48 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -57,6 +57,11 @@ impl<'a> Iterator for LineBreaker<'a> {
     }
 }
 
+/// three quotes would end the block the documentation is written in
+fn escape_docs(docs: &str) -> String {
+    docs.replace("\"\"\"", "\\\"\"\"")
+}
+
 fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     let mut indent_str = String::new();
     if indent > 0 {
@@ -65,6 +70,7 @@ fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     let mut formatted_docs = String::new();
     if let Some(docs) = docs {
         let docs: String = docs.chars().filter(|ch| ch != &'\n').collect();
+        let docs = escape_docs(&docs);
         let line_breaker = LineBreaker::new(&docs, 80);
         formatted_docs.push_str(format!("{}\"\"\"", indent_str).as_str());
         for line in line_breaker {
@@ -198,7 +204,13 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             };
             let directives = print_pos_directives(&type_def.directives);
             let doc = type_def.description.as_ref().map_or(String::new(), |d| {
-                format!(r#"  """{}  {}{}  """{}"#, "\n", d.node, "\n", "\n")
+                format!(
+                    r#"  """{}  {}{}  """{}"#,
+                    "\n",
+                    escape_docs(&d.node),
+                    "\n",
+                    "\n"
+                )
             });
             format!(
                 "{}type {} {}{}{{\n{}\n}}\n",
@@ -228,7 +240,7 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             );
 
             if let Some(desc) = &type_def.description {
-                let ds = format!("\"\"\"\n{}\n\"\"\"\n", desc.node.as_str());
+                let ds = format!("\"\"\"\n{}\n\"\"\"\n", escape_docs(&desc.node));
                 ds + &enum_def
             } else {
                 enum_def
@@ -248,7 +260,7 @@ fn print_enum_value(value: &async_graphql::parser::types::EnumValueDefinition) -
     if let Some(desc) = &value.description {
         format!(
             "  \"\"\"\n  {}\n  \"\"\"\n{}",
-            desc.node.as_str(),
+            escape_docs(&desc.node),
             variant_def
         )
     } else {
@@ -279,7 +291,13 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
         String::new()
     };
     let doc = field.description.as_ref().map_or(String::new(), |d| {
-        format!(r#"  """{}  {}{}  """{}"#, "\n", d.node, "\n", "\n")
+        format!(
+            r#"  """{}  {}{}  """{}"#,
+            "\n",
+            escape_docs(&d.node),
+            "\n",
+            "\n"
+        )
     });
     let node = &format!(
         "  {}{}: {} {}",
-- 
2.43.0


From b7667dcb9b3b6c154aaf3b6ea3efbce4f2eefcbd Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 50/50] fix: print the arguments, directives and documentation
 of interfaces, unions and arguments

---
 src/core/config/into_document.rs | 44 +++++++++++++++++---------------
 src/core/document.rs             | 24 ++++++++++++-----
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 5df4f03..ced0ae2 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -76,7 +76,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                         pos(FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: vec![],
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -119,28 +119,10 @@ fn config_document(config: &Config) -> ServiceDocument {
                         let type_of = &field.type_of;
                         let directives = field_directives(field);
 
-                        let args_map = field.args.clone();
-                        let args = args_map
-                            .iter()
-                            .map(|(name, arg)| {
-                                pos(async_graphql::parser::types::InputValueDefinition {
-                                    description: arg.doc.clone().map(pos),
-                                    name: pos(Name::new(name.clone())),
-                                    ty: pos((&arg.type_of).into()),
-
-                                    default_value: transform_default_value(
-                                        arg.default_value.clone(),
-                                    )
-                                    .map(pos),
-                                    directives: Vec::new(),
-                                })
-                            })
-                            .collect::<Vec<Positioned<InputValueDefinition>>>();
-
                         pos(async_graphql::parser::types::FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: args,
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -162,7 +144,7 @@ fn config_document(config: &Config) -> ServiceDocument {
     for (name, union) in config.unions.iter() {
         definitions.push(TypeSystemDefinition::Type(pos(TypeDefinition {
             extend: false,
-            description: None,
+            description: union.doc.clone().map(pos),
             name: pos(Name::new(name)),
             directives: Vec::new(),
             kind: TypeKind::Union(UnionType {
@@ -212,6 +194,26 @@ fn into_directives(
         .map(pos)
 }
 
+fn field_arguments(field: &crate::core::config::Field) -> Vec<Positioned<InputValueDefinition>> {
+    field
+        .args
+        .iter()
+        .map(|(name, arg)| {
+            pos(InputValueDefinition {
+                description: arg.doc.clone().map(pos),
+                name: pos(Name::new(name.clone())),
+                ty: pos((&arg.type_of).into()),
+                default_value: transform_default_value(arg.default_value.clone()).map(pos),
+                directives: arg
+                    .modify
+                    .iter()
+                    .map(|modify| pos(modify.to_directive()))
+                    .collect(),
+            })
+        })
+        .collect()
+}
+
 fn field_directives(field: &crate::core::config::Field) -> Vec<Positioned<ConstDirective>> {
     field
         .resolvers
diff --git a/src/core/document.rs b/src/core/document.rs
index 1c47b48..060bd4e 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -134,8 +134,10 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::Union(union) => {
             let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "union {}{} = {}\n",
+                "{}union {} {}= {}\n",
+                doc,
                 type_def.name.node,
                 directives,
                 union
@@ -176,10 +178,14 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             } else {
                 String::new()
             };
+            let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "interface {} {}{{\n{}\n}}\n",
+                "{}interface {} {}{}{{\n{}\n}}\n",
+                doc,
                 type_def.name.node,
                 implements,
+                directives,
                 interface
                     .fields
                     .iter()
@@ -276,13 +282,19 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
             .iter()
             .map(|arg| {
                 let nullable = if arg.node.ty.node.nullable { "" } else { "!" };
-                format!(
-                    "{}: {}{}{}",
+                let doc = arg.node.description.clone().map_or(String::new(), |d| {
+                    format!("\n{}    ", get_formatted_docs(Some(d.node), 4))
+                });
+                let node = format!(
+                    "{}{}: {}{}{} {}",
+                    doc,
                     arg.node.name,
                     arg.node.ty.node.base,
                     nullable,
-                    print_default_value(arg.node.default_value.as_ref())
-                )
+                    print_default_value(arg.node.default_value.as_ref()),
+                    print_pos_directives(&arg.node.directives)
+                );
+                node.trim_end().to_string()
             })
             .collect::<Vec<String>>()
             .join(", ");
-- 
2.43.0

