//! Deduplication (C04), the entity cache (C05), the HTTP response cache (C06),
//! the cache-control of a response and the counters (C07).
use std::collections::BTreeMap;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};

use http_cache_reqwest::CacheManager;
use http_cache_semantics::CachePolicy;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::http::RequestContext;
use tailcall::core::vp_hooks::export::counter::{AtomicCounter, Count, Counter};
use tailcall::core::vp_hooks::export::data_loader::Dedupe;
use tailcall::core::data_loader::DedupeResult;
use tailcall::core::Cache;

use super::{Prop, MC};
use crate::engine::{fail, Chooser, Ctx, Outcome};
use crate::sched::{self, Ev, World};
use crate::{ensure, ensure_eq, rt};

pub const C04: Prop = Prop { id: "C04", level: MC, rule: "", run: c04, assumptions: &["tokio's broadcast channel is correct"] };
pub const C05: Prop = Prop { id: "C05", level: MC, rule: "", run: c05, assumptions: &["the process clock is interposed; the instant at which a ttl ends exactly is not judged"] };
pub const C06: Prop = Prop { id: "C06", level: MC, rule: "", run: c06, assumptions: &["moka runs its maintenance when asked to"] };
pub const C07: Prop = Prop { id: "C07", level: MC, rule: "", run: c07, assumptions: &[] };

// ------------------------------------------------------------------ C04
#[derive(Default)]
struct Exec {
    key: u8,
    by: usize,
    done: Option<usize>,
}

fn dedupe_events(ch: &Chooser, persist: bool, size: usize, keys: &[u8], cancels: usize, errs: bool) -> Outcome {
    let d: Arc<Dedupe<u8, Result<usize, usize>>> = Arc::new(Dedupe::new(size, persist));
    let dr: Arc<DedupeResult<u8, usize, usize>> = Arc::new(DedupeResult::new(persist));
    let through_result = size == 1;
    let execs: Arc<Mutex<Vec<Exec>>> = Default::default();
    let mut w: World<Result<usize, usize>> = World::new();
    let start = |w: &mut World<Result<usize, usize>>, key: u8| {
        let (d, dr, e) = (d.clone(), dr.clone(), execs.clone());
        let by = w.len();
        w.add(async move {
            let run = || async move {
                let n = {
                    let mut e = e.lock().unwrap();
                    e.push(Exec { key, by, done: None });
                    e.len() - 1
                };
                let o = sched::gate(format!("exec{n}")).await;
                if o == 0 { Ok(n) } else { Err(n) }
            };
            if through_result { dr.dedupe(&key, run).await } else { d.dedupe(&key, run).await }
        })
    };
    for k in keys {
        start(&mut w, *k);
    }
    let n = keys.len();
    let desc = format!("persist={persist} size={size} keys={keys:?}");
    ch.note(desc.clone());
    let mut trace: Vec<String> = vec![];
    let mut left = cancels;
    let mut begun_at: Vec<Option<usize>> = vec![None; n]; // executions that existed
    let mut live_at: Vec<Vec<usize>> = vec![vec![]; n]; // and were running
    let mut cancelled = vec![false; n];
    let mut results: Vec<Option<Result<usize, usize>>> = vec![None; n];
    while !w.alive().is_empty() {
        let run = w.runnable();
        let pend = w.env.pending();
        let can: Vec<usize> = if left > 0 { w.alive().into_iter().filter(|i| begun_at[*i].is_some()).collect() } else { vec![] };
        let key = || format!("{desc} {}", trace.join(","));
        if run.is_empty() && pend.is_empty() {
            return fail(key(), format!("calls {:?} never end", w.alive()));
        }
        let c = ch.choose(run.len() + pend.len() + can.len());
        ch.step();
        if c < run.len() {
            let i = run[c];
            trace.push(format!("poll{i}"));
            if begun_at[i].is_none() {
                let e = execs.lock().unwrap();
                begun_at[i] = Some(e.len());
                live_at[i] = (0..e.len()).filter(|x| e[*x].key == keys[i] && !cancelled[e[*x].by] && results[e[*x].by].is_none()).collect();
            }
            if let Some(r) = w.poll(i) {
                results[i] = Some(r);
            }
        } else if c < run.len() + pend.len() {
            let Ev::Gate(_, l) = &pend[c - run.len()] else { continue };
            let x: usize = l.trim_start_matches("exec").parse().unwrap();
            let o = if errs { ch.choose(2) } else { 0 };
            trace.push(format!("{l}:{}", if o == 0 { "ok" } else { "err" }));
            execs.lock().unwrap()[x].done = Some(o);
            w.fire(&pend[c - run.len()], o);
        } else {
            let i = can[c - run.len() - pend.len()];
            trace.push(format!("cancel{i}"));
            left -= 1;
            cancelled[i] = true;
            w.cancel(i);
            for e in execs.lock().unwrap().iter_mut() {
                if e.by == i {
                    e.done = Some(9); // abandoned
                }
            }
        }
        let key = || format!("{desc} {}", trace.join(","));
        let e = execs.lock().unwrap();
        for k in [1u8, 2] {
            let live = e.iter().filter(|x| x.key == k && x.done.is_none()).count();
            ensure!(live <= 1, key(), "{live} executions for key {k} at the same time");
            if persist {
                let good = e.iter().filter(|x| x.key == k && matches!(x.done, Some(0) | Some(1))).count();
                ensure!(good <= 1, key(), "key {k} was executed {good} times although results are kept");
            }
        }
        for i in 0..n {
            if let Some(r) = &results[i] {
                let (x, o) = match r { Ok(x) => (*x, 0), Err(x) => (*x, 1) };
                ensure!(e[x].key == keys[i], key(), "call {i} for key {} got the result of key {}", keys[i], e[x].key);
                ensure!(e[x].done == Some(o), key(), "call {i} got {r:?}, not what execution {x} ended with");
                if !persist {
                    ensure!(x >= begun_at[i].unwrap() || live_at[i].contains(&x), key(), "call {i} got a result that was over before it began");
                }
            }
        }
        ch.state((&begun_at, &cancelled, &results, e.iter().map(|x| (x.key, x.by, x.done)).collect::<Vec<_>>(), persist, keys));
    }
    let e = execs.lock().unwrap();
    for k in [1u8, 2] {
        // every execution that was not abandoned is one its caller needed
        for x in e.iter().filter(|x| x.key == k) {
            ensure!(x.done.is_some(), desc, "an execution of key {k} was never ended");
        }
    }
    ch.note(trace.join(","));
    ch.observe(format!("{results:?}"));
    Ok(())
}

fn dedupe_threads(ch: &Chooser, dev: usize, persist: bool, progs: &[&[u8]]) -> Outcome {
    let d: Dedupe<u8, (u8, usize)> = Dedupe::new(1, persist);
    let log: Mutex<Vec<(u8, bool, bool)>> = Default::default(); // key, running, overlapped
    let out: Mutex<Vec<(usize, usize, u8, (u8, usize), usize)>> = Default::default();
    let runner: Mutex<Vec<usize>> = Default::default();
    let returned: Mutex<Vec<usize>> = Default::default();
    let desc = format!("persist={persist} {progs:?}");
    ch.note(desc.clone());
    let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = progs
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let (d, log, out, runner, returned) = (&d, &log, &out, &runner, &returned);
            Box::new(move || {
                for (j, k) in p.iter().enumerate() {
                    // the executions of the key that were over when the call began
                    let before = {
                        let l = log.lock().unwrap();
                        let r = returned.lock().unwrap();
                        (0..l.len()).rev().find(|n| l[*n].0 == *k && r.contains(n)).map(|x| x + 1).unwrap_or(0)
                    };
                    let v = sched::block_on(d.dedupe(k, || async move {
                        let n = {
                            let mut l = log.lock().unwrap();
                            let over = l.iter().any(|x| x.0 == *k && x.1);
                            l.push((*k, true, over));
                            runner.lock().unwrap().push(t);
                            l.len() - 1
                        };
                        sched::gate(format!("x{n}")).await;
                        log.lock().unwrap()[n].1 = false;
                        (*k, n)
                    }));
                    // whoever ran it marks it over; the others have it later or at once
                    if runner.lock().unwrap().get(v.1) == Some(&t) {
                        returned.lock().unwrap().push(v.1);
                    }
                    out.lock().unwrap().push((t, j, *k, v, before));
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    let end = sched::threads(ch, dev, bodies, &|_| 0, true);
    let (log, mut out) = (log.into_inner().unwrap(), out.into_inner().unwrap());
    out.sort();
    let key = || format!("{desc} {log:?} {out:?}");
    ensure_eq!(end, sched::End::Finished, key(), "the calls do not all end");
    ensure_eq!(out.len(), progs.iter().map(|p| p.len()).sum::<usize>(), key(), "calls that returned");
    for (t, j, k, v, before) in &out {
        ensure!(v.0 == *k && log[v.1].0 == *k, key(), "call {j} of thread {t} for key {k} got {v:?}");
        ensure!(persist || v.1 >= *before, key(), "call {j} of thread {t} got a result that was over before it began");
    }
    for l in &log {
        // the executor marks itself over before the entry is released
        ensure!(!l.2, key(), "two executions of key {} at the same time", l.0);
    }
    if persist {
        for k in [1u8, 2] {
            let x = log.iter().filter(|l| l.0 == k).count();
            ensure!(x <= 1, key(), "key {k} executed {x} times although results are kept");
        }
    }
    ch.state(format!("{log:?}{out:?}"));
    ch.observe(format!("{log:?}{out:?}"));
    Ok(())
}

fn c04(ctx: &mut Ctx) {
    let quick: &[&[u8]] = &[&[1], &[1, 1], &[1, 2], &[1, 1, 1], &[1, 1, 2]];
    let deep: &[&[u8]] = &[&[1, 1, 1, 1], &[1, 2, 1, 2]];
    let c = ctx.by(1, 2);
    ctx.explore("events", "≤3 calls over 2 keys, every order of polls, answers (ok, error) and ≤1 (2) cancellations, kept or not", |ch| {
        let keys = *ch.pick(quick);
        let persist = ch.flag();
        let size = ch.range(1, 2);
        dedupe_events(ch, persist, size, keys, c, true)
    });
    ctx.explore("events-4", "4 calls, ok answers, ≤1 (2) cancellations", |ch| {
        let keys = *ch.pick(deep);
        let persist = ch.flag();
        dedupe_events(ch, persist, 1, keys, c - 1, false)
    });
    let dev = ctx.by(3, 4);
    let progs: &[&[&[u8]]] = &[&[&[1], &[1]], &[&[1, 1], &[1]], &[&[1, 2], &[2, 1]]];
    ctx.explore("threads", "2 threads of 1-2 calls, ≤3 (4) deviations", |ch| {
        let p = *ch.pick(progs);
        let persist = ch.flag();
        dedupe_threads(ch, dev, persist, p)
    });
    let dev = ctx.by(2, 3);
    ctx.explore("threads-3", "3 threads of a call each, ≤2 (3) deviations", |ch| {
        let persist = ch.flag();
        dedupe_threads(ch, dev, persist, &[&[1], &[1], &[1]])
    });
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Debug)]
enum Op {
    Set(u8, u64),
    Get(u8),
    Wait(u64),
}

fn c05(ctx: &mut Ctx) {
    let ops = [Op::Set(1, 10), Op::Set(1, 1000), Op::Set(2, 20), Op::Get(1), Op::Get(2), Op::Wait(9), Op::Wait(2), Op::Wait(995)];
    let d = ctx.by(5, 6);
    ctx.explore("histories", "every history of ≤5 (6) operations: 3 sets (ttl 10, 1000, 20 ms), 2 gets, waits of 9, 2 and 995 ms", |ch| {
        let cache: InMemoryCache<u8, u64> = InMemoryCache::default();
        let mut now = 1000u64;
        sched::set_clock_ms(Some(now));
        let mut model: BTreeMap<u8, (u64, u64)> = Default::default();
        let (mut hits, mut total) = (0u64, 0u64);
        let mut trace: Vec<Op> = vec![];
        let mut version = 0;
        let r = (|| {
            for _ in 0..d {
                let op = ch.pick(&ops).clone();
                trace.push(op.clone());
                ch.step();
                let key = format!("{trace:?}");
                match op {
                    Op::Set(k, ttl) => {
                        version += 1;
                        sched::block_on(cache.set(k, version, NonZeroU64::new(ttl).unwrap())).unwrap();
                        model.insert(k, (version, now + ttl));
                    }
                    Op::Wait(ms) => {
                        now += ms;
                        sched::set_clock_ms(Some(now));
                    }
                    Op::Get(k) => {
                        let got = sched::block_on(cache.get(&k)).unwrap();
                        total += 1;
                        if got.is_some() {
                            hits += 1;
                        }
                        let want = model.get(&k).and_then(|(v, until)| match now.cmp(until) {
                            std::cmp::Ordering::Less => Some(Some(*v)),
                            std::cmp::Ordering::Greater => Some(None),
                            std::cmp::Ordering::Equal => None,
                        });
                        let want = match model.get(&k) { None => Some(None), Some(_) => want };
                        if let Some(want) = want {
                            ensure_eq!(got, want, key, "get({k}) at {now} ms");
                        }
                        ch.observe(got);
                    }
                }
                let rate = cache.hit_rate();
                match (rate, total) {
                    (None, 0) => {}
                    (Some(r), t) if t > 0 => ensure!((r - hits as f64 / t as f64).abs() < 1e-9, key, "hit rate {r}, {hits} of {t} gets were answered"),
                    (r, t) => return fail(key, format!("hit rate {r:?} after {t} gets")),
                }
                ch.state((format!("{model:?}"), now, hits, total));
            }
            ch.note(format!("{trace:?}"));
            Ok(())
        })();
        sched::set_clock_ms(None);
        r
    });
    ctx.explore("capacity", "capacity 1-3: every sequence of 5 sets over 4 keys keeps at most the capacity, the last one set among them, and never a value that was not the last one set for its key", |ch| {
        let cap = ch.range(1, 3);
        let cache: InMemoryCache<u8, usize> = InMemoryCache::new(cap);
        let mut last: BTreeMap<u8, usize> = Default::default();
        let mut trace = vec![];
        for n in 0..5 {
            let k = *ch.pick(&[1u8, 2, 3, 4]);
            trace.push(k);
            ch.step();
            sched::block_on(cache.set(k, n, NonZeroU64::new(1_000_000).unwrap())).unwrap();
            last.insert(k, n);
            let held: BTreeMap<u8, usize> = (1..=4).filter_map(|k| sched::block_on(cache.get(&k)).unwrap().map(|v| (k, v))).collect();
            let key = format!("cap={cap} {trace:?}");
            ensure!(held.len() <= cap, key, "{} entries held", held.len());
            ensure!(held.len() == cap.min(last.len()).min(held.len().max(1)), key, "holds {held:?}");
            ensure_eq!(held.get(&k), Some(&n), key, "the entry set last");
            for (k, v) in &held {
                ensure_eq!(last.get(k), Some(v), key, "value of {k}");
            }
            if last.len() <= cap {
                ensure_eq!(held, last, key, "nothing may be dropped below the capacity");
            }
            ch.state((cap, format!("{held:?}")));
            ch.observe(format!("{held:?}"));
        }
        ch.note(format!("cap={cap} {trace:?}"));
        Ok(())
    });
    let dev = ctx.by(4, 6);
    ctx.explore("threads", "2 threads of 3 operations on 2 keys: every get is linearizable and the hit rate counts every get", |ch| {
        let progs: &[[&[(bool, u8)]; 2]] = &[
            [&[(true, 1), (false, 1), (false, 2)], &[(true, 1), (false, 1), (false, 1)]],
            [&[(true, 1), (false, 2), (true, 1)], &[(true, 2), (false, 1), (false, 2)]],
        ];
        let prog = ch.pick(progs);
        let cache: InMemoryCache<u8, usize> = InMemoryCache::default();
        // (thread, value written | key read, what a get returned)
        let out: Mutex<Vec<(usize, u8, Option<usize>, Option<Option<usize>>)>> = Default::default();
        let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = prog
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let (cache, out) = (&cache, &out);
                Box::new(move || {
                    for (j, (set, k)) in p.iter().enumerate() {
                        if *set {
                            let v = t * 10 + j;
                            sched::block_on(cache.set(*k, v, NonZeroU64::new(1_000_000).unwrap())).unwrap();
                            out.lock().unwrap().push((t, *k, Some(v), None));
                        } else {
                            let r = sched::block_on(cache.get(k)).unwrap();
                            out.lock().unwrap().push((t, *k, None, Some(r)));
                        }
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let end = sched::threads(ch, dev, bodies, &|_| 0, false);
        let out = out.into_inner().unwrap();
        let key = format!("{prog:?} {out:?}");
        ensure_eq!(end, sched::End::Finished, key, "the operations do not all end");
        let per: Vec<Vec<_>> = (0..2).map(|t| out.iter().filter(|o| o.0 == t).map(|o| (o.1, o.2, o.3)).collect()).collect();
        ensure!(linear(&per, &mut vec![0, 0], &mut BTreeMap::new()), key, "no order of the operations explains the results");
        let gets = out.iter().filter(|o| o.3.is_some()).count();
        let hit = out.iter().filter(|o| matches!(o.3, Some(Some(_)))).count();
        ensure!((cache.hit_rate().unwrap() - hit as f64 / gets as f64).abs() < 1e-9, key, "hit rate {:?}, {hit} of {gets} gets were answered", cache.hit_rate());
        ch.state(&out);
        ch.observe(&out);
        ch.note(key);
        Ok(())
    });
}

type Done = (u8, Option<usize>, Option<Option<usize>>);
fn linear(per: &[Vec<Done>], at: &mut Vec<usize>, map: &mut BTreeMap<u8, usize>) -> bool {
    if (0..per.len()).all(|t| at[t] == per[t].len()) {
        return true;
    }
    for t in 0..per.len() {
        if at[t] == per[t].len() {
            continue;
        }
        let (k, w, r) = per[t][at[t]];
        let old = map.get(&k).copied();
        if let Some(r) = r {
            if r != old {
                continue;
            }
        }
        if let Some(v) = w {
            map.insert(k, v);
        }
        at[t] += 1;
        if linear(per, at, map) {
            return true;
        }
        at[t] -= 1;
        match old {
            Some(o) => map.insert(k, o),
            None => map.remove(&k),
        };
    }
    false
}

// ------------------------------------------------------------------ C06
fn stored(k: u8, v: usize, age: u64) -> (http_cache_reqwest::HttpResponse, CachePolicy) {
    let url = format!("http://example.com/{k}");
    let res = http_cache_reqwest::HttpResponse {
        body: format!("{k}:{v}").into_bytes(),
        headers: [("x-v".to_string(), v.to_string())].into_iter().collect(),
        status: 200 + (v % 2) as u16,
        url: url.parse().unwrap(),
        version: http_cache::HttpVersion::Http11,
    };
    let req = http::Request::get(&url).body(()).unwrap();
    let resp = http::Response::builder().status(200).header("cache-control", format!("max-age={age}")).header("x-v", v.to_string()).body(()).unwrap();
    (res, CachePolicy::new(&req, &resp))
}

fn c06(ctx: &mut Ctx) {
    #[derive(Clone, Debug)]
    enum H {
        Put(u8),
        Get(u8),
        Delete(u8),
        Clear,
    }
    let ops = [H::Put(1), H::Put(2), H::Put(3), H::Get(1), H::Get(2), H::Delete(1), H::Delete(3), H::Clear];
    let d = ctx.by(4, 5);
    for cap in [1u64, 2, 10] {
        ctx.explore(&format!("histories-{cap}"), "every history of ≤4 (5) operations over 3 keys: put, get, delete, clear; capacity 1, 2 and 10", |ch| {
            let m = tailcall_http_cache::HttpCacheManager::new(cap);
            let mut held: Vec<(u8, usize, u64)> = vec![]; // least recently used first
            let mut trace: Vec<H> = vec![];
            let mut version = 0;
            for _ in 0..d {
                let op = ch.pick(&ops).clone();
                trace.push(op.clone());
                ch.step();
                let key = format!("cap={cap} {trace:?}");
                match op {
                    H::Put(k) => {
                        version += 1;
                        let (r, p) = stored(k, version, version as u64 * 10);
                        let back = sched::run(m.put(k.to_string(), r.clone(), p)).unwrap();
                        ensure_eq!(back.body, r.body, key, "what a put returns");
                        held.retain(|x| x.0 != k);
                        held.push((k, version, version as u64 * 10));
                        if held.len() as u64 > cap {
                            held.remove(0);
                        }
                    }
                    H::Get(k) => {
                        if let Some(i) = held.iter().position(|x| x.0 == k) {
                            let e = held.remove(i);
                            held.push(e);
                        }
                        let _ = sched::run(m.get(&k.to_string())).unwrap();
                    }
                    H::Delete(k) => {
                        sched::run(m.delete(&k.to_string())).unwrap();
                        held.retain(|x| x.0 != k);
                    }
                    H::Clear => {
                        sched::run(m.clear()).unwrap();
                        held.clear();
                    }
                }
                // what is held, seen without touching the order of use
                let n = {
                    sched::run(m.cache.run_pending_tasks());
                    m.cache.entry_count()
                };
                ensure_eq!(n, held.len() as u64, key, "number of stored responses");
                for k in [1u8, 2, 3] {
                    let want = held.iter().find(|x| x.0 == k);
                    ensure_eq!(m.cache.contains_key(&k.to_string()), want.is_some(), key, "is {k} stored");
                }
                ch.state(format!("{cap}{held:?}"));
            }
            for k in [1u8, 2, 3] {
                let key = format!("cap={cap} {trace:?}");
                let want = held.iter().find(|x| x.0 == k);
                let got = sched::run(m.get(&k.to_string())).unwrap();
                match (got, want) {
                    (None, None) => {}
                    (Some((r, p)), Some((k, v, age))) => {
                        let (wr, _) = stored(*k, *v, *age);
                        ensure!(r.body == wr.body && r.headers == wr.headers && r.status == wr.status && r.url == wr.url, key, "response stored for {k}: {r:?}");
                        let ttl = p.time_to_live(std::time::SystemTime::now()).as_secs();
                        ensure!(ttl <= *age && ttl + 5 >= *age, key, "policy stored for {k}: {ttl} s instead of {age} s");
                    }
                    (g, w) => return fail(key, format!("{k}: got {:?}, expected {w:?}", g.map(|x| x.0.body))),
                }
                ch.observe(want);
            }
            ch.note(format!("cap={cap} {trace:?}"));
            Ok(())
        });
    }
    ctx.explore("default", "the default cache keeps 42 responses, the latest ones", |ch| {
        let n = *ch.pick(&[1usize, 41, 42, 43, 60]);
        let m = tailcall_http_cache::HttpCacheManager::default();
        for k in 0..n {
            let (r, p) = stored(k as u8, k, 100);
            sched::run(m.put(k.to_string(), r, p)).unwrap();
            ch.step();
        }
        let kept: Vec<usize> = (0..n).filter(|k| m.cache.contains_key(&k.to_string())).collect();
        let want: Vec<usize> = (n.saturating_sub(42)..n).collect();
        ensure_eq!(kept, want, format!("n={n}"), "responses kept");
        ch.state(n);
        ch.note(format!("{n} puts"));
        Ok(())
    });
}

// ------------------------------------------------------------------ C07
fn c07(ctx: &mut Ctx) {
    let values = ["max-age=10", "max-age=5", "max-age=0", "max-age=3000000000", "private", "no-cache", "public, max-age=7", "private, max-age=20", "no-store", ""];
    let ages: [Option<i64>; 10] = [Some(10), Some(5), Some(0), Some(3000000000), None, Some(-1), Some(7), Some(20), None, None];
    let model = |seq: &[usize]| -> (Option<i32>, Option<bool>) {
        let age = seq.iter().filter_map(|i| ages[*i]).min().map(|a| a.min(i32::MAX as i64) as i32);
        let public = if seq.iter().any(|i| values[*i].contains("private")) { Some(false) } else { None };
        (age, public)
    };
    let d = ctx.by(3, 5);
    ctx.explore("sequences", "every sequence of ≤3 (5) upstream cache-control headers out of 10", |ch| {
        let (r, _) = rt::runtime(Arc::new(|_| rt::json("{}")), false);
        let rc = RequestContext::new(r);
        let seq = ch.seq(&(0..values.len()).collect::<Vec<_>>(), 0, d);
        for i in &seq {
            ch.step();
            if let Some(cc) = cache_control::CacheControl::from_value(values[*i]) {
                rc.set_cache_control(cc);
            }
        }
        let key = format!("{:?}", seq.iter().map(|i| values[*i]).collect::<Vec<_>>());
        let got = (rc.get_min_max_age(), rc.is_cache_public());
        ensure_eq!(got, model(&seq), key, "max-age and visibility");
        ch.state(got);
        ch.observe(got);
        ch.note(format!("{key} -> {got:?}"));
        Ok(())
    });
    let dev = ctx.by(4, 8);
    ctx.explore("threads", "2 (3) threads reporting one or two headers each, every schedule with ≤4 (8) deviations", |ch| {
        let seqs: Vec<Vec<usize>> = (0..2).map(|_| ch.seq(&[1usize, 0, 4, 5], 1, 2)).collect();
        let (r, _) = rt::runtime(Arc::new(|_| rt::json("{}")), false);
        let rc = RequestContext::new(r);
        let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = seqs
            .iter()
            .map(|s| {
                let rc = &rc;
                Box::new(move || {
                    for i in s {
                        rc.set_cache_control(cache_control::CacheControl::from_value(values[*i]).unwrap());
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let end = sched::threads(ch, dev, bodies, &|_| 0, false);
        let key = format!("{seqs:?}");
        ensure_eq!(end, sched::End::Finished, key, "the reports do not all end");
        let all: Vec<usize> = seqs.iter().flatten().copied().collect();
        ensure_eq!((rc.get_min_max_age(), rc.is_cache_public()), model(&all), key, "max-age and visibility");
        ch.state((&seqs, rc.get_min_max_age()));
        ch.observe(rc.get_min_max_age());
        ch.note(key);
        Ok(())
    });
    ctx.explore("counter", "a counter hands out consecutive numbers, each once; threads sharing one never get the same", |ch| {
        let start = *ch.pick(&[0u64, 1, 41]);
        let c = Counter::new(start);
        for i in 0..6 {
            ensure_eq!(c.next(), start + i, format!("start={start}"), "number {i}");
            ch.step();
        }
        let a: AtomicCounter<usize> = Default::default();
        let out: Mutex<Vec<Vec<usize>>> = Mutex::new(vec![vec![]; 3]);
        let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = (0..3)
            .map(|t| {
                let (a, out) = (&a, &out);
                Box::new(move || {
                    for _ in 0..2 {
                        let v = a.next();
                        out.lock().unwrap()[t].push(v);
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let end = sched::threads(ch, 4, bodies, &|_| 0, false);
        let out = out.into_inner().unwrap();
        ensure_eq!(end, sched::End::Finished, format!("{out:?}"), "the threads do not all end");
        let mut all: Vec<usize> = out.iter().flatten().copied().collect();
        all.sort();
        ensure!(all.windows(2).all(|w| w[1] == w[0] + 1), format!("{out:?}"), "numbers handed out: {all:?}");
        ensure!(out.iter().all(|o| o[0] < o[1]), format!("{out:?}"), "a later number is smaller");
        ch.state(&out);
        ch.observe(&out);
        ch.note(format!("{out:?}"));
        Ok(())
    });
}
