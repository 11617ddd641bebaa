//! The batching data loader: C01 (who gets what), C02 (what a batch is),
//! C03 (the cache in front of it).
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use tailcall::core::data_loader::{DataLoader, Loader};
use tailcall::core::vp_hooks::export::data_loader::{CacheFactory, HashMapCache, LruCache, NoCache};

use super::{Prop, MC};
use crate::engine::{fail, Chooser, Ctx, Outcome};
use crate::sched::{self, Ev, World};
use crate::{ensure, ensure_eq};

pub const C01: Prop = Prop {
    id: "C01", level: MC, rule: "", run: c01,
    assumptions: &["switches happen at lock, atomic and await points of the loader; std/tokio channels are atomic", "sequentially consistent memory"],
};
pub const C02: Prop = Prop {
    id: "C02", level: MC, rule: "", run: c02,
    assumptions: &["timers go off in the order of their deadlines", "a spawned task runs before the next outside event in the event-level part; the thread-level part delays it arbitrarily"],
};
pub const C03: Prop = Prop {
    id: "C03", level: MC, rule: "", run: c03,
    assumptions: &["switching the cache on or off happens while no batch is in flight"],
};

type Val = (u8, usize); // key, number of the batch that produced it
type Log = Arc<Mutex<Vec<BTreeSet<u8>>>>;

/// What the outside answers to a batch.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Answer {
    All,
    NotFirst,
    Fails,
}
const ANSWERS: [Answer; 3] = [Answer::All, Answer::Fails, Answer::NotFirst];

fn answer(a: Answer, keys: &BTreeSet<u8>, batch: usize) -> Result<BTreeMap<u8, Val>, usize> {
    match a {
        Answer::Fails => Err(batch),
        Answer::All => Ok(keys.iter().map(|k| (*k, (*k, batch))).collect()),
        // one key has no value, and a value nobody asked for comes back
        Answer::NotFirst => Ok(keys.iter().skip(1).chain([&99]).map(|k| (*k, (*k, batch))).collect()),
    }
}

struct L {
    log: Log,
    dup: Arc<Mutex<Option<String>>>,
}

#[async_trait::async_trait]
impl Loader<u8> for L {
    type Value = Val;
    type Error = usize;
    async fn load(&self, keys: &[u8]) -> Result<HashMap<u8, Val>, usize> {
        let set: BTreeSet<u8> = keys.iter().copied().collect();
        if set.len() != keys.len() {
            *self.dup.lock().unwrap() = Some(format!("a batch names a key twice: {keys:?}"));
        }
        let batch = {
            let mut l = self.log.lock().unwrap();
            l.push(set.clone());
            l.len() - 1
        };
        let o = sched::gate(format!("batch{batch}")).await;
        answer(ANSWERS[o], &set, batch).map(|m| m.into_iter().collect())
    }
}

type Res = Result<BTreeMap<u8, Val>, usize>;

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Done(Res),
    /// answered with batch n, plus what the cache had
    Batch(Option<usize>, BTreeMap<u8, Val>),
}

struct Cfg<'a> {
    max: usize,
    keys: &'a [&'a [u8]],
    outcomes: usize,
    cancels: usize,
    /// how often the cache is emptied, or fed with key 1
    clears: usize,
    check_batches: bool,
}

/// Clients (one load each), timers and answers in every order.
fn histories<C: CacheFactory<u8, Val>>(ch: &Chooser, cfg: &Cfg, factory: C, caching: bool) -> Outcome {
    let log: Log = Default::default();
    let dup = Arc::new(Mutex::new(None));
    let dl = Arc::new(DataLoader::with_cache(L { log: log.clone(), dup: dup.clone() }, factory).max_batch_size(cfg.max).delay(Duration::from_millis(5)));
    let mut w: World<Res> = World::new();
    for ks in cfg.keys {
        let dl = dl.clone();
        let ks = ks.to_vec();
        w.add(async move {
            if ks.len() == 1 {
                dl.load_one(ks[0]).await.map(|o| o.map(|v| (ks[0], v)).into_iter().collect())
            } else {
                dl.load_many(ks).await.map(|m| m.into_iter().collect())
            }
        });
    }
    let n = cfg.keys.len();
    // the model
    let mut cache: BTreeMap<u8, Val> = Default::default();
    let mut started = vec![false; n];
    let mut want: Vec<Option<Want>> = vec![None; n];
    let mut missing: Vec<BTreeSet<u8>> = vec![Default::default(); n];
    let mut waiting: Vec<usize> = vec![];
    let mut batches: Vec<(BTreeSet<u8>, Vec<usize>, Option<Answer>)> = vec![];
    let mut got: Vec<Option<Res>> = vec![None; n];
    let mut cancelled = vec![false; n];
    let mut cancels = cfg.cancels;
    let mut clears = cfg.clears;
    let desc = format!("max={} keys={:?}", cfg.max, cfg.keys);
    ch.note(desc.clone());
    let mut trace = vec![];
    loop {
        enum E {
            Poll(usize),
            Out(Ev),
            Cancel(usize),
            Clear,
            Feed,
        }
        let mut evs: Vec<E> = w.runnable().into_iter().map(E::Poll).collect();
        evs.extend(w.env.pending().into_iter().map(E::Out));
        if cancels > 0 {
            evs.extend(w.alive().into_iter().filter(|i| started[*i]).map(E::Cancel));
        }
        if clears > 0 {
            evs.extend([E::Clear, E::Feed]);
        }
        if w.alive().is_empty() {
            break;
        }
        let key = || format!("{desc} {}", trace_str(&trace));
        if evs.iter().all(|e| matches!(e, E::Cancel(_) | E::Clear | E::Feed)) {
            return fail(key(), format!("loads {:?} are never answered", w.alive()));
        }
        // polls in order first: earlier clients are polled before later ones only by choice
        let e = &evs[ch.choose(evs.len())];
        ch.step();
        let before = log.lock().unwrap().len();
        match e {
            E::Poll(i) => {
                trace.push(format!("poll{i}"));
                let r = w.poll(*i);
                if !started[*i] {
                    started[*i] = true;
                    let asked: BTreeSet<u8> = cfg.keys[*i].iter().copied().collect();
                    let hit: BTreeMap<u8, Val> = asked.iter().filter_map(|k| cache.get(k).map(|v| (*k, *v))).collect();
                    missing[*i] = asked.iter().filter(|k| !cache.contains_key(k)).copied().collect();
                    if missing[*i].is_empty() {
                        want[*i] = Some(Want::Done(Ok(hit)));
                    } else {
                        want[*i] = Some(Want::Batch(None, hit));
                        waiting.push(*i);
                    }
                }
                if let Some(r) = r {
                    got[*i] = Some(r);
                }
            }
            E::Cancel(i) => {
                trace.push(format!("cancel{i}"));
                cancels -= 1;
                cancelled[*i] = true;
                w.cancel(*i);
            }
            E::Clear => {
                trace.push("clear".into());
                clears -= 1;
                dl.clear();
                cache.clear();
            }
            E::Feed => {
                trace.push("feed".into());
                clears -= 1;
                let v = (1, 500 + clears);
                sched::block_on(dl.feed_one(1, v));
                cache.insert(1, v);
            }
            E::Out(Ev::Timer(t)) => {
                trace.push("timer".into());
                w.fire(&Ev::Timer(*t), 0);
            }
            E::Out(g @ Ev::Gate(b, _)) => {
                let o = ch.choose(cfg.outcomes);
                trace.push(format!("batch{b}:{:?}", ANSWERS[o]));
                w.fire(g, o);
                batches[*b].2 = Some(ANSWERS[o]);
                if caching {
                    if let Ok(m) = answer(ANSWERS[o], &batches[*b].0, *b) {
                        cache.extend(m);
                    }
                }
            }
        }
        let key = || format!("{desc} {}", trace_str(&trace));
        // batches that were dispatched by this event
        let now: Vec<BTreeSet<u8>> = log.lock().unwrap()[before..].to_vec();
        let all_missing = |ws: &Vec<usize>| ws.iter().flat_map(|i| missing[*i].iter().copied()).collect::<BTreeSet<u8>>();
        if now.len() > 1 {
            return fail(key(), format!("one event dispatched {} batches", now.len()));
        }
        for b in now {
            let num = batches.len();
            let exp = all_missing(&waiting);
            if cfg.check_batches && b.len() < cfg.max && !matches!(e, E::Out(Ev::Timer(_))) {
                return fail(key(), format!("batch {num}, {b:?}, is sent before it is full and before its delay is over"));
            }
            if b != exp {
                return fail(key(), format!("batch {num} asks for {b:?} while {exp:?} are waiting"));
            }
            for i in waiting.drain(..) {
                if let Some(Want::Batch(x, _)) = &mut want[i] {
                    *x = Some(num)
                }
                batches.get(num);
            }
            batches.push((b, vec![], None));
        }
        if let Some(d) = dup.lock().unwrap().clone() {
            return fail(key(), d);
        }
        if cfg.check_batches {
            let pend = all_missing(&waiting).len();
            ensure!(pend == 0 || pend < cfg.max, key(), "{pend} keys wait although a batch is full at {}", cfg.max);
            ensure!(
                pend == 0 || w.env.pending().iter().any(|e| matches!(e, Ev::Timer(_))),
                key(),
                "{pend} keys wait and no timer will send them"
            );
            for (i, b) in batches.iter().enumerate() {
                ensure!(!b.0.is_empty(), key(), "batch {i} is empty");
            }
        }
        if caching {
            let have: BTreeMap<u8, Val> = dl.get_cached_values().into_iter().collect();
            ensure_eq!(have, cache, key(), "contents of the cache");
        }
        // answers
        for i in 0..n {
            let expected: Option<Res> = match &want[i] {
                _ if cancelled[i] => None,
                Some(Want::Done(r)) => Some(r.clone()),
                Some(Want::Batch(Some(b), hit)) => batches[*b].2.map(|a| {
                    answer(a, &batches[*b].0, *b).map(|m| {
                        let mut h = hit.clone();
                        h.extend(m.into_iter().filter(|(k, _)| missing[i].contains(k)));
                        h
                    })
                }),
                _ => None,
            };
            if let Some(g) = &got[i] {
                ensure_eq!(Some(g.clone()), expected, key(), "load {i} of {:?}", cfg.keys[i]);
            }
        }
        if caching {
            let c: BTreeMap<u8, Val> = dl.get_cached_values().into_iter().collect();
            ensure_eq!(c, cache, key(), "contents of the cache");
        }
        ch.state((&started, &waiting, &batches, &got, &cancelled, &cfg.max, cfg.keys));
    }
    ch.note(trace_str(&trace));
    ch.observe(format!("{got:?}{batches:?}"));
    Ok(())
}

fn trace_str(t: &[String]) -> String {
    t.join(",")
}

/// Each client does its loads in sequence on its own thread.
fn on_threads<C: CacheFactory<u8, Val>>(ch: &Chooser, preemptions: usize, max: usize, ans: Answer, progs: &[&[&[u8]]], factory: C, caching: bool) -> Outcome {
    let log: Log = Default::default();
    let dup = Arc::new(Mutex::new(None));
    let dl = DataLoader::with_cache(L { log: log.clone(), dup: dup.clone() }, factory).max_batch_size(max);
    // what each load returned, and which batches were dispatched before it
    // began and when it ended
    let res: Mutex<Vec<(usize, usize, Vec<u8>, Res, usize, usize)>> = Default::default();
    let desc = format!("threads max={max} answer={ans:?} {progs:?}");
    ch.note(desc.clone());
    let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = progs
        .iter()
        .enumerate()
        .map(|(t, prog)| {
            let (dl, res, log) = (&dl, &res, &log);
            Box::new(move || {
                for (j, ks) in prog.iter().enumerate() {
                    let before = log.lock().unwrap().len();
                    let r: Res = if ks.len() == 1 {
                        sched::block_on(dl.load_one(ks[0])).map(|o| o.map(|v| (ks[0], v)).into_iter().collect())
                    } else {
                        sched::block_on(dl.load_many(ks.to_vec())).map(|m| m.into_iter().collect())
                    };
                    let after = log.lock().unwrap().len();
                    res.lock().unwrap().push((t, j, ks.to_vec(), r, before, after));
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    let o = ANSWERS.iter().position(|a| *a == ans).unwrap();
    let end = sched::threads(ch, preemptions, bodies, &|_| o, true);
    let mut res = res.into_inner().unwrap();
    res.sort_by_key(|r| (r.0, r.1));
    let log = log.lock().unwrap().clone();
    let key = || format!("{desc} batches={log:?} results={res:?}");
    ensure_eq!(end, sched::End::Finished, key(), "the loads do not all end");
    if let Some(d) = dup.lock().unwrap().clone() {
        return fail(key(), d);
    }
    let total: usize = progs.iter().map(|p| p.len()).sum();
    ensure_eq!(res.len(), total, key(), "number of loads that returned");
    for (t, j, ks, r, before, after) in &res {
        // which batch answered: one dispatched after the load began (or, with
        // a cache, an earlier one that had succeeded)
        let ok = match r {
            Err(b) => *b < *after && *b >= *before && log[*b].iter().any(|k| ks.contains(k)) && ans == Answer::Fails,
            Ok(m) => {
                let want_all = ans == Answer::All;
                m.iter().all(|(k, v)| ks.contains(k) && v.0 == *k && v.1 < *after && (caching || v.1 >= *before) && log[v.1].contains(k))
                    && (!want_all || ks.iter().all(|k| m.contains_key(k)))
                    && ans != Answer::Fails
            }
        };
        ensure!(ok, key(), "load {j} of thread {t}, {ks:?}, returned {r:?}; batches {before}..{after} of {log:?} were its own");
        if !caching {
            // everything it asked for went out in one batch after it began
            ensure!(
                log[*before..*after].iter().any(|b| ks.iter().all(|k| b.contains(k))),
                key(),
                "load {j} of thread {t} was answered by no batch of its own"
            );
        }
    }
    for b in &log {
        ensure!(!b.is_empty(), key(), "an empty batch");
        let largest = progs.iter().flat_map(|p| p.iter()).map(|k| k.len()).max().unwrap_or(0);
        ensure!(b.len() <= (max - 1) + largest.max(1), key(), "a batch of {} keys", b.len());
    }
    for k in 0..10u8 {
        let asked: usize = progs.iter().flat_map(|p| p.iter()).filter(|ks| ks.contains(&k)).count();
        let sent = log.iter().filter(|b| b.contains(&k)).count();
        ensure!(sent <= asked, key(), "key {k} was asked for {asked} times and sent {sent} times");
        if caching && ans == Answer::All {
            // a load that began after the key was cached must not send it again
            for p in progs.iter() {
                let _ = p;
            }
        }
    }
    if caching && ans == Answer::All {
        for (t, j, ks, r, before, _) in &res {
            if let Ok(m) = r {
                for k in ks {
                    // an earlier load of the same thread had the value
                    let known = res.iter().find(|x| x.0 == *t && x.1 < *j && x.2.contains(k));
                    if let Some(x) = known {
                        let old = x.3.as_ref().ok().and_then(|m| m.get(k)).copied();
                        let new = m.get(k).copied();
                        // another thread's batch in flight may have replaced it, but not a batch of this load
                        ensure!(new.is_some() && (new == old || new.unwrap().1 < *before), key(), "thread {t} loads {k} again although it is cached");
                    }
                }
            }
        }
    }
    ch.state(format!("{log:?}{res:?}"));
    ch.observe(format!("{log:?}{res:?}"));
    Ok(())
}

const TWO: &[&[&[u8]]] = &[&[&[1]], &[&[1, 1]], &[&[1], &[1]], &[&[1], &[2]], &[&[1, 2], &[2, 3]], &[&[1, 2, 3], &[4]], &[&[], &[1]]];
const THREE: &[&[&[u8]]] = &[&[&[1, 2], &[1], &[3]], &[&[], &[1, 2, 3], &[2]], &[&[1], &[1], &[1]], &[&[1], &[2], &[3]]];

fn event_sections(ctx: &mut Ctx, check_batches: bool) {
    ctx.explore("events-2", "≤2 loads over keys {1..4}, max batch 1/2/3/4/1000, every order of polls, timer, answers (all/fails/missing+unasked) and ≤1 cancellation", |ch| {
        let keys = *ch.pick(TWO);
        let max = *ch.pick(&[1usize, 2, 3, 4, 1000]);
        histories(ch, &Cfg { max, keys, outcomes: 3, cancels: 1, clears: 0, check_batches }, NoCache, false)
    });
    let (outcomes, cancels) = ctx.by((2, 0), (3, 1));
    ctx.explore("events-3", "3 loads, max batch 1/2/3/1000, every order of polls, timer, answers (2 kinds; thorough: 3 and one cancellation)", |ch| {
        let keys = *ch.pick(THREE);
        let max = *ch.pick(&[1usize, 2, 3, 1000]);
        histories(ch, &Cfg { max, keys, outcomes, cancels, clears: 0, check_batches }, NoCache, false)
    });
}

fn c01(ctx: &mut Ctx) {
    let sets4: &[&[&[u8]]] = &[&[&[1], &[1], &[2], &[2]], &[&[1, 2], &[2, 3], &[3, 1], &[4]]];
    event_sections(ctx, false);
    if ctx.thorough() {
        ctx.explore("events-4", "4 loads, no cancellation, every order", |ch| {
            let keys = *ch.pick(sets4);
            let max = *ch.pick(&[2usize, 3]);
            histories(ch, &Cfg { max, keys, outcomes: 2, cancels: 0, clears: 0, check_batches: false }, NoCache, false)
        });
    }
    let p = ctx.by(2, 3);
    let progs: &[&[&[&[u8]]]] = &[&[&[&[1]], &[&[1]]], &[&[&[1]], &[&[2]]], &[&[&[1, 2]], &[&[2, 3]]], &[&[&[1], &[1]], &[&[1]]]];
    ctx.explore("threads", "2 threads of 1-2 loads, executor and timer threads, ≤2 (3) deviations from the default schedule", |ch| {
        let prog = *ch.pick(progs);
        let max = *ch.pick(&[1usize, 2, 1000]);
        let a = *ch.pick(&[Answer::All, Answer::Fails, Answer::NotFirst]);
        on_threads(ch, p, max, a, prog, NoCache, false)
    });
    let p3: &[&[&[&[u8]]]] = &[&[&[&[1]], &[&[2]], &[&[1]]], &[&[&[1, 2]], &[&[2]], &[&[3]]]];
    let pp = ctx.by(2, 3);
    ctx.explore("threads-3", "3 threads of one load each, ≤2 (3) deviations from the default schedule", |ch| {
        let prog = *ch.pick(p3);
        let max = *ch.pick(&[2usize, 1000]);
        on_threads(ch, pp, max, Answer::All, prog, NoCache, false)
    });
}

fn c02(ctx: &mut Ctx) {
    event_sections(ctx, true);
    let p = ctx.by(2, 3);
    let progs: &[&[&[&[u8]]]] = &[&[&[&[1]], &[&[1]]], &[&[&[1]], &[&[2]]], &[&[&[1, 2]], &[&[2, 3]]], &[&[&[1], &[2]], &[&[1]]]];
    ctx.explore("threads", "2 threads, ≤2 (3) deviations from the default schedule, max batch 1/2/3/1000", |ch| {
        let prog = *ch.pick(progs);
        let max = *ch.pick(&[1usize, 2, 3, 1000]);
        on_threads(ch, p, max, Answer::All, prog, NoCache, false)
    });
    ctx.explore("delay", "a single load: the timer is the configured delay, and the batch goes out when it fires and not before", |ch| {
        let d = *ch.pick(&[0u64, 1, 7, 1000]);
        let log: Log = Default::default();
        let dl = Arc::new(DataLoader::new(L { log: log.clone(), dup: Default::default() }).delay(Duration::from_millis(d)));
        let mut w: World<Res> = World::new();
        let d2 = dl.clone();
        w.add(async move { d2.load_one(1).await.map(|_| Default::default()) });
        w.poll(0);
        ch.step();
        ensure!(log.lock().unwrap().is_empty(), format!("delay={d}"), "the batch was sent before the delay");
        ensure_eq!(w.env.deadlines(), vec![d], format!("delay={d}"), "deadline of the batch");
        let t = w.env.pending()[0].clone();
        w.fire(&t, 0);
        ensure_eq!(log.lock().unwrap().len(), 1, format!("delay={d}"), "batches sent at the deadline");
        ch.state(d);
        ch.note(format!("delay {d} ms"));
        Ok(())
    });
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Load(&'static [u8]),
    Fails(&'static [u8]),
    Feed(u8),
    Clear,
    Enable(bool),
    EnableAll(bool),
}

/// Sequential histories against a map (or an LRU list).
fn cache_history<C: CacheFactory<u8, Val>>(ch: &Chooser, factory: C, cap: Option<usize>, ops: &[Op], depth: usize) -> Outcome {
    let log: Log = Default::default();
    let dl = Arc::new(DataLoader::with_cache(L { log: log.clone(), dup: Default::default() }, factory));
    // least recently used first
    let mut model: Vec<(u8, Val)> = vec![];
    let (mut on, mut all_on) = (true, true);
    let mut fed = 100;
    let mut trace: Vec<Op> = vec![];
    let put = |m: &mut Vec<(u8, Val)>, k: u8, v: Val| {
        if cap == Some(0) {
            return;
        }
        m.retain(|x| x.0 != k);
        if Some(m.len()) == cap {
            m.remove(0);
        }
        m.push((k, v));
    };
    for _ in 0..depth {
        let op = ch.pick(ops).clone();
        trace.push(op.clone());
        ch.step();
        let key = format!("cap={cap:?} {trace:?}");
        match op {
            Op::Feed(k) => {
                fed += 1;
                sched::block_on(dl.feed_one(k, (k, fed)));
                put(&mut model, k, (k, fed));
            }
            Op::Clear => {
                dl.clear();
                model.clear();
            }
            Op::Enable(b) => {
                dl.enable_cache(b);
                on = b;
            }
            Op::EnableAll(b) => {
                dl.enable_all_cache(b);
                all_on = b;
            }
            Op::Load(ks) | Op::Fails(ks) => {
                let fails = matches!(op, Op::Fails(_));
                let mut w: World<Res> = World::new();
                let (d2, k2) = (dl.clone(), ks.to_vec());
                w.add(async move { d2.load_many(k2).await.map(|m| m.into_iter().collect()) });
                let before = log.lock().unwrap().len();
                let mut r = w.poll(0);
                while r.is_none() {
                    let Some(e) = w.env.pending().first().cloned() else {
                        return fail(key, "the load is never answered");
                    };
                    w.fire(&e, if fails { 1 } else { 0 });
                    if !w.runnable().is_empty() {
                        r = w.poll(0);
                    }
                }
                let used = on && all_on;
                let mut exp: BTreeMap<u8, Val> = Default::default();
                let mut miss: BTreeSet<u8> = Default::default();
                for k in ks {
                    match model.iter().position(|x| x.0 == *k) {
                        Some(i) if used => {
                            let e = model.remove(i);
                            exp.insert(*k, e.1);
                            model.push(e);
                        }
                        _ => {
                            miss.insert(*k);
                        }
                    }
                }
                let sent = log.lock().unwrap()[before..].to_vec();
                let want_sent: Vec<BTreeSet<u8>> = if miss.is_empty() { vec![] } else { vec![miss.clone()] };
                ensure_eq!(sent, want_sent, key, "batches sent for {ks:?}");
                let want = if fails && !miss.is_empty() {
                    Err(before)
                } else {
                    for k in &miss {
                        exp.insert(*k, (*k, before));
                        if used {
                            put(&mut model, *k, (*k, before));
                        }
                    }
                    Ok(exp)
                };
                ensure_eq!(r.unwrap(), want, key, "result of the last operation");
                ch.observe(format!("{want:?}"));
            }
        }
        let c: BTreeMap<u8, Val> = dl.get_cached_values().into_iter().collect();
        let m: BTreeMap<u8, Val> = model.iter().copied().collect();
        ensure_eq!(c, m, key, "contents of the cache");
        ch.state((format!("{model:?}"), on, all_on));
    }
    ch.note(format!("cap={cap:?} {trace:?}"));
    Ok(())
}

fn c03(ctx: &mut Ctx) {
    let (most, cancels) = ctx.by((2, 0), (3, 1));
    let sets: &[&[&[u8]]] = &[&[&[1], &[1]], &[&[1, 2], &[2, 3], &[1]], &[&[1], &[1, 2], &[2]]];
    ctx.explore("events", "≤3 loads in flight over a map cache, every order of polls, timer, answers", |ch| {
        let keys = *ch.pick(sets);
        let max = *ch.pick(&[1usize, 2, 1000]);
        let outcomes = if keys.len() < 3 { 3 } else { most };
        histories(ch, &Cfg { max, keys, outcomes, cancels, clears: 0, check_batches: true }, HashMapCache::default(), true)
    });
    let (outcomes, clears) = (3, ctx.by(1, 2));
    let sets: &[&[&[u8]]] = &[&[&[1], &[1]], &[&[1, 2], &[2, 1]], &[&[2], &[1, 2]], &[&[1], &[2], &[1]]];
    let sets = &sets[..ctx.by(3, 4)];
    ctx.explore("cleared", "2 (3) loads in flight over a map cache which is emptied or fed once (twice) at any moment", |ch| {
        let keys = *ch.pick(sets);
        let max = *ch.pick(&[2usize, 1000]);
        let (outcomes, clears) = if keys.len() < 3 { (outcomes, clears) } else { (2, 1) };
        histories(ch, &Cfg { max, keys, outcomes, cancels: 0, clears, check_batches: true }, HashMapCache::default(), true)
    });
    let ops = [Op::Load(&[1]), Op::Load(&[1, 2]), Op::Load(&[2, 3]), Op::Fails(&[1, 3]), Op::Feed(1), Op::Feed(3), Op::Clear, Op::Enable(false), Op::Enable(true), Op::EnableAll(false), Op::EnableAll(true)];
    let d = ctx.by(4, 5);
    ctx.explore("map", "every history of ≤4 (5) operations over 11 (load, failing load, feed, clear, switches)", |ch| cache_history(ch, HashMapCache::default(), None, &ops, d));
    let one = [Op::Load(&[1]), Op::Load(&[2]), Op::Load(&[3]), Op::Fails(&[1]), Op::Feed(2), Op::Clear];
    let d = ctx.by(5, 6);
    for cap in [1usize, 2, 3] {
        ctx.explore(&format!("lru-{cap}"), "every history of ≤5 (6) operations over 6, LRU of capacity 1/2/3", |ch| cache_history(ch, LruCache::vp_new(cap), Some(cap), &one, d));
    }
    ctx.explore("none", "without a cache nothing is remembered", |ch| cache_history(ch, NoCache, Some(0), &one, 4));
    let p = ctx.by(2, 3);
    let progs: &[&[&[&[u8]]]] = &[&[&[&[1], &[1]], &[&[1]]], &[&[&[1, 2], &[2]], &[&[2], &[1]]]];
    ctx.explore("threads", "2 threads of 1-2 loads over a shared map cache, ≤2 (3) deviations from the default schedule", |ch| {
        let prog = *ch.pick(progs);
        let max = *ch.pick(&[1usize, 1000]);
        on_threads(ch, p, max, Answer::All, prog, HashMapCache::default(), true)
    });
}
