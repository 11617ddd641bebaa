//! Exhaustive exploration: every execution is a sequence of bounded choices;
//! the explorer replays a prefix of choices and takes the first alternative
//! from there on, until every sequence has been executed.
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::Instant;

use serde_json::json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation: `key` names the failing input or history in a stable way (it
/// is what the known-findings file lists), `msg` says what went wrong.
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}

pub type Outcome = Result<(), Violation>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail($key.to_string(), format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $key:expr, $($arg:tt)*) => {{
        match (&$got, &$want) {
            (got, want) => {
                if got != want {
                    return $crate::engine::fail(
                        $key.to_string(),
                        format!("{}: got {:?}, expected {:?}", format!($($arg)*), got, want),
                    );
                }
            }
        }
    }};
}

pub fn hash_of(t: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Trail {
    prefix: Vec<usize>,
    taken: Vec<(usize, usize)>,
    diverged: bool,
}

/// Decides every nondeterministic point of one execution.
pub struct Chooser {
    trail: RefCell<Trail>,
    states: RefCell<HashSet<u64>>,
    steps: Cell<u64>,
    obs: Cell<u64>,
    note: RefCell<Vec<String>>,
    nontrivial: Cell<bool>,
    /// Which subtrees are this process's, if the tree is divided.
    share: Option<(u64, u64)>,
    /// How many of the choices decide whose subtree this is, once known.
    head: Cell<Option<usize>>,
    foreign: Cell<bool>,
    /// The choices are made by controlled threads, which are stopped by their
    /// scheduler.
    threads: Cell<bool>,
}

/// Ends an execution that another worker makes.
struct Foreign;

impl Chooser {
    fn new(prefix: Vec<usize>, share: Option<(u64, u64)>) -> Self {
        Chooser {
            trail: RefCell::new(Trail { prefix, ..Default::default() }),
            states: Default::default(),
            steps: Cell::new(0),
            obs: Cell::new(0),
            note: Default::default(),
            nontrivial: Cell::new(true),
            share,
            head: Cell::new(None),
            foreign: Cell::new(false),
            threads: Cell::new(false),
        }
    }
    /// The choices so far decide which worker makes this execution.
    pub fn go(&self) {
        if self.head.get().is_some() {
            return;
        }
        let head: Vec<usize> = self.trail.borrow().taken.iter().map(|t| t.1).collect();
        self.head.set(Some(head.len()));
        if let Some((k, of)) = self.share {
            if hash_of(&head[..]) % of != k {
                self.foreign.set(true);
                if !self.threads.get() {
                    std::panic::resume_unwind(Box::new(Foreign));
                }
            }
        }
    }
    pub fn threads_start(&self) {
        self.threads.set(true);
    }
    pub fn threads_end(&self) {
        self.threads.set(false);
        if self.foreign.get() {
            std::panic::resume_unwind(Box::new(Foreign));
        }
    }
    pub fn is_foreign(&self) -> bool {
        self.foreign.get()
    }
    /// One of `0..n`.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "engine: choice among nothing");
        let mut t = self.trail.borrow_mut();
        let i = t.taken.len();
        let c = if i < t.prefix.len() { t.prefix[i] } else { 0 };
        if c >= n {
            t.diverged = true;
        }
        let c = c.min(n - 1);
        t.taken.push((n, c));
        let full = t.taken.len() == SPLIT;
        drop(t);
        if full {
            self.go();
        }
        c
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// `lo..=hi`
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// every subset of xs
    pub fn subset<T: Clone>(&self, xs: &[T]) -> Vec<T> {
        xs.iter().filter(|_| self.flag()).cloned().collect()
    }
    /// every sequence over xs of length lo..=hi
    pub fn seq<T: Clone>(&self, xs: &[T], lo: usize, hi: usize) -> Vec<T> {
        let n = self.range(lo, hi);
        (0..n).map(|_| self.pick(xs).clone()).collect()
    }
    /// every permutation of xs
    pub fn perm<T: Clone>(&self, xs: &[T]) -> Vec<T> {
        let mut rest = xs.to_vec();
        let mut out = vec![];
        while !rest.is_empty() {
            out.push(rest.remove(self.choose(rest.len())));
        }
        out
    }
    /// A state of the system under test (or of the model bound to it) was
    /// reached.
    pub fn state(&self, s: impl Hash) {
        self.states.borrow_mut().insert(hash_of(&s));
    }
    /// An operation was performed on the code under test.
    pub fn step(&self) {
        self.steps.set(self.steps.get() + 1);
    }
    /// Something the code under test returned.
    pub fn observe(&self, o: impl Hash) {
        self.obs.set(hash_of(&(self.obs.get(), hash_of(&o))));
    }
    /// Readable account of this execution, kept for samples and replays.
    pub fn note(&self, s: impl Into<String>) {
        let mut n = self.note.borrow_mut();
        if n.len() < 400 {
            n.push(s.into())
        }
    }
    pub fn notes(&self) -> Vec<String> {
        self.note.borrow().clone()
    }
    /// This execution exercises nothing of interest; it is not counted as
    /// non-trivial.
    pub fn trivial(&self) {
        self.nontrivial.set(false);
    }
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Section {
    pub name: String,
    pub executions: u64,
    pub choice_points: u64,
    pub steps: u64,
    pub states: HashSet<u64>,
    pub observations: HashSet<u64>,
    pub nontrivial: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub reruns: u64,
    pub samples: Vec<String>,
    pub bound: String,
}

pub struct Known {
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, Vec<usize>)>,
    pub sections: Vec<Section>,
    pub violations: Vec<(String, Vec<usize>, Violation)>,
    pub known: Vec<Known>,
    pub known_hit: BTreeMap<String, u64>,
    pub started: Instant,
    pub only: Option<String>,
    /// This process explores the subtrees of the choice tree with this residue.
    pub worker: (u64, u64),
}

/// Depth at which the choice tree is divided among the workers.
const SPLIT: usize = 6;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn quiet_panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into()))
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        if !QUIET.with(|q| q.get()) {
            old(info)
        }
    }));
}

/// Shared with the supervising process: what is being executed right now.
const SHM: usize = 64 * 1024;
static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn attach_current(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(SHM as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    CURRENT.store(p as *mut u8, Ordering::SeqCst);
}

fn publish(section: &str, choices: &[usize]) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let p = CURRENT.load(Ordering::Relaxed);
    if p.is_null() {
        return;
    }
    let mut s = String::with_capacity(section.len() + choices.len() * 3 + 1);
    s.push_str(section);
    s.push('\n');
    for c in choices {
        s.push_str(&c.to_string());
        s.push(' ');
    }
    let n = s.len().min(SHM - 1);
    unsafe {
        std::ptr::copy_nonoverlapping(s.as_ptr(), p, n);
        *p.add(n) = 0;
    }
}

fn read_current() -> (String, Vec<usize>) {
    let p = CURRENT.load(Ordering::Relaxed);
    if p.is_null() {
        return ("?".into(), vec![]);
    }
    let bytes: Vec<u8> = (0..SHM).map(|i| unsafe { *p.add(i) }).take_while(|b| *b != 0).collect();
    parse_current(&bytes)
}

pub fn parse_current(bytes: &[u8]) -> (String, Vec<usize>) {
    let end = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
    let s = String::from_utf8_lossy(&bytes[..end]).to_string();
    let mut it = s.splitn(2, '\n');
    let name = it.next().unwrap_or("?").to_string();
    let ch = it.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    (name, ch)
}

/// An execution that makes no progress for this long is reported as one that
/// does not end.
const STALL_S: u64 = 120;

pub fn start_watchdog(prop: String, tier: Tier, seed: u64) {
    std::thread::spawn(move || {
        let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if b > 0 && last.1.elapsed().as_secs() > STALL_S {
                let (s, c) = read_current();
                let path = write_replay(&prop, &s, &c, &Violation { key: "stall".into(), msg: format!("an execution did not end within {STALL_S} s") });
                write_minimal_evidence(&prop, tier, seed, last.1.elapsed().as_secs_f64());
                println!("VIOLATION property={prop} replay={path}");
                println!("  section {s}, choices {c:?}: no end within {STALL_S} s");
                std::process::exit(1);
            }
        }
    });
}

/// Long work outside an execution (set-up).
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

pub fn verif_dir() -> String {
    std::env::var("VP_VERIF").unwrap_or("/verif".into())
}

pub fn write_replay(prop: &str, section: &str, choices: &[usize], v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.json", hash_of(&(section, choices, &v.key)));
    let _ = std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({
            "property": prop, "section": section, "choices": choices, "key": v.key, "what": v.msg,
            "replay_with": format!("bash /verif/mc/run.sh {prop} --replay {path}"),
        }))
        .unwrap(),
    );
    path
}

pub fn write_minimal_evidence(prop: &str, tier: Tier, seed: u64, wall: f64) {
    let info = crate::props::info(prop);
    let cov = if info.level == "model_checking" {
        json!({"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": ["the run ended in a violation before it was complete"]})
    } else {
        json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": info.rule, "samples": ["the run ended in a violation before it was complete"]})
    };
    let ev = json!({"property": prop, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed,
        "level": info.level, "coverage": cov, "wall_s": wall, "violations": 1});
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{prop}.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap());
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }

    /// Executes `body` for every sequence of choices it can make.
    pub fn explore(&mut self, name: &str, bound: &str, body: impl Fn(&Chooser) -> Outcome) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let mut sec = Section { name: name.into(), bound: bound.into(), ..Default::default() };
        let replay = match &self.replay {
            Some((s, c)) if s == name => Some(c.clone()),
            Some(_) => return,
            None => None,
        };
        let mut prefix: Vec<usize> = replay.clone().unwrap_or_default();
        let mut keys_seen: HashSet<String> = HashSet::new();
        let mut failures = 0;
        loop {
            let share = (replay.is_none() && self.worker.1 > 1).then_some(self.worker);
            let (ch, res) = self.execute(name, prefix.clone(), share, &body);
            let taken = ch.trail.borrow().taken.clone();
            let foreign = ch.foreign.get();
            if ch.trail.borrow().diverged || (taken.len() < prefix.len() && !foreign) {
                engine_error(&format!("{}/{name}: execution diverged while replaying {prefix:?}", self.prop));
            }
            let choices: Vec<usize> = taken.iter().map(|t| t.1).collect();
            if foreign {
                // another worker's subtree: on to the next one
                match next_prefix(taken[..ch.head.get().unwrap()].to_vec()) {
                    None => {
                        sec.complete = true;
                        break;
                    }
                    Some(p) => prefix = p,
                }
                continue;
            }
            sec.executions += 1;
            sec.choice_points += taken.len() as u64;
            sec.steps += ch.steps.get();
            sec.max_depth = sec.max_depth.max(taken.len());
            sec.states.extend(ch.states.borrow().iter());
            sec.observations.insert(ch.obs.get());
            if ch.nontrivial.get() {
                sec.nontrivial += 1;
            }
            let n = sec.executions;
            if n % 5_000 == 0 && std::env::var("VP_VERBOSE").is_ok() {
                eprintln!("  [{:7.2}s] {name}: {n} so far, states={}, at {prefix:?}", self.started.elapsed().as_secs_f64(), sec.states.len());
            }
            // own every source of nondeterminism: the same choices again
            if n == 1 || n == 17 || n % 5003 == 0 {
                let (c2, r2) = self.execute(name, choices.clone(), None, &body);
                sec.reruns += 1;
                if c2.obs.get() != ch.obs.get() || r2.is_ok() != res.is_ok() || c2.trail.borrow().taken != taken {
                    if std::env::var("VP_DEBUG").is_ok() {
                        eprintln!("{:#?}\n{:#?}\n{res:?} {r2:?}", ch.notes(), c2.notes());
                    }
                    engine_error(&format!("{}/{name}: same choices {choices:?}, different observations", self.prop));
                }
            }
            if (n.is_power_of_two() && sec.samples.len() < 12) || replay.is_some() {
                let notes = ch.notes();
                if !notes.is_empty() {
                    let mut s = notes.join("; ");
                    if s.len() > 600 {
                        let mut k = 600;
                        while !s.is_char_boundary(k) { k -= 1 }
                        s.truncate(k);
                    }
                    sec.samples.push(s);
                }
            }
            if replay.is_some() {
                for l in ch.notes() {
                    println!("  {l}");
                }
            }
            if let Err(v) = res {
                if let Some(k) = self.known.iter().find(|k| k.key == v.key) {
                    *self.known_hit.entry(k.key.clone()).or_default() += 1;
                } else {
                    if keys_seen.insert(v.key.clone()) {
                        self.violations.push((name.to_string(), choices.clone(), v));
                    }
                    failures += 1;
                }
            }
            if replay.is_some() {
                break;
            }
            if failures >= std::env::var("VP_MAX").ok().and_then(|m| m.parse().ok()).unwrap_or(3) {
                break;
            }
            match next_prefix(taken) {
                None => {
                    sec.complete = true;
                    break;
                }
                Some(p) => prefix = p,
            }
        }
        if std::env::var("VP_VERBOSE").is_ok() {
            eprintln!(
                "  [{:7.2}s] {name}: executions={} steps={} states={} outcomes={} nontrivial={} depth={}",
                self.started.elapsed().as_secs_f64(), sec.executions, sec.steps, sec.states.len(), sec.observations.len(), sec.nontrivial, sec.max_depth
            );
        }
        self.sections.push(sec);
    }

    fn execute(&self, name: &str, prefix: Vec<usize>, share: Option<(u64, u64)>, body: &impl Fn(&Chooser) -> Outcome) -> (Chooser, Outcome) {
        publish(name, &prefix);
        let ch = Chooser::new(prefix, share);
        let run = || {
            let r = body(&ch);
            ch.go();
            r
        };
        let res = match quiet_panics(run) {
            Ok(r) => r,
            Err(_) if ch.foreign.get() => Ok(()),
            Err(p) => fail(format!("panic:{}", ch.notes().join("; ")), p),
        };
        (ch, res)
    }
}

fn next_prefix(mut t: Vec<(usize, usize)>) -> Option<Vec<usize>> {
    while let Some((n, c)) = t.last().copied() {
        if c + 1 < n {
            break;
        }
        t.pop();
    }
    t.last_mut()?.1 += 1;
    Some(t.into_iter().map(|x| x.1).collect())
}

/// What one worker found, as text for the supervising process.
#[derive(serde::Serialize, serde::Deserialize, Default)]
pub struct Report {
    pub sections: Vec<Section>,
    pub violations: Vec<(String, Vec<usize>, String, String)>,
    pub known_hit: BTreeMap<String, u64>,
}

impl Report {
    pub fn merge(&mut self, o: Report) {
        for s in o.sections {
            match self.sections.iter_mut().find(|x| x.name == s.name) {
                None => self.sections.push(s),
                Some(m) => {
                    m.executions += s.executions;
                    m.choice_points += s.choice_points;
                    m.steps += s.steps;
                    m.states.extend(s.states);
                    m.observations.extend(s.observations);
                    m.nontrivial += s.nontrivial;
                    m.max_depth = m.max_depth.max(s.max_depth);
                    m.complete &= s.complete;
                    m.reruns += s.reruns;
                    m.samples.extend(s.samples);
                }
            }
        }
        self.violations.extend(o.violations);
        for (k, n) in o.known_hit {
            *self.known_hit.entry(k).or_default() += n;
        }
    }
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE ERROR: {msg}");
    std::process::exit(3);
}
