//! What decides the order of things: an environment (timers, completions of
//! calls to the outside), an event-level world for tasks on one thread, and a
//! scheduler for real threads that pre-empts at the hooked operations.
use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use crate::engine::Chooser;

// ---------------------------------------------------------------- clock
static VIRTUAL_NS: AtomicI64 = AtomicI64::new(-1);

/// From here on every clock of the process shows this time.
pub fn set_clock_ms(ms: Option<u64>) {
    VIRTUAL_NS.store(ms.map(|m| m as i64 * 1_000_000).unwrap_or(-1), Ordering::SeqCst);
}

/// Interposes libc's: std's Instant and SystemTime end up here.
/// # Safety
/// as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = VIRTUAL_NS.load(Ordering::SeqCst);
    if v >= 0 {
        // far from zero, so that subtracting a duration is fine
        (*ts).tv_sec = 1_700_000_000 + v / 1_000_000_000;
        (*ts).tv_nsec = v % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

// ---------------------------------------------------------------- environment
#[derive(Default)]
struct EnvInner {
    now: u64,
    timers: Vec<(u64, bool, Option<Waker>)>,
    gates: Vec<(String, Option<usize>, Option<Waker>)>,
}

#[derive(Default)]
pub struct Env(Mutex<EnvInner>);

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Timer(usize),
    Gate(usize, String),
}

static ENV: Mutex<Option<Arc<Env>>> = Mutex::new(None);

impl Env {
    /// A fresh environment becomes the current one.
    pub fn fresh() -> Arc<Env> {
        install();
        let e = Arc::new(Env::default());
        *ENV.lock().unwrap() = Some(e.clone());
        e
    }
    fn cur() -> Arc<Env> {
        ENV.lock().unwrap().clone().expect("no environment")
    }
    /// What may happen next outside the code under test. Timers go off in the
    /// order of their deadlines.
    pub fn pending(&self) -> Vec<Ev> {
        let e = self.0.lock().unwrap();
        let mut out: Vec<Ev> = vec![];
        for (i, g) in e.gates.iter().enumerate() {
            if g.1.is_none() {
                out.push(Ev::Gate(i, g.0.clone()));
            }
        }
        if let Some((i, _)) = e.timers.iter().enumerate().filter(|(_, t)| !t.1).min_by_key(|(i, t)| (t.0, *i)) {
            out.push(Ev::Timer(i));
        }
        out
    }
    pub fn fire(&self, ev: &Ev, outcome: usize) {
        let w = {
            let mut e = self.0.lock().unwrap();
            match ev {
                Ev::Timer(i) => {
                    e.now = e.now.max(e.timers[*i].0);
                    e.timers[*i].1 = true;
                    e.timers[*i].2.take()
                }
                Ev::Gate(i, _) => {
                    e.gates[*i].1 = Some(outcome);
                    e.gates[*i].2.take()
                }
            }
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// When the timers that have not fired yet are due.
    pub fn deadlines(&self) -> Vec<u64> {
        self.0.lock().unwrap().timers.iter().filter(|t| !t.1).map(|t| t.0).collect()
    }
}

struct TimerFut(Arc<Env>, usize);
impl Future for TimerFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut e = self.0 .0.lock().unwrap();
        if e.timers[self.1].1 {
            Poll::Ready(())
        } else {
            e.timers[self.1].2 = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for TimerFut {
    fn drop(&mut self) {
        if let Ok(mut e) = self.0 .0.lock() {
            e.timers[self.1].1 = true;
        }
    }
}

pub struct GateFut(Arc<Env>, usize);
impl Future for GateFut {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        let mut e = self.0 .0.lock().unwrap();
        if let Some(o) = e.gates[self.1].1 {
            Poll::Ready(o)
        } else {
            e.gates[self.1].2 = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for GateFut {
    fn drop(&mut self) {
        if let Ok(mut e) = self.0 .0.lock() {
            if e.gates[self.1].1.is_none() {
                e.gates[self.1].1 = Some(usize::MAX);
            }
        }
    }
}

/// A call to the outside, answered when the explorer says so, with the outcome
/// it chooses.
pub fn gate(label: String) -> GateFut {
    let env = Env::cur();
    let i = {
        let mut e = env.0.lock().unwrap();
        e.gates.push((label, None, None));
        e.gates.len() - 1
    };
    release(ENV_ADDR);
    GateFut(env, i)
}

// ---------------------------------------------------------------- hooks
struct Hook;
impl tailcall::core::vp_hooks::Scheduler for Hook {
    fn point(&self, _what: &'static str) {
        point()
    }
    fn blocked(&self, addr: usize) {
        block(addr)
    }
    fn released(&self, addr: usize) {
        release(addr)
    }
    fn delay(&self, d: Duration) -> Pin<Box<dyn Future<Output = ()> + Send>> {
        let env = Env::cur();
        let i = {
            let mut e = env.0.lock().unwrap();
            let at = e.now + d.as_millis() as u64;
            e.timers.push((at, false, None));
            e.timers.len() - 1
        };
        release(ENV_ADDR);
        Box::pin(TimerFut(env, i))
    }
}

pub fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| tailcall::core::vp_hooks::install(Box::new(Hook)));
}

// ---------------------------------------------------------------- event-level world
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct World<R> {
    pub rt: tokio::runtime::Runtime,
    pub env: Arc<Env>,
    clients: Vec<(Option<Pin<Box<dyn Future<Output = R>>>>, Arc<Flag>)>,
}

impl<R> World<R> {
    pub fn new() -> Self {
        World { rt: tokio::runtime::Builder::new_current_thread().build().unwrap(), env: Env::fresh(), clients: vec![] }
    }
    pub fn add(&mut self, f: impl Future<Output = R> + 'static) -> usize {
        self.clients.push((Some(Box::pin(f)), Arc::new(Flag(AtomicBool::new(true)))));
        self.clients.len() - 1
    }
    pub fn len(&self) -> usize {
        self.clients.len()
    }
    /// Clients that have been woken and are not finished.
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.clients.len()).filter(|i| self.clients[*i].0.is_some() && self.clients[*i].1 .0.load(Ordering::SeqCst)).collect()
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.clients.len()).filter(|i| self.clients[*i].0.is_some()).collect()
    }
    pub fn poll(&mut self, i: usize) -> Option<R> {
        let flag = self.clients[i].1.clone();
        flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(flag);
        let mut cx = Context::from_waker(&w);
        let r = {
            let _g = self.rt.enter();
            self.clients[i].0.as_mut().unwrap().as_mut().poll(&mut cx)
        };
        match r {
            Poll::Ready(r) => {
                self.clients[i].0 = None;
                self.tick();
                Some(r)
            }
            Poll::Pending => {
                self.tick();
                None
            }
        }
    }
    pub fn cancel(&mut self, i: usize) {
        let _g = self.rt.enter();
        self.clients[i].0 = None;
    }
    /// Lets spawned tasks run until they wait for something.
    pub fn tick(&mut self) {
        for _ in 0..2 {
            if self.rt.metrics().num_alive_tasks() == 0 {
                break;
            }
            self.rt.block_on(tokio::task::yield_now());
        }
    }
    pub fn fire(&mut self, ev: &Ev, outcome: usize) {
        self.env.fire(ev, outcome);
        self.tick();
    }
}

// ---------------------------------------------------------------- threads
#[derive(Clone, Copy, PartialEq, Debug)]
enum TS {
    Ready,
    Blocked(usize),
    Done,
}

const ENV_ADDR: usize = 1;
const EXEC_ADDR: usize = 2;

struct Run {
    threads: Vec<TS>,
    current: usize,
    clients: usize,
    chooser: *const Chooser,
    preempt_left: usize,
    abort: bool,
    deadlock: bool,
    switches: u64,
    /// tasks the executor left behind; more than that means one was spawned
    left: usize,
    metrics: tokio::runtime::RuntimeMetrics,
}
unsafe impl Send for Run {}

static RUN: Mutex<Option<Run>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct Abort;

fn wait_turn(mut g: std::sync::MutexGuard<'_, Option<Run>>, me: usize) {
    loop {
        match g.as_ref() {
            None => return,
            Some(r) if r.abort => {
                drop(g);
                if !std::thread::panicking() {
                    std::panic::resume_unwind(Box::new(Abort));
                }
                return;
            }
            Some(r) if r.current == me => return,
            _ => g = CV.wait(g).unwrap_or_else(|e| e.into_inner()),
        }
    }
}

fn choose(r: &mut Run, n: usize) -> usize {
    let ch = unsafe { &*r.chooser };
    let c = ch.choose(n);
    if ch.is_foreign() {
        r.abort = true;
        CV.notify_all();
    }
    c
}

fn point() {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || std::thread::panicking() {
        return;
    }
    let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut() else { return };
    if r.abort {
        return wait_turn(g, me);
    }
    wake_services(r);
    if r.preempt_left == 0 {
        return;
    }
    let others: Vec<usize> = (0..r.threads.len()).filter(|t| *t != me && r.threads[*t] == TS::Ready).collect();
    if others.is_empty() {
        return;
    }
    let c = choose(r, others.len() + 1);
    if c > 0 {
        r.preempt_left -= 1;
        r.switches += 1;
        r.current = others[c - 1];
        CV.notify_all();
        wait_turn(g, me);
    }
}

fn wake_services(r: &mut Run) {
    if r.metrics.num_alive_tasks() <= r.left {
        return;
    }
    for t in r.clients..r.threads.len() {
        if r.threads[t] == TS::Blocked(EXEC_ADDR) {
            r.threads[t] = TS::Ready;
        }
    }
}

/// Round robin, and any other ready thread at the cost of one deviation.
fn next_of(r: &mut Run, ready: &[usize]) -> usize {
    let me = r.current;
    let mut order: Vec<usize> = ready.iter().copied().filter(|t| *t > me).collect();
    order.extend(ready.iter().copied().filter(|t| *t <= me));
    if order.len() == 1 || r.preempt_left == 0 {
        return order[0];
    }
    let c = choose(r, order.len());
    if c > 0 {
        r.preempt_left -= 1;
    }
    order[c]
}

/// Gives the turn to another thread; the caller has recorded its own state.
fn yield_to_other(r: &mut Run) {
    let ready: Vec<usize> = (0..r.threads.len()).filter(|t| r.threads[*t] == TS::Ready).collect();
    if ready.is_empty() {
        if r.threads[..r.clients].iter().any(|t| *t != TS::Done) {
            r.deadlock = true;
        }
        r.abort = true;
    } else {
        r.switches += 1;
        r.current = next_of(r, &ready);
    }
    CV.notify_all();
}

fn block(addr: usize) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        std::thread::yield_now();
        return;
    }
    let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut() else { return };
    if r.abort {
        return wait_turn(g, me);
    }
    if me < r.clients {
        wake_services(r);
    }
    r.threads[me] = TS::Blocked(addr);
    yield_to_other(r);
    wait_turn(g, me);
}

fn release(addr: usize) {
    let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(r) = g.as_mut() {
        for t in r.threads.iter_mut() {
            if *t == TS::Blocked(addr) {
                *t = TS::Ready;
            }
        }
    }
}

fn clients_done() -> bool {
    let g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    g.as_ref().map(|r| r.threads[..r.clients].iter().all(|t| *t == TS::Done)).unwrap_or(true)
}

struct ThreadWaker {
    addr: usize,
    woken: AtomicBool,
}
impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        release(self.addr);
    }
}

/// Runs a future on the current (controlled) thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    static NEXT: AtomicUsize = AtomicUsize::new(1000);
    let w = Arc::new(ThreadWaker { addr: NEXT.fetch_add(1, Ordering::Relaxed) % 100_000 + 1000, woken: AtomicBool::new(false) });
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        w.woken.store(false, Ordering::SeqCst);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        while !w.woken.load(Ordering::SeqCst) {
            if TID.with(|t| t.get()) == usize::MAX {
                panic!("a future that nothing will wake");
            }
            block(w.addr);
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Finished,
    Deadlock,
    Panicked(String),
}

/// Runs the bodies as controlled threads until each is finished, with at most
/// `preemptions` deviations from the default schedule (a thread runs until it
/// waits, then the next one in turn that can run). Spawned
/// tokio tasks are run by one more thread, timers and calls to the outside are
/// answered by another (with outcome `answer(label)`).
pub fn threads<'a>(
    ch: &Chooser,
    preemptions: usize,
    bodies: Vec<Box<dyn FnOnce() + Send + 'a>>,
    answer: &(dyn Fn(&str) -> usize + Sync),
    services: bool,
) -> End {
    install();
    ch.threads_start();
    let env = Env::fresh();
    let n = bodies.len();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let total = if services { n + 2 } else { n };
    *RUN.lock().unwrap_or_else(|e| e.into_inner()) = Some(Run {
        threads: vec![TS::Ready; total],
        current: usize::MAX,
        clients: n,
        chooser: ch,
        preempt_left: preemptions,
        abort: false,
        deadlock: false,
        switches: 0,
        left: 0,
        metrics: rt.metrics(),
    });
    let panicked: Mutex<Option<String>> = Mutex::new(None);
    let start = |me: usize, f: &mut dyn FnMut()| {
        TID.with(|t| t.set(me));
        let r = crate::engine::quiet_panics(|| {
            match catch_unwind(AssertUnwindSafe(|| {
                wait_turn(RUN.lock().unwrap_or_else(|e| e.into_inner()), me);
                f()
            })) {
                Err(p) if p.is::<Abort>() => {}
                Err(p) => std::panic::resume_unwind(p),
                Ok(()) => {}
            }
        });
        TID.with(|t| t.set(usize::MAX));
        let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
        let r1 = g.as_mut().unwrap();
        r1.threads[me] = TS::Done;
        if let Err(p) = r {
            *panicked.lock().unwrap() = Some(p);
            r1.abort = true;
        }
        if !r1.abort {
            for t in r1.threads.iter_mut() {
                if matches!(t, TS::Blocked(ENV_ADDR) | TS::Blocked(EXEC_ADDR)) {
                    *t = TS::Ready;
                }
            }
            if r1.threads.iter().any(|t| *t != TS::Done) {
                yield_to_other(r1);
            }
        }
        CV.notify_all();
    };
    std::thread::scope(|s| {
        for (i, b) in bodies.into_iter().enumerate() {
            let (start, rt) = (&start, &rt);
            s.spawn(move || {
                let _g = rt.enter();
                let mut b = Some(b);
                start(i, &mut || (b.take().unwrap())())
            });
        }
        if services {
            let (start, rt, env) = (&start, &rt, &env);
            s.spawn(move || {
                start(n, &mut || loop {
                    if clients_done() {
                        break;
                    }
                    if rt.metrics().num_alive_tasks() > 0 {
                        rt.block_on(tokio::task::yield_now());
                    }
                    if let Some(r) = RUN.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
                        r.left = r.metrics.num_alive_tasks();
                    }
                    if clients_done() {
                        break;
                    }
                    block(EXEC_ADDR);
                })
            });
            s.spawn(move || {
                start(n + 1, &mut || loop {
                    if clients_done() {
                        break;
                    }
                    let evs = env.pending();
                    if evs.is_empty() {
                        block(ENV_ADDR);
                    } else {
                        let k = choose_here(evs.len());
                        let o = match &evs[k] {
                            Ev::Timer(_) => 0,
                            Ev::Gate(_, l) => answer(l),
                        };
                        env.fire(&evs[k], o);
                        release(EXEC_ADDR);
                        yield_now();
                    }
                })
            });
        }
        // the first turn
        let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
        g.as_mut().unwrap().current = 0;
        drop(g);
        CV.notify_all();
    });
    let r = RUN.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    let p = panicked.into_inner().unwrap();
    for _ in 0..r.switches {
        ch.step();
    }
    ch.threads_end();
    match p {
        Some(p) => End::Panicked(p),
        None if r.deadlock => End::Deadlock,
        None => End::Finished,
    }
}

/// A choice made by the thread whose turn it is.
fn choose_here(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    match g.as_mut() {
        Some(r) if !r.abort && r.preempt_left > 0 => {
            let c = choose(r, n);
            if c > 0 {
                r.preempt_left -= 1;
            }
            c
        }
        _ => 0,
    }
}

/// Lets the others go on, at no cost, if one of them can.
fn yield_now() {
    let me = TID.with(|t| t.get());
    let mut g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut() else { return };
    if r.abort {
        return wait_turn(g, me);
    }
    let others: Vec<usize> = (0..r.threads.len()).filter(|t| *t != me && r.threads[*t] == TS::Ready).collect();
    if others.is_empty() {
        return;
    }
    r.current = next_of(r, &others);
    CV.notify_all();
    wait_turn(g, me);
}

/// A point at which the harness itself allows a switch.
pub fn harness_point() {
    point()
}

/// Runs a future that depends on nothing the explorer decides.
pub fn run<F: Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}
