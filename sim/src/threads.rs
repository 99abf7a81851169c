//! World B: OS threads that run the real code one at a time. Which one runs is decided by the
//! plan's scheduler at every scheduling point (each operation on a channel or on a lock of the
//! shared tables, every futex and every park), so that a seed is one exact interleaving.

use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use futures::stream::FuturesUnordered;
use futures::{FutureExt, Stream, StreamExt};
use haproxy_spoa::runtime::{Acker, Dispatcher, Processor};
use haproxy_spop::{Action, AgentAck, AsyncHandler, Error as Status, Frame, HaproxyNotify, Message, Reassembly, Scope, Typed};
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::oneshot;

use crate::conv::{self, scope_to};
use crate::alloc;
use crate::ctx;
use crate::env;
use crate::plan::{AckHow, BKind, BPlan, Consumer, DOp, Dispatch, Mode, ReasmPlan};
use crate::rng::{mix, Rng};
use crate::spop::{Act, Val};

// ---------------------------------------------------------------- the scheduler

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Run,
    Futex(usize),
    Lock(usize),
    /// Waits to be woken as a task.
    Park,
    /// Waits for some condition of the workload.
    Cond,
    Done,
}

struct State {
    threads: Vec<St>,
    names: Vec<String>,
    prio: Vec<u64>,
    current: usize,
    rng: Rng,
    mode: Mode,
    preempt: u32,
    changes: Vec<u64>,
    steps: u64,
    cap: u64,
    dead: bool,
    hash: u64,
    switches: u64,
    allocs: bool,
    trace: Option<Vec<String>>,
    log: Log,
}

/// What the threads report.
#[derive(Default)]
pub struct Log {
    pub panics: Vec<String>,
    pub viols: Vec<(&'static str, String)>,
    calls: Vec<CallRec>,
    entries: Vec<EntryRec>,
    acks: Vec<(usize, Option<AgentAck>)>,
    pub probes: BTreeMap<&'static str, u64>,
    turns: HashMap<(u64, u64), u32>,
    /// When the processing side was about to go, and when it was gone.
    drop_begin: Option<u64>,
    dropped: Option<u64>,
    ended: bool,
    reasm: Vec<ReasmRec>,
    pub conns: BTreeMap<usize, crate::conns::ConnLog>,
}

struct CallRec {
    op: DOp,
    start: u64,
    end: u64,
    /// None: an error. Some(true): with a receiver for the acknowledgement.
    out: Option<bool>,
}

#[derive(Debug)]
struct EntryRec {
    how: AckHow,
    msgs: Vec<u64>,
    stream_ended: bool,
    /// Results of completing, in order.
    results: Vec<bool>,
}

type Outcome = Result<Option<Vec<u64>>, Status>;

struct ReasmRec {
    op: DOp,
    start: u64,
    end: u64,
    out: Outcome,
}

/// A mutex and a condition variable that are not subject to the simulation.
struct Sched {
    m: UnsafeCell<libc::pthread_mutex_t>,
    c: UnsafeCell<libc::pthread_cond_t>,
    s: UnsafeCell<State>,
}
unsafe impl Send for Sched {}
unsafe impl Sync for Sched {}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// Every allocation of the code under test is a scheduling point.
    static ALLOCS: Cell<bool> = const { Cell::new(false) };
    /// Inside the scheduler: its own operations are no scheduling points.
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// The state of the scheduler, locked; and whether the thread was busy with it before.
struct Held<'a>(&'a Sched, bool);
impl Drop for Held<'_> {
    fn drop(&mut self) {
        unsafe { libc::pthread_mutex_unlock(self.0.m.get()) };
        BUSY.with(|b| b.set(self.1));
    }
}
impl std::ops::Deref for Held<'_> {
    type Target = State;
    fn deref(&self) -> &State {
        unsafe { &*self.0.s.get() }
    }
}
impl std::ops::DerefMut for Held<'_> {
    fn deref_mut(&mut self) -> &mut State {
        unsafe { &mut *self.0.s.get() }
    }
}

impl Sched {
    fn lock(&self) -> Held<'_> {
        let busy = BUSY.with(|b| b.replace(true));
        unsafe { libc::pthread_mutex_lock(self.m.get()) };
        Held(self, busy)
    }
    fn wait<'a>(&'a self, h: Held<'a>) -> Held<'a> {
        unsafe { libc::pthread_cond_wait(self.c.get(), self.m.get()) };
        h
    }
    fn notify(&self) {
        unsafe { libc::pthread_cond_broadcast(self.c.get()) };
    }

    /// The running thread gives up control, in the given state, until it is chosen again.
    fn switch(&self, me: usize, st: St, what: &str) {
        let mut s = self.lock();
        debug_assert_eq!(s.current, me);
        s.threads[me] = st;
        s.steps += 1;
        if s.steps > s.cap {
            env::fatal("livelock");
        }
        let stay = st == St::Run;
        let next = s.next(me, stay);
        let line = s.trace.is_some().then(|| format!("{:>6}  {} {what}", s.steps, s.names[me]));
        if let (Some(tr), Some(line)) = (s.trace.as_mut(), line) {
            if tr.len() < 4000 {
                tr.push(line);
            }
        }
        match next {
            Some(n) => {
                if n != me {
                    s.switches += 1;
                }
                s.current = n;
                s.hash = what.bytes().fold(mix(s.hash ^ n as u64), |h, b| mix(h ^ b as u64));
            }
            None => {
                if s.threads.iter().any(|t| *t != St::Done) {
                    s.dead = true;
                }
                s.current = usize::MAX;
            }
        }
        if s.current == me {
            return;
        }
        self.notify();
        if st == St::Done {
            return;
        }
        while s.current != me {
            s = self.wait(s);
        }
    }
}

impl State {
    fn next(&mut self, me: usize, stay: bool) -> Option<usize> {
        let ready: Vec<usize> = (0..self.threads.len()).filter(|&t| self.threads[t] == St::Run).collect();
        if ready.is_empty() {
            return None;
        }
        match self.mode {
            // random walk
            Mode::Random => {
                if stay && !self.rng.pct(self.preempt) {
                    return Some(me);
                }
                Some(*self.rng.pick(&ready))
            }
            // round robin
            Mode::Fifo => Some(ready.iter().copied().find(|&t| t > me).unwrap_or(ready[0])),
            // priorities that change at a few random points
            Mode::Lifo => {
                if self.changes.contains(&self.steps) {
                    self.prio[me] = self.rng.below(1000);
                }
                ready.into_iter().max_by_key(|&t| self.prio[t])
            }
        }
    }
    fn ready(&mut self, f: impl Fn(St) -> bool) -> usize {
        let mut n = 0;
        for t in &mut self.threads {
            if f(*t) {
                *t = St::Run;
                n += 1;
            }
        }
        n
    }
}

fn me() -> Option<(Arc<Sched>, usize)> {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return None;
    }
    ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten()
}

fn switch(st: St, what: &str) {
    if let Some((s, i)) = me() {
        s.switch(i, st, what);
    }
}

fn point(what: &'static str) {
    if let Some((s, i)) = me() {
        if what == "map-unlock" {
            s.lock().ready(|t| matches!(t, St::Lock(_)));
        }
        s.switch(i, St::Run, what);
    }
}

/// Runs a piece of the code under test.
pub fn code<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            alloc::set_point(None);
        }
    }
    if !ALLOCS.with(|a| a.get()) {
        return f();
    }
    let _off = Off;
    alloc::set_point(Some(|| point("alloc")));
    f()
}

fn contended(addr: usize) {
    switch(St::Lock(addr), "lock-wait");
}

fn futex(wait: bool, addr: usize, val: u32) -> isize {
    let Some((s, i)) = me() else { return 0 };
    if wait {
        s.switch(i, St::Futex(addr), "futex-wait");
        0
    } else {
        let mut h = s.lock();
        let mut n = 0;
        for t in 0..h.threads.len() {
            if h.threads[t] == St::Futex(addr) && n < val as isize {
                h.threads[t] = St::Run;
                n += 1;
            }
        }
        drop(h);
        s.switch(i, St::Run, "futex-wake");
        n
    }
}

pub fn panicked(m: String) {
    let _ = ME.try_with(|me| {
        if let Ok(me) = me.try_borrow() {
            if let Some((s, _)) = me.as_ref() {
                s.lock().log.panics.push(m);
            }
        }
    });
}

/// Reports to the run's log; returns the number of the current step.
pub fn report<R>(f: impl FnOnce(&mut Log, u64) -> R) -> R {
    let (s, _) = me().expect("HARNESS: not a simulated thread");
    BUSY.with(|b| b.set(true));
    let mut h = s.lock();
    h.steps += 1;
    let step = h.steps;
    let r = f(&mut h.log, step);
    h.ready(|t| t == St::Cond);
    drop(h);
    BUSY.with(|b| b.set(false));
    r
}

fn note(what: String) {
    let (s, i) = me().expect("HARNESS: not a simulated thread");
    let mut h = s.lock();
    let line = format!("{:>6}  {} -- {what}", h.steps, h.names[i]);
    if let Some(tr) = h.trace.as_mut() {
        tr.push(line);
    }
}

/// Waits until the condition on the log holds.
fn wait_until(f: impl Fn(&Log) -> bool) {
    loop {
        let (s, i) = me().expect("HARNESS: not a simulated thread");
        if f(&s.lock().log) {
            return;
        }
        s.switch(i, St::Cond, "await-turn");
    }
}

fn spawn(name: String, f: impl FnOnce() + Send + 'static) {
    let (s, _) = me().expect("HARNESS: not a simulated thread");
    start(&s, name, f);
}

fn start(s: &Arc<Sched>, name: String, f: impl FnOnce() + Send + 'static) {
    let idx = {
        let mut h = s.lock();
        h.threads.push(St::Run);
        h.names.push(name);
        let p = h.rng.below(1000);
        h.prio.push(p);
        h.threads.len() - 1
    };
    let s = s.clone();
    let log = crate::logging::is_on();
    std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), idx)));
            {
                let mut h = s.lock();
                while h.current != idx {
                    h = s.wait(h);
                }
            }
            env::set_random(Some(Rng::stream(idx as u64, "thread", 0)));
            env::set_futex(Some(futex));
            simhook::clock_on(true);
            simhook::set_point(Some(point));
            simhook::set_contended(Some(contended));
            ALLOCS.with(|a| a.set(s.lock().allocs));
            crate::exec::in_run(true);
            crate::logging::on(log);
            let _ = catch_unwind(AssertUnwindSafe(f));
            crate::exec::in_run(false);
            crate::logging::on(false);
            simhook::set_point(None);
            simhook::set_contended(None);
            env::set_futex(None);
            env::set_random(None);
            ME.with(|m| *m.borrow_mut() = None);
            s.lock().ready(|t| t == St::Cond);
            s.switch(idx, St::Done, "end");
        })
        .expect("HARNESS: thread");
}

// ---------------------------------------------------------------- tasks

struct Flag {
    sched: Arc<Sched>,
    thread: usize,
    set: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.set.store(true, Ordering::SeqCst);
        {
            let mut h = self.sched.lock();
            if h.threads[self.thread] == St::Park {
                h.threads[self.thread] = St::Run;
            }
        }
        point("wake");
    }
}

/// Runs a future on this thread. A task that is not woken is never polled again.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let (s, i) = me().expect("HARNESS: not a simulated thread");
    let mut f = pin!(f);
    loop {
        // a new waker every time: the last one given is the one that counts
        let flag = Arc::new(Flag { sched: s.clone(), thread: i, set: AtomicBool::new(false) });
        let w = Waker::from(flag.clone());
        if let Poll::Ready(v) = code(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
            return v;
        }
        point("pending");
        while !flag.set.load(Ordering::SeqCst) {
            s.switch(i, St::Park, "park");
        }
    }
}

// ---------------------------------------------------------------- one run

/// How much there is to do.
fn size(k: &BKind) -> u64 {
    let ops = |t: &[Vec<DOp>]| t.iter().flatten().map(|o| 2 + o.msgs.len()).sum::<usize>() as u64;
    match k {
        BKind::Dispatch(d) => ops(&d.threads),
        BKind::Reassembly(r) => ops(&r.threads),
        BKind::Conns(_) => 0,
    }
}

pub fn run_threads(p: &BPlan, init: Vec<(String, Box<dyn FnOnce() + Send>)>) -> Log {
    let mut rng = Rng::stream(p.sched.seed, "threads", 0);
    let span = *rng.pick(&[20, 60, 200]);
    let changes = (0..rng.usize(1, 4)).map(|_| rng.below(span)).collect();
    let trace = ctx::with(|c| c.trace.is_some());
    let s = Arc::new(Sched {
        m: UnsafeCell::new(libc::PTHREAD_MUTEX_INITIALIZER),
        c: UnsafeCell::new(libc::PTHREAD_COND_INITIALIZER),
        s: UnsafeCell::new(State {
            threads: vec![],
            names: vec![],
            prio: vec![],
            current: usize::MAX,
            rng,
            mode: p.sched.mode,
            preempt: p.preempt,
            changes,
            steps: 0,
            cap: 400_000 + 100 * size(&p.kind),
            dead: false,
            hash: 0,
            switches: 0,
            allocs: p.allocs,
            trace: trace.then(Vec::new),
            log: Log::default(),
        }),
    });
    for (name, f) in init {
        start(&s, name, f);
    }
    let mut h = s.lock();
    let n = h.threads.len();
    h.current = if p.sched.mode == Mode::Fifo { 0 } else { h.rng.below(n as u64) as usize };
    s.notify();
    while h.current != usize::MAX {
        h = s.wait(h);
    }
    if h.dead {
        let waiting: Vec<_> = (0..h.threads.len()).filter(|&t| h.threads[t] != St::Done).collect();
        let parked = waiting.iter().any(|&t| h.threads[t] == St::Park);
        let class = if parked { "lost-wakeup" } else { "deadlock" };
        let names: Vec<_> = waiting.iter().map(|&t| h.names[t].clone()).collect();
        h.log.viols.insert(0, (class, format!("everybody waits: {}", names.join(", "))));
    }
    let log = std::mem::take(&mut h.log);
    let (hash, switches, steps) = (h.hash, h.switches, h.steps);
    let tr = h.trace.take();
    drop(h);
    ctx::with(|c| {
        c.hash = mix(c.hash ^ hash);
        c.shape = mix(c.shape ^ hash);
        c.steps += steps;
        c.events += steps;
        *c.faults.entry("preemptions and switches").or_default() += switches;
        for (k, v) in &log.probes {
            *c.probes.entry(k).or_default() += v;
        }
        if let (Some(t), Some(tr)) = (c.trace.as_mut(), tr) {
            t.extend(tr);
        }
    });
    for p in &log.panics {
        if !p.contains("SIM-INJECTED") {
            ctx::panicked(p.clone());
        }
    }
    for (class, d) in &log.viols {
        ctx::viol(class, d.clone());
    }
    log
}

pub fn run(p: &BPlan, _seed: u64) {
    match &p.kind {
        BKind::Dispatch(d) => dispatch(p, d),
        BKind::Reassembly(r) => reassembly(p, r),
        BKind::Conns(c) => crate::conns::run(p, c),
    }
}

// ---------------------------------------------------------------- dispatching

fn message(id: u64) -> Message {
    Message { name: "m".into(), args: vec![("id".into(), Typed::Uint64(id))] }
}
fn id_of(m: &Message) -> u64 {
    match m.args.first() {
        Some((_, Typed::Uint64(n))) => *n,
        _ => u64::MAX,
    }
}

fn dispatch(p: &BPlan, d: &Dispatch) {
    let (tx, rx) = unbounded_channel();
    let main = Dispatcher::new(tx);
    let mut init: Vec<(String, Box<dyn FnOnce() + Send>)> = vec![];
    let mut handles: Vec<Arc<Dispatcher>> = vec![];
    if d.cloned {
        for _ in &d.threads {
            handles.push(Arc::new(main.clone()));
        }
        drop(main);
    } else {
        let main = Arc::new(main);
        for _ in &d.threads {
            handles.push(main.clone());
        }
    }
    for (t, (ops, h)) in d.threads.iter().cloned().zip(handles).enumerate() {
        let (waiters, loose) = (d.waiters, d.loose);
        init.push((format!("dispatcher {t}"), Box::new(move || dispatcher(ops, h, waiters, loose))));
    }
    let processor = Processor(rx);
    let (how, consumer, drop_after, glance) = (d.how.clone(), d.consumer, d.drop_after, d.glance);
    init.push(("consumer".into(), Box::new(move || consume(processor, how, consumer, drop_after, glance))));
    let log = run_threads(p, init);
    if log.viols.is_empty() && log.panics.is_empty() {
        check_dispatch(d, &log);
    }
}

fn dispatcher(ops: Vec<DOp>, d: Arc<Dispatcher>, waiters: bool, loose: bool) {
    let mut pending: Vec<(usize, oneshot::Receiver<AgentAck>)> = vec![];
    for op in ops {
        let key = (op.sid, op.fid);
        let turn = op.turn;
        wait_until(|l| l.turns.get(&key).copied().unwrap_or(0) >= turn);
        let start = report(|_, step| step);
        note(format!("dispatch {op:?}"));
        let notify = HaproxyNotify {
            fragmented: !op.fin,
            stream_id: op.sid,
            frame_id: op.fid,
            messages: op.msgs.iter().copied().map(message).collect(),
        };
        let res = code(|| d.recieve_messages(notify));
        note(format!("dispatched {op:?}: {:?}", res.as_ref().map(|a| a.is_some()).map_err(|e| e.to_string())));
        let fin = op.fin;
        let call = report(|l, end| {
            *l.turns.entry(key).or_default() += 1;
            l.calls.push(CallRec { op, start, end, out: res.as_ref().ok().map(|a| a.is_some()) });
            l.calls.len() - 1
        });
        if let Ok(Some(rx)) = res {
            pending.push((call, rx));
        }
        if waiters && fin {
            for (call, rx) in std::mem::take(&mut pending) {
                await_ack_if_done(call, rx, &mut pending);
            }
        }
    }
    let mut d = Some(d);
    if loose {
        // what was not dispatched to its end ends here
        d = None;
    }
    for (call, rx) in pending {
        await_ack(call, rx);
    }
    drop(d);
}

/// Waits for the acknowledgement of a request all of which was dispatched.
fn await_ack_if_done(call: usize, rx: oneshot::Receiver<AgentAck>, pending: &mut Vec<(usize, oneshot::Receiver<AgentAck>)>) {
    let (s, _) = me().unwrap();
    let complete = {
        let h = s.lock();
        let key = (h.log.calls[call].op.sid, h.log.calls[call].op.fid);
        h.log.calls[call..].iter().filter(|c| (c.op.sid, c.op.fid) == key).any(|c| c.op.fin)
    };
    if complete {
        await_ack(call, rx);
    } else {
        pending.push((call, rx));
    }
}

fn await_ack(call: usize, rx: oneshot::Receiver<AgentAck>) {
    let got = block_on(rx).ok();
    note(format!("acknowledged {got:?}"));
    report(|l, _| l.acks.push((call, got)));
}

/// A stream that changes hands: every item is first asked for by somebody who then goes away.
struct Glance<S>(S, bool);

impl<S: Stream + Unpin> Stream for Glance<S> {
    type Item = S::Item;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        if self.1 {
            let other = self.0.poll_next_unpin(&mut Context::from_waker(Waker::noop()));
            if other.is_ready() {
                return other;
            }
        }
        self.0.poll_next_unpin(cx)
    }
}

/// A handler's panic is contained, as in a task.
async fn handle(n: usize, how: AckHow, acker: Acker, msgs: impl Stream<Item = Message> + Unpin) {
    if AssertUnwindSafe(handle_entry(n, how, acker, msgs)).catch_unwind().await.is_err() {
        note(format!("the handler of entry {n} panicked"));
    }
}

async fn handle_entry(n: usize, how: AckHow, mut acker: Acker, mut msgs: impl Stream<Item = Message> + Unpin) {
    acker.set_var(Scope::Request, "entry", n as u64);
    for a in more_actions(n) {
        match a {
            Act::Set(s, k, v) => acker.set_var(scope_to(s), k, conv::val_to(&v)),
            Act::Unset(s, k) => acker.unset_var(scope_to(s), k),
        }
    }
    let finish = |acker: &mut Acker, abort: bool| {
        acker.unset_var(Scope::Session, format!("e{n}"));
        let ok = if abort { acker.abort() } else { acker.complete() }.is_ok();
        report(|l, _| l.entries[n].results.push(ok));
    };
    let read = |m: Message| {
        note(format!("message {} of entry {n}", id_of(&m)));
        report(|l, _| l.entries[n].msgs.push(id_of(&m)));
    };
    if how == AckHow::Early {
        finish(&mut acker, false);
    }
    if how == AckHow::Deaf {
        drop(msgs);
    } else {
        while let Some(m) = msgs.next().await {
            read(m);
        }
        report(|l, _| l.entries[n].stream_ended = true);
    }
    match how {
        AckHow::Complete | AckHow::Deaf => finish(&mut acker, false),
        AckHow::Abort => finish(&mut acker, true),
        AckHow::CompleteTwice => {
            finish(&mut acker, false);
            acker.set_var(Scope::Request, "late", 1u64);
            finish(&mut acker, true);
        }
        AckHow::Early => {
            acker.set_var(Scope::Request, "late", 1u64);
        }
        AckHow::Drop => {}
        AckHow::Panic => std::panic::resume_unwind(Box::new("the application's")),
    }
    drop(acker);
}

fn consume(processor: Processor, how: Vec<AckHow>, consumer: Consumer, drop_after: Option<usize>, glance: bool) {
    let mut processor = Glance(processor, glance);
    let mut taken = 0;
    let mut tasks = FuturesUnordered::new();
    let limit = drop_after.unwrap_or(usize::MAX);
    while taken < limit {
        let next = if consumer == Consumer::Joint {
            block_on(async {
                loop {
                    if tasks.is_empty() {
                        break processor.next().await;
                    }
                    tokio::select! {
                        biased;
                        e = processor.next() => break e,
                        _ = tasks.next() => {}
                    }
                }
            })
        } else {
            block_on(processor.next())
        };
        let Some((acker, msgs)) = next else { break };
        let msgs = Glance(msgs, glance);
        let h = how[taken % how.len()].clone();
        let n = taken;
        note(format!("took entry {n}, to be treated as {h:?}"));
        report(|l, _| l.entries.push(EntryRec { how: h.clone(), msgs: vec![], stream_ended: false, results: vec![] }));
        taken += 1;
        match consumer {
            Consumer::Inline => block_on(handle(n, h, acker, msgs)),
            Consumer::Spawn => spawn(format!("handler {n}"), move || block_on(handle(n, h, acker, msgs))),
            Consumer::Joint => tasks.push(handle(n, h, acker, msgs)),
        }
    }
    if taken < limit {
        report(|l, _| l.ended = true);
        // still at its end when asked again
        if block_on(processor.next()).is_some() {
            report(|l, _| l.viols.push(("entry-extra", "an entry after the end of the stream".into())));
        }
    }
    report(|l, step| l.drop_begin = Some(step));
    drop(processor);
    note("processor gone".into());
    report(|l, step| l.dropped = Some(step));
    block_on(async { while tasks.next().await.is_some() {} });
}

/// One request: the calls that dispatched its frames.
struct Req {
    key: (u64, u64),
    calls: Vec<usize>,
    /// A call failed because the processor was going away: what became of it is anybody's guess.
    dubious: bool,
}

fn check_dispatch(d: &Dispatch, log: &Log) {
    let v = |class: &'static str, what: String| ctx::viol(class, what);
    // before `begin` the processor was there, after `gone` it was not
    let begin = log.drop_begin.unwrap_or(u64::MAX);
    let gone = log.dropped.unwrap_or(u64::MAX);
    let deaf = log.entries.iter().any(|e| e.how == AckHow::Deaf);
    let read: HashSet<u64> = log.entries.iter().flat_map(|e| e.msgs.iter().copied()).collect();

    // the calls on an id pair, in the order they were made, make requests
    let mut order: Vec<usize> = (0..log.calls.len()).collect();
    order.sort_by_key(|&c| log.calls[c].start);
    let mut reqs: Vec<Req> = vec![];
    let mut open: HashMap<(u64, u64), usize> = HashMap::new();
    let mut of_call: HashMap<usize, usize> = HashMap::new();
    for c in order {
        let call = &log.calls[c];
        let key = (call.op.sid, call.op.fid);
        if call.out.is_none() && call.end < begin {
            v("wrong-error", format!("dispatching {:?} failed though the processor was there", call.op));
        }
        if call.start > gone {
            if call.out == Some(true) {
                v("no-error", format!("dispatching {:?} succeeded after the processor had gone", call.op));
            }
            if call.out.is_some() && !deaf && !call.op.msgs.iter().all(|m| read.contains(m)) {
                v("no-error", format!("the messages of {:?} vanished, the processor had gone", call.op));
            }
        }
        if d.loose {
            continue;
        }
        let r = match open.get(&key) {
            Some(&r) => {
                reqs[r].calls.push(c);
                // a later fragment: there is no second acknowledgement
                if call.out == Some(true) && !reqs[r].dubious {
                    v("dispatch-twice", format!("{:?}, a later fragment, was taken for a new request", call.op));
                }
                r
            }
            None => {
                if call.out == Some(false) {
                    v("dispatch-lost", format!("{:?}, a new request, was taken for a part of another one", call.op));
                }
                reqs.push(Req { key, calls: vec![c], dubious: call.out.is_none() });
                reqs.len() - 1
            }
        };
        of_call.insert(c, r);
        // whether a request that failed is remembered is left open
        if reqs[r].dubious || !call.op.fin {
            open.insert(key, r);
        } else {
            open.remove(&key);
        }
    }

    if d.loose {
        check_loose(d, log);
        return;
    }

    // acknowledgements
    let mut acked: HashMap<usize, Option<AgentAck>> = HashMap::new();
    for (c, ack) in &log.acks {
        let r = of_call[c];
        if acked.insert(r, ack.clone()).is_some() && !reqs[r].dubious {
            v("ack-twice", format!("{:?} has two acknowledgements", reqs[r].key));
        }
    }
    let mut used: HashSet<usize> = HashSet::new();
    let mut missing = false;
    for (r, q) in reqs.iter().enumerate() {
        if q.dubious {
            continue;
        }
        let key = q.key;
        let Some(Some(ack)) = acked.get(&r) else {
            v("ack-missing", format!("{key:?} has no acknowledgement"));
            missing = true;
            continue;
        };
        if (ack.stream_id, ack.frame_id) != key || ack.fragmented {
            v("ack-wrong", format!("{key:?} was acknowledged with {ack:?}"));
            continue;
        }
        let n = match ack.actions.first() {
            Some(Action::SetVar { name, value: Typed::Uint64(n), .. }) if name == "entry" => *n as usize,
            None if d.drop_after.is_some() && !ack.aborted => {
                // nobody took the entry, it went with the processor
                ctx::probe("entry dropped with the processor");
                continue;
            }
            _ => {
                v("ack-wrong", format!("{key:?} was acknowledged with {ack:?}"));
                continue;
            }
        };
        let Some(e) = log.entries.get(n) else {
            v("ack-wrong", format!("{key:?} was acknowledged by entry {n}, there is none"));
            continue;
        };
        if !used.insert(n) {
            v("entry-twice", format!("entry {n} acknowledged two requests"));
        }
        check_entry(key, n, e, ack);
        if e.how == AckHow::Deaf {
            continue;
        }
        let sent: Vec<u64> = q.calls.iter().flat_map(|&c| log.calls[c].op.msgs.clone()).collect();
        // those that were refused need not arrive
        let sure: Vec<u64> =
            q.calls.iter().filter(|&&c| log.calls[c].out.is_some()).flat_map(|&c| log.calls[c].op.msgs.clone()).collect();
        if e.msgs != sent && e.msgs != sure {
            let class = if e.msgs.len() < sent.len() { "dispatch-lost" } else { "dispatch-order" };
            v(class, format!("entry {n} of {key:?} got the messages {:?} instead of {sent:?}", e.msgs));
        }
        if !e.stream_ended {
            v("dispatch-lost", format!("the messages of {key:?} never ended"));
        }
    }
    let dubious = reqs.iter().filter(|q| q.dubious).map(|q| q.calls.len()).sum::<usize>();
    if !missing && log.entries.len() > used.len() + dubious {
        let n = (0..log.entries.len()).find(|n| !used.contains(n));
        v("entry-extra", format!("entry {n:?} belongs to no request"));
    }
    if d.drop_after.is_none() && !log.ended {
        v("dispatch-lost", "the stream of requests never ended".into());
    }
}

/// Like `check_dispatch`, for calls that may overlap: some order of them must explain everything.
fn check_loose(d: &Dispatch, log: &Log) {
    let v = |class: &'static str, what: String| ctx::viol(class, what);
    let calls = &log.calls;
    // the entry each new request was given; None if nobody took it
    let mut entry_of: HashMap<usize, Option<usize>> = HashMap::new();
    let mut used: HashSet<usize> = HashSet::new();
    for (c, ack) in &log.acks {
        let op = &calls[*c].op;
        let key = (op.sid, op.fid);
        let Some(ack) = ack else {
            v("ack-missing", format!("{op:?} has no acknowledgement"));
            return;
        };
        if (ack.stream_id, ack.frame_id) != key || ack.fragmented {
            v("ack-wrong", format!("{op:?} was acknowledged with {ack:?}"));
        }
        match ack.actions.first() {
            Some(Action::SetVar { name, value: Typed::Uint64(n), .. }) if name == "entry" && (*n as usize) < log.entries.len() => {
                let n = *n as usize;
                if !used.insert(n) {
                    v("entry-twice", format!("entry {n} acknowledged two requests"));
                }
                check_entry(key, n, &log.entries[n], ack);
                entry_of.insert(*c, Some(n));
            }
            None if d.drop_after.is_some() && !ack.aborted => {
                ctx::probe("entry dropped with the processor");
                entry_of.insert(*c, None);
            }
            _ => v("ack-wrong", format!("{op:?} was acknowledged with {ack:?}")),
        }
    }
    let failed = calls.iter().filter(|c| c.out.is_none()).count();
    if log.entries.len() > used.len() + failed {
        let n = (0..log.entries.len()).find(|n| !used.contains(n));
        v("entry-extra", format!("entry {n:?} belongs to no request"));
    }
    if d.drop_after.is_none() && !log.ended {
        v("dispatch-lost", "the stream of requests never ended".into());
    }
    // messages stay in the order in which they were dispatched
    let mut at: HashMap<u64, (usize, usize)> = HashMap::new();
    for (c, call) in calls.iter().enumerate() {
        for (k, m) in call.op.msgs.iter().enumerate() {
            at.insert(*m, (c, k));
        }
    }
    for (n, e) in log.entries.iter().enumerate() {
        for (k, m) in e.msgs.iter().enumerate() {
            let Some(&(c, i)) = at.get(m) else {
                v("dispatch-order", format!("entry {n} got message {m}, nobody sent it"));
                return;
            };
            for l in &e.msgs[k + 1..] {
                let Some(&(b, j)) = at.get(l) else { continue };
                if if b == c { j <= i } else { calls[b].end < calls[c].start } {
                    v("dispatch-order", format!("entry {n} got message {m} before {l}: {:?}", e.msgs));
                }
            }
        }
        if used.contains(&n) && e.how != AckHow::Deaf && !e.stream_ended {
            v("dispatch-lost", format!("the messages of entry {n} never ended"));
        }
    }
    let mut keys: Vec<_> = calls.iter().map(|c| (c.op.sid, c.op.fid)).collect();
    keys.sort();
    keys.dedup();
    for key in keys {
        let mine: Vec<usize> = (0..calls.len()).filter(|&c| (calls[c].op.sid, calls[c].op.fid) == key).collect();
        if mine.iter().any(|&c| calls[c].out.is_none()) {
            continue;
        }
        if mine.iter().any(|&a| mine.iter().any(|&b| a != b && calls[a].start < calls[b].end && calls[b].start < calls[a].end)) {
            ctx::probe("overlapping dispatches of one id pair");
        }
        // what each new request was given, if that is known
        let given: HashMap<usize, HashSet<u64>> = entry_of
            .iter()
            .filter_map(|(c, n)| n.map(|n| (*c, n)))
            .filter(|(_, n)| log.entries[*n].how != AckHow::Deaf)
            .map(|(c, n)| (c, log.entries[n].msgs.iter().copied().collect()))
            .collect();
        let count: HashMap<usize, usize> =
            entry_of.iter().filter_map(|(c, n)| n.map(|n| (*c, log.entries[n].msgs.len()))).collect();
        if !explained(log, &mine, &given, &count) {
            let h: Vec<_> = mine
                .iter()
                .map(|&c| {
                    let e = entry_of.get(&c).map(|n| n.map(|n| &log.entries[n].msgs));
                    format!("[{}..{}] {:?} -> {:?} {e:?}", calls[c].start, calls[c].end, calls[c].op, calls[c].out)
                })
                .collect();
            v("dispatch-atomic", format!("no order of these calls explains them: {}", h.join("; ")));
        }
    }
}

/// Whether some order of these calls on one id pair, consistent with real time, explains what each
/// returned and which messages arrived together.
fn explained(log: &Log, mine: &[usize], given: &HashMap<usize, HashSet<u64>>, count: &HashMap<usize, usize>) -> bool {
    type Seen = HashSet<(u32, Option<usize>, Vec<u64>)>;
    struct Search<'a> {
        log: &'a Log,
        mine: &'a [usize],
        given: &'a HashMap<usize, HashSet<u64>>,
        count: &'a HashMap<usize, usize>,
        seen: Seen,
    }
    impl Search<'_> {
        fn fits(&self, opener: usize, msgs: &[u64]) -> bool {
            self.given.get(&opener).is_none_or(|g| g.len() == msgs.len() && self.count[&opener] == g.len() && msgs.iter().all(|m| g.contains(m)))
        }
        fn go(&mut self, done: u32, open: Option<usize>, msgs: Vec<u64>) -> bool {
            if done.count_ones() as usize == self.mine.len() {
                return open.is_none_or(|o| self.fits(o, &msgs));
            }
            if !self.seen.insert((done, open, msgs.clone())) {
                return false;
            }
            let calls = &self.log.calls;
            let left: Vec<usize> = (0..self.mine.len()).filter(|i| done & (1 << i) == 0).collect();
            let first_end = left.iter().map(|&i| calls[self.mine[i]].end).min().unwrap();
            for i in left {
                let c = self.mine[i];
                let call = &calls[c];
                if call.start > first_end || call.out != Some(open.is_none()) {
                    continue;
                }
                let opener = open.unwrap_or(c);
                let mut all = msgs.clone();
                all.extend(&call.op.msgs);
                let next = if call.op.fin {
                    if !self.fits(opener, &all) {
                        continue;
                    }
                    self.go(done | 1 << i, None, vec![])
                } else {
                    all.sort();
                    self.go(done | 1 << i, Some(opener), all)
                };
                if next {
                    return true;
                }
            }
            false
        }
    }
    Search { log, mine, given, count, seen: Seen::new() }.go(0, None, vec![])
}

/// What the handler of the n-th entry sets besides.
fn more_actions(n: usize) -> Vec<Act> {
    let set = |k: &str, v: Val| Act::Set(2, k.into(), v);
    match n % 5 {
        // again and again
        1 => vec![
            set("x", Val::Str("a".into())),
            set("x", Val::Str("b".into())),
            set("x", Val::Str("b".into())),
            Act::Unset(2, "x".into()),
            Act::Unset(2, "x".into()),
            set("x", Val::Null),
            Act::Set(4, "x".into(), Val::Null),
        ],
        2 => (0..40u8).rev().map(|i| Act::Set(i % 5, format!("v{}", i % 7), Val::Bin(vec![i; i as usize]))).collect(),
        3 => vec![set("", Val::Bool(false)), Act::Unset(0, String::new()), set("é", Val::I64(-1)), set("A", Val::V4([1, 2, 3, 4].into()))],
        _ => vec![],
    }
}

/// What an entry's acknowledgement says, and what completing it returned.
fn check_entry(key: (u64, u64), n: usize, e: &EntryRec, ack: &AgentAck) {
    let v = |class: &'static str, what: String| ctx::viol(class, what);
    let how = &e.how;
    if ack.aborted != (*how == AckHow::Abort) {
        v("ack-wrong", format!("{key:?} ({how:?}): aborted is {}", ack.aborted));
    }
    let mut want = vec![Action::SetVar { scope: Scope::Request, name: "entry".into(), value: Typed::Uint64(n as u64) }];
    want.extend(more_actions(n).iter().map(conv::act_to));
    if !matches!(how, AckHow::Drop | AckHow::Panic) {
        want.push(Action::UnsetVar { scope: Scope::Session, name: format!("e{n}") });
    }
    if ack.actions != want {
        v("ack-wrong", format!("{key:?} ({how:?}) has actions {:?} instead of {want:?}", ack.actions));
    }
    let results: &[bool] = match how {
        AckHow::Drop | AckHow::Panic => &[],
        AckHow::CompleteTwice => &[true, false],
        _ => &[true],
    };
    if e.results != results {
        v("ack-result", format!("{key:?} ({how:?}): completing returned {:?}", e.results));
    }
}

// ---------------------------------------------------------------- reassembly

fn reassembly(p: &BPlan, r: &ReasmPlan) {
    #[derive(Clone)]
    enum Shared {
        Ids(Arc<Reassembly<u64>>),
        Actions(Arc<Reassembly<Action>>),
        Notifies(Arc<Mutex<Reassembly<Message>>>),
        Acks(Arc<Mutex<Reassembly<Action>>>),
    }
    impl Shared {
        fn call(&self, op: &DOp) -> Outcome {
            let to_action = |n: &u64| Action::set_var(Scope::Request, "n", *n);
            let numbers = |v: Vec<Action>| {
                v.into_iter()
                    .map(|a| match a {
                        Action::SetVar { value: Typed::Uint64(n), .. } => n,
                        _ => u64::MAX,
                    })
                    .collect()
            };
            match self {
                Shared::Ids(t) => t.reassemble(!op.fin, op.sid, op.fid, op.msgs.clone()),
                Shared::Actions(t) => {
                    let actions = op.msgs.iter().map(to_action).collect();
                    t.reassemble(!op.fin, op.sid, op.fid, actions).map(|v| v.map(numbers))
                }
                // a call on a table that is handed frames as well
                Shared::Notifies(t) if op.other == 3 => {
                    let messages = op.msgs.iter().copied().map(message).collect();
                    let res = t.lock().unwrap().reassemble(!op.fin, op.sid, op.fid, messages);
                    res.map(|v| v.map(|v| v.iter().map(id_of).collect()))
                }
                Shared::Acks(t) if op.other == 3 => {
                    let actions = op.msgs.iter().map(to_action).collect();
                    let res = t.lock().unwrap().reassemble(!op.fin, op.sid, op.fid, actions);
                    res.map(|v| v.map(numbers))
                }
                Shared::Notifies(t) => {
                    let frame = match op.other {
                        1 => Frame::haproxy_disconnect(Status::Io, "bye"),
                        2 => Frame::ack(op.sid, op.fid, [to_action(&0)]),
                        _ => Frame::HaproxyNotify(HaproxyNotify {
                            fragmented: !op.fin,
                            stream_id: op.sid,
                            frame_id: op.fid,
                            messages: op.msgs.iter().copied().map(message).collect(),
                        }),
                    };
                    t.lock().unwrap().handle_frame(frame).now_or_never().unwrap_or(Err(Status::Unknown)).map(|v| v.map(|v| v.iter().map(id_of).collect()))
                }
                Shared::Acks(t) => {
                    let mut ack = AgentAck::new(op.sid, op.fid);
                    ack.fragmented = !op.fin;
                    ack.actions = op.msgs.iter().map(to_action).collect();
                    let frame = match op.other {
                        1 => Frame::agent_disconnect(Status::Io, "bye"),
                        2 => Frame::notify(op.sid, op.fid, [message(0)]),
                        _ => Frame::AgentAck(ack),
                    };
                    t.lock().unwrap().handle_frame(frame).now_or_never().unwrap_or(Err(Status::Unknown)).map(|v| v.map(numbers))
                }
            }
        }
    }
    let table = match (r.handler, r.frames) {
        (false, false) => Shared::Ids(Arc::default()),
        (false, true) => Shared::Actions(Arc::default()),
        (true, false) => Shared::Notifies(Arc::default()),
        (true, true) => Shared::Acks(Arc::default()),
    };
    let mut init: Vec<(String, Box<dyn FnOnce() + Send>)> = vec![];
    for (t, ops) in r.threads.iter().cloned().enumerate() {
        let table = table.clone();
        init.push((
            format!("thread {t}"),
            Box::new(move || {
                for op in ops {
                    let start = report(|_, step| step);
                    note(format!("call {op:?}"));
                    let out = code(|| table.call(&op));
                    note(format!("{op:?} returned {out:?}"));
                    report(|l, end| l.reasm.push(ReasmRec { op, start, end, out }));
                }
            }),
        ));
    }
    let mut log = run_threads(p, init);
    if !log.viols.is_empty() || !log.panics.is_empty() {
        return;
    }
    // what is left in the table, one at a time
    let keys: HashSet<(u64, u64)> = r.threads.iter().flatten().map(|o| (o.sid, o.fid)).collect();
    let mut keys: Vec<_> = keys.into_iter().collect();
    keys.sort();
    let mut step = u64::MAX / 2;
    for (sid, fid) in keys {
        let op = DOp { fin: true, sid, fid, msgs: vec![], turn: 0, other: if r.handler && step % 4 == 1 { 3 } else { 0 } };
        let out = table.call(&op);
        log.reasm.push(ReasmRec { op, start: step, end: step + 1, out });
        step += 2;
    }
    if r.handler {
        ctx::probe("reassembly of frames");
    }
    if let Some(bad) = log.reasm.iter().find(|c| match c.op.other {
        0 | 3 => c.out.is_err(),
        1 => c.out != Err(Status::Normal),
        _ => c.out != Err(Status::Invalid),
    }) {
        ctx::viol("reassembly-error", format!("{:?} failed: {:?}", bad.op, bad.out));
        return;
    }
    log.reasm.retain(|c| matches!(c.op.other, 0 | 3));
    let calls = &log.reasm;
    let overlapping = (0..calls.len()).any(|a| (0..a).any(|b| calls[a].start < calls[b].end && calls[b].start < calls[a].end));
    if overlapping {
        ctx::probe("overlapping calls");
    }
    let ok = if overlapping { linearizable(calls) } else { in_order(calls) };
    if !ok {
        let h: Vec<_> = calls.iter().map(|c| format!("[{}..{}] {:?} -> {:?}", c.start, c.end, c.op, c.out)).collect();
        ctx::viol("not-linearizable", format!("no order of these calls explains them: {}", h.join("; ")));
    }
}

/// Whether the only order there is explains all results.
fn in_order(calls: &[ReasmRec]) -> bool {
    let mut order: Vec<&ReasmRec> = calls.iter().collect();
    order.sort_by_key(|c| c.start);
    let mut table: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
    order.into_iter().all(|c| {
        let all = table.entry((c.op.sid, c.op.fid)).or_default();
        all.extend(&c.op.msgs);
        let out = c.op.fin.then(|| std::mem::take(all));
        c.out.as_ref().unwrap() == &out
    })
}

/// Whether some order of the calls, consistent with real time, explains all results.
fn linearizable(calls: &[ReasmRec]) -> bool {
    type Table = BTreeMap<(u64, u64), Vec<u64>>;
    fn go(calls: &[ReasmRec], done: u32, table: &Table, seen: &mut HashSet<(u32, Table)>) -> bool {
        if done.count_ones() as usize == calls.len() {
            return true;
        }
        if !seen.insert((done, table.clone())) {
            return false;
        }
        let first_end = calls.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, c)| c.end).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            if done & (1 << i) != 0 || c.start > first_end {
                continue;
            }
            let mut t = table.clone();
            let key = (c.op.sid, c.op.fid);
            let out = if c.op.fin {
                let mut v = t.remove(&key).unwrap_or_default();
                v.extend(&c.op.msgs);
                Some(v)
            } else {
                t.entry(key).or_default().extend(&c.op.msgs);
                None
            };
            if c.out.as_ref().unwrap() == &out && go(calls, done | 1 << i, &t, seen) {
                return true;
            }
        }
        false
    }
    go(calls, 0, &Table::new(), &mut HashSet::new())
}
