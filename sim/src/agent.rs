//! World A: the whole agent (or bare connections) with simulated clients, network, clock and
//! application, on one single-threaded runtime whose scheduling decisions are ours.

use std::collections::BTreeMap;
use std::net::TcpListener as StdTcpListener;
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spoa::runtime::Builder;
use haproxy_spoa::{Agent, Connection};
use haproxy_spop::Version;
use tokio::time::{sleep, Instant};
use tokio_util::sync::CancellationToken;

use crate::conv;
use crate::ctx::{self, ev, fault, now, viol, MakeRec};
use crate::model;
use crate::net::{Listener, Net, NetRec, SimIo};
use crate::plan::*;
use crate::rng::Rng;
use crate::spop;
use crate::svc::{self, Factory};

/// What the checks need besides the per-connection records.
pub struct Outcome {
    /// (time of the request, time serve returned and whether with Ok)
    pub shutdown: u64,
    pub planned_shutdown: bool,
    /// per call of serve: when it was made, when it returned, and whether with Ok
    pub served: Vec<(u64, Option<(u64, bool)>)>,
    pub accept_errors: u64,
    pub last_accept_error: Option<u64>,
    pub end: u64,
    pub tasks_done: Vec<Option<u64>>,
    pub recs: Vec<NetRec>,
    pub makes: BTreeMap<usize, Vec<MakeRec>>,
}

/// The scheduler: which runnable task goes next.
pub fn chooser(s: &Sched, cap: u64) -> Box<dyn FnMut(usize) -> usize> {
    let mut rng = Rng::stream(s.seed, "sched", 0);
    let mode = s.mode;
    let mut steps = 0u64;
    Box::new(move |n| {
        steps += 1;
        if steps > cap {
            crate::env::fatal("livelock");
        }
        ctx::with(|c| {
            c.steps += 1;
            if n > 1 {
                *c.probes.entry("scheduling choices").or_default() += 1;
            }
        });
        match mode {
            _ if n <= 1 => 0,
            Mode::Random => rng.below(n as u64) as usize,
            Mode::Fifo => 0,
            Mode::Lifo => n - 1,
        }
    })
}

pub fn runtime(seed: u64) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .expect("runtime")
}

pub fn run(plan: &APlan, seed: u64) {
    let plan = Arc::new(plan.clone());
    let nets: Vec<_> = plan.conns.iter().enumerate().map(|(i, c)| Net::new(i, &c.net)).collect();
    svc::install(Some((plan.clone(), nets.clone())));
    let ops: usize = plan.conns.iter().map(|c| c.ops.len()).sum();
    simhook::set_chooser(Some(chooser(&plan.sched, 3_000_000 + 200 * ops as u64)));
    let jumps = plan.clock_jumps.iter();
    crate::env::set_jumps(jumps.map(|j| (j.0 * 1_000_000, j.1 * 1_000_000)).collect());
    for _ in &plan.clock_jumps {
        fault("wall clock jumps");
    }
    let rt = runtime(plan.sched.seed ^ seed);
    let out = rt.block_on(drive(plan.clone(), nets.clone()));
    drop(rt);
    simhook::set_chooser(None);
    model::check(&plan, &out);
    crate::env::set_jumps(vec![]);
    svc::install(None);
}

async fn client(conn: Conn, net: Arc<Net>) {
    for op in conn.ops {
        match op {
            Op::Frame(f) => {
                ev("send", net.id, "");
                net.push(&spop::wire(&f))
            }
            Op::Bytes(b) => {
                ev("send-raw", net.id, "");
                net.push(&b)
            }
            Op::Wait(ms) => sleep(Duration::from_millis(ms)).await,
            Op::Replies(n) => net.wait_frames(n, 60_000).await,
        }
    }
    match conn.end {
        End::Linger => {}
        End::Close => {
            fault("client closes");
            ev("client-close", net.id, "");
            net.close()
        }
        End::HalfClose => {
            fault("client half-closes");
            ev("half-close", net.id, "");
            net.finish(Cut::Eof)
        }
        End::Reset => {
            ev("client-reset", net.id, "");
            net.reset()
        }
    }
}

async fn drive(plan: Arc<APlan>, nets: Vec<Arc<Net>>) -> Outcome {
    let start = Instant::now();
    let start_ms = now();
    let cfg = &plan.cfg;
    let mut b = Builder::new();
    for &(maj, min) in &cfg.versions {
        b = b.version(Version::new(maj, min));
    }
    let caps = conv::caps_to(&cfg.caps);
    b = match plan.sched.seed % 3 {
        0 => b.capabilities(caps),
        1 => caps.into_iter().fold(b, |b, c| b.capability(c)),
        _ => cfg.caps.iter().zip(caps).fold(b, |b, (name, c)| match name.trim().to_ascii_lowercase().as_str() {
            "fragmentation" => b.fragmentation(),
            "pipelining" => b.pipelining(),
            "async" => b.asynchronous(),
            _ => b.capability(c),
        }),
    };
    if let Some(n) = cfg.mfs {
        b = b.max_frame_size(n);
    }
    if let Some(ms) = cfg.process_ms {
        b = b.max_process_time(Duration::from_millis(ms));
    }
    let runtime = b.make_service(Factory::new(), svc::STATE);

    let served: Arc<Mutex<Vec<(u64, Option<(u64, bool)>)>>> = Arc::default();
    let tasks: Arc<Mutex<Vec<Option<u64>>>> = Arc::new(Mutex::new(vec![None; nets.len()]));
    let listener = Listener::new(&plan.accept_faults);
    let token;
    let mut agent_tasks = vec![];
    if plan.agent {
        simhook::set_listener(Some(listener.clone()));
        // a socket that is never used: the simulated listener takes its place
        let mode = if plan.blocking { 0 } else { libc::SOCK_NONBLOCK };
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | mode | libc::SOCK_CLOEXEC, 0) };
        assert!(fd >= 0, "socket");
        let agent = match Agent::new(runtime.clone(), unsafe { StdTcpListener::from_raw_fd(fd) }) {
            Ok(a) => a,
            Err(e) => panic!("HARNESS: Agent::new: {e}"),
        };
        simhook::set_listener(None);
        if plan.blocking {
            fault("blocking listener");
            listener.set_fd(fd);
        }
        token = agent.shutdown();
        let agent = Arc::new(agent);
        for (k, at) in std::iter::once(0).chain(plan.serve_again).enumerate() {
            let (served, agent) = (served.clone(), agent.clone());
            served.lock().unwrap().push((start_ms + at, None));
            agent_tasks.push(tokio::spawn(async move {
                if k > 0 {
                    sleep(Duration::from_millis(at)).await;
                    fault("second call of serve");
                    ev("serve-again", 0, "");
                }
                let r = agent.serve().await;
                drop(agent);
                ev("served", k, if r.is_ok() { "ok" } else { "err" });
                served.lock().unwrap()[k].1 = Some((now(), r.is_ok()));
            }));
        }
    } else {
        token = CancellationToken::new();
    }

    let mut clients = vec![];
    for (i, conn) in plan.conns.iter().cloned().enumerate() {
        let net = nets[i].clone();
        let (listener, runtime, token, tasks, direct) =
            (listener.clone(), runtime.clone(), token.clone(), tasks.clone(), !plan.agent);
        clients.push(tokio::spawn(async move {
            if conn.at > 0 {
                sleep(Duration::from_millis(conn.at)).await;
            }
            ev("connect", i, "");
            if direct {
                let n = net.clone();
                n.accepted();
                tokio::spawn(async move {
                    struct Done(Arc<Mutex<Vec<Option<u64>>>>, usize);
                    impl Drop for Done {
                        fn drop(&mut self) {
                            self.0.lock().unwrap_or_else(|e| e.into_inner())[self.1] = Some(now());
                        }
                    }
                    let done = Done(tasks, i);
                    let mut c = Connection::new(runtime, SimIo::new(n), token.child_token());
                    let r = c.serve().await;
                    ev("conn-served", i, if r.is_ok() { "ok" } else { "err" });
                    drop(done);
                });
            } else {
                listener.connect(net.clone());
            }
            client(conn, net).await
        }));
    }

    let (stop, stopping) = tokio::sync::oneshot::channel::<()>();
    let shutdown = {
        let (at, token) = (plan.shutdown_at, token.clone());
        tokio::spawn(async move {
            match at {
                Some(ms) => {
                    sleep(Duration::from_millis(ms)).await;
                    fault("shutdown");
                }
                None => {
                    let _ = stopping.await;
                }
            }
            ev("shutdown-req", 0, "");
            let t = now();
            token.cancel();
            t
        })
    };

    for c in clients {
        if let Err(e) = c.await {
            panic!("HARNESS: client: {e}");
        }
    }
    // until nothing has happened for longer than anything may take
    let quiet = plan.cfg.process_ms().min(100_000_000) + longest(&plan) + 5_000;
    loop {
        let before = now();
        sleep(Duration::from_millis(quiet)).await;
        if ctx::with(|c| c.last_event) <= before {
            break;
        }
        if start.elapsed() > Duration::from_secs(7 * 24 * 3600) {
            viol("endless", "activity never ceases".into());
            break;
        }
    }
    let _ = stop.send(());
    let shutdown_at = shutdown.await.unwrap_or(0);
    // everything has to be over soon
    sleep(Duration::from_millis(quiet)).await;
    let end = now();
    let r = Outcome {
        shutdown: shutdown_at,
        planned_shutdown: plan.shutdown_at.is_some(),
        served: served.lock().unwrap().clone(),
        accept_errors: listener.errors().0,
        last_accept_error: listener.errors().1,
        end,
        tasks_done: tasks.lock().unwrap_or_else(|e| e.into_inner()).clone(),
        // the state at this point, before anything is torn down, is what the checks look at
        recs: nets.iter().map(|n| n.rec()).collect(),
        makes: ctx::with(|c| c.makes.clone()),
    };
    for t in agent_tasks {
        t.abort();
    }
    drop(runtime);
    r
}

/// The longest single delay of the plan.
fn longest(p: &APlan) -> u64 {
    let mut m = 0;
    let r = |r: &Ready| match r {
        Ready::After(ms) => *ms,
        _ => 0,
    };
    for x in &p.factory_ready {
        m = m.max(r(x));
    }
    for c in &p.conns {
        m = m.max(c.make.delay);
        for k in &c.calls {
            m = m.max(r(&k.ready) + k.delay);
        }
        for &(_, ms) in &c.net.stalls {
            m = m.max(ms);
        }
        for &(_, ms) in &c.net.wblock {
            m = m.max(ms.unwrap_or(0));
        }
    }
    m
}
