# ---------------------------------------------------------------- C01
bug("c01-empty-ack", "C01",
    "a service that returns no action for a request",
    "A request for which the service has nothing to set gets no ACK at all, so its peer waits for it until it gives up.",
    [("spoa/src/state/process.rs", """                                let ack = Frame::ack(stream_id, frame_id, actions);

                                Ok((self.into(), Some(ack)))""",
      """                                let ack = (!actions.is_empty())
                                    .then(|| Frame::ack(stream_id, frame_id, actions));

                                Ok((self.into(), ack))""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(
            services!(|msgs: Vec<Message>| async move {
                Ok::<_, String>(if numbers(&msgs) == [2] { vec![] } else { set("x") })
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1), notify(1, 2, 2), notify(1, 3, 3)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        for n in 1..=3 {
            let r = reply(&mut c).await.expect("an ACK");
            assert!(r.is_ack(1, n), "{r:?}");
        }
    });
}
""")

bug("c01-idle-tick", "C01",
    "a peer that stalls for more than five seconds in the middle of a frame (in its length or its payload)",
    "An idle tick in the serve loop drops the half-finished read of a frame: the bytes read so far are lost, the stream is out of step and the request is never answered.",
    [("spoa/src/conn.rs", """    select,
};
use tokio_util""", """    select,
    time::{sleep, Duration},
};
use tokio_util"""),
     ("spoa/src/conn.rs", """use tracing::instrument;
""", """use tracing::{instrument, trace};
"""),
     ("spoa/src/conn.rs", """/// The most that is kept""", """/// How often an idle connection is reported.
const IDLE_INTERVAL: Duration = Duration::from_secs(5);

/// The most that is kept"""),
     ("spoa/src/conn.rs", """                _ = self.tok.cancelled() => {
                    break;
                }
""", """                _ = self.tok.cancelled() => {
                    break;
                }

                _ = sleep(IDLE_INTERVAL) => {
                    trace!("idle connection");
                    self.state = state;
                }
"""),
     ],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        sleep(Duration::from_secs(12)).await;
        let n = notify(1, 1, 1);
        c.write_all(&n).await.unwrap();
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        c.write_all(&n[..9]).await.unwrap();
        sleep(Duration::from_secs(12)).await;
        c.write_all(&n[9..]).await.unwrap();
        assert!(reply(&mut c).await.expect("an ACK").is_ack(1, 1));
    });
}
""")

# ---------------------------------------------------------------- C02
bug("c02-varint-boundary", "C02",
    "an integer (or a length) whose encoding has a group of exactly 128 left, such as 2288..=2303",
    "Integers next to a size boundary of the variable-length encoding are written without their last byte, so the peer reads another value and loses the rest of the frame.",
    [("spop/src/data/varint.rs", "while n >= 0x80 {", "while n > 0x80 {")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(
            services!(|_: Vec<Message>| async move {
                Ok::<_, String>(vec![Action::set_var(Scope::Session, "a", 2290u64), Action::set_var(Scope::Session, "b", 7u64)])
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert!(r.is_ack(1, 1));
        let mut want = vec![1, 3, 1, 1, b'a', 5];
        want.extend(varint(2290));
        want.extend([1, 3, 1, 1, b'b', 5, 7]);
        assert_eq!(r.payload, want);
    });
}
""")

bug("c02-int32-via-uint", "C02",
    "a negative 32-bit argument",
    "A negative 32-bit integer that does not fit is clamped instead of being taken over: -5 arrives at the service as i32::MAX.",
    [("spop/src/data/buf.rs", "Type::Int32 => buf.varint().map(|n| n as i32).map(Typed::Int32),",
      "Type::Int32 => buf\n            .varint()\n            .map(|n| i32::try_from(n).unwrap_or(i32::MAX))\n            .map(Typed::Int32),")],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(msgs);
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        let mut p = text("m");
        p.push(1);
        p.extend(text("n"));
        p.push(2);
        p.extend(varint(-5i64 as u64));
        c.write_all(&[hello(), frame(3, 1, 1, 1, &p)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        assert_eq!(seen.lock().unwrap()[0][0].args, [("n".to_string(), Typed::Int32(-5))]);
    });
}
""")

# ---------------------------------------------------------------- C03
bug("c03-version-order", "C03",
    "a HELLO that lists several common versions, the highest one first",
    "The version of the reply is the last common one of the peer's list rather than the highest.",
    [("spoa/src/state/handshake.rs", "    mut hello: HaproxyHello,", "    hello: HaproxyHello,"),
     ("spoa/src/state/handshake.rs", "    hello.supported_versions.sort();\n", "")],
    """
fn main() {
    simulated(async {
        let rt = builder()
            .version(Version::new(1, 0))
            .version(Version::new(2, 0))
            .make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        for list in ["1.0,2.0", "2.0,1.0", "2.0,1.0,3.0"] {
            let mut c = connect!(rt);
            c.write_all(&hello_with(list, 16380, "pipelining", &[])).await.unwrap();
            let r = reply(&mut c).await.unwrap();
            assert_eq!(r.ty, 101);
            assert!(r.has("2.0"), "{list}: {r:?}");
        }
    });
}
""")

bug("c03-healthcheck-false", "C03",
    "a HELLO that carries the healthcheck item with the value false",
    "A HELLO that says it is not a health check is taken for one: the connection is closed after the reply and no request on it is processed.",
    [("spoa/src/state/connect.rs", "let is_healthcheck = hello.healthcheck.unwrap_or_default();", "let is_healthcheck = hello.healthcheck.is_some();")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        let mut extra = text("healthcheck");
        extra.push(1);
        c.write_all(&hello_with("2.0", 16380, "pipelining", &extra)).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let _ = c.write_all(&notify(1, 1, 1)).await;
        assert!(reply(&mut c).await.expect("an ACK").is_ack(1, 1));
    });
}
""")

# ---------------------------------------------------------------- C04
bug("c04-echo-status", "C04",
    "a peer that sends DISCONNECT with a status code other than normal",
    "The DISCONNECT that answers the peer's own carries the peer's status code, as if the agent had run into that error itself.",
    [("spoa/src/state/process.rs", """                Err(Normal).context("peer closed connection")""",
      """                let status = crate::spop::Error::try_from(status_code).unwrap_or(Normal);

                Err(status).context("peer closed connection")""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        for code in [0, 2, 3, 99, 77] {
            let mut c = connect!(rt);
            c.write_all(&[hello(), disconnect(code)].concat()).await.unwrap();
            assert_eq!(reply(&mut c).await.unwrap().ty, 101);
            let r = reply(&mut c).await.expect("a DISCONNECT");
            assert_eq!(r.code(), 0, "answer to a DISCONNECT with status {code}");
            assert!(rest(&mut c).await.is_empty());
        }
    });
}
""")

bug("c04-nested-context", "C04",
    "a service whose factory fails",
    "An error that has been wrapped keeps only its own reason: the DISCONNECT sent when the factory fails does not say why.",
    [("spoa/src/error.rs", """                } else {
                    Disconnect::new(Status::Unknown, err.to_string())
                }
            }""", """                } else {
                    Disconnect::new(Status::Normal, context.to_string())
                }
            }""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(
            service_fn(|_: ()| async {
                if true {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "no database"));
                }
                Ok(service_fn(|_: Vec<Message>| async { Ok::<_, String>(set("x")) }))
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        let r = reply(&mut c).await.expect("a DISCONNECT");
        assert_eq!(r.code(), 99);
        assert!(r.has("no database"));
        assert!(rest(&mut c).await.is_empty());
    });
}
""")

# ---------------------------------------------------------------- C05
bug("c05-whole-seconds", "C05",
    "a configured maximum processing time that is not a whole number of seconds",
    "The configured limit is cut to whole seconds, so requests are timed out although they finish in time.",
    [("spoa/src/runtime/builder.rs", "self.max_process_time = Some(d.into());", "self.max_process_time = Some(Duration::from_secs(d.into().as_secs()));")],
    """
fn main() {
    simulated(async {
        let rt = builder().max_process_time(Duration::from_millis(1800)).make_service(
            services!(|_: Vec<Message>| async move {
                sleep(Duration::from_millis(1500)).await;
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert!(r.is_ack(1, 1), "{r:?}");
    });
}
""")

bug("c05-budget", "C05",
    "several requests on one connection whose processing times add up to more than the limit",
    "The time limit becomes a budget of the whole connection: a request is timed out because of the time earlier ones took.",
    [("spoa/src/state/process.rs", """    pub reassembly: Option<Reassembly<Message>>,
}

impl""", """    pub reassembly: Option<Reassembly<Message>>,
    pub budget: std::time::Duration,
}

impl"""),
     ("spoa/src/state/process.rs", """        Self {
            runtime,
            service,
            reassembly,
        }""", """        let budget = runtime.max_process_time;

        Self {
            runtime,
            service,
            reassembly,
            budget,
        }"""),
     ("spoa/src/state/process.rs", "match timeout(self.runtime.max_process_time, process).await {", "let started = tokio::time::Instant::now();\n\n                    match timeout(self.budget, process).await {"),
     ("spoa/src/state/process.rs", """                                let ack = Frame::ack(stream_id, frame_id, actions);

                                Ok((self.into(), Some(ack)))
""", """                                self.budget = self.budget.saturating_sub(started.elapsed());

                                Ok((self.into(), Some(Frame::ack(stream_id, frame_id, actions))))
"""),
     ],
    """
fn main() {
    simulated(async {
        let rt = builder().max_process_time(Duration::from_secs(1)).make_service(
            services!(|_: Vec<Message>| async move {
                sleep(Duration::from_millis(400)).await;
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        for n in 1..=5 {
            c.write_all(&notify(1, n, n)).await.unwrap();
            let r = reply(&mut c).await.unwrap();
            assert!(r.is_ack(1, n), "{r:?}");
        }
    });
}
""")

# ---------------------------------------------------------------- C06
bug("c06-final-first", "C06",
    "a request in several fragments of which the last one carries messages",
    "The messages of the final fragment are put before those of the fragments received earlier.",
    [("spop/src/frame/fragment.rs", """                    let mut v = e.remove();

                    v.append(&mut value);

                    Ok(Some(v))""", """                    value.append(&mut e.remove());

                    Ok(Some(value))""")],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(numbers(&msgs));
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), fragment(false, 1, 1, 1), fragment(false, 1, 1, 2), fragment(true, 1, 1, 3)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        assert_eq!(*seen.lock().unwrap(), [vec![1, 2, 3]]);
    });
}
""")

bug("c06-shared-table", "C06",
    "two connections that both negotiated fragmentation and send interleaved fragments with the same stream-id and frame-id",
    "A reassembly table became cheap to clone, and the runtime hands a clone of its own to every connection: connections now gather their fragments in one and the same table.",
    [("spop/src/frame/fragment.rs", "use dashmap::{DashMap, Entry};\n", "use std::sync::Arc;\n\nuse dashmap::{DashMap, Entry};\n"),
     ("spop/src/frame/fragment.rs", "pub struct Table<T>(DashMap<(StreamId, FrameId), Vec<T>>);", "pub struct Table<T>(Arc<DashMap<(StreamId, FrameId), Vec<T>>>);"),
     ("spop/src/frame/fragment.rs", "        Self(DashMap::default())\n", "        Self(Arc::default())\n"),
     ("spoa/src/runtime/runtime.rs", "    spop::{Capability, Version},\n", "    spop::{Capability, Message, Reassembly, Version},\n"),
     ("spoa/src/runtime/runtime.rs", "    pub max_process_time: Duration,\n    pub service_maker", "    pub max_process_time: Duration,\n    pub reassembly: Reassembly<Message>,\n    pub service_maker"),
     ("spoa/src/runtime/runtime.rs", "            max_process_time,\n            service_maker", "            max_process_time,\n            reassembly: Reassembly::default(),\n            service_maker"),
     ("spoa/src/state/connect.rs", "    spop::{Action, Error, Frame, HaproxyHello, Message, Reassembly},", "    spop::{Action, Error, Frame, HaproxyHello, Message},"),
     ("spoa/src/state/connect.rs", """            Processing::new(
                runtime,
                service,
                handshaked
                    .supports_fragmentation()
                    .then(Reassembly::default),
            )""", """            let reassembly = handshaked
                .supports_fragmentation()
                .then(|| runtime.reassembly.clone());

            Processing::new(runtime, service, reassembly)"""),
     ],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(numbers(&msgs));
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut a = connect!(rt);
        let mut b = connect!(rt);
        a.write_all(&[hello(), fragment(false, 1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut a).await.unwrap().ty, 101);
        sleep(Duration::from_millis(10)).await;
        b.write_all(&[hello(), fragment(false, 1, 1, 2), fragment(true, 1, 1, 3)].concat()).await.unwrap();
        assert_eq!(reply(&mut b).await.unwrap().ty, 101);
        assert!(reply(&mut b).await.unwrap().is_ack(1, 1));
        a.write_all(&fragment(true, 1, 1, 4)).await.unwrap();
        assert!(reply(&mut a).await.unwrap().is_ack(1, 1));
        assert_eq!(*seen.lock().unwrap(), [vec![2, 3], vec![1, 4]]);
    });
}
""")

# ---------------------------------------------------------------- C07
bug("c07-abandoned", "C07",
    "a shutdown while a request is being processed",
    "Shutdown cuts off the request that is being processed, so that it is never acknowledged.",
    [("spoa/src/agent.rs", """                        conn.serve().await
""", """                        tok.run_until_cancelled(conn.serve()).await.unwrap_or(Ok(()))
"""),
     ("spoa/src/agent.rs", """                    let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
""", """                    let tok = self.shutdown.token.clone();
                    let mut conn = Connection::new(self.runtime.clone(), stream, tok.child_token());
""")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(
            services!(|_: Vec<Message>| async move {
                sleep(Duration::from_secs(2)).await;
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(rt, l).unwrap());
        let tok = agent.shutdown();
        tokio::spawn(async move { agent.serve().await.unwrap() });
        let mut c = tokio::net::TcpStream::connect(addr).await.unwrap();
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        sleep(Duration::from_secs(1)).await;
        tok.cancel();
        assert!(reply(&mut c).await.expect("an ACK").is_ack(1, 1));
        assert!(rest(&mut c).await.is_empty());
    });
}
""")

bug("c07-no-wait", "C07",
    "a shutdown while a request is being processed that takes longer than a second more",
    "The agent waits for its connections for one second only, and returns from serve while requests are still being processed.",
    [("spoa/src/agent.rs", """            self.shutdown.tracker.wait().await;
""", """            select! {
                _ = self.shutdown.tracker.wait() => {}
                _ = sleep(GRACE_PERIOD) => debug!("connections left behind"),
            }
"""),
     ("spoa/src/agent.rs", """#[derive(Debug)]
pub struct Agent<S, T> {
""", """/// How long connections may take to finish after shutdown.
const GRACE_PERIOD: Duration = Duration::from_secs(1);

#[derive(Debug)]
pub struct Agent<S, T> {
""")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(
            services!(|msgs: Vec<Message>| async move {
                if numbers(&msgs) == [1] {
                    sleep(Duration::from_millis(2500)).await;
                }
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(rt, l).unwrap());
        let tok = agent.shutdown();
        let serve = tokio::spawn(async move { agent.serve().await.unwrap() });
        let mut a = tokio::net::TcpStream::connect(addr).await.unwrap();
        let mut b = tokio::net::TcpStream::connect(addr).await.unwrap();
        a.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        b.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut a).await.unwrap().ty, 101);
        assert_eq!(reply(&mut b).await.unwrap().ty, 101);
        sleep(Duration::from_millis(200)).await;
        tok.cancel();
        let t = std::time::Instant::now();
        serve.await.unwrap();
        assert!(t.elapsed() > Duration::from_millis(1800), "serve returned while a request was being processed");
        assert!(reply(&mut a).await.expect("an ACK").is_ack(1, 1));
    });
}
""")

# ---------------------------------------------------------------- C08
bug("c08-shared-token", "C08",
    "a connection that ends with an error while others are open",
    "All connections share the agent's cancellation token: one that fails and cancels it shuts the whole agent down, with every other connection.",
    [("spoa/src/agent.rs", "self.shutdown.token.child_token()", "self.shutdown.token.clone()")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(rt, l).unwrap());
        tokio::spawn(async move { agent.serve().await.unwrap() });
        let mut a = tokio::net::TcpStream::connect(addr).await.unwrap();
        a.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut a).await.unwrap().ty, 101);
        let mut b = tokio::net::TcpStream::connect(addr).await.unwrap();
        b.write_all(&[hello(), frame(77, 1, 0, 0, &[])].concat()).await.unwrap();
        assert_eq!(reply(&mut b).await.unwrap().ty, 101);
        assert_eq!(reply(&mut b).await.unwrap().code(), 4);
        sleep(Duration::from_millis(200)).await;
        let _ = a.write_all(&notify(1, 1, 1)).await;
        assert!(reply(&mut a).await.expect("an ACK").is_ack(1, 1));
    });
}
""")

bug("c08-permits", "C08",
    "32 connections that stay open, and one more",
    "The number of connections served at a time is limited: idle or stuck ones keep later ones from being served.",
    [("spoa/src/agent.rs", """                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        conn.serve().await
                    }))?;
""", """                    let slots = slots.clone();

                    tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
                        let slot = slots.acquire_owned().await;
                        let res = conn.serve().await;

                        drop(slot);
                        res
                    }))?;
"""),
     ("spoa/src/agent.rs", """    pub async fn serve(&self) -> Result<()> {
        loop {
""", """    pub async fn serve(&self) -> Result<()> {
        let slots = Arc::new(tokio::sync::Semaphore::new(MAX_CONNS));

        loop {
"""),
     ("spoa/src/agent.rs", """#[derive(Debug)]
pub struct Agent<S, T> {
""", """/// How many connections are served at a time.
const MAX_CONNS: usize = 32;

#[derive(Debug)]
pub struct Agent<S, T> {
""")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(rt, l).unwrap());
        tokio::spawn(async move { agent.serve().await.unwrap() });
        let mut silent = vec![];
        for _ in 0..40 {
            silent.push(tokio::net::TcpStream::connect(addr).await.unwrap());
        }
        sleep(Duration::from_millis(100)).await;
        let mut a = tokio::net::TcpStream::connect(addr).await.unwrap();
        a.write_all(&hello()).await.unwrap();
        let r = reply_in(&mut a, Duration::from_secs(3)).await.expect("an answer").unwrap();
        assert_eq!(r.ty, 101);
    });
}
""")

# ---------------------------------------------------------------- C09
bug("c09-gives-up", "C09",
    "twenty accepts in a row that fail",
    "After a number of failed accepts in a row the agent gives up accepting, as if it had been asked to shut down.",
    [("spoa/src/agent.rs", """    pub async fn serve(&self) -> Result<()> {
        loop {
""", """    pub async fn serve(&self) -> Result<()> {
        let mut failures = 0;

        while failures < MAX_ACCEPT_FAILURES {
"""),
     ("spoa/src/agent.rs", """                        Ok(accepted) => accepted,
                        Err(err) => {
""", """                        Ok(accepted) => {
                            failures = 0;
                            accepted
                        }
                        Err(err) => {
                            failures += 1;
"""),
     ("spoa/src/agent.rs", """/// The error concerns""", """/// How many accepts may fail in a row.
const MAX_ACCEPT_FAILURES: usize = 20;

/// The error concerns""")],
    """
extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

fn limit(n: u64) {
    // RLIMIT_NOFILE
    assert_eq!(unsafe { setrlimit(7, &[n, 4096]) }, 0);
}

fn main() {
    real(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Arc::new(Agent::new(rt, l).unwrap());
        tokio::spawn(async move { agent.serve().await.unwrap() });
        sleep(Duration::from_millis(50)).await;
        // no descriptor is left when the connection is accepted
        let mut a = std::net::TcpStream::connect(addr).unwrap();
        let free = std::os::fd::AsRawFd::as_raw_fd(&std::fs::File::open("/dev/null").unwrap());
        limit(free as u64);
        sleep(Duration::from_millis(3500)).await;
        limit(1024);
        sleep(Duration::from_millis(300)).await;
        use std::io::{Read, Write};
        let mut b = std::net::TcpStream::connect(addr).unwrap();
        for (n, c) in [&mut b, &mut a].into_iter().enumerate() {
            c.set_nonblocking(true).unwrap();
            c.write_all(&hello()).unwrap();
            let mut ok = false;
            for _ in 0..50 {
                sleep(Duration::from_millis(50)).await;
                if matches!(c.read(&mut [0; 5]), Ok(5)) {
                    ok = true;
                    break;
                }
            }
            assert!(ok, "connection {n} is not accepted");
        }
    });
}
""")

# ---------------------------------------------------------------- C10
bug("c10-lossy-strings", "C10",
    "a string (or a name) in a frame that is not valid UTF-8",
    "Malformed text is mended with replacement characters and delivered instead of being refused.",
    [("spop/src/data/buf.rs", "        String::from_utf8(b.to_vec()).ok()\n", "        Some(String::from_utf8_lossy(&b).into_owned())\n")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        let mut p = text("m");
        p.push(1);
        p.extend(text("s"));
        p.push(8);
        p.extend([3, b'a', 0xff, b'b']);
        c.write_all(&[hello(), frame(3, 1, 1, 1, &p)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert_eq!(r.code(), 4);
        assert!(rest(&mut c).await.is_empty());
    });
}
""")

bug("c10-short-header", "C10",
    "a frame of two to four bytes",
    "A frame that ends within its flags makes the reader panic.",
    [("spop/src/frame/decode.rs", "let flags = (buf.remaining() >= mem::size_of::<u32>())\n", "let flags = buf\n        .has_remaining()\n"),
     ("spop/src/frame/decode.rs", "use std::mem;\n", "")],
    """
fn main() {
    simulated(async {
        for n in 1..=6u8 {
            let mut bytes = vec![0, 0, 0, n, 3];
            bytes.extend(vec![0; n as usize - 1]);
            let (mut ours, theirs) = duplex(1000);
            ours.write_all(&bytes).await.unwrap();
            let mut codec = Codec::new(theirs, Framer::new(1000));
            assert!(codec.read_frame().await.is_err());
        }
    });
}
""")

# ---------------------------------------------------------------- C11
bug("c11-exact-limit", "C11",
    "a frame of exactly the maximum size",
    "A frame that is exactly as long as the limit allows is refused as too big.",
    [("spop/src/frame/framer.rs", "if len <= self.max_frame_size {", "if len < self.max_frame_size {")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut p = text("m");
        p.push(1);
        p.extend(text("s"));
        p.push(9);
        p.extend(varint(500));
        p.extend(vec![7; 500]);
        let f = frame(3, 1, 1, 1, &p);
        let mut c = connect!(rt);
        c.write_all(&[hello_with("2.0", f.len() as u64 - 4, "", &[]), f].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert!(r.is_ack(1, 1), "{r:?}");
    });
}
""")

bug("c11-floor", "C11",
    "a peer that announces a maximum frame size below 256",
    "A floor on the negotiated frame size lets the agent announce, send and accept frames above the limit its peer gave.",
    [("spoa/src/state/handshake.rs", "let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);", "let max_frame_size = hello.max_frame_size.clamp(256.min(max_frame_size), max_frame_size);"),
     ("spoa/src/state/handshake.rs", "use std::cmp;\n", "")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(
            services!(|_: Vec<Message>| async move { Ok::<_, String>(set(&"x".repeat(150))) }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello_with("2.0", 128, "", &[]), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert_eq!(r.code(), 3);
    });
}
""")

# ---------------------------------------------------------------- C12
bug("c12-padded-tail", "C12",
    "a peer that closes the connection in the middle of the payload of a frame, where the rest may as well be zeros",
    "A frame cut short by the end of the stream is filled up with zeros and acted upon.",
    [("spop/src/frame/framer.rs", """    r.read_exact(&mut buf).await.map_err(|_| Io)?;
""", """    let mut filled = 0;
    while filled < len {
        match r.read(&mut buf[filled..]).await.map_err(|_| Io)? {
            0 if filled == 0 => return Err(Io),
            0 => break,
            n => filled += n,
        }
    }
""")],
    """
fn main() {
    simulated(async {
        let called = Arc::new(AtomicUsize::new(0));
        let n = called.clone();
        let rt = builder().make_service(
            services!(move |_: Vec<Message>| {
                n.fetch_add(1, SeqCst);
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let f = notify(1, 1, 0);
        c.write_all(&f[..f.len() - 1]).await.unwrap();
        c.shutdown().await.unwrap();
        rest(&mut c).await;
        assert_eq!(called.load(SeqCst), 0);
    });
}
""")

bug("c12-take-to-end", "C12",
    "a stream that ends within a frame, exactly between two of its messages",
    "A frame cut short by the end of the stream is decoded as far as it goes: what was received of its messages is handed to the service as if it were the whole request.",
    [("spop/src/frame/framer.rs", """    let mut buf = BytesMut::with_capacity(max_frame_size);
    buf.resize(len, 0);

    r.read_exact(&mut buf).await.map_err(|_| Io)?;

    Ok(buf.freeze())""", """    let mut buf = Vec::with_capacity(max_frame_size);

    (&mut r)
        .take(len as u64)
        .read_to_end(&mut buf)
        .await
        .map_err(|_| Io)?;

    if buf.is_empty() {
        return Err(Io);
    }

    Ok(buf.into())""")],
    """
fn main() {
    simulated(async {
        let called = Arc::new(AtomicUsize::new(0));
        let n = called.clone();
        let rt = builder().make_service(
            services!(move |_: Vec<Message>| {
                n.fetch_add(1, SeqCst);
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let f = frame(3, 1, 1, 1, &[msg(1), msg(2)].concat());
        c.write_all(&f[..f.len() - msg(2).len()]).await.unwrap();
        c.shutdown().await.unwrap();
        rest(&mut c).await;
        assert_eq!(called.load(SeqCst), 0);
    });
}
""")

# ---------------------------------------------------------------- C13
bug("c13-check-then-insert", "C13",
    "two threads that dispatch the first two fragments of one request at the same time",
    "Looking up a request and inserting it became two steps: two threads may both find it missing, and the request gets two processing entries.",
    [("spoa/src/runtime/dispatch.rs", "            match self.receiving.entry(key) {\n                Entry::Vacant(e) => {", "            match self.receiving.get(&key).map(|e| e.clone()) {\n                None => {"),
     ("spoa/src/runtime/dispatch.rs", "                        e.insert(sender.clone());", "                        self.receiving.insert(key, sender.clone());"),
     ("spoa/src/runtime/dispatch.rs", """                Entry::Occupied(e) => {
                    let sender = if notify.fragmented {
                        e.get().clone()
                    } else {
                        e.remove()
                    };
""", """                Some(sender) => {
                    if !notify.fragmented {
                        self.receiving.remove(&key);
                    }
"""),
     ("spoa/src/runtime/dispatch.rs", "use dashmap::{DashMap, Entry};", "use dashmap::DashMap;")],
    """
fn main() {
    use futures::StreamExt;
    // two threads run into each other sooner or later
    let mut twice = 0;
    let end = std::time::Instant::now() + Duration::from_secs(25);
    while std::time::Instant::now() < end {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let gate = std::sync::Barrier::new(2);
        std::thread::scope(|s| {
            for n in 0..2 {
                let (d, gate) = (&d, &gate);
                s.spawn(move || {
                    gate.wait();
                    let _ = d.recieve_messages(HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 1, messages: vec![Message::new("m", [("n", n as u64)])] });
                });
            }
        });
        drop(d);
        let mut p = Processor(rx);
        let n = futures::executor::block_on(async {
            let mut n = 0;
            while let Some((_acker, _msgs)) = p.next().await {
                n += 1;
            }
            n
        });
        if n != 1 {
            twice += 1;
            break;
        }
    }
    assert_eq!(twice, 0, "one request has two entries");
}
""")

bug("c13-order", "C13",
    "fragments of one request dispatched by one thread after the other, with many messages",
    "The messages of a later fragment may overtake: the final fragment's messages are sent in reverse.",
    [("spoa/src/runtime/dispatch.rs", "        for msg in notify.messages {\n", "        let mut messages = notify.messages;\n\n        // the last fragment is drained from its end\n        if !notify.fragmented {\n            messages.reverse();\n        }\n\n        for msg in messages {\n")],
    """
fn main() {
    use futures::StreamExt;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let m = |n: u64| Message::new("m", [("n", n)]);
    let _ = d.recieve_messages(HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 1, messages: vec![m(1), m(2)] }).unwrap();
    let _ = d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![m(3), m(4)] }).unwrap();
    let mut p = Processor(rx);
    futures::executor::block_on(async {
        let (_acker, msgs) = p.next().await.unwrap();
        let got: Vec<_> = msgs.collect().await;
        assert_eq!(numbers(&got), [1, 2, 3, 4]);
    });
}
""")

# ---------------------------------------------------------------- C14
bug("c14-endless-stream", "C14",
    "a request in several fragments, whose consumer waits for the end of its message stream",
    "The sender of a request's messages stays in the table after the final fragment, so that its message stream never ends and whoever waits for the end is never woken.",
    [("spoa/src/runtime/dispatch.rs", """                    let sender = if notify.fragmented {
                        e.get().clone()
                    } else {
                        e.remove()
                    };
""", """                    let sender = e.get().clone();
""")],
    """
fn main() {
    use futures::StreamExt;
    real(async {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let m = |n: u64| Message::new("m", [("n", n)]);
        let _ = d.recieve_messages(HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 1, messages: vec![m(1)] }).unwrap();
        let mut p = Processor(rx);
        let (_acker, mut msgs) = p.next().await.unwrap();
        assert!(msgs.next().await.is_some());
        let _ = d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![m(2)] }).unwrap();
        assert!(msgs.next().await.is_some());
        let end = timeout(Duration::from_secs(2), msgs.next()).await.expect("the end of the stream");
        assert!(end.is_none());
    });
}
""")

# ---------------------------------------------------------------- C15
bug("c15-two-steps", "C15",
    "two threads that add fragments of one request to a shared table at the same time",
    "Adding a fragment is a lookup followed by an insertion: two threads may both find no entry, and one of the fragments is lost.",
    [("spop/src/frame/fragment.rs", """            Entry::Vacant(e) => {
                if fragmented {
                    e.insert(value);

                    Ok(None)""", """            Entry::Vacant(e) => {
                if fragmented {
                    // hold the shard for the insertion only
                    drop(e);
                    self.0.insert(key, value);

                    Ok(None)""")],
    """
fn main() {
    let end = std::time::Instant::now() + Duration::from_secs(25);
    while std::time::Instant::now() < end {
        let r = Reassembly::<u64>::default();
        let gate = std::sync::Barrier::new(2);
        std::thread::scope(|s| {
            for n in 0..2 {
                let (r, gate) = (&r, &gate);
                s.spawn(move || {
                    gate.wait();
                    assert!(r.reassemble(true, 1, 1, vec![n]).unwrap().is_none());
                });
            }
        });
        let mut all = r.reassemble(false, 1, 1, vec![2]).unwrap().unwrap();
        all.sort();
        assert_eq!(all, [0, 1, 2]);
    }
}
""")

bug("c15-take-and-put", "C15",
    "a fragment added by one thread while another completes the request",
    "The entry is taken out while a fragment is appended and put back afterwards: a completion in between sees nothing of the request, whose fragments then stay behind.",
    [("spop/src/frame/fragment.rs", """                if fragmented {
                    e.get_mut().append(&mut value);

                    Ok(None)""", """                if fragmented {
                    let mut v = e.remove();
                    v.append(&mut value);
                    self.0.insert(key, v);

                    Ok(None)"""),
     ("spop/src/frame/fragment.rs", "Entry::Occupied(mut e) => {", "Entry::Occupied(e) => {")],
    """
fn main() {
    let end = std::time::Instant::now() + Duration::from_secs(25);
    while std::time::Instant::now() < end {
        let r = Reassembly::<u64>::default();
        r.reassemble(true, 1, 1, (0..40).collect()).unwrap();
        let gate = std::sync::Barrier::new(2);
        let got = std::thread::scope(|s| {
            let (r, gate) = (&r, &gate);
            s.spawn(move || {
                gate.wait();
                r.reassemble(true, 1, 1, vec![40]).unwrap();
            });
            let done = s.spawn(move || {
                gate.wait();
                r.reassemble(false, 1, 1, vec![41]).unwrap().unwrap()
            });
            done.join().unwrap()
        });
        assert!(got.len() >= 41, "the request lost its first fragments: {got:?}");
    }
}
""")

# ---------------------------------------------------------------- C16
bug("c16-ready-once", "C16",
    "a second request on a connection whose service is not ready at once",
    "Readiness is asked for before the first call only and taken for granted after that.",
    [("spoa/src/state/process.rs", """    pub service: S::Service,
    pub reassembly: Option<Reassembly<Message>>,
}

impl""", """    pub service: Box<S::Service>,
    pub reassembly: Option<Reassembly<Message>>,
    pub ready: bool,
}

impl"""),
     ("spoa/src/state/process.rs", """            service,
            reassembly,
        }
    }""", """            service: Box::new(service),
            reassembly,
            ready: false,
        }
    }"""),
     ("spoa/src/state/process.rs", "                        poll_fn(|cx| self.service.poll_ready(cx)).await?;\n", "                        if !self.ready {\n                            poll_fn(|cx| self.service.poll_ready(cx)).await?;\n                            self.ready = true;\n                        }\n")],
    """
use std::task::{Context, Poll};

struct Once(bool);

impl Service<Vec<Message>> for Once {
    type Response = Vec<Action>;
    type Error = String;
    type Future = std::future::Ready<Result<Vec<Action>, String>>;

    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), String>> {
        self.0 = true;
        Poll::Ready(Ok(()))
    }

    fn call(&mut self, _: Vec<Message>) -> Self::Future {
        let ready = std::mem::take(&mut self.0);
        std::future::ready(if ready { Ok(set("x")) } else { Err("not ready".into()) })
    }
}

fn main() {
    simulated(async {
        let rt = builder().make_service(service_fn(|_: ()| async { Ok::<_, Infallible>(Once(false)) }), ());
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1), notify(1, 2, 2)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        let r = reply(&mut c).await.unwrap();
        assert!(r.is_ack(1, 2), "{r:?}");
    });
}
""")

# ---------------------------------------------------------------- C17
bug("c17-single-write", "C17",
    "a transport that takes only part of a frame at a time",
    "A reply is handed to the transport with one write, and what the transport does not take at once is never sent.",
    [("spop/src/frame/framer.rs", "w.write_all(&buf).await.map_err(|_| Io)?;", "w.write(&buf).await.map_err(|_| Io)?;")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("some-name")) }), ());
        let (mut c, theirs) = duplex(16);
        let mut conn = Connection::new(rt, theirs, tokio_util::sync::CancellationToken::new());
        tokio::task::spawn_local(async move {
            let _ = conn.serve().await;
        });
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
    });
}
""")

bug("c17-corked-acks", "C17",
    "a request that arrives together with the beginning of another one, whose rest only comes after the first one's ACK",
    "ACKs are held back while input is still buffered, to keep the peer from being answered frame by frame: when only part of a further frame is buffered, the ACK waits for the rest of it.",
    [("spop/src/frame/codec.rs", """            framer,
        }
    }
}

#[derive(Debug)]""", """            framer,
        }
    }

    /// Whether more input has arrived already.
    pub fn has_input(&self) -> bool {
        !self.stream.buffer().is_empty()
    }
}

#[derive(Debug)]"""),
     ("spoa/src/conn.rs", "    codec: BufCodec<IO>,\n", "    codec: BufCodec<IO>,\n    held: Option<Frame>,\n"),
     ("spoa/src/conn.rs", "        Connection { codec, state, tok }", "        Connection {\n            codec,\n            held: None,\n            state,\n            tok,\n        }"),
     ("spoa/src/conn.rs", "                    match res {\n                        Ok((next, reply)) => {\n", """                    if let Some(ack) = self.held.take() {
                        self.codec.write_frame(ack).await?;
                    }

                    match res {
                        Ok((next, mut reply)) => {
                            // more requests to answer: send their replies together
                            if matches!(reply, Some(Frame::AgentAck(_))) && self.codec.has_input() {
                                self.held = reply.take();
                            }

"""),
     ],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let second = notify(1, 2, 2);
        c.write_all(&[notify(1, 1, 1), second[..6].to_vec()].concat()).await.unwrap();
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        c.write_all(&second[6..]).await.unwrap();
        assert!(reply(&mut c).await.unwrap().is_ack(1, 2));
    });
}
""")

# ---------------------------------------------------------------- C18
bug("c18-healthcheck-false", "C18",
    "a HELLO whose healthcheck item is present with the value false",
    "A HELLO with healthcheck = false is written without that item, so it is not read back as it was.",
    [("spop/src/frame/encode.rs", "    if let Some(healthcheck) = hello.healthcheck {\n", "    if let Some(healthcheck) = hello.healthcheck.filter(|&h| h) {\n")],
    """
fn main() {
    simulated(async {
        for healthcheck in [None, Some(true), Some(false)] {
            let f = Frame::HaproxyHello(HaproxyHello {
                supported_versions: vec![Version::V2_0],
                max_frame_size: 1000,
                capabilities: vec![Capability::Pipelining],
                healthcheck,
                engine_id: None,
            });
            let (a, b) = duplex(1000);
            let (mut w, mut r) = (Codec::new(a, Framer::new(1000)), Codec::new(b, Framer::new(1000)));
            w.write_frame(f.clone()).await.unwrap();
            assert_eq!(r.read_frame().await.unwrap(), f);
        }
    });
}
""")

bug("c18-abort-flag", "C18",
    "an ACK that is both fragmented and aborted",
    "An aborted ACK that is not the final fragment loses its ABORT flag when it is written.",
    [("spop/src/frame/agent.rs", """            flags: if self.fragmented {
                Flags::empty()
            } else {
                Flags::FIN
            } | if self.aborted {
                Flags::ABORT
            } else {
                Flags::empty()
            },""", """            flags: match (self.fragmented, self.aborted) {
                (true, _) => Flags::empty(),
                (false, true) => Flags::FIN | Flags::ABORT,
                (false, false) => Flags::FIN,
            },""")],
    """
fn main() {
    simulated(async {
        for fragmented in [false, true] {
            for aborted in [false, true] {
                let f = Frame::AgentAck(AgentAck { fragmented, aborted, stream_id: 1, frame_id: 2, actions: set("x") });
                let (a, b) = duplex(1000);
                let (mut w, mut r) = (Codec::new(a, Framer::new(1000)), Codec::new(b, Framer::new(1000)));
                w.write_frame(f.clone()).await.unwrap();
                assert_eq!(r.read_frame().await.unwrap(), f);
            }
        }
    });
}
""")

# ---------------------------------------------------------------- C19
bug("c19-healthcheck-open", "C19",
    "a health check whose peer does not close the connection first",
    "After a health check the connection goes back to waiting for a HELLO instead of being closed, and stays open for as long as its peer likes.",
    [("spoa/src/state/connect.rs", """        let next = if is_healthcheck {
            State::Disconnecting
        } else {""", """        let next = if is_healthcheck {
            State::new(runtime)
        } else {""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        let mut extra = text("healthcheck");
        extra.push(0x11);
        c.write_all(&hello_with("2.0", 16380, "", &extra)).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(rest(&mut c).await.is_empty());
    });
}
""")

# ---------------------------------------------------------------- later additions
bug("c01-dedupe", "C01",
    "two requests in a row with the same ids, as a peer may send once the first was answered",
    "A request with the ids of the one before it is taken for a repetition and gets no ACK of its own.",
    [("spoa/src/state/process.rs", "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    pub acked: Option<(u64, u64)>,\n}"),
     ("spoa/src/state/process.rs", "            reassembly,\n        }\n", "            reassembly,\n            acked: None,\n        }\n"),
     ("spoa/src/state/process.rs", "                                Ok((self.into(), Some(ack)))",
      """                                let id = (stream_id, frame_id);
                                let fresh = self.acked.replace(id) != Some(id);

                                Ok((self.into(), fresh.then_some(ack)))""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        for n in [1, 2, 2, 1] {
            c.write_all(&notify(7, n, n)).await.unwrap();
            assert!(reply(&mut c).await.expect("an ACK").is_ack(7, n));
        }
    });
}
""")

bug("c02-long-strings", "C02",
    "a frame size above 64 KiB and an argument of more than 65535 bytes",
    "Lengths of strings and binary values are cut to 16 bits when they are read, so that a long argument loses its end and what follows is misread.",
    [("spop/src/data/buf.rs", ".and_then(|n| get_bytes(buf, n as usize))", ".and_then(|n| get_bytes(buf, n as u16 as usize))")],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().max_frame_size(100_000).make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(msgs);
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        let data: Vec<u8> = (0..70_000u32).map(|n| n as u8).collect();
        let mut p = text("m");
        p.push(1);
        p.extend(text("data"));
        p.push(9);
        p.extend(varint(70_000));
        p.extend(&data);
        c.write_all(&hello_with("2.0", 100_000, "", &[])).await.unwrap();
        c.write_all(&frame(3, 1, 1, 1, &p)).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        assert!(seen.lock().unwrap()[0][0].args == [("data".to_string(), Typed::Binary(Bytes::from(data)))]);
    });
}
""")

bug("c03-one-capability", "C03",
    "an agent built with several calls of Builder::capability",
    "Every call of Builder::capability replaces the capabilities given before, so that only the last one is ever negotiated.",
    [("spoa/src/runtime/builder.rs", "    pub fn capability(mut self, cap: Capability) -> Self {\n        self.capabilities.insert(cap);",
      "    pub fn capability(mut self, cap: Capability) -> Self {\n        self.capabilities = HashSet::from([cap]);")],
    """
fn main() {
    simulated(async {
        let rt = Builder::new()
            .capability(Capability::Fragmentation)
            .capability(Capability::Pipelining)
            .make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        let r = reply(&mut c).await.unwrap();
        assert!(r.has("fragmentation") && r.has("pipelining"), "{r:?}");
    });
}
""")

bug("c05-wrapped-limit", "C05",
    "a processing limit of more than 49 days, used for no limit at all",
    "The configured processing time is kept in 32 bits of milliseconds: a limit meant as none wraps around to a short one, and requests are timed out that should not be.",
    [("spoa/src/runtime/builder.rs", "            self.max_process_time.unwrap_or(MAX_PROCESS_TIME),",
      "            self.max_process_time\n                .map(|d| Duration::from_millis(d.as_millis() as u32 as u64))\n                .unwrap_or(MAX_PROCESS_TIME),")],
    """
fn main() {
    simulated(async {
        let rt = builder().max_process_time(Duration::from_millis((1 << 32) + 10)).make_service(
            services!(|_: Vec<Message>| async move {
                sleep(Duration::from_secs(5)).await;
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
    });
}
""")

bug("c06-narrow-key", "C06",
    "fragments of two requests, interleaved, whose frame ids differ by a multiple of 2^32",
    "The table of fragments looks at the low 32 bits of the frame id only, so that the fragments of two requests are mixed.",
    [("spop/src/frame/fragment.rs", "self.0.reassemble(fragmented, (stream_id, frame_id), value)",
      "let key = (stream_id, frame_id as u32 as FrameId);\n\n        self.0.reassemble(fragmented, key, value)")],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(numbers(&msgs));
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let far = 1 + (1 << 32);
        let mut c = connect!(rt);
        c.write_all(&[hello(), fragment(false, 1, 1, 1), fragment(false, 1, far, 2), fragment(true, 1, 1, 3), fragment(true, 1, far, 4)].concat())
            .await
            .unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
        assert!(reply(&mut c).await.unwrap().is_ack(1, far));
        assert_eq!(*seen.lock().unwrap(), [vec![1, 3], vec![2, 4]]);
    });
}
""")

bug("c08-peek", "C08",
    "a client that connects and sends nothing, with others connecting after it",
    "The accept loop waits for the first byte of a connection before it goes on, so that one silent client keeps all others out.",
    [("spoa/src/agent.rs", """                    trace!(?peer, "accepted connection");
""", """                    // whether anybody is there at all
                    let alive = stream.peek(&mut [0]).await.is_ok();
                    trace!(?peer, alive, "accepted connection");
""")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Agent::new(rt, l).unwrap();
        tokio::task::spawn_local(async move { agent.serve().await.map_err(|e| e.to_string()) });
        let _silent = tokio::net::TcpStream::connect(addr).await.unwrap();
        sleep(Duration::from_millis(200)).await;
        let mut c = tokio::net::TcpStream::connect(addr).await.unwrap();
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply_in(&mut c, Duration::from_secs(5)).await.expect("an answer").unwrap().ty, 101);
    });
}
""")

bug("c14-budget", "C14",
    "a request of at least 64 messages whose consumer waits for them in one go",
    "To be fair to others the stream of messages pretends to be empty at every 64th poll, but arranges for nobody to wake its consumer.",
    [("spoa/src/runtime/processor.rs", "pub struct Messages(UnboundedReceiver<Message>);", "pub struct Messages(UnboundedReceiver<Message>, usize);\n\n/// Messages handed out before others get a chance.\nconst BUDGET: usize = 64;"),
     ("spoa/src/runtime/processor.rs", "Messages(receiver)", "Messages(receiver, 0)"),
     ("spoa/src/runtime/processor.rs", """    type Item = Message;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
""", """    type Item = Message;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
        self.1 += 1;
        if self.1 % BUDGET == 0 {
            return Poll::Pending;
        }

""")],
    """
fn main() {
    use futures::StreamExt;
    real(async {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let messages = (0..200u64).map(|n| Message::new("m", [("n", n)])).collect();
        let _ = d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages }).unwrap();
        let mut p = Processor(rx);
        let (_acker, msgs) = p.next().await.unwrap();
        let all: Vec<_> = timeout(Duration::from_secs(2), msgs.collect()).await.expect("all messages");
        assert_eq!(all.len(), 200);
    });
}
""")

bug("c20-empty-value", "C20",
    "a header with an empty value that is not the last one",
    "A header whose value is empty is taken for the end of the block, and all headers after it are lost.",
    [("spoa/src/req.rs", "if k.is_empty() && v.is_empty() {", "if k.is_empty() || v.is_empty() {")],
    """
fn main() {
    let mut b = vec![];
    for (k, v) in [("host", "example.com"), ("x-empty", ""), ("cookie", "a=b")] {
        b.extend(text(k));
        b.extend(text(v));
    }
    b.extend([0, 0]);
    let h = haproxy_spoa::req::hdrs_bin(&b[..]).unwrap();
    assert_eq!(h.len(), 3);
    assert_eq!(h["x-empty"], "");
    assert_eq!(h["cookie"], "a=b");
}
""")

bug("c21-big-buffer", "C21",
    "a peer that sends requests without end while one is being processed",
    "The read buffer of every connection takes in a megabyte of requests ahead of the one being processed, rather than holding its peer back.",
    [("spop/src/frame/codec.rs", "            stream: BufReader::new(stream),", "            // saves system calls\n            stream: BufReader::with_capacity(1 << 20, stream),")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(
            services!(|msgs: Vec<Message>| async move {
                if numbers(&msgs) == [1] {
                    std::future::pending::<()>().await;
                }
                Ok::<_, String>(set("x"))
            }),
            (),
        );
        // the stream between the two keeps a megabyte
        let mut c = connect!(rt);
        let more = notify(1, 2, 2).repeat(1000);
        let mut first = [hello(), notify(1, 1, 1)].concat();
        while first.len() + more.len() < 1 << 20 {
            first.extend(&more);
        }
        c.write_all(&first).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let mut taken = first.len();
        while timeout(Duration::from_secs(1), c.write_all(&more)).await.is_ok() {
            taken += more.len();
            assert!(taken < (1 << 20) + 400_000, "{taken} bytes were taken in");
        }
    });
}
""")

bug("c21-prealloc", "C21",
    "a short frame that announces a string of some gigabytes",
    "Memory for a string is reserved as announced, before it is known whether the frame has that much: a few bytes make the agent reserve gigabytes.",
    [("spop/src/data/buf.rs", "    (buf.remaining() >= n).then(|| buf.copy_to_bytes(n))",
      """    let mut b = Vec::new();
    b.try_reserve_exact(n).ok()?;

    (buf.remaining() >= n).then(|| {
        b.resize(n, 0);
        buf.copy_to_slice(&mut b);
        b.into()
    })""")],
    """
use std::alloc::{GlobalAlloc, Layout, System};
struct Watch;
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MOST.fetch_max(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static WATCH: Watch = Watch;

fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        c.write_all(&frame(3, 1, 1, 1, &varint(3 << 30))).await.unwrap();
        reply(&mut c).await.unwrap().code();
    });
    assert!(MOST.load(SeqCst) < 64 << 20, "{} bytes at once", MOST.load(SeqCst));
}
""")

bug("c01-u16-sequence", "C01",
    "a connection that carries more than 65535 frames",
    "The requests of a connection are counted with 16 bits, and those beyond the last number are dropped without an answer.",
    [("spoa/src/state/process.rs", "    pub reassembly: Option<Reassembly<Message>>,\n}", "    pub reassembly: Option<Reassembly<Message>>,\n    pub handled: u16,\n}"),
     ("spoa/src/state/process.rs", "            reassembly,\n        }\n    }", "            reassembly,\n            handled: 0,\n        }\n    }"),
     ("spoa/src/state/process.rs", "                if let Some(msgs) = msgs {\n", """                if let (Some(msgs), Some(handled)) = (msgs, self.handled.checked_add(1)) {
                    self.handled = handled;

""")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(vec![]) }), ());
        let c = connect!(rt);
        let (mut r, mut w) = tokio::io::split(c);
        tokio::task::spawn_local(async move {
            w.write_all(&hello()).await.unwrap();
            for n in 0..66_000 {
                w.write_all(&notify(1, 1 + n, n)).await.unwrap();
            }
            std::future::pending::<()>().await
        });
        assert_eq!(reply(&mut r).await.unwrap().ty, 101);
        for n in 0..66_000 {
            assert!(reply(&mut r).await.unwrap().is_ack(1, 1 + n));
        }
    });
}
""")

bug("c08-many-peers", "C08",
    "more than 256 connections open at the same time, all but one of them idle",
    "Idle connections use up the places there are, and a connection beyond them is turned away.",
    [("spoa/src/agent.rs", """                    trace!(?peer, "accepted connection");
""", """                    let open = self.shutdown.tracker.len();

                    trace!(?peer, open, "accepted connection");

                    if open >= 256 {
                        continue;
                    }
""")],
    """
fn main() {
    real(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(vec![]) }), ());
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let agent = Agent::new(rt, l).unwrap();
        tokio::task::spawn_local(async move { agent.serve().await.unwrap() });
        let mut idle = vec![];
        for _ in 0..300 {
            idle.push(tokio::net::TcpStream::connect(addr).await.unwrap());
            tokio::task::yield_now().await;
        }
        let mut c = tokio::net::TcpStream::connect(addr).await.unwrap();
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        let ok = reply_in(&mut c, Duration::from_secs(20)).await.expect("not served").unwrap();
        assert_eq!(ok.ty, 101);
        assert!(reply(&mut c).await.unwrap().is_ack(1, 1));
    });
}
""")

bug("c20-many-headers", "C20",
    "a block of more than 128 headers",
    "All headers of a request beyond the first 128 are dropped.",
    [("spoa/src/req.rs", "if k.is_empty() && v.is_empty() {", "if k.is_empty() && v.is_empty() || hdrs.len() >= 128 {")],
    """
fn main() {
    let mut b = vec![];
    for n in 0..200 {
        b.extend(text(&format!("x-{n}")));
        b.extend(text("v"));
    }
    b.extend([0, 0]);
    let h = haproxy_spoa::req::hdrs_bin(&b[..]).unwrap();
    assert_eq!(h.len(), 200);
}
""")

bug("c11-rounded-limit", "C11",
    "a frame longer than the maximum by less than the rounding",
    "The limit of received frames is rounded up to a multiple of sixteen bytes, so that frames somewhat too big are accepted.",
    [("spop/src/frame/framer.rs", "if len <= self.max_frame_size {", "if len <= self.max_frame_size.next_multiple_of(16) {")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut p = text("m");
        p.push(1);
        p.extend(text("s"));
        p.push(9);
        p.extend(varint(600));
        p.extend(vec![7; 600]);
        let f = frame(3, 1, 1, 1, &p);
        let mut limit = f.len() as u64 - 5;
        while limit % 16 == 0 {
            limit -= 1;
        }
        let mut c = connect!(rt);
        c.write_all(&[hello_with("2.0", limit, "", &[]), f].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert_eq!((r.ty, r.code()), (102, 3), "{r:?}");
    });
}
""")

bug("c13-abort-partial", "C13",
    "a request that is given up after some of its variables were set",
    "An ACK that was given up when it already had actions is sent as if it were complete.",
    [("spoa/src/runtime/acker.rs", "            ack.aborted = true;", "            ack.aborted = ack.actions.is_empty();")],
    """
fn main() {
    use futures::StreamExt;
    for set in [false, true] {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let acked = d
            .recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![Message::new("m", [("n", 1u64)])] })
            .unwrap()
            .unwrap();
        let mut p = Processor(rx);
        futures::executor::block_on(async {
            let (mut acker, _msgs) = p.next().await.unwrap();
            if set {
                acker.set_var(Scope::Session, "x", 1u64);
            }
            acker.abort().unwrap();
            assert!(acked.await.unwrap().aborted);
        });
    }
}
""")

bug("c15-handler-key", "C15",
    "a table that is handed frames and is called directly as well, for ids that differ",
    "Frames handed to a table are kept under the swapped ids: fragments of one request that come in on both ways are not put together.",
    [("spop/src/frame/fragment.rs", "                .reassemble(fragmented, (stream_id, frame_id), messages),", "                .reassemble(fragmented, (frame_id, stream_id), messages),")],
    """
fn main() {
    use futures::FutureExt;
    use haproxy_spop::AsyncHandler;
    let mut t = Reassembly::<Message>::default();
    let m = |n: u64| Message::new("m", [("n", n)]);
    let f = Frame::HaproxyNotify(HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 2, messages: vec![m(1)] });
    assert!(t.handle_frame(f).now_or_never().unwrap().unwrap().is_none());
    let all = t.reassemble(false, 1, 2, vec![m(2)]).unwrap().unwrap();
    assert_eq!(numbers(&all), [1, 2]);
}
""")

bug("c14-stale-waker", "C14",
    "a message stream that is polled by one task, found empty, and then awaited by another",
    "A stream of messages that was found empty believes that whoever asks again is the one who asked before, and does not note the new waker: the one who waits now is never woken.",
    [("spoa/src/runtime/processor.rs", "#[derive(Debug, From, Into)]\npub struct Messages(UnboundedReceiver<Message>);", "/// The messages of a request, and whether somebody waits for them.\n#[derive(Debug)]\npub struct Messages(UnboundedReceiver<Message>, bool);"),
     ("spoa/src/runtime/processor.rs", "Messages(receiver)", "Messages(receiver, false)"),
     ("spoa/src/runtime/processor.rs", """        self.0.poll_recv(cx)
    }""", """        // still nothing, and the waker is registered already
        if self.1 && self.0.is_empty() && !self.0.is_closed() {
            return Poll::Pending;
        }

        let next = self.0.poll_recv(cx);
        self.1 = next.is_pending();
        next
    }""")],
    """
fn main() {
    use futures::StreamExt;
    use std::task::{Context, Waker};
    real(async {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let d = Dispatcher::new(tx);
        let part = |fragmented, n: u64| HaproxyNotify { fragmented, stream_id: 1, frame_id: 1, messages: vec![Message::new("m", [("n", n)])] };
        let _ = d.recieve_messages(part(true, 1)).unwrap();
        let mut p = Processor(rx);
        let (_acker, mut msgs) = p.next().await.unwrap();
        msgs.next().await.unwrap();
        assert!(msgs.poll_next_unpin(&mut Context::from_waker(Waker::noop())).is_pending());
        let waiting = tokio::spawn(async move { msgs.next().await.is_some() });
        sleep(Duration::from_millis(50)).await;
        let _ = d.recieve_messages(part(false, 2)).unwrap();
        assert!(timeout(Duration::from_secs(2), waiting).await.expect("woken").unwrap());
    });
}
""")

bug("c06-full-table", "C06",
    "more than 64 requests of one connection that are incomplete at the same time",
    "A reassembly table that holds fragments of 64 requests makes room for another one by forgetting one of them.",
    [("spop/src/frame/fragment.rs", "        match self.0.entry(key) {", "        match self.make_room(key).entry(key) {"),
     ("spop/src/frame/fragment.rs", "impl<T> Table<T> {\n", """impl<T> Table<T> {
    /// The requests that may be incomplete at the same time.
    const CAPACITY: usize = 64;

    fn make_room(&self, key: (StreamId, FrameId)) -> &DashMap<(StreamId, FrameId), Vec<T>> {
        if self.0.len() > Self::CAPACITY && !self.0.contains_key(&key) {
            let other = self.0.iter().next().map(|e| *e.key());

            if let Some(other) = other {
                self.0.remove(&other);
            }
        }

        &self.0
    }

""")],
    """
fn main() {
    simulated(async {
        let seen = Arc::new(Mutex::new(vec![]));
        let s = seen.clone();
        let rt = builder().make_service(
            services!(move |msgs: Vec<Message>| {
                s.lock().unwrap().push(numbers(&msgs));
                async move { Ok::<_, String>(set("x")) }
            }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&hello()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        for k in 1..=100 {
            c.write_all(&fragment(false, k, k, k)).await.unwrap();
        }
        for k in 1..=100 {
            c.write_all(&fragment(true, k, k, 1000 + k)).await.unwrap();
            assert!(reply(&mut c).await.unwrap().is_ack(k, k));
        }
        let want: Vec<_> = (1..=100).map(|k| vec![k, 1000 + k]).collect();
        assert_eq!(*seen.lock().unwrap(), want);
    });
}
""")

bug("c03-eight-versions", "C03",
    "a HELLO that lists more than eight versions above the one both sides have",
    "Only the eight highest versions a peer offers are looked at: a peer that offers more is refused though there is a common one.",
    [("spoa/src/state/handshake.rs", "        .rev()\n        .find", "        .rev().take(8)\n        .find")],
    """
fn main() {
    simulated(async {
        let rt = builder().make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut list = "2.0".to_string();
        for n in 1..=20 {
            let mut c = connect!(rt);
            c.write_all(&hello_with(&list, 16380, "pipelining", &[])).await.unwrap();
            let r = reply(&mut c).await.unwrap();
            assert_eq!(r.ty, 101, "{list}");
            assert!(r.has("2.0"));
            list += &format!(",3.{n}");
        }
    });
}
""")

bug("c13-empty-final", "C13",
    "a request in fragments whose last fragment has no messages",
    "A final fragment without messages leaves the request open: its message stream does not end, and the next request of these ids is taken for more of it.",
    [("spoa/src/runtime/dispatch.rs", "                    let sender = if notify.fragmented {", "                    let sender = if notify.fragmented || notify.messages.is_empty() {")],
    """
fn main() {
    use futures::StreamExt;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let part = |fragmented, messages| HaproxyNotify { fragmented, stream_id: 1, frame_id: 1, messages };
    let m = |n: u64| Message::new("m", [("n", n)]);
    assert!(d.recieve_messages(part(true, vec![m(1)])).unwrap().is_some());
    assert!(d.recieve_messages(part(false, vec![])).unwrap().is_none());
    assert!(d.recieve_messages(part(false, vec![m(2)])).unwrap().is_some());
    let mut p = Processor(rx);
    futures::executor::block_on(async {
        for want in [1, 2] {
            let (_acker, msgs) = p.next().await.unwrap();
            let got: Vec<_> = msgs.collect().await;
            assert_eq!(numbers(&got), [want]);
        }
    });
}
""")

bug("c04-trimmed-text", "C04",
    "a service whose error text ends in white space",
    "The text of a DISCONNECT loses the white space at its end.",
    [("spop/src/frame/encode.rs", "    buf.put_kv(kv::message(&disconnect.message));", "    buf.put_kv(kv::message(disconnect.message.trim_end()));")],
    """
fn main() {
    simulated(async {
        for text in ["no", "no such thing\\n", "  two \\t "] {
            let rt = builder().make_service(services!(move |_: Vec<Message>| async move { Err::<Vec<Action>, _>(text.to_string()) }), ());
            let mut c = connect!(rt);
            c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
            assert_eq!(reply(&mut c).await.unwrap().ty, 101);
            let r = reply(&mut c).await.unwrap();
            assert_eq!(r.ty, 102);
            assert!(r.has(text), "{r:?}");
        }
    });
}
""")

bug("c13-last-value", "C13",
    "a request whose handler sets the same variable more than once, with something in between",
    "Setting a variable drops what was set before under the same name, so the acknowledgement does not have the actions in the order they were given.",
    [("spoa/src/runtime/acker.rs", """            ack.actions.push(Action::SetVar {
                scope,
                name: name.into(),
                value: value.into(),
            });""", """            let name = name.into();
            ack.actions
                .retain(|a| !matches!(a, Action::SetVar { scope: s, name: n, .. } if *s == scope && *n == name));
            ack.actions.push(Action::SetVar {
                scope,
                name,
                value: value.into(),
            });""")],
    """
fn main() {
    use futures::StreamExt;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let acked = d
        .recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![] })
        .unwrap()
        .unwrap();
    let mut p = Processor(rx);
    futures::executor::block_on(async {
        let (mut acker, _msgs) = p.next().await.unwrap();
        acker.set_var(Scope::Request, "x", 1u64);
        acker.unset_var(Scope::Request, "x");
        acker.set_var(Scope::Request, "x", 2u64);
        acker.complete().unwrap();
        let want = [
            Action::set_var(Scope::Request, "x", 1u64),
            Action::unset_var(Scope::Request, "x"),
            Action::set_var(Scope::Request, "x", 2u64),
        ];
        assert_eq!(acked.await.unwrap().actions, want);
    });
}
""")

bug("c13-panic-no-ack", "C13",
    "a handler that panics while it holds a request",
    "A request whose handler panics is never acknowledged: its dispatcher gets an error instead of what was set on it.",
    [("spoa/src/runtime/acker.rs", "        let _ = self.complete();", """        // what a panic left behind is not to be trusted
        if !std::thread::panicking() {
            let _ = self.complete();
        }""")],
    """
fn main() {
    use futures::StreamExt;
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
    let d = Dispatcher::new(tx);
    let acked = d
        .recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: 1, messages: vec![] })
        .unwrap()
        .unwrap();
    let mut p = Processor(rx);
    std::panic::set_hook(Box::new(|_| {}));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        futures::executor::block_on(async {
            let (mut acker, _msgs) = p.next().await.unwrap();
            acker.set_var(Scope::Request, "x", 1u64);
            panic!("the application's");
        })
    }));
    assert!(res.is_err());
    let ack = futures::executor::block_on(acked);
    std::process::exit(!matches!(ack, Ok(a) if !a.aborted && a.actions == [Action::set_var(Scope::Request, "x", 1u64)]) as i32);
}
""")

bug("c18-arg-names", "C18",
    "a message built one argument at a time that has two arguments of one name",
    "A message keeps only the last of several arguments with the same name (or none), so others arrive than were given.",
    [("spop/src/frame/msg.rs", "        self.0.args.push((name.into(), value.into()));\n        self", """        let name = name.into();
        self.0.args.retain(|(k, _)| *k != name);
        self.0.args.push((name, value.into()));
        self""")],
    """
fn main() {
    simulated(async {
        let (a, b) = duplex(1 << 16);
        let mut w = Codec::new(a, Framer::new(16380));
        let mut r = Codec::new(b, Framer::new(16380));
        let m = Message::builder("m").arg("", 1u64).arg("n", 2u64).arg("", 3u64).build();
        w.write_frame(Frame::notify(1, 1, [m])).await.unwrap();
        let Frame::HaproxyNotify(n) = r.read_frame().await.unwrap() else { panic!() };
        assert_eq!(numbers(&n.messages), [1, 2, 3]);
    });
}
""")

bug("c02-mapped-address", "C02",
    "a service that answers with an IPv4-mapped IPv6 address",
    "An IPv6 address that maps an IPv4 one arrives as an IPv4 address.",
    [("spop/src/data/typed.rs", "            IpAddr::V6(v6) => Typed::Ipv6(v6),", """            IpAddr::V6(v6) => v6
                .to_ipv4_mapped()
                .map_or(Typed::Ipv6(v6), Typed::Ipv4),""")],
    """
fn main() {
    simulated(async {
        let addr: std::net::IpAddr = "::ffff:10.1.2.3".parse().unwrap();
        let rt = builder().make_service(
            services!(move |_: Vec<Message>| async move { Ok::<_, String>(vec![Action::set_var(Scope::Request, "ip", addr)]) }),
            (),
        );
        let mut c = connect!(rt);
        c.write_all(&[hello(), notify(1, 1, 1)].concat()).await.unwrap();
        assert_eq!(reply(&mut c).await.unwrap().ty, 101);
        let r = reply(&mut c).await.unwrap();
        assert_eq!(r.payload.len(), 3 + 3 + 1 + 16, "{r:?}");
    });
}
""")

bug("c03-frame-size-16", "C03",
    "a HELLO whose max-frame-size is an INT32 of more than 65535",
    "Of a max-frame-size sent as an INT32 only the low 16 bits count, so that the agent settles for a limit that neither side named.",
    [("spop/src/frame/decode.rs", "            Typed::Int32(n) => Some(n as u64),", "            Typed::Int32(n) => Some(n as u16 as u64),")],
    """
fn main() {
    simulated(async {
        let rt = Builder::new().max_frame_size(1 << 20).make_service(services!(|_: Vec<Message>| async move { Ok::<_, String>(set("x")) }), ());
        let mut p = text("supported-versions");
        p.push(8);
        p.extend(text("2.0"));
        p.extend(text("max-frame-size"));
        p.push(2);
        p.extend(varint(100_000));
        p.extend(text("capabilities"));
        p.push(8);
        p.extend(text(""));
        let mut c = connect!(rt);
        c.write_all(&frame(1, 1, 0, 0, &p)).await.unwrap();
        let r = reply(&mut c).await.unwrap();
        assert_eq!(r.ty, 101);
        let want = [&text("max-frame-size")[..], &[3], &varint(100_000)].concat();
        assert!(r.payload.windows(want.len()).any(|w| w == want), "{r:?}");
    });
}
""")
