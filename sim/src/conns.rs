//! World B, part two: connections on threads of their own, as on a runtime with several workers.
//! They share what an agent's connections share, and nothing orders them but the scheduler.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use haproxy_spoa::runtime::Builder;
use haproxy_spoa::Connection;
use haproxy_spop::{Action, Message};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio_util::sync::CancellationToken;
use tower::Service;

use crate::agent;
use crate::conv;
use crate::ctx;
use crate::plan::{BPlan, ConnsPlan, TConn, TEnd};
use crate::rng::Rng;
use crate::spop::{self, Act, Body, Msg, RFrame, Val};
use crate::svc::AppError;
use crate::threads::{self, report};

/// What became of one connection.
#[derive(Default, Debug)]
pub struct ConnLog {
    made: usize,
    dropped: usize,
    calls: Vec<Vec<Msg>>,
    out: Vec<u8>,
    /// The transport was dropped.
    closed: bool,
    served: bool,
}

thread_local! {
    static CONN: Cell<Option<usize>> = const { Cell::new(None) };
}

fn rec(conn: usize, f: impl FnOnce(&mut ConnLog)) {
    report(|l, _| f(l.conns.entry(conn).or_default()));
}

/// Is not done the first few times it is asked.
struct Lazy(u32);
impl Future for Lazy {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

// ---------------------------------------------------------------- the transport

struct TIo {
    conn: usize,
    input: Vec<u8>,
    at: usize,
    out: Vec<u8>,
    plan: TConn,
    rng: Rng,
}

impl TIo {
    fn not_yet(&mut self, cx: &mut Context<'_>) -> bool {
        let p = self.rng.pct(self.plan.spurious);
        if p {
            cx.waker().wake_by_ref();
        }
        p
    }
}

impl Drop for TIo {
    fn drop(&mut self) {
        let out = std::mem::take(&mut self.out);
        rec(self.conn, |c| {
            c.out = out;
            c.closed = true;
        });
    }
}

impl AsyncRead for TIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        simhook::point("read");
        if self.not_yet(cx) {
            return Poll::Pending;
        }
        let mut n = (self.input.len() - self.at).min(buf.remaining());
        if n == 0 && self.plan.end == TEnd::Linger {
            return Poll::Pending;
        }
        if self.plan.rd > 0 {
            n = n.min(self.plan.rd);
        }
        let at = self.at;
        buf.put_slice(&self.input[at..at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for TIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        simhook::point("write");
        if self.not_yet(cx) {
            return Poll::Pending;
        }
        let n = if self.plan.wr > 0 { buf.len().min(self.plan.wr) } else { buf.len() };
        self.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------- the application

type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;

#[derive(Debug)]
struct Factory {
    plan: Arc<ConnsPlan>,
    ready: bool,
    asked: u32,
}

impl Service<u32> for Factory {
    type Response = Svc;
    type Error = AppError;
    type Future = Boxed<Result<Svc, AppError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), AppError>> {
        simhook::point("factory-ready");
        self.asked += 1;
        if self.plan.factory_lazy > 0 && self.asked % (self.plan.factory_lazy + 1) != 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }

    fn call(&mut self, _: u32) -> Self::Future {
        let conn = CONN.with(|c| c.get());
        if !std::mem::take(&mut self.ready) {
            report(|l, _| l.viols.push(("factory-not-ready", "the factory was called without having reported readiness".into())));
        }
        let Some(conn) = conn else {
            report(|l, _| l.viols.push(("service-for-nobody", "a service was made for no connection".into())));
            return Box::pin(async { Err(AppError("nobody".into())) });
        };
        let plan = self.plan.clone();
        Box::pin(async move {
            Lazy(plan.conns[conn].make_lazy).await;
            rec(conn, |c| c.made += 1);
            Ok(Svc { conn, k: 0, ready: false, waited: 0, plan })
        })
    }
}

struct Svc {
    conn: usize,
    k: usize,
    ready: bool,
    waited: u32,
    plan: Arc<ConnsPlan>,
}

impl Drop for Svc {
    fn drop(&mut self) {
        rec(self.conn, |c| c.dropped += 1);
    }
}

/// What the service of a connection answers to its `k`-th request.
fn answer(conn: usize, k: usize, msgs: &[Msg]) -> Vec<Act> {
    let mut acts = vec![Act::Set(1, format!("c{conn}"), Val::U64(k as u64))];
    acts.extend(msgs.iter().map(|m| Act::Set(2, m.name.clone(), m.args.first().map_or(Val::Null, |a| a.1.clone()))));
    acts.push(Act::Unset(3, format!("u{}", msgs.len())));
    acts
}

impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = AppError;
    type Future = Boxed<Result<Vec<Action>, AppError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), AppError>> {
        if self.waited < self.plan.conns[self.conn].lazy {
            self.waited += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.waited = 0;
        self.ready = true;
        Poll::Ready(Ok(()))
    }

    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let (conn, k, lazy) = (self.conn, self.k, self.plan.conns[self.conn].lazy);
        self.k += 1;
        if !std::mem::take(&mut self.ready) {
            report(|l, _| l.viols.push(("not-ready", format!("connection {conn}: call {k} without readiness"))));
        }
        let msgs: Vec<_> = msgs.iter().map(conv::msg_from).collect();
        let fails = self.plan.conns[conn].fail == Some(k);
        rec(conn, |c| c.calls.push(msgs.clone()));
        Box::pin(async move {
            Lazy(lazy).await;
            if fails {
                return Err(AppError("no luck".into()));
            }
            Ok(answer(conn, k, &msgs).iter().map(conv::act_to).collect())
        })
    }
}

// ---------------------------------------------------------------- one run

fn hello(p: &ConnsPlan, c: &TConn) -> RFrame {
    let text = |s: &str| Val::Str(s.into());
    RFrame::control(
        spop::HA_HELLO,
        vec![
            ("supported-versions".into(), text(if c.rd % 2 == 0 { "2.0" } else { "1.0, 2.0" })),
            ("max-frame-size".into(), Val::U32(p.mfs)),
            ("capabilities".into(), text(if c.frag { "fragmentation,pipelining" } else { "pipelining" })),
        ],
    )
}

fn input(p: &ConnsPlan, c: &TConn) -> Vec<u8> {
    let mut b = spop::wire(&hello(p, c));
    for f in &c.frames {
        b.extend(spop::wire(f));
    }
    match c.end {
        TEnd::Eof | TEnd::Linger => {}
        TEnd::Disconnect => b.extend(spop::wire(&RFrame::control(
            spop::HA_DISCON,
            vec![("status-code".into(), Val::U32(0)), ("message".into(), Val::Str("bye".into()))],
        ))),
        TEnd::Part => b.extend([0, 0, 0, 40, 3, 0]),
        TEnd::Garbage => b.extend(spop::prefixed(&[77; 9])),
    }
    b
}

pub fn run(p: &BPlan, plan: &ConnsPlan) {
    let plan = Arc::new(plan.clone());
    let rt = agent::runtime(p.sched.seed);
    let runtime = Builder::new()
        .fragmentation()
        .pipelining()
        .max_frame_size(plan.mfs as usize)
        .make_service(Factory { plan: plan.clone(), ready: false, asked: 0 }, 1u32);
    let token = CancellationToken::new();
    let mut init: Vec<(String, Box<dyn FnOnce() + Send>)> = vec![];
    for (i, c) in plan.conns.iter().cloned().enumerate() {
        let (runtime, token, handle) = (runtime.clone(), token.clone(), rt.handle().clone());
        let input = input(&plan, &c);
        init.push((
            format!("connection {i}"),
            Box::new(move || {
                CONN.with(|x| x.set(Some(i)));
                let _in = handle.enter();
                let rng = Rng::stream(i as u64, "transport", input.len() as u64);
                let io = TIo { conn: i, input, at: 0, out: vec![], plan: c, rng };
                let mut conn = threads::code(|| Connection::new(runtime, io, token.child_token()));
                let _ = threads::block_on(conn.serve());
                threads::code(|| drop(conn));
                rec(i, |c| c.served = true);
            }),
        ));
    }
    if let Some(n) = plan.cancel {
        init.push((
            "shutdown".into(),
            Box::new(move || {
                for _ in 0..n {
                    simhook::point("before-shutdown");
                }
                report(|l, _| *l.probes.entry("shutdown").or_default() += 1);
                threads::code(|| token.cancel());
            }),
        ));
    }
    let mut log = threads::run_threads(p, init);
    drop(rt);
    ctx::probe("connections on threads");
    if log.viols.is_empty() && log.panics.is_empty() {
        for (i, c) in plan.conns.iter().enumerate() {
            check(&plan, i, c, &log.conns.remove(&i).unwrap_or_default());
        }
    }
}

enum Want {
    Hello,
    Ack(RFrame),
    Discon(Option<u32>),
}

fn check(plan: &ConnsPlan, i: usize, c: &TConn, got: &ConnLog) {
    let v = |class: &'static str, what: String| ctx::viol(class, format!("connection {i}: {what}"));
    // what there is to be seen if nothing stops it
    let mut want = vec![Want::Hello];
    let mut calls: Vec<Vec<Msg>> = vec![];
    let mut table: BTreeMap<(u64, u64), Vec<Msg>> = BTreeMap::new();
    let mut over = false;
    for f in &c.frames {
        let Body::Msgs(msgs) = &f.body else { continue };
        let fin = f.flags & spop::FIN != 0;
        if !fin && !c.frag {
            want.push(Want::Discon(None));
            over = true;
            break;
        }
        let all = table.entry((f.sid, f.fid)).or_default();
        all.extend(msgs.iter().cloned());
        if !fin {
            continue;
        }
        let all = table.remove(&(f.sid, f.fid)).unwrap();
        let k = calls.len();
        if c.fail == Some(k) {
            want.push(Want::Discon(Some(99)));
            over = true;
        } else {
            want.push(Want::Ack(RFrame::ack(f.sid, f.fid, answer(i, k, &all))));
        }
        calls.push(all);
        if over {
            break;
        }
    }
    if !over {
        match c.end {
            TEnd::Disconnect => want.push(Want::Discon(Some(0))),
            TEnd::Garbage => want.push(Want::Discon(None)),
            _ => {}
        }
    }
    let cancelled = plan.cancel.is_some();

    if !got.closed || !got.served {
        v("not-closed", "its transport was never closed".into());
    }
    if got.made > 1 || (got.made == 0 && !cancelled) {
        v("service-count", format!("{} services were made for it", got.made));
    }
    if got.dropped != got.made {
        v("service-leak", format!("{} services were made, {} dropped", got.made, got.dropped));
    }
    if got.calls.len() > calls.len() {
        v("extra-call", format!("{} calls instead of {}", got.calls.len(), calls.len()));
    } else if got.calls.len() < calls.len() && !cancelled {
        v("missing-call", format!("{} calls instead of {}", got.calls.len(), calls.len()));
    }
    for (k, (a, b)) in got.calls.iter().zip(&calls).enumerate() {
        if a != b {
            v("wrong-messages", format!("call {k} got {a:?} instead of {b:?}"));
        }
    }
    let (frames, rest) = spop::split_stream(&got.out);
    if !rest.is_empty() {
        v("partial-frame-out", format!("{} bytes of a frame", rest.len()));
    }
    let mut n = 0;
    let mut answered = 0;
    for (_, b) in &frames {
        let f = match spop::decode(b) {
            Ok(f) => f,
            Err(e) => return v("bad-frame-out", format!("{e:?}")),
        };
        let code = |f: &RFrame| match f.get("status-code") {
            Some(Val::U32(n)) => Some(*n),
            _ => None,
        };
        match want.get(n) {
            Some(Want::Hello) if f.ty == spop::AG_HELLO => {
                let frag = match f.get("capabilities") {
                    Some(Val::Str(s)) => spop::caps_of(s).is_some_and(|c| c.iter().any(|c| c == "fragmentation")),
                    _ => false,
                };
                if frag != c.frag {
                    v("hello-capabilities", format!("fragmentation: {frag} instead of {}", c.frag));
                }
            }
            Some(Want::Ack(a)) if f.ty == spop::ACK => {
                answered += 1;
                if (f.sid, f.fid) != (a.sid, a.fid) {
                    return v("wrong-ack-id", format!("{}/{} instead of {}/{}", f.sid, f.fid, a.sid, a.fid));
                }
                if f.flags != a.flags {
                    v("wrong-ack-flags", format!("{:x}", f.flags));
                }
                if f.body != a.body {
                    v("wrong-actions", format!("{:?} instead of {:?}", f.body, a.body));
                }
            }
            Some(Want::Discon(want)) if f.ty == spop::AG_DISCON => {
                answered += (*want == Some(99)) as usize;
                if want.is_some() && code(&f) != *want {
                    v("wrong-code", format!("{:?} instead of {want:?}", code(&f)));
                }
            }
            // it may say that it is closing down
            _ if cancelled && f.ty == spop::AG_DISCON && n + 1 == frames.len() => {}
            Some(Want::Ack(_)) if f.ty == spop::AG_DISCON => return v("disconnect-instead-of-ack", format!("code {:?}", code(&f))),
            Some(_) => return v("wrong-frame", format!("frame {n} is {f:?}")),
            None => return v("extra-frame", format!("{f:?}")),
        }
        n += 1;
    }
    if !cancelled && n < want.len() {
        v("missing-ack", format!("{n} of {} frames came", want.len()));
    }
    // what was begun is finished, whatever happens meanwhile
    if answered < got.calls.len() {
        v("missing-ack", format!("{} calls were made, {answered} answered", got.calls.len()));
    }
    if got.made == 1 && n == 0 && !cancelled {
        v("missing-hello", "a service was made, and no reply sent".into());
    }
}
