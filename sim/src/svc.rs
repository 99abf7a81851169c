//! The application behind the agent: a scripted service factory and scripted services, which also
//! watch how they are used.

use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Buf;
use haproxy_spoa::req;
use haproxy_spop::{Action, Message, Typed};
use tokio::time::Sleep;
use tower::Service;

use crate::conv;
use crate::ctx::{self, ev, fault, now, viol, CallRec, MakeRec};
use crate::net::Net;
use crate::plan::{APlan, MakeOut, Out, Ready};

pub const STATE: u32 = 4242;

thread_local! {
    static WORLD: RefCell<Option<(Arc<APlan>, Vec<Arc<Net>>)>> = const { RefCell::new(None) };
}
pub fn install(w: Option<(Arc<APlan>, Vec<Arc<Net>>)>) {
    WORLD.with(|c| *c.borrow_mut() = w);
}
fn world<R>(f: impl FnOnce(&APlan, &[Arc<Net>]) -> R) -> R {
    WORLD.with(|c| {
        let w = c.borrow();
        let (p, n) = w.as_ref().expect("no world");
        f(p, n)
    })
}

#[derive(Debug, Clone)]
pub struct AppError(pub String);
impl fmt::Display for AppError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for AppError {}

type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// Answers readiness according to a `Ready`.
#[derive(Default)]
struct Gate {
    sleep: Option<Pin<Box<Sleep>>>,
}
impl Gate {
    fn poll(&mut self, r: &Ready, cx: &mut Context<'_>) -> Poll<Result<(), AppError>> {
        match r {
            Ready::Now => Poll::Ready(Ok(())),
            Ready::After(ms) => {
                let s = self.sleep.get_or_insert_with(|| {
                    fault("not ready for a while");
                    Box::pin(tokio::time::sleep(Duration::from_millis(*ms)))
                });
                s.as_mut().poll(cx).map(Ok)
            }
            Ready::Err(e) => {
                fault("readiness fails");
                Poll::Ready(Err(AppError(e.clone())))
            }
            Ready::Never => {
                if self.sleep.is_none() {
                    fault("never ready");
                    self.sleep = Some(Box::pin(tokio::time::sleep(Duration::from_secs(1 << 30))));
                }
                Poll::Pending
            }
        }
    }
}

// ---------------------------------------------------------------- factory

pub struct Factory {
    made: usize,
    granted: bool,
    gate: Gate,
}
impl fmt::Debug for Factory {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Factory")
    }
}
impl Factory {
    pub fn new() -> Factory {
        Factory { made: 0, granted: false, gate: Gate::default() }
    }
}

/// The connection on whose behalf the code under test is running right now.
fn whose() -> Option<usize> {
    let id = tokio::task::try_id();
    world(|_, nets| {
        let by_task = nets.iter().find(|n| id.is_some() && n.reader_task() == id && !n.closed());
        // somebody else's task: the oldest connection that is still without a service
        by_task
            .or_else(|| {
                nets.iter().find(|n| {
                    n.reader_task().is_some() && !n.closed() && ctx::with(|c| !c.makes.contains_key(&n.id))
                })
            })
            .map(|n| n.id)
    })
}

fn rec<R>(conn: usize, idx: usize, f: impl FnOnce(&mut MakeRec) -> R) -> Option<R> {
    if !ctx::active() {
        return None;
    }
    Some(ctx::with(|c| f(&mut c.makes.get_mut(&conn).unwrap()[idx])))
}

/// Notes how a future ended, also when it is dropped or unwinds.
struct Guard<F: FnMut(&'static str)>(F, bool);
impl<F: FnMut(&'static str)> Guard<F> {
    fn end(&mut self, how: &'static str) {
        if !self.1 {
            self.1 = true;
            (self.0)(how);
        }
    }
}
impl<F: FnMut(&'static str)> Drop for Guard<F> {
    fn drop(&mut self) {
        let how = if std::thread::panicking() { "panic" } else { "dropped" };
        self.end(how);
    }
}

impl Service<u32> for Factory {
    type Response = Svc;
    type Error = AppError;
    type Future = Boxed<Result<Svc, AppError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), AppError>> {
        let ready = world(|p, _| p.factory_ready.get(self.made).cloned().unwrap_or(Ready::Now));
        let r = self.gate.poll(&ready, cx);
        if let Poll::Ready(Ok(())) = &r {
            self.granted = true;
        }
        if let Poll::Ready(Err(_)) = &r {
            self.made += 1; // the next attempt has its own script
            self.gate = Gate::default();
        }
        r
    }

    fn call(&mut self, state: u32) -> Self::Future {
        if !std::mem::take(&mut self.granted) {
            viol("factory-not-ready", "the service factory was called without having reported readiness".into());
        }
        if state != STATE {
            viol("wrong-state", format!("the factory got state {state}"));
        }
        self.made += 1;
        self.gate = Gate::default();
        let Some(conn) = whose() else {
            viol("service-for-nobody", "a service was created for no connection".into());
            return Box::pin(async { Err(AppError("nobody".into())) });
        };
        let make = world(|p, _| p.conns[conn].make.clone());
        let idx = ctx::with(|c| {
            let v = c.makes.entry(conn).or_default();
            v.push(MakeRec { start: now(), ..MakeRec::default() });
            v.len() - 1
        });
        ev("make", conn, "");
        if make.out == MakeOut::Panic && make.delay == 0 {
            fault("factory panics");
            rec(conn, idx, |r| r.end = Some((now(), "panic")));
            panic!("SIM-INJECTED");
        }
        let mut guard = Guard(
            move |how| {
                ev("make-end", conn, how);
                let at = world(|_, nets| nets[conn].position());
                rec(conn, idx, |r| {
                    r.end = Some((now(), how));
                    r.at_end = at.0;
                });
            },
            false,
        );
        Box::pin(async move {
            if make.delay > 0 {
                fault("slow factory");
                tokio::time::sleep(Duration::from_millis(make.delay)).await;
            }
            match make.out {
                MakeOut::Ok => {
                    guard.end("done");
                    rec(conn, idx, |r| r.made = Some(now()));
                    Ok(Svc { conn, idx, k: 0, granted: false, gate: Gate::default() })
                }
                MakeOut::Err(e) => {
                    fault("factory fails");
                    guard.end("err");
                    Err(AppError(e))
                }
                MakeOut::Panic => {
                    fault("factory panics");
                    panic!("SIM-INJECTED");
                }
                MakeOut::Hang => {
                    fault("factory hangs");
                    std::future::pending().await
                }
            }
        })
    }
}

// ---------------------------------------------------------------- service

/// The name of arguments the service reads as a block of headers.
pub const HEADERS: &str = "hdrs";

fn headers(v: &Typed) -> Option<(Vec<u8>, Result<ctx::Headers, String>)> {
    let Typed::Binary(b) = v else { return None };
    ctx::probe("blocks of headers");
    // whatever the kind of buffer
    let res = match b.len() % 3 {
        0 => req::hdrs_bin(b.clone()),
        1 => req::hdrs_bin(&b[..]),
        _ => {
            let (x, y) = b.split_at(b.len() * (b[0] as usize) / 256);
            req::hdrs_bin(x.chain(y))
        }
    };
    let res = res.map_err(|e| e.to_string()).map(|map| {
        let mut all = ctx::Headers::new();
        for (name, value) in &map {
            all.entry(name.to_string()).or_default().push(value.as_bytes().to_vec());
        }
        all
    });
    Some((b.to_vec(), res))
}

pub struct Svc {
    conn: usize,
    idx: usize,
    k: usize,
    granted: bool,
    gate: Gate,
}

impl Drop for Svc {
    fn drop(&mut self) {
        ev("svc-drop", self.conn, "");
        rec(self.conn, self.idx, |r| r.dropped.push(now()));
    }
}

impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = AppError;
    type Future = Boxed<Result<Vec<Action>, AppError>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), AppError>> {
        let call = world(|p, _| p.conns[self.conn].call(self.conn, self.k));
        rec(self.conn, self.idx, |r| {
            if r.asked.len() == self.k {
                r.asked.push(now());
            }
        });
        let r = self.gate.poll(&call.ready, cx);
        if let Poll::Ready(Ok(())) = &r {
            self.granted = true;
        }
        r
    }

    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let (conn, idx, k) = (self.conn, self.idx, self.k);
        if !std::mem::take(&mut self.granted) {
            viol("not-ready", format!("connection {conn}: call {k} of the service without having reported readiness"));
        }
        let call = world(|p, _| p.conns[conn].call(conn, k));
        self.k += 1;
        self.gate = Gate::default();
        let headers = msgs.iter().flat_map(|m| &m.args).filter(|(k, _)| k == HEADERS).filter_map(|(_, v)| headers(v)).collect();
        let msgs: Vec<_> = msgs.iter().map(conv::msg_from).collect();
        ev("call", conn, format!("{k} {msgs:?}"));
        let here = move || world(|_, nets| nets[conn].position());
        rec(conn, idx, |r| {
            r.calls.push(CallRec { start: now(), at_start: here(), at_end: (0, 0), msgs, headers, end: None })
        });
        let mut guard = Guard(
            move |how| {
                ev("call-end", conn, how);
                rec(conn, idx, |r| {
                    r.calls[k].end = Some((now(), how));
                    r.calls[k].at_end = here();
                });
            },
            false,
        );
        if call.out == Out::Panic && call.delay == 0 {
            fault("service panics");
            panic!("SIM-INJECTED");
        }
        Box::pin(async move {
            if call.delay > 0 {
                tokio::time::sleep(Duration::from_millis(call.delay)).await;
            }
            match call.out {
                Out::Acts(acts) => {
                    guard.end("done");
                    Ok(acts.iter().map(conv::act_to).collect())
                }
                Out::Err(e) => {
                    fault("service fails");
                    guard.end("err");
                    Err(AppError(e))
                }
                Out::Panic => {
                    fault("service panics");
                    panic!("SIM-INJECTED");
                }
                Out::Hang => {
                    fault("service hangs");
                    std::future::pending().await
                }
            }
        })
    }
}
