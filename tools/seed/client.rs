//! A small SPOP peer for the demonstrations.
#![allow(dead_code, unused_imports)]
pub use std::cell::{Cell, RefCell};
pub use std::convert::Infallible;
pub use std::future::Future;
pub use std::rc::Rc;
pub use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub use std::sync::{Arc, Mutex};
pub use std::time::Duration;

pub use bytes::Bytes;
pub use haproxy_spoa::runtime::{Builder, Dispatcher, Processor, Runtime};
pub use haproxy_spoa::{Agent, Connection};
pub use haproxy_spop::{
    Action, AgentAck, Capability, Codec, Frame, Framer, HaproxyHello, HaproxyNotify, Message, Reassembly, Scope, Typed, Version,
};
pub use tokio::io::{duplex, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream};
pub use tokio::time::{sleep, timeout, Instant};
pub use tower::{service_fn, MakeService, Service};

pub fn varint(mut n: u64) -> Vec<u8> {
    if n < 240 {
        return vec![n as u8];
    }
    let mut v = vec![n as u8 | 0xf0];
    n = (n - 240) >> 4;
    while n >= 128 {
        v.push(n as u8 | 0x80);
        n = (n - 128) >> 7;
    }
    v.push(n as u8);
    v
}

pub fn get_varint(b: &mut &[u8]) -> u64 {
    let mut n = b[0] as u64;
    *b = &b[1..];
    if n < 240 {
        return n;
    }
    let mut r = 4;
    loop {
        let c = b[0] as u64;
        *b = &b[1..];
        n += c << r;
        r += 7;
        if c < 128 {
            return n;
        }
    }
}

pub fn text(s: &str) -> Vec<u8> {
    let mut v = varint(s.len() as u64);
    v.extend_from_slice(s.as_bytes());
    v
}

pub fn frame(ty: u8, flags: u32, sid: u64, fid: u64, payload: &[u8]) -> Vec<u8> {
    let mut f = vec![ty];
    f.extend(flags.to_be_bytes());
    f.extend(varint(sid));
    f.extend(varint(fid));
    f.extend(payload);
    let mut v = (f.len() as u32).to_be_bytes().to_vec();
    v.extend(f);
    v
}

pub fn hello_with(versions: &str, mfs: u64, caps: &str, extra: &[u8]) -> Vec<u8> {
    let mut p = text("supported-versions");
    p.push(8);
    p.extend(text(versions));
    p.extend(text("max-frame-size"));
    p.push(3);
    p.extend(varint(mfs));
    p.extend(text("capabilities"));
    p.push(8);
    p.extend(text(caps));
    p.extend(extra);
    frame(1, 1, 0, 0, &p)
}

pub fn hello() -> Vec<u8> {
    hello_with("2.0", 16380, "fragmentation,pipelining", &[])
}

pub fn disconnect(code: u64) -> Vec<u8> {
    let mut p = text("status-code");
    p.push(3);
    p.extend(varint(code));
    p.extend(text("message"));
    p.push(8);
    p.extend(text("bye"));
    frame(2, 1, 0, 0, &p)
}

/// One message with the argument n.
pub fn msg(n: u64) -> Vec<u8> {
    let mut p = text("m");
    p.push(1);
    p.extend(text("n"));
    p.push(5);
    p.extend(varint(n));
    p
}

pub fn notify(sid: u64, fid: u64, n: u64) -> Vec<u8> {
    frame(3, 1, sid, fid, &msg(n))
}

pub fn fragment(fin: bool, sid: u64, fid: u64, n: u64) -> Vec<u8> {
    frame(3, fin as u32, sid, fid, &msg(n))
}

/// The values of n in these messages.
pub fn numbers(msgs: &[Message]) -> Vec<u64> {
    msgs.iter()
        .flat_map(|m| m.args.iter())
        .map(|(_, v)| match v {
            Typed::Uint64(n) => *n,
            v => panic!("{v:?}"),
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reply {
    pub ty: u8,
    pub flags: u32,
    pub sid: u64,
    pub fid: u64,
    pub payload: Vec<u8>,
}

impl Reply {
    pub fn is_ack(&self, sid: u64, fid: u64) -> bool {
        self.ty == 103 && self.flags == 1 && (self.sid, self.fid) == (sid, fid)
    }

    /// The status code of a DISCONNECT.
    pub fn code(&self) -> u64 {
        assert_eq!(self.ty, 102, "{self:?}");
        let mut b = &self.payload[..];
        let n = get_varint(&mut b) as usize;
        assert_eq!(&b[..n], b"status-code");
        b = &b[n + 1..];
        get_varint(&mut b)
    }

    /// Whether the payload contains this.
    pub fn has(&self, what: &str) -> bool {
        self.payload.windows(what.len()).any(|w| w == what.as_bytes())
    }
}

/// The next frame within a minute, or None at the end of the stream.
pub async fn reply<R: AsyncRead + Unpin>(r: &mut R) -> Option<Reply> {
    reply_in(r, Duration::from_secs(60)).await.expect("no answer")
}

pub async fn reply_in<R: AsyncRead + Unpin>(r: &mut R, d: Duration) -> Result<Option<Reply>, ()> {
    timeout(d, async {
        let mut len = [0; 4];
        if r.read_exact(&mut len).await.is_err() {
            return None;
        }
        let mut b = vec![0; u32::from_be_bytes(len) as usize];
        r.read_exact(&mut b).await.expect("the rest of the frame");
        let mut rest = &b[5..];
        let (sid, fid) = (get_varint(&mut rest), get_varint(&mut rest));
        Some(Reply { ty: b[0], flags: u32::from_be_bytes(b[1..5].try_into().unwrap()), sid, fid, payload: rest.to_vec() })
    })
    .await
    .map_err(|_| ())
}

/// The bytes up to the end of the stream, within a minute.
pub async fn rest<R: AsyncRead + Unpin>(r: &mut R) -> Vec<u8> {
    let mut v = vec![];
    timeout(Duration::from_secs(60), r.read_to_end(&mut v)).await.expect("the connection stays open").expect("end of stream");
    v
}

pub fn builder() -> Builder {
    Builder::new().fragmentation().pipelining()
}

/// Runs on one thread; time jumps ahead when nothing happens.
pub fn simulated(f: impl Future<Output = ()>) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f);
}

/// Runs with the real clock.
pub fn real(f: impl Future<Output = ()>) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f);
}

pub fn set(name: &str) -> Vec<Action> {
    vec![Action::set_var(Scope::Session, name, 1u64)]
}

/// A factory whose services all run this on every request.
#[macro_export]
macro_rules! services {
    ($f:expr) => {{
        let f = $f;
        service_fn(move |_: ()| {
            let f = f.clone();
            async move { Ok::<_, Infallible>(service_fn(f)) }
        })
    }};
}

/// Serves one connection over an in-memory stream and returns its other end.
#[macro_export]
macro_rules! connect {
    ($runtime:expr) => {{
        let (ours, theirs) = duplex(1 << 20);
        let mut conn = Connection::new($runtime.clone(), theirs, tokio_util::sync::CancellationToken::new());
        tokio::task::spawn_local(async move {
            let _ = conn.serve().await;
        });
        ours
    }};
}
