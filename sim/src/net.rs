//! The simulated network: byte streams whose segmentation, delays, stalls, back-pressure, failures
//! and ends are decided by the plan, and a listener that hands them out (or fails to).

use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use simhook::{SimListener, SimStream};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::Sleep;

use crate::ctx::{self, ev, fault, now};
use crate::plan::{AcceptFault, Cut, NetPlan, Seg, WErr};
use crate::rng::Rng;

pub struct Net {
    pub id: usize,
    inner: Mutex<Inner>,
}

/// A timer that wakes whoever polled last.
#[derive(Default)]
struct Alarm(Option<(u64, Pin<Box<Sleep>>)>);
impl Alarm {
    /// Makes sure that the waker is called at `at` (ms). True if it is already past.
    fn at(&mut self, at: u64, cx: &mut Context<'_>) -> bool {
        loop {
            let n = now();
            if n >= at {
                return true;
            }
            if self.0.as_ref().map_or(true, |(t, _)| *t != at) {
                self.0 = Some((at, Box::pin(tokio::time::sleep(Duration::from_millis(at - n)))));
            }
            if self.0.as_mut().unwrap().1.as_mut().poll(cx).is_pending() {
                return false;
            }
            self.0 = None;
        }
    }
}

struct Inner {
    plan: NetPlan,
    rng: Rng,
    /// frames sent by the agent that were counted, and where they end
    whole: (usize, usize),
    // towards the agent
    segs: VecDeque<(u64, Vec<u8>)>,
    inb: Vec<u8>,
    marks_in: Vec<(usize, u64)>,
    last_at: u64,
    end: Option<(u64, Cut)>,
    end_seen: bool,
    reset_at: Option<u64>,
    client_closed: Option<u64>,
    consumed: usize,
    rwaker: Option<Waker>,
    ralarm: Alarm,
    rspur: bool,
    // from the agent
    taken: usize,
    held: Vec<u8>,
    out: Vec<u8>,
    marks_out: Vec<(usize, u64)>,
    block_until: Option<Option<u64>>,
    block_next: usize,
    blocked_ms: u64,
    stuck_at: Option<u64>,
    flush_failed: bool,
    w_failed: Option<u64>,
    shut: bool,
    wwaker: Option<Waker>,
    walarm: Alarm,
    wspur: bool,
    flush_spur: bool,
    closed_at: Option<u64>,
    closes: u32,
    pub accepted_at: Option<u64>,
    pub aborted: bool,
    pub reader_task: Option<tokio::task::Id>,
    client: Option<Waker>,
}

/// What happened on a stream, for the checks.
pub struct NetRec {
    pub inb: Vec<u8>,
    pub marks_in: Vec<(usize, u64)>,
    pub end: Option<(u64, Cut)>,
    pub reset_at: Option<u64>,
    pub client_closed: Option<u64>,
    pub consumed: usize,
    pub out: Vec<u8>,
    pub marks_out: Vec<(usize, u64)>,
    pub held: usize,
    pub w_failed: Option<u64>,
    pub w_stuck: bool,
    pub stuck_at: Option<u64>,
    pub blocked_ms: u64,
    pub closed_at: Option<u64>,
    pub closes: u32,
    pub accepted_at: Option<u64>,
    pub aborted: bool,
}

impl Net {
    pub fn new(id: usize, plan: &NetPlan) -> Arc<Net> {
        Arc::new(Net {
            id,
            inner: Mutex::new(Inner {
                plan: plan.clone(),
                rng: Rng::stream(plan.seed, "net", id as u64),
                segs: VecDeque::new(),
                inb: vec![],
                marks_in: vec![],
                last_at: 0,
                end: None,
                end_seen: false,
                reset_at: None,
                client_closed: None,
                consumed: 0,
                rwaker: None,
                ralarm: Alarm::default(),
                rspur: false,
                taken: 0,
                whole: (0, 0),
                held: vec![],
                out: vec![],
                marks_out: vec![],
                block_until: None,
                block_next: 0,
                blocked_ms: 0,
                stuck_at: None,
                flush_failed: false,
                w_failed: None,
                shut: false,
                wwaker: None,
                walarm: Alarm::default(),
                wspur: false,
                flush_spur: false,
                closed_at: None,
                closes: 0,
                accepted_at: None,
                aborted: false,
                reader_task: None,
                client: None,
            }),
        })
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    // ------------------------------------------------------------ the client's side

    /// Sends bytes to the agent.
    pub fn push(&self, bytes: &[u8]) {
        let mut i = self.lock();
        let i = &mut *i;
        if i.end.is_some() || i.reset_at.is_some() {
            return;
        }
        let mut bytes = bytes;
        let mut cut = None;
        if let Some((off, kind)) = i.plan.cut {
            if i.inb.len() + bytes.len() >= off {
                bytes = &bytes[..off - i.inb.len().min(off)];
                cut = Some(kind);
            }
        }
        while !bytes.is_empty() {
            let mut n = match i.plan.seg {
                Seg::Whole | Seg::Coalesce => bytes.len(),
                Seg::Bytes => 1,
                Seg::Small => i.rng.usize(1, 6),
                Seg::Random => match i.rng.below(4) {
                    0 => i.rng.usize(1, 5),
                    1 => i.rng.usize(1, 64),
                    _ => i.rng.usize(1, bytes.len()),
                },
            }
            .min(bytes.len());
            let from = i.inb.len();
            // a stall begins exactly at its offset
            let mut extra = 0;
            for &(off, ms) in &i.plan.stalls {
                if off == from {
                    extra += ms;
                    fault("stall");
                } else if off > from && off < from + n {
                    n = off - from;
                }
            }
            if i.plan.latency > 0 && i.rng.pct(30) {
                extra += i.rng.below(i.plan.latency + 1);
                fault("segment delayed");
            }
            let at = i.last_at.max(now()) + extra;
            i.last_at = at;
            if n < bytes.len() {
                fault("stream split");
            }
            i.segs.push_back((at, bytes[..n].to_vec()));
            i.inb.extend_from_slice(&bytes[..n]);
            i.marks_in.push((i.inb.len(), at));
            bytes = &bytes[n..];
        }
        if let Some(kind) = cut {
            fault(match kind {
                Cut::Eof => "cut: end of stream",
                Cut::Reset => "cut: reset",
                Cut::Silence => "cut: silence",
            });
            i.finish(kind);
        }
        if let Some(w) = i.rwaker.take() {
            w.wake();
        }
    }

    /// No more bytes will come.
    pub fn finish(&self, kind: Cut) {
        let mut i = self.lock();
        i.finish(kind);
    }

    /// The client closes its socket in an orderly way.
    pub fn close(&self) {
        let mut i = self.lock();
        i.finish(Cut::Eof);
        i.client_closed = Some(now());
    }

    /// The client resets the connection now: undelivered bytes are lost.
    pub fn reset(&self) {
        let mut i = self.lock();
        if i.reset_at.is_some() {
            return;
        }
        fault("client reset");
        let keep = i.consumed;
        i.segs.clear();
        i.inb.truncate(keep);
        while i.marks_in.last().is_some_and(|m| m.0 > keep) {
            let m = i.marks_in.pop().unwrap();
            if i.marks_in.last().map_or(0, |p| p.0) < keep {
                i.marks_in.push((keep, m.1));
                break;
            }
        }
        i.end = Some((now(), Cut::Reset));
        i.reset_at = Some(now());
        i.wake_all();
    }

    /// Complete frames received from the agent so far.
    fn frames_out(&self) -> usize {
        self.lock().frames_out()
    }

    /// Waits until the agent has sent `n` frames, or closed, or `ms` have passed.
    pub async fn wait_frames(&self, n: usize, ms: u64) {
        let until = now() + ms;
        let mut alarm = Alarm::default();
        std::future::poll_fn(|cx| {
            if self.frames_out() >= n {
                return Poll::Ready(());
            }
            {
                let mut i = self.lock();
                if i.closed_at.is_some() || i.aborted {
                    return Poll::Ready(());
                }
                i.client = Some(cx.waker().clone());
            }
            if alarm.at(until, cx) {
                return Poll::Ready(());
            }
            Poll::Pending
        })
        .await
    }

    /// Bytes written by somebody else on the same transport.
    pub fn inject(&self, bytes: &[u8]) {
        let mut i = self.lock();
        i.out.extend_from_slice(bytes);
        i.note_out();
    }

    /// What was written after the first `at` bytes; None once the writer is gone.
    pub async fn out_from(&self, at: usize) -> Option<Vec<u8>> {
        std::future::poll_fn(|cx| {
            let mut i = self.lock();
            if i.out.len() > at {
                return Poll::Ready(Some(i.out[at..].to_vec()));
            }
            if i.closed_at.is_some() {
                return Poll::Ready(None);
            }
            i.client = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }

    /// Bytes read and bytes written so far.
    pub fn position(&self) -> (usize, usize) {
        let i = self.lock();
        (i.consumed, i.taken)
    }

    /// All bytes sent so far were read.
    pub fn idle(&self) -> bool {
        let i = self.lock();
        i.segs.is_empty()
    }

    pub fn rec(&self) -> NetRec {
        let i = self.lock();
        NetRec {
            inb: i.inb.clone(),
            marks_in: i.marks_in.clone(),
            end: i.end,
            reset_at: i.reset_at,
            client_closed: i.client_closed,
            consumed: i.consumed,
            out: i.out.clone(),
            marks_out: i.marks_out.clone(),
            held: i.held.len(),
            w_failed: i.w_failed,
            w_stuck: i.block_until == Some(None),
            stuck_at: i.stuck_at,
            blocked_ms: i.blocked_ms,
            closed_at: i.closed_at,
            closes: i.closes,
            accepted_at: i.accepted_at,
            aborted: i.aborted,
        }
    }
    pub fn closed(&self) -> bool {
        let i = self.lock();
        i.closed_at.is_some() || i.aborted
    }
    pub fn accepted(&self) {
        self.lock().accepted_at = Some(now());
        ev("accepted", self.id, "");
    }
    pub fn reader_task(&self) -> Option<tokio::task::Id> {
        self.lock().reader_task
    }
    /// The connection was lost before it was accepted.
    fn abort(&self) {
        let mut i = self.lock();
        i.aborted = true;
        i.wake_all();
    }
}

impl Inner {
    fn frames_out(&mut self) -> usize {
        let (mut n, mut at) = self.whole;
        while let Some(head) = self.out.get(at..at + 4) {
            let len = u32::from_be_bytes(head.try_into().unwrap()) as usize;
            if self.out.len() - at - 4 < len {
                break;
            }
            (n, at) = (n + 1, at + 4 + len);
        }
        self.whole = (n, at);
        n
    }

    fn finish(&mut self, kind: Cut) {
        if self.end.is_none() {
            let at = self.last_at.max(now());
            self.end = Some((at, kind));
            if kind == Cut::Reset {
                self.reset_at = Some(at);
            }
            self.wake_all();
        }
    }
    fn wake_all(&mut self) {
        for w in [&mut self.rwaker, &mut self.wwaker, &mut self.client] {
            if let Some(w) = w.take() {
                w.wake();
            }
        }
    }
    fn spurious(&mut self, which: u8, cx: &mut Context<'_>) -> bool {
        let pct = self.plan.spurious;
        let last = match which {
            0 => &mut self.rspur,
            1 => &mut self.wspur,
            _ => &mut self.flush_spur,
        };
        let hit = !*last && pct > 0 && self.rng.pct(pct);
        *last = hit;
        if hit {
            fault("not ready once");
            cx.waker().wake_by_ref();
        }
        hit
    }
    fn read_ready(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Error>> {
        if let Some(r) = self.reset_at {
            if self.segs.is_empty() && now() >= r {
                self.end_seen = true;
                return Poll::Ready(Some(io::ErrorKind::ConnectionReset.into()));
            }
        }
        let at = match (self.segs.front(), self.end) {
            (Some((at, _)), _) => *at,
            (None, Some((at, Cut::Eof | Cut::Reset))) => at,
            _ => {
                self.rwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        };
        if !self.ralarm.at(at, cx) {
            self.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(None)
    }
    fn note_out(&mut self) {
        let n = self.out.len();
        self.marks_out.push((n, now()));
        if let Some(w) = self.client.take() {
            w.wake();
        }
    }
}

impl SimStream for Net {
    fn poll_read(&self, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = self.lock();
        let i = &mut *g;
        if i.reader_task.is_none() {
            i.reader_task = tokio::task::try_id();
        }
        if dst.is_empty() {
            return Poll::Ready(Ok(0));
        }
        match i.read_ready(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Some(e)) => {
                ev("rd-error", self.id, "");
                return Poll::Ready(Err(e));
            }
            Poll::Ready(None) => {}
        }
        if i.spurious(0, cx) {
            return Poll::Pending;
        }
        let mut n = 0;
        let max = match i.plan.rd {
            0 => dst.len(),
            m => dst.len().min(i.rng.usize(1, m)),
        };
        while n < max {
            let Some((at, seg)) = i.segs.front_mut() else { break };
            if *at > now() {
                break;
            }
            let k = seg.len().min(max - n);
            dst[n..n + k].copy_from_slice(&seg[..k]);
            n += k;
            if k == seg.len() {
                i.segs.pop_front();
            } else {
                seg.drain(..k);
                fault("short read");
            }
            if i.plan.seg != Seg::Coalesce {
                break;
            }
        }
        i.consumed += n;
        if n == 0 {
            i.end_seen = true;
        }
        ev("read", self.id, n.to_string());
        Poll::Ready(Ok(n))
    }

    fn poll_peek(&self, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = self.lock();
        let i = &mut *g;
        match i.read_ready(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(e)) => Poll::Ready(Err(e)),
            Poll::Ready(None) => Poll::Ready(Ok(match i.segs.front() {
                Some((_, s)) => {
                    let k = s.len().min(dst.len());
                    dst[..k].copy_from_slice(&s[..k]);
                    k
                }
                None => 0,
            })),
        }
    }

    fn poll_write(&self, cx: &mut Context<'_>, src: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.lock();
        let i = &mut *g;
        let fail = |i: &mut Inner, kind: io::ErrorKind| {
            i.w_failed.get_or_insert(now());
            ev("wr-error", self.id, "");
            Poll::Ready(Err(kind.into()))
        };
        if i.reset_at.is_some_and(|r| now() >= r) {
            return fail(i, io::ErrorKind::ConnectionReset);
        }
        if i.shut {
            return fail(i, io::ErrorKind::BrokenPipe);
        }
        if i.client_closed.is_some() && i.end.is_some_and(|e| now() > e.0) {
            return fail(i, io::ErrorKind::BrokenPipe);
        }
        if src.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut max = src.len();
        let broken = |i: &mut Inner, kind: WErr| {
            fault("write error");
            match kind {
                WErr::Pipe => fail(i, io::ErrorKind::BrokenPipe),
                WErr::Reset => fail(i, io::ErrorKind::ConnectionReset),
                WErr::Flush => unreachable!(),
                WErr::Zero => {
                    i.w_failed.get_or_insert(now());
                    Poll::Ready(Ok(0))
                }
            }
        };
        if i.flush_failed {
            return fail(i, io::ErrorKind::BrokenPipe);
        }
        if let Some((n, kind)) = i.plan.werr_frame.filter(|w| w.1 != WErr::Flush) {
            if i.frames_out() >= n {
                return broken(i, kind);
            }
        }
        if let Some((off, kind)) = i.plan.werr.filter(|w| w.1 != WErr::Flush) {
            if i.taken >= off {
                return broken(i, kind);
            }
            max = max.min(off - i.taken);
        }
        // back-pressure
        if i.block_until.is_none() {
            if let Some(&(off, ms)) = i.plan.wblock.get(i.block_next) {
                if i.taken >= off {
                    i.block_next += 1;
                    fault("peer stops reading");
                    i.block_until = Some(ms.map(|ms| now() + ms));
                    if ms.is_none() {
                        i.stuck_at = Some(now());
                    }
                    i.blocked_ms += ms.unwrap_or(0);
                } else {
                    max = max.min(off - i.taken);
                }
            }
        }
        match i.block_until {
            Some(None) => {
                i.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Some(Some(t)) => {
                if !i.walarm.at(t, cx) {
                    i.wwaker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                i.block_until = None;
                if let Some(&(off, _)) = i.plan.wblock.get(i.block_next) {
                    max = max.min(off.saturating_sub(i.taken).max(1));
                }
            }
            None => {}
        }
        if i.spurious(1, cx) {
            return Poll::Pending;
        }
        if i.plan.wr > 0 {
            max = max.min(i.rng.usize(1, i.plan.wr));
        }
        if max < src.len() {
            fault("short write");
        }
        i.taken += max;
        if i.plan.hold {
            i.held.extend_from_slice(&src[..max]);
        } else {
            i.out.extend_from_slice(&src[..max]);
            i.note_out();
        }
        ev("write", self.id, &src[..max]);
        Poll::Ready(Ok(max))
    }

    fn poll_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.lock();
        let i = &mut *g;
        let late = i.plan.werr_frame.is_some_and(|w| w.1 == WErr::Flush && i.frames_out() + !i.held.is_empty() as usize > w.0);
        let far = i.plan.werr.is_some_and(|w| w.1 == WErr::Flush && i.taken >= w.0);
        if late || far || i.flush_failed {
            fault("flush error");
            i.flush_failed = true;
            i.w_failed.get_or_insert(now());
            ev("flush-error", self.id, "");
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if i.held.is_empty() {
            return Poll::Ready(Ok(()));
        }
        if i.spurious(2, cx) {
            return Poll::Pending;
        }
        let held = std::mem::take(&mut i.held);
        i.out.extend_from_slice(&held);
        i.note_out();
        ev("flush", self.id, "");
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.poll_flush(cx).is_pending() {
            return Poll::Pending;
        }
        let mut i = self.lock();
        if !i.shut {
            i.shut = true;
            ev("shutdown", self.id, "");
        }
        Poll::Ready(Ok(()))
    }

    fn peer_addr(&self) -> SocketAddr {
        SocketAddr::from(([10, 0, (self.id >> 8) as u8, self.id as u8], 40000))
    }

    fn closed(&self) {
        let mut i = self.lock();
        i.closes += 1;
        if i.closed_at.is_none() {
            i.closed_at = Some(now());
            ev("closed", self.id, "");
            if let Some(w) = i.client.take() {
                w.wake();
            }
            // cancel timers: nobody is left to be woken
            i.ralarm = Alarm::default();
            i.walarm = Alarm::default();
        }
    }
}

// ---------------------------------------------------------------- direct transport

/// A transport handed to a `Connection` directly.
#[derive(Debug)]
pub struct SimIo(pub Handle);
pub struct Handle(pub Arc<Net>);
impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "net{}", self.0.id)
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        SimStream::closed(&*self.0)
    }
}
impl SimIo {
    pub fn new(net: Arc<Net>) -> SimIo {
        SimIo(Handle(net))
    }
}
impl AsyncRead for SimIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = std::task::ready!(SimStream::poll_read(&*self.0 .0, cx, buf.initialize_unfilled()))?;
        buf.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for SimIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        SimStream::poll_write(&*self.0 .0, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        SimStream::poll_flush(&*self.0 .0, cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        SimStream::poll_shutdown(&*self.0 .0, cx)
    }
}

// ---------------------------------------------------------------- listener

pub struct Listener(Mutex<LInner>);
struct LInner {
    queue: VecDeque<Arc<Net>>,
    faults: Vec<AcceptFault>,
    out: u32,
    wakers: Vec<Waker>,
    spur: bool,
    fd: Option<i32>,
    pub closed: Option<u64>,
    pub attempts: u64,
    pub errors: u64,
    pub last_error: Option<u64>,
}

impl Listener {
    pub fn new(faults: &[AcceptFault]) -> Arc<Listener> {
        Arc::new(Listener(Mutex::new(LInner {
            queue: VecDeque::new(),
            faults: faults.to_vec(),
            out: 0,
            wakers: vec![],
            spur: false,
            closed: None,
            attempts: 0,
            fd: None,
            errors: 0,
            last_error: None,
        })))
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, LInner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// A client connects.
    pub fn connect(&self, net: Arc<Net>) {
        let mut l = self.lock();
        l.queue.push_back(net);
        for w in std::mem::take(&mut l.wakers) {
            w.wake();
        }
    }
    /// The socket the agent was given in blocking mode.
    pub fn set_fd(&self, fd: i32) {
        self.lock().fd = Some(fd);
    }
    /// (failed accepts, time of the last one)
    pub fn errors(&self) -> (u64, Option<u64>) {
        let l = self.lock();
        (l.errors, l.last_error)
    }
}

impl SimListener for Listener {
    fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(Arc<dyn SimStream>, SocketAddr)>> {
        let mut l = self.lock();
        if let Some(fd) = l.fd.take() {
            if unsafe { libc::fcntl(fd, libc::F_GETFL) } & libc::O_NONBLOCK == 0 {
                crate::ctx::viol("blocking-listener", "accepting blocks the whole agent: the socket was left in blocking mode".into());
            }
        }
        if l.queue.is_empty() {
            if !l.wakers.iter().any(|w| w.will_wake(cx.waker())) {
                l.wakers.push(cx.waker().clone());
            }
            return Poll::Pending;
        }
        l.attempts += 1;
        let out = l.out;
        if let Some(f) = l.faults.iter_mut().find(|f| f.count > 0 && f.after <= out) {
            f.count -= 1;
            let errno = f.errno;
            l.errors += 1;
            l.last_error = Some(now());
            fault(match errno {
                libc::EMFILE => "accept: EMFILE",
                libc::ENFILE => "accept: ENFILE",
                libc::ECONNABORTED => "accept: ECONNABORTED",
                libc::ENOMEM => "accept: ENOMEM",
                libc::ENOBUFS => "accept: ENOBUFS",
                libc::EINTR => "accept: EINTR",
                libc::EPROTO => "accept: EPROTO",
                _ => "accept: other",
            });
            ev("accept-err", 0, errno.to_string());
            if errno == libc::ECONNABORTED {
                // the connection is gone
                if let Some(n) = l.queue.pop_front() {
                    n.abort();
                }
                l.out += 1;
            }
            return Poll::Ready(Err(io::Error::from_raw_os_error(errno)));
        }
        let net = l.queue.pop_front().unwrap();
        l.out += 1;
        drop(l);
        net.accepted();
        let addr = SimStream::peer_addr(&*net);
        Poll::Ready(Ok((net, addr)))
    }
    fn closed(&self) {
        self.lock().closed = Some(now());
    }
}

pub fn active() -> bool {
    ctx::active()
}
