//! The reference model of an agent's behaviour towards one peer, applied to what each connection
//! really received, and the checks of a run's history against it.

use crate::agent::Outcome;
use crate::ctx::{self, probe, viol, MakeRec};
use crate::net::NetRec;
use crate::plan::*;
use crate::spop::{self, Act, Bad, Body, HelloBad, RFrame, Val, ABORT, ACK, AG_DISCON, AG_HELLO, FIN, HA_DISCON, HA_HELLO, NOTIFY};

/// How much later than owed (ms of simulated time, nothing injected) a thing may happen.
const SLACK: u64 = 10;
/// How far (bytes, besides four frames) the agent may run ahead of what it works on, and of what
/// its peer has taken.
const AHEAD: usize = 256 << 10;
/// Distance from a deadline within which both outcomes are fine.
const MARGIN: u64 = 5;

/// A received NOTIFY: whether it completes a request, which is then (ids, messages).
pub struct Reassembler(std::collections::BTreeMap<(u64, u64), Vec<spop::Msg>>);
impl Reassembler {
    pub fn new() -> Reassembler {
        Reassembler(Default::default())
    }
    pub fn add(&mut self, fin: bool, key: (u64, u64), mut msgs: Vec<spop::Msg>) -> Option<Vec<spop::Msg>> {
        let mut all = self.0.remove(&key).unwrap_or_default();
        all.append(&mut msgs);
        if fin {
            Some(all)
        } else {
            self.0.insert(key, all);
            None
        }
    }
    pub fn in_progress(&self) -> usize {
        self.0.len()
    }
}

pub fn check(plan: &APlan, o: &Outcome) {
    for (i, rec) in o.recs.iter().enumerate() {
        let none = vec![];
        let makes = o.makes.get(&i).unwrap_or(&none);
        ConnCheck::new(plan, o, i, rec, makes).run();
    }
    if plan.agent {
        check_serve(plan, o);
    }
    check_headers(o);
}

fn check_serve(plan: &APlan, o: &Outcome) {
    let t = o.shutdown;
    let stuck = o.recs.iter().any(|r| r.w_stuck)
        || o.makes.values().flatten().any(|m| m.end.is_none());
    for &(called, served) in &o.served {
    match served {
        None if stuck => {}
        None => viol("serve-never", format!("shutdown was requested at {t} ms, serve has not returned at {} ms", o.end)),
        Some((at, _)) if at < t => viol("serve-early", format!("serve returned at {at} ms, shutdown was requested at {t} ms")),
        Some((at, ok)) => {
            if !ok {
                viol("serve-error", "serve returned an error".into());
            }
            let mut last = t;
            for (i, r) in o.recs.iter().enumerate() {
                if r.accepted_at.is_none() {
                    continue;
                }
                match r.closed_at {
                    Some(c) if c <= at => last = last.max(c),
                    _ => viol("serve-before-conns", format!("serve returned at {at} ms with connection {i} still open")),
                }
            }
            let last = last.max(called);
            if at > last + SLACK {
                viol("serve-late", format!("shutdown at {t} ms, last connection gone at {last} ms, serve returned at {at} ms"));
            }
        }
    }
    }
    // accepting is taken up again soon after it works again
    let due = |at: u64| o.last_accept_error.map_or(0, |e| e + 5_000).max(at + SLACK);
    for (i, r) in o.recs.iter().enumerate() {
        let at = plan.conns[i].at;
        match r.accepted_at {
            _ if r.aborted => {}
            Some(a) => {
                if a > t + 1 {
                    viol("accept-after-shutdown", format!("connection {i} accepted at {a} ms, shutdown was at {t} ms"));
                }
                let due = due(at);
                if a > due {
                    viol("late-accept", format!("connection {i} came at {at} ms and was accepted at {a} ms"));
                }
            }
            None => {
                let due = due(at);
                if due < t {
                    viol("not-accepted", format!("connection {i} came at {at} ms and was not accepted by {t} ms"));
                }
            }
        }
    }
}

struct ConnCheck<'a> {
    plan: &'a APlan,
    o: &'a Outcome,
    i: usize,
    conn: &'a Conn,
    rec: &'a NetRec,
    makes: &'a [MakeRec],
    /// Frames sent, decoded, with the time they were complete on the wire.
    outs: Vec<(u64, Result<RFrame, Bad>, usize)>,
    oi: usize,
    ci: usize,
    prev_done: u64,
    /// When the last request known of was done with.
    busy: u64,
    /// Where the frame being looked at ends.
    at: usize,
    /// Bytes of the replies owed so far.
    owed: usize,
}

/// Why the walk over the input stopped.
enum Stop {
    /// The agent had to end the connection at this time.
    Ended(u64),
    /// Its task panicked at this time.
    Died(u64),
    /// Input exhausted; waiting for more.
    Idle,
    /// From here on it is shutting down.
    Shutdown,
    /// Replies could not be delivered any more.
    Broken,
    /// What is right is open from here on.
    Gray,
    /// A violation was reported; nothing more can be said.
    Wrong,
}

enum Want {
    Hello(Box<(spop::HelloItems, (u8, u8), u32)>),
    Ack(u64, u64, Vec<Act>),
    Disc(Vec<u32>, Option<String>),
}

impl<'a> ConnCheck<'a> {
    fn new(plan: &'a APlan, o: &'a Outcome, i: usize, rec: &'a NetRec, makes: &'a [MakeRec]) -> Self {
        let (frames, rest) = spop::split_stream(&rec.out);
        let mut outs: Vec<_> = frames
            .iter()
            .map(|(end, b)| (mark(&rec.marks_out, *end), spop::decode(b), b.len()))
            .collect();
        if !rest.is_empty() && rec.w_failed.is_none() && !rec.w_stuck && rec.reset_at.is_none() && rec.client_closed.is_none() {
            viol("partial-frame-out", format!("connection {i}: {} bytes of an unfinished frame were sent", rest.len()));
        }
        // frames nobody can read
        for (n, (_, f, _)) in outs.iter().enumerate() {
            if let Err(e) = f {
                viol("bad-frame-out", format!("connection {i}: frame {n} sent by the agent does not decode: {e:?}"));
            }
        }
        outs.retain(|o| o.1.is_ok());
        ConnCheck { plan, o, i, conn: &plan.conns[i], rec, makes, outs, oi: 0, ci: 0, prev_done: 0, busy: 0, at: 0, owed: 0 }
    }

    fn v(&self, class: &'static str, what: String) {
        viol(class, format!("connection {}: {what}", self.i));
    }

    /// The agent cannot be expected to get a reply through that is due at this time.
    fn excused(&self, due: u64) -> bool {
        let r = self.rec;
        let broken = [r.w_failed, r.stuck_at, r.reset_at, r.client_closed].into_iter().flatten().min();
        broken.is_some_and(|b| b <= due.saturating_add(SLACK + r.blocked_ms))
    }

    fn calls(&self) -> &'a [crate::ctx::CallRec] {
        self.makes.first().map_or(&[], |m| &m.calls)
    }

    fn run(mut self) {
        let rec = self.rec;
        if rec.closes > 1 {
            self.v("closed-twice", "the transport was closed twice".into());
        }
        let Some(accepted) = rec.accepted_at else {
            if !rec.out.is_empty() || !self.makes.is_empty() {
                self.v("ghost", "output without having been accepted".into());
            }
            return;
        };
        self.prev_done = accepted;
        if self.makes.len() > 1 {
            self.v("service-count", format!("{} services were created", self.makes.len()));
        }
        let stop = self.walk();
        if rec.w_stuck && matches!(stop, Stop::Broken) && rec.consumed.saturating_sub(self.at) > self.ahead() {
            let n = rec.consumed - self.at;
            self.v("reads-ahead", format!("{n} bytes were taken in beyond the request whose reply the peer does not read"));
        }
        self.tail(&stop);
        self.closing(&stop);
        self.resources();
        // nothing after a DISCONNECT, whatever else happened
        let discs: Vec<_> = (0..self.outs.len()).filter(|&k| matches!(&self.outs[k].1, Ok(f) if f.ty == AG_DISCON)).collect();
        if discs.len() > 1 || discs.first().is_some_and(|&k| k + 1 < self.outs.len()) {
            self.v("after-disconnect", format!("{} frames, DISCONNECT at {discs:?}", self.outs.len()));
        }
    }

    // ------------------------------------------------------------ the walk

    fn walk(&mut self) -> Stop {
        let rec = self.rec;
        let cfg = &self.plan.cfg;
        let mut at = 0usize;
        let mut limit = cfg.mfs();
        let mut caps: Option<Vec<String>> = None;
        let mut negotiated = u32::MAX;
        let mut table = Reassembler::new();
        let t_shut = self.o.shutdown;
        loop {
            let left = &rec.inb[at..];
            if left.len() < 4 {
                return Stop::Idle;
            }
            let n = u32::from_be_bytes(left[..4].try_into().unwrap()) as usize;
            let s4 = mark(&rec.marks_in, at + 4).max(self.prev_done);
            if n > limit {
                if s4 + 1 >= t_shut {
                    return Stop::Shutdown;
                }
                probe("oversize frame announced");
                return self.expect(s4, s4, Want::Disc(vec![3], None)).unwrap_or(Stop::Ended(self.prev_done));
            }
            if left.len() < 4 + n {
                return Stop::Idle;
            }
            if n == limit {
                probe("frame of exactly the limit received");
            }
            let body = &left[4..4 + n];
            at += 4 + n;
            self.at = at;
            let s = mark(&rec.marks_in, at).max(self.prev_done);
            // whether shutdown came first is open within a millisecond of it
            if s > t_shut + 1 {
                return Stop::Shutdown;
            }
            let maybe_shut = s + 1 >= t_shut;
            let frame = match spop::decode(body) {
                Ok(f) => Ok(f),
                Err(Bad::Gray(_)) => {
                    probe("left open by the protocol");
                    return Stop::Gray;
                }
                Err(Bad::Malformed(why)) => Err(why),
            };
            if maybe_shut && self.nothing_more() {
                // its processing may have begun all the same
                let took = match &frame {
                    Ok(f) if f.ty == NOTIFY => {
                        let call = self.conn.call(self.i, self.ci);
                        let rd = match call.ready {
                            Ready::After(ms) => ms,
                            Ready::Never => u64::MAX / 4,
                            _ => 0,
                        };
                        let run = if call.out == Out::Hang { u64::MAX / 4 } else { call.delay };
                        (rd + run).min(cfg.process_ms())
                    }
                    Ok(f) if f.ty == HA_HELLO => {
                        let ready = self.plan.factory_ready.iter().map(|r| if let Ready::After(ms) = r { *ms } else { 0 });
                        ready.sum::<u64>() + self.conn.make.delay
                    }
                    _ => 0,
                };
                self.busy = self.busy.max(s + took);
                return Stop::Shutdown;
            }
            match (caps.is_some(), frame) {
                (_, Err(why)) => {
                    probe(why);
                    // a control frame cut short may also be reported by what it lacks
                    let codes = match body.first() {
                        Some(&(HA_HELLO | AG_HELLO)) => vec![4, 5, 6, 7, 8, 9],
                        _ => vec![4],
                    };
                    return self.expect(s, s, Want::Disc(codes, None)).unwrap_or(Stop::Ended(self.prev_done));
                }
                (false, Ok(f)) if f.ty == HA_HELLO => match self.hello(s, &f) {
                    Err(stop) => return stop,
                    Ok((c, mfs)) => {
                        negotiated = mfs;
                        limit = limit.min(mfs as usize);
                        caps = Some(c);
                    }
                },
                (true, Ok(f)) if f.ty == NOTIFY => {
                    let fin = f.flags & FIN != 0;
                    let Body::Msgs(msgs) = f.body else { unreachable!() };
                    let frag = caps.as_ref().unwrap().iter().any(|c| c == "fragmentation");
                    if !frag && !fin {
                        probe("fragment without fragmentation");
                        return self.expect(s, s, Want::Disc(vec![10, 4], None)).unwrap_or(Stop::Ended(self.prev_done));
                    }
                    let whole = if frag {
                        if !fin && table.in_progress() > 0 {
                            probe("interleaved fragments");
                        }
                        table.add(fin, (f.sid, f.fid), msgs)
                    } else {
                        Some(msgs)
                    };
                    if let Some(msgs) = whole {
                        if let Some(stop) = self.request(s, f.sid, f.fid, &msgs, negotiated) {
                            return stop;
                        }
                    }
                }
                (started, Ok(f)) => {
                    let codes = match f.ty {
                        HA_DISCON if started => vec![0],
                        HA_DISCON => vec![0, 4],
                        // reading one may fail on what it contains first
                        AG_HELLO | HA_HELLO => vec![4, 5, 6, 7, 8, 9],
                        _ => vec![4],
                    };
                    return self.expect(s, s, Want::Disc(codes, None)).unwrap_or(Stop::Ended(self.prev_done));
                }
            }
        }
    }

    /// No further frame was sent and no further call made.
    fn nothing_more(&self) -> bool {
        self.oi >= self.outs.len() && self.ci >= self.calls().len() && (self.oi > 0 || self.makes.is_empty())
    }

    fn hello(&mut self, s: u64, f: &RFrame) -> Result<(Vec<String>, u32), Stop> {
        let cfg = &self.plan.cfg;
        let done = |me: &Self| Stop::Ended(me.prev_done);
        let items = match spop::ha_hello(f) {
            Ok(i) => i,
            Err(HelloBad::Gray(_)) => return Err(Stop::Gray),
            Err(HelloBad::Status(codes, why)) => {
                probe(why);
                return Err(self.expect(s, s, Want::Disc(codes, None)).unwrap_or(done(self)));
            }
        };
        let mine: &[(u8, u8)] = if cfg.versions.is_empty() { &[(2, 0)] } else { &cfg.versions };
        let Some(&version) = items.versions.iter().filter(|v| mine.contains(v)).max() else {
            probe("no common version");
            return Err(self.expect(s, s, Want::Disc(vec![8], None)).unwrap_or(done(self)));
        };
        let caps: Vec<String> = items.caps.iter().filter(|c| cfg.caps.contains(c)).cloned().collect();
        let mfs = (items.mfs as u64).min(cfg.mfs() as u64) as u32;
        let health = items.healthcheck;
        let want = Want::Hello(Box::new((
            spop::HelloItems { versions: vec![version], mfs, caps: caps.clone(), healthcheck: health },
            version,
            mfs,
        )));
        if health {
            probe("health check");
            self.expect(s, s, want).map_or(Ok(()), Err)?;
            return Err(done(self));
        }
        // the factory comes in
        let ready: u64 = self
            .plan
            .factory_ready
            .iter()
            .map(|r| if let Ready::After(ms) = r { *ms } else { 0 })
            .sum();
        let make = self.conn.make.clone();
        if self.makes.is_empty() {
            // somebody got the factory's refusal
            let refusals: Vec<_> = self.plan.factory_ready.iter().filter_map(|r| if let Ready::Err(e) = r { Some(e) } else { None }).collect();
            if !refusals.is_empty() && matches!(self.outs.get(self.oi), Some((_, Ok(f), _)) if f.ty == AG_DISCON) {
                return Err(self.expect(s, s + ready, Want::Disc(vec![99], None)).unwrap_or(done(self)));
            }
            if !self.excused(s + ready) && self.o.shutdown > s + ready + 1 {
                self.v("missing-service", "a valid HELLO, but no service was created".into());
            }
        }
        if let Some(m) = self.makes.first() {
            let ahead = m.at_end.saturating_sub(self.at);
            if ahead > self.ahead() {
                self.v("reads-ahead", format!("{ahead} bytes beyond the HELLO were taken in while its service was created"));
            }
            if m.start < s {
                self.v("service-before-hello", format!("service created at {} ms, HELLO complete at {s} ms", m.start));
            }
        }
        let due = s + ready + make.delay;
        if self.oi >= self.outs.len() && due + 1 >= self.o.shutdown {
            // shutdown may cut a handshake short
            return Err(Stop::Shutdown);
        }
        match make.out {
            MakeOut::Ok => {
                self.expect(s, due, want).map_or(Ok(()), Err)?;
                Ok((caps, mfs))
            }
            MakeOut::Err(_) => {
                if matches!(self.outs.get(self.oi), Some((_, Ok(f), _)) if f.ty == AG_HELLO) {
                    self.expect(s, due, want).map_or(Ok(()), Err)?;
                }
                Err(self.expect(s, due, Want::Disc(vec![99], None)).unwrap_or(done(self)))
            }
            MakeOut::Panic => Err(Stop::Died(due)),
            MakeOut::Hang => Err(Stop::Gray),
        }
    }

    fn request(&mut self, s: u64, sid: u64, fid: u64, msgs: &[spop::Msg], negotiated: u32) -> Option<Stop> {
        let deadline = self.plan.cfg.process_ms();
        let k = self.ci;
        let call = self.conn.call(self.i, k);
        let rd = match &call.ready {
            Ready::Now => 0,
            Ready::After(ms) => *ms,
            Ready::Err(text) => {
                let fits = spop::encode(&disc(99, text)).len() <= negotiated as usize;
                let stop = self.expect(s, s, Want::Disc(vec![99], fits.then(|| text.clone())));
                return Some(stop.unwrap_or(Stop::Ended(self.prev_done)));
            }
            Ready::Never => u64::MAX / 4,
        };
        let total = rd + if call.out == Out::Hang { u64::MAX / 4 } else { call.delay };
        self.busy = self.busy.max(s + total.min(deadline));
        let rec = self.calls().get(k);
        match rec {
            Some(r) => {
                self.ci += 1;
                let ahead = r.at_start.0.max(r.at_end.0).saturating_sub(self.at);
                if ahead > self.ahead() {
                    self.v("reads-ahead", format!("{ahead} bytes beyond the request being processed (call {k}) were taken in"));
                }
                let pending = self.owed.saturating_sub(r.at_start.1);
                if pending > self.ahead() {
                    self.v("hoards-replies", format!("call {k} was made with {pending} bytes of replies not taken by the peer"));
                }
                if r.msgs != msgs {
                    self.v("wrong-messages", format!("call {k} got {:?} instead of {msgs:?}", r.msgs));
                    return Some(Stop::Wrong);
                }
                if r.start < s {
                    self.v("early-call", format!("call {k} at {} ms, its frame was complete at {s} ms", r.start));
                }
                if r.start > s + rd.min(deadline) + SLACK {
                    self.v("late-call", format!("call {k} at {} ms instead of {s}+{rd} ms", r.start));
                }
                if rd >= deadline + MARGIN {
                    self.v("call-after-deadline", format!("call {k} was made though the service was ready only after {rd} ms"));
                }
            }
            None => {
                // without readiness there is no call
                let excused = self.excused(s + rd.min(deadline));
                if rd + MARGIN < deadline && !excused {
                    self.v("missing-call", format!("request {sid}/{fid} received at {s} ms was never given to the service"));
                    return Some(Stop::Wrong);
                }
                if excused && rd + MARGIN < deadline {
                    return Some(Stop::Broken);
                }
            }
        }
        let timed_out_next =
            matches!(self.outs.get(self.oi), Some((_, Ok(f), _)) if f.ty == AG_DISCON && code(f) == Some(2));
        let expect_timeout = if total >= deadline + MARGIN {
            probe("deadline exceeded");
            true
        } else if total + MARGIN <= deadline {
            if deadline - total < 100 {
                probe("just before the deadline");
            }
            if timed_out_next {
                self.v("early-timeout", format!("request {sid}/{fid} took {total} of {deadline} ms and was timed out"));
                return Some(Stop::Wrong);
            }
            false
        } else {
            probe("at the deadline");
            timed_out_next
        };
        if expect_timeout {
            let due = s + deadline;
            if let Some((t, Ok(f), _)) = self.outs.get(self.oi) {
                if f.ty == ACK {
                    self.v("not-timed-out", format!("request {sid}/{fid} took {total} ms, the limit is {deadline} ms, and was acknowledged"));
                    return Some(Stop::Wrong);
                }
                if *t + 2 < due {
                    self.v("early-timeout", format!("request {sid}/{fid} began at {s} ms and was given up at {t} ms, the limit is {deadline} ms"));
                }
            }
            if let Some(r) = rec {
                if r.end.map_or(true, |(t, _)| t > due + SLACK) {
                    self.v("call-not-dropped", format!("call {k} not abandoned at its deadline {due} ms: {:?}", r.end));
                }
            }
            let stop = self.expect(s, due, Want::Disc(vec![2], None));
            return Some(stop.unwrap_or(Stop::Ended(self.prev_done)));
        }
        let due = s + total;
        match call.out {
            Out::Hang => unreachable!(),
            Out::Panic => Some(Stop::Died(due)),
            Out::Err(text) => {
                let fits = spop::encode(&disc(99, &text)).len() <= negotiated as usize;
                if !fits {
                    probe("error text too long");
                }
                let stop = self.expect(s, due, Want::Disc(vec![99], fits.then_some(text)));
                Some(stop.unwrap_or(Stop::Ended(self.prev_done)))
            }
            Out::Acts(acts) => {
                let size = spop::encode(&RFrame::ack(sid, fid, acts.clone())).len();
                if size > negotiated as usize {
                    probe("result too big");
                    let stop = self.expect(s, due, Want::Disc(vec![3], None));
                    return Some(stop.unwrap_or(Stop::Ended(self.prev_done)));
                }
                if size == negotiated as usize {
                    probe("result of exactly the limit");
                }
                self.expect(s, due, Want::Ack(sid, fid, acts))
            }
        }
    }

    /// The next frame sent has to be this one, on the wire at `due` or soon after. None: it is.
    fn expect(&mut self, _s: u64, due: u64, want: Want) -> Option<Stop> {
        let name = match &want {
            Want::Hello(_) => "HELLO",
            Want::Ack(..) => "ACK",
            Want::Disc(..) => "DISCONNECT",
        };
        let Some((t, got, len)) = self.outs.get(self.oi) else {
            if self.excused(due) {
                return Some(Stop::Broken);
            }
            let class = match &want {
                Want::Hello(_) => "missing-hello",
                Want::Ack(..) => "missing-ack",
                Want::Disc(..) => "missing-disconnect",
            };
            self.v(class, format!("{name} owed at {due} ms was never sent{}", match &want {
                Want::Ack(s, f, _) => format!(" for {s}/{f}"),
                Want::Disc(c, _) => format!(" (code {c:?})"),
                _ => String::new(),
            }));
            return Some(Stop::Wrong);
        };
        let (t, len) = (*t, *len);
        let got = got.as_ref().unwrap().clone();
        self.oi += 1;
        let ok = match &want {
            Want::Hello(h) => {
                let (items, version, mfs) = &**h;
                if got.ty != AG_HELLO {
                    self.v("wrong-frame", format!("{} instead of HELLO", show(&got)));
                    false
                } else {
                    let v = got.get("version").cloned();
                    let m = got.get("max-frame-size").cloned();
                    let c = match got.get("capabilities") {
                        Some(Val::Str(s)) => spop::caps_of(s),
                        _ => None,
                    };
                    let mut ok = true;
                    if v != Some(Val::Str(format!("{}.{}", version.0, version.1))) {
                        self.v("hello-version", format!("{v:?} instead of {version:?}"));
                        ok = false;
                    }
                    if m != Some(Val::U32(*mfs)) {
                        self.v("hello-frame-size", format!("{m:?} instead of {mfs}"));
                        ok = false;
                    }
                    if c.as_ref() != Some(&items.caps) {
                        self.v("hello-capabilities", format!("{:?} instead of {:?}", got.get("capabilities"), items.caps));
                        ok = false;
                    }
                    ok
                }
            }
            Want::Ack(sid, fid, acts) => {
                if got.ty != ACK {
                    let class = if got.ty == AG_DISCON { "disconnect-instead-of-ack" } else { "wrong-frame" };
                    self.v(class, format!("{} instead of ACK {sid}/{fid}", show(&got)));
                    false
                } else if (got.sid, got.fid) != (*sid, *fid) {
                    self.v("wrong-ack-id", format!("ACK {}/{} instead of {sid}/{fid}", got.sid, got.fid));
                    false
                } else if got.flags & (FIN | ABORT) != FIN {
                    self.v("wrong-ack-flags", format!("ACK {sid}/{fid} with flags {:#x}", got.flags));
                    false
                } else if got.body != Body::Acts(acts.clone()) {
                    self.v("wrong-actions", format!("ACK {sid}/{fid} with {:?} instead of {acts:?}", got.body));
                    false
                } else {
                    true
                }
            }
            Want::Disc(codes, text) => {
                if got.ty != AG_DISCON {
                    self.v("no-disconnect", format!("{} instead of DISCONNECT {codes:?}", show(&got)));
                    false
                } else {
                    let c = code(&got);
                    if !c.is_some_and(|c| codes.contains(&c)) {
                        self.v("wrong-code", format!("DISCONNECT with {c:?} ({:?}) instead of {codes:?}", got.get("message")));
                    }
                    if let (Some(text), Some(Val::Str(got))) = (text, got.get("message")) {
                        if !got.contains(text.as_str()) {
                            self.v("wrong-text", format!("DISCONNECT says {got:?} instead of {text:?}"));
                        }
                    }
                    true
                }
            }
        };
        let neg = match &want {
            Want::Hello(h) => h.2,
            _ => self.negotiated(),
        };
        if len > neg as usize {
            self.v("frame-too-big", format!("{name} of {len} bytes, the limit is {neg}"));
        }
        if t > due + SLACK + self.rec.blocked_ms {
            self.v("late-reply", format!("{name} owed at {due} ms was complete at {t} ms"));
        }
        self.prev_done = t;
        self.owed += 4 + len;
        (!ok).then_some(Stop::Wrong)
    }

    fn ahead(&self) -> usize {
        AHEAD + 4 * self.plan.cfg.mfs()
    }

    /// The frame size agreed on: what the agent's own HELLO says.
    fn negotiated(&self) -> u32 {
        self.outs
            .iter()
            .find_map(|o| match o.1.as_ref() {
                Ok(f) if f.ty == AG_HELLO => match f.get("max-frame-size") {
                    Some(Val::U32(n)) => Some(*n),
                    _ => None,
                },
                _ => None,
            })
            .unwrap_or(self.plan.cfg.mfs() as u32)
    }

    // ------------------------------------------------------------ what follows

    fn tail(&mut self, stop: &Stop) {
        let rest = &self.outs[self.oi..];
        let only_disc = rest.len() == 1 && rest[0].1.as_ref().unwrap().ty == AG_DISCON;
        let ended = |t: u64| self.rec.end.is_some_and(|e| e.0 <= t + 1) || self.excused(t);
        let fine = match stop {
            Stop::Ended(_) => rest.is_empty(),
            // a last word is allowed when the stream has ended, or the agent shuts down
            Stop::Idle => rest.is_empty() || only_disc && (ended(rest[0].0) || rest[0].0 + 1 >= self.o.shutdown),
            Stop::Died(_) | Stop::Shutdown | Stop::Broken => rest.is_empty() || only_disc,
            Stop::Gray | Stop::Wrong => true,
        };
        if !fine {
            let list: Vec<_> = rest.iter().map(|o| show(o.1.as_ref().unwrap())).collect();
            self.v("extra-frame", format!("sent without reason: {list:?}"));
        }
        let extra = self.calls().len() - self.ci.min(self.calls().len());
        if extra > 0 && !matches!(stop, Stop::Gray | Stop::Wrong) {
            let c = &self.calls()[self.ci];
            let class = if matches!(stop, Stop::Shutdown) { "call-after-shutdown" } else { "extra-call" };
            self.v(class, format!("call at {} ms without a request for it: {:?}", c.start, c.msgs));
        }
    }

    fn closing(&mut self, stop: &Stop) {
        let r = self.rec;
        if r.w_stuck || self.makes.iter().any(|m| m.end.is_none()) {
            return;
        }
        let t = self.o.shutdown;
        let busy = self
            .makes
            .iter()
            .flat_map(|m| m.calls.iter().filter_map(|c| c.end.map(|e| e.0)).chain(m.end.map(|e| e.0)))
            .max()
            .unwrap_or(0)
            .max(self.busy);
        let written = r.marks_out.last().map_or(0, |m| m.1);
        let by_shutdown = t.max(busy).max(written);
        let due = match stop {
            Stop::Ended(at) => at.max(&self.prev_done).to_owned(),
            Stop::Died(at) => *at,
            Stop::Idle | Stop::Shutdown => match r.end {
                Some((at, Cut::Eof | Cut::Reset)) => by_shutdown.min(at.max(busy).max(written)),
                _ => by_shutdown,
            },
            Stop::Broken => {
                let broken = [r.w_failed, r.reset_at, r.client_closed].into_iter().flatten().min().unwrap_or(0);
                // it is noticed when the next reply is written, if not before
                let tried = mark(&r.marks_in, self.at);
                by_shutdown.min(broken.max(busy).max(written).max(self.prev_done).max(tried))
            }
            Stop::Gray | Stop::Wrong => by_shutdown + self.plan.cfg.process_ms(),
        };
        // nothing is left to be done once writing has failed
        let due = r.w_failed.map_or(due, |w| due.min(w.max(busy)));
        let due = due.max(r.accepted_at.unwrap_or(0));
        match r.closed_at {
            None => self.v("not-closed", format!("should have been closed at {due} ms")),
            Some(c) if c > due + SLACK + r.blocked_ms => {
                self.v("late-close", format!("closed at {c} ms instead of {due} ms"))
            }
            Some(c) => {
                let ended = matches!(r.end, Some((e, Cut::Eof | Cut::Reset)) if e <= c + 1);
                if matches!(stop, Stop::Idle) && !ended && c + 1 < t && !self.excused(c) {
                    self.v("closed-early", format!("closed at {c} ms for no reason"));
                }
            }
        }
    }

    fn resources(&mut self) {
        for m in self.makes {
            if m.made.is_none() {
                continue;
            }
            let closed = self.rec.closed_at;
            match (m.dropped.len(), closed) {
                (1, Some(c)) => {
                    if m.dropped[0] > c + SLACK {
                        self.v("service-leak", format!("service dropped at {} ms, connection closed at {c} ms", m.dropped[0]));
                    }
                }
                (0, Some(c)) => self.v("service-leak", format!("connection closed at {c} ms, service never dropped")),
                (0 | 1, None) => {}
                (n, _) => self.v("service-dropped-twice", format!("{n} times")),
            }
            for (k, c) in m.calls.iter().enumerate() {
                if c.end.is_none() && closed.is_some() {
                    self.v("call-leak", format!("call {k} is still pending after the connection was closed"));
                }
            }
        }
    }
}

/// Every block of headers was read as what it is.
fn check_headers(o: &Outcome) {
    for (conn, makes) in &o.makes {
        for (k, call) in makes.iter().flat_map(|m| m.calls.iter().enumerate()) {
            for (block, got) in &call.headers {
                let Some(all) = spop::headers(block) else {
                    ctx::probe("blocks of headers that are none");
                    continue;
                };
                let mut want = ctx::Headers::new();
                for (name, value) in all {
                    want.entry(name).or_default().push(value);
                }
                if got.as_ref() != Ok(&want) {
                    let show = |h: &ctx::Headers| {
                        let line = |(n, v): (&String, &Vec<Vec<u8>>)| {
                            let v: Vec<_> = v.iter().map(|v| format!("{} bytes", v.len())).collect();
                            format!("{n}: {}", v.join(" / "))
                        };
                        h.iter().map(line).collect::<Vec<_>>().join(", ")
                    };
                    let got = got.as_ref().map(show);
                    viol("headers", format!("connection {conn}: call {k} read the headers {got:?} instead of {}", show(&want)));
                }
            }
        }
    }
}

fn mark(marks: &[(usize, u64)], off: usize) -> u64 {
    let k = marks.partition_point(|m| m.0 < off);
    marks.get(k).or(marks.last()).map_or(0, |m| m.1)
}

fn code(f: &RFrame) -> Option<u32> {
    match f.get("status-code") {
        Some(Val::U32(n)) => Some(*n),
        _ => None,
    }
}

pub fn disc(code: u32, text: &str) -> RFrame {
    RFrame::control(AG_DISCON, vec![("status-code".into(), Val::U32(code)), ("message".into(), Val::Str(text.into()))])
}

pub fn show(f: &RFrame) -> String {
    match f.ty {
        AG_HELLO => "HELLO".into(),
        AG_DISCON => format!("DISCONNECT {:?} {:?}", code(f), f.get("message")),
        ACK => format!("ACK {}/{}", f.sid, f.fid),
        t => format!("frame type {t}"),
    }
}
