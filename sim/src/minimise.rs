//! Smaller plans: fewer connections, operations, faults and delays, a simpler schedule.

use crate::plan::*;
use crate::spop::Body;

type Edit = Box<dyn Fn(&mut Plan) -> bool>;

/// Edits worth trying, the coarse ones first. An edit that does not apply returns false.
fn edits(p: &Plan) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![Box::new(|p| std::mem::take(&mut p.log))];
    match &p.world {
        World::A(a) => edits_a(a, &mut v),
        World::B(b) => edits_b(b, &mut v),
        World::C(c) => edits_c(c, &mut v),
    }
    v
}

macro_rules! on {
    ($v:expr, $w:ident, |$x:ident| $body:expr) => {
        $v.push(Box::new(move |p: &mut Plan| {
            let World::$w($x) = &mut p.world else { return false };
            $body
        }) as Edit)
    };
}

/// Assigns, unless it is that already.
fn set<T: PartialEq>(slot: &mut T, to: T) -> bool {
    let changed = *slot != to;
    *slot = to;
    changed
}

fn edits_a(a: &APlan, v: &mut Vec<Edit>) {
    for i in (0..a.conns.len()).rev() {
        on!(v, A, |a| {
            if a.conns.len() < 2 || i >= a.conns.len() {
                return false;
            }
            a.conns.remove(i);
            true
        });
    }
    on!(v, A, |a| !std::mem::take(&mut a.accept_faults).is_empty());
    on!(v, A, |a| {
        if a.factory_ready.iter().all(|r| *r == Ready::Now) {
            return false;
        }
        a.factory_ready.clear();
        true
    });
    on!(v, A, |a| a.shutdown_at.take().is_some());
    on!(v, A, |a| !std::mem::take(&mut a.clock_jumps).is_empty());
    on!(v, A, |a| set(&mut a.blocking, false));
    on!(v, A, |a| set(&mut a.serve_again, None));
    on!(v, A, |a| {
        let simple = a.sched.mode == Mode::Fifo;
        a.sched.mode = Mode::Fifo;
        !simple
    });
    for i in 0..a.conns.len() {
        on!(v, A, |a| {
            let n = &mut a.conns[i].net;
            let old = format!("{n:?}");
            *n = NetPlan { seed: n.seed, ..NetPlan::default() };
            old != format!("{n:?}")
        });
        on!(v, A, |a| set(&mut a.conns[i].net.latency, 0));
        on!(v, A, |a| set(&mut a.conns[i].net.seg, Seg::Whole));
        on!(v, A, |a| set(&mut a.conns[i].net.spurious, 0));
        on!(v, A, |a| set(&mut a.conns[i].net.wr, 0));
        on!(v, A, |a| set(&mut a.conns[i].net.rd, 0));
        on!(v, A, |a| set(&mut a.conns[i].net.hold, false));
        on!(v, A, |a| !std::mem::take(&mut a.conns[i].net.stalls).is_empty());
        on!(v, A, |a| !std::mem::take(&mut a.conns[i].net.wblock).is_empty());
        on!(v, A, |a| a.conns[i].net.cut.take().is_some());
        on!(v, A, |a| a.conns[i].net.werr.take().is_some());
        on!(v, A, |a| a.conns[i].net.werr_frame.take().is_some());
        on!(v, A, |a| set(&mut a.conns[i].at, 0));
        on!(v, A, |a| {
            let m = &mut a.conns[i].make;
            let simple = m.delay == 0 && m.out == MakeOut::Ok;
            *m = Make { delay: 0, out: MakeOut::Ok };
            !simple
        });
        let ops = a.conns[i].ops.len();
        let mut len = ops / 2;
        while len > 0 {
            for from in (0..ops).step_by(len).rev() {
                on!(v, A, |a| {
                    let o = &mut a.conns[i].ops;
                    if from + len > o.len() {
                        return false;
                    }
                    o.drain(from..from + len);
                    true
                });
            }
            len /= 2;
        }
        for k in 0..a.conns[i].calls.len() {
            on!(v, A, |a| {
                let Some(c) = a.conns[i].calls.get_mut(k) else { return false };
                let mut changed = c.ready != Ready::Now || c.delay != 0;
                c.ready = Ready::Now;
                c.delay = 0;
                if c.out != Out::Acts(vec![]) {
                    c.out = Out::Acts(vec![]);
                    changed = true;
                }
                changed
            });
            on!(v, A, |a| a.conns[i].calls.get_mut(k).is_some_and(|c| set(&mut c.ready, Ready::Now)));
            on!(v, A, |a| a.conns[i].calls.get_mut(k).is_some_and(|c| set(&mut c.delay, 0)));
        }
        for k in 0..ops {
            on!(v, A, |a| match a.conns[i].ops.get_mut(k) {
                Some(Op::Frame(f)) => match &mut f.body {
                    Body::Msgs(m) if m.len() > 1 => {
                        m.truncate(m.len() / 2);
                        true
                    }
                    Body::Msgs(m) if m.iter().any(|m| m.args.len() > 1) => {
                        m.iter_mut().for_each(|m| m.args.truncate(1));
                        true
                    }
                    _ => false,
                },
                Some(Op::Wait(ms)) if *ms > 0 => {
                    *ms /= 2;
                    true
                }
                _ => false,
            });
        }
    }
}

fn edit_ops(threads: &mut Vec<Vec<DOp>>, f: impl FnOnce(&mut Vec<Vec<DOp>>) -> bool) -> bool {
    let ok = f(threads);
    if ok {
        // the order of the operations on one pair of ids stays, without gaps
        let mut turns: std::collections::BTreeMap<(u64, u64), Vec<u32>> = Default::default();
        for o in threads.iter().flatten() {
            turns.entry((o.sid, o.fid)).or_default().push(o.turn);
        }
        for t in turns.values_mut() {
            t.sort();
        }
        for o in threads.iter_mut().flatten() {
            o.turn = turns[&(o.sid, o.fid)].iter().position(|t| *t == o.turn).unwrap_or(0) as u32;
        }
    }
    ok
}

/// Every request is dispatched to its end.
fn complete(b: &BPlan) -> bool {
    let BKind::Dispatch(d) = &b.kind else { return true };
    if d.loose {
        return true;
    }
    let mut last: std::collections::BTreeMap<(u64, u64), &DOp> = Default::default();
    for o in d.threads.iter().flatten() {
        let l = last.entry((o.sid, o.fid)).or_insert(o);
        if o.turn >= l.turn {
            *l = o;
        }
    }
    last.values().all(|o| o.fin)
}

fn edits_b(b: &BPlan, v: &mut Vec<Edit>) {
    fn threads(b: &mut BPlan) -> &mut Vec<Vec<DOp>> {
        match &mut b.kind {
            BKind::Dispatch(d) => &mut d.threads,
            BKind::Reassembly(r) => &mut r.threads,
            BKind::Conns(_) => unreachable!("has no operations"),
        }
    }
    if let BKind::Conns(c) = &b.kind {
        edits_conns(c, v);
        return edits_sched(v);
    }
    let mut copy = b.clone();
    let t = threads(&mut copy).clone();
    for i in (0..t.len()).rev() {
        on!(v, B, |b| edit_ops(threads(b), |t| {
            if t.len() < 2 || i >= t.len() {
                return false;
            }
            t.remove(i);
            true
        }));
        for k in (0..t[i].len()).rev() {
            on!(v, B, |b| edit_ops(threads(b), |t| {
                if i >= t.len() || k >= t[i].len() {
                    return false;
                }
                t[i].remove(k);
                true
            }));
            on!(v, B, |b| {
                let Some(o) = threads(b).get_mut(i).and_then(|t| t.get_mut(k)) else { return false };
                let n = o.msgs.len();
                o.msgs.truncate(1);
                o.msgs.len() < n
            });
        }
    }
    if let BKind::Dispatch(_) = &b.kind {
        on!(v, B, |b| match &mut b.kind {
            BKind::Dispatch(d) => d.drop_after.take().is_some(),
            _ => false,
        });
        on!(v, B, |b| match &mut b.kind {
            BKind::Dispatch(d) => set(&mut d.waiters, false),
            _ => false,
        });
        on!(v, B, |b| match &mut b.kind {
            BKind::Dispatch(d) => set(&mut d.glance, false),
            _ => false,
        });
        on!(v, B, |b| match &mut b.kind {
            BKind::Dispatch(d) => set(&mut d.consumer, Consumer::Inline),
            _ => false,
        });
        on!(v, B, |b| match &mut b.kind {
            BKind::Dispatch(d) => set(&mut d.how, vec![AckHow::Complete]),
            _ => false,
        });
    }
    edits_sched(v);
}

fn edits_conns(c: &ConnsPlan, v: &mut Vec<Edit>) {
    macro_rules! conns {
        (|$c:ident| $body:expr) => {
            on!(v, B, |b| {
                let BKind::Conns($c) = &mut b.kind else { return false };
                $body
            })
        };
    }
    for i in (0..c.conns.len()).rev() {
        // the number of a connection is its name
        if i + 1 == c.conns.len() && i > 0 {
            conns!(|c| {
                let n = c.conns.len();
                c.conns.truncate(i);
                c.conns.len() < n
            });
        }
        conns!(|c| c.conns.get_mut(i).is_some_and(|c| c.fail.take().is_some()));
        conns!(|c| c.conns.get_mut(i).is_some_and(|c| set(&mut c.rd, 0) | set(&mut c.wr, 0)));
        conns!(|c| c.conns.get_mut(i).is_some_and(|c| set(&mut c.spurious, 0)));
        conns!(|c| c.conns.get_mut(i).is_some_and(|c| set(&mut c.lazy, 0) | set(&mut c.make_lazy, 0)));
        conns!(|c| c.conns.get_mut(i).is_some_and(|c| c.end != TEnd::Linger && set(&mut c.end, TEnd::Eof)));
        for k in (0..c.conns[i].frames.len()).rev() {
            conns!(|c| {
                let Some(c) = c.conns.get_mut(i) else { return false };
                if k >= c.frames.len() {
                    return false;
                }
                c.frames.remove(k);
                true
            });
            conns!(|c| match c.conns.get_mut(i).and_then(|c| c.frames.get_mut(k)).map(|f| &mut f.body) {
                Some(Body::Msgs(m)) if !m.is_empty() => {
                    m.pop();
                    true
                }
                _ => false,
            });
        }
    }
    conns!(|c| set(&mut c.factory_lazy, 0));
    conns!(|c| c.conns.iter().all(|c| c.end != TEnd::Linger) && c.cancel.take().is_some());
}

fn edits_sched(v: &mut Vec<Edit>) {
    on!(v, B, |b| set(&mut b.allocs, false));
    for pct in [0, 5, 20, 50] {
        on!(v, B, |b| b.preempt > pct && set(&mut b.preempt, pct));
    }
    on!(v, B, |b| set(&mut b.sched.mode, Mode::Fifo));
}

fn edits_c(c: &CPlan, v: &mut Vec<Edit>) {
    let n = c.frames.len();
    let mut len = n / 2;
    while len > 0 {
        for from in (0..n).step_by(len).rev() {
            on!(v, C, |c| {
                if from + len > c.frames.len() || c.frames.len() == len {
                    return false;
                }
                c.frames.drain(from..from + len);
                true
            });
        }
        len /= 2;
    }
    on!(v, C, |c| {
        let old = format!("{:?}", c.net);
        c.net = NetPlan { seed: c.net.seed, ..NetPlan::default() };
        old != format!("{:?}", c.net)
    });
    on!(v, C, |c| set(&mut c.net.latency, 0));
    on!(v, C, |c| set(&mut c.net.seg, Seg::Whole));
    on!(v, C, |c| set(&mut c.net.spurious, 0));
    on!(v, C, |c| set(&mut c.net.wr, 0));
    on!(v, C, |c| set(&mut c.net.rd, 0));
    on!(v, C, |c| !std::mem::take(&mut c.net.stalls).is_empty());
    on!(v, C, |c| !std::mem::take(&mut c.net.wblock).is_empty());
    on!(v, C, |c| c.net.cut.take().is_some());
    on!(v, C, |c| c.net.werr.take().is_some());
    on!(v, C, |c| set(&mut c.echo, false));
    on!(v, C, |c| set(&mut c.buffered, false));
    on!(v, C, |c| set(&mut c.sched.mode, Mode::Fifo));
    for k in 0..n {
        on!(v, C, |c| match c.frames.get_mut(k) {
            Some(CFrame::Frame(f)) => match &mut f.body {
                Body::Msgs(m) if m.len() > 1 => {
                    m.truncate(m.len() / 2);
                    true
                }
                Body::Acts(m) if m.len() > 1 => {
                    m.truncate(m.len() / 2);
                    true
                }
                _ => false,
            },
            _ => false,
        });
    }
}

/// Applies whatever keeps `bad` true, until nothing more does or `bad` gave up.
pub fn minimise(plan: &Plan, mut bad: impl FnMut(&Plan) -> Option<bool>) -> (Plan, u64) {
    let mut best = plan.clone();
    let mut tried = 0;
    loop {
        let mut progress = false;
        let mut k = 0;
        loop {
            let all = edits(&best);
            let Some(e) = all.get(k) else { break };
            let mut p = best.clone();
            k += 1;
            if !e(&mut p) || matches!(&p.world, World::B(b) if !complete(b)) {
                continue;
            }
            tried += 1;
            match bad(&p) {
                None => return (best, tried),
                Some(true) => {
                    best = p;
                    progress = true;
                    k -= 1;
                }
                Some(false) => {}
            }
        }
        if !progress {
            return (best, tried);
        }
    }
}
