//! Known findings: what is wrong in /repo and was not repaired, with an input that shows it.

use std::path::Path;

use crate::plan::*;
use crate::spop::{self, Act, Body, Msg, RFrame, Val};

pub struct Probe {
    pub name: &'static str,
    pub what: &'static str,
    pub plan: Plan,
    /// What the calls of the service should be.
    pub right: Vec<Vec<Msg>>,
    /// What they are.
    pub wrong: Vec<Vec<Msg>>,
}

fn msg(n: u64) -> Msg {
    Msg { name: "m".into(), args: vec![("n".into(), Val::U64(n))] }
}

/// One connection with fragmentation that sends these frames, one after the other.
fn fragments(prop: &str, frames: Vec<RFrame>) -> Plan {
    let text = |s: &str| Val::Str(s.into());
    let mut ops = vec![
        Op::Frame(RFrame::control(
            spop::HA_HELLO,
            vec![
                ("supported-versions".into(), text("2.0")),
                ("max-frame-size".into(), Val::U32(16384)),
                ("capabilities".into(), text("fragmentation,pipelining")),
            ],
        )),
        Op::Replies(1),
    ];
    ops.extend(frames.into_iter().map(Op::Frame));
    ops.push(Op::Wait(1000));
    let calls = (0..3).map(|_| Call { ready: Ready::Now, delay: 0, out: Out::Acts(vec![Act::Unset(0, "v".into())]) }).collect();
    let conn = Conn { at: 0, ops, end: End::Close, net: NetPlan::default(), make: Make { delay: 0, out: MakeOut::Ok }, calls };
    let caps = vec!["fragmentation".to_string(), "pipelining".to_string()];
    Plan {
        prop: prop.into(),
        seed: 1,
        log: false,
        world: World::A(APlan {
            cfg: Cfg { versions: vec![(2, 0)], caps, mfs: None, process_ms: None },
            agent: true,
            sched: Sched { mode: Mode::Fifo, seed: 1 },
            conns: vec![conn],
            accept_faults: vec![],
            factory_ready: vec![],
            shutdown_at: None,
            clock_jumps: vec![],
            blocking: false,
            serve_again: None,
        }),
    }
}

pub fn probes(prop: &str) -> Vec<Probe> {
    if prop != "C06" {
        return vec![];
    }
    let mut abort = RFrame::notify(true, 1, 1, vec![]);
    abort.flags |= spop::ABORT;
    let unset = RFrame { ty: 0, flags: spop::FIN, sid: 1, fid: 1, body: Body::Msgs(vec![msg(2)]) };
    vec![
        Probe {
            name: "aborted-notify",
            what: "a fragmented NOTIFY that its peer aborts (flags FIN and ABORT) is handed to the service as if it were complete",
            plan: fragments(prop, vec![RFrame::notify(false, 1, 1, vec![msg(1)]), abort, RFrame::notify(true, 1, 2, vec![msg(3)])]),
            right: vec![vec![msg(3)]],
            wrong: vec![vec![msg(1)], vec![msg(3)]],
        },
        Probe {
            name: "unset-continuation",
            what: "a fragment of type UNSET, which the protocol prescribes for all fragments but the first, is refused instead of being gathered",
            plan: fragments(prop, vec![RFrame::notify(false, 1, 1, vec![msg(1)]), unset]),
            right: vec![vec![msg(1), msg(2)]],
            wrong: vec![],
        },
    ]
}

/// One small run of each kind. What the libraries initialise once in a process (and draw random
/// numbers for) is initialised after that, so that a run is the same in any process.
pub fn warm_up() {
    let op = |fin| DOp { fin, sid: 1, fid: 1, msgs: vec![1], turn: !fin as u32, other: 0 };
    let sched = Sched { mode: Mode::Fifo, seed: 1 };
    let b = |kind| World::B(BPlan { sched: sched.clone(), preempt: 50, allocs: true, kind });
    let frames = vec![CFrame::Frame(RFrame::notify(true, 1, 1, vec![msg(1)]))];
    let mut plans = vec![fragments("", vec![RFrame::notify(false, 1, 1, vec![msg(1)]), RFrame::notify(true, 1, 1, vec![msg(2)])])];
    for world in [
        b(BKind::Dispatch(Dispatch {
            threads: vec![vec![op(true)]],
            how: vec![AckHow::Complete],
            consumer: Consumer::Joint,
            drop_after: None,
            waiters: false,
            cloned: true,
            loose: false,
            glance: true,
        })),
        b(BKind::Reassembly(ReasmPlan { threads: vec![vec![op(true)]], frames: true, handler: false })),
        b(BKind::Conns(ConnsPlan {
            mfs: 1000,
            conns: vec![TConn { frag: true, frames: vec![RFrame::notify(true, 1, 1, vec![msg(1)])], end: TEnd::Disconnect, rd: 0, wr: 0, spurious: 0, lazy: 1, make_lazy: 1, fail: None }],
            cancel: Some(0),
            factory_lazy: 1,
        })),
        World::C(CPlan { sched: sched.clone(), net: NetPlan::default(), mfs: 1000, read_mfs: 1000, buffered: true, frames, close: true, echo: true }),
    ] {
        plans.push(Plan { prop: String::new(), seed: 1, log: false, world });
    }
    for p in &plans {
        for log in [true, false] {
            crate::exec::exec(&Plan { log, ..p.clone() }, false);
        }
    }
    // the regular expressions that parse versions keep a cache for every eighth thread
    for _ in 0..20 {
        crate::exec::exec(&plans[0], false);
    }
}

/// Whether the committed list has this finding.
pub fn listed(root: &Path, prop: &str, name: &str) -> bool {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    text.lines().any(|l| l.starts_with(&format!("known: property={prop} {name} ")))
}
