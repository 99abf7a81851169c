//! A plan is everything one run is made of: inputs, faults, delays and the seed of the scheduler.
//! Running a plan is a pure function of the plan and the code under test.

use serde::{Deserialize, Serialize};

use crate::spop::{hex, Act, RFrame};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// Everything is traced.
    #[serde(default)]
    pub log: bool,
    pub world: World,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum World {
    A(APlan),
    B(BPlan),
    C(CPlan),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Random,
    Fifo,
    Lifo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub mode: Mode,
    pub seed: u64,
}

// ---------------------------------------------------------------- world A: the agent

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct APlan {
    pub cfg: Cfg,
    /// Through `Agent` (accept loop) or one `Connection` per transport.
    pub agent: bool,
    pub sched: Sched,
    pub conns: Vec<Conn>,
    pub accept_faults: Vec<AcceptFault>,
    /// Factory readiness, per service made.
    pub factory_ready: Vec<Ready>,
    pub shutdown_at: Option<u64>,
    /// Jumps of the wall clock: at so many ms, by so many ms.
    #[serde(default)]
    pub clock_jumps: Vec<(u64, i64)>,
    /// The listening socket is in blocking mode when the agent gets it.
    #[serde(default)]
    pub blocking: bool,
    /// Serve is called a second time, at this time.
    #[serde(default)]
    pub serve_again: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub versions: Vec<(u8, u8)>,
    pub caps: Vec<String>,
    /// None: the builder's default (16384).
    pub mfs: Option<usize>,
    /// None: the builder's default (15 s).
    pub process_ms: Option<u64>,
}
impl Cfg {
    pub fn mfs(&self) -> usize {
        self.mfs.unwrap_or(16384)
    }
    pub fn process_ms(&self) -> u64 {
        // as far as simulated time goes there is no difference
        self.process_ms.unwrap_or(15_000).min(1 << 50)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcceptFault {
    /// Strikes while a connection is waiting and this many were accepted (or lost) before.
    pub after: u32,
    pub errno: i32,
    pub count: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conn {
    pub at: u64,
    pub ops: Vec<Op>,
    pub end: End,
    pub net: NetPlan,
    pub make: Make,
    pub calls: Vec<Call>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Frame(RFrame),
    Bytes(#[serde(with = "hex")] Vec<u8>),
    Wait(u64),
    /// Wait for this many frames in all (or for the agent to close).
    Replies(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Linger,
    Close,
    HalfClose,
    Reset,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct NetPlan {
    pub seed: u64,
    /// Largest extra delay of a segment, ms.
    pub latency: u64,
    pub seg: Seg,
    /// Percent of polls that answer "not yet" once for no reason.
    pub spurious: u32,
    /// Most bytes taken per write / given per read; 0: no limit.
    pub wr: usize,
    pub rd: usize,
    /// Extra delay (ms) before the byte at the offset arrives at the agent.
    pub stalls: Vec<(usize, u64)>,
    /// The client-to-agent stream ends at this offset.
    pub cut: Option<(usize, Cut)>,
    /// The client stops reading after that many bytes, for so many ms or for ever.
    pub wblock: Vec<(usize, Option<u64>)>,
    /// Writes fail once that many bytes were taken.
    pub werr: Option<(usize, WErr)>,
    /// Writes fail once that many complete frames have arrived at the client.
    #[serde(default)]
    pub werr_frame: Option<(usize, WErr)>,
    /// Written bytes are held back until flushed.
    pub hold: bool,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum Seg {
    #[default]
    Whole,
    Bytes,
    Small,
    Random,
    Coalesce,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cut {
    Eof,
    Reset,
    /// Nothing more arrives, and nobody says so.
    Silence,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum WErr {
    /// Bytes are taken, but flushing them fails.
    Flush,
    Pipe,
    Reset,
    Zero,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ready {
    Now,
    After(u64),
    Err(String),
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Make {
    pub delay: u64,
    pub out: MakeOut,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MakeOut {
    Ok,
    Err(String),
    Panic,
    Hang,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub ready: Ready,
    pub delay: u64,
    pub out: Out,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Out {
    Acts(Vec<Act>),
    Err(String),
    Panic,
    Hang,
}

impl Conn {
    /// What the service does on its `k`-th call.
    pub fn call(&self, conn: usize, k: usize) -> Call {
        self.calls.get(k).cloned().unwrap_or_else(|| Call {
            ready: Ready::Now,
            delay: 0,
            out: Out::Acts(vec![Act::Set(1, format!("c{conn}"), crate::spop::Val::U64(k as u64))]),
        })
    }
}

// ---------------------------------------------------------------- world B: threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BPlan {
    pub sched: Sched,
    /// Percent of scheduling points at which the running thread is preempted.
    pub preempt: u32,
    /// Allocations of the code under test are scheduling points, too.
    #[serde(default)]
    pub allocs: bool,
    pub kind: BKind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BKind {
    Dispatch(Dispatch),
    Reassembly(ReasmPlan),
    Conns(ConnsPlan),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dispatch {
    /// What each dispatching thread does.
    pub threads: Vec<Vec<DOp>>,
    /// How the consumer treats the entries it takes (cyclically).
    pub how: Vec<AckHow>,
    pub consumer: Consumer,
    /// The processing side goes away after it took this many entries.
    pub drop_after: Option<usize>,
    /// Threads wait for acknowledgements right after dispatching the request, rather than at the end.
    pub waiters: bool,
    /// The dispatcher is cloned for every thread rather than shared.
    pub cloned: bool,
    /// Nothing orders the threads: frames of one pair of ids may be dispatched at the same time.
    #[serde(default)]
    pub loose: bool,
    /// Streams are polled by somebody else (another waker) before they are awaited.
    #[serde(default)]
    pub glance: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DOp {
    pub fin: bool,
    pub sid: u64,
    pub fid: u64,
    /// Ids of the messages in this frame (unique in the plan).
    pub msgs: Vec<u64>,
    /// How many operations on the same ids (of any thread) come before this one.
    #[serde(default)]
    pub turn: u32,
    /// Some other frame: 1 a DISCONNECT of that side, 2 none that belongs there.
    #[serde(default)]
    pub other: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Consumer {
    /// Reads the messages of one entry before it takes the next.
    Inline,
    /// A thread for every entry.
    Spawn,
    /// One task that waits for everything at once.
    Joint,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AckHow {
    Complete,
    Abort,
    Drop,
    /// Ack before reading any message.
    Early,
    /// Drop the message stream at once, then complete.
    Deaf,
    CompleteTwice,
    /// The handler panics while it holds the entry.
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReasmPlan {
    pub threads: Vec<Vec<DOp>>,
    /// Actions rather than plain numbers.
    pub frames: bool,
    /// One thread that hands over frames (acknowledgements or notifications).
    #[serde(default)]
    pub handler: bool,
}

/// Connections on threads of their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConnsPlan {
    pub mfs: u32,
    pub conns: Vec<TConn>,
    /// A thread asks for the shutdown, after so many scheduling points of its own.
    pub cancel: Option<u32>,
    pub factory_lazy: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TConn {
    pub frag: bool,
    /// What the peer sends after its HELLO.
    pub frames: Vec<RFrame>,
    pub end: TEnd,
    pub rd: usize,
    pub wr: usize,
    pub spurious: u32,
    /// How often the service is asked in vain, for readiness and for the result.
    pub lazy: u32,
    pub make_lazy: u32,
    /// The call that fails.
    pub fail: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TEnd {
    Eof,
    /// Nothing more is heard of the peer.
    Linger,
    Disconnect,
    /// Ends in the middle of a frame.
    Part,
    Garbage,
}

// ---------------------------------------------------------------- world C: codec to codec

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CPlan {
    pub sched: Sched,
    pub net: NetPlan,
    pub mfs: usize,
    /// The reader's limit.
    pub read_mfs: usize,
    pub buffered: bool,
    pub frames: Vec<CFrame>,
    pub close: bool,
    /// The reader sends back every frame it read.
    #[serde(default)]
    pub echo: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CFrame {
    /// Written by the codec.
    Frame(RFrame),
    /// Put on the wire by somebody else.
    Raw(#[serde(with = "hex")] Vec<u8>),
    /// The same, with a length prefix of its own.
    Bytes(#[serde(with = "hex")] Vec<u8>),
    Wait(u64),
}
