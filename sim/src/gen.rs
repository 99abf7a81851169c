//! Makes plans: a workload, a configuration, a schedule seed and faults for one property, all drawn
//! from the run's seed (swarm style: every run enables its own subset of everything).

use crate::plan::*;
use crate::rng::{mix, mix_str, Rng};
use crate::spop::{self, Act, Body, Msg, RFrame, Val};

pub fn plan(prop: &str, base: u64, i: u64, thorough: bool) -> Plan {
    let seed = mix(mix_str(base, prop) ^ mix(i));
    let mut r = Rng::stream(seed, "plan", 0);
    // the search deepens with the run index in the thorough tier
    let big = thorough && r.pct(40);
    let world = match prop {
        "C13" | "C14" => World::B(dispatch(&mut r, prop == "C14", big)),
        "C15" => World::B(reassembly(&mut r, big)),
        "C01" | "C06" | "C07" | "C08" if r.pct(12) => World::B(threads(&mut r, prop, big)),
        "C02" | "C19" if r.pct(5) => World::B(threads(&mut r, prop, big)),
        "C18" => World::C(codec(&mut r, false, big)),
        "C10" if r.pct(30) => World::C(codec(&mut r, true, big)),
        "C11" if r.pct(25) => World::C(codec_sizes(&mut r)),
        _ => World::A(Gen { r, big, uniq: 0, headers: false }.agent(prop)),
    };
    let log = Rng::stream(seed, "log", 0).pct(8);
    Plan { prop: prop.to_string(), seed, log, world }
}

fn sched(r: &mut Rng) -> Sched {
    let mode = match r.below(10) {
        0 => Mode::Fifo,
        1 | 2 => Mode::Lifo,
        _ => Mode::Random,
    };
    Sched { mode, seed: r.u64() }
}

// ---------------------------------------------------------------- values

const EDGES: &[u64] = &[
    0, 1, 127, 128, 239, 240, 241, 255, 256, 2287, 2288, 2289, 264431, 264432, 33818863, 33818864, 4328786159,
    4328786160, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 554084600047, 554084600048, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0x1020_4081_0204_08ef, 0x1020_4081_0204_08f0, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
];

/// Distances at which numbers cut short are the same.
const ALIAS: &[u64] = &[0, 0, 0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 48, 1 << 63];

/// Minutes, hours, a day.
const LONG: &[u64] = &[31_000, 61_000, 130_000, 310_000, 910_000, 3_700_000, 90_000_000];

const UNKNOWN_CAPS: [&str; 9] =
    ["resume", "x", "fragmentation2", "pipeline", "asynchronous", "a-sync", "fragment", "pipelining.v2", "capacité"];

pub fn num(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.pick(EDGES),
        1 => r.u64() >> r.below(64),
        2 => r.below(300),
        _ => (r.pick(EDGES).wrapping_add(r.below(5))).wrapping_sub(2),
    }
}

fn text(r: &mut Rng, max: usize) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => *r.pick(&[239, 240, 241, 255, 256, 2287, 2288, 2289]),
        2 => r.usize(0, 3000),
        _ => r.usize(0, 20),
    }
    .min(max);
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(12) {
            0 => 'é',
            1 => '€',
            2 => '\u{10348}',
            3 => '\0',
            4 => ',',
            _ => (b'a' + r.below(26) as u8) as char,
        };
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}

pub fn val(r: &mut Rng, max: usize) -> Val {
    match r.below(11) {
        0 => Val::Null,
        1 => Val::Bool(r.pct(50)),
        2 => Val::I32(match r.below(3) {
            0 => *r.pick(&[0, -1, 1, i32::MIN, i32::MAX, -240, 240, i32::MIN + 1]),
            _ => num(r) as i32,
        }),
        3 => Val::U32(num(r) as u32),
        4 => Val::I64(match r.below(3) {
            0 => *r.pick(&[0, -1, i64::MIN, i64::MAX, i32::MIN as i64, i32::MIN as i64 - 1]),
            _ => num(r) as i64,
        }),
        5 => Val::U64(num(r)),
        6 => Val::V4(v4(r)),
        7 => Val::V6(match r.below(8) {
            0 => v4(r).to_ipv6_mapped(),
            1 => (u32::from(v4(r)) as u128).into(),
            2 => (r.pick(&[0x2002u128 << 112, 0x64_ff9b << 96, 0xfe80 << 112, 0xff02 << 112]) | num(r) as u128).into(),
            3 => (*r.pick(&[0u128, 1, u128::MAX, 1 << 64, u64::MAX as u128])).into(),
            _ => ((num(r) as u128) << 64 | r.u64() as u128).into(),
        }),
        8 | 9 => Val::Str(text(r, max)),
        _ => {
            let n = text(r, max).len();
            Val::Bin(r.bytes(n))
        }
    }
}

fn v4(r: &mut Rng) -> std::net::Ipv4Addr {
    match r.below(4) {
        0 => (*r.pick(&[0u32, u32::MAX, 0x7f00_0001, 0xe000_0001, 0xa9fe_0101, 0x0a00_0001])).into(),
        1 => (num(r) as u32).into(),
        _ => (r.u64() as u32).into(),
    }
}

fn act(r: &mut Rng, max: usize) -> Act {
    let scope = r.below(5) as u8;
    let name = match r.below(8) {
        0 => text(r, max / 2),
        _ => format!("v{}", r.below(100)),
    };
    if r.pct(25) {
        Act::Unset(scope, name)
    } else {
        Act::Set(scope, name, val(r, max / 2))
    }
}

fn msg(r: &mut Rng, max: usize) -> Msg {
    let name = match r.below(8) {
        0 => text(r, max / 4),
        _ => format!("msg{}", r.below(10)),
    };
    let n = match r.below(20) {
        0 => 255,
        1 => r.usize(100, 255),
        2 => 0,
        _ => r.usize(1, 5),
    };
    let n = if max < 6000 { n.min(8) } else { n };
    let args = (0..n)
        .map(|k| {
            let key = match r.below(6) {
                0 => String::new(),
                1 => text(r, 40),
                _ => format!("a{}", k % 7),
            };
            (key, if n > 20 { Val::U64(r.below(300)) } else { val(r, max / 4) })
        })
        .collect();
    Msg { name, args }
}

fn kv(k: &str, v: Val) -> (String, Val) {
    (k.to_string(), v)
}

fn vtext(v: &[(u8, u8)], sep: &str) -> String {
    v.iter().map(|(a, b)| format!("{a}.{b}")).collect::<Vec<_>>().join(sep)
}

/// A block of headers, as `req.hdrs_bin` has it, or what is left of one.
fn headers(r: &mut Rng, max: usize) -> Vec<u8> {
    const NAMES: &[&str] = &["Host", "host", "Cookie", "set-cookie", "X-Forwarded-For", "x-forwarded-for", "Accept", "a", "~", "Via", "User-Agent"];
    let mut all: Vec<(String, Vec<u8>)> = vec![];
    let mut size = 2;
    let n = match r.below(50) {
        0..=4 => 0,
        5..=8 => r.usize(20, 120),
        9 => r.usize(121, 3000),
        _ => r.usize(1, 8),
    };
    let many = n > 120;
    for k in 0..n {
        let name: String = match r.below(10) {
            // all different, all but a few the same
            _ if many && r.pct(80) => match n % 2 {
                0 => format!("h{k}"),
                _ => format!("h{}", k % 3),
            },
            0 if !many => {
                let n = *r.pick(&[1, 30, 239, 240, 241, 256, 500, 2288, 3000]);
                (0..n).map(|_| *r.pick(b"abcXYZ019-_.!#$%&'*+^`|") as char).collect()
            }
            1 if !all.is_empty() => r.pick(&all).0.clone(),
            _ => r.pick(NAMES).to_string(),
        };
        let len = match r.below(5) {
            _ if many => r.usize(0, 3),
            0 => *r.pick(&[0, 1, 127, 128, 239, 240, 241, 255, 256, 257, 500, 2287, 2288, 2289, 5000, 12_000]),
            1 => r.usize(0, 400),
            _ => r.usize(0, 20),
        };
        let value = (0..len)
            .map(|_| match r.below(12) {
                0 => b'\t',
                1 => 128 + r.below(128) as u8,
                _ => 32 + r.below(95) as u8,
            })
            .collect::<Vec<u8>>();
        size += name.len() + value.len() + 8;
        if size > max {
            size -= name.len() + value.len() + 8;
            continue;
        }
        all.push((name, value));
    }
    let mut b = spop::header_block(&all);
    match r.below(40) {
        0 => {
            b.truncate(r.usize(0, b.len()));
        }
        1 => {
            let n = r.usize(1, 3);
            for _ in 0..n {
                let at = r.usize(0, b.len() - 1);
                b[at] = *r.pick(&[0, 1, 127, 128, 239, 240, 255]);
            }
        }
        2 => {
            // a length that goes beyond everything
            b.truncate(r.usize(0, b.len() - 1));
            b.extend(*r.pick(&[
                &[0xff; 12][..],
                &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x00],
                &[0xf0, 0xff, 0xff, 0x0f],
                &[0xff],
                &[0xf0, 0x80],
                &[0xef],
            ]));
        }
        3 => {
            let n = r.usize(0, 40);
            b = r.bytes(n)
        }
        _ => {}
    }
    b
}

struct Hello {
    frame: RFrame,
    mfs: usize,
    frag: bool,
}

// ---------------------------------------------------------------- world A

struct Gen {
    r: Rng,
    big: bool,
    uniq: u64,
    /// Messages have blocks of headers.
    headers: bool,
}

/// The state of one connection being generated.
struct Cb {
    ops: Vec<Op>,
    calls: Vec<Call>,
    /// Replies owed so far.
    replies: usize,
    mfs: usize,
    frag: bool,
    pace: u8,
    /// Requests begin before the one before them is answered.
    eager: bool,
}

impl Gen {
    fn cfg(&mut self) -> Cfg {
        let r = &mut self.r;
        Cfg {
            versions: match r.below(4) {
                0 => vec![(1, 0), (2, 0)],
                1 => vec![(2, 0)],
                _ => vec![],
            },
            caps: ["fragmentation", "pipelining", "async"].iter().filter(|_| r.pct(50)).map(|s| s.to_string()).collect(),
            mfs: match r.below(3) {
                0 => None,
                1 => Some(16384),
                _ => Some(*r.pick(&[256, 300, 512, 1024, 4096, 8192, 16380, 20000, 70000])),
            },
            process_ms: match r.below(3) {
                0 => None,
                _ => Some(*r.pick(&[100, 500, 2000, 30_000])),
            },
        }
    }

    fn net(&mut self) -> NetPlan {
        let r = &mut self.r;
        let mut n = NetPlan { seed: r.u64(), ..NetPlan::default() };
        if r.pct(15) {
            n.seg = Seg::Coalesce;
            return n;
        }
        n.seg = *r.pick(&[Seg::Whole, Seg::Bytes, Seg::Small, Seg::Random, Seg::Random, Seg::Coalesce]);
        n.latency = *r.pick(&[0, 0, 1, 5, 30]);
        if n.seg == Seg::Bytes {
            n.latency = n.latency.min(1);
        }
        n.spurious = *r.pick(&[0, 0, 10, 40]);
        n.wr = *r.pick(&[0, 0, 1, 3, 16, 200]);
        n.rd = *r.pick(&[0, 0, 1, 4, 50]);
        n
    }

    fn hello(&mut self, cfg: &Cfg, frag: Option<bool>) -> Hello {
        let r = &mut self.r;
        let mine = if cfg.versions.is_empty() { vec![(2, 0)] } else { cfg.versions.clone() };
        let mut versions = vec![*r.pick(&mine)];
        for v in [(1, 0), (2, 0), (3, 0), (2, 1), (0, 9)] {
            if r.pct(15) && !versions.contains(&v) {
                versions.push(v);
            }
        }
        r.shuffle(&mut versions);
        let mut caps: Vec<_> = ["fragmentation", "pipelining", "async"]
            .iter()
            .filter(|c| match (frag, **c) {
                (Some(f), "fragmentation") => f,
                _ => r.pct(50),
            })
            .copied()
            .collect();
        if r.pct(12) {
            // ones the agent has never heard of
            for _ in 0..r.usize(1, 3) {
                caps.push(*r.pick(&UNKNOWN_CAPS));
            }
        }
        r.shuffle(&mut caps);
        let mfs = match r.below(4) {
            0 => cfg.mfs(),
            1 => *r.pick(&[16380usize, 16384, 65536, 1 << 20, u32::MAX as usize]),
            2 => *r.pick(&[160usize, 200, 255, 256, 257]),
            _ => *r.pick(&[256usize, 400, 1000, 5000, 16380]),
        };
        let sep = if r.pct(30) { ", " } else { "," };
        let mut items = vec![
            kv("supported-versions", Val::Str(vtext(&versions, sep))),
            kv("max-frame-size", Val::U32(mfs as u32)),
            kv("capabilities", Val::Str(caps.join(sep))),
        ];
        if r.pct(20) {
            items.push(kv("healthcheck", Val::Bool(false)));
        }
        if r.pct(60) {
            items.push(kv("engine-id", Val::Str(format!("engine-{}", r.below(5)))));
        }
        if r.pct(20) {
            r.shuffle(&mut items);
        }
        if r.pct(10) {
            items.push(kv("x-unknown", val(r, 20)));
        }
        let frag = caps.contains(&"fragmentation") && cfg.caps.iter().any(|c| c == "fragmentation");
        Hello { frame: RFrame::control(spop::HA_HELLO, items), mfs: mfs.min(cfg.mfs()), frag }
    }

    fn open(&mut self, cfg: &Cfg, frag: Option<bool>) -> Cb {
        let h = self.hello(cfg, frag);
        let pace = self.r.below(4) as u8;
        let mut c = Cb { ops: vec![Op::Frame(h.frame)], calls: vec![], replies: 1, mfs: h.mfs, frag: h.frag, pace, eager: self.r.pct(12) };
        if self.r.pct(70) || pace == 0 {
            c.ops.push(Op::Replies(1));
        }
        c
    }

    fn acts(&mut self, cb: &Cb, rich: bool, sid: u64, fid: u64) -> Vec<Act> {
        self.uniq += 1;
        let max = if self.r.pct(15) { cb.mfs } else { 300.min(cb.mfs) };
        let n = if rich { self.r.usize(0, 6) } else { self.r.usize(0, 2) };
        let mut acts: Vec<Act> = (0..n)
            .map(|_| if rich { act(&mut self.r, max) } else { Act::Set(1, "v".into(), Val::U64(self.uniq)) })
            .collect();
        if rich && self.r.below(60) == 0 {
            let n = self.r.usize(100, 400);
            acts.extend((0..n).map(|k| match k % 3 {
                0 => Act::Unset(k as u8 % 5, format!("u{k}")),
                _ => Act::Set(k as u8 % 5, format!("v{k}"), Val::U32(k as u32)),
            }));
        }
        while spop::encode(&RFrame::ack(sid, fid, acts.clone())).len() > cb.mfs {
            acts.pop();
        }
        acts
    }

    fn msgs(&mut self, cb: &Cb, rich: bool, sid: u64, fid: u64) -> Vec<Msg> {
        self.uniq += 1;
        let max = if self.r.pct(20) { cb.mfs } else { 400.min(cb.mfs) };
        let n = match self.r.below(10) {
            0 => 0,
            1..=6 => 1,
            _ => self.r.usize(2, 4),
        };
        let mut msgs: Vec<Msg> = (0..n)
            .map(|k| {
                if rich {
                    msg(&mut self.r, max)
                } else {
                    let mut args = vec![kv("id", Val::U64(self.uniq)), kv("k", Val::U32(k as u32))];
                    if self.r.pct(10) {
                        let n = self.r.usize(0, max);
                        args.push(kv("pad", Val::Bin(self.r.bytes(n))));
                    }
                    Msg { name: "req".into(), args }
                }
            })
            .collect();
        if self.headers {
            for m in &mut msgs {
                if self.r.pct(75) {
                    let max = if self.r.pct(30) { cb.mfs } else { 600.min(cb.mfs) };
                    let b = headers(&mut self.r, max);
                    m.args.push(kv(crate::svc::HEADERS, Val::Bin(b)));
                }
            }
        }
        if rich && self.r.below(60) == 0 {
            let n = self.r.usize(100, 400);
            msgs.extend((0..n).map(|k| Msg { name: format!("m{k}"), args: vec![kv("", Val::U32(k as u32))] }));
        }
        while spop::encode(&RFrame::notify(true, sid, fid, msgs.clone())).len() > cb.mfs {
            msgs.pop();
        }
        msgs
    }

    fn call(&mut self, cb: &Cb, cfg: &Cfg, rich: bool, sid: u64, fid: u64) -> Call {
        let acts = self.acts(cb, rich, sid, fid);
        let d = cfg.process_ms();
        let r = &mut self.r;
        let delay = match r.below(6) {
            0 => r.below(5),
            1 => r.below((d / 3).max(1)),
            2 => r.below((d.min(100) / 2).max(1)),
            _ => 0,
        };
        let ready = if r.pct(8) { Ready::After(r.below((d / 3).max(1))) } else { Ready::Now };
        Call { ready, delay, out: Out::Acts(acts) }
    }

    fn ids(&mut self) -> (u64, u64) {
        let r = &mut self.r;
        let sid = match r.below(8) {
            0 => 0,
            1 => num(r),
            _ => r.below(4),
        };
        let fid = match r.below(8) {
            0 => num(r).max(1),
            _ => r.range(1, 4),
        };
        (sid, fid)
    }

    /// One valid request, answered as the script says.
    fn request(&mut self, cb: &mut Cb, cfg: &Cfg, rich: bool) {
        let (sid, fid) = self.ids();
        let msgs = self.msgs(cb, rich, sid, fid);
        let call = self.call(cb, cfg, rich, sid, fid);
        cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, msgs)));
        self.answered(cb, call);
    }

    fn answered(&mut self, cb: &mut Cb, call: Call) {
        cb.calls.push(call);
        cb.replies += 1;
        if self.r.below(150) == 0 {
            cb.ops.push(Op::Wait(*self.r.pick(LONG)));
        }
        match cb.pace {
            0 => cb.ops.push(Op::Replies(cb.replies)),
            1 => {}
            2 => {
                if self.r.pct(40) {
                    cb.ops.push(Op::Wait(self.r.below(40)))
                }
            }
            _ => match self.r.below(4) {
                0 => cb.ops.push(Op::Replies(cb.replies)),
                1 => cb.ops.push(Op::Wait(*self.r.pick(&[1, 10, 300, 3000]))),
                _ => {}
            },
        }
    }

    /// Several requests in fragments, interleaved. Every one completes.
    fn fragments(&mut self, cb: &mut Cb, cfg: &Cfg, rich: bool, reqs: usize) {
        let ids = pairs(&mut self.r);
        let some = self.r.usize(1, ids.len().min(9));
        let mut left: Vec<(u64, u64, usize)> = vec![];
        let mut opened = 0;
        while opened < reqs || !left.is_empty() {
            if opened < reqs && (left.is_empty() || self.r.pct(40)) {
                let (sid, fid) = ids[self.r.usize(0, some - 1)];
                opened += 1;
                if left.iter().any(|l| (l.0, l.1) == (sid, fid)) {
                    continue;
                }
                left.push((sid, fid, self.r.usize(0, 4)));
            }
            if left.is_empty() {
                continue;
            }
            let k = self.r.below(left.len() as u64) as usize;
            let (sid, fid, n) = left[k];
            let msgs = self.msgs(cb, rich, sid, fid);
            cb.ops.push(Op::Frame(RFrame::notify(n == 0, sid, fid, msgs)));
            if n == 0 {
                left.swap_remove(k);
                let call = self.call(cb, cfg, rich, sid, fid);
                self.answered(cb, call);
            } else {
                left[k].2 -= 1;
                if self.r.pct(10) {
                    cb.ops.push(Op::Wait(self.r.below(50)));
                }
            }
        }
    }

    fn traffic(&mut self, cb: &mut Cb, cfg: &Cfg, n: usize, rich: bool) {
        let mut k = 0;
        while k < n {
            if cb.frag && self.r.pct(25) {
                let m = self.r.usize(1, 3);
                self.fragments(cb, cfg, rich, m);
                k += m;
            } else {
                self.request(cb, cfg, rich);
                k += 1;
            }
        }
    }

    /// The peer sends the beginning of a request together with the one before, and the rest only
    /// once that one was answered.
    fn eager(&mut self, ops: Vec<Op>) -> Vec<Op> {
        let mut out: Vec<Op> = vec![];
        let mut ops = ops.into_iter().peekable();
        let mut rest: Option<Vec<u8>> = None;
        while let Some(op) = ops.next() {
            let bytes = match (&op, rest.take()) {
                (Op::Frame(f), None) => spop::wire(f),
                (Op::Frame(_), Some(rest)) => rest,
                (_, r) => {
                    rest = r;
                    out.push(op);
                    continue;
                }
            };
            let whole = matches!(op, Op::Frame(_));
            if !whole || !matches!(ops.peek(), Some(Op::Replies(_))) || self.r.pct(40) {
                out.push(Op::Bytes(bytes));
                continue;
            }
            let wait = ops.next().unwrap();
            match ops.peek() {
                Some(Op::Frame(next)) => {
                    let mut head = spop::wire(next);
                    let n = head.len();
                    let at = if self.r.pct(30) { self.r.usize(1, 6.min(n - 1)) } else { self.r.usize(1, n - 1) };
                    let tail = head.split_off(at);
                    let mut both = bytes;
                    both.extend(head);
                    out.push(Op::Bytes(both));
                    out.push(wait);
                    rest = Some(tail);
                }
                _ => {
                    out.push(Op::Bytes(bytes));
                    out.push(wait);
                }
            }
        }
        out
    }

    /// Many connections that do next to nothing, or are stuck.
    fn crowd(&mut self, cfg: &Cfg) -> Vec<Conn> {
        let n = match self.r.below(60) {
            0 => self.r.usize(300, 1100),
            1..=5 => self.r.usize(100, 300),
            _ => self.r.usize(20, if self.big { 300 } else { 100 }),
        };
        let kinds = self.r.range(1, 63);
        let spread = *self.r.pick(&[0, 10, 500]);
        (0..n)
            .map(|_| {
                let kind = loop {
                    let k = self.r.below(6);
                    if kinds & (1 << k) != 0 {
                        break k;
                    }
                };
                let mut cb = self.open(cfg, None);
                let mut end = End::Linger;
                match kind {
                    0 => cb.ops.clear(),
                    1 => cb.ops = vec![Op::Bytes(vec![0, 0, 0])],
                    2 => {}
                    3 => {
                        cb.ops.push(Op::Frame(RFrame::notify(true, 1, 1, vec![])));
                        cb.calls.push(Call { ready: Ready::Now, delay: 0, out: Out::Hang });
                    }
                    4 => {
                        self.traffic(&mut cb, cfg, 1, false);
                        end = End::Close;
                    }
                    _ => cb.ops.push(Op::Bytes(vec![0, 0, 0, 50, 3, 0])),
                }
                let net = NetPlan { seed: self.r.u64(), ..NetPlan::default() };
                let mut c = self.conn(cb, net, end);
                c.at = self.r.below(spread + 1);
                c
            })
            .collect()
    }

    /// One connection with a long history of small requests.
    fn marathon(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, None);
        let n = match self.r.below(150) {
            0 => self.r.usize(65_600, 70_000),
            1..=6 => self.r.usize(1000, 5000),
            _ => self.r.usize(100, if self.big { 3000 } else { 700 }),
        };
        let (frag, pace) = (cb.frag && self.r.pct(50), *self.r.pick(&[0, 0, 1]));
        cb.pace = pace;
        cb.eager = false;
        for k in 0..n as u64 {
            let (sid, fid) = if self.r.pct(50) { (k / 3, 1 + k % 3) } else { self.ids() };
            if frag && self.r.pct(30) {
                cb.ops.push(Op::Frame(RFrame::notify(false, sid, fid, vec![])));
            }
            let msgs = self.msgs(&cb, false, sid, fid);
            cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, msgs)));
            let call = Call {
                ready: Ready::Now,
                delay: if self.r.pct(5) { self.r.below(20) } else { 0 },
                out: Out::Acts(self.acts(&cb, false, sid, fid)),
            };
            self.answered(&mut cb, call);
        }
        let net = NetPlan { seed: self.r.u64(), latency: *self.r.pick(&[0, 2]), ..NetPlan::default() };
        self.conn(cb, net, End::Close)
    }

    /// Very many requests open at the same time, or requests of very many fragments.
    fn heap(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, Some(true));
        if !cb.frag {
            return self.healthy(cfg, 3, false, None);
        }
        cb.eager = false;
        cb.pace = 1;
        let total = match self.r.below(150) {
            0 => self.r.usize(65_600, 70_000),
            1..=6 => self.r.usize(1000, 5000),
            _ => 600,
        };
        let reqs = self.r.usize(1, if self.big || total > 600 { total } else { 200 }) as u64;
        // few requests of many fragments each as well
        let reqs = if total > 600 && self.r.pct(50) { 1 + reqs % 3 } else { reqs };
        let frags = self.r.usize(1.max(total.min(60_000) * usize::from(total > 600) / reqs as usize), total / reqs as usize + 1);
        let key = |k: u64| (k / 7, 1 + k % 7);
        for _ in 0..frags {
            for k in 0..reqs {
                let (sid, fid) = key(k);
                let msgs = self.msgs(&cb, false, sid, fid);
                cb.ops.push(Op::Frame(RFrame::notify(false, sid, fid, msgs)));
            }
        }
        let mut order: Vec<u64> = (0..reqs).collect();
        self.r.shuffle(&mut order);
        for k in order {
            let (sid, fid) = key(k);
            cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, vec![])));
            let out = Out::Acts(self.acts(&cb, false, sid, fid));
            self.answered(&mut cb, Call { ready: Ready::Now, delay: 0, out });
        }
        let net = NetPlan { seed: self.r.u64(), ..NetPlan::default() };
        self.conn(cb, net, End::Close)
    }

    /// A peer that sends far more than can be worked on, or never reads what it is answered.
    fn flood(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = loop {
            let cb = self.open(cfg, None);
            if cb.mfs >= 1000 {
                break cb;
            }
        };
        cb.pace = 1;
        cb.eager = false;
        let kind = self.r.below(6);
        let total = (256 << 10) + 4 * cfg.mfs() + self.r.usize(200_000, 500_000);
        let (small, big) = (self.r.pct(50), self.r.pct(50));
        let slow = self.r.usize(1, 5);
        let mut sent = 0;
        let mut k = 0u64;
        while sent < total {
            let (sid, fid) = (k / 3, 1 + k % 3);
            let n = if small { self.r.usize(700, 1000) } else { self.r.usize(cb.mfs / 2, cb.mfs) } - 60;
            let pad = Msg { name: "m".into(), args: vec![kv("p", Val::Bin(vec![k as u8; n]))] };
            let f = RFrame::notify(true, sid, fid, vec![pad]);
            sent += spop::wire(&f).len();
            cb.ops.push(Op::Frame(f));
            let n = if big { cb.mfs - 60 } else { self.r.usize(0, 100) };
            let mut call = Call {
                ready: Ready::Now,
                delay: 0,
                out: Out::Acts(vec![Act::Set(1, "v".into(), Val::Bin(vec![k as u8; n]))]),
            };
            let d = cfg.process_ms();
            if (k as usize) < slow {
                match kind {
                    0 => call.delay = self.r.below(d - 10),
                    1 => call.ready = Ready::After(self.r.below(d - 10)),
                    2 if k as usize + 1 == slow => call.out = Out::Hang,
                    _ => {}
                }
            }
            self.answered(&mut cb, call);
            k += 1;
        }
        let mut net = NetPlan {
            seed: self.r.u64(),
            seg: *self.r.pick(&[Seg::Whole, Seg::Coalesce, Seg::Coalesce]),
            latency: *self.r.pick(&[0, 0, 3]),
            spurious: *self.r.pick(&[0, 0, 20]),
            rd: *self.r.pick(&[0, 0, 5000]),
            wr: *self.r.pick(&[0, 0, 500]),
            ..NetPlan::default()
        };
        let at = self.r.usize(0, 3000);
        match kind {
            3 => net.wblock.push((at, None)),
            4 => net.wblock.push((at, Some(*self.r.pick(&[100, 2000, 40_000])))),
            _ => {}
        }
        let mut c = self.conn(cb, net, End::Linger);
        if kind == 5 {
            c.make.delay = *self.r.pick(&[50, 1000, 9000]);
        }
        c
    }

    /// Values whose length takes three bytes to write.
    fn bulky(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = loop {
            let cb = self.open(cfg, None);
            if cb.mfs == cfg.mfs() {
                break cb;
            }
        };
        cb.eager = false;
        for k in 1..4 {
            let n = *self.r.pick(&[264_431usize, 264_432, 264_433, 200_000]);
            let v = if self.r.pct(50) { Val::Str("s".repeat(n)) } else { Val::Bin(vec![k as u8; n]) };
            let small = || Val::U64(k);
            let (up, down) = match self.r.below(3) {
                0 => (v.clone(), v),
                1 => (v, small()),
                _ => (small(), v),
            };
            cb.ops.push(Op::Frame(RFrame::notify(true, k, k, vec![Msg { name: "m".into(), args: vec![kv("a", up)] }])));
            let out = Out::Acts(vec![Act::Set(2, "v".into(), down)]);
            self.answered(&mut cb, Call { ready: Ready::Now, delay: 0, out });
        }
        let net = NetPlan { seed: self.r.u64(), rd: *self.r.pick(&[0, 3000]), wr: *self.r.pick(&[0, 3000]), ..NetPlan::default() };
        self.conn(cb, net, End::Close)
    }

    /// A request of very many messages, or an answer of very many actions.
    fn numerous(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = loop {
            let cb = self.open(cfg, None);
            if cb.mfs >= 8_000 || cb.mfs == cfg.mfs() {
                break cb;
            }
        };
        for k in 1..=self.r.range(1, 3) {
            let most = (cb.mfs as usize - 64).min(60_000) / 9;
            let n = self.r.usize(most / 10, most);
            let (up, down) = match self.r.below(3) {
                0 => (n, n),
                1 => (n, 2),
                _ => (2, n),
            };
            let msgs = (0..up).map(|i| Msg {
                name: format!("m{}", i % 10),
                args: if i % 7 == 0 { vec![kv("", Val::U32(i as u32))] } else { vec![] },
            });
            let frame = RFrame::notify(true, k, k, msgs.collect());
            let acts = (0..down).map(|i| if i % 2 == 0 { Act::Unset(2, format!("v{}", i % 10)) } else { Act::Set(1, "w".into(), Val::Bool(i % 3 == 0)) });
            let out = Out::Acts(acts.collect());
            if spop::encode(&frame).len() > cb.mfs as usize {
                continue;
            }
            cb.ops.push(Op::Frame(frame));
            self.answered(&mut cb, Call { ready: Ready::Now, delay: 0, out });
        }
        let mut net = self.net();
        self.slow(&mut net, &cb.ops, false);
        self.conn(cb, net, End::Close)
    }

    /// A frame that claims to contain something enormous.
    fn announcement(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, None);
        let k = self.r.usize(0, 2);
        self.traffic(&mut cb, cfg, k, false);
        let n: u64 = match self.r.below(3) {
            0 => self.r.range(1 << 26, 1 << 31),
            1 => 1 << self.r.range(26, 63),
            _ => *self.r.pick(&[i32::MAX as u64, u32::MAX as u64, i64::MAX as u64, u64::MAX, u64::MAX - 1]),
        };
        let mut v = vec![];
        spop::put_varint(&mut v, n);
        let at_hello = self.r.pct(20);
        let mut b = match self.r.below(6) {
            // the frame itself
            0 => {
                let mut b = (n.min(u32::MAX as u64) as u32).to_be_bytes().to_vec();
                b.extend(vec![3; self.r.usize(0, 50)]);
                cb.ops.push(Op::Bytes(b));
                let net = self.net();
                return self.conn(cb, net, End::Linger);
            }
            // the name of a message, of an argument, a string, binary data
            1 => [vec![spop::NOTIFY, 0, 0, 0, 1, 0, 1], v].concat(),
            2 => [vec![spop::NOTIFY, 0, 0, 0, 1, 0, 1, 1, b'm', 1], v].concat(),
            3 => [vec![spop::NOTIFY, 0, 0, 0, 1, 0, 1, 1, b'm', 1, 1, b'a', 8], v].concat(),
            4 => [vec![spop::NOTIFY, 0, 0, 0, 1, 0, 1, 1, b'm', 1, 1, b'a', 9], v].concat(),
            // the name of an item of a control frame
            _ => [vec![if at_hello { spop::HA_HELLO } else { spop::HA_DISCON }, 0, 0, 0, 1, 0, 0], v].concat(),
        };
        let n = self.r.usize(0, 60);
        b.extend(vec![b'x'; n]);
        let op = Op::Bytes(spop::prefixed(&b));
        if at_hello {
            cb.ops.insert(0, op);
        } else {
            cb.ops.push(op);
        }
        let net = self.net();
        self.conn(cb, net, End::Linger)
    }

    fn conn(&mut self, cb: Cb, net: NetPlan, end: End) -> Conn {
        let mut ops = cb.ops;
        if cb.eager {
            ops = self.eager(ops);
        }
        match end {
            End::Close => {
                ops.push(Op::Replies(cb.replies));
                if self.r.pct(30) {
                    ops.push(Op::Wait(self.r.below(20)));
                }
            }
            End::Reset => ops.push(Op::Wait(self.r.below(50))),
            _ => {}
        }
        Conn {
            at: if self.r.pct(40) { 0 } else { self.r.below(60) },
            ops,
            end,
            net,
            make: Make { delay: if self.r.pct(10) { self.r.below(300) } else { 0 }, out: MakeOut::Ok },
            calls: cb.calls,
        }
    }

    fn healthy(&mut self, cfg: &Cfg, n: usize, rich: bool, frag: Option<bool>) -> Conn {
        let mut cb = self.open(cfg, frag);
        self.traffic(&mut cb, cfg, n, rich);
        let mut net = self.net();
        self.slow(&mut net, &cb.ops, false);
        let end = *self.r.pick(&[End::Linger, End::Close, End::HalfClose, End::Linger]);
        self.conn(cb, net, end)
    }

    /// Stalls and phases in which the peer does not read.
    fn slow(&mut self, net: &mut NetPlan, ops: &[Op], much: bool) {
        let total: usize = bytes_of(ops);
        let pct = if much { 70 } else { 20 };
        if self.r.pct(pct) {
            for _ in 0..self.r.usize(1, 3) {
                let ms = if self.r.below(20) == 0 { *self.r.pick(LONG) } else { *self.r.pick(&[1, 20, 500, 7000]) };
                net.stalls.push((self.r.usize(0, total), ms));
            }
        }
        if self.r.pct(pct) {
            let mut at = 0;
            for _ in 0..self.r.usize(1, 2) {
                at += self.r.usize(0, 150);
                net.wblock.push((at, Some(*self.r.pick(&[1, 30, 800, 20_000]))));
            }
        }
    }

    // ------------------------------------------------------------ misbehaviour

    /// An agent's HELLO, which may lack something.
    fn agent_hello(&mut self) -> RFrame {
        let mut items = vec![
            kv("version", Val::Str("2.0".into())),
            kv("max-frame-size", Val::U32(*self.r.pick(&[1000, 16380]))),
            kv("capabilities", Val::Str(self.r.pick(&["", "pipelining"]).to_string())),
        ];
        let k = self.r.usize(0, 2);
        match self.r.below(4) {
            0 => {
                items.remove(k);
            }
            1 => items[k].1 = self.r.pick(&[Val::Null, Val::Bool(true), Val::Str("x".into()), Val::U32(7)]).clone(),
            _ => {}
        }
        RFrame::control(spop::AG_HELLO, items)
    }

    /// Appends what makes the agent end the connection. Returns how it should.
    fn failure(&mut self, cb: &mut Cb, cfg: &Cfg) {
        let (sid, fid) = self.ids();
        let d = cfg.process_ms();
        match self.r.below(14) {
            0 => {
                let code = *self.r.pick(&[0u32, 1, 4, 99, 12345]);
                cb.ops.push(Op::Frame(RFrame::control(
                    spop::HA_DISCON,
                    vec![kv("status-code", Val::U32(code)), kv("message", Val::Str("bye".into()))],
                )));
            }
            1 => {
                // a frame only agents send, or a second HELLO
                let f = match self.r.below(4) {
                    0 => RFrame::ack(sid, fid, vec![]),
                    1 => crate::model::disc(0, "x"),
                    2 => self.agent_hello(),
                    _ => self.hello(cfg, None).frame,
                };
                cb.ops.push(Op::Frame(f));
            }
            2 | 3 => {
                let f = RFrame::notify(true, sid, fid, self.msgs_nonempty(cb, sid, fid));
                let bad = self.corrupt(&f);
                cb.ops.push(Op::Bytes(bad));
            }
            4 | 5 => {
                // announces more than allowed; the payload may or may not follow
                let n = match self.r.below(4) {
                    0 => cb.mfs + 1,
                    1 => u32::MAX as usize,
                    2 => cb.mfs + self.r.usize(1, 1000),
                    _ => cb.mfs.max(cfg.mfs()) + 1 + self.r.usize(0, 1 << 24),
                };
                let mut b = (n as u32).to_be_bytes().to_vec();
                let extra = self.r.usize(0, 40);
                b.extend(self.r.bytes(extra));
                cb.ops.push(Op::Bytes(b));
            }
            6 | 7 => {
                let text = self.error_text();
                let msgs = self.msgs(cb, false, sid, fid);
                cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, msgs)));
                let delay = self.r.below(d / 2);
                cb.calls.push(Call { ready: Ready::Now, delay, out: Out::Err(text) });
            }
            8 | 9 => {
                let msgs = self.msgs(cb, false, sid, fid);
                cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, msgs)));
                let call = if self.r.pct(50) {
                    Call { ready: Ready::Now, delay: 0, out: Out::Hang }
                } else {
                    Call { ready: Ready::Now, delay: d + 5 + self.r.below(d), out: Out::Acts(vec![]) }
                };
                cb.calls.push(call);
            }
            10 => {
                if !cb.frag {
                    let msgs = self.msgs(cb, false, sid, fid);
                    cb.ops.push(Op::Frame(RFrame::notify(false, sid, fid, msgs)));
                } else {
                    let text = self.error_text();
                    cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, vec![])));
                    cb.calls.push(Call { ready: Ready::Err(text), delay: 0, out: Out::Hang });
                }
            }
            11 => {
                // a result that does not fit
                cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, vec![])));
                let n = cb.mfs.min(100_000) + self.r.usize(0, 50);
                cb.calls.push(Call {
                    ready: Ready::Now,
                    delay: 0,
                    out: Out::Acts(vec![Act::Set(1, "big".into(), Val::Bin(vec![7; n]))]),
                });
            }
            12 => {
                let text = self.error_text();
                cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, vec![])));
                cb.calls.push(Call { ready: Ready::Err(text), delay: 0, out: Out::Hang });
            }
            _ => {
                // an unfinished control frame
                let f = RFrame::control(spop::HA_DISCON, vec![kv("status-code", Val::U32(0)), kv("message", Val::Str("x".into()))]);
                let mut b = spop::encode(&f);
                b.truncate(b.len() - 1);
                cb.ops.push(Op::Bytes(spop::prefixed(&b)));
            }
        }
        // more that must not be processed
        if self.r.pct(50) {
            for _ in 0..self.r.usize(1, 3) {
                cb.ops.push(Op::Frame(RFrame::notify(true, 9, 9, vec![])));
            }
        }
    }

    fn error_text(&mut self) -> String {
        match self.r.below(8) {
            0 => String::new(),
            1 => "é€ error, \"quoted\"\n".into(),
            2 if self.r.pct(50) => {
                let pad = "x".repeat(self.r.usize(0, 4));
                pad + &(*self.r.pick(&["é", "€", "\u{10348}", "é€"])).repeat(self.r.usize(20, 400))
            }
            2 => "x".repeat(self.r.usize(200, 400)),
            3 => "y".repeat(self.r.usize(10_000, 30_000)),
            _ => format!("service failed: {}", self.r.below(1000)),
        }
    }

    fn msgs_nonempty(&mut self, cb: &Cb, sid: u64, fid: u64) -> Vec<Msg> {
        let mut m = self.msgs(cb, false, sid, fid);
        m.truncate(3);
        if m.is_empty() {
            m.push(Msg { name: "req".into(), args: vec![kv("id", Val::U64(1)), kv("s", Val::Str("abc".into()))] });
        }
        m
    }

    /// Bytes on the wire that are almost this frame (and, mostly, no frame at all).
    fn corrupt(&mut self, f: &RFrame) -> Vec<u8> {
        let good = spop::encode(f);
        for _ in 0..30 {
            let b = damage(&mut self.r, &good);
            if b.len() <= 256.max(good.len()) && matches!(spop::decode(&b), Err(spop::Bad::Malformed(_))) {
                return spop::prefixed(&b);
            }
        }
        let mut b = good;
        b.pop();
        spop::prefixed(&b)
    }

    /// A connection that ends badly in some way.
    fn werr(&mut self) -> WErr {
        *self.r.pick(&[WErr::Pipe, WErr::Reset, WErr::Zero, WErr::Flush])
    }

    fn rogue(&mut self, cfg: &Cfg, n: usize) -> Conn {
        let mut cb = self.open(cfg, None);
        let mut net = self.net();
        let mut make = Make { delay: 0, out: MakeOut::Ok };
        let mut end = *self.r.pick(&[End::Linger, End::Close, End::HalfClose]);
        let k = self.r.usize(0, n);
        match self.r.below(12) {
            0 | 1 => {
                self.traffic(&mut cb, cfg, k, false);
                self.failure(&mut cb, cfg);
                if self.r.pct(15) {
                    // the farewell itself cannot be written
                    net.werr_frame = Some((cb.replies, self.werr()));
                }
                end = End::Linger;
            }
            2 => {
                let n = self.r.usize(1, 200);
                let b = self.r.bytes(n);
                let mut at = self.r.usize(0, 1);
                if at == 1 {
                    self.traffic(&mut cb, cfg, k, false);
                    at = cb.ops.len();
                }
                cb.ops.insert(at, Op::Bytes(b));
            }
            3 => {
                self.traffic(&mut cb, cfg, k, false);
                net.cut = Some((self.r.usize(0, bytes_of(&cb.ops)), *self.r.pick(&[Cut::Eof, Cut::Reset, Cut::Silence])));
            }
            4 => {
                self.traffic(&mut cb, cfg, k.max(1), false);
                end = End::Reset;
            }
            5 => {
                self.traffic(&mut cb, cfg, k.max(1), false);
                net.wblock.push((self.r.usize(0, 300), None));
                end = End::Linger;
            }
            6 => {
                self.traffic(&mut cb, cfg, k.max(1), false);
                net.werr = Some((self.r.usize(0, 300), *self.r.pick(&[WErr::Pipe, WErr::Reset, WErr::Zero, WErr::Flush])));
            }
            7 => {
                make.out = match self.r.below(3) {
                    0 => MakeOut::Err("factory failed".into()),
                    1 => MakeOut::Panic,
                    _ => MakeOut::Hang,
                };
                make.delay = *self.r.pick(&[0, 0, 200, 5000]);
            }
            8 => {
                self.traffic(&mut cb, cfg, k, false);
                cb.ops.push(Op::Frame(RFrame::notify(true, 1, 1, vec![])));
                cb.calls.push(Call { ready: Ready::Now, delay: *self.r.pick(&[0, 0, 50]), out: Out::Panic });
            }
            9 => {
                self.traffic(&mut cb, cfg, k, false);
                cb.ops.push(Op::Frame(RFrame::notify(true, 1, 1, vec![])));
                cb.calls.push(Call {
                    ready: if self.r.pct(30) { Ready::Never } else { Ready::Now },
                    delay: 0,
                    out: Out::Hang,
                });
            }
            10 => {
                self.traffic(&mut cb, cfg, k.max(1), false);
                make.delay = *self.r.pick(&[1000, 10_000]);
            }
            _ => {
                self.traffic(&mut cb, cfg, k.max(1), false);
                self.slow(&mut net, &cb.ops, true);
            }
        }
        let mut c = self.conn(cb, net, end);
        c.make = make;
        c
    }

    // ------------------------------------------------------------ per property

    fn agent(mut self, prop: &str) -> APlan {
        let mut cfg = self.cfg();
        let mut agent = self.r.pct(75);
        let many = if self.big { 10 } else { 4 };
        let mut accept_faults = vec![];
        let mut factory_ready = vec![];
        let mut shutdown_at = None;
        let mut conns = vec![];
        let n = self.r.usize(1, many);
        match prop {
            "C01" | "C02" => {
                if prop == "C02" && self.r.pct(60) {
                    cfg.mfs = Some(*self.r.pick(&[16384, 70_000, 20_000]));
                }
                if prop == "C02" && self.r.below(150) == 0 {
                    cfg.mfs = Some(300_000);
                    conns.push(self.bulky(&cfg));
                }
                if prop == "C02" && self.r.below(100) == 0 {
                    let c = self.numerous(&cfg);
                    conns.push(c);
                }
                for _ in 0..n {
                    let k = self.r.usize(1, if self.big { 25 } else { 9 });
                    let rich = prop == "C02" || self.r.pct(15);
                    let c = if self.r.pct(12) { self.rogue(&cfg, k) } else { self.healthy(&cfg, k, rich, None) };
                    conns.push(c);
                }
            }
            "C03" => {
                cfg.versions = match self.r.below(5) {
                    0 => vec![],
                    1 => vec![(1, 0), (2, 0), (2, 1)],
                    2 => vec![(9, 0), (10, 0), (2, 0)],
                    3 => vec![(2, 0), (2, 9), (2, 10)],
                    _ => vec![(2, 0)],
                };
                for _ in 0..n {
                    let c = self.hello_conn(&cfg);
                    conns.push(c);
                }
            }
            "C04" => {
                for _ in 0..n {
                    if self.r.pct(15) {
                        conns.push(self.hello_conn(&cfg));
                        continue;
                    }
                    let mut cb = self.open(&cfg, None);
                    let k = self.r.usize(0, 4);
                    self.traffic(&mut cb, &cfg, k, false);
                    let mut make = None;
                    if self.r.pct(8) {
                        make = Some(Make { delay: self.r.below(500), out: MakeOut::Err("no service today".into()) });
                    } else {
                        self.failure(&mut cb, &cfg);
                    }
                    let mut net = self.net();
                    self.slow(&mut net, &cb.ops, false);
                    let end = *self.r.pick(&[End::Linger, End::Linger, End::HalfClose]);
                    let mut c = self.conn(cb, net, end);
                    if let Some(m) = make {
                        c.make = m;
                    }
                    conns.push(c);
                }
            }
            "C05" => {
                cfg.process_ms = *self.r.pick(&[None, Some(20), Some(100), Some(1000), Some(50)]);
                if self.r.pct(4) {
                    cfg.process_ms = Some(self.r.below(8));
                } else if self.r.pct(4) {
                    cfg.process_ms = Some(*self.r.pick(&[31_000, 61_000, 305_000, 3_605_000, 40_000_000]));
                }
                for _ in 0..n {
                    let c = self.deadline_conn(&cfg);
                    conns.push(c);
                }
            }
            "C06" => {
                if self.r.pct(80) && !cfg.caps.iter().any(|c| c == "fragmentation") {
                    cfg.caps.push("fragmentation".into());
                }
                for _ in 0..n.max(2) {
                    let want = self.r.pct(80);
                    let mut cb = self.open(&cfg, Some(want));
                    let k = self.r.usize(1, if self.big { 15 } else { 6 });
                    if cb.frag {
                        self.fragments(&mut cb, &cfg, false, k);
                        if self.r.pct(15) {
                            self.failure(&mut cb, &cfg);
                        }
                    } else {
                        let k = self.r.usize(0, 3);
                        self.traffic(&mut cb, &cfg, k, false);
                        if self.r.pct(80) {
                            let (sid, fid) = self.ids();
                            let msgs = self.msgs(&cb, false, sid, fid);
                            cb.ops.push(Op::Frame(RFrame::notify(false, sid, fid, msgs.clone())));
                            cb.ops.push(Op::Frame(RFrame::notify(true, sid, fid, msgs)));
                        }
                    }
                    let mut net = self.net();
                    self.slow(&mut net, &cb.ops, false);
                    let end = *self.r.pick(&[End::Linger, End::Close, End::HalfClose]);
                    conns.push(self.conn(cb, net, end));
                }
            }
            "C07" => {
                agent = self.r.pct(90);
                if self.r.pct(4) {
                    cfg.process_ms = Some(20_000_000);
                }
                for _ in 0..n {
                    let k = self.r.usize(1, 6);
                    let mut c = match self.r.below(10) {
                        0 => {
                            // idle, or in the middle of a frame
                            let mut cb = self.open(&cfg, None);
                            let k = self.r.usize(0, 2);
                            self.traffic(&mut cb, &cfg, k, false);
                            cb.ops.push(Op::Bytes(vec![0, 0, 0, 50, 3, 0]));
                            let net = self.net();
                            self.conn(cb, net, End::Linger)
                        }
                        1 => {
                            let net = self.net();
                            Conn {
                                at: self.r.below(50),
                                ops: vec![],
                                end: End::Linger,
                                net,
                                make: Make { delay: 0, out: MakeOut::Ok },
                                calls: vec![],
                            }
                        }
                        2 => self.rogue(&cfg, k),
                        3 => {
                            let mut c = self.healthy(&cfg, k, false, None);
                            c.make.delay = self.r.below(500);
                            c
                        }
                        _ => self.healthy(&cfg, k, false, None),
                    };
                    // peers keep reading and factories finish
                    c.net.wblock.retain(|b| b.1.is_some());
                    if c.make.out == MakeOut::Hang {
                        c.make.out = MakeOut::Ok;
                    }
                    for call in &mut c.calls {
                        if self.r.pct(40) && call.out != Out::Hang {
                            call.delay = self.r.below(cfg.process_ms() - 10);
                        }
                    }
                    conns.push(c);
                }
                let span = 200 + cfg.process_ms();
                shutdown_at = Some(match self.r.below(4) {
                    0 => self.r.below(80),
                    1 => self.r.below(400),
                    _ => self.r.below(span),
                });
                if self.r.pct(30) {
                    // one comes right then, one later
                    let t = shutdown_at.unwrap();
                    let k = conns.len();
                    conns[k - 1].at = t;
                    let mut c = self.healthy(&cfg, 1, false, None);
                    c.at = t + self.r.below(30);
                    conns.push(c);
                }
                if self.r.pct(10) {
                    accept_faults.push(AcceptFault { after: self.r.below(3) as u32, errno: libc::EMFILE, count: self.r.range(1, 60) as u32 });
                }
            }
            "C08" => {
                for _ in 0..n.max(1) {
                    let k = self.r.usize(1, 4);
                    conns.push(self.rogue(&cfg, k));
                }
                for _ in 0..self.r.usize(1, many) {
                    let k = self.r.usize(1, 5);
                    let mut c = self.healthy(&cfg, k, false, None);
                    c.at = *self.r.pick(&[0, 10, 60, 500, 6000]);
                    conns.push(c);
                }
                self.r.shuffle(&mut conns);
            }
            "C09" => {
                agent = true;
                for _ in 0..n + 1 {
                    let k = self.r.usize(1, 4);
                    let mut c = self.healthy(&cfg, k, false, None);
                    c.at = self.r.below(500);
                    conns.push(c);
                }
                for _ in 0..self.r.usize(1, 4) {
                    accept_faults.push(AcceptFault {
                        after: self.r.below(n as u64 + 1) as u32,
                        errno: *self.r.pick(&[
                            libc::EMFILE,
                            libc::ENFILE,
                            libc::ECONNABORTED,
                            libc::ENOMEM,
                            libc::EINTR,
                            libc::ENOBUFS,
                            libc::EPROTO,
                            libc::EPERM,
                            libc::ENETDOWN,
                            libc::EHOSTUNREACH,
                            libc::ECONNRESET,
                            libc::ETIMEDOUT,
                        ]),
                        count: *self.r.pick(&[1, 1, 2, 5, 20, 60, 300]),
                    });
                }
                if self.r.pct(30) {
                    shutdown_at = Some(self.r.below(1500));
                }
            }
            "C10" => {
                for _ in 0..n {
                    let c = if self.r.pct(8) { self.announcement(&cfg) } else { self.malformed_conn(&cfg) };
                    conns.push(c);
                }
                if self.r.pct(40) {
                    conns.push(self.healthy(&cfg, 3, false, None));
                }
            }
            "C11" => {
                cfg.mfs = Some(*self.r.pick(&[170, 256, 257, 300, 512, 1024, 2300, 4096, 16384]));
                for _ in 0..n {
                    let c = if self.r.pct(6) { self.announcement(&cfg) } else { self.sizes_conn(&cfg) };
                    conns.push(c);
                }
            }
            "C12" => {
                for _ in 0..n {
                    let k = self.r.usize(1, 4);
                    let mut c = self.healthy(&cfg, k, false, None);
                    let total = bytes_of(&c.ops);
                    match self.r.below(10) {
                        0..=5 => c.net.cut = Some((self.r.usize(0, total), *self.r.pick(&[Cut::Eof, Cut::Reset, Cut::Eof]))),
                        6 | 7 => {
                            c.net.werr = Some((
                                if self.r.pct(50) { self.r.usize(0, 120) } else { self.r.usize(0, 600) },
                                *self.r.pick(&[WErr::Pipe, WErr::Reset, WErr::Zero, WErr::Flush]),
                            ))
                        }
                        8 => c.end = End::Reset,
                        _ => c.net.werr_frame = Some((self.r.usize(0, k + 1), self.werr())),
                    }
                    if c.end == End::Close && self.r.pct(30) {
                        c.ops.retain(|o| !matches!(o, Op::Replies(_)));
                    }
                    conns.push(c);
                }
            }
            "C16" => {
                for _ in 0..n {
                    let k = self.r.usize(1, 6);
                    let mut c = self.healthy(&cfg, k, false, None);
                    let d = cfg.process_ms();
                    for call in &mut c.calls {
                        match self.r.below(8) {
                            0..=3 => {
                                call.ready = Ready::After(self.r.below(d - 10));
                                call.delay = call.delay.min(d / 4);
                            }
                            4 if self.r.pct(20) => call.ready = Ready::Err("not today".into()),
                            5 if self.r.pct(10) => call.ready = Ready::Never,
                            _ => {}
                        }
                    }
                    // readiness and work together stay off the deadline unless meant to exceed it
                    conns.push(c);
                }
                for _ in 0..conns.len() + 1 {
                    factory_ready.push(match self.r.below(6) {
                        0 | 1 => Ready::After(self.r.below(300)),
                        2 if self.r.pct(20) => Ready::Err("factory is down".into()),
                        _ => Ready::Now,
                    });
                }
            }
            "C17" => {
                agent = self.r.pct(25);
                for _ in 0..n {
                    let mut cb = self.open(&cfg, None);
                    cb.pace = 0;
                    cb.eager = self.r.pct(40);
                    let k = self.r.usize(1, 8);
                    if !matches!(cb.ops.last(), Some(Op::Replies(_))) {
                        cb.ops.push(Op::Replies(1));
                    }
                    let rich = self.r.pct(40);
                    self.traffic(&mut cb, &cfg, k, rich);
                    if self.r.pct(25) {
                        self.failure(&mut cb, &cfg);
                    }
                    let mut net = self.net();
                    net.hold = !agent && self.r.pct(70);
                    net.wr = *self.r.pick(&[0, 1, 1, 2, 7, 100]);
                    net.spurious = *self.r.pick(&[0, 30, 60]);
                    if self.r.pct(30) {
                        self.slow(&mut net, &cb.ops, true);
                    }
                    conns.push(self.conn(cb, net, End::Linger));
                }
            }
            "C20" => {
                self.headers = true;
                if self.r.pct(60) {
                    cfg.mfs = Some(*self.r.pick(&[16384, 70_000, 20_000]));
                }
                for _ in 0..n {
                    let k = self.r.usize(1, if self.big { 12 } else { 5 });
                    let c = self.healthy(&cfg, k, false, None);
                    conns.push(c);
                }
            }
            "C21" => {
                cfg.mfs = *self.r.pick(&[None, Some(4096), Some(16384), Some(20_000), Some(1024)]);
                let c = match self.r.below(5) {
                    0 => self.malformed_conn(&cfg),
                    1 => self.announcement(&cfg),
                    _ => self.flood(&cfg),
                };
                conns.push(c);
                if self.r.pct(30) {
                    let c = if self.r.pct(30) { self.flood(&cfg) } else { self.healthy(&cfg, 3, false, None) };
                    conns.push(c);
                }
                if self.r.pct(15) {
                    shutdown_at = Some(self.r.below(3000));
                }
            }
            _ => {
                // C19: all ways to end
                for _ in 0..n + 1 {
                    let k = self.r.usize(1, 4);
                    let mut c = match self.r.below(8) {
                        0 | 1 => self.healthy(&cfg, k, false, None),
                        2 => self.hello_conn(&cfg),
                        3 => {
                            let mut cb = self.open(&cfg, None);
                            self.traffic(&mut cb, &cfg, k, false);
                            self.failure(&mut cb, &cfg);
                            let net = self.net();
                            let end = *self.r.pick(&[End::Linger, End::HalfClose, End::Close]);
                            self.conn(cb, net, end)
                        }
                        _ => self.rogue(&cfg, k),
                    };
                    if c.make.out == MakeOut::Hang {
                        c.make.out = MakeOut::Ok;
                    }
                    conns.push(c);
                }
                if self.r.pct(30) {
                    shutdown_at = Some(self.r.below(2000));
                }
            }
        }
        if matches!(prop, "C01" | "C07" | "C08" | "C09" | "C19") && self.r.below(80) == 0 {
            let crowd = self.crowd(&cfg);
            let mut c = self.healthy(&cfg, 2, false, None);
            c.at = *self.r.pick(&[0, 5, 600]);
            conns.extend(crowd);
            conns.push(c);
        }
        if matches!(prop, "C01" | "C02" | "C05" | "C06" | "C16" | "C17") && self.r.below(200) == 0 {
            let c = self.marathon(&cfg);
            conns.push(c);
        }
        if prop == "C06" && self.r.below(100) == 0 {
            let c = self.heap(&cfg);
            conns.push(c);
        }
        if cfg.process_ms.is_some() && prop != "C07" && self.r.below(60) == 0 {
            // a limit that is none
            cfg.process_ms = Some(*self.r.pick(&[1 << 36, 1 << 44, i64::MAX as u64, u64::MAX]));
            for k in conns.iter_mut().flat_map(|c| &mut c.calls) {
                if k.out == Out::Hang {
                    k.out = Out::Acts(vec![]);
                }
                if k.ready == Ready::Never {
                    k.ready = Ready::Now;
                }
            }
        }
        let mut clock_jumps = vec![];
        if self.r.pct(15) {
            for _ in 0..self.r.usize(1, 3) {
                let by = *self.r.pick(&[1i64, 60_000, 3_600_000, 86_400_000, 1 << 40]);
                let at = if self.r.pct(50) { self.r.below(100) } else { self.r.below(20_000) };
                clock_jumps.push((at, if self.r.pct(50) { by } else { -by }));
            }
        }
        let blocking = prop == "C09" && self.r.pct(30);
        let again = match prop {
            "C07" => 15,
            "C09" => 5,
            _ => 0,
        };
        let serve_again = (agent && self.r.pct(again)).then(|| match shutdown_at {
            Some(t) => (t + self.r.below(2_000)).saturating_sub(self.r.below(1_000)).min(5_000),
            None => self.r.below(2_000),
        });
        APlan { cfg, agent, sched: sched(&mut self.r), conns, accept_faults, factory_ready, shutdown_at, clock_jumps, blocking, serve_again }
    }

    /// A connection that begins with all kinds of things.
    fn hello_conn(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, None);
        cb.ops.truncate(1);
        let Op::Frame(mut f) = cb.ops.pop().unwrap() else { unreachable!() };
        let Body::Kv(items) = &mut f.body else { unreachable!() };
        let set = |items: &mut spop::Kv, k: &str, v: Option<Val>| {
            items.retain(|i| i.0 != k);
            if let Some(v) = v {
                items.push(kv(k, v));
            }
        };
        let mut good = true;
        let mut first = None;
        match self.r.below(16) {
            0..=3 => {}
            4 => set(items, "healthcheck", Some(Val::Bool(true))),
            5 => {
                set(items, "healthcheck", Some(Val::Bool(true)));
                good = self.r.pct(50);
                if !good {
                    set(items, "supported-versions", Some(Val::Str("7.7".into())));
                }
            }
            6 => {
                good = false;
                for k in ["supported-versions", "max-frame-size", "capabilities"] {
                    if self.r.pct(45) {
                        set(items, k, None);
                    }
                }
            }
            7 => {
                good = false;
                let text = *self.r.pick(&["3.0", "1.1,4.0", "0.0", "20.0", "12.0, 22.0"]);
                set(items, "supported-versions", Some(Val::Str(text.into())));
            }
            8 => {
                good = false;
                let text = *self.r.pick(&["", "two", "2", "2.0,", ",", "2.0;1.0", "2.x", "256.0", "-1.0"]);
                set(items, "supported-versions", Some(Val::Str(text.into())));
            }
            9 => {
                // several in common, in any order
                let mut all = vec![(1, 0), (2, 0), (2, 1), (9, 0), (10, 0), (2, 9), (2, 10), (0, 1)];
                self.r.shuffle(&mut all);
                all.truncate(self.r.usize(1, 8));
                if self.r.pct(15) && cfg.mfs() >= 1000 {
                    all.extend((0..self.r.range(1, 60)).map(|k| (20 + k as u8, 0)));
                }
                if self.r.pct(80) {
                    all.insert(0, *cfg.versions.first().unwrap_or(&(2, 0)));
                }
                self.r.shuffle(&mut all);
                good = false;
                set(items, "supported-versions", Some(Val::Str(vtext(&all, ","))));
            }
            10 => {
                // something else in place of the HELLO
                good = false;
                let (sid, fid) = self.ids();
                first = Some(match self.r.below(5) {
                    0 => RFrame::notify(self.r.pct(70), sid, fid, self.msgs_nonempty(&cb, sid, fid)),
                    1 => RFrame::ack(sid, fid, vec![]),
                    2 => RFrame::control(spop::HA_DISCON, vec![kv("status-code", Val::U32(0)), kv("message", Val::Str("x".into()))]),
                    3 => crate::model::disc(0, "hi"),
                    _ => self.agent_hello(),
                });
            }
            11 => {
                good = false;
                let (k, v) = match self.r.below(4) {
                    0 => ("supported-versions", Val::U32(2)),
                    1 => ("max-frame-size", Val::Str("16384".into())),
                    2 => ("capabilities", Val::Bool(true)),
                    _ => ("supported-versions", Val::Null),
                };
                set(items, k, Some(v));
            }
            12 => {
                let n = *self.r.pick(&[5000, 65_536, 100_000, i32::MAX]);
                let v = match self.r.below(4) {
                    0 => Val::U64(n as u64),
                    1 => Val::I64(n as i64),
                    2 => Val::I32(n),
                    _ => Val::U32(u32::MAX),
                };
                set(items, "max-frame-size", Some(v));
                good = false;
            }
            13 => {
                good = false;
                set(items, "capabilities", Some(Val::Str(self.r.pick(&["", " ", "async", "fragmentation, pipelining", "pipelining,pipelining", "resume", "pipelining,resume,x"]).to_string())));
            }
            14 => {
                good = false;
                let bytes = self.corrupt(&f);
                cb.ops.push(Op::Bytes(bytes));
                let (sid, fid) = self.ids();
                first = Some(RFrame::notify(true, sid, fid, vec![]));
            }
            _ => {
                // sized around the minimum
                set(items, "max-frame-size", Some(Val::U32(self.r.range(256, 300) as u32)));
                good = false;
            }
        }
        if let Some(first) = first {
            cb.ops.push(Op::Frame(first));
        }
        cb.ops.push(Op::Frame(f));
        cb.mfs = cb.mfs.min(256);
        cb.frag = false;
        if self.r.pct(50) {
            cb.ops.push(Op::Replies(1));
        }
        let n = self.r.usize(0, 3);
        if good || self.r.pct(70) {
            self.traffic(&mut cb, cfg, n, false);
        }
        let net = self.net();
        let end = *self.r.pick(&[End::Linger, End::Linger, End::HalfClose, End::Close]);
        self.conn(cb, net, end)
    }

    fn deadline_conn(&mut self, cfg: &Cfg) -> Conn {
        let d = cfg.process_ms();
        let mut cb = self.open(cfg, None);
        let n = self.r.usize(1, 6);
        for _ in 0..n {
            let before = cb.calls.len();
            self.request(&mut cb, cfg, false);
            let r = &mut self.r;
            let out = cb.calls[before].out.clone();
            let (ready, delay, out) = match if d < 20 { 16 + r.below(6) } else { r.below(16) } {
                16 | 17 => (Ready::Now, d + 5 + r.below(5), out),
                18 => (Ready::After(d + 5 + r.below(5)), 0, out),
                19 => (Ready::Now, 0, Out::Hang),
                20 | 21 => (Ready::Now, 0, out),
                0..=2 => (Ready::Now, d - 5 - r.below(d.min(8) / 2), out),
                3 | 4 => (Ready::Now, d * r.range(50, 94) / 100, out),
                5 => (Ready::Now, d + 5 + r.below(4), out),
                6 => (Ready::Now, d + 5 + r.below(5 * d), out),
                7 => (Ready::Now, 0, Out::Hang),
                8 => (Ready::Never, 0, out),
                9 => (Ready::After(d / 2), d / 2 + 6, out),
                10 => (Ready::After(d / 2), (d / 2).saturating_sub(6), out),
                11 => (Ready::After(d - 6), 0, out),
                12 => (Ready::After(d + 6), 0, out),
                13 => (Ready::Now, d, out),
                _ => (Ready::Now, r.below(d / 2), out),
            };
            cb.calls[before] = Call { ready, delay, out };
            if self.r.pct(30) {
                // idle for longer than the limit
                cb.ops.push(Op::Wait(d + self.r.below((2 * d).max(5))));
            }
        }
        let mut net = self.net();
        if self.r.pct(40) {
            self.slow(&mut net, &cb.ops, true);
        }
        let end = *self.r.pick(&[End::Linger, End::HalfClose]);
        self.conn(cb, net, end)
    }

    fn malformed_conn(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, None);
        let k = self.r.usize(0, 4);
        self.traffic(&mut cb, cfg, k, false);
        let (sid, fid) = self.ids();
        match self.r.below(10) {
            0..=4 => {
                let f = RFrame::notify(true, sid, fid, if self.r.pct(50) { vec![msg(&mut self.r, 150), msg(&mut self.r, 100)] } else { self.msgs_nonempty(&cb, sid, fid) });
                let bytes = self.corrupt(&f);
                if bytes.len() - 4 <= cb.mfs {
                    cb.ops.push(Op::Bytes(bytes));
                }
            }
            5 => {
                // a well-formed start, then nonsense in the same frame
                let mut b = spop::encode(&RFrame::notify(true, sid, fid, self.msgs_nonempty(&cb, sid, fid)));
                let n = self.r.usize(1, 12);
                b.extend(self.r.bytes(n));
                if b.len() <= cb.mfs {
                    cb.ops.push(Op::Bytes(spop::prefixed(&b)));
                }
            }
            6 => {
                let n = self.r.usize(0, 60);
                let b = self.r.bytes(n);
                cb.ops.push(Op::Bytes(spop::prefixed(&b)));
            }
            7 => {
                // a varint that does not fit or does not end
                let mut b = vec![spop::NOTIFY, 0, 0, 0, 1];
                let n = self.r.usize(1, 14);
                b.push(0xff);
                b.extend(vec![*self.r.pick(&[0xff, 0x80, 0xfe]); n]);
                if self.r.pct(50) {
                    b.push(self.r.below(128) as u8);
                    b.push(1);
                }
                cb.ops.push(Op::Bytes(spop::prefixed(&b)));
            }
            8 => {
                let n = self.r.usize(1, 300);
                let b = self.r.bytes(n);
                cb.ops.push(Op::Bytes(b));
            }
            _ => cb.ops.push(Op::Bytes(vec![0, 0, 0, 0])),
        }
        if self.r.pct(50) {
            cb.ops.push(Op::Frame(RFrame::notify(true, 7, 7, vec![])));
        }
        if self.r.pct(15) {
            // before the handshake
            cb.ops.rotate_right(1);
        }
        let net = self.net();
        let end = *self.r.pick(&[End::Linger, End::HalfClose, End::Linger]);
        self.conn(cb, net, end)
    }

    fn sizes_conn(&mut self, cfg: &Cfg) -> Conn {
        let mut cb = self.open(cfg, None);
        let n = self.r.usize(1, 4);
        let lim = cb.mfs;
        for _ in 0..n {
            let (sid, fid) = self.ids();
            // a request of a size near the limit
            let mut pad = lim + 1 - self.r.usize(0, 3).min(lim);
            if self.r.pct(50) {
                pad = self.r.usize(0, lim);
            }
            let req = |pad: usize| RFrame::notify(true, sid, fid, vec![Msg { name: "m".into(), args: vec![kv("p", Val::Bin(vec![5; pad]))] }]);
            let mut p = pad;
            while p > 0 && spop::encode(&req(p)).len() > pad {
                p -= 1;
            }
            let f = req(p);
            let too_big = spop::encode(&f).len() > lim;
            cb.ops.push(Op::Frame(f));
            if too_big {
                break;
            }
            // a reply of a size near the limit
            let target = match self.r.below(3) {
                0 => lim,
                1 => lim + self.r.usize(0, 2),
                _ => lim - self.r.usize(0, 200).min(lim - 50),
            };
            let ack = |n: usize| vec![Act::Set(2, "r".into(), Val::Str("z".repeat(n)))];
            let mut k = target;
            while k > 0 && spop::encode(&RFrame::ack(sid, fid, ack(k))).len() > target {
                k -= 1;
            }
            let out = if self.r.pct(12) { Out::Err("e".repeat(self.r.usize(lim.min(200), lim + 100))) } else { Out::Acts(ack(k)) };
            let call = Call { ready: Ready::Now, delay: self.r.below(5), out };
            self.answered(&mut cb, call);
        }
        if self.r.pct(30) {
            let n = lim + 1 + if self.r.pct(50) { 0 } else { self.r.usize(0, 1 << 20) };
            cb.ops.push(Op::Bytes((n as u32).to_be_bytes().to_vec()));
        }
        let mut net = self.net();
        if net.seg == Seg::Bytes && lim > 3000 {
            net.seg = Seg::Random;
        }
        if net.rd == 1 && lim > 3000 {
            net.rd = 50;
        }
        if net.wr == 1 && lim > 3000 {
            net.wr = 50;
        }
        if self.r.pct(15) {
            net.werr_frame = Some((if self.r.pct(50) { cb.replies } else { self.r.usize(0, cb.replies) }, self.werr()));
        }
        self.conn(cb, net, End::Linger)
    }
}

pub fn bytes_of(ops: &[Op]) -> usize {
    ops.iter()
        .map(|o| match o {
            Op::Frame(f) => spop::wire(f).len(),
            Op::Bytes(b) => b.len(),
            _ => 0,
        })
        .sum()
}

/// Damages bytes the way broken peers and broken memory do.
pub fn damage(r: &mut Rng, good: &[u8]) -> Vec<u8> {
    let mut b = good.to_vec();
    for _ in 0..r.usize(1, 3) {
        if b.is_empty() {
            break;
        }
        let at = r.below(b.len() as u64) as usize;
        match r.below(8) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = *r.pick(&[0, 0xff, 0xf0, 0x80, 0x7f, 0x0a, 0x0f]),
            2 | 3 => b.truncate(at),
            4 => {
                b.remove(at);
            }
            5 => b.insert(at, r.u64() as u8),
            6 => b[at] = b[at].wrapping_add(1),
            _ => {
                let n = r.usize(1, 6);
                let tail = r.bytes(n);
                b.extend(tail);
            }
        }
    }
    b
}

// ---------------------------------------------------------------- worlds B and C

fn dispatch(r: &mut Rng, wake: bool, big: bool) -> BPlan {
    let mut next = 0;
    // many requests, or requests of many messages
    let long = r.below(50);
    let threads = if long < 2 { r.usize(1, 2) } else { r.usize(1, if big { 4 } else { 3 }) };
    let keys = if long == 0 { r.usize(1, 8) } else { r.usize(1, 4) };
    let cloned = r.pct(25);
    let mut ids = pairs(r);
    let mut keys = keys.min(ids.len());
    let crowd = long == 0 && r.pct(25);
    if crowd {
        // many requests at once
        keys = *r.pick(&[20, 60, 150, 600]);
        ids = crowded(r, ids, keys);
    }
    let roam = !cloned && r.pct(40);
    let loose = long > 1 && !cloned && !roam && r.pct(35);
    let mut all: Vec<Vec<DOp>> = vec![vec![]; threads];
    if loose {
        for _ in 0..r.usize(2, if big { 11 } else { 8 }) {
            let t = r.below(threads as u64) as usize;
            let k = r.usize(0, keys.min(3) - 1);
            let n = *r.pick(&[0u64, 1, 1, 2, 3]);
            let msgs = (next + 1..=next + n).collect();
            next += n;
            let (sid, fid) = ids[k];
            all[t].push(DOp { fin: r.pct(40), sid, fid, msgs, turn: 0, other: 0 });
        }
    }
    let long_request = if r.below(12) == 0 { 700 } else { 70 };
    // fragments left of the request in progress, and operations so far, per id pair
    let mut open: Vec<Option<usize>> = vec![None; keys];
    let mut turns = vec![0u32; keys];
    let mut todo = match long {
        _ if loose => 0,
        0 if crowd => keys * r.usize(1, 3) / 2,
        0 if r.below(12) == 0 => r.usize(300, 1500),
        0 => r.usize(40, 300),
        1 => r.usize(1, 3),
        _ => r.usize(1, if big { 9 } else { 5 }),
    };
    while todo > 0 || open.iter().any(|o| o.is_some()) {
        let k = r.below(keys as u64) as usize;
        let left = match open[k] {
            Some(left) => left,
            None if todo == 0 => continue,
            None => {
                todo -= 1;
                if r.pct(45) {
                    0
                } else {
                    r.usize(1, if long == 1 { long_request } else { 3 })
                }
            }
        };
        let t = if roam { r.below(threads as u64) as usize } else { k % threads };
        let n = if long == 1 && r.pct(20) { r.usize(30, 300) } else { *r.pick(&[0usize, 1, 1, 2, 3]) };
        let msgs = (0..n)
            .map(|_| {
                next += 1;
                next
            })
            .collect();
        let (sid, fid) = ids[k];
        all[t].push(DOp { fin: left == 0, sid, fid, msgs, turn: turns[k], other: 0 });
        turns[k] += 1;
        open[k] = left.checked_sub(1);
    }
    let how = (0..r.usize(1, 6))
        .map(|_| match r.below(12) {
            0 => AckHow::Abort,
            1 => AckHow::Drop,
            2 => AckHow::Early,
            3 => AckHow::Deaf,
            4 => AckHow::CompleteTwice,
            5 => AckHow::Panic,
            _ => AckHow::Complete,
        })
        .collect();
    let consumers = [Consumer::Inline, Consumer::Inline, Consumer::Joint, Consumer::Spawn];
    // a thread for every entry would be too many
    let consumer = *r.pick(&consumers[..if long == 0 { 3 } else { 4 }]);
    BPlan {
        sched: sched(r),
        preempt: *r.pick(&[5, 20, 50, 90]),
        allocs: r.pct(20),
        kind: BKind::Dispatch(Dispatch {
            threads: all,
            how,
            consumer,
            drop_after: if r.pct(if wake { 10 } else { 25 }) { Some(r.usize(0, if long == 0 { 60 } else { 3 })) } else { None },
            waiters: consumer != Consumer::Inline && !loose && r.pct(60),
            cloned,
            loose,
            glance: r.pct(30),
        }),
    }
}

/// These pairs of ids and many others, in any order.
fn crowded(r: &mut Rng, mut ids: Vec<(u64, u64)>, n: usize) -> Vec<(u64, u64)> {
    ids.extend((0..n as u64).map(|k| (k % 37, 1 + k / 37)));
    ids.sort();
    ids.dedup();
    r.shuffle(&mut ids);
    ids
}

/// Pairs of ids that may be the same if looked at carelessly.
fn pairs(r: &mut Rng) -> Vec<(u64, u64)> {
    let plain: Vec<(u64, u64)> = (0..3).flat_map(|s| (1..4).map(move |f| (s, f))).collect();
    let mut all = match r.below(10) {
        // the low bits are the same
        0..=3 => {
            let alias = *r.pick(ALIAS);
            let far: Vec<_> = plain.iter().flat_map(|&(s, f)| [(s + alias, f), (s, f + alias)]).collect();
            [&plain[..], &far].concat()
        }
        // some combination of the two is the same
        4 => {
            let x = *r.pick(&[1, 2, 7, 16, 31, 33, 37, 64, 100, 128, 255, 256, 257, 1000, 1024, 10_000, 65_535, 65_536, 65_599, 1_000_003]);
            (0..4).map(|i| (100 + i, 5_000_000 - i * x)).collect()
        }
        5 => {
            let x = *r.pick(&[1, 7, 31, 37, 100, 1000, 65_536]);
            (0..4).map(|i| (5_000_000 - i * x, 100 + i)).collect()
        }
        // the same two, in any order
        6 => {
            let (a, b) = (r.range(1, 300), r.range(1, 1 << 33));
            vec![(a, b), (b, a), (a, a), (b, b)]
        }
        // the same digits
        7 => vec![(1, 11), (11, 1), (1, 23), (12, 3), (112, 3), (1, 123)],
        _ => plain,
    };
    all.sort();
    all.dedup();
    for i in (1..all.len()).rev() {
        all.swap(i, r.usize(0, i));
    }
    all
}

fn reassembly(r: &mut Rng, big: bool) -> BPlan {
    let mut ids = pairs(r);
    let mut next = 0;
    // one thread that does a lot
    let long = r.below(40) == 0;
    let threads = if long { 1 } else { r.usize(2, if big { 4 } else { 3 }) };
    let todo = match long {
        true if r.below(12) == 0 => r.usize(600, 5000),
        true => r.usize(50, 600),
        false => r.usize(4, if big { 13 } else { 10 }),
    };
    let handler = long && r.pct(60);
    let mut keys = if long { r.usize(1, 12) } else { r.usize(1, 3) };
    if long && r.pct(20) {
        // many requests at once
        keys = r.usize(12, 1 + todo / 2).max(12);
        ids = crowded(r, ids, keys);
    }
    let keys = keys.min(ids.len());
    let fin = if long { *r.pick(&[2, 10, 45]) } else { 45 };
    let mut all: Vec<Vec<DOp>> = vec![vec![]; threads];
    for _ in 0..todo {
        let t = r.below(threads as u64) as usize;
        let k = r.usize(0, keys - 1);
        let n = if long && r.pct(3) { r.usize(30, 300) } else { *r.pick(&[0usize, 1, 1, 2]) };
        let msgs = (0..n)
            .map(|_| {
                next += 1;
                next
            })
            .collect();
        let (sid, fid) = ids[k];
        let other = match handler {
            true if r.pct(3) => r.range(1, 2) as u8,
            true if r.pct(15) => 3,
            _ => 0,
        };
        all[t].push(DOp { fin: r.pct(fin), sid, fid, msgs, turn: 0, other });
    }
    BPlan {
        sched: sched(r),
        preempt: *r.pick(&[10, 40, 70]),
        allocs: r.pct(30),
        kind: BKind::Reassembly(ReasmPlan { threads: all, frames: r.pct(30), handler }),
    }
}

fn any_frame(r: &mut Rng, max: usize) -> RFrame {
    let sid = num(r);
    let fid = num(r).max(1);
    let caps = |r: &mut Rng| {
        let mut c: Vec<_> = ["fragmentation", "pipelining", "async"].into_iter().filter(|_| r.pct(45)).collect();
        r.shuffle(&mut c);
        Val::Str(c.join(","))
    };
    let ver = |r: &mut Rng| (r.below(256) as u8, if r.pct(60) { 0 } else { r.below(256) as u8 });
    match r.below(9) {
        0 => {
            let n = r.usize(1, 4);
            let v: Vec<_> = (0..n).map(|_| ver(r)).collect();
            let mut items = vec![
                kv("supported-versions", Val::Str(vtext(&v, ","))),
                kv("max-frame-size", Val::U32(num(r) as u32)),
                kv("capabilities", caps(r)),
            ];
            if r.pct(50) {
                items.push(kv("healthcheck", Val::Bool(r.pct(50))));
            }
            if r.pct(50) {
                items.push(kv("engine-id", Val::Str(text(r, max / 2))));
            }
            RFrame::control(spop::HA_HELLO, items)
        }
        1 => {
            let v = ver(r);
            RFrame::control(
                spop::AG_HELLO,
                vec![
                    kv("version", Val::Str(vtext(&[v], ","))),
                    kv("max-frame-size", Val::U32(num(r) as u32)),
                    kv("capabilities", caps(r)),
                ],
            )
        }
        2 | 3 => RFrame::control(
            if r.pct(50) { spop::HA_DISCON } else { spop::AG_DISCON },
            vec![kv("status-code", Val::U32(num(r) as u32)), kv("message", Val::Str(text(r, max / 2)))],
        ),
        4..=6 => {
            let n = r.usize(0, 4);
            RFrame::notify(r.pct(70), sid, fid, (0..n).map(|_| msg(r, max)).collect())
        }
        _ => {
            let n = r.usize(0, 5);
            let mut f = RFrame::ack(sid, fid, (0..n).map(|_| act(r, max)).collect());
            if r.pct(20) {
                f.flags |= spop::ABORT;
            }
            if r.pct(10) {
                f.flags &= !spop::FIN;
            }
            f
        }
    }
}

fn pipe(r: &mut Rng) -> NetPlan {
    let mut n = NetPlan {
        seed: r.u64(),
        latency: *r.pick(&[0, 0, 3, 40]),
        seg: *r.pick(&[Seg::Whole, Seg::Coalesce, Seg::Small, Seg::Random, Seg::Random]),
        spurious: *r.pick(&[0, 0, 20, 50]),
        wr: *r.pick(&[0, 0, 1, 5, 100]),
        rd: *r.pick(&[0, 0, 1, 5, 100]),
        ..NetPlan::default()
    };
    for _ in 0..r.below(3) {
        n.stalls.push((r.usize(0, 300), r.below(5_000)));
    }
    match r.below(10) {
        0 => n.cut = Some((r.usize(0, 600), *r.pick(&[Cut::Eof, Cut::Reset, Cut::Silence]))),
        1 => n.werr = Some((r.usize(0, 600), *r.pick(&[WErr::Pipe, WErr::Reset, WErr::Zero, WErr::Flush]))),
        2 => n.wblock.push((r.usize(0, 600), Some(r.below(5_000)))),
        _ => {}
    }
    n
}

fn codec(r: &mut Rng, broken: bool, big: bool) -> CPlan {
    let mfs = *r.pick(&[256usize, 1000, 16384, 16384, 65536]);
    let mut frames = vec![];
    for _ in 0..r.usize(1, if big { 12 } else { 6 }) {
        let f = any_frame(r, mfs);
        if broken && r.pct(60) {
            let good = spop::encode(&f);
            let b = if r.pct(85) {
                damage(r, &good)
            } else {
                let n = r.usize(0, 80);
                r.bytes(n)
            };
            if b.len() <= mfs {
                frames.push(CFrame::Raw(b));
                continue;
            }
        }
        if !broken && r.pct(4) {
            // more arguments than can be counted
            let n = r.usize(256, 300);
            frames.push(CFrame::Frame(RFrame::notify(
                true,
                1,
                1,
                vec![Msg { name: "m".into(), args: (0..n).map(|k| (String::new(), Val::Bool(k % 2 == 0))).collect() }],
            )));
            continue;
        }
        frames.push(CFrame::Frame(f));
        if r.pct(15) {
            frames.push(CFrame::Wait(r.below(100)));
        }
    }
    if !broken && r.below(300) == 0 {
        let n = *r.pick(&[264_431usize, 264_432, 264_433]);
        let v = if r.pct(50) { Val::Str("s".repeat(n)) } else { Val::Bin(vec![1; n]) };
        frames.push(CFrame::Frame(RFrame::ack(1, 1, vec![Act::Set(0, "v".into(), v)])));
        let net = NetPlan { seed: r.u64(), rd: *r.pick(&[0, 3000]), wr: *r.pick(&[0, 3000]), ..NetPlan::default() };
        return CPlan { sched: sched(r), net, mfs: 300_000, read_mfs: 300_000, buffered: r.pct(60), frames, close: true, echo: r.pct(30) };
    }
    let echo = !broken && r.pct(30);
    CPlan { sched: sched(r), net: pipe(r), mfs, read_mfs: mfs, buffered: r.pct(60), frames, close: r.pct(60), echo }
}

fn codec_sizes(r: &mut Rng) -> CPlan {
    let mfs = *r.pick(&[256usize, 300, 2300, 5000]);
    let read_mfs = if r.pct(50) { mfs } else { *r.pick(&[256usize, 300, 2300, 5000]) };
    let mut frames = vec![];
    for _ in 0..r.usize(1, 5) {
        let target = match r.below(3) {
            0 => mfs + 2 - r.usize(0, 4),
            1 => read_mfs + 2 - r.usize(0, 4),
            _ => r.usize(20, mfs),
        };
        let make = |n: usize| RFrame::ack(1, 1, vec![Act::Set(0, "s".into(), Val::Str("q".repeat(n)))]);
        let mut n = target;
        while n > 0 && spop::encode(&make(n)).len() > target {
            n -= 1;
        }
        frames.push(CFrame::Frame(make(n)));
    }
    if r.pct(30) {
        frames.push(CFrame::Raw(vec![1; read_mfs + r.usize(1, 9)]));
    } else if r.pct(30) {
        // nothing, or not enough, follows
        let n = *r.pick(&[read_mfs as u32 + 1, 1 << 16, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX]);
        let mut b = n.to_be_bytes().to_vec();
        b.extend(vec![1; r.usize(0, 40)]);
        frames.push(CFrame::Bytes(b));
    }
    CPlan { sched: sched(r), net: pipe(r), mfs, read_mfs, buffered: r.pct(50), frames, close: r.pct(60), echo: false }
}

// ---------------------------------------------------------------- connections on threads

fn threads(r: &mut Rng, prop: &str, big: bool) -> BPlan {
    let cancel = match prop {
        "C07" => true,
        "C19" => r.pct(40),
        _ => r.pct(8),
    };
    let n = if prop == "C07" { r.usize(1, 3) } else { r.usize(2, if big { 5 } else { 4 }) };
    let mut uniq = 0;
    let conns = (0..n)
        .map(|i| {
            let frag = prop == "C06" || r.pct(50);
            let reqs = r.usize(1, if big { 6 } else { 4 });
            // the same ids on every connection
            let mut todo: Vec<(u64, u64, usize)> =
                (0..reqs).map(|k| (r.below(3), k as u64 + 1, if frag && r.pct(60) { r.usize(2, 4) } else { 1 })).collect();
            let mut frames = vec![];
            while !todo.is_empty() {
                let at = if frag { r.usize(0, todo.len() - 1) } else { 0 };
                todo[at].2 -= 1;
                let (sid, fid, left) = todo[at];
                let msgs = (0..r.usize(0, 2))
                    .map(|_| {
                        uniq += 1;
                        let v = if r.pct(50) { Val::U64(uniq) } else { val(r, 60) };
                        let mut args = vec![("id".to_string(), v)];
                        if r.pct(30) {
                            args.push((format!("c{i}"), Val::U64(uniq)));
                        }
                        Msg { name: format!("m{uniq}"), args }
                    })
                    .collect();
                frames.push(RFrame::notify(left == 0, sid, fid, msgs));
                if left == 0 {
                    todo.remove(at);
                }
            }
            let end = match r.below(10) {
                0 | 1 if cancel => TEnd::Linger,
                0..=4 => TEnd::Eof,
                5..=7 => TEnd::Disconnect,
                8 => TEnd::Part,
                _ => TEnd::Garbage,
            };
            TConn {
                frag,
                frames,
                end,
                rd: *r.pick(&[0, 0, 1, 3, 7, 64]),
                wr: *r.pick(&[0, 0, 0, 1, 5, 64]),
                spurious: *r.pick(&[0, 0, 10, 50]),
                lazy: *r.pick(&[0, 0, 1, 3]),
                make_lazy: *r.pick(&[0, 0, 1, 3]),
                fail: r.pct(10).then(|| r.usize(0, 2)),
            }
        })
        .collect();
    let plan = ConnsPlan {
        mfs: *r.pick(&[16384, 16384, 4096]),
        conns,
        cancel: cancel.then(|| *r.pick(&[0, 1, 2, 5, 10, 20, 50, 100]) + r.below(5) as u32),
        factory_lazy: *r.pick(&[0, 0, 0, 1, 2]),
    };
    BPlan { sched: sched(r), preempt: *r.pick(&[2, 5, 20, 50]), allocs: r.pct(40), kind: BKind::Conns(plan) }
}
