//! World C: one codec writes frames, another one reads them, over a simulated transport that
//! splits, delays, stalls, cuts and fails. In between sits the reference decoder.

use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use haproxy_spop::{BufCodec, Codec, Error, Frame, Framer};
use tokio::time::sleep;

use crate::agent::{chooser, runtime};
use crate::conv;
use crate::ctx::{self, ev, now, probe, viol};
use crate::net::{Net, SimIo};
use crate::plan::{CFrame, CPlan, Cut};
use crate::spop::{self, Bad, Body, HelloBad, RFrame, Val};

enum Any {
    Plain(Codec<SimIo>),
    Buffered(BufCodec<SimIo>),
}
impl Any {
    fn new(net: &Arc<Net>, mfs: usize, buffered: bool) -> Any {
        let io = SimIo::new(net.clone());
        if buffered {
            Any::Buffered(BufCodec::buffered(io, Framer::new(mfs)))
        } else {
            Any::Plain(Codec::new(io, Framer::new(mfs)))
        }
    }
    async fn read(&mut self) -> Result<Frame, Error> {
        match self {
            Any::Plain(c) => c.read_frame().await,
            Any::Buffered(c) => c.read_frame().await,
        }
    }
    async fn write(&mut self, f: Frame) -> Result<usize, Error> {
        match self {
            Any::Plain(c) => c.write_frame(f).await,
            Any::Buffered(c) => c.write_frame(f).await,
        }
    }
}

type Reads = Arc<Mutex<Vec<Result<RFrame, String>>>>;

pub fn run(p: &CPlan, seed: u64) {
    simhook::set_chooser(Some(chooser(&p.sched, 3_000_000)));
    let rt = runtime(p.sched.seed ^ seed);
    rt.block_on(drive(Arc::new(p.clone())));
    drop(rt);
    simhook::set_chooser(None);
}

/// Carries what is written on one transport to another.
async fn relay(from: Arc<Net>, to: Arc<Net>) {
    let mut at = 0;
    loop {
        let out = from.out_from(at).await;
        match out {
            Some(b) => {
                at += b.len();
                to.push(&b);
            }
            None => {
                to.finish(Cut::Eof);
                return;
            }
        }
    }
}

async fn drive(p: Arc<CPlan>) {
    let (a, b) = (Net::new(0, &p.net), Net::new(1, &p.net));
    let relays = [tokio::spawn(relay(a.clone(), b.clone())), tokio::spawn(relay(b.clone(), a.clone()))];
    let reads: Reads = Arc::default();
    let reader = tokio::spawn(read(p.clone(), b.clone(), reads.clone()));
    let stage = Arc::new(AtomicU8::new(BUSY));
    let writer = tokio::spawn(write(p.clone(), a.clone(), b.clone(), stage.clone()));
    // whatever the transport does, it does within a minute per frame
    let limit = 60_000 * (p.frames.len() as u64 + 2);
    let until = now() + limit;
    while now() < until && !(writer.is_finished() && reader.is_finished()) {
        sleep(Duration::from_millis(1000)).await;
        if stage.load(SeqCst) == DONE && !p.close && b.idle() {
            sleep(Duration::from_millis(1000)).await;
            break;
        }
    }
    if stage.load(SeqCst) == WRITING {
        viol("hang", "a frame is still being written".into());
    }
    check_reads(&p, &b, &reads.lock().unwrap(), reader.is_finished());
    for t in relays {
        t.abort();
    }
    reader.abort();
    writer.abort();
}

async fn read(p: Arc<CPlan>, b: Arc<Net>, reads: Reads) {
    let mut c = Any::new(&b, p.read_mfs, p.buffered);
    loop {
        let got = c.read().await;
        ev("read-frame", 1, if got.is_ok() { "ok" } else { "error" });
        let over = matches!(got, Err(Error::Io | Error::TooBig));
        reads.lock().unwrap().push(got.as_ref().map(conv::frame_from).map_err(|e| e.to_string()));
        if over {
            break;
        }
        if let (true, Ok(f)) = (p.echo, got) {
            if c.write(f).await.is_err() {
                break;
            }
        }
    }
}

const BUSY: u8 = 0;
const WRITING: u8 = 1;
const DONE: u8 = 2;

async fn write(p: Arc<CPlan>, a: Arc<Net>, b: Arc<Net>, stage: Arc<AtomicU8>) {
    let mut c = Any::new(&a, p.mfs, !p.buffered);
    for f in &p.frames {
        let f = match f {
            CFrame::Wait(ms) => {
                sleep(Duration::from_millis(*ms)).await;
                continue;
            }
            CFrame::Raw(body) => {
                a.inject(&spop::prefixed(body));
                continue;
            }
            CFrame::Bytes(bytes) => {
                a.inject(bytes);
                continue;
            }
            CFrame::Frame(f) => f,
        };
        let Some(frame) = conv::frame_to(f) else { panic!("HARNESS: no frame for {f:?}") };
        let want = conv::frame_from(&frame);
        if !same(&want, f) {
            return viol("encode", format!("{} was made from {}", brief(&want), brief(f)));
        }
        let len = spop::encode(&want).len();
        let countable = match &want.body {
            Body::Msgs(ms) => ms.iter().all(|m| m.args.len() <= 255),
            _ => true,
        };
        let before = a.rec();
        stage.store(WRITING, SeqCst);
        let res = c.write(frame).await;
        stage.store(BUSY, SeqCst);
        let after = a.rec();
        let wrote = &after.out[before.out.len()..];
        ev("wrote", 0, format!("{res:?}"));
        match res {
            Ok(_) if !countable => return viol("not-refused", format!("a message with more than 255 arguments was written: {}", brief(&want))),
            Ok(_) if len > p.mfs => return viol("not-refused", format!("a frame of {len} bytes was written, the limit is {}", p.mfs)),
            Ok(_) if after.w_failed.is_some() => return viol("write-lost", "a write succeeded on a transport that failed".into()),
            Ok(n) => {
                let body = wrote.get(4..).unwrap_or(&[]);
                if wrote.len() < 4 || wrote[..4] != ((wrote.len() - 4) as u32).to_be_bytes() {
                    return viol("encode", format!("a length prefix does not match its frame: {}", spop::hex::enc(&wrote[..wrote.len().min(40)])));
                }
                match spop::decode(body) {
                    Ok(got) if same(&got, &want) => {}
                    got => return viol("encode", format!("{} was written as {} ({got:?})", brief(&want), spop::hex::enc(&body[..body.len().min(100)]))),
                }
                if n != wrote.len() {
                    return viol("encode", format!("{} bytes were written, {n} reported", wrote.len()));
                }
                if len == p.mfs {
                    probe("frame of exactly the limit written");
                }
                if p.echo {
                    match c.read().await {
                        Ok(f) if same(&conv::frame_from(&f), &want) => probe("frame came back"),
                        Err(Error::Io) if a.rec().end.is_some() || b.rec().w_failed.is_some() || b.rec().end.is_some() => return,
                        other => return viol("roundtrip", format!("{} came back as {other:?}", brief(&want))),
                    }
                }
            }
            Err(_) if after.w_failed.is_some() || after.reset_at.is_some() => {
                probe("write failed with the transport");
                return;
            }
            Err(e) => {
                if countable && len <= p.mfs {
                    return viol("refused", format!("a frame of {len} bytes, limit {}, was refused ({e}): {}", p.mfs, brief(&want)));
                }
                probe("frame refused");
                if !wrote.is_empty() {
                    return viol("wrote-refused", format!("{} bytes of a refused frame were written", wrote.len()));
                }
            }
        }
    }
    stage.store(DONE, SeqCst);
    if !p.close {
        std::future::pending::<()>().await
    }
}

fn brief(f: &RFrame) -> String {
    let s = format!("{f:?}");
    s.chars().take(300).collect()
}

/// The same frame; the order of the items of a control frame means nothing.
fn same(a: &RFrame, b: &RFrame) -> bool {
    let head = |f: &RFrame| (f.ty, f.flags, f.sid, f.fid);
    match (&a.body, &b.body) {
        (Body::Kv(x), Body::Kv(y)) => {
            head(a) == head(b) && x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && item_same(k, v, w)))
        }
        _ => a == b,
    }
}

fn item_same(key: &str, a: &Val, b: &Val) -> bool {
    match (key, a, b) {
        ("capabilities", Val::Str(a), Val::Str(b)) => spop::offered_caps(a).is_some() && spop::offered_caps(a) == spop::offered_caps(b),
        ("supported-versions", Val::Str(a), Val::Str(b)) => {
            let v = |s: &str| s.split(',').map(spop::parse_version).collect::<Vec<_>>();
            v(a) == v(b)
        }
        ("status-code" | "max-frame-size", a, b) => uint(a).is_some() && uint(a) == uint(b),
        _ => a == b,
    }
}

fn uint(v: &Val) -> Option<u64> {
    match v {
        Val::U32(n) => Some(*n as u64),
        Val::U64(n) => Some(*n),
        Val::I32(n) => u64::try_from(*n).ok(),
        Val::I64(n) => u64::try_from(*n).ok(),
        _ => None,
    }
}

/// What reading these bytes as a frame has to give: Some(Ok) this frame, Some(Err) an error;
/// None if the protocol leaves it open.
fn verdict(body: &[u8]) -> Option<Result<RFrame, &'static str>> {
    let f = match spop::decode(body) {
        Err(Bad::Malformed(why)) => return Some(Err(why)),
        Err(Bad::Gray(_)) => return None,
        Ok(f) => f,
    };
    let known = |keys: &[&str], f: RFrame| {
        // items nobody knows are skipped
        let Body::Kv(kv) = &f.body else { return f };
        let kv = kv.iter().filter(|(k, _)| keys.contains(&k.as_str())).cloned().collect();
        RFrame { body: Body::Kv(kv), ..f }
    };
    match f.ty {
        spop::HA_HELLO => match spop::ha_hello(&f) {
            Ok(_) => Some(Ok(known(&["supported-versions", "max-frame-size", "capabilities", "healthcheck", "engine-id"], f))),
            Err(HelloBad::Status(_, why)) => Some(Err(why)),
            Err(HelloBad::Gray(_)) => None,
        },
        spop::AG_HELLO => match (f.get("version"), f.get("max-frame-size"), f.get("capabilities")) {
            (Some(Val::Str(v)), Some(Val::U32(_)), Some(Val::Str(c)))
                if spop::parse_version(v).is_some() && spop::caps_of(c).is_some() =>
            {
                Some(Ok(known(&["version", "max-frame-size", "capabilities"], f)))
            }
            (Some(_), Some(_), Some(_)) => None,
            _ => Some(Err("an item is missing")),
        },
        spop::HA_DISCON | spop::AG_DISCON => match (f.get("status-code"), f.get("message")) {
            (Some(Val::U32(_)), Some(Val::Str(_))) => Some(Ok(known(&["status-code", "message"], f))),
            _ => None,
        },
        _ => Some(Ok(f)),
    }
}

fn check_reads(p: &CPlan, b: &Net, reads: &[Result<RFrame, String>], finished: bool) {
    let rec = b.rec();
    let (frames, rest) = spop::split_stream(&rec.inb);
    let mut reads = reads.iter();
    for (end, body) in &frames {
        let got = match reads.next() {
            Some(g) => g,
            // the echo could not be written
            None if rec.w_failed.is_some() || rec.w_stuck => return,
            None => return viol("frame-lost", format!("the frame ending at byte {end} of {} was never returned", rec.inb.len())),
        };
        if body.len() > p.read_mfs {
            match got {
                Ok(_) => viol("not-rejected", format!("a frame of {} bytes was accepted, the limit is {}", body.len(), p.read_mfs)),
                Err(_) => probe("frame above the limit rejected"),
            }
            return;
        }
        match (verdict(body), got) {
            (Some(Ok(want)), Ok(got)) => {
                if !same(&want, got) {
                    return viol("roundtrip", format!("{} was read as {}", brief(&want), brief(got)));
                }
                probe("frame read back");
            }
            (Some(Ok(want)), Err(e)) => return viol("rejected", format!("{} was rejected: {e}", brief(&want))),
            (Some(Err(why)), Ok(got)) => {
                return viol("not-rejected", format!("bytes {} ({why}) were read as {}", spop::hex::enc(body), brief(got)))
            }
            (Some(Err(_)), Err(_)) => probe("malformed frame rejected"),
            (None, Err(_)) => {}
            (None, Ok(_)) => {}
        }
    }
    if rest.len() >= 4 && u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize > p.read_mfs {
        // no need to wait for its bytes
        match reads.next() {
            Some(Err(_)) => probe("header above the limit rejected"),
            Some(Ok(_)) => viol("not-rejected", "a frame above the limit was accepted".into()),
            None if rec.w_failed.is_some() || rec.w_stuck => {}
            None => viol("hang", "the header of a frame above the limit is not rejected".into()),
        }
        return;
    }
    match reads.next() {
        Some(Ok(f)) => return viol("read-extra", format!("a frame nobody sent was read: {}", brief(f))),
        Some(Err(e)) if !matches!(rec.end, Some((_, Cut::Eof | Cut::Reset))) => {
            return viol("rejected", format!("reading failed ({e}), the stream is intact"))
        }
        Some(Err(_)) => probe("end of stream reported"),
        None if rec.w_failed.is_some() || rec.w_stuck => return,
        None if matches!(rec.end, Some((_, Cut::Eof | Cut::Reset))) => return viol("hang", "the end of the stream is not reported".into()),
        None => {}
    }
    if reads.next().is_some() && !finished {
        viol("read-extra", "reading went on after the end of the stream".into());
    }
    ctx::probe("stream checked");
}
