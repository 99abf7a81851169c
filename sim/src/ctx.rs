//! The state of the run executing on this thread: history, counters, violations.

use std::cell::RefCell;
use std::collections::BTreeMap;

use crate::rng::mix;
use crate::spop::{hex, Msg};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub detail: String,
}

/// The values of each header, in order.
pub type Headers = BTreeMap<String, Vec<Vec<u8>>>;

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub start: u64,
    /// Bytes taken in from the peer and given to it, when the call began and when it ended.
    pub at_start: (usize, usize),
    pub at_end: (usize, usize),
    pub msgs: Vec<Msg>,
    /// The header blocks among the arguments, and what was read from each.
    pub headers: Vec<(Vec<u8>, Result<Headers, String>)>,
    /// When and how the call's future ended: "done", "err", "dropped", "panic".
    pub end: Option<(u64, &'static str)>,
}

#[derive(Clone, Debug, Default)]
pub struct MakeRec {
    pub start: u64,
    /// When the factory's future ended (done, err, dropped, panic).
    pub end: Option<(u64, &'static str)>,
    pub made: Option<u64>,
    /// Bytes taken in from the peer when it was over.
    pub at_end: usize,
    pub dropped: Vec<u64>,
    pub calls: Vec<CallRec>,
    /// When readiness for each call was first asked.
    pub asked: Vec<u64>,
}

#[derive(Default)]
pub struct Ctx {
    pub hash: u64,
    pub shape: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub viols: Vec<Viol>,
    /// Faults that fired, and probes hit.
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub panics: Vec<String>,
    pub steps: u64,
    pub last_event: u64,
    /// Services made, per connection.
    pub makes: BTreeMap<usize, Vec<MakeRec>>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

pub fn install(trace: bool) {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx { trace: trace.then(Vec::new), ..Ctx::default() });
    });
}
pub fn take() -> Ctx {
    CTX.with(|c| c.borrow_mut().take()).unwrap_or_default()
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no run on this thread")))
}
pub fn active() -> bool {
    CTX.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true)).unwrap_or(false)
}
pub fn now() -> u64 {
    simhook::clock().unwrap_or(0) / 1_000_000
}

/// Adds an event to the history.
pub fn ev(kind: &'static str, conn: usize, detail: impl AsRef<[u8]>) {
    let t = now();
    let d = detail.as_ref();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let Some(c) = c.as_mut() else { return };
        let mut h = mix(c.hash ^ t);
        for b in kind.bytes() {
            h = mix(h ^ b as u64);
        }
        h = mix(h ^ conn as u64);
        for ch in d.chunks(8) {
            let mut w = [0u8; 8];
            w[..ch.len()].copy_from_slice(ch);
            h = mix(h ^ u64::from_le_bytes(w) ^ ((ch.len() as u64) << 56));
        }
        c.hash = h;
        let mut s = c.shape;
        for b in kind.bytes() {
            s = mix(s ^ b as u64);
        }
        c.shape = mix(s ^ conn as u64);
        c.events += 1;
        c.last_event = t;
        if let Some(tr) = c.trace.as_mut() {
            let text = match std::str::from_utf8(d) {
                Ok(s) if s.chars().all(|c| !c.is_control()) => s.to_string(),
                _ => hex::enc(d),
            };
            tr.push(format!("{t:>8} ms  #{conn:<3} {kind:<12} {text}"));
        }
    });
}

pub fn fault(kind: &'static str) {
    with(|c| *c.faults.entry(kind).or_default() += 1);
}
pub fn probe(kind: &'static str) {
    with(|c| *c.probes.entry(kind).or_default() += 1);
}
pub fn viol(class: &'static str, detail: String) {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            if c.viols.len() < 50 {
                c.viols.push(Viol { class, detail });
            }
        }
    });
}
pub fn panicked(msg: String) {
    let _ = CTX.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if let Some(c) = c.as_mut() {
                c.panics.push(msg);
            }
        }
    });
}
