//! Reference implementation of the SPOP wire format, written from the protocol description
//! (HAProxy's SPOE documentation and the doc comments of /repo), sharing no code with /repo.
//! It is the oracle for what bytes mean.

use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr};

pub const HA_HELLO: u8 = 1;
pub const HA_DISCON: u8 = 2;
pub const NOTIFY: u8 = 3;
pub const AG_HELLO: u8 = 101;
pub const AG_DISCON: u8 = 102;
pub const ACK: u8 = 103;
pub const FIN: u32 = 1;
pub const ABORT: u32 = 2;

pub mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    pub fn serialize<S: Serializer>(b: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(b))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Val {
    Null,
    Bool(bool),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    V4(Ipv4Addr),
    V6(Ipv6Addr),
    Str(String),
    Bin(#[serde(with = "hex")] Vec<u8>),
}

pub type Kv = Vec<(String, Val)>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Msg {
    pub name: String,
    pub args: Kv,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    Set(u8, String, Val),
    Unset(u8, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Body {
    Kv(Kv),
    Msgs(Vec<Msg>),
    Acts(Vec<Act>),
    Raw(#[serde(with = "hex")] Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RFrame {
    pub ty: u8,
    pub flags: u32,
    pub sid: u64,
    pub fid: u64,
    pub body: Body,
}

impl RFrame {
    pub fn control(ty: u8, kv: Kv) -> RFrame {
        RFrame { ty, flags: FIN, sid: 0, fid: 0, body: Body::Kv(kv) }
    }
    pub fn notify(fin: bool, sid: u64, fid: u64, msgs: Vec<Msg>) -> RFrame {
        RFrame { ty: NOTIFY, flags: if fin { FIN } else { 0 }, sid, fid, body: Body::Msgs(msgs) }
    }
    pub fn ack(sid: u64, fid: u64, acts: Vec<Act>) -> RFrame {
        RFrame { ty: ACK, flags: FIN, sid, fid, body: Body::Acts(acts) }
    }
    pub fn kv(&self) -> &[(String, Val)] {
        match &self.body {
            Body::Kv(kv) => kv,
            _ => &[],
        }
    }
    pub fn get(&self, key: &str) -> Option<&Val> {
        self.kv().iter().find(|(k, _)| k == key).map(|(_, v)| v)
    }
}

// ---------------------------------------------------------------- encoding

pub fn put_varint(out: &mut Vec<u8>, n: u64) {
    if n < 240 {
        out.push(n as u8);
        return;
    }
    // first byte: 4 low bits under 1111; then groups of 7 bits, offset so that encodings are unique
    let mut rest = n - 240;
    out.push(0xf0 + (rest % 16) as u8);
    rest /= 16;
    while rest >= 128 {
        rest -= 128;
        out.push(0x80 + (rest % 128) as u8);
        rest /= 128;
    }
    out.push(rest as u8);
}

pub fn varint_len(n: u64) -> usize {
    let mut v = vec![];
    put_varint(&mut v, n);
    v.len()
}

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

/// A block of headers as `req.hdrs_bin` has it.
pub fn header_block(headers: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    for (name, value) in headers {
        put_bytes(&mut out, name.as_bytes());
        put_bytes(&mut out, value);
    }
    out.extend([0, 0]);
    out
}

pub fn put_val(out: &mut Vec<u8>, v: &Val) {
    match v {
        Val::Null => out.push(0),
        Val::Bool(b) => out.push(1 | if *b { 0x10 } else { 0 }),
        Val::I32(n) => {
            out.push(2);
            put_varint(out, *n as i64 as u64)
        }
        Val::U32(n) => {
            out.push(3);
            put_varint(out, *n as u64)
        }
        Val::I64(n) => {
            out.push(4);
            put_varint(out, *n as u64)
        }
        Val::U64(n) => {
            out.push(5);
            put_varint(out, *n)
        }
        Val::V4(a) => {
            out.push(6);
            out.extend_from_slice(&a.octets())
        }
        Val::V6(a) => {
            out.push(7);
            out.extend_from_slice(&a.octets())
        }
        Val::Str(s) => {
            out.push(8);
            put_bytes(out, s.as_bytes())
        }
        Val::Bin(b) => {
            out.push(9);
            put_bytes(out, b)
        }
    }
}

fn put_kv(out: &mut Vec<u8>, kv: &[(String, Val)]) {
    for (k, v) in kv {
        put_bytes(out, k.as_bytes());
        put_val(out, v);
    }
}

pub fn put_act(out: &mut Vec<u8>, a: &Act) {
    match a {
        Act::Set(scope, name, val) => {
            out.extend_from_slice(&[1, 3, *scope]);
            put_bytes(out, name.as_bytes());
            put_val(out, val);
        }
        Act::Unset(scope, name) => {
            out.extend_from_slice(&[2, 2, *scope]);
            put_bytes(out, name.as_bytes());
        }
    }
}

/// The frame without its length prefix.
pub fn encode(f: &RFrame) -> Vec<u8> {
    let mut out = vec![f.ty];
    out.extend_from_slice(&f.flags.to_be_bytes());
    put_varint(&mut out, f.sid);
    put_varint(&mut out, f.fid);
    match &f.body {
        Body::Kv(kv) => put_kv(&mut out, kv),
        Body::Msgs(ms) => {
            for m in ms {
                put_bytes(&mut out, m.name.as_bytes());
                out.push(m.args.len() as u8);
                put_kv(&mut out, &m.args);
            }
        }
        Body::Acts(acts) => {
            for a in acts {
                put_act(&mut out, a);
            }
        }
        Body::Raw(b) => out.extend_from_slice(b),
    }
    out
}

/// The frame with its length prefix, as on the wire.
pub fn wire(f: &RFrame) -> Vec<u8> {
    prefixed(&encode(f))
}
pub fn prefixed(body: &[u8]) -> Vec<u8> {
    let mut out = (body.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(body);
    out
}

// ---------------------------------------------------------------- decoding

/// Why bytes are not (certainly) a frame.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// Certainly not well-formed: has to be rejected.
    Malformed(&'static str),
    /// The protocol description leaves it open: rejecting and accepting are both fine.
    Gray(&'static str),
}
use Bad::*;
type R<T> = Result<T, Bad>;

struct Cur<'a> {
    b: &'a [u8],
    /// Something was left open, but decoding can go on.
    gray: Option<&'static str>,
}

impl<'a> Cur<'a> {
    fn u8(&mut self) -> R<u8> {
        let (&x, rest) = self.b.split_first().ok_or(Malformed("truncated byte"))?;
        self.b = rest;
        Ok(x)
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if (self.b.len() as u64) < n {
            return Err(Malformed("truncated data"));
        }
        let (x, rest) = self.b.split_at(n as usize);
        self.b = rest;
        Ok(x)
    }
    fn varint(&mut self) -> R<u64> {
        let first = self.u8().map_err(|_| Malformed("truncated varint"))?;
        if first < 240 {
            return Ok(first as u64);
        }
        let mut n = first as u128;
        let mut shift = 4;
        loop {
            let b = self.u8().map_err(|_| Malformed("truncated varint"))?;
            n += (b as u128) << shift;
            shift += 7;
            if n > u64::MAX as u128 || (shift > 74) {
                return Err(Malformed("varint overflow"));
            }
            if b < 128 {
                return Ok(n as u64);
            }
        }
    }
    fn str(&mut self) -> R<String> {
        let n = self.varint()?;
        let b = self.take(n)?;
        match std::str::from_utf8(b) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => Err(Malformed("string is not UTF-8")),
        }
    }
    fn val(&mut self) -> R<Val> {
        let t = self.u8()?;
        let flags = t & 0xf0;
        if t & 0x0f != 1 && flags != 0 || flags & !0x10 != 0 {
            self.gray = Some("reserved flag bits on typed data");
        }
        Ok(match t & 0x0f {
            0 => Val::Null,
            1 => Val::Bool(flags & 0x10 != 0),
            2 => {
                let n = self.varint()?;
                if n as i64 != n as i32 as i64 {
                    self.gray = Some("int32 out of range");
                }
                Val::I32(n as i32)
            }
            3 => {
                let n = self.varint()?;
                if n > u32::MAX as u64 {
                    self.gray = Some("uint32 out of range");
                }
                Val::U32(n as u32)
            }
            4 => Val::I64(self.varint()? as i64),
            5 => Val::U64(self.varint()?),
            6 => Val::V4(<[u8; 4]>::try_from(self.take(4)?).unwrap().into()),
            7 => Val::V6(<[u8; 16]>::try_from(self.take(16)?).unwrap().into()),
            8 => Val::Str(self.str()?),
            9 => {
                let n = self.varint()?;
                Val::Bin(self.take(n)?.to_vec())
            }
            _ => return Err(Malformed("reserved data type")),
        })
    }
    fn kv(&mut self) -> R<Kv> {
        let mut kv: Kv = vec![];
        while !self.b.is_empty() {
            let k = self.str()?;
            let v = self.val()?;
            if kv.iter().any(|(x, _)| *x == k) {
                self.gray = Some("duplicate key");
            }
            kv.push((k, v));
        }
        Ok(kv)
    }
    fn msg(&mut self) -> R<Msg> {
        let name = self.str()?;
        let nb = self.u8()?;
        let mut args = vec![];
        for _ in 0..nb {
            let k = self.str()?;
            args.push((k, self.val()?));
        }
        Ok(Msg { name, args })
    }
    fn act(&mut self) -> R<Act> {
        let (t, nb) = (self.u8()?, self.u8()?);
        let scope = |c: &mut Self| -> R<u8> {
            match c.u8()? {
                s if s <= 4 => Ok(s),
                _ => Err(Malformed("unknown scope")),
            }
        };
        match (t, nb) {
            (1, 3) => {
                let s = scope(self)?;
                let name = self.str()?;
                Ok(Act::Set(s, name, self.val()?))
            }
            (2, 2) => {
                let s = scope(self)?;
                Ok(Act::Unset(s, self.str()?))
            }
            _ => Err(Malformed("unknown action or argument count")),
        }
    }
}

/// The headers of a block; None unless it is as it should be.
pub fn headers(block: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let mut c = Cur { b: block, gray: None };
    let mut all = vec![];
    loop {
        let n = c.varint().ok()?;
        let name = c.take(n).ok()?;
        let n = c.varint().ok()?;
        let value = c.take(n).ok()?;
        if name.is_empty() {
            return (value.is_empty() && c.b.is_empty()).then_some(all);
        }
        let token = |b: &u8| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(b);
        let text = |b: &u8| *b == b'\t' || (*b >= 32 && *b != 127);
        if !name.iter().all(token) || !value.iter().all(text) {
            return None;
        }
        all.push((std::str::from_utf8(name).ok()?.to_ascii_lowercase(), value.to_vec()));
    }
}

/// Decodes a frame without its length prefix.
pub fn decode(b: &[u8]) -> R<RFrame> {
    let mut c = Cur { b, gray: None };
    let ty = c.u8()?;
    let flags = u32::from_be_bytes(c.take(4)?.try_into().unwrap());
    let sid = c.varint()?;
    let fid = c.varint()?;
    match ty {
        HA_HELLO | HA_DISCON | AG_HELLO | AG_DISCON => {
            if sid != 0 || fid != 0 {
                return Err(Malformed("control frame with non-zero ids"));
            }
            if flags != FIN {
                c.gray = Some("control frame flags");
            }
        }
        NOTIFY | ACK => {
            if fid == 0 {
                return Err(Malformed("frame-id is zero"));
            }
            if flags & !(FIN | ABORT) != 0 {
                c.gray = Some("unknown flags");
            }
            if ty == NOTIFY && flags & ABORT != 0 {
                c.gray = Some("aborted NOTIFY");
            }
        }
        0 => return Err(Gray("UNSET frame")),
        _ => return Err(Gray("unknown frame type")),
    }
    let body = match ty {
        NOTIFY => {
            let mut ms = vec![];
            while !c.b.is_empty() {
                ms.push(c.msg()?);
            }
            Body::Msgs(ms)
        }
        ACK => {
            let mut acts = vec![];
            while !c.b.is_empty() {
                acts.push(c.act()?);
            }
            Body::Acts(acts)
        }
        _ => Body::Kv(c.kv()?),
    };
    if let Some(g) = c.gray {
        return Err(Gray(g));
    }
    Ok(RFrame { ty, flags, sid, fid, body })
}

// ---------------------------------------------------------------- HELLO contents

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HelloItems {
    pub versions: Vec<(u8, u8)>,
    pub mfs: u32,
    pub caps: Vec<String>,
    pub healthcheck: bool,
}

/// What is wrong with a HELLO: the status codes that say so, or left open.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum HelloBad {
    Status(Vec<u32>, &'static str),
    Gray(&'static str),
}

pub fn parse_version(s: &str) -> Option<(u8, u8)> {
    let (a, b) = s.trim_matches(' ').split_once('.')?;
    let ok = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0'));
    if !ok(a) || !ok(b) {
        return None;
    }
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// Numbers written in an unusual way, which may be understood or not.
fn sloppy_version(s: &str) -> bool {
    s.split_once('.').is_some_and(|(a, b)| a.trim().parse::<u8>().is_ok() && b.trim().parse::<u8>().is_ok())
}

const CAPS: [&str; 3] = ["fragmentation", "pipelining", "async"];

/// The capabilities in a list of known ones.
pub fn caps_of(s: &str) -> Option<Vec<String>> {
    let known = s.trim_matches(' ').is_empty() || s.split(',').all(|c| CAPS.contains(&c.trim_matches(' ')));
    known.then(|| offered_caps(s)).flatten()
}

/// The known capabilities in what a peer offers.
pub fn offered_caps(s: &str) -> Option<Vec<String>> {
    let mut v: Vec<String> = vec![];
    for c in s.split(',').map(|c| c.trim_matches(' ')) {
        match c {
            "" if s.trim_matches(' ').is_empty() => {}
            _ if CAPS.contains(&c) => {
                if !v.iter().any(|x| x == c) {
                    v.push(c.to_string())
                }
            }
            _ if c.trim() != c || c.is_empty() => return None,
            _ if CAPS.iter().any(|k| k.eq_ignore_ascii_case(c)) => return None,
            // unknown ones are ignored
            _ => {}
        }
    }
    v.sort();
    Some(v)
}

fn uint(v: &Val) -> Option<u32> {
    match v {
        Val::U32(n) => Some(*n),
        Val::U64(n) => u32::try_from(*n).ok(),
        Val::I32(n) => u32::try_from(*n).ok(),
        Val::I64(n) => u32::try_from(*n).ok(),
        _ => None,
    }
}

pub fn ha_hello(f: &RFrame) -> Result<HelloItems, HelloBad> {
    use HelloBad as H;
    let mut problems = vec![];
    let mut versions = vec![];
    match f.get("supported-versions") {
        None => problems.push((vec![5], "no supported-versions")),
        Some(Val::Str(s)) => {
            let v: Vec<_> = s.split(',').map(parse_version).collect();
            if v.iter().all(|v| v.is_some()) {
                versions = v.into_iter().flatten().collect();
            } else if s.split(',').map(|i| i.trim()).all(|i| i.is_empty() || sloppy_version(i)) && s.trim_matches([' ', ',']) != "" {
                return Err(H::Gray("sloppy supported-versions"));
            } else {
                problems.push((vec![4, 5, 8], "unreadable supported-versions"));
            }
        }
        Some(_) => problems.push((vec![4, 5, 8], "supported-versions is not a string")),
    }
    let mut mfs = 0;
    match f.get("max-frame-size") {
        None => problems.push((vec![6], "no max-frame-size")),
        Some(v @ (Val::U32(_) | Val::U64(_) | Val::I32(_) | Val::I64(_))) => match uint(v) {
            Some(n) => mfs = n,
            None => return Err(H::Gray("max-frame-size out of range")),
        },
        Some(_) => problems.push((vec![4, 6, 9], "max-frame-size is not a number")),
    }
    let mut caps = vec![];
    match f.get("capabilities") {
        None => problems.push((vec![7], "no capabilities")),
        Some(Val::Str(s)) => match offered_caps(s) {
            Some(c) => caps = c,
            None => return Err(H::Gray("odd capability")),
        },
        Some(_) => problems.push((vec![4, 7], "capabilities is not a string")),
    }
    let healthcheck = match f.get("healthcheck") {
        None => false,
        Some(Val::Bool(b)) => *b,
        Some(_) => return Err(H::Gray("healthcheck is not a boolean")),
    };
    if !matches!(f.get("engine-id"), None | Some(Val::Str(_))) {
        return Err(H::Gray("engine-id is not a string"));
    }
    if problems.is_empty() {
        Ok(HelloItems { versions, mfs, caps, healthcheck })
    } else {
        // any of the problems may be the one reported
        let codes = problems.iter().flat_map(|(c, _)| c.clone()).collect();
        Err(H::Status(codes, problems[0].1))
    }
}

/// Splits a byte stream into complete frames (body only) with the offset of each one's end,
/// plus what is left over.
pub fn split_stream(b: &[u8]) -> (Vec<(usize, &[u8])>, &[u8]) {
    let (mut out, mut at) = (vec![], 0);
    while b.len() - at >= 4 {
        let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        if b.len() - at - 4 < n {
            break;
        }
        out.push((at + 4 + n, &b[at + 4..at + 4 + n]));
        at += 4 + n;
    }
    (out, &b[at..])
}
