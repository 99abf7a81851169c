//! Between the values of the code under test and the reference's.

use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use bytes::{Bytes, BytesMut};
use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Error, Frame, HaproxyHello, HaproxyNotify, Message, Scope, Typed,
    Version,
};

use crate::spop::*;

/// Values are made in the ways the library offers, one or another depending on the value.
pub fn val_to(v: &Val) -> Typed {
    match v {
        Val::Null => ().into(),
        Val::Bool(b) => (*b).into(),
        Val::I32(n) => (*n).into(),
        Val::U32(n) => (*n).into(),
        Val::I64(n) => (*n).into(),
        Val::U64(n) => (*n).into(),
        Val::V4(a) if a.octets()[3] % 2 == 0 => IpAddr::V4(*a).into(),
        Val::V4(a) => (*a).into(),
        Val::V6(a) if a.octets()[15] % 2 == 0 => IpAddr::V6(*a).into(),
        Val::V6(a) => (*a).into(),
        Val::Str(s) if s.len() % 2 == 0 => s.as_str().into(),
        Val::Str(s) => s.clone().into(),
        Val::Bin(b) => match b.len() % 5 {
            0 => b.as_slice().into(),
            1 => b.clone().into(),
            2 => b.clone().into_boxed_slice().into(),
            3 => BytesMut::from(b.as_slice()).into(),
            _ => Bytes::from(b.clone()).into(),
        },
    }
}
/// Values are taken apart by matching, and converted.
pub fn val_from(v: &Typed) -> Val {
    let matched = match v {
        Typed::Null => Val::Null,
        Typed::Boolean(b) => Val::Bool(*b),
        Typed::Int32(n) => Val::I32(*n),
        Typed::Uint32(n) => Val::U32(*n),
        Typed::Int64(n) => Val::I64(*n),
        Typed::Uint64(n) => Val::U64(*n),
        Typed::Ipv4(a) => Val::V4(*a),
        Typed::Ipv6(a) => Val::V6(*a),
        Typed::String(s) => Val::Str(s.clone()),
        Typed::Binary(b) => Val::Bin(b.to_vec()),
    };
    if matches!(&matched, Val::Str(s) if s.len() > 1000) || matches!(&matched, Val::Bin(b) if b.len() > 1000) {
        return matched;
    }
    let v = || v.clone();
    let converted = match &matched {
        Val::Null => Some(Val::Null),
        Val::Bool(_) => bool::try_from(v()).ok().map(Val::Bool),
        Val::I32(_) => i32::try_from(v()).ok().map(Val::I32),
        Val::U32(_) => u32::try_from(v()).ok().map(Val::U32),
        Val::I64(_) => i64::try_from(v()).ok().map(Val::I64),
        Val::U64(_) => u64::try_from(v()).ok().map(Val::U64),
        Val::V4(_) => Ipv4Addr::try_from(v()).ok().map(Val::V4),
        Val::V6(_) => Ipv6Addr::try_from(v()).ok().map(Val::V6),
        Val::Str(_) => String::try_from(v()).ok().map(Val::Str),
        Val::Bin(_) => Bytes::try_from(v()).ok().map(|b| Val::Bin(b.to_vec())),
    };
    if converted.as_ref() == Some(&matched) {
        matched
    } else {
        converted.unwrap_or(Val::Str(format!("({matched:?} can not be converted)")))
    }
}
pub fn msg_to(m: &Msg) -> Message {
    let mut args = m.args.iter().map(|(k, v)| (k.clone(), val_to(v)));
    match (m.name.len() + m.args.len()) % 4 {
        0 => Message { name: m.name.clone(), args: args.collect() },
        1 => Message::new(m.name.clone(), args),
        2 => args.fold(Message::builder(m.name.as_str()), |b, (k, v)| b.arg(k, v)).build(),
        _ => {
            let b = Message::builder(m.name.clone());
            match args.next() {
                Some((k, v)) => b.arg(k.as_str(), v).args(args).build(),
                None => b.build(),
            }
        }
    }
}
pub fn msg_from(m: &Message) -> Msg {
    Msg { name: m.name.clone(), args: m.args.iter().map(|(k, v)| (k.clone(), val_from(v))).collect() }
}
pub fn scope_to(s: u8) -> Scope {
    match s {
        0 => Scope::Process,
        1 => Scope::Session,
        2 => Scope::Transaction,
        3 => Scope::Request,
        _ => Scope::Response,
    }
}
pub fn act_to(a: &Act) -> Action {
    match a {
        Act::Set(s, n, v) if n.len() % 2 == 0 => Action::set_var(scope_to(*s), n.as_str(), val_to(v)),
        Act::Unset(s, n) if n.len() % 2 == 0 => Action::unset_var(scope_to(*s), n.as_str()),
        Act::Set(s, n, v) => Action::SetVar { scope: scope_to(*s), name: n.clone(), value: val_to(v) },
        Act::Unset(s, n) => Action::UnsetVar { scope: scope_to(*s), name: n.clone() },
    }
}
pub fn act_from(a: &Action) -> Act {
    let code = |s: &Scope| match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    };
    match a {
        Action::SetVar { scope, name, value } => Act::Set(code(scope), name.clone(), val_from(value)),
        Action::UnsetVar { scope, name } => Act::Unset(code(scope), name.clone()),
    }
}

fn cap_to(c: &str) -> Option<Capability> {
    Some(match c {
        "fragmentation" => Capability::Fragmentation,
        "pipelining" => Capability::Pipelining,
        "async" => Capability::Async,
        _ => return None,
    })
}
pub fn caps_to(v: &[String]) -> Vec<Capability> {
    v.iter().filter_map(|c| cap_to(c)).collect()
}
pub fn cap_name(c: &Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}

fn versions_text(v: &[Version]) -> String {
    v.iter().map(|v| format!("{}.{}", v.major, v.minor)).collect::<Vec<_>>().join(",")
}
fn caps_text(v: &[Capability]) -> String {
    v.iter().map(cap_name).collect::<Vec<_>>().join(",")
}

/// The reference's view of a frame the library decoded. Canonical: what the frame's own encoding
/// has to be.
pub fn frame_from(f: &Frame) -> RFrame {
    let disc = |ty, d: &Disconnect| {
        RFrame::control(
            ty,
            vec![
                ("status-code".into(), Val::U32(d.status_code)),
                ("message".into(), Val::Str(d.message.clone())),
            ],
        )
    };
    let flags = |frag: bool, abort: bool| if frag { 0 } else { FIN } | if abort { ABORT } else { 0 };
    match f {
        Frame::Unset => RFrame { ty: 0, flags: FIN, sid: 0, fid: 0, body: Body::Raw(vec![]) },
        Frame::HaproxyHello(h) => {
            let mut kv = vec![
                ("supported-versions".into(), Val::Str(versions_text(&h.supported_versions))),
                ("max-frame-size".into(), Val::U32(h.max_frame_size)),
                ("capabilities".into(), Val::Str(caps_text(&h.capabilities))),
            ];
            if let Some(b) = h.healthcheck {
                kv.push(("healthcheck".into(), Val::Bool(b)));
            }
            if let Some(id) = &h.engine_id {
                kv.push(("engine-id".into(), Val::Str(id.clone())));
            }
            RFrame::control(HA_HELLO, kv)
        }
        Frame::AgentHello(h) => RFrame::control(
            AG_HELLO,
            vec![
                ("version".into(), Val::Str(versions_text(&[h.version]))),
                ("max-frame-size".into(), Val::U32(h.max_frame_size)),
                ("capabilities".into(), Val::Str(caps_text(&h.capabilities))),
            ],
        ),
        Frame::HaproxyDisconnect(d) => disc(HA_DISCON, d),
        Frame::AgentDisconnect(d) => disc(AG_DISCON, d),
        Frame::HaproxyNotify(n) => RFrame {
            ty: NOTIFY,
            flags: flags(n.fragmented, false),
            sid: n.stream_id,
            fid: n.frame_id,
            body: Body::Msgs(n.messages.iter().map(msg_from).collect()),
        },
        Frame::AgentAck(a) => RFrame {
            ty: ACK,
            flags: flags(a.fragmented, a.aborted),
            sid: a.stream_id,
            fid: a.frame_id,
            body: Body::Acts(a.actions.iter().map(act_from).collect()),
        },
    }
}

/// A library value for a reference frame (one that the library can represent).
pub fn frame_to(f: &RFrame) -> Option<Frame> {
    let text = |k: &str| match f.get(k) {
        Some(Val::Str(s)) => Some(s.clone()),
        _ => None,
    };
    let num = |k: &str| match f.get(k) {
        Some(Val::U32(n)) => Some(*n),
        _ => None,
    };
    let versions = |s: String| -> Option<Vec<Version>> {
        s.split(',').map(|v| parse_version(v).map(|(a, b)| Version::new(a, b))).collect()
    };
    let caps = |s: String| -> Vec<Capability> { s.split(',').filter_map(cap_to).collect() };
    let disc = || Some(Disconnect { status_code: num("status-code")?, message: text("message")? });
    // one that has a constructor of its own
    let made = f.sid % 2 == 0;
    let status = num("status-code").and_then(|n| Error::try_from(n).ok());
    Some(match (&f.body, f.ty) {
        (_, HA_DISCON) if status.is_some_and(|s| s as u32 % 2 == 0) => Frame::haproxy_disconnect(status?, text("message")?),
        (_, AG_DISCON) if status.is_some_and(|s| s as u32 % 2 == 0) => Frame::agent_disconnect(status?, text("message")?),
        (Body::Msgs(ms), NOTIFY) if made && f.flags == FIN => Frame::notify(f.sid, f.fid, ms.iter().map(msg_to)),
        (Body::Acts(acts), ACK) if made && f.flags == FIN => Frame::ack(f.sid, f.fid, acts.iter().map(act_to)),
        (_, HA_HELLO) => Frame::HaproxyHello(HaproxyHello {
            supported_versions: versions(text("supported-versions")?)?,
            max_frame_size: num("max-frame-size")?,
            capabilities: caps(text("capabilities")?),
            healthcheck: match f.get("healthcheck") {
                Some(Val::Bool(b)) => Some(*b),
                _ => None,
            },
            engine_id: text("engine-id"),
        }),
        (_, AG_HELLO) => Frame::AgentHello(AgentHello {
            version: *versions(text("version")?)?.first()?,
            max_frame_size: num("max-frame-size")?,
            capabilities: caps(text("capabilities")?),
        }),
        (_, HA_DISCON) => Frame::HaproxyDisconnect(disc()?),
        (_, AG_DISCON) => Frame::AgentDisconnect(disc()?),
        (Body::Msgs(ms), NOTIFY) => Frame::HaproxyNotify(HaproxyNotify {
            fragmented: f.flags & FIN == 0,
            stream_id: f.sid,
            frame_id: f.fid,
            messages: ms.iter().map(msg_to).collect(),
        }),
        (Body::Acts(acts), ACK) => Frame::AgentAck(AgentAck {
            fragmented: f.flags & FIN == 0,
            aborted: f.flags & ABORT != 0,
            stream_id: f.sid,
            frame_id: f.fid,
            actions: acts.iter().map(act_to).collect(),
        }),
        _ => return None,
    })
}
