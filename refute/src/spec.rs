//! Reference semantics of the wire format, written from the protocol
//! description, independent of the code under test.

use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn enc_varint(mut n: u64, out: &mut Vec<u8>) {
    if n < 240 {
        out.push(n as u8);
        return;
    }
    // first byte: 1111 in the high bits, the 4 low bits of n
    out.push(0xf0 + (n % 16) as u8);
    n = (n - 240) / 16;
    while n >= 128 {
        out.push(0x80 + (n % 128) as u8);
        n = (n - 128) / 128;
    }
    out.push(n as u8);
}

pub fn varint(n: u64) -> Vec<u8> {
    let mut v = vec![];
    enc_varint(n, &mut v);
    v
}

/// `None`: truncated or too big.
pub fn dec_varint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()? as u128;
    if first < 240 {
        return Some((first as u64, 1));
    }
    let mut n: u128 = first;
    let mut mul: u128 = 16;
    for (i, &x) in b[1..].iter().enumerate() {
        n = n.checked_add((x as u128).checked_mul(mul)?)?;
        if n > u64::MAX as u128 {
            return None;
        }
        if x < 128 {
            return Some((n as u64, i + 2));
        }
        mul = mul.checked_mul(128)?;
    }
    None
}

pub fn enc_bytes(b: &[u8], out: &mut Vec<u8>) {
    enc_varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

pub fn enc_typed(v: &Typed, out: &mut Vec<u8>) {
    match v {
        Typed::Null => out.push(0),
        Typed::Boolean(b) => out.push(if *b { 0x11 } else { 0x01 }),
        Typed::Int32(n) => {
            out.push(2);
            enc_varint(*n as i64 as u64, out)
        }
        Typed::Uint32(n) => {
            out.push(3);
            enc_varint(*n as u64, out)
        }
        Typed::Int64(n) => {
            out.push(4);
            enc_varint(*n as u64, out)
        }
        Typed::Uint64(n) => {
            out.push(5);
            enc_varint(*n, out)
        }
        Typed::Ipv4(a) => {
            out.push(6);
            out.extend_from_slice(&a.octets())
        }
        Typed::Ipv6(a) => {
            out.push(7);
            out.extend_from_slice(&a.octets())
        }
        Typed::String(s) => {
            out.push(8);
            enc_bytes(s.as_bytes(), out)
        }
        Typed::Binary(b) => {
            out.push(9);
            enc_bytes(b, out)
        }
    }
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, pos: 0 }
    }
    pub fn rest(&self) -> &'a [u8] {
        &self.b[self.pos..]
    }
    pub fn end(&self) -> bool {
        self.pos == self.b.len()
    }
    pub fn u8(&mut self) -> Option<u8> {
        let x = *self.b.get(self.pos)?;
        self.pos += 1;
        Some(x)
    }
    pub fn varint(&mut self) -> Option<u64> {
        let (n, sz) = dec_varint(self.rest())?;
        self.pos += sz;
        Some(n)
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if (self.rest().len() as u64) < n {
            return None;
        }
        let r = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Some(r)
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.varint()?;
        self.take(n)
    }
    pub fn string(&mut self) -> Option<String> {
        String::from_utf8(self.bytes()?.to_vec()).ok()
    }
    pub fn typed(&mut self) -> Option<Typed> {
        let t = self.u8()?;
        Some(match t % 16 {
            0 => Typed::Null,
            1 => Typed::Boolean((t / 16) % 2 == 1),
            2 => Typed::Int32(self.varint()? as u32 as i32),
            3 => Typed::Uint32(self.varint()? as u32),
            4 => Typed::Int64(self.varint()? as i64),
            5 => Typed::Uint64(self.varint()?),
            6 => {
                let b: [u8; 4] = self.take(4)?.try_into().unwrap();
                Typed::Ipv4(Ipv4Addr::new(b[0], b[1], b[2], b[3]))
            }
            7 => {
                let b: [u8; 16] = self.take(16)?.try_into().unwrap();
                Typed::Ipv6(Ipv6Addr::from(u128::from_be_bytes(b)))
            }
            8 => Typed::String(self.string()?),
            9 => Typed::Binary(bytes::Bytes::copy_from_slice(self.bytes()?)),
            _ => return None,
        })
    }
    pub fn kv(&mut self) -> Option<(String, Typed)> {
        let k = self.string()?;
        Some((k, self.typed()?))
    }
    pub fn kvs(&mut self) -> Option<Vec<(String, Typed)>> {
        let mut v = vec![];
        while !self.end() {
            v.push(self.kv()?);
        }
        Some(v)
    }
    pub fn message(&mut self) -> Option<Message> {
        let name = self.string()?;
        let n = self.u8()?;
        let mut args = vec![];
        for _ in 0..n {
            args.push(self.kv()?);
        }
        Some(Message { name, args })
    }
    pub fn action(&mut self) -> Option<Action> {
        let t = self.u8()?;
        let n = self.u8()?;
        let scope = |s: u8| {
            Some(match s {
                0 => Scope::Process,
                1 => Scope::Session,
                2 => Scope::Transaction,
                3 => Scope::Request,
                4 => Scope::Response,
                _ => return None,
            })
        };
        match (t, n) {
            (1, 3) => {
                let scope = scope(self.u8()?)?;
                let name = self.string()?;
                let value = self.typed()?;
                Some(Action::SetVar { scope, name, value })
            }
            (2, 2) => {
                let scope = scope(self.u8()?)?;
                let name = self.string()?;
                Some(Action::UnsetVar { scope, name })
            }
            _ => None,
        }
    }
}

pub fn scope_id(s: Scope) -> u8 {
    match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    }
}

pub fn enc_action(a: &Action, out: &mut Vec<u8>) {
    match a {
        Action::SetVar { scope, name, value } => {
            out.extend([1, 3, scope_id(*scope)]);
            enc_bytes(name.as_bytes(), out);
            enc_typed(value, out);
        }
        Action::UnsetVar { scope, name } => {
            out.extend([2, 2, scope_id(*scope)]);
            enc_bytes(name.as_bytes(), out);
        }
    }
}

pub fn enc_kv(k: &str, v: &Typed, out: &mut Vec<u8>) {
    enc_bytes(k.as_bytes(), out);
    enc_typed(v, out);
}

pub fn enc_message(m: &Message, out: &mut Vec<u8>) {
    enc_bytes(m.name.as_bytes(), out);
    out.push(m.args.len() as u8);
    for (k, v) in &m.args {
        enc_kv(k, v, out);
    }
}

pub fn enc_header(ty: u8, flags: u32, sid: u64, fid: u64, out: &mut Vec<u8>) {
    out.push(ty);
    out.extend(flags.to_be_bytes());
    enc_varint(sid, out);
    enc_varint(fid, out);
}

pub fn cap_name(c: Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}

pub fn caps_str(c: &[Capability]) -> String {
    c.iter().map(|c| cap_name(*c)).collect::<Vec<_>>().join(",")
}

pub fn versions_str(v: &[Version]) -> String {
    v.iter()
        .map(|v| format!("{}.{}", v.major, v.minor))
        .collect::<Vec<_>>()
        .join(",")
}

pub fn enc_frame(f: &Frame) -> Vec<u8> {
    let mut o = vec![];
    match f {
        Frame::Unset => enc_header(0, 1, 0, 0, &mut o),
        Frame::HaproxyHello(h) => {
            enc_header(1, 1, 0, 0, &mut o);
            enc_kv(
                "supported-versions",
                &Typed::String(versions_str(&h.supported_versions)),
                &mut o,
            );
            enc_kv("max-frame-size", &Typed::Uint32(h.max_frame_size), &mut o);
            enc_kv(
                "capabilities",
                &Typed::String(caps_str(&h.capabilities)),
                &mut o,
            );
            if let Some(b) = h.healthcheck {
                enc_kv("healthcheck", &Typed::Boolean(b), &mut o);
            }
            if let Some(id) = &h.engine_id {
                enc_kv("engine-id", &Typed::String(id.clone()), &mut o);
            }
        }
        Frame::AgentHello(h) => {
            enc_header(101, 1, 0, 0, &mut o);
            enc_kv(
                "version",
                &Typed::String(versions_str(&[h.version])),
                &mut o,
            );
            enc_kv("max-frame-size", &Typed::Uint32(h.max_frame_size), &mut o);
            enc_kv(
                "capabilities",
                &Typed::String(caps_str(&h.capabilities)),
                &mut o,
            );
        }
        Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) => {
            let ty = if matches!(f, Frame::HaproxyDisconnect(_)) {
                2
            } else {
                102
            };
            enc_header(ty, 1, 0, 0, &mut o);
            enc_kv("status-code", &Typed::Uint32(d.status_code), &mut o);
            enc_kv("message", &Typed::String(d.message.clone()), &mut o);
        }
        Frame::HaproxyNotify(n) => {
            enc_header(
                3,
                if n.fragmented { 0 } else { 1 },
                n.stream_id,
                n.frame_id,
                &mut o,
            );
            for m in &n.messages {
                enc_message(m, &mut o);
            }
        }
        Frame::AgentAck(a) => {
            let flags = (!a.fragmented) as u32 + 2 * a.aborted as u32;
            enc_header(103, flags, a.stream_id, a.frame_id, &mut o);
            for act in &a.actions {
                enc_action(act, &mut o);
            }
        }
    }
    o
}

/// Numeric codes of the statuses a decoder reports.
pub const INVALID: u32 = 4;
pub const NO_VERSION: u32 = 5;
pub const NO_FRAME_SIZE: u32 = 6;
pub const NO_CAPS: u32 = 7;
pub const BAD_VERSION: u32 = 8;
pub const BAD_FRAME_SIZE: u32 = 9;

fn get<'a>(kvs: &'a [(String, Typed)], key: &str) -> Option<&'a Typed> {
    // the last one wins
    kvs.iter().rev().find(|(k, _)| k == key).map(|(_, v)| v)
}

fn get_str<'a>(kvs: &'a [(String, Typed)], key: &str) -> Option<&'a str> {
    match get(kvs, key)? {
        Typed::String(s) => Some(s),
        _ => None,
    }
}

fn get_uint(kvs: &[(String, Typed)], key: &str) -> Option<u64> {
    match get(kvs, key)? {
        Typed::Int32(n) => Some(*n as i64 as u64),
        Typed::Uint32(n) => Some(*n as u64),
        Typed::Int64(n) => Some(*n as u64),
        Typed::Uint64(n) => Some(*n),
        _ => None,
    }
}

pub fn parse_version(s: &str) -> Option<Version> {
    let (a, b) = s.split_once('.')?;
    Some(Version {
        major: a.parse().ok()?,
        minor: b.parse().ok()?,
    })
}

fn parse_cap(s: &str) -> Option<Capability> {
    Some(match s {
        "fragmentation" => Capability::Fragmentation,
        "pipelining" => Capability::Pipelining,
        "async" => Capability::Async,
        _ => return None,
    })
}

fn caps(kvs: &[(String, Typed)]) -> Result<Vec<Capability>, u32> {
    get_str(kvs, "capabilities")
        .ok_or(NO_CAPS)?
        .split(',')
        .map(|s| s.trim())
        .filter(|s| !s.is_empty())
        .map(|s| parse_cap(s).ok_or(INVALID))
        .collect()
}

fn frame_size(kvs: &[(String, Typed)]) -> Result<u32, u32> {
    let n = get_uint(kvs, "max-frame-size").ok_or(NO_FRAME_SIZE)?;
    u32::try_from(n).map_err(|_| BAD_FRAME_SIZE)
}

/// The errors allowed: several entries can be wrong at once, and which of
/// them is reported is not fixed.
pub type Errs = Vec<u32>;

pub fn haproxy_hello(kvs: &[(String, Typed)]) -> Result<HaproxyHello, Errs> {
    let mut errs = vec![];
    let versions: Result<Vec<Version>, u32> = match get_str(kvs, "supported-versions") {
        None => Err(NO_VERSION),
        Some(s) => s
            .split(',')
            .map(|s| parse_version(s.trim()).ok_or(INVALID))
            .collect(),
    };
    let (v, m, c) = (versions, frame_size(kvs), caps(kvs));
    for e in [v.clone().err(), m.err(), c.clone().err()] {
        errs.extend(e);
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    Ok(HaproxyHello {
        supported_versions: v.unwrap(),
        max_frame_size: m.unwrap(),
        capabilities: c.unwrap(),
        healthcheck: match get(kvs, "healthcheck") {
            Some(Typed::Boolean(b)) => Some(*b),
            _ => None,
        },
        engine_id: get_str(kvs, "engine-id").map(|s| s.to_string()),
    })
}

pub fn agent_hello(kvs: &[(String, Typed)]) -> Result<AgentHello, Errs> {
    let mut errs = vec![];
    let v = match get_str(kvs, "version") {
        None => Err(NO_VERSION),
        Some(s) => parse_version(s).ok_or(BAD_VERSION),
    };
    let (m, c) = (frame_size(kvs), caps(kvs));
    for e in [v.err(), m.err(), c.clone().err()] {
        errs.extend(e);
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    Ok(AgentHello {
        version: v.unwrap(),
        max_frame_size: m.unwrap(),
        capabilities: c.unwrap(),
    })
}

pub struct Header {
    pub ty: u8,
    pub flags: u32,
    pub sid: u64,
    pub fid: u64,
}

pub fn dec_header(r: &mut R) -> Option<Header> {
    let ty = r.u8()?;
    let f: [u8; 4] = r.take(4)?.try_into().unwrap();
    Some(Header {
        ty,
        flags: u32::from_be_bytes(f),
        sid: r.varint()?,
        fid: r.varint()?,
    })
}

pub fn dec_frame(b: &[u8]) -> Result<Frame, Errs> {
    let inv = || vec![INVALID];
    let mut r = R::new(b);
    let h = dec_header(&mut r).ok_or_else(inv)?;
    let zero = h.sid == 0 && h.fid == 0;
    let r = &mut r;
    match h.ty {
        1 if zero => Ok(Frame::HaproxyHello(haproxy_hello(
            &r.kvs().ok_or_else(inv)?,
        )?)),
        101 if zero => Ok(Frame::AgentHello(agent_hello(
            &r.kvs().ok_or_else(inv)?,
        )?)),
        2 | 102 if zero => {
            let kvs = r.kvs().ok_or_else(inv)?;
            let d = Disconnect {
                status_code: get_uint(&kvs, "status-code").unwrap_or(0) as u32,
                message: get_str(&kvs, "message").unwrap_or("").to_string(),
            };
            Ok(if h.ty == 2 {
                Frame::HaproxyDisconnect(d)
            } else {
                Frame::AgentDisconnect(d)
            })
        }
        3 if h.fid != 0 => {
            let mut messages = vec![];
            while !r.end() {
                messages.push(r.message().ok_or_else(inv)?);
            }
            Ok(Frame::HaproxyNotify(HaproxyNotify {
                fragmented: h.flags & 1 == 0,
                stream_id: h.sid,
                frame_id: h.fid,
                messages,
            }))
        }
        103 if h.fid != 0 => {
            let mut actions = vec![];
            while !r.end() {
                actions.push(r.action().ok_or_else(inv)?);
            }
            Ok(Frame::AgentAck(AgentAck {
                fragmented: h.flags & 1 == 0,
                aborted: h.flags & 2 != 0,
                stream_id: h.sid,
                frame_id: h.fid,
                actions,
            }))
        }
        _ => Err(inv()),
    }
}

/// Length-prefixed, as on a stream.
pub fn on_stream(payload: &[u8]) -> Vec<u8> {
    let mut v = (payload.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(payload);
    v
}

impl R<'_> {
    /// Length of the typed value at the front.
    #[allow(dead_code)]
    pub fn typed_len(&self) -> Option<usize> {
        let mut r = R::new(self.rest());
        r.typed()?;
        Some(r.pos)
    }
}
