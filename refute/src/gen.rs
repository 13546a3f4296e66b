//! Deterministic generator of structured inputs.

use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};
use std::net::{Ipv4Addr, Ipv6Addr};

/// Literals found in the sources, so that a value the code treats specially is tried.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}

pub struct G<'a> {
    s: u64,
    pub dict: &'a Dict,
    pub thorough: bool,
    pub key: u64,
    pub want_desc: bool,
    pub desc: String,
    pub trivial: bool,
}

pub const CAPS: [Capability; 3] = [
    Capability::Fragmentation,
    Capability::Pipelining,
    Capability::Async,
];
pub const SCOPES: [Scope; 5] = [
    Scope::Process,
    Scope::Session,
    Scope::Transaction,
    Scope::Request,
    Scope::Response,
];

/// The smallest value of each varint size.
pub const SIZE_STARTS: [u64; 10] = [
    0,
    0xf0,
    0x8f0,
    0x408f0,
    0x20408f0,
    0x1020408f0,
    0x81020408f0,
    0x4081020408f0,
    0x204081020408f0,
    0x10204081020408f0,
];

impl<'a> G<'a> {
    pub fn new(seed: u64, dict: &'a Dict, thorough: bool) -> Self {
        G {
            s: seed,
            dict,
            thorough,
            key: 0xcbf29ce484222325,
            want_desc: false,
            desc: String::new(),
            trivial: false,
        }
    }

    /// Identify the case, to count the distinct ones.
    pub fn note(&mut self, b: &[u8]) {
        for x in b {
            self.key = (self.key ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.key = (self.key ^ b.len() as u64).wrapping_mul(0x100000001b3);
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = f();
        }
    }

    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.usize(v.len())].clone()
    }

    pub fn u64(&mut self) -> u64 {
        let near = |g: &mut Self, x: u64| x.wrapping_add(g.below(5)).wrapping_sub(2);
        match self.below(10) {
            0 => {
                let x = self.pick(&SIZE_STARTS);
                near(self, x)
            }
            1 | 2 => {
                let s = self.below(64);
                near(self, 1 << s)
            }
            3 if !self.dict.ints.is_empty() => {
                let d = self.dict;
                let x = d.ints[self.usize(d.ints.len())];
                near(self, x)
            }
            4 => self.below(300),
            5 => self.below(3),
            6 => {
                // a chosen number of random bits
                let s = self.below(64);
                self.next() >> s
            }
            7 => {
                // sparse bits
                (1u64 << self.below(64)) | (1 << self.below(64)) | (1 << self.below(64))
            }
            8 => !(1u64 << self.below(64)),
            _ => self.next(),
        }
    }

    pub fn u32(&mut self) -> u32 {
        if self.chance(6) {
            (u32::MAX as u64 + 3).wrapping_sub(self.below(6)) as u32
        } else if self.chance(2) {
            let s = self.below(32);
            (self.next() >> 32 >> s) as u32
        } else {
            self.u64() as u32
        }
    }

    pub fn i32(&mut self) -> i32 {
        self.u32() as i32
    }

    /// A size for strings, mostly small, sometimes around the varint size steps.
    pub fn size(&mut self) -> usize {
        let big = if self.thorough { 40 } else { 300 };
        if self.chance(big) {
            return 264432 - 3 + self.usize(6);
        }
        match self.below(40) {
            0 => 240 - 3 + self.usize(6),
            1 => 2288 - 3 + self.usize(6),
            2 => 127 + self.usize(3),
            3 => 254 + self.usize(4),
            4..=9 => 0,
            10 if !self.dict.ints.is_empty() => {
                let d = self.dict;
                let x = d.ints[self.usize(d.ints.len())];
                if x < 70000 {
                    (x + self.below(3)).saturating_sub(1) as usize
                } else {
                    1
                }
            }
            11 => self.usize(300),
            _ => 1 + self.usize(12),
        }
    }

    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(4);
        (0..n)
            .map(|_| match mode {
                0 => self.next() as u8,
                1 => 0,
                2 => 0xff,
                _ => b'a' + self.below(26) as u8,
            })
            .collect()
    }

    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.size();
        self.bytes_n(n)
    }

    pub fn string(&mut self) -> String {
        if self.chance(6) && !self.dict.strs.is_empty() {
            let d = self.dict;
            return d.strs[self.usize(d.strs.len())].clone();
        }
        let n = self.size();
        let mode = self.below(5);
        let mut s = String::new();
        while s.len() < n {
            let c = match mode {
                0 => *[',', ' ', '.', '\0', '\n', '=', '"', '\u{feff}', '\t']
                    .get(self.usize(9))
                    .unwrap(),
                1 => char::from_u32(self.below(0x110000) as u32).unwrap_or('é'),
                2 => *['é', 'ß', '日', '😀', 'a', '\u{80}', '\u{7ff}', '\u{800}', '\u{10ffff}']
                    .get(self.usize(9))
                    .unwrap(),
                _ => (b'a' + self.below(26) as u8) as char,
            };
            if s.len() + c.len_utf8() > n {
                s.push('z');
            } else {
                s.push(c);
            }
        }
        s
    }

    /// A short name.
    pub fn name(&mut self) -> String {
        if self.chance(8) {
            self.string()
        } else {
            let n = 1 + self.usize(6);
            (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
        }
    }

    pub fn typed_of(&mut self, ty: u64) -> Typed {
        match ty {
            0 => Typed::Null,
            1 => Typed::Boolean(self.chance(2)),
            2 => Typed::Int32(self.i32()),
            3 => Typed::Uint32(self.u32()),
            4 => Typed::Int64(self.u64() as i64),
            5 => Typed::Uint64(self.u64()),
            6 => {
                let n = self.u32();
                Typed::Ipv4(Ipv4Addr::from(n))
            }
            7 => {
                let n = match self.below(4) {
                    0 => (0xffffu128 << 32) | self.u32() as u128, // v4-mapped
                    1 => self.u64() as u128,
                    2 => (self.u64() as u128) << 64,
                    _ => ((self.next() as u128) << 64) | self.next() as u128,
                };
                Typed::Ipv6(Ipv6Addr::from(n))
            }
            8 => Typed::String(self.string()),
            _ => Typed::Binary(bytes::Bytes::from(self.bytes())),
        }
    }

    pub fn typed(&mut self) -> Typed {
        let t = self.below(10);
        self.typed_of(t)
    }

    pub fn scope(&mut self) -> Scope {
        self.pick(&SCOPES)
    }

    pub fn action(&mut self) -> Action {
        let scope = self.scope();
        let name = self.name();
        if self.chance(3) {
            Action::UnsetVar { scope, name }
        } else {
            Action::SetVar {
                scope,
                name,
                value: self.typed(),
            }
        }
    }

    pub fn len(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 => 0,
            1 => 1,
            2 => self.usize(max + 1),
            _ => self.usize(5),
        }
    }

    pub fn actions(&mut self) -> Vec<Action> {
        let n = self.len(20);
        (0..n).map(|_| self.action()).collect()
    }

    pub fn small_typed(&mut self) -> Typed {
        let t = self.below(8);
        self.typed_of(t)
    }

    pub fn args(&mut self) -> Vec<(String, Typed)> {
        let n = match self.below(16) {
            0 => 255,
            1 => 254,
            2 => 127 + self.usize(3),
            3 => 15 + self.usize(3),
            4 => self.usize(256),
            _ => self.usize(5),
        };
        if n > 10 {
            let mut v: Vec<(String, Typed)> = (0..n)
                .map(|_| (self.pick(&["a", "b", ""]).to_string(), self.small_typed()))
                .collect();
            if self.chance(2) && n > 0 {
                let i = self.usize(n);
                v[i] = (self.name(), self.typed());
            }
            v
        } else {
            let dup = self.name();
            (0..n)
                .map(|_| {
                    let k = if self.chance(4) {
                        dup.clone()
                    } else {
                        self.name()
                    };
                    (k, self.typed())
                })
                .collect()
        }
    }

    pub fn message(&mut self) -> Message {
        Message {
            name: self.name(),
            args: self.args(),
        }
    }

    pub fn messages(&mut self) -> Vec<Message> {
        let n = self.len(8);
        (0..n).map(|_| self.message()).collect()
    }

    pub fn small_message(&mut self) -> Message {
        let n = self.usize(3);
        Message {
            name: self.pick(&["m", "client", "x-y", ""]).to_string(),
            args: (0..n)
                .map(|_| (self.pick(&["k", "src", ""]).to_string(), self.small_typed()))
                .collect(),
        }
    }

    pub fn small_messages(&mut self) -> Vec<Message> {
        let n = self.usize(4);
        (0..n).map(|_| self.small_message()).collect()
    }

    pub fn small_actions(&mut self) -> Vec<Action> {
        let n = self.usize(4);
        (0..n)
            .map(|_| {
                let scope = self.scope();
                let name = self.pick(&["a", "txn.x", ""]).to_string();
                if self.chance(3) {
                    Action::UnsetVar { scope, name }
                } else {
                    let value = self.small_typed();
                    Action::SetVar { scope, name, value }
                }
            })
            .collect()
    }

    pub fn version(&mut self) -> Version {
        match self.below(4) {
            0 => Version::new(2, 0),
            1 => Version::new(self.below(4) as u8, self.below(4) as u8),
            2 => Version::new(self.next() as u8, self.next() as u8),
            _ => Version::new(
                self.pick(&[0, 1, 2, 9, 10, 99, 100, 255]),
                self.pick(&[0, 1, 2, 9, 10, 11, 99, 100, 255]),
            ),
        }
    }

    pub fn versions(&mut self) -> Vec<Version> {
        let n = 1 + self.usize(4);
        (0..n).map(|_| self.version()).collect()
    }

    /// Any list of capabilities, repetitions included.
    pub fn caps(&mut self) -> Vec<Capability> {
        let n = self.usize(5);
        (0..n).map(|_| self.pick(&CAPS)).collect()
    }

    pub fn id(&mut self) -> u64 {
        self.u64()
    }

    pub fn nonzero_id(&mut self) -> u64 {
        match self.u64() {
            0 => 1,
            n => n,
        }
    }

    pub fn hello(&mut self) -> HaproxyHello {
        HaproxyHello {
            supported_versions: self.versions(),
            max_frame_size: self.u32(),
            capabilities: self.caps(),
            healthcheck: self.pick(&[None, Some(true), Some(false)]),
            engine_id: if self.chance(2) {
                Some(self.string())
            } else {
                None
            },
        }
    }

    pub fn frame_of(&mut self, ty: u64) -> Frame {
        match ty {
            0 => Frame::HaproxyHello(self.hello()),
            1 => Frame::AgentHello(AgentHello {
                version: self.version(),
                max_frame_size: self.u32(),
                capabilities: self.caps(),
            }),
            2 | 3 => {
                let d = Disconnect {
                    status_code: if self.chance(2) {
                        self.below(101) as u32
                    } else {
                        self.u32()
                    },
                    message: self.string(),
                };
                if ty == 2 {
                    Frame::HaproxyDisconnect(d)
                } else {
                    Frame::AgentDisconnect(d)
                }
            }
            4 => Frame::HaproxyNotify(HaproxyNotify {
                fragmented: self.chance(2),
                stream_id: self.id(),
                frame_id: self.nonzero_id(),
                messages: self.messages(),
            }),
            _ => Frame::AgentAck(AgentAck {
                fragmented: self.chance(2),
                aborted: self.chance(2),
                stream_id: self.id(),
                frame_id: self.nonzero_id(),
                actions: self.actions(),
            }),
        }
    }

    pub fn frame(&mut self) -> Frame {
        let t = self.below(6);
        self.frame_of(t)
    }

    /// A small frame.
    pub fn small_frame(&mut self) -> Frame {
        match self.below(3) {
            0 => {
                let messages = self.small_messages();
                Frame::HaproxyNotify(HaproxyNotify {
                    fragmented: self.chance(2),
                    stream_id: self.id(),
                    frame_id: self.nonzero_id(),
                    messages,
                })
            }
            1 => {
                let actions = self.small_actions();
                Frame::AgentAck(AgentAck {
                    fragmented: self.chance(2),
                    aborted: self.chance(2),
                    stream_id: self.id(),
                    frame_id: self.nonzero_id(),
                    actions,
                })
            }
            _ => {
                let t = self.below(4);
                let mut f = self.frame_of(t);
                match &mut f {
                    Frame::HaproxyHello(h) => h.engine_id = h.engine_id.take().map(|s| short(&s)),
                    Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) => {
                        d.message = short(&d.message)
                    }
                    _ => {}
                }
                f
            }
        }
    }

    /// Change an encoding a little.
    pub fn mutate(&mut self, b: &mut Vec<u8>) {
        for _ in 0..1 + self.usize(3) {
            let n = b.len();
            match self.below(9) {
                0 if n > 0 => {
                    let i = self.usize(n);
                    b[i] = self.next() as u8;
                }
                1 if n > 0 => {
                    let i = self.usize(n);
                    b[i] ^= 1 << self.below(8);
                }
                2 if n > 0 => b.truncate(self.usize(n)),
                3 => {
                    let i = self.usize(n + 1);
                    let x = self.next() as u8;
                    b.insert(i, x);
                }
                4 if n > 0 => {
                    let i = self.usize(n);
                    b.remove(i);
                }
                5 if n > 0 => {
                    let i = self.usize(n);
                    b[i] = self.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xef, 0xf0, 0xff, 0x0a, 0x10, 0x11]);
                }
                6 => {
                    // a varint of any size, in place
                    let i = self.usize(n + 1);
                    let x = self.u64();
                    let v = crate::spec::varint(x);
                    let j = (i + self.usize(2)).min(n);
                    b.splice(i..j, v);
                }
                7 => {
                    let k = 1 + self.usize(4);
                    let x = self.bytes_n(k);
                    b.extend(x);
                }
                8 if n > 1 => {
                    let i = self.usize(n);
                    let j = i + self.usize(n - i);
                    let part = b[i..j].to_vec();
                    let k = self.usize(n + 1);
                    b.splice(k..k, part);
                }
                _ => {}
            }
        }
    }
}

fn short(s: &str) -> String {
    s.chars().take(20).collect()
}
