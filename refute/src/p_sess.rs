//! Whole connections against a reference session: C16, C18-C22, C27.

use crate::io::{frames, End, ScriptIo};
use crate::p_wire::short;
use crate::{gen::*, hex, spec, Phase};
use haproxy_spoa::{Connection, Error as AgentError, Runtime};
use haproxy_spop::{
    Action, AgentHello, Capability, Disconnect, Error, Frame, HaproxyHello, HaproxyNotify, Message,
    Version,
};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio_util::sync::CancellationToken;
use tower::Service;

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
type Res = Result<(), String>;

// ----------------------------------------------------------- the service

#[derive(Clone, Debug)]
pub struct Answer {
    result: Result<Vec<Action>, String>,
    delay: u64,
    /// Polls before it is ready; the readiness may fail.
    ready_after: u32,
    ready_delay: u64,
    ready_err: bool,
}

#[derive(Default)]
pub struct Log {
    makes: usize,
    calls: Vec<Vec<Message>>,
    finished: usize,
    misuse: Option<String>,
}

struct Maker {
    log: Arc<Mutex<Log>>,
    answers: Arc<Vec<Answer>>,
    fail: bool,
    ready_err: bool,
    ready_after: u32,
    ready: bool,
}

struct Svc {
    log: Arc<Mutex<Log>>,
    answers: Arc<Vec<Answer>>,
    k: usize,
    polls: u32,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    ready: bool,
}

impl Service<u32> for Maker {
    type Response = Svc;
    type Error = std::io::Error;
    type Future = std::future::Ready<Result<Svc, std::io::Error>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.ready_after > 0 {
            self.ready_after -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.ready_err {
            return Poll::Ready(Err(std::io::ErrorKind::Other.into()));
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, state: u32) -> Self::Future {
        let mut log = self.log.lock().unwrap();
        log.makes += 1;
        if !self.ready {
            log.misuse = Some("the service maker was called before it was ready".into());
        }
        if state != 42 {
            log.misuse = Some(format!("the service maker was given {state} instead of the configured state"));
        }
        self.ready = false;
        std::future::ready(if self.fail {
            Err(std::io::ErrorKind::Other.into())
        } else {
            Ok(Svc {
                log: self.log.clone(),
                answers: self.answers.clone(),
                k: 0,
                polls: 0,
                sleep: None,
                ready: false,
            })
        })
    }
}

impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = String;
    type Future = Pin<Box<dyn Future<Output = Result<Vec<Action>, String>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        if self.ready {
            return Poll::Ready(Ok(()));
        }
        let Some(a) = self.answers.get(self.k) else {
            self.ready = true;
            return Poll::Ready(Ok(()));
        };
        if self.polls < a.ready_after {
            self.polls += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if a.ready_delay > 0 {
            let d = a.ready_delay;
            let s = self
                .sleep
                .get_or_insert_with(|| Box::pin(tokio::time::sleep(Duration::from_millis(d))));
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
        }
        if a.ready_err {
            return Poll::Ready(Err("not ready".into()));
        }
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let mut log = self.log.lock().unwrap();
        if !self.ready {
            log.misuse = Some(format!("call {} of the service came before it was ready", log.calls.len()));
        }
        self.ready = false;
        self.polls = 0;
        self.sleep = None;
        log.calls.push(msgs);
        let a = self.answers.get(self.k).cloned();
        self.k += 1;
        let log = self.log.clone();
        Box::pin(async move {
            let Some(a) = a else {
                return Ok(vec![]);
            };
            if a.delay > 0 {
                tokio::time::sleep(Duration::from_millis(a.delay)).await;
            }
            log.lock().unwrap().finished += 1;
            a.result
        })
    }
}

// ------------------------------------------------------------- reference

#[derive(Clone, Debug)]
pub struct Conf {
    pub versions: Vec<Version>,
    pub caps: Vec<Capability>,
    pub size: usize,
    pub time: u64,
    pub answers: Vec<Answer>,
    pub make_fail: bool,
    pub make_ready_err: bool,
    pub make_ready_after: u32,
}

#[derive(Clone, Debug)]
pub enum Item {
    Frame(Vec<u8>),
    /// A length that is too big, and nothing behind it.
    Len(u32),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Hello { version: Version, size: u32, caps: Vec<u8> },
    Ack { sid: u64, fid: u64, actions: Vec<Action> },
    Disconnect(u32),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End2 {
    Done,
    Failed(u32),
    /// Still waiting for frames.
    Waiting,
}

#[derive(Debug)]
pub struct Want {
    pub out: Vec<Out>,
    pub calls: Vec<Vec<Message>>,
    pub makes: usize,
    pub end: End2,
    /// The limit on the size of frames was decisive: code of the status.
    pub size_status: Option<u32>,
}

pub fn negotiate(conf: &Conf, h: &HaproxyHello) -> Option<(Version, u32, Vec<u8>)> {
    let key = |v: &Version| (v.major, v.minor);
    let best = h
        .supported_versions
        .iter()
        .filter(|v| conf.versions.iter().any(|w| key(v) == key(w)))
        .max_by_key(|v| key(v))?;
    let mut caps: Vec<u8> = CAPS
        .iter()
        .filter(|c| conf.caps.contains(c) && h.capabilities.contains(c))
        .map(|c| *c as u8)
        .collect();
    caps.sort();
    let size = (h.max_frame_size as u64).min(conf.size as u64) as u32;
    Some((*best, size, caps))
}

fn actions_len(a: &[Action], sid: u64, fid: u64) -> usize {
    spec::enc_frame(&Frame::ack(sid, fid, a.to_vec())).len()
}

pub fn reference(conf: &Conf, items: &[Item], end: End) -> Want {
    let mut w = Want { out: vec![], calls: vec![], makes: 0, end: End2::Waiting, size_status: None };
    let mut limit = conf.size as u64;
    let mut table: Option<HashMap<(u64, u64), Vec<Message>>> = None;
    let mut processing = false;
    macro_rules! stop {
        ($code:expr, $failed:expr) => {{
            w.out.push(Out::Disconnect($code));
            w.end = if $failed { End2::Failed($code) } else { End2::Done };
            return w;
        }};
    }
    for it in items {
        let f = match it {
            Item::Len(n) if *n as u64 > limit => {
                w.size_status = Some(9);
                stop!(9, true)
            }
            Item::Len(0) => stop!(4, true),
            Item::Len(_) => break,
            Item::Frame(b) if b.len() as u64 > limit => {
                w.size_status = Some(9);
                stop!(9, true)
            }
            Item::Frame(b) => match spec::dec_frame(b) {
                Ok(f) => f,
                Err(_) => stop!(4, true),
            },
        };
        if !processing {
            let Frame::HaproxyHello(h) = f else { stop!(4, false) };
            let Some((version, size, caps)) = negotiate(conf, &h) else { stop!(5, false) };
            if h.healthcheck == Some(true) {
                w.out.push(Out::Hello { version, size, caps });
                w.end = End2::Done;
                return w;
            }
            if conf.make_ready_err {
                stop!(99, false)
            }
            w.makes += 1;
            if conf.make_fail {
                stop!(99, false)
            }
            if caps.contains(&(Capability::Fragmentation as u8)) {
                table = Some(HashMap::new());
            }
            processing = true;
            limit = size as u64;
            w.out.push(Out::Hello { version, size, caps });
            continue;
        }
        match f {
            Frame::HaproxyNotify(n) => {
                let key = (n.stream_id, n.frame_id);
                let msgs = match &mut table {
                    None if n.fragmented => stop!(10, false),
                    None => n.messages,
                    Some(t) => {
                        let e = t.entry(key).or_default();
                        e.extend(n.messages);
                        if n.fragmented {
                            continue;
                        }
                        t.remove(&key).unwrap()
                    }
                };
                let a = conf.answers.get(w.calls.len()).cloned().unwrap_or(Answer {
                    result: Ok(vec![]),
                    delay: 0,
                    ready_after: 0,
                    ready_delay: 0,
                    ready_err: false,
                });
                if a.ready_delay > conf.time {
                    stop!(2, false)
                }
                if a.ready_err {
                    stop!(99, false)
                }
                w.calls.push(msgs);
                if a.ready_delay + a.delay > conf.time {
                    stop!(2, false)
                }
                match a.result {
                    Err(_) => stop!(99, false),
                    Ok(actions) => {
                        if actions_len(&actions, key.0, key.1) as u64 > limit {
                            w.size_status = Some(3);
                            stop!(3, true)
                        }
                        w.out.push(Out::Ack { sid: key.0, fid: key.1, actions });
                    }
                }
            }
            Frame::HaproxyDisconnect(_) => stop!(0, false),
            _ => stop!(4, false),
        }
    }
    w.end = match end {
        End::Silent => End2::Waiting,
        _ => End2::Failed(1),
    };
    w
}

// ------------------------------------------------------------ real thing

pub struct Got {
    pub out: Vec<Out>,
    pub raw: Vec<Vec<u8>>,
    pub calls: Vec<Vec<Message>>,
    pub makes: usize,
    pub end: End2,
    pub misuse: Option<String>,
}

fn code_of(e: &AgentError) -> u32 {
    match e {
        AgentError::Status(s) => *s as u32,
        _ => 1000,
    }
}

pub fn runtime(conf: &Conf, log: &Arc<Mutex<Log>>) -> Arc<Runtime<impl tower::MakeService<u32, Vec<Message>, Response = Vec<Action>, Error = String, MakeError = std::io::Error, Service = impl Service<Vec<Message>, Response = Vec<Action>, Error = String>>, u32>> {
    Arc::new(Runtime::new(
        conf.versions.clone(),
        conf.caps.clone(),
        conf.size,
        Duration::from_millis(conf.time),
        Maker {
            log: log.clone(),
            answers: Arc::new(conf.answers.clone()),
            fail: conf.make_fail,
            ready_err: conf.make_ready_err,
            ready_after: conf.make_ready_after,
            ready: false,
        },
        42u32,
    ))
}

pub fn run(g: &mut G, conf: &Conf, items: &[Item], end: End) -> Result<Got, String> {
    let mut input = vec![];
    for it in items {
        match it {
            Item::Frame(b) => input.extend(spec::on_stream(b)),
            Item::Len(n) => input.extend(n.to_be_bytes()),
        }
    }
    g.note(&input);
    let io = ScriptIo::random(g, input, end);
    let sh = io.sh.clone();
    let log = Arc::new(Mutex::new(Log::default()));
    let rt = runtime(conf, &log);
    let tok = CancellationToken::new();
    let ex = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let (res, waited) = ex.block_on(async {
        let mut conn = Connection::new(rt, io, tok.clone());
        tokio::select! {
            biased;
            r = conn.serve() => (Some(r), false),
            _ = tokio::time::sleep(Duration::from_secs(100_000_000)) => (None, true),
        }
    });
    let end = match (res, waited) {
        (_, true) => End2::Waiting,
        (Some(Ok(())), _) => End2::Done,
        (Some(Err(e)), _) => End2::Failed(code_of(&e)),
        (None, _) => unreachable!(),
    };
    let raw = frames(&sh.lock().unwrap().output)?;
    let mut out = vec![];
    for r in &raw {
        let f = spec::dec_frame(r).map_err(|_| format!("the agent wrote an unreadable frame {}", hex(r)))?;
        let mut r2 = spec::R::new(r);
        let h = spec::dec_header(&mut r2).unwrap();
        out.push(match f {
            Frame::AgentHello(h) => {
                let mut caps: Vec<u8> = h.capabilities.iter().map(|c| *c as u8).collect();
                caps.sort();
                Out::Hello { version: h.version, size: h.max_frame_size, caps }
            }
            Frame::AgentAck(a) => {
                if h.flags != 1 {
                    return Err(format!("an ACK with flags {:#x}", h.flags));
                }
                Out::Ack { sid: a.stream_id, fid: a.frame_id, actions: a.actions }
            }
            Frame::AgentDisconnect(d) => Out::Disconnect(d.status_code),
            f => return Err(format!("the agent wrote {f:?}")),
        });
    }
    let mut log = log.lock().unwrap();
    Ok(Got {
        out,
        raw,
        calls: std::mem::take(&mut log.calls),
        makes: log.makes,
        end,
        misuse: log.misuse.take(),
    })
}

// ------------------------------------------------------------- scenarios

fn caps_subset(g: &mut G) -> Vec<Capability> {
    let m = g.below(8);
    CAPS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| *c).collect()
}

fn answer(g: &mut G, time: u64, trouble: u64) -> Answer {
    let slow = g.chance(trouble * 2);
    Answer {
        result: if g.chance(trouble * 2) { Err(g.name()) } else { Ok(g.small_actions()) },
        delay: if slow {
            time + 1 + g.below(100)
        } else if g.chance(3) {
            // the service may use most of the time
            g.below(time / 2)
        } else {
            0
        },
        ready_after: if g.chance(2) { g.below(4) as u32 } else { 0 },
        ready_delay: if g.chance(6) { g.below(time / 2 - 1) } else { 0 },
        ready_err: g.chance(trouble * 4),
    }
}

fn conf(g: &mut G, trouble: u64) -> Conf {
    let time = 10 + g.below(20000);
    let n = 1 + g.usize(3);
    let mut versions: Vec<Version> = (0..n).map(|_| g.version()).collect();
    if g.chance(2) {
        versions.push(Version::new(2, 0));
    }
    let n = g.usize(5);
    Conf {
        versions,
        caps: caps_subset(g),
        size: match g.below(4) {
            0 => 16384,
            1 => 256 + g.usize(300),
            _ => 600 + g.usize(70000),
        },
        time,
        answers: (0..n).map(|_| answer(g, time, trouble)).collect(),
        make_fail: g.chance(trouble * 5),
        make_ready_err: g.chance(trouble * 8),
        make_ready_after: g.below(3) as u32,
    }
}

fn hello(g: &mut G, conf: &Conf) -> HaproxyHello {
    let mut v = g.versions();
    if !g.chance(8) {
        let x = g.pick(&conf.versions);
        let i = g.usize(v.len() + 1);
        v.insert(i, x);
    }
    let n = g.usize(3);
    HaproxyHello {
        supported_versions: v,
        max_frame_size: match g.below(4) {
            0 => conf.size as u32,
            1 => 256 + g.below(300) as u32,
            2 => u32::MAX - g.below(3) as u32,
            _ => 600 + g.below(70000) as u32,
        },
        capabilities: if g.chance(2) {
            CAPS.to_vec()
        } else {
            (0..n).map(|_| g.pick(&CAPS)).collect()
        },
        healthcheck: if g.chance(8) { Some(true) } else { g.pick(&[None, None, Some(false)]) },
        engine_id: g.pick(&[None, Some("engine".to_string())]),
    }
}

fn fr(f: &Frame) -> Item {
    Item::Frame(spec::enc_frame(f))
}

/// Frames to receive; `trouble` is the rarity of those that end the connection.
fn script(g: &mut G, conf: &Conf, trouble: u64) -> Vec<Item> {
    let mut v = vec![];
    if g.chance(trouble * 2) {
        let f = g.small_frame();
        v.push(fr(&f));
    }
    let h = hello(g, conf);
    let neg = negotiate(conf, &h);
    let frag = neg.as_ref().is_some_and(|n| n.2.contains(&(Capability::Fragmentation as u8)));
    let limit = neg.as_ref().map_or(256, |n| n.1);
    v.push(fr(&Frame::HaproxyHello(h)));
    let ids = [(g.id(), g.nonzero_id()), (g.id(), g.nonzero_id())];
    let ids = [ids[0], ids[1], (ids[0].0, ids[1].1), (ids[1].0, ids[0].1), (ids[0].0.wrapping_add(1), ids[0].1)];
    let n = g.usize(8);
    let nk = 1 + g.usize(5);
    for _ in 0..n {
        if g.chance(trouble) {
            match g.below(9) {
                0 => v.push(Item::Len(limit.saturating_add(1 + g.below(3) as u32))),
                1 => {
                    let n = g.usize(40);
                    v.push(Item::Frame(g.bytes_n(n)))
                }
                2 => {
                    let mut b = spec::enc_frame(&g.small_frame());
                    g.mutate(&mut b);
                    v.push(Item::Frame(b))
                }
                3 => {
                    let h = hello(g, conf);
                    v.push(fr(&Frame::HaproxyHello(h)))
                }
                4 | 5 => v.push(fr(&Frame::HaproxyDisconnect(Disconnect {
                    status_code: g.below(15) as u32,
                    message: "bye".into(),
                }))),
                6 => {
                    let (s, i) = ids[0];
                    v.push(fr(&Frame::HaproxyNotify(HaproxyNotify {
                        fragmented: true,
                        stream_id: s,
                        frame_id: i,
                        messages: vec![],
                    })))
                }
                7 => {
                    // cut inside
                    let mut b = spec::enc_frame(&Frame::notify(1, 2, g.small_messages()));
                    let n = g.usize(b.len());
                    b.truncate(n);
                    v.push(Item::Frame(b))
                }
                _ => {
                    let f = g.small_frame();
                    v.push(fr(&f))
                }
            }
        } else {
            let (s, i) = ids[g.usize(nk)];
            v.push(fr(&Frame::HaproxyNotify(HaproxyNotify {
                fragmented: frag && g.chance(2),
                stream_id: s,
                frame_id: i,
                messages: g.small_messages(),
            })));
        }
    }
    v
}

fn show(conf: &Conf, items: &[Item], end: End) -> String {
    let mut s = format!(
        "agent versions {} caps {:?} size {} time {}ms; received:",
        spec::versions_str(&conf.versions),
        conf.caps,
        conf.size,
        conf.time
    );
    for i in items {
        match i {
            Item::Frame(b) => match spec::dec_frame(b) {
                Ok(f) => s.push_str(&format!(" [{}]", short(&format!("{f:?}")))),
                Err(_) => s.push_str(&format!(" [bad {}]", hex(b))),
            },
            Item::Len(n) => s.push_str(&format!(" [length {n}]")),
        }
    }
    s.push_str(&format!(" then {end:?}"));
    for (i, a) in conf.answers.iter().enumerate() {
        s.push_str(&format!("; answer {i}: {}", short(&format!("{a:?}"))));
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Size,
    Terms,
    First,
    Acks,
    Errors,
}

/// Compare what the property is about.
fn judge(focus: Focus, ctx: &str, want: &Want, got: &Got) -> Res {
    let hello = |o: &&Out| matches!(o, Out::Hello { .. });
    let ack = |o: &&Out| matches!(o, Out::Ack { .. });
    let disc = |o: &&Out| matches!(o, Out::Disconnect(_));
    let (o, w) = (&got.out, &want.out);
    match focus {
        Focus::Terms => {
            let (a, b) = (o.iter().find(hello), w.iter().find(hello));
            check!(a == b, "{ctx}: announced {a:?} instead of {b:?}");
            if w.first() == Some(&Out::Disconnect(5)) {
                check!(o.first() == w.first(), "{ctx}: answered {o:?} instead of a DISCONNECT with status 5");
            }
        }
        Focus::First => {
            let kind = |o: Option<&Out>| match o {
                None => "nothing".to_string(),
                Some(Out::Hello { .. }) => "AGENT-HELLO".into(),
                Some(Out::Ack { .. }) => "ACK".into(),
                Some(Out::Disconnect(n)) => format!("DISCONNECT {n}"),
            };
            let (a, b) = (kind(o.first()), kind(w.first()));
            check!(a == b, "{ctx}: the first answer is {a} instead of {b}");
            check!(
                o.iter().filter(hello).count() == w.iter().filter(hello).count(),
                "{ctx}: {} AGENT-HELLO written",
                o.iter().filter(hello).count()
            );
            check!(got.makes == want.makes, "{ctx}: {} services created instead of {}", got.makes, want.makes);
            if want.makes == 0 {
                check!(got.calls.is_empty(), "{ctx}: messages were processed");
                check!(o.len() == w.len(), "{ctx}: answered {o:?} instead of {w:?}");
                check!(got.end == want.end, "{ctx}: ended as {:?} instead of {:?}", got.end, want.end);
            }
            let (a, b) = (kind(o.last()), kind(w.last()));
            check!(a == b, "{ctx}: the last answer is {a} instead of {b}");
        }
        Focus::Acks => {
            check!(got.misuse.is_none(), "{ctx}: {}", got.misuse.clone().unwrap_or_default());
            check!(
                got.calls == want.calls,
                "{ctx}: the service was called with {} instead of {}",
                short(&format!("{:?}", got.calls)),
                short(&format!("{:?}", want.calls))
            );
            let a: Vec<_> = o.iter().filter(ack).collect();
            let b: Vec<_> = w.iter().filter(ack).collect();
            check!(a == b, "{ctx}: acknowledged {} instead of {}", short(&format!("{a:?}")), short(&format!("{b:?}")));
            // the fragment that was not negotiated
            if w.last() == Some(&Out::Disconnect(10)) {
                check!(o.last() == w.last(), "{ctx}: answered {o:?} instead of a DISCONNECT with status 10");
            }
        }
        Focus::Errors => {
            let a: Vec<_> = o.iter().filter(disc).collect();
            let b: Vec<_> = w.iter().filter(disc).collect();
            check!(a == b, "{ctx}: wrote the DISCONNECT frames {a:?} instead of {b:?}");
            if !b.is_empty() {
                check!(disc(&o.last().unwrap()), "{ctx}: frames after the DISCONNECT: {o:?}");
                check!(got.end != End2::Waiting, "{ctx}: the connection goes on after the DISCONNECT");
            }
            if want.end == End2::Failed(1) {
                check!(got.end == want.end, "{ctx}: ended as {:?} instead of an I/O error", got.end);
            }
            if want.end == End2::Waiting {
                check!(got.end == want.end, "{ctx}: ended as {:?} with nothing wrong", got.end);
            }
            check!(
                got.calls.len() == want.calls.len(),
                "{ctx}: {} calls of the service instead of {}",
                got.calls.len(),
                want.calls.len()
            );
        }
        Focus::Size => {
            let sized = |v: &[Out]| v.iter().filter(|o| matches!(o, Out::Disconnect(3 | 9))).cloned().collect::<Vec<_>>();
            check!(sized(o) == sized(w), "{ctx}: answered {} instead of {}", short(&format!("{o:?}")), short(&format!("{w:?}")));
            check!(o.len() == w.len(), "{ctx}: answered {} instead of {}", short(&format!("{o:?}")), short(&format!("{w:?}")));
            let cap = want.out.iter().find_map(|x| match x {
                Out::Hello { size, .. } => Some(*size as usize),
                _ => None,
            });
            if let Some(cap) = cap {
                for r in &got.raw {
                    check!(r.len() <= cap, "{ctx}: wrote a frame of {} bytes, {cap} negotiated", r.len());
                }
            }
        }
    }
    Ok(())
}

fn session(g: &mut G, focus: Focus, conf: &Conf, items: &[Item], end: End) -> Res {
    // the protocol allows no maximum below 256, and a smaller one need not
    // have room for the frames of the handshake
    if let Some(Item::Frame(b)) = items.first() {
        if let Ok(Frame::HaproxyHello(h)) = spec::dec_frame(b) {
            if h.max_frame_size < 256 {
                g.trivial = true;
                return Ok(());
            }
        }
    }
    let want = reference(conf, items, end);
    let ctx = show(conf, items, end);
    let got = run(g, conf, items, end).map_err(|e| format!("{ctx}: {e}"))?;
    g.trivial = match focus {
        Focus::Size => want.size_status.is_none(),
        Focus::Terms => false,
        Focus::First => want.out.is_empty(),
        Focus::Acks => want.calls.is_empty(),
        Focus::Errors => want.end == End2::Waiting,
    };
    let r = judge(focus, &ctx, &want, &got);
    g.describe(|| format!("{ctx} => {}", short(&format!("{:?}", want.out))));
    r
}

fn pick_end(g: &mut G) -> End {
    g.pick(&[End::Eof, End::Silent, End::Silent, End::Error])
}

fn random_session(g: &mut G, focus: Focus, trouble: u64) -> Res {
    let c = conf(g, trouble);
    let items = script(g, &c, trouble);
    let end = pick_end(g);
    session(g, focus, &c, &items, end)
}

fn plain_conf(caps: &[Capability], size: usize) -> Conf {
    Conf {
        versions: vec![Version::new(2, 0)],
        caps: caps.to_vec(),
        size,
        time: 1000,
        answers: vec![],
        make_fail: false,
        make_ready_err: false,
        make_ready_after: 0,
    }
}

fn plain_hello(caps: &[Capability], size: u32, healthcheck: Option<bool>) -> Item {
    fr(&Frame::HaproxyHello(HaproxyHello {
        supported_versions: vec![Version::new(2, 0)],
        max_frame_size: size,
        capabilities: caps.to_vec(),
        healthcheck,
        engine_id: None,
    }))
}

/// A NOTIFY of exactly `n` bytes.
fn notify_of(n: usize) -> Option<Item> {
    let base = spec::enc_frame(&Frame::notify(1, 1, vec![Message { name: String::new(), args: vec![] }])).len();
    for k in 0..=n.saturating_sub(base) {
        let l = n.saturating_sub(base) - k;
        let b = spec::enc_frame(&Frame::notify(1, 1, vec![Message { name: "n".repeat(l), args: vec![] }]));
        if b.len() == n {
            return Some(Item::Frame(b));
        }
        if b.len() < n {
            // add empty messages of two bytes
            let more = (n - b.len()) / 2;
            let mut ms = vec![Message { name: "n".repeat(l), args: vec![] }];
            ms.extend((0..more).map(|_| Message { name: String::new(), args: vec![] }));
            let b = spec::enc_frame(&Frame::notify(1, 1, ms));
            return (b.len() == n).then_some(Item::Frame(b));
        }
    }
    None
}

pub fn c16_session() -> Vec<Phase> {
    vec![
        Phase::some("the negotiated limit, received frames", 120, |g, i| {
            let (a, b) = if i % 2 == 0 { (256 + i as usize * 11, 100_000) } else { (100_000, 256 + i as usize * 11) };
            let lim = a.min(b);
            let c = plain_conf(&[], a);
            let n = lim + (i as usize / 2) % 3 - 1;
            let Some(x) = notify_of(n) else { return Ok(()) };
            let items = [plain_hello(&[], b as u32, None), x];
            session(g, Focus::Size, &c, &items, End::Silent)
        }),
        Phase::some("the negotiated limit, sent frames", 120, |g, i| {
            let (a, b) = if i % 2 == 0 { (256 + i as usize * 11, 100_000) } else { (100_000, 256 + i as usize * 11) };
            let lim = a.min(b);
            let mut c = plain_conf(&[], a);
            let base = actions_len(&[Action::unset_var(haproxy_spop::Scope::Process, "")], 1, 1);
            let extra = if lim - base > 2300 { 2 } else if lim - base > 240 { 1 } else { 0 };
            let l = (lim - base - extra + (i as usize / 2) % 3).saturating_sub(1);
            let acts = vec![Action::unset_var(haproxy_spop::Scope::Process, "v".repeat(l))];
            c.answers = vec![Answer { result: Ok(acts), delay: 0, ready_after: 0, ready_delay: 0, ready_err: false }];
            let items = [plain_hello(&[], b as u32, None), notify_of(60).unwrap(), notify_of(61).unwrap()];
            session(g, Focus::Size, &c, &items, End::Silent)
        }),
        Phase::rand("connections", |g, _| random_session(g, Focus::Size, 4)),
    ]
}

pub fn c27_session() -> Vec<Phase> {
    vec![Phase::some("the size before the handshake", 60, |g, i| {
        // a HELLO of exactly the configured size, or one byte off
        let h = |l: usize| {
            Frame::HaproxyHello(HaproxyHello {
                supported_versions: vec![Version::new(2, 0)],
                max_frame_size: 300,
                capabilities: vec![],
                healthcheck: None,
                engine_id: Some("e".repeat(l)),
            })
        };
        let b = spec::enc_frame(&h(150 + i as usize * 40));
        let size = b.len() + i as usize % 3 - 1;
        let c = plain_conf(&[], size);
        let items = [Item::Frame(b)];
        session(g, Focus::Size, &c, &items, End::Silent)
    })]
}

pub fn c18(_: bool) -> Vec<Phase> {
    #[allow(unused_mut)]
    let mut v = vec![
        Phase::all("every pair of capability sets", 64 * 2, |g, i| {
            let set = |m: u64| CAPS.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| *c).collect::<Vec<_>>();
            let c = plain_conf(&set(i % 8), 1000);
            let items = [plain_hello(&set(i / 8 % 8), 1000, if i >= 64 { Some(true) } else { None })];
            session(g, Focus::Terms, &c, &items, End::Silent)
        }),
        Phase::all("sizes around each other", 300, |g, i| {
            let a = 250 + (i / 10) as usize * 37;
            let c = plain_conf(&[], a);
            let items = [plain_hello(&[], (a as u64 + i % 10 - 5) as u32, Some(i % 2 == 0))];
            session(g, Focus::Terms, &c, &items, End::Silent)
        }),
        Phase::rand("handshakes", |g, _| {
            let mut c = conf(g, 1000);
            let n = 1 + g.usize(4);
            // versions that differ by little
            let vs: Vec<Version> = (0..6).map(|_| Version::new(g.below(3) as u8, g.below(3) as u8)).collect();
            if g.chance(2) {
                c.versions = (0..n).map(|_| g.pick(&vs)).collect();
            }
            let mut h = hello(g, &c);
            if g.chance(2) {
                let n = 1 + g.usize(4);
                h.supported_versions = (0..n).map(|_| g.pick(&vs)).collect();
            }
            h.max_frame_size = h.max_frame_size.max(200);
            session(g, Focus::Terms, &c, &[fr(&Frame::HaproxyHello(h))], End::Silent)
        }),
    ];
    #[cfg(feature = "hook")]
    v.push(Phase::rand("terms", |g, _| {
        use haproxy_spoa::verif::negotiate as real;
        let mut c = conf(g, 1000);
        let size = g.u32();
        c.size = size as usize;
        let h = g.hello();
        if g.chance(2) {
            let x = g.pick(&h.supported_versions);
            c.versions.push(x);
        }
        c.caps = g.caps();
        g.note(format!("{c:?}{h:?}").as_bytes());
        let want = negotiate(&c, &h);
        let got = real(c.versions.clone(), size, c.caps.clone(), h.clone());
        let got = match got {
            Ok(n) => {
                let h: AgentHello = n.agent_hello();
                let mut caps: Vec<u8> = h.capabilities.iter().map(|c| *c as u8).collect();
                caps.sort();
                check!(
                    n.supports_fragmentation() == caps.contains(&(Capability::Fragmentation as u8))
                        && n.supports_async() == caps.contains(&(Capability::Async as u8))
                        && n.supports_pipelining() == caps.contains(&(Capability::Pipelining as u8)),
                    "the supported capabilities of {n:?}"
                );
                Ok((h.version, h.max_frame_size, caps))
            }
            Err(e) => Err(code_of(&e)),
        };
        let want = want.ok_or(5);
        g.describe(|| format!("{:?} {size} {:?} with {h:?}", c.versions, c.caps));
        check!(got == want, "negotiating {:?} {size} {:?} with {h:?} gave {got:?} instead of {want:?}", c.versions, c.caps);
        Ok(())
    }));
    #[cfg(feature = "hook")]
    v.push(Phase::some("sizes above 32 bits", 40, |g, i| {
        // through the state, a connection would allocate that much
        use haproxy_spoa::verif::AsyncHandler;
        let size = (1usize << 32) + (i as usize) * 97 - 5;
        let c = plain_conf(&[], size);
        let log = Arc::new(Mutex::new(Log::default()));
        let h = HaproxyHello {
            supported_versions: vec![Version::new(2, 0)],
            max_frame_size: if i % 2 == 0 { u32::MAX } else { g.u32() },
            capabilities: vec![],
            healthcheck: None,
            engine_id: None,
        };
        g.note(&i.to_le_bytes());
        let want = (h.max_frame_size as u64).min(size as u64) as u32;
        let st = haproxy_spoa::State::new(runtime(&c, &log));
        let r = crate::p_stream::drive(st.handle_frame(Frame::HaproxyHello(h))).ok_or("blocked")?;
        match r {
            Ok((_, Some(Frame::AgentHello(a)))) if a.max_frame_size == want => Ok(()),
            Ok((_, f)) => Err(format!("configured size {size}: answered {f:?}, expected size {want}")),
            Err(e) => Err(format!("configured size {size}: {e}")),
        }
    }));
    v
}

pub fn c19(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every kind of first frame", 6 * 40, |g, i| {
            let c = plain_conf(&CAPS, 400_000);
            let mut f = g.frame_of(i % 6);
            if let Frame::HaproxyHello(h) = &mut f {
                h.supported_versions.push(Version::new(2, 0));
                h.max_frame_size = h.max_frame_size.max(300);
            }
            let items = [fr(&f), fr(&Frame::notify(1, 1, g.small_messages())), plain_hello(&CAPS, 1000, None)];
            session(g, Focus::First, &c, &items[..1 + (i as usize / 6) % 3], End::Silent)
        }),
        Phase::all("health checks", 60, |g, i| {
            let c = conf(g, 1000);
            let mut h = hello(g, &c);
            h.healthcheck = [Some(true), Some(false), None][i as usize % 3];
            let items = [fr(&Frame::HaproxyHello(h)), fr(&Frame::notify(1, 1, g.small_messages()))];
            let end = pick_end(g);
            session(g, Focus::First, &c, &items[..1 + (i as usize / 3) % 2], end)
        }),
        Phase::all("a second HELLO", 60, |g, i| {
            let c = conf(g, 1000);
            let (h1, h2) = (hello(g, &c), hello(g, &c));
            let mut items = vec![fr(&Frame::HaproxyHello(h1))];
            if i % 2 == 0 {
                items.push(fr(&Frame::notify(1, 1, g.small_messages())));
            }
            items.push(fr(&Frame::HaproxyHello(h2)));
            items.push(fr(&Frame::notify(1, 1, g.small_messages())));
            session(g, Focus::First, &c, &items, End::Silent)
        }),
        Phase::rand("connections", |g, _| random_session(g, Focus::First, 4)),
    ]
}

pub fn c20(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("connections without trouble", |g, _| random_session(g, Focus::Acks, 1000)),
        Phase::rand("connections", |g, _| random_session(g, Focus::Acks, 6)),
        Phase::rand("fragments", |g, _| {
            let mut c = conf(g, 1000);
            let with = !g.chance(4);
            c.caps = if with { CAPS.to_vec() } else { vec![] };
            let mut items = vec![];
            let mut h = hello(g, &c);
            h.supported_versions.push(c.versions[0]);
            h.capabilities = CAPS.to_vec();
            h.healthcheck = None;
            items.push(fr(&Frame::HaproxyHello(h)));
            let ids = [(g.id(), g.nonzero_id()), (g.id(), g.nonzero_id())];
            let ids = [ids[0], ids[1], (ids[0].0, ids[1].1)];
            for k in 0..g.usize(14) {
                let (s, f) = ids[g.usize(3)];
                items.push(fr(&Frame::HaproxyNotify(HaproxyNotify {
                    fragmented: g.chance(2) && (with || k > 2),
                    stream_id: s,
                    frame_id: f,
                    messages: g.small_messages(),
                })));
            }
            session(g, Focus::Acks, &c, &items, End::Silent)
        }),
    ]
}

pub fn c21(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("connections with trouble", |g, _| random_session(g, Focus::Errors, 2)),
        Phase::rand("connections", |g, _| random_session(g, Focus::Errors, 8)),
        Phase::all("every kind of trouble after some frames", 10 * 8 * 3, |g, i| {
            let mut c = plain_conf(&[], 5000);
            let mut items = vec![plain_hello(&CAPS, 5000, None)];
            let before = (i / 10 % 3) as usize;
            for k in 0..before as u64 {
                items.push(fr(&Frame::notify(k, k + 1, g.small_messages())));
            }
            let ok = Answer { result: Ok(vec![]), delay: 0, ready_after: 0, ready_delay: 0, ready_err: false };
            c.answers = vec![ok.clone(); before];
            let mut last = ok;
            let n = fr(&Frame::notify(9, 9, g.small_messages()));
            match i % 10 {
                0 => {
                    last.result = Err("broken".into());
                    items.push(n)
                }
                1 => {
                    last.delay = 1001 + g.below(500);
                    items.push(n)
                }
                2 => {
                    last.ready_delay = 1001 + g.below(500);
                    items.push(n)
                }
                3 => {
                    last.ready_err = true;
                    items.push(n)
                }
                4 => {
                    last.delay = 999;
                    items.push(n)
                }
                5 => items.push(Item::Len(5001)),
                6 => items.push(Item::Frame(vec![3, 0, 0, 0, 1, 1, 1, 9])),
                7 => items.push(fr(&Frame::HaproxyNotify(HaproxyNotify { fragmented: true, stream_id: 1, frame_id: 2, messages: vec![] }))),
                8 => {
                    last.result = Ok(vec![Action::unset_var(haproxy_spop::Scope::Process, "x".repeat(6000))]);
                    items.push(n)
                }
                _ => items.push(fr(&Frame::HaproxyDisconnect(Disconnect { status_code: i as u32, message: "m".into() }))),
            }
            c.answers.push(last);
            if i % 10 != 5 {
                items.push(fr(&Frame::notify(5, 5, g.small_messages())));
            }
            let end = pick_end(g);
            session(g, Focus::Errors, &c, &items, end)
        }),
        Phase::rand("streams that break", |g, _| {
            // cut inside a frame
            let c = conf(g, 1000);
            let items = script(g, &c, 1000);
            let end = g.pick(&[End::Eof, End::Error]);
            let k = g.usize(items.len());
            let mut items = items[..=k].to_vec();
            if let Some(Item::Frame(b)) = items.last() {
                let n = b.len() as u32;
                items.pop();
                items.push(Item::Len(n.min(200)));
            }
            session(g, Focus::Errors, &c, &items, end)
        }),
        Phase::rand("an agent shutting down", |g, _| cancelled(g)),
    ]
}

/// A cancelled connection ends without a word.
fn cancelled(g: &mut G) -> Res {
    let c = conf(g, 1000);
    let h = hello(g, &c);
    let Some(_) = negotiate(&c, &h) else {
        g.trivial = true;
        return Ok(());
    };
    let with = g.chance(2);
    let health = h.healthcheck == Some(true);
    let input = if with { spec::on_stream(&spec::enc_frame(&Frame::HaproxyHello(h))) } else { vec![] };
    g.note(&input);
    g.describe(|| format!("cancelled after {} bytes", input.len()));
    let io = ScriptIo::random(g, input, End::Silent);
    let sh = io.sh.clone();
    let log = Arc::new(Mutex::new(Log::default()));
    let rt = runtime(&c, &log);
    let tok = CancellationToken::new();
    let ex = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = ex.block_on(async {
        let t = tok.clone();
        let mut conn = Connection::new(rt, io, tok.clone());
        let serve = async { tokio::time::timeout(Duration::from_secs(9_000_000), conn.serve()).await };
        let cancel = async {
            tokio::time::sleep(Duration::from_secs(1000)).await;
            t.cancel();
        };
        tokio::join!(serve, cancel).0
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("a cancelled connection failed: {e}")),
        Err(_) => return Err("a cancelled connection goes on".into()),
    }
    let n = frames(&sh.lock().unwrap().output)?.len();
    check!(n == with as usize, "{n} frames written before the cancellation");
    let _ = health;
    Ok(())
}

// ------------------------------------------------------------ status codes

const CODES: [(Error, u32); 15] = [
    (Error::Normal, 0),
    (Error::Io, 1),
    (Error::Timeout, 2),
    (Error::TooBig, 3),
    (Error::Invalid, 4),
    (Error::NoVersion, 5),
    (Error::NoFrameSize, 6),
    (Error::NoCapabilities, 7),
    (Error::BadVersion, 8),
    (Error::BadFrameSize, 9),
    (Error::FragmentNotSupported, 10),
    (Error::InterlacedFrames, 11),
    (Error::FrameIdNotFound, 12),
    (Error::ResourceAllocErr, 13),
    (Error::Unknown, 99),
];

fn code(g: &mut G, n: u32) -> Res {
    g.note(&n.to_le_bytes());
    g.describe(|| format!("code {n}"));
    let want = CODES.iter().find(|c| c.1 == n).map(|c| c.0);
    let got = Error::try_from(n).ok();
    check!(got == want, "the code {n} is {got:?} instead of {want:?}");
    if let Some(e) = got {
        check!(e as u32 == n, "{e:?} has the code {}", e as u32);
        check!(u32::from(e) == n, "{e:?} converts to {}", u32::from(e));
        check!(Disconnect::new(e, "x").status_code == n, "DISCONNECT of {e:?}");
    }
    Ok(())
}

fn plain_error(k: u64) -> (AgentError, Option<Error>) {
    match k {
        0..=14 => (AgentError::Status(CODES[k as usize].0), Some(CODES[k as usize].0)),
        15 => (AgentError::Closed, None),
        16 => (AgentError::Io(std::io::ErrorKind::Other.into()), None),
        17 => (AgentError::Utf8(std::str::from_utf8(&[0xff, 0xfe][..]).unwrap_err()), None),
        _ => (AgentError::InvalidHeaderName(http::HeaderName::from_bytes(b"a b").unwrap_err()), None),
    }
}

type Boxed = Box<dyn std::error::Error + Send + Sync>;

fn wrapped(g: &mut G, k: u64, depth: usize) -> Res {
    g.note(&k.to_le_bytes());
    g.note(&depth.to_le_bytes());
    // the innermost source is a status itself, or an error that holds one
    let (mut e, want): (AgentError, Option<Error>) = if depth > 0 && k < 15 && g.chance(2) {
        (
            AgentError::Context { source: Box::new(CODES[k as usize].0), context: Box::new("inner") },
            Some(CODES[k as usize].0),
        )
    } else if depth > 0 && k == 19 {
        let b: Boxed = Box::new(std::fmt::Error);
        (AgentError::Context { source: b, context: Box::new("inner") }, None)
    } else {
        plain_error(k)
    };
    let mut top = "inner".to_string();
    for i in 0..depth {
        if i == 0 && matches!(e, AgentError::Context { .. }) {
            continue;
        }
        top = format!("context {i}");
        e = AgentError::Context { source: Box::new(e), context: Box::new(top.clone()) };
    }
    let s = e.status();
    g.describe(|| format!("{depth} contexts around {want:?}"));
    check!(s == want, "{depth} contexts around {want:?}: the status is {s:?}");
    let wrapped = matches!(e, AgentError::Context { .. });
    let d: Disconnect = e.into();
    let wc = want.map_or(99, |e| e as u32);
    check!(d.status_code == wc, "{depth} contexts around {want:?}: DISCONNECT with code {} instead of {wc}", d.status_code);
    if wrapped && want.is_some() {
        check!(d.message == top, "the message is {:?} instead of the context {top:?}", d.message);
    }
    check!(!d.message.is_empty() || wc == 0, "an empty message");
    Ok(())
}

pub fn c22(thorough: bool) -> Vec<Phase> {
    #[allow(unused_mut)]
    let mut v = vec![
        Phase::all("every code below 2^16", 65536, |g, i| code(g, i as u32)),
        Phase::all("codes around every power of two", 32 * 16, |g, i| {
            code(g, (1u32 << (i / 16)).wrapping_add(i as u32 % 16).wrapping_sub(8))
        }),
        Phase::all("every error in up to 20 contexts", 20 * 21 * 2, |g, i| wrapped(g, i % 20, (i / 20 % 21) as usize)),
        Phase::rand("codes", |g, _| {
            let n = g.u32();
            code(g, n)
        }),
    ];
    if thorough {
        v.push(Phase::all("every code", 1 << 32, |g, i| code(g, i as u32)));
    }
    #[cfg(feature = "hook")]
    v.push(Phase::all("context on a result", 15 * 4, |g, i| {
        use haproxy_spoa::verif::Context;
        let (s, n) = CODES[(i / 4) as usize];
        g.note(&i.to_le_bytes());
        let r: Result<u32, Error> = Ok(7);
        let ok = r.context("c").map_err(|_: AgentError| Error::Unknown);
        check!(ok == Ok(7), "context on Ok");
        let e: Result<(), Error> = Err(s);
        let e = match i % 4 {
            0 => e.context("c"),
            1 => e.context(String::from("c")),
            2 => e.with_context(|| "c"),
            _ => e.context("b").context("c"),
        };
        let e = e.err().ok_or("context on Err gave Ok")?;
        check!(e.status() == Some(s), "context on {s:?}: {:?}", e.status());
        let d: Disconnect = e.into();
        check!(d.status_code == n && d.message == "c", "context on {s:?}: {d:?}");
        Ok(())
    }));
    v
}
