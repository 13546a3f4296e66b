//! Histories: C17, C23, C24, C26, C27, C28.

use crate::p_wire::short;
use crate::{gen::*, Phase};
use futures::{FutureExt, Stream, StreamExt};
use haproxy_spoa::runtime::{Acker, Builder, Dispatcher, Processor};
use haproxy_spop::{
    Action, AgentAck, AsyncHandler, Capability, Disconnect, Error, Frame, HaproxyNotify, Message,
    Reassembly, Typed, Version,
};
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::oneshot;

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
type Res = Result<(), String>;

/// Few ids that are easy to mix up.
fn ids(g: &mut G) -> Vec<(u64, u64)> {
    let a = g.id();
    let b = if g.chance(2) { a.wrapping_add(1) } else { g.id() };
    let c = if g.chance(2) { a ^ (1 << 32) } else { a.wrapping_add(240) };
    vec![(a, b), (b, a), (a, a), (b, b), (c, b), (a, c), (0, 1), (1, 0)]
}

fn msg(n: u64) -> Message {
    Message {
        name: format!("m{n}"),
        args: vec![("n".into(), Typed::Uint64(n))],
    }
}

// ------------------------------------------------------------ reassembly

fn reassembly(g: &mut G, how: u64) -> Res {
    let ids = ids(g);
    let nk = 1 + g.usize(ids.len());
    let tbl: Reassembly<Message> = Reassembly::default();
    let other = tbl.clone();
    let mut model: HashMap<(u64, u64), Vec<Message>> = HashMap::new();
    let mut cloned: Option<(Reassembly<Message>, HashMap<(u64, u64), Vec<Message>>)> = None;
    let mut next = 0;
    let steps = 1 + g.usize(24);
    let mut log = String::new();
    let pfinal = 1 + g.below(4);
    let mut h = tbl.clone();
    let mut tables = [tbl, other];
    let _ = &mut cloned;
    for step in 0..steps {
        let key = ids[g.usize(nk)];
        let fragmented = !g.chance(pfinal + 1);
        let n = g.pick(&[0, 1, 1, 2, 3]);
        let ms: Vec<Message> = (0..n)
            .map(|_| {
                next += 1;
                msg(next)
            })
            .collect();
        log.push_str(&format!("{key:?}{}{n} ", if fragmented { "+" } else { "!" }));
        g.note(&key.0.to_le_bytes());
        g.note(&key.1.to_le_bytes());
        g.note(&[fragmented as u8, n as u8]);
        let got = match how {
            0 => tables[0].reassemble(fragmented, key.0, key.1, ms.clone()),
            _ => h
                .handle_frame(Frame::HaproxyNotify(HaproxyNotify {
                    fragmented,
                    stream_id: key.0,
                    frame_id: key.1,
                    messages: ms.clone(),
                }))
                .now_or_never()
                .ok_or("reassembly blocked")?,
        };
        let want = if fragmented {
            model.entry(key).or_default().extend(ms);
            None
        } else {
            let mut v = model.remove(&key).unwrap_or_default();
            v.extend(ms);
            Some(v)
        };
        check!(
            got == Ok(want.clone()),
            "step {step} of {log}: {} instead of {}",
            short(&format!("{got:?}")),
            short(&format!("{want:?}"))
        );
    }
    // everything still pending is what the model says
    for (key, v) in model {
        let t = if how == 0 { &mut tables[0] } else { &mut h };
        let got = t.reassemble(false, key.0, key.1, vec![]);
        check!(
            got == Ok(Some(v.clone())),
            "after {log}: {key:?} holds {} instead of {}",
            short(&format!("{got:?}")),
            short(&format!("{v:?}"))
        );
    }
    g.describe(|| format!("fragments {log}"));
    Ok(())
}

fn reassembly_bulk(g: &mut G) -> Res {
    let t: Reassembly<u64> = Reassembly::default();
    let n = 1 + g.usize(600);
    g.note(&n.to_le_bytes());
    g.describe(|| format!("{n} fragments each for three pairs"));
    let keys = [(1, 2), (2, 1), (1, 1)];
    for i in 0..n as u64 {
        for (k, key) in keys.iter().enumerate() {
            let r = t.reassemble(true, key.0, key.1, vec![i * 3 + k as u64; (i % 3) as usize]);
            check!(r == Ok(None), "fragment {i} gave {r:?}");
        }
    }
    for (k, key) in keys.iter().enumerate() {
        let want: Vec<u64> = (0..n as u64)
            .flat_map(|i| vec![i * 3 + k as u64; (i % 3) as usize])
            .chain([7])
            .collect();
        let r = t.reassemble(false, key.0, key.1, vec![7]);
        check!(r == Ok(Some(want)), "the last fragment after {n} gave {}", short(&format!("{r:?}")));
        let r = t.reassemble(false, key.0, key.1, vec![8]);
        check!(r == Ok(Some(vec![8])), "a completed pair gave {r:?}");
    }
    Ok(())
}

pub fn c17(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("fragments", |g, _| reassembly(g, 0)),
        Phase::rand("fragments as frames", |g, _| reassembly(g, 1)),
        Phase::some("many fragments", 40, |g, _| reassembly_bulk(g)),
    ]
}

// ------------------------------------------------------------------ acker

fn acker(g: &mut G) -> Res {
    let (s, f) = (g.id(), g.id());
    let (mut a, rx) = Acker::new(s, f);
    let mut rx: Option<oneshot::Receiver<AgentAck>> = Some(rx);
    let mut want = AgentAck { fragmented: false, aborted: false, stream_id: s, frame_id: f, actions: vec![] };
    let mut sent: Option<Option<AgentAck>> = None; // Some(None): nobody was waiting
    let mut log = String::new();
    let steps = g.usize(10);
    let mut got: Option<AgentAck> = None;
    for i in 0..steps {
        match g.below(9) {
            0 | 1 | 2 => {
                let (scope, name, value) = (g.scope(), g.name(), g.small_typed());
                log.push_str("set ");
                a.set_var(scope, name.as_str(), value.clone());
                want.actions.push(Action::SetVar { scope, name, value });
            }
            3 | 4 => {
                let (scope, name) = (g.scope(), g.name());
                log.push_str("unset ");
                a.unset_var(scope, name.as_str());
                want.actions.push(Action::UnsetVar { scope, name });
            }
            5 if g.chance(2) => {
                log.push_str("drop-receiver ");
                rx = None;
            }
            k @ (6 | 7) => {
                let abort = k == 7;
                log.push_str(if abort { "abort " } else { "complete " });
                let r = if abort { a.abort() } else { a.complete() };
                let ok = sent.is_none() && rx.is_some();
                check!(
                    matches!((&r, ok), (Ok(()), true) | (Err(haproxy_spoa::Error::Closed), false)),
                    "step {i} of {log}: {r:?}, should be {}",
                    if ok { "Ok" } else { "closed" }
                );
                if sent.is_none() {
                    want.aborted = abort;
                    sent = Some(rx.is_some().then(|| want.clone()));
                }
            }
            _ => {
                log.push_str("look ");
                if let Some(r) = rx.as_mut() {
                    if got.is_none() {
                        match (r.try_recv(), &sent) {
                            (Ok(x), Some(Some(w))) if x == *w => got = Some(x),
                            (Err(oneshot::error::TryRecvError::Empty), None) => {}
                            (x, w) => return Err(format!("step {i} of {log}: received {x:?}, expected {w:?}")),
                        }
                    }
                }
            }
        }
    }
    drop(a);
    log.push_str("drop");
    if sent.is_none() {
        want.aborted = false;
        sent = Some(rx.is_some().then(|| want.clone()));
    }
    g.note(log.as_bytes());
    g.note(&s.to_le_bytes());
    g.describe(|| log.clone());
    if let (Some(mut r), None) = (rx, &got) {
        let x = r.try_recv().ok();
        check!(x == sent.clone().unwrap(), "after {log}: received {x:?}, expected {sent:?}");
        check!(r.try_recv().is_err(), "after {log}: a second ACK");
    }
    Ok(())
}

pub fn c23(_: bool) -> Vec<Phase> {
    vec![Phase::rand("operations", |g, _| acker(g))]
}

// ------------------------------------------------------------- dispatcher

fn dispatcher(g: &mut G) -> Res {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let ids = ids(g);
    let nk = 1 + g.usize(ids.len());
    let mut open: HashMap<(u64, u64), usize> = HashMap::new();
    // what each receiver must get; whether its handle was seen
    let mut expect: Vec<((u64, u64), Vec<Message>)> = vec![];
    let mut acks: BTreeMap<usize, oneshot::Receiver<AgentAck>> = BTreeMap::new();
    let mut dead: Vec<bool> = vec![];
    let mut handles: Vec<(Acker, Pin<Box<dyn Stream<Item = Message>>>)> = vec![];
    let mut got: Vec<Vec<Message>> = vec![];
    let mut log = String::new();
    let mut next = 0;
    for step in 0..1 + g.usize(20) {
        let key = ids[g.usize(nk)];
        let fragmented = g.chance(2);
        let n = g.pick(&[0, 1, 1, 2, 3]);
        let ms: Vec<Message> = (0..n)
            .map(|_| {
                next += 1;
                msg(next)
            })
            .collect();
        log.push_str(&format!("{key:?}{}{n} ", if fragmented { "+" } else { "!" }));
        g.note(&key.0.to_le_bytes());
        g.note(&key.1.to_le_bytes());
        g.note(&[fragmented as u8, n as u8]);
        let r = d.recieve_messages(HaproxyNotify {
            fragmented,
            stream_id: key.0,
            frame_id: key.1,
            messages: ms.clone(),
        });
        let r = match r {
            Ok(r) => r,
            Err(e) => return Err(format!("step {step} of {log}: {e}")),
        };
        let (k, first) = match open.get(&key) {
            Some(k) => (*k, false),
            None => {
                expect.push((key, vec![]));
                dead.push(false);
                got.push(vec![]);
                (expect.len() - 1, true)
            }
        };
        check!(r.is_some() == first, "step {step} of {log}: pending ACK returned: {}", r.is_some());
        if let Some(r) = r {
            acks.insert(k, r);
        }
        expect[k].1.extend(ms);
        if fragmented {
            open.insert(key, k);
        } else {
            open.remove(&key);
        }
        // take new handles now or later
        if g.chance(2) {
            while let Some(Some((a, m))) = p.next().now_or_never() {
                handles.push((a, Box::pin(m)));
            }
        }
        if g.chance(3) && !handles.is_empty() {
            let i = g.usize(handles.len());
            while let Some(Some(m)) = handles[i].1.next().now_or_never() {
                got[i].push(m);
            }
        }
    }
    while let Some(x) = p.next().now_or_never() {
        match x {
            Some((a, m)) => handles.push((a, Box::pin(m))),
            None => return Err("the processor ended while the dispatcher is there".into()),
        }
    }
    check!(handles.len() == expect.len(), "{log}: {} receivers opened instead of {}", handles.len(), expect.len());
    let n = handles.len();
    for (i, (mut a, mut m)) in handles.into_iter().enumerate() {
        let mut ended = false;
        while let Some(x) = m.next().now_or_never() {
            match x {
                Some(x) => got[i].push(x),
                None => {
                    ended = true;
                    break;
                }
            }
        }
        let (key, want) = &expect[i];
        check!(
            got[i] == *want,
            "{log}: receiver {i} of {n} got {} instead of {}",
            short(&format!("{:?}", got[i])),
            short(&format!("{want:?}"))
        );
        let is_open = open.get(key) == Some(&i);
        check!(ended == !is_open, "{log}: receiver {i} ended: {ended}, open: {is_open}");
        let r = a.complete();
        check!(r.is_ok(), "{log}: the ACK of receiver {i} was not awaited");
        let x = acks.get_mut(&i).unwrap().try_recv().ok();
        check!(
            x == Some(AgentAck::new(key.0, key.1)),
            "{log}: the pending ACK of receiver {i} is {x:?}"
        );
    }
    g.describe(|| log.clone());
    Ok(())
}

fn dispatcher_faults(g: &mut G) -> Res {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let (s, f) = (g.id(), g.id());
    g.note(&s.to_le_bytes());
    g.note(&f.to_le_bytes());
    let mk = |fragmented, n| HaproxyNotify { fragmented, stream_id: s, frame_id: f, messages: vec![msg(n)] };
    if g.chance(3) {
        g.describe(|| "nobody processes".into());
        drop(rx);
        let fr = g.chance(2);
        check!(d.recieve_messages(mk(fr, 1)).is_err(), "a NOTIFY nobody can process is accepted");
        return Ok(());
    }
    // the reader of a frame goes away in the middle: the rest is dropped, the next frame is new
    g.describe(|| "a reader goes away".into());
    let mut p = Processor(rx);
    let r = d.recieve_messages(mk(true, 1));
    check!(matches!(r, Ok(Some(_))), "first fragment");
    let (a, m) = p.next().now_or_never().flatten().ok_or("nothing to process")?;
    drop(m);
    drop(a);
    let r = d.recieve_messages(mk(true, 2));
    check!(matches!(r, Ok(None)), "a fragment for a reader that left gave {:?}", r.is_ok());
    let r = d.recieve_messages(mk(false, 3));
    check!(matches!(r, Ok(None)), "the last fragment for a reader that left gave {:?}", r.is_ok());
    let r = d.recieve_messages(mk(false, 4));
    check!(matches!(r, Ok(Some(_))), "the next frame");
    let (_a, mut m) = p.next().now_or_never().flatten().ok_or("the next frame is not processed")?;
    let x: Vec<Message> = (&mut m).collect::<Vec<_>>().now_or_never().ok_or("not ended")?;
    check!(x == [msg(4)], "the next frame got {x:?}");
    Ok(())
}

pub fn c24(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("fragments", |g, _| dispatcher(g)),
        Phase::rand("faults", |g, _| dispatcher_faults(g)),
    ]
}

// ---------------------------------------------------------------- streams

struct Count(AtomicUsize);
impl std::task::Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Drive a stream against a model of what was sent. `send` sends item `n`.
fn stream<T, S: Stream + Unpin>(
    g: &mut G,
    mut st: S,
    tx: Vec<tokio::sync::mpsc::UnboundedSender<T>>,
    mut mk: impl FnMut(u64) -> T,
    mut id: impl FnMut(&mut S::Item) -> u64,
) -> Res {
    let mut txs: Vec<_> = tx.into_iter().map(Some).collect();
    let mut queue = std::collections::VecDeque::new();
    let mut next = 0;
    let mut log = String::new();
    let mut waiting: Option<Arc<Count>> = None;
    for _ in 0..2 + g.usize(20) {
        let open = txs.iter().filter(|t| t.is_some()).count();
        match g.below(5) {
            0 | 1 if open > 0 => {
                let i = g.usize(txs.len());
                if let Some(t) = &txs[i] {
                    next += 1;
                    log.push_str("send ");
                    check!(t.send(mk(next)).is_ok(), "{log}: not accepted");
                    queue.push_back(next);
                    if let Some(w) = waiting.take() {
                        check!(w.0.load(Ordering::SeqCst) > 0, "{log}: an item arrived and the waiting task was not woken");
                    }
                }
            }
            2 if g.chance(3) => {
                let i = g.usize(txs.len());
                if txs[i].take().is_some() {
                    log.push_str("close ");
                    if open == 1 {
                        if let Some(w) = waiting.take() {
                            check!(w.0.load(Ordering::SeqCst) > 0, "{log}: the end came and the waiting task was not woken");
                        }
                    }
                }
            }
            _ => {
                log.push_str("poll ");
                let w = Arc::new(Count(AtomicUsize::new(0)));
                let waker = w.clone().into();
                let mut cx = Context::from_waker(&waker);
                let open = txs.iter().filter(|t| t.is_some()).count();
                match (Pin::new(&mut st).poll_next(&mut cx), queue.pop_front()) {
                    (Poll::Ready(Some(mut x)), Some(n)) => {
                        let k = id(&mut x);
                        check!(k == n, "{log}: item {k} instead of {n}");
                    }
                    (Poll::Ready(None), None) if open == 0 => {}
                    (Poll::Pending, None) if open > 0 => waiting = Some(w),
                    (x, n) => {
                        let x = match x {
                            Poll::Pending => "nothing yet",
                            Poll::Ready(None) => "the end",
                            Poll::Ready(Some(_)) => "an item",
                        };
                        return Err(format!("{log}: {x}, with item {n:?} sent and {open} senders open"));
                    }
                }
            }
        }
    }
    g.note(log.as_bytes());
    g.describe(|| log.clone());
    Ok(())
}

fn processor_stream(g: &mut G) -> Res {
    let (tx, rx) = unbounded_channel();
    let mut txs = vec![tx.clone()];
    if g.chance(2) {
        txs.push(tx.clone());
    }
    drop(tx);
    let mut acks = vec![];
    stream(
        g,
        Processor(rx),
        txs,
        |n| {
            let (a, r) = Acker::new(n, n + 1);
            acks.push(r);
            let (mtx, mrx) = unbounded_channel();
            mtx.send(msg(n)).unwrap();
            (a, mrx)
        },
        |(_, m)| match m.next().now_or_never() {
            Some(Some(m)) => m.name[1..].parse().unwrap(),
            _ => u64::MAX,
        },
    )
}

fn messages_stream(g: &mut G) -> Res {
    let (ptx, prx) = unbounded_channel();
    let (tx, rx) = unbounded_channel::<Message>();
    let (a, _r) = Acker::new(1, 2);
    ptx.send((a, rx)).map_err(|_| "send")?;
    let mut p = Processor(prx);
    let (_a, ms) = p.next().now_or_never().flatten().ok_or("no item")?;
    let mut txs = vec![tx.clone()];
    if g.chance(2) {
        txs.push(tx.clone());
    }
    drop(tx);
    stream(g, ms, txs, msg, |m| m.name[1..].parse().unwrap())
}

pub fn c26(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("frames to process", |g, _| processor_stream(g)),
        Phase::rand("messages of a frame", |g, _| messages_stream(g)),
        Phase::rand("poll again with another task", |g, _| {
            let (tx, rx) = unbounded_channel();
            let mut p = Processor(rx);
            let (w1, w2) = (Arc::new(Count(AtomicUsize::new(0))), Arc::new(Count(AtomicUsize::new(0))));
            for w in [&w1, &w2] {
                let waker = w.clone().into();
                let r = Pin::new(&mut p).poll_next(&mut Context::from_waker(&waker));
                check!(r.is_pending(), "an empty stream gave something");
            }
            let closing = g.chance(2);
            g.note(&[closing as u8]);
            if closing {
                drop(tx);
            } else {
                let (a, _r) = Acker::new(1, 1);
                let (_t, m) = unbounded_channel();
                let _ = tx.send((a, m));
            }
            check!(w2.0.load(Ordering::SeqCst) > 0, "the last task that polled was not woken");
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- runtime

type Svc = tower::util::BoxCloneService<Vec<Message>, Vec<Action>, String>;

fn builder(g: &mut G) -> Res {
    let mut b = Builder::new();
    let (mut vs, mut cs): (Vec<Version>, Vec<Capability>) = (vec![], vec![]);
    let (mut size, mut time) = (16384usize, Duration::from_secs(15));
    let mut log = String::new();
    for _ in 0..g.usize(10) {
        match g.below(8) {
            0 | 1 => {
                let v = g.version();
                log.push_str(&format!("version {v} "));
                vs.push(v);
                b = b.version(v);
            }
            2 => {
                log.push_str("fragmentation ");
                cs.push(Capability::Fragmentation);
                b = b.fragmentation();
            }
            3 => {
                log.push_str("pipelining ");
                cs.push(Capability::Pipelining);
                b = b.pipelining();
            }
            4 => {
                log.push_str("async ");
                cs.push(Capability::Async);
                b = b.asynchronous();
            }
            5 => {
                let c = g.caps();
                log.push_str(&format!("{c:?} "));
                if c.len() == 1 {
                    b = b.capability(c[0]);
                } else {
                    b = b.capabilities(c.clone());
                }
                cs.extend(c);
            }
            6 => {
                size = g.u64() as usize;
                log.push_str(&format!("size {size} "));
                b = b.max_frame_size(size);
            }
            _ => {
                time = Duration::from_nanos(g.u64());
                log.push_str(&format!("time {time:?} "));
                b = b.max_process_time(time);
            }
        }
    }
    if vs.is_empty() {
        vs.push(Version::new(2, 0));
    }
    let rt = b.make_service(
        tower::service_fn(|_: ()| async { Err::<Svc, std::io::Error>(std::io::ErrorKind::Other.into()) }),
        (),
    );
    g.note(log.as_bytes());
    g.describe(|| log.clone());
    let key = |v: &Version| (v.major, v.minor);
    let mut x: Vec<_> = rt.supported_versions.iter().map(key).collect();
    let mut y: Vec<_> = vs.iter().map(key).collect();
    x.sort();
    y.sort();
    y.dedup();
    check!(x == y, "{log}: versions {x:?} instead of {y:?}");
    let mut x: Vec<u8> = rt.capabilities.iter().map(|c| *c as u8).collect();
    let mut y: Vec<u8> = cs.iter().map(|c| *c as u8).collect();
    x.sort();
    y.sort();
    y.dedup();
    check!(x == y, "{log}: capabilities {x:?} instead of {y:?}");
    check!(rt.max_frame_size == size, "{log}: size {} instead of {size}", rt.max_frame_size);
    check!(rt.max_process_time == time, "{log}: time {:?} instead of {time:?}", rt.max_process_time);
    Ok(())
}

pub fn c27(_: bool) -> Vec<Phase> {
    let mut v = vec![Phase::rand("builder calls", |g, _| builder(g))];
    v.extend(crate::p_sess::c27_session());
    v
}

// --------------------------------------------------------------- handlers

fn status_or_unknown(code: u32) -> Error {
    match code {
        0 => Error::Normal,
        1 => Error::Io,
        2 => Error::Timeout,
        3 => Error::TooBig,
        4 => Error::Invalid,
        5 => Error::NoVersion,
        6 => Error::NoFrameSize,
        7 => Error::NoCapabilities,
        8 => Error::BadVersion,
        9 => Error::BadFrameSize,
        10 => Error::FragmentNotSupported,
        11 => Error::InterlacedFrames,
        12 => Error::FrameIdNotFound,
        13 => Error::ResourceAllocErr,
        _ => Error::Unknown,
    }
}

fn any_frame(g: &mut G) -> Frame {
    if g.chance(20) {
        return Frame::Unset;
    }
    match g.below(3) {
        0 => {
            let d = Disconnect {
                status_code: if g.chance(2) { g.below(102) as u32 } else { g.u32() },
                message: g.name(),
            };
            if g.chance(2) {
                Frame::HaproxyDisconnect(d)
            } else {
                Frame::AgentDisconnect(d)
            }
        }
        _ => g.small_frame(),
    }
}

fn reassembling(g: &mut G) -> Res {
    let ids = ids(g);
    let mut nm: Reassembly<Message> = Reassembly::default();
    let mut am: Reassembly<Action> = Reassembly::default();
    let mut mm: HashMap<(u64, u64), Vec<Message>> = HashMap::new();
    let mut ma: HashMap<(u64, u64), Vec<Action>> = HashMap::new();
    let mut log = String::new();
    for _ in 0..1 + g.usize(12) {
        let mut f = any_frame(g);
        let key = ids[g.usize(2)];
        match &mut f {
            Frame::HaproxyNotify(n) => (n.stream_id, n.frame_id) = key,
            Frame::AgentAck(a) => (a.stream_id, a.frame_id) = key,
            _ => {}
        }
        g.note(&crate::spec::enc_frame(&f));
        log = short(&format!("{log} {f:?}"));
        let wn = match &f {
            Frame::HaproxyNotify(n) => {
                let e = mm.entry(key).or_default();
                e.extend(n.messages.clone());
                Ok(if n.fragmented { None } else { mm.remove(&key) })
            }
            Frame::HaproxyDisconnect(_) => Err(Error::Normal),
            _ => Err(Error::Invalid),
        };
        let gn = nm.handle_frame(f.clone()).now_or_never().ok_or("blocked")?;
        check!(gn == wn, "NOTIFY reassembly after {log}: {} instead of {}", short(&format!("{gn:?}")), short(&format!("{wn:?}")));
        let wa = match &f {
            Frame::AgentAck(n) => {
                let e = ma.entry(key).or_default();
                e.extend(n.actions.clone());
                Ok(if n.fragmented { None } else { ma.remove(&key) })
            }
            Frame::AgentDisconnect(_) => Err(Error::Normal),
            _ => Err(Error::Invalid),
        };
        let ga = am.handle_frame(f).now_or_never().ok_or("blocked")?;
        check!(ga == wa, "ACK reassembly after {log}: {} instead of {}", short(&format!("{ga:?}")), short(&format!("{wa:?}")));
    }
    g.describe(|| log.clone());
    Ok(())
}

#[cfg(feature = "hook")]
fn handlers(g: &mut G, f: Frame) -> Res {
    use haproxy_spop::verif::{ack_handler, notify_handler};
    use tower::{MakeService, Service, ServiceExt};
    g.note(&crate::spec::enc_frame(&f));
    g.describe(|| short(&format!("handle {f:?}")));
    let wn: Result<Option<Vec<Message>>, Error> = match &f {
        Frame::HaproxyNotify(n) => Ok(Some(n.messages.clone())),
        Frame::HaproxyDisconnect(d) => Err(status_or_unknown(d.status_code)),
        _ => Err(Error::Invalid),
    };
    let wa: Result<Option<Vec<Action>>, Error> = match &f {
        Frame::AgentAck(n) => Ok(Some(n.actions.clone())),
        Frame::AgentDisconnect(d) => Err(status_or_unknown(d.status_code)),
        _ => Err(Error::Invalid),
    };
    let f2 = f.clone();
    let gn = async {
        let mut m = notify_handler();
        let mut s = m.make_service(()).await.unwrap();
        s.ready().await?;
        s.call(f).await
    }
    .now_or_never()
    .ok_or("blocked")?;
    check!(gn == wn, "the NOTIFY handler gave {} instead of {}", short(&format!("{gn:?}")), short(&format!("{wn:?}")));
    let ga = async {
        let mut m = ack_handler();
        let mut s = m.make_service(()).await.unwrap();
        s.ready().await?;
        s.call(f2).await
    }
    .now_or_never()
    .ok_or("blocked")?;
    check!(ga == wa, "the ACK handler gave {} instead of {}", short(&format!("{ga:?}")), short(&format!("{wa:?}")));
    Ok(())
}

pub fn c28(_: bool) -> Vec<Phase> {
    #[allow(unused_mut)]
    let mut v = vec![Phase::rand("reassembling handlers", |g, _| reassembling(g))];
    #[cfg(feature = "hook")]
    {
        v.push(Phase::all("every small status code", 2 * 400, |g, i| {
            let d = Disconnect { status_code: (i / 2) as u32, message: String::new() };
            handlers(g, if i % 2 == 0 { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) })
        }));
        v.push(Phase::rand("frames", |g, _| {
            let f = any_frame(g);
            handlers(g, f)
        }));
    }
    let _ = status_or_unknown;
    v
}
