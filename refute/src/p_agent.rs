//! A whole agent on the loopback network: C31, C33.

use crate::{gen::*, spec, Phase};
use haproxy_spoa::{Agent, Runtime};
use haproxy_spop::{Action, Frame, HaproxyHello, Message, Version};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::time::{sleep, timeout};
use tower::Service;

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
type Res = Result<(), String>;

const AGENT_HELLO: u8 = 101;
const AGENT_ACK: u8 = 103;
/// Long enough for anything that must happen.
const LONG: Duration = Duration::from_secs(20);

#[derive(Default)]
struct Shared {
    /// services that there are
    live: AtomicUsize,
    makes: AtomicUsize,
    calls: AtomicUsize,
    /// the gate that calls named "wait" wait for
    open: AtomicBool,
    gate: tokio::sync::Notify,
    fail_make: AtomicBool,
}

struct Maker(Arc<Shared>);
struct Svc(Arc<Shared>);

impl Drop for Svc {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}

impl Service<u32> for Maker {
    type Response = Svc;
    type Error = std::io::Error;
    type Future = std::future::Ready<Result<Svc, std::io::Error>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u32) -> Self::Future {
        if self.0.fail_make.swap(false, SeqCst) {
            return std::future::ready(Err(std::io::ErrorKind::Other.into()));
        }
        self.0.live.fetch_add(1, SeqCst);
        self.0.makes.fetch_add(1, SeqCst);
        std::future::ready(Ok(Svc(self.0.clone())))
    }
}

#[derive(Debug)]
struct Failed;
impl std::fmt::Display for Failed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for Failed {}

impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = Failed;
    type Future = Pin<Box<dyn Future<Output = Result<Vec<Action>, Failed>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Failed>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        self.0.calls.fetch_add(1, SeqCst);
        let sh = self.0.clone();
        Box::pin(async move {
            match msgs.first().map(|m| m.name.as_str()) {
                Some("wait") => loop {
                    let n = sh.gate.notified();
                    tokio::pin!(n);
                    n.as_mut().enable();
                    if sh.open.load(SeqCst) {
                        break Ok(vec![]);
                    }
                    n.await;
                },
                Some("fail") => Err(Failed),
                Some("panic") => panic!("the service panics"),
                _ => Ok(vec![]),
            }
        })
    }
}

struct Client(TcpStream);
impl Client {
    async fn new(a: SocketAddr) -> Result<Self, String> {
        Ok(Client(TcpStream::connect(a).await.map_err(|e| format!("connect: {e}"))?))
    }
    async fn raw(&mut self, b: &[u8]) {
        let _ = self.0.write_all(b).await;
    }
    async fn send(&mut self, f: &Frame) {
        let b = spec::on_stream(&spec::enc_frame(f));
        self.raw(&b).await;
    }
    async fn hello(&mut self, v: Version) {
        self.send(&Frame::HaproxyHello(HaproxyHello {
            supported_versions: vec![v],
            max_frame_size: 4096,
            capabilities: vec![],
            healthcheck: None,
            engine_id: None,
        }))
        .await;
    }
    async fn notify(&mut self, name: &str) {
        self.send(&Frame::notify(1, 1, vec![Message { name: name.into(), args: vec![] }])).await;
    }
    /// The type of the next frame, if there is one.
    async fn frame(&mut self) -> Option<u8> {
        let n = self.0.read_u32().await.ok()? as usize;
        let mut b = vec![0; n];
        self.0.read_exact(&mut b).await.ok()?;
        b.first().copied()
    }
    async fn want(&mut self, ty: u8, what: &str) -> Res {
        match timeout(LONG, self.frame()).await {
            Ok(Some(t)) if t == ty => Ok(()),
            Ok(o) => Err(format!("{what}: a frame of type {o:?} instead of {ty}")),
            Err(_) => Err(format!("{what}: no answer")),
        }
    }
    async fn shaken(a: SocketAddr, what: &str) -> Result<Self, String> {
        let mut c = Client::new(a).await?;
        c.hello(Version::new(2, 0)).await;
        c.want(AGENT_HELLO, what).await?;
        Ok(c)
    }
    /// A call to the service and its answer.
    async fn works(&mut self, what: &str) -> Res {
        self.notify("quick").await;
        self.want(AGENT_ACK, what).await
    }
}

/// Let everything happen that can.
async fn settle() {
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
    sleep(Duration::from_millis(10)).await;
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
}

fn on_runtime<F: Future<Output = Res>>(f: F) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

fn agent(sh: &Arc<Shared>) -> Result<(Arc<Agent<Maker, u32>>, SocketAddr), String> {
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    l.set_nonblocking(true).unwrap();
    let a = l.local_addr().unwrap();
    let rt = Arc::new(Runtime::new(vec![Version::new(2, 0)], vec![], 4096, Duration::from_secs(60), Maker(sh.clone()), 42u32));
    Ok((Arc::new(Agent::new(rt, l).map_err(|e| format!("{e:?}"))?), a))
}

// ------------------------------------------------------------- shutting down

/// What a call of serve() saw when it returned.
struct Returned {
    opened: bool,
    live: usize,
    ok: bool,
}

fn serving(ag: &Arc<Agent<Maker, u32>>, sh: &Arc<Shared>) -> tokio::task::JoinHandle<Returned> {
    let (ag, sh) = (ag.clone(), sh.clone());
    tokio::spawn(async move {
        let ok = ag.serve().await.is_ok();
        Returned { opened: sh.open.load(SeqCst), live: sh.live.load(SeqCst), ok }
    })
}

fn shutdown(g: &mut G) -> Res {
    let kinds: Vec<u64> = (0..g.usize(5)).map(|_| g.below(4)).collect();
    let servers = 1 + g.usize(2);
    let again = g.chance(2);
    let late = g.chance(2);
    g.note(&[servers as u8, again as u8, late as u8]);
    for k in &kinds {
        g.note(&[*k as u8]);
    }
    let names = ["silent", "idle", "in a call", "gone"];
    let shown: Vec<&str> = kinds.iter().map(|k| names[*k as usize]).collect();
    let ctx = format!("{servers} calls of serve(), connections {shown:?}");
    g.describe(|| format!("{ctx}, then shutdown{}{}", if late { ", a late connection" } else { "" }, if again { ", serve() again" } else { "" }));
    on_runtime(async move {
        let sh = Arc::new(Shared::default());
        let (ag, addr) = agent(&sh)?;
        let mut serves: Vec<_> = (0..servers).map(|_| serving(&ag, &sh)).collect();
        let mut clients = vec![];
        let mut waiting = 0;
        for k in &kinds {
            match k {
                0 => clients.push(Client::new(addr).await?),
                1 => clients.push(Client::shaken(addr, &ctx).await?),
                2 => {
                    let mut c = Client::shaken(addr, &ctx).await?;
                    c.notify("wait").await;
                    waiting += 1;
                    clients.push(c);
                }
                _ => drop(Client::shaken(addr, &ctx).await?),
            }
        }
        for _ in 0..2000 {
            if sh.calls.load(SeqCst) >= waiting {
                break;
            }
            sleep(Duration::from_millis(1)).await;
        }
        settle().await;
        for s in &serves {
            check!(!s.is_finished(), "{ctx}: serve() returned before shutdown was asked for");
        }
        ag.shutdown().cancel();
        settle().await;
        if late {
            let makes = sh.makes.load(SeqCst);
            let mut c = Client::new(addr).await?;
            c.hello(Version::new(2, 0)).await;
            let r = timeout(Duration::from_millis(15), c.frame()).await;
            check!(!matches!(r, Ok(Some(_))), "{ctx}: a connection made after shutdown was asked for is answered with {r:?}");
            check!(sh.makes.load(SeqCst) == makes, "{ctx}: a connection made after shutdown was asked for gets a service");
            clients.push(c);
        }
        if waiting > 0 {
            if again {
                serves.push(serving(&ag, &sh));
                settle().await;
            }
            for (i, s) in serves.iter().enumerate() {
                check!(!s.is_finished(), "{ctx}: call {i} of serve() returned while {waiting} connections are open, in a call");
            }
        }
        sh.open.store(true, SeqCst);
        sh.gate.notify_waiters();
        for (i, s) in serves.into_iter().enumerate() {
            let r = match timeout(LONG, s).await {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => return Err(format!("{ctx}: call {i} of serve(): {e}")),
                Err(_) => return Err(format!("{ctx}: call {i} of serve() does not return after shutdown")),
            };
            check!(r.ok, "{ctx}: call {i} of serve() fails");
            check!(r.opened || waiting == 0, "{ctx}: call {i} of serve() returned too early");
            check!(r.live == 0, "{ctx}: call {i} of serve() returned while {} connections are open", r.live);
        }
        drop(clients);
        Ok(())
    })
}

// ------------------------------------------------------------------ failures

const TROUBLES: [&str; 11] = [
    "a type there is not", "a frame cut short", "a reset", "a length that is too big", "a failing service",
    "a panicking service", "no common version", "a failing service maker", "a DISCONNECT", "a NOTIFY before HELLO",
    "nothing at all",
];

async fn trouble(k: u64, addr: SocketAddr, sh: &Arc<Shared>) -> Result<Option<Client>, String> {
    let what = TROUBLES[k as usize];
    let mut c = match k {
        4 | 5 | 8 => Client::shaken(addr, what).await?,
        _ => Client::new(addr).await?,
    };
    match k {
        0 => c.raw(&spec::on_stream(&[77, 0, 0, 0, 1, 0, 0])).await,
        1 => {
            c.raw(&[0, 0, 0, 50, 1, 0, 0]).await;
            return Ok(None);
        }
        2 => {
            c.raw(&[0, 0]).await;
            settle().await;
            // the agent is reset when something unread is closed
            let _ = c.0.set_linger(Some(Duration::ZERO));
            return Ok(None);
        }
        3 => c.raw(&[255, 255, 255, 255]).await,
        4 => c.notify("fail").await,
        5 => c.notify("panic").await,
        6 => c.hello(Version::new(9, 9)).await,
        7 => {
            sh.fail_make.store(true, SeqCst);
            c.hello(Version::new(2, 0)).await;
        }
        8 => {
            c.send(&Frame::HaproxyDisconnect(haproxy_spop::Disconnect { status_code: 0, message: "bye".into() })).await
        }
        9 => c.notify("quick").await,
        _ => {}
    }
    if k < 10 {
        // until the agent is done with it
        let _ = timeout(Duration::from_secs(5), async { while c.frame().await.is_some() {} }).await;
    }
    Ok(Some(c))
}

fn failures(g: &mut G) -> Res {
    let ks: Vec<u64> = (0..1 + g.usize(4)).map(|_| g.below(TROUBLES.len() as u64)).collect();
    for k in &ks {
        g.note(&[*k as u8]);
    }
    let shown: Vec<&str> = ks.iter().map(|k| TROUBLES[*k as usize]).collect();
    g.describe(|| format!("connections with {shown:?}"));
    let shown = format!("{shown:?}");
    on_runtime(async move {
        let sh = Arc::new(Shared::default());
        let (ag, addr) = agent(&sh)?;
        let serve = serving(&ag, &sh);
        let mut healthy = Client::shaken(addr, "the first connection").await?;
        healthy.works("the first connection").await?;
        let mut keep = vec![];
        for k in &ks {
            let what = TROUBLES[*k as usize];
            keep.push(trouble(*k, addr, &sh).await?);
            settle().await;
            check!(!serve.is_finished(), "serve() returns after {what} on a connection, of {shown}");
            check!(!ag.shutdown().is_cancelled(), "{what} on a connection shuts the agent down, of {shown}");
            healthy.works(&format!("an open connection after {what} on another, of {shown}")).await?;
            let mut c = Client::shaken(addr, &format!("a new connection after {what} on another, of {shown}")).await?;
            c.works(&format!("a new connection after {what} on another, of {shown}")).await?;
        }
        Ok(())
    })
}

/// In a process of its own, which may open few files: there are none left for
/// a while, so a connection cannot be accepted.
pub fn no_files() -> Res {
    on_runtime(async move {
        let sh = Arc::new(Shared::default());
        let (ag, addr) = agent(&sh)?;
        let serve = serving(&ag, &sh);
        let mut healthy = Client::shaken(addr, "the first connection").await?;
        let mut hogs = vec![];
        while let Ok(f) = std::fs::File::open("/dev/null") {
            hogs.push(f);
            if hogs.len() > 4000 {
                return Ok(());
            }
        }
        hogs.pop();
        // this takes the last one
        let mut c = Client::new(addr).await?;
        c.hello(Version::new(2, 0)).await;
        settle().await;
        healthy.works("an open connection while there are no file descriptors").await?;
        drop(hogs);
        settle().await;
        check!(!serve.is_finished(), "serve() returns for want of file descriptors");
        healthy.works("an open connection after there were no file descriptors").await?;
        c.want(AGENT_HELLO, "the connection that could not be accepted for want of file descriptors, once there are some again").await?;
        let mut d = Client::shaken(addr, "a new connection after there were no file descriptors").await?;
        d.works("a new connection after there were no file descriptors").await
    })
}

fn files(_: &mut G) -> Res {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new("sh")
        .arg("-c")
        .arg("ulimit -n 64; exec \"$0\" nofiles")
        .arg(me)
        .output()
        .map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
    match out.strip_prefix("FAILS: ") {
        Some(m) => Err(m.to_string()),
        None => Ok(()),
    }
}

pub fn c31(_: bool) -> Vec<Phase> {
    vec![Phase::rand("shutdown", |g, _| shutdown(g))]
}

pub fn c33(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("one failing connection", TROUBLES.len() as u64, |g, i| one_failure(g, i)),
        Phase::rand("failing connections", |g, _| failures(g)),
        Phase::some("no file descriptors", 1, |g, _| files(g)),
    ]
}

fn one_failure(g: &mut G, i: u64) -> Res {
    let what = TROUBLES[i as usize];
    g.note(&[i as u8]);
    g.describe(|| format!("a connection with {what}"));
    on_runtime(async move {
        let sh = Arc::new(Shared::default());
        let (ag, addr) = agent(&sh)?;
        let serve = serving(&ag, &sh);
        let mut healthy = Client::shaken(addr, "the first connection").await?;
        let _keep = trouble(i, addr, &sh).await?;
        settle().await;
        check!(!serve.is_finished(), "serve() returns after {what} on a connection");
        check!(!ag.shutdown().is_cancelled(), "{what} on a connection shuts the agent down");
        healthy.works(&format!("an open connection after {what} on another")).await?;
        let mut c = Client::shaken(addr, &format!("a new connection after {what} on another")).await?;
        c.works(&format!("a new connection after {what} on another")).await
    })
}
