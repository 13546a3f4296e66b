//! A scripted stream: input in chunks, output in pieces, ends or faults at will.

use crate::gen::G;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    Error,
    /// The peer says nothing more.
    Silent,
}

#[derive(Default)]
pub struct Shared {
    pub input: Vec<u8>,
    pub pos: usize,
    pub output: Vec<u8>,
    pub waker: Option<Waker>,
    pub blocked_reading: bool,
    pub shutdown: bool,
}

pub struct ScriptIo {
    pub sh: Arc<Mutex<Shared>>,
    pub end: End,
    /// Sizes of the chunks handed out, cycled.
    pub chunks: Vec<usize>,
    pub wchunks: Vec<usize>,
    /// Return Pending (and wake) before each chunk.
    pub pend: bool,
    pub write_error_at: Option<usize>,
    k: usize,
    w: usize,
    ready: bool,
    wready: bool,
}

impl ScriptIo {
    pub fn new(input: Vec<u8>, end: End, chunks: Vec<usize>, wchunks: Vec<usize>, pend: bool) -> Self {
        ScriptIo {
            sh: Arc::new(Mutex::new(Shared {
                input,
                ..Default::default()
            })),
            end,
            chunks,
            wchunks,
            pend,
            write_error_at: None,
            k: 0,
            w: 0,
            ready: false,
            wready: false,
        }
    }

    pub fn random(g: &mut G, input: Vec<u8>, end: End) -> Self {
        let n = input.len();
        let chunks = match g.below(4) {
            0 => vec![usize::MAX],
            1 => vec![1],
            2 => (0..1 + g.usize(5)).map(|_| 1 + g.usize(8)).collect(),
            _ => (0..1 + g.usize(5)).map(|_| 1 + g.usize(n + 1)).collect(),
        };
        let wchunks = match g.below(3) {
            0 => vec![usize::MAX],
            1 => vec![1],
            _ => (0..1 + g.usize(5)).map(|_| 1 + g.usize(40)).collect(),
        };
        let pend = g.chance(2);
        ScriptIo::new(input, end, chunks, wchunks, pend)
    }
}

impl AsyncRead for ScriptIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.pend && !self.ready {
            self.ready = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ready = false;
        let me = &mut *self;
        let mut sh = me.sh.lock().unwrap();
        let rest = sh.input.len() - sh.pos;
        if rest == 0 {
            return match me.end {
                End::Eof => Poll::Ready(Ok(())),
                End::Error => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                End::Silent => {
                    sh.blocked_reading = true;
                    sh.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            };
        }
        let c = me.chunks[me.k % me.chunks.len()];
        me.k += 1;
        let n = c.min(rest).min(buf.remaining());
        let p = sh.pos;
        buf.put_slice(&sh.input[p..p + n]);
        sh.pos += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for ScriptIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.pend && !self.wready {
            self.wready = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.wready = false;
        let me = &mut *self;
        let mut sh = me.sh.lock().unwrap();
        let c = me.wchunks[me.w % me.wchunks.len()];
        me.w += 1;
        let mut n = c.min(buf.len());
        if let Some(at) = me.write_error_at {
            if sh.output.len() >= at {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(at - sh.output.len());
        }
        sh.output.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.sh.lock().unwrap().shutdown = true;
        Poll::Ready(Ok(()))
    }
}

/// Split an output into frames; the leftover must be empty.
pub fn frames(out: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    let mut r = out;
    while !r.is_empty() {
        if r.len() < 4 {
            return Err(format!("{} stray bytes after the last frame", r.len()));
        }
        let n = u32::from_be_bytes(r[..4].try_into().unwrap()) as usize;
        if r.len() < 4 + n {
            return Err(format!("a frame of {n} bytes is cut at {}", r.len() - 4));
        }
        v.push(r[4..4 + n].to_vec());
        r = &r[4 + n..];
    }
    Ok(v)
}
