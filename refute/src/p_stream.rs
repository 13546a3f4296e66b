//! Frames on a stream: C15, C16.

use crate::io::{End, ScriptIo};
use crate::p_wire::short;
use crate::{gen::*, hex, spec, Phase};
use haproxy_spop::{BufCodec, Codec, Error, Frame, Framer};

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
type Res = Result<(), String>;

/// Poll to completion, `None` when it waits for something that never comes.
pub fn drive<F: std::future::Future>(f: F) -> Option<F::Output> {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    struct W(AtomicBool);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst)
        }
    }
    let w = Arc::new(W(AtomicBool::new(false)));
    let waker = w.clone().into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
        if !w.0.swap(false, Ordering::SeqCst) {
            return None;
        }
    }
}

enum AnyCodec {
    Plain(Codec<ScriptIo>),
    Buffered(BufCodec<ScriptIo>),
}

impl AnyCodec {
    fn new(g: &mut G, io: ScriptIo, max: usize) -> Self {
        if g.chance(2) {
            AnyCodec::Plain(Codec::new(io, Framer::new(max)))
        } else {
            AnyCodec::Buffered(Codec::buffered(io, Framer::new(max)))
        }
    }
    fn read(&mut self) -> Option<Result<Frame, Error>> {
        match self {
            AnyCodec::Plain(c) => drive(c.read_frame()),
            AnyCodec::Buffered(c) => drive(c.read_frame()),
        }
    }
    fn write(&mut self, f: Frame) -> Option<Result<usize, Error>> {
        match self {
            AnyCodec::Plain(c) => drive(c.write_frame(f)),
            AnyCodec::Buffered(c) => drive(c.write_frame(f)),
        }
    }
}

fn some_frames(g: &mut G) -> Vec<Frame> {
    let n = 1 + g.usize(5);
    (0..n)
        .map(|_| if g.chance(20) { g.frame() } else { g.small_frame() })
        .collect()
}

fn write_read(g: &mut G) -> Res {
    let fs = some_frames(g);
    let max = 1 << 23;
    let io = ScriptIo::random(g, vec![], End::Eof);
    let sh = io.sh.clone();
    let mut c = AnyCodec::new(g, io, max);
    let mut want = vec![];
    for f in &fs {
        let e = spec::on_stream(&spec::enc_frame(f));
        let before = sh.lock().unwrap().output.len();
        let r = c.write(f.clone());
        check!(r == Some(Ok(e.len())), "writing {} returned {r:?}, expected {} bytes", short(&format!("{f:?}")), e.len());
        let out = sh.lock().unwrap().output[before..].to_vec();
        check!(out == e, "writing {} put {} on the stream instead of {}", short(&format!("{f:?}")), hex(&out), hex(&e));
        want.extend(e);
    }
    g.note(&want);
    g.describe(|| format!("write and read back {} frames, {} bytes", fs.len(), want.len()));
    let io = ScriptIo::random(g, want, End::Eof);
    let sh = io.sh.clone();
    let mut c = AnyCodec::new(g, io, max);
    for (i, f) in fs.iter().enumerate() {
        let r = c.read();
        check!(
            r.as_ref() == Some(&Ok(f.clone())),
            "frame {i} is read as {} instead of {}",
            short(&format!("{r:?}")),
            short(&format!("{f:?}"))
        );
    }
    let r = c.read();
    check!(r == Some(Err(Error::Io)), "after the last frame reading gave {r:?} instead of an I/O error");
    let _ = sh;
    Ok(())
}

fn truncated(g: &mut G) -> Res {
    let fs = some_frames(g);
    let encs: Vec<Vec<u8>> = fs.iter().map(|f| spec::on_stream(&spec::enc_frame(f))).collect();
    let all: Vec<u8> = encs.concat();
    let cut = g.usize(all.len());
    let end = g.pick(&[End::Eof, End::Error, End::Silent]);
    g.note(&all[..cut]);
    g.describe(|| format!("read {} frames cut at byte {cut} of {}, {end:?}", fs.len(), all.len()));
    let io = ScriptIo::random(g, all[..cut].to_vec(), end);
    let mut c = AnyCodec::new(g, io, 1 << 23);
    let mut at = 0;
    for (f, e) in fs.iter().zip(&encs) {
        at += e.len();
        let r = c.read();
        if at <= cut {
            check!(r.as_ref() == Some(&Ok(f.clone())), "a complete frame is read as {}", short(&format!("{r:?}")));
        } else {
            let want = if end == End::Silent { None } else { Some(Err(Error::Io)) };
            check!(r == want, "a frame cut by {end:?} is read as {} instead of {want:?}", short(&format!("{r:?}")));
            break;
        }
    }
    Ok(())
}

/// Reading takes exactly one frame off the stream, whatever is behind it.
fn exact_take(g: &mut G) -> Res {
    let mut p = if g.chance(3) {
        let n = g.usize(30);
        g.bytes_n(n)
    } else {
        spec::enc_frame(&g.small_frame())
    };
    if g.chance(2) && p.len() < 5000 {
        g.mutate(&mut p);
    }
    let mut s = spec::on_stream(&p);
    let n = g.usize(10);
    let tail = g.bytes_n(n);
    s.extend(&tail);
    g.note(&s);
    g.describe(|| format!("read one frame from {}", hex(&s)));
    let io = ScriptIo::random(g, s.clone(), End::Eof);
    let sh = io.sh.clone();
    let mut io = io;
    let fr = Framer::new(p.len() + g.usize(3));
    let r = drive(fr.read_frame(&mut io));
    let want = spec::dec_frame(&p);
    let ok = match (&r, &want) {
        (Some(Ok(f)), Ok(w)) => f == w,
        (Some(Err(e)), Err(_)) => *e == Error::Invalid,
        _ => false,
    };
    check!(ok, "reading {} gave {} instead of {}", hex(&s), short(&format!("{r:?}")), short(&format!("{want:?}")));
    let pos = sh.lock().unwrap().pos;
    check!(pos == 4 + p.len(), "reading {} took {pos} bytes off the stream instead of {}", hex(&s), 4 + p.len());
    Ok(())
}

fn write_fault(g: &mut G) -> Res {
    let f = g.small_frame();
    let e = spec::on_stream(&spec::enc_frame(&f));
    let at = g.usize(e.len());
    g.note(&e);
    g.note(&at.to_le_bytes());
    g.describe(|| format!("write {} bytes, the stream breaks after {at}", e.len()));
    let mut io = ScriptIo::random(g, vec![], End::Eof);
    io.write_error_at = Some(at);
    let sh = io.sh.clone();
    let mut c = AnyCodec::new(g, io, 1 << 20);
    let r = c.write(f);
    check!(r == Some(Err(Error::Io)), "writing to a broken stream gave {r:?}");
    check!(sh.lock().unwrap().output[..] == e[..at], "the bytes before the fault differ");
    Ok(())
}

pub fn c15(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("written frames are read back", |g, _| write_read(g)),
        Phase::rand("truncated streams", |g, _| truncated(g)),
        Phase::rand("one frame at a time", |g, _| exact_take(g)),
        Phase::rand("broken streams", |g, _| write_fault(g)),
    ]
}

fn read_limit(g: &mut G, max: usize, declared: u64) -> Res {
    // nothing but the length arrives when the frame is too long
    let over = declared > max as u64;
    let mut p = vec![];
    if !over {
        spec::enc_header(103, 1, 1, 1, &mut p);
        if (declared as usize) < p.len() {
            p.truncate(declared as usize);
        } else {
            let mut k = declared as usize - p.len();
            // unset-var actions fill the frame
            while k > 0 {
                if k < 4 {
                    break;
                }
                let n = (k - 4).min(200);
                p.extend([2, 2, 0, n as u8]);
                p.extend(std::iter::repeat(b'x').take(n));
                k -= 4 + n;
            }
            p.resize(declared as usize, 0);
        }
    }
    let mut s = (declared as u32).to_be_bytes().to_vec();
    s.extend(&p);
    g.note(&s);
    g.note(&max.to_le_bytes());
    g.describe(|| format!("read a frame of {declared} bytes, the maximum is {max}"));
    let io = ScriptIo::random(g, s, End::Silent);
    let mut c = if g.chance(2) {
        AnyCodec::new(g, io, max)
    } else {
        // the limit is changed later
        let m = g.usize(1000);
        let mut c = AnyCodec::new(g, io, m);
        match &mut c {
            AnyCodec::Plain(c) => c.set_max_frame_size(max),
            AnyCodec::Buffered(c) => c.set_max_frame_size(max),
        }
        c
    };
    let r = c.read();
    if over {
        check!(
            r == Some(Err(Error::BadFrameSize)),
            "a frame of {declared} bytes, above the maximum {max}, gave {r:?}"
        );
    } else {
        let want = spec::dec_frame(&p);
        let ok = match (&r, &want) {
            (Some(Ok(f)), Ok(w)) => f == w,
            (Some(Err(e)), Err(_)) => *e == Error::Invalid,
            _ => false,
        };
        check!(
            ok,
            "a frame of {declared} bytes, with maximum {max}, gave {} instead of {}",
            short(&format!("{r:?}")),
            short(&format!("{want:?}"))
        );
    }
    Ok(())
}

fn write_limit(g: &mut G, delta: i64) -> Res {
    let f = if g.chance(30) { g.frame() } else { g.small_frame() };
    let e = spec::on_stream(&spec::enc_frame(&f));
    let len = e.len() - 4;
    let max = (len as i64 + delta).max(0) as usize;
    g.note(&e);
    g.note(&max.to_le_bytes());
    g.describe(|| format!("write a frame of {len} bytes, the maximum is {max}"));
    let io = ScriptIo::random(g, vec![], End::Eof);
    let sh = io.sh.clone();
    let mut c = AnyCodec::new(g, io, max);
    let r = c.write(f);
    let out = sh.lock().unwrap().output.clone();
    if len > max {
        check!(r == Some(Err(Error::TooBig)), "writing {len} bytes with maximum {max} gave {r:?}");
        check!(out.is_empty(), "{} bytes of a frame too big were written", out.len());
    } else {
        check!(r == Some(Ok(e.len())), "writing {len} bytes with maximum {max} gave {r:?}");
        check!(out == e, "writing put {} on the stream instead of {}", hex(&out), hex(&e));
    }
    Ok(())
}

pub fn c16(_: bool) -> Vec<Phase> {
    let mut v = vec![
        Phase::all("read, sizes around small maxima", 40 * 9, |g, i| {
            let max = (i / 9) as usize * 7;
            read_limit(g, max, (max as u64 + i % 9).saturating_sub(4))
        }),
        Phase::all("read, sizes around 256, 16384 and 65536", 3 * 9, |g, i| {
            let max = [256, 16384, 65536][(i / 9) as usize];
            read_limit(g, max, max as u64 + i % 9 - 4)
        }),
        Phase::all("write, sizes around the maximum", 40 * 9, |g, i| write_limit(g, i as i64 % 9 - 4)),
        Phase::rand("read", |g, _| {
            let max = g.usize(70000);
            let d = match g.below(4) {
                0 => g.u32() as u64,
                1 => max as u64 + 1 + g.below(3),
                2 => max as u64,
                _ => g.below(max as u64 + 1),
            };
            read_limit(g, max, d)
        }),
        Phase::rand("write", |g, _| {
            let d = match g.below(3) {
                0 => -(g.below(100) as i64),
                1 => g.below(100) as i64,
                _ => g.below(3) as i64 - 1,
            };
            write_limit(g, d)
        }),
    ];
    v.extend(crate::p_sess::c16_session());
    v
}
