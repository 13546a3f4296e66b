//! Wire format: C01-C14, C29, C30.

use crate::{api, gen::*, hex, spec, Phase};
use bytes::{Buf, BufMut, BytesMut};
use haproxy_spop::{varint, Action, Disconnect, Frame, Message, Typed};

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

type Res = Result<(), String>;

// ---------------------------------------------------------------- varints

fn put_one(g: &mut G, n: u64) -> Res {
    g.note(&n.to_le_bytes());
    g.describe(|| format!("put {n:#x}"));
    let want = spec::varint(n);
    let mut v = vec![0xaa, 0x55];
    let sz = varint::put(&mut v, n);
    check!(
        v[..2] == [0xaa, 0x55] && v[2..] == want[..],
        "put({n:#x}) appended {} instead of {}",
        hex(&v[2..]),
        hex(&want)
    );
    check!(sz == want.len(), "put({n:#x}) reported {sz} bytes, wrote {}", want.len());
    let mut b = BytesMut::new();
    let sz = (&mut b).limit(want.len());
    let mut sz2 = sz;
    check!(varint::put(&mut sz2, n) == want.len(), "put({n:#x}) into a tight buffer");
    check!(b[..] == want[..], "put({n:#x}) into BytesMut gave {}", hex(&b));
    let p = varint::size_of(n);
    check!(p == want.len(), "size_of({n:#x}) = {p}, the encoding has {} bytes", want.len());
    check!((1..=10).contains(&p), "size_of({n:#x}) = {p}");
    Ok(())
}

fn near_size(i: u64) -> u64 {
    let s = SIZE_STARTS[(i / 2048) as usize % 10];
    s.wrapping_add(i % 2048).wrapping_sub(1024)
}

fn near_pow(i: u64) -> u64 {
    (1u64 << ((i / 64) % 64)).wrapping_add(i % 64).wrapping_sub(32)
}

pub fn c01(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every value below 2^16", 65536, |g, i| put_one(g, i)),
        Phase::all("around every size step", 20480, |g, i| put_one(g, near_size(i))),
        Phase::all("around every power of two", 4096, |g, i| put_one(g, near_pow(i))),
        Phase::rand("values", |g, _| {
            let n = g.u64();
            put_one(g, n)
        }),
    ]
}

fn get(b: &[u8]) -> Option<(u64, usize)> {
    let mut r = b;
    let v = varint::get(&mut r)?;
    Some((v, b.len() - r.len()))
}

fn get_split(b: &[u8], at: usize) -> Option<(u64, usize)> {
    let (x, y) = b.split_at(at.min(b.len()));
    let mut r = x.chain(y);
    let v = varint::get(&mut r)?;
    Some((v, b.len() - r.remaining()))
}

fn round(g: &mut G, n: u64, tail: &[u8]) -> Res {
    let mut b = vec![];
    let sz = varint::put(&mut b, n);
    b.extend_from_slice(tail);
    g.note(&b);
    g.describe(|| format!("get back {n:#x} followed by {}", hex(tail)));
    let at = g.usize(b.len() + 1);
    for r in [get(&b), get_split(&b, at)] {
        check!(
            r == Some((n, b.len() - tail.len())),
            "reading {} gave {r:x?} instead of ({n:#x}, {sz} bytes)",
            hex(&b)
        );
    }
    Ok(())
}

fn canonical(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("get {}", hex(b)));
    let r = get(b);
    g.trivial = r.is_none();
    if let Some((n, used)) = r {
        let mut v = vec![];
        varint::put(&mut v, n);
        check!(
            v[..] == b[..used],
            "reading {} gave {n:#x} and consumed {used} bytes, but {n:#x} is written {}",
            hex(b),
            hex(&v)
        );
    }
    Ok(())
}

fn two(i: u64) -> [u8; 2] {
    [(i >> 8) as u8, i as u8]
}

fn three(i: u64) -> [u8; 3] {
    [0xf0 | (i >> 16) as u8, (i >> 8) as u8, i as u8]
}

fn varint_like(g: &mut G) -> Vec<u8> {
    let mut b = vec![0xf0 | g.next() as u8];
    let n = g.usize(12);
    for _ in 0..n {
        let x = match g.below(4) {
            0 => 0x80,
            1 => 0xff,
            2 => 0x80 | g.next() as u8,
            _ => 0xfe,
        };
        b.push(x);
    }
    if !g.chance(4) {
        let x = g.pick(&[0, 1, 0x0d, 0x0e, 0x0f, 0x10, 0x7f, 0x40]);
        b.push(x);
    }
    let n = g.usize(3);
    let t = g.bytes_n(n);
    b.extend(t);
    b
}

pub fn c02(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every value below 2^16", 65536, |g, i| round(g, i, &[0xf1])),
        Phase::all("around every size step", 20480, |g, i| {
            let t = g.bytes_n((i % 3) as usize);
            round(g, near_size(i), &t)
        }),
        Phase::all("around every power of two", 4096, |g, i| round(g, near_pow(i), &[0x80])),
        Phase::all("every two-byte input", 65536, |g, i| canonical(g, &two(i))),
        Phase::rand("values and tails", |g, _| {
            let n = g.u64();
            let l = g.usize(4);
            let t = g.bytes_n(l);
            round(g, n, &t)
        }),
        Phase::rand("inputs", |g, _| {
            let b = varint_like(g);
            canonical(g, &b)
        }),
    ]
}

fn reject(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("get {}", hex(b)));
    let want = spec::dec_varint(b);
    g.trivial = want.is_some();
    let at = g.usize(b.len() + 1);
    for r in [get(b), get_split(b, at)] {
        check!(r == want, "reading {} gave {r:x?}, expected {want:x?}", hex(b));
    }
    Ok(())
}

pub fn c03(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every input of up to two bytes", 65536 + 256 + 1, |g, i| match i {
            0..=65535 => reject(g, &two(i)),
            65536..=65791 => reject(g, &[i as u8]),
            _ => reject(g, &[]),
        }),
        Phase::all("every three-byte input that starts a long varint", 1 << 20, |g, i| {
            reject(g, &three(i))
        }),
        Phase::all("every truncation around the size steps", 20480, |g, i| {
            let b = spec::varint(near_size(i));
            for k in 0..b.len() {
                reject(g, &b[..k])?;
            }
            Ok(())
        }),
        Phase::all("every last byte of a ten or eleven byte varint", 16 * 256 * 4, |g, i| {
            let mut b = vec![0xf0 | (i & 15) as u8];
            let fill = [0x80, 0xff, 0xfe, 0xf0][(i >> 12) as usize & 3];
            b.extend([fill; 8]);
            b.push((i >> 4) as u8);
            reject(g, &b)?;
            b.push((i >> 4) as u8 & 0x7f);
            reject(g, &b)
        }),
        Phase::rand("inputs", |g, _| {
            let b = varint_like(g);
            reject(g, &b)
        }),
        Phase::rand("oversized by little", |g, _| {
            // the largest value plus something
            let mut b = spec::varint(u64::MAX - g.below(1 << 20));
            let i = g.usize(b.len());
            b[i] = b[i].wrapping_add(1 + g.below(20) as u8);
            reject(g, &b)
        }),
    ]
}

// ----------------------------------------------------------- typed values

fn round_typed(g: &mut G, v: Typed) -> Res {
    let (b, sz) = api::enc_typed(&v)?;
    g.note(&b);
    g.describe(|| format!("{} as {}", short(&format!("{v:?}")), hex(&b)));
    if let Some(sz) = sz {
        check!(sz == b.len(), "writing {} reported {sz} bytes, wrote {}", short(&format!("{v:?}")), b.len());
    }
    let mut t = b.clone();
    let n = g.usize(3);
    let tail = g.bytes_n(n);
    t.extend(&tail);
    let at = g.usize(t.len() + 1);
    for r in [api::dec_typed(&t), api::dec_typed_split(&t, at)] {
        let Some((w, used)) = r else {
            return Err(format!("{} written as {} is not readable", short(&format!("{v:?}")), hex(&t)));
        };
        check!(w == v, "{} written as {} reads as {}", short(&format!("{v:?}")), hex(&t), short(&format!("{w:?}")));
        if let Some(used) = used {
            check!(used == b.len(), "reading {} consumed {used} of {} bytes", hex(&t), b.len());
        }
    }
    Ok(())
}

fn int_value(i: u64) -> Typed {
    let x = near_pow(i / 4);
    match i % 4 {
        0 => Typed::Int32(x as i32),
        1 => Typed::Uint32(x as u32),
        2 => Typed::Int64(x as i64),
        _ => Typed::Uint64(x),
    }
}

pub fn c04(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("integers around every power of two", 16384, |g, i| round_typed(g, int_value(i))),
        Phase::all("small negatives", 4096, |g, i| {
            let x = -(i as i64 / 2);
            round_typed(g, if i % 2 == 0 { Typed::Int32(x as i32) } else { Typed::Int64(x) })
        }),
        Phase::all("lengths around the size steps", 2 * 700, |g, i| {
            let n = match i / 2 {
                k if k < 300 => k as usize,
                k if k < 600 => 2288 - 150 + (k - 300) as usize,
                k => 264432 - 50 + (k - 600) as usize,
            };
            if n > 10000 && !g.thorough && i % 10 > 1 {
                return Ok(());
            }
            let b = g.bytes_n(n);
            let s = String::from_utf8_lossy(&b).chars().map(|c| if c.is_ascii() { c } else { '?' }).collect();
            round_typed(g, if i % 2 == 0 { Typed::Binary(b.into()) } else { Typed::String(s) })
        }),
        Phase::rand("values", |g, _| {
            let v = g.typed();
            round_typed(g, v)
        }),
    ]
}

fn layout(g: &mut G, v: Typed) -> Res {
    let (b, _) = api::enc_typed(&v)?;
    let mut want = vec![];
    spec::enc_typed(&v, &mut want);
    g.note(&want);
    g.describe(|| format!("{} must be {}", short(&format!("{v:?}")), hex(&want)));
    check!(b == want, "{} is written {} instead of {}", short(&format!("{v:?}")), hex(&b), hex(&want));
    Ok(())
}

fn dec_diff(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("read {}", hex(b)));
    let mut r = spec::R::new(b);
    let want = r.typed().map(|v| (v, r.pos));
    let at = g.usize(b.len() + 1);
    for got in [api::dec_typed(b), api::dec_typed_split(b, at)] {
        match (&got, &want) {
            (None, None) => {}
            (Some((v, used)), Some((w, n))) if v == w && used.unwrap_or(*n) == *n => {}
            _ => {
                return Err(format!(
                    "reading {} gave {} instead of {}",
                    hex(b),
                    short(&format!("{got:?}")),
                    short(&format!("{want:?}"))
                ))
            }
        }
    }
    Ok(())
}

pub fn c05(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every first byte", 256 * 64, |g, i| {
            let mut b = vec![i as u8];
            match (i >> 8) % 8 {
                0 => {}
                1 => b.extend([0; 20]),
                2 => b.extend((1..21).collect::<Vec<u8>>()),
                3 => b.extend([0xff; 20]),
                4 => b.extend([0xfe, 0x80, 0x7f, 0x00]),
                5 => b.extend(b"\x03abcdef"),
                6 => b.extend(g.bytes_n(20)),
                _ => {
                    let n = g.usize(20);
                    b.extend(g.bytes_n(n))
                }
            }
            dec_diff(g, &b)
        }),
        Phase::all("integers around every power of two", 16384, |g, i| layout(g, int_value(i))),
        Phase::rand("values", |g, _| {
            let v = g.typed();
            layout(g, v)
        }),
        Phase::rand("inputs", |g, _| {
            let v = g.typed();
            let mut b = vec![];
            spec::enc_typed(&v, &mut b);
            if b.len() < 5000 {
                g.mutate(&mut b);
            }
            dec_diff(g, &b)
        }),
    ]
}

fn bad_utf8(g: &mut G) -> Vec<u8> {
    let mut s = g.name().into_bytes();
    let i = g.usize(s.len() + 1);
    let bad: &[&[u8]] = &[
        b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xf0\x9f\x98",
        b"\xc1\xbf", b"\xe0\x80\x80", b"\xf5\x80\x80\x80",
    ];
    let x = g.pick(bad);
    s.splice(i..i, x.iter().copied());
    s
}

fn string_diff(g: &mut G, b: &[u8]) -> Res {
    let mut r = spec::R::new(b);
    let want = r.string().map(|s| (s, r.pos));
    let got = api::dec_string(b);
    g.note(b);
    g.describe(|| format!("read string {}", hex(b)));
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some((v, used)), Some((w, n))) if v == w && used.unwrap_or(*n) == *n => Ok(()),
        _ => Err(format!(
            "reading the string {} gave {} instead of {}",
            hex(b),
            short(&format!("{got:?}")),
            short(&format!("{want:?}"))
        )),
    }
}

pub fn c06(_: bool) -> Vec<Phase> {
    fn both(g: &mut G, declared: u64, content: &[u8]) -> Res {
        let mut b = spec::varint(declared);
        b.extend_from_slice(content);
        string_diff(g, &b)?;
        for t in [8, 9] {
            let mut x = vec![t];
            x.extend_from_slice(&b);
            dec_diff(g, &x)?;
        }
        Ok(())
    }
    vec![
        Phase::all("declared and actual lengths up to 40", 41 * 41, |g, i| {
            both(g, i / 41, &vec![b'x'; (i % 41) as usize])
        }),
        Phase::all("declared lengths around every power of two", 4096, |g, i| both(g, near_pow(i), b"abcdefgh")),
        Phase::all("every byte and pair of bytes as a string", 65536, |g, i| both(g, 2, &two(i))),
        Phase::rand("declared length", |g, _| {
            let n = g.u64();
            let k = g.usize(30);
            let c = g.bytes_n(k);
            both(g, n, &c)
        }),
        Phase::rand("off by little", |g, _| {
            let k = g.size();
            let c = vec![b'q'; k];
            let d = (k as u64 + g.below(3)).saturating_sub(1);
            both(g, d, &c)
        }),
        Phase::rand("utf-8", |g, _| {
            let mut c = if g.chance(2) { bad_utf8(g) } else { g.string().into_bytes() };
            if g.chance(3) && c.len() < 5000 {
                g.mutate(&mut c);
            }
            let n = c.len() as u64;
            let k = g.usize(2);
            let t = g.bytes_n(k);
            c.extend(t);
            both(g, n, &c)
        }),
        Phase::rand("inside frames", |g, _| {
            // names and values of messages and actions, with a wrong length
            let f = g.small_frame();
            let mut b = spec::enc_frame(&f);
            let i = g.usize(b.len());
            let n = g.u64();
            b.splice(i..i + 1, spec::varint(n));
            frame_diff(g, &b)
        }),
    ]
}

// ------------------------------------------------------------------ frames

/// The decoder and the reference agree: same acceptance, same frame, and a
/// status among those that the frame deserves.
pub fn frame_diff(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("decode {}", hex(b)));
    let want = spec::dec_frame(b);
    let got = api::dec_frame(b);
    match (&got, &want) {
        (Ok(f), Ok(w)) if f == w => {}
        (Err(e), Err(errs)) => {
            check!(
                !api::precise() || errs.contains(&(*e as u32)),
                "decoding {} gave {e:?}, expected one of the statuses {errs:?}",
                hex(b)
            );
        }
        _ => {
            return Err(format!(
                "decoding {} gave {} instead of {}",
                hex(b),
                short(&format!("{got:?}")),
                short(&format!("{want:?}"))
            ))
        }
    }
    let p = api::dec_frame_public(b);
    let ok = match (&p, &want) {
        (Ok(f), Ok(w)) => f == w,
        (Err(e), Err(_)) => *e as u32 == spec::INVALID,
        _ => false,
    };
    check!(
        ok,
        "reading the frame {} from a stream gave {} instead of {}",
        hex(b),
        short(&format!("{p:?}")),
        short(&format!("{want:?}"))
    );
    Ok(())
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        let n = s.len();
        format!("{}… ({n} bytes)", s.chars().take(300).collect::<String>())
    } else {
        s.to_string()
    }
}

fn round_frame(g: &mut G, f: &Frame) -> Res {
    let b = api::enc_frame(f)?;
    g.note(&b);
    g.describe(|| format!("{} as {}", short(&format!("{f:?}")), hex(&b)));
    let again = api::enc_frame(&f.clone())?;
    check!(b == again, "{f:?} is encoded {} and {}", hex(&b), hex(&again));
    let p = api::enc_frame_public(f)?;
    check!(b == p, "{f:?} is encoded {} and sent as {}", hex(&b), hex(&p));
    let r = api::dec_frame(&b);
    check!(
        r.as_ref() == Ok(f),
        "{} is encoded {} and decodes as {}",
        short(&format!("{f:?}")),
        hex(&b),
        short(&format!("{r:?}"))
    );
    Ok(())
}

fn exact_frame(g: &mut G, f: &Frame) -> Res {
    round_frame(g, f)?;
    let b = api::enc_frame(f)?;
    let want = spec::enc_frame(f);
    check!(
        b == want,
        "{} is encoded {} instead of {}",
        short(&format!("{f:?}")),
        hex(&b),
        hex(&want)
    );
    Ok(())
}

fn ack(actions: Vec<Action>) -> Frame {
    Frame::ack(7, 9, actions)
}

fn notify(messages: Vec<Message>) -> Frame {
    Frame::notify(7, 9, messages)
}

fn header(ty: u8) -> Vec<u8> {
    let mut v = vec![];
    spec::enc_header(ty, 1, 7, 9, &mut v);
    v
}

pub fn c07(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every type id, count and scope", 256 * 8 * 8 * 2, |g, i| {
            let (t, n, s) = ((i & 255) as u8, (i >> 8 & 7) as u8, (i >> 11 & 7) as u8);
            let mut b = header(103);
            b.extend([t, n, s, 1, b'v']);
            if i >> 14 & 1 == 1 {
                b.extend([3, 5]);
            }
            frame_diff(g, &b)
        }),
        Phase::all("every count byte", 512, |g, i| {
            let mut b = header(103);
            b.extend([1 + (i >> 8) as u8, i as u8, 2, 1, b'v']);
            if i < 256 {
                b.extend([5, 5]);
            }
            frame_diff(g, &b)
        }),
        Phase::all("every scope byte", 512, |g, i| {
            let t = 1 + (i >> 8) as u8;
            let mut b = header(103);
            b.extend([t, if t == 1 { 3 } else { 2 }, i as u8, 1, b'v']);
            if t == 1 {
                b.extend([0]);
            }
            frame_diff(g, &b)
        }),
        Phase::all("every scope and value type", 5 * 11 * 8, |g, i| {
            let scope = SCOPES[(i % 5) as usize];
            let name = g.name();
            let a = match (i / 5) % 11 {
                10 => Action::UnsetVar { scope, name },
                t => Action::SetVar { scope, name, value: g.typed_of(t) },
            };
            exact_frame(g, &ack(vec![a]))
        }),
        Phase::rand("lists of actions", |g, _| {
            let a = g.actions();
            g.trivial = a.is_empty();
            exact_frame(g, &ack(a))
        }),
        Phase::rand("changed lists", |g, _| {
            let a = g.small_actions();
            let mut p = spec::enc_frame(&ack(a))[header(103).len()..].to_vec();
            g.mutate(&mut p);
            let mut b = header(103);
            b.extend(p);
            frame_diff(g, &b)
        }),
    ]
}

pub fn c08(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every number of arguments", 256 * 2, |g, i| {
            let n = i as usize % 256;
            let mk = |n: usize| Message {
                name: "m".into(),
                args: (0..n).map(|k| (format!("a{}", k / 2), Typed::Uint32(k as u32))).collect(),
            };
            let mut ms = vec![mk(n)];
            if i >= 256 {
                ms.push(mk(255 - n));
                ms.push(mk(0));
            }
            exact_frame(g, &notify(ms))
        }),
        Phase::all("every declared number of arguments", 256 * 4, |g, i| {
            let mut b = header(3);
            b.extend([1, b'm', i as u8]);
            for _ in 0..(i >> 8) {
                b.extend([1, b'a', 0]);
            }
            frame_diff(g, &b)
        }),
        Phase::rand("lists of messages", |g, _| {
            let m = g.messages();
            g.trivial = m.is_empty();
            exact_frame(g, &notify(m))
        }),
        Phase::rand("changed lists", |g, _| {
            let m = g.small_messages();
            let mut p = spec::enc_frame(&notify(m))[header(3).len()..].to_vec();
            g.mutate(&mut p);
            let mut b = header(3);
            b.extend(p);
            frame_diff(g, &b)
        }),
    ]
}

pub fn c09(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("the UNSET frame", 1, |g, _| {
            // known finding: it has no decoding (see KNOWN_FINDINGS)
            let b = api::enc_frame(&Frame::Unset)?;
            g.note(&b);
            g.describe(|| format!("UNSET is encoded {}", hex(&b)));
            match api::dec_frame(&b) {
                Ok(Frame::Unset) => Ok(()),
                r => Err(format!("KNOWN unset-frame: UNSET is encoded {} and decodes as {r:?}", hex(&b))),
            }
        }),
        Phase::all("every type", 6 * 400, |g, i| {
            let f = g.frame_of(i % 6);
            round_frame(g, &f)
        }),
        Phase::all("every pair of ids around the size steps", 2 * 100, |g, i| {
            let (a, b) = (SIZE_STARTS[(i / 2 % 10) as usize], SIZE_STARTS[(i / 20) as usize]);
            let d = i % 2;
            let f = if i % 3 == 0 { Frame::ack(a - d.min(a), (b - d.min(b)).max(1), Vec::<Action>::new()) }
                else { Frame::notify(a - d.min(a), (b - d.min(b)).max(1), Vec::<Message>::new()) };
            round_frame(g, &f)
        }),
        Phase::all("every version", 65536, |g, i| {
            let version = haproxy_spop::Version::new((i >> 8) as u8, i as u8);
            if i % 16 == 3 || i < 1024 {
                round_frame(g, &Frame::AgentHello(haproxy_spop::AgentHello { version, max_frame_size: i as u32, capabilities: vec![] }))
            } else {
                round_frame(g, &Frame::HaproxyHello(haproxy_spop::HaproxyHello {
                    supported_versions: vec![version, haproxy_spop::Version::new(i as u8, (i >> 8) as u8)],
                    max_frame_size: i as u32, capabilities: CAPS[..(i % 4) as usize].to_vec(), healthcheck: None, engine_id: None }))
            }
        }),
        Phase::rand("frames", |g, _| {
            let f = g.frame();
            round_frame(g, &f)
        }),
        Phase::rand("small frames", |g, _| {
            let f = g.small_frame();
            round_frame(g, &f)
        }),
    ]
}

pub fn c10(_: bool) -> Vec<Phase> {
    fn payload(g: &mut G, ty: u8) -> Vec<u8> {
        let t = match ty {
            1 => 0,
            101 => 1,
            2 => 2,
            102 => 3,
            3 => 4,
            103 => 5,
            _ => g.below(6),
        };
        let f = if t < 4 {
            g.frame_of(t)
        } else if t == 4 {
            notify(g.small_messages())
        } else {
            ack(g.small_actions())
        };
        let b = spec::enc_frame(&f);
        let mut r = spec::R::new(&b);
        spec::dec_header(&mut r);
        r.rest().to_vec()
    }
    vec![
        Phase::all("every type byte and kind of ids", 256 * 16, |g, i| {
            let ids = [0, 1, 240, u64::MAX];
            let (s, f) = (ids[(i >> 8 & 3) as usize], ids[(i >> 10) as usize]);
            let mut b = vec![];
            spec::enc_header(i as u8, 1, s, f, &mut b);
            let p = payload(g, i as u8);
            b.extend(p);
            frame_diff(g, &b)
        }),
        Phase::rand("headers", |g, _| {
            let ty = g.pick(&[0, 1, 2, 3, 101, 102, 103, 4, 100, 104, 255]);
            let (s, f) = (
                if g.chance(2) { 0 } else { g.id() },
                if g.chance(2) { 0 } else { g.id() },
            );
            let mut b = vec![];
            let fl = if g.chance(2) { 1 } else { g.u32() };
            spec::enc_header(ty, fl, s, f, &mut b);
            let p = payload(g, ty);
            b.extend(p);
            frame_diff(g, &b)
        }),
        Phase::rand("cut headers", |g, _| {
            let mut b = vec![];
            let (ty, s, f) = (g.pick(&[1, 2, 3, 101, 102, 103]), g.id(), g.id());
            spec::enc_header(ty, 1, s, f, &mut b);
            let n = g.usize(b.len() + 1);
            frame_diff(g, &b[..n])
        }),
    ]
}

fn total(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("decode {}", hex(b)));
    // a panic is caught by the caller
    let _ = api::dec_frame(b);
    let _ = api::dec_frame_public(b);
    let _ = api::dec_typed(b);
    let _ = api::dec_string(b);
    Ok(())
}

fn wild_frame(g: &mut G) -> Vec<u8> {
    let f = g.small_frame();
    let mut b = spec::enc_frame(&f);
    if b.len() < 5000 {
        g.mutate(&mut b);
    }
    b
}

pub fn c11(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every input of up to two bytes", 65536 + 256 + 1, |g, i| match i {
            0..=65535 => total(g, &two(i)),
            65536..=65791 => total(g, &[i as u8]),
            _ => total(g, &[]),
        }),
        Phase::rand("random payloads", |g, _| {
            let ty = g.pick(&[0, 1, 2, 3, 101, 102, 103]);
            let mut b = vec![];
            let (s, f) = if ty == 3 || ty == 103 { (g.id(), g.nonzero_id()) } else { (0, 0) };
            spec::enc_header(ty, 1, s, f, &mut b);
            let n = g.usize(40);
            let p = g.bytes_n(n);
            b.extend(p);
            total(g, &b)
        }),
        Phase::rand("long declared lengths", |g, _| {
            let ty = g.pick(&[1, 2, 3, 101, 102, 103]);
            let mut b = vec![];
            let (s, f) = if ty == 3 || ty == 103 { (g.id(), g.nonzero_id()) } else { (0, 0) };
            spec::enc_header(ty, 1, s, f, &mut b);
            for _ in 0..1 + g.usize(3) {
                match g.below(4) {
                    0 => b.extend(b"\x01k"),
                    1 => b.push(g.below(12) as u8),
                    2 => {
                        let n = g.u64();
                        b.extend(spec::varint(n))
                    }
                    _ => {
                        let x = varint_like(g);
                        b.extend(x)
                    }
                }
            }
            total(g, &b)
        }),
        Phase::rand("changed frames", |g, _| {
            let b = wild_frame(g);
            total(g, &b)
        }),
        Phase::rand("random bytes", |g, _| {
            let n = g.usize(60);
            let b = g.bytes_n(n);
            total(g, &b)
        }),
    ]
}

pub fn c12(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("every prefix of a frame", |g, _| {
            let f = g.small_frame();
            let b = spec::enc_frame(&f);
            let step = 1 + b.len() / 300;
            for n in (0..=b.len()).step_by(step) {
                frame_diff(g, &b[..n])?;
            }
            Ok(())
        }),
        Phase::rand("every change of one byte", |g, _| {
            let f = g.small_frame();
            let mut b = spec::enc_frame(&f);
            if b.len() > 400 {
                g.trivial = true;
                return Ok(());
            }
            for i in 0..b.len() {
                let old = b[i];
                b[i] = match g.below(4) {
                    0 => old ^ (1 << g.below(8)),
                    1 => old.wrapping_add(1),
                    2 => old.wrapping_sub(1),
                    _ => g.next() as u8,
                };
                frame_diff(g, &b)?;
                b[i] = old;
            }
            Ok(())
        }),
        Phase::rand("changed frames", |g, _| {
            let b = wild_frame(g);
            frame_diff(g, &b)
        }),
        Phase::rand("trailing bytes", |g, _| {
            let f = g.small_frame();
            let mut b = spec::enc_frame(&f);
            let n = 1 + g.usize(6);
            let t = g.bytes_n(n);
            b.extend(t);
            frame_diff(g, &b)
        }),
    ]
}

// ------------------------------------------------------------------- HELLO

const KEYS: [&str; 8] = [
    "supported-versions",
    "version",
    "max-frame-size",
    "capabilities",
    "engine-id",
    "healthcheck",
    "status-code",
    "message",
];

fn list(g: &mut G, items: &[&str]) -> String {
    let n = match g.below(5) {
        0 => 0,
        k => k as usize,
    };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(g.pick(&[",", ", ", " ,", " , ", ",,", ","]));
        }
        let x = g.pick(items);
        s.push_str(x);
    }
    match g.below(12) {
        0 => s.push(','),
        1 => s.insert(0, ','),
        2 => s.push(' '),
        3 => s.insert(0, ' '),
        4 => s = s.to_uppercase(),
        _ => {}
    }
    s
}

fn entry(g: &mut G, key: &str) -> Typed {
    if g.chance(12) {
        return g.typed();
    }
    match key {
        "supported-versions" => Typed::String(list(
            g,
            &["2.0", "1.0", "2.1", "10.255", "0.0", "2.0", "256.0", "2", "x", "2.0.0", "2.", ".0", "-1.0"],
        )),
        "version" => Typed::String(
            g.pick(&["2.0", "1.0", "255.255", "2.0", "2.0", "256.1", "2", "", "2.x", "2.0.1"]).to_string(),
        ),
        "max-frame-size" | "status-code" => {
            let n = match g.below(8) {
                0 => u32::MAX as u64 + g.below(3),
                1 => g.u64(),
                2 => g.u32() as u64,
                _ => g.below(70000),
            };
            match g.below(4) {
                0 => Typed::Int32(n as i32),
                1 => Typed::Uint32(n as u32),
                2 => Typed::Int64(n as i64),
                _ => Typed::Uint64(n),
            }
        }
        "capabilities" => Typed::String(list(
            g,
            &["fragmentation", "pipelining", "async", "async", "pipelining", "fragmentation", "fragmentation", "async", "foo", "", "Async"],
        )),
        "healthcheck" => Typed::Boolean(g.chance(2)),
        _ => Typed::String(g.name()),
    }
}

fn kv_frame(g: &mut G, ty: u8, mandatory: &[&str]) -> Vec<u8> {
    let mut keys: Vec<String> = mandatory.iter().map(|s| s.to_string()).collect();
    if g.chance(6) && !keys.is_empty() {
        let i = g.usize(keys.len());
        keys.remove(i);
    }
    for _ in 0..g.usize(4) {
        let k = if g.chance(5) { g.name() } else { g.pick(&KEYS).to_string() };
        keys.push(k);
    }
    // shuffle
    for i in (1..keys.len()).rev() {
        let j = g.usize(i + 1);
        keys.swap(i, j);
    }
    let mut b = vec![];
    spec::enc_header(ty, 1, 0, 0, &mut b);
    for k in keys {
        let v = entry(g, &k);
        spec::enc_kv(&k, &v, &mut b);
    }
    b
}

pub fn c13(_: bool) -> Vec<Phase> {
    const HM: [&str; 3] = ["supported-versions", "max-frame-size", "capabilities"];
    const AM: [&str; 3] = ["version", "max-frame-size", "capabilities"];
    vec![
        Phase::all("every subset of the mandatory entries, every type", 2 * 8 * 3 * 10, |g, i| {
            let ha = i % 2 == 0;
            let keys = if ha { HM } else { AM };
            let (mask, odd, ty) = (i / 2 % 8, i / 16 % 3, i / 48);
            let mut b = vec![];
            spec::enc_header(if ha { 1 } else { 101 }, 1, 0, 0, &mut b);
            for (j, k) in keys.iter().enumerate() {
                if mask >> j & 1 == 1 {
                    let v = if j as u64 == odd {
                        g.typed_of(ty)
                    } else {
                        match *k {
                            "max-frame-size" => Typed::Uint32(1000),
                            "capabilities" => Typed::String("async".into()),
                            _ => Typed::String("2.0".into()),
                        }
                    };
                    spec::enc_kv(k, &v, &mut b);
                }
            }
            frame_diff(g, &b)
        }),
        Phase::all("every order", 2 * 120, |g, i| {
            let ha = i % 2 == 0;
            let mut e: Vec<(&str, Typed)> = vec![
                (if ha { "supported-versions" } else { "version" }, Typed::String("2.0".into())),
                ("max-frame-size", Typed::Uint32(16384)),
                ("capabilities", Typed::String("pipelining, async".into())),
                ("healthcheck", Typed::Boolean(i % 3 == 0)),
                ("engine-id", Typed::String("id".into())),
            ];
            let mut b = vec![];
            spec::enc_header(if ha { 1 } else { 101 }, 1, 0, 0, &mut b);
            let mut k = i / 2;
            while !e.is_empty() {
                let n = e.len() as u64;
                let (key, v) = e.remove((k % n) as usize);
                k /= n;
                spec::enc_kv(key, &v, &mut b);
            }
            frame_diff(g, &b)
        }),
        Phase::rand("HAPROXY-HELLO entries", |g, _| {
            let b = kv_frame(g, 1, &HM);
            frame_diff(g, &b)
        }),
        Phase::rand("AGENT-HELLO entries", |g, _| {
            let b = kv_frame(g, 101, &AM);
            frame_diff(g, &b)
        }),
        Phase::rand("written HELLO frames", |g, _| {
            let t = g.below(2);
            let f = g.frame_of(t);
            exact_frame(g, &f)
        }),
    ]
}

pub fn c30(_: bool) -> Vec<Phase> {
    vec![
        Phase::all("every small code, both directions", 2 * 300, |g, i| {
            let d = Disconnect { status_code: (i / 2) as u32, message: g.name() };
            exact_frame(g, &if i % 2 == 0 { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) })
        }),
        Phase::rand("codes and messages", |g, _| {
            let t = 2 + g.below(2);
            let f = g.frame_of(t);
            exact_frame(g, &f)
        }),
        Phase::rand("entries", |g, _| {
            let ty = g.pick(&[2, 102]);
            let b = kv_frame(g, ty, &["status-code", "message"]);
            // a code that does not fit in 32 bits is outside the property
            if let Some(kvs) = {
                let mut r = spec::R::new(&b);
                spec::dec_header(&mut r);
                r.kvs()
            } {
                let big = kvs.iter().any(|(k, v)| {
                    k == "status-code"
                        && match v {
                            Typed::Int32(n) => *n < 0,
                            Typed::Int64(n) => u32::try_from(*n).is_err(),
                            Typed::Uint64(n) => u32::try_from(*n).is_err(),
                            _ => false,
                        }
                });
                if big {
                    g.trivial = true;
                    return Ok(());
                }
            }
            frame_diff(g, &b)
        }),
    ]
}

// ------------------------------------------------------------------- flags

pub fn c14(_: bool) -> Vec<Phase> {
    fn flags_of(f: &Frame) -> u32 {
        match f {
            Frame::HaproxyNotify(n) => !n.fragmented as u32,
            Frame::AgentAck(a) => !a.fragmented as u32 | (a.aborted as u32) << 1,
            _ => 1,
        }
    }
    fn written(g: &mut G, f: Frame) -> Res {
        let b = api::enc_frame(&f)?;
        g.note(&b);
        g.describe(|| format!("flags of {}", short(&format!("{f:?}"))));
        check!(b.len() >= 5, "{} is encoded {}", short(&format!("{f:?}")), hex(&b));
        let w = u32::from_be_bytes([b[1], b[2], b[3], b[4]]);
        check!(
            w == flags_of(&f),
            "{} has the flags {w:#x} instead of {:#x}",
            short(&format!("{f:?}")),
            flags_of(&f)
        );
        Ok(())
    }
    #[allow(unused_mut)]
    let mut v = vec![
        Phase::all("every flag, type and content", 6 * 200, |g, i| {
            let f = g.frame_of(i % 6);
            written(g, f)
        }),
        Phase::all("each bit of the flags word", 34 * 34 * 2, |g, i| {
            let bit = |k: u64| if k < 32 { 1u32 << k } else if k == 32 { 0 } else { u32::MAX };
            let w = bit(i / 2 % 34) ^ bit(i / 68);
            let mut b = vec![];
            spec::enc_header(if i % 2 == 0 { 3 } else { 103 }, w, 5, 6, &mut b);
            frame_diff(g, &b)
        }),
        Phase::rand("flag words", |g, _| {
            let w = g.next() as u32;
            let mut b = vec![];
            let ty = g.pick(&[3, 103, 1, 2, 101, 102]);
            let (s, f) = if ty == 3 || ty == 103 { (g.id(), g.nonzero_id()) } else { (0, 0) };
            spec::enc_header(ty, w, s, f, &mut b);
            if ty == 1 {
                let x = spec::enc_frame(&g.frame_of(0));
                b.extend(&x[7..]);
            }
            frame_diff(g, &b)
        }),
        Phase::rand("frames", |g, _| {
            let f = g.small_frame();
            written(g, f)
        }),
    ];
    #[cfg(feature = "hook")]
    v.push(Phase::rand("header size", |g, _| {
        use haproxy_spop::verif::frame::{encode, Flags, Metadata};
        let md = Metadata {
            flags: Flags::from_bits_truncate(g.below(4) as u32),
            stream_id: g.id(),
            frame_id: g.id(),
        };
        let (fin, abort) = (md.flags.bits() & 1 != 0, md.flags.bits() & 2 != 0);
        check!(
            md.is_final() == fin && md.fragmented() == !fin && md.aborted() == abort,
            "flags of {md:?}"
        );
        let mut b = vec![];
        encode::metadata(&mut b, md.clone());
        g.note(&b);
        g.describe(|| format!("size of {md:?}"));
        let mut want = vec![];
        spec::enc_header(0, md.flags.bits(), md.stream_id, md.frame_id, &mut want);
        check!(b[..] == want[1..], "{md:?} is written {} instead of {}", hex(&b), hex(&want[1..]));
        check!(md.size() == b.len(), "size of {md:?} is {}, {} bytes written", md.size(), b.len());
        Ok(())
    }));
    v
}

// ------------------------------------------------------------ constructors

pub fn c29(_: bool) -> Vec<Phase> {
    use haproxy_spop::{AgentAck, AgentHello, Error, HaproxyHello, HaproxyNotify};
    use std::net::IpAddr;
    fn same(g: &mut G, got: Typed, want: Typed) -> Res {
        g.describe(|| format!("convert to {}", short(&format!("{want:?}"))));
        let mut b = vec![];
        spec::enc_typed(&want, &mut b);
        g.note(&b);
        check!(
            got == want,
            "converted to {} instead of {}",
            short(&format!("{got:?}")),
            short(&format!("{want:?}"))
        );
        Ok(())
    }
    vec![
        Phase::rand("conversions to typed data", |g, i| match i % 16 {
            0 => same(g, ().into(), Typed::Null),
            1 => {
                let x = g.chance(2);
                same(g, x.into(), Typed::Boolean(x))
            }
            2 => {
                let x = g.i32();
                same(g, x.into(), Typed::Int32(x))
            }
            3 => {
                let x = g.u32();
                same(g, x.into(), Typed::Uint32(x))
            }
            4 => {
                let x = g.u64() as i64;
                same(g, x.into(), Typed::Int64(x))
            }
            5 => {
                let x = g.u64();
                same(g, x.into(), Typed::Uint64(x))
            }
            6 | 7 => {
                let v = g.typed_of(i % 16);
                match v.clone() {
                    Typed::Ipv4(a) => {
                        same(g, a.into(), v.clone())?;
                        same(g, IpAddr::V4(a).into(), v)
                    }
                    Typed::Ipv6(a) => {
                        same(g, a.into(), v.clone())?;
                        same(g, IpAddr::V6(a).into(), v)
                    }
                    _ => unreachable!(),
                }
            }
            8 => {
                let s = g.string();
                same(g, s.clone().into(), Typed::String(s))
            }
            9 => {
                let s = g.string();
                same(g, s.as_str().into(), Typed::String(s))
            }
            10 => {
                let b = g.bytes();
                same(g, b.clone().into(), Typed::Binary(b.into()))
            }
            11 => {
                let b = g.bytes();
                same(g, (&b[..]).into(), Typed::Binary(b.into()))
            }
            12 => {
                let b = g.bytes();
                same(g, b.clone().into_boxed_slice().into(), Typed::Binary(b.into()))
            }
            13 => {
                let b = g.bytes();
                same(g, BytesMut::from(&b[..]).into(), Typed::Binary(b.into()))
            }
            14 => {
                let b = bytes::Bytes::from(g.bytes());
                same(g, b.clone().into(), Typed::Binary(b))
            }
            _ => {
                // and back
                let v = g.typed();
                g.describe(|| format!("convert {} back", short(&format!("{v:?}"))));
                let ok = match v.clone() {
                    Typed::Null => true,
                    Typed::Boolean(x) => bool::try_from(v.clone()).ok() == Some(x),
                    Typed::Int32(x) => i32::try_from(v.clone()).ok() == Some(x),
                    Typed::Uint32(x) => u32::try_from(v.clone()).ok() == Some(x),
                    Typed::Int64(x) => i64::try_from(v.clone()).ok() == Some(x),
                    Typed::Uint64(x) => u64::try_from(v.clone()).ok() == Some(x),
                    Typed::Ipv4(x) => std::net::Ipv4Addr::try_from(v.clone()).ok() == Some(x),
                    Typed::Ipv6(x) => std::net::Ipv6Addr::try_from(v.clone()).ok() == Some(x),
                    Typed::String(x) => String::try_from(v.clone()).ok() == Some(x),
                    Typed::Binary(x) => bytes::Bytes::try_from(v.clone()).ok() == Some(x),
                };
                check!(ok, "{} does not convert back", short(&format!("{v:?}")));
                Ok(())
            }
        }),
        Phase::rand("messages", |g, i| {
            let m = if i % 4 == 0 { g.message() } else { g.small_message() };
            g.describe(|| short(&format!("build {m:?}")));
            let mut b = vec![];
            spec::enc_message(&m, &mut b);
            g.note(&b);
            let x = Message::new(m.name.as_str(), m.args.clone());
            check!(x == m, "Message::new gave {}", short(&format!("{x:?} instead of {m:?}")));
            let k = g.usize(m.args.len() + 1);
            let mut bl = Message::builder(m.name.clone()).args(m.args[..k].to_vec());
            let rest = m.args[k..].to_vec();
            let j = g.usize(rest.len() + 1).min(5);
            for (n, v) in &rest[..j] {
                bl = bl.arg(n.as_str(), v.clone());
            }
            let x = bl.args(rest[j..].to_vec()).build();
            check!(x == m, "the builder gave {}", short(&format!("{x:?} instead of {m:?}")));
            Ok(())
        }),
        Phase::rand("actions and frames", |g, _| {
            let (sid, fid) = (g.id(), g.id());
            let (scope, name, value) = (g.scope(), g.name(), g.typed());
            g.note(&sid.to_le_bytes());
            g.note(name.as_bytes());
            g.describe(|| format!("frames with ids {sid:#x} {fid:#x} and variable {}", short(&name)));
            let a = Action::set_var(scope, name.as_str(), value.clone());
            check!(
                a == Action::SetVar { scope, name: name.clone(), value: value.clone() },
                "set_var gave {}", short(&format!("{a:?}"))
            );
            let u = Action::unset_var(scope, name.as_str());
            check!(u == Action::UnsetVar { scope, name: name.clone() }, "unset_var gave {}", short(&format!("{u:?}")));
            let acts = g.small_actions();
            let f = Frame::ack(sid, fid, acts.clone());
            let w = Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: sid, frame_id: fid, actions: acts });
            check!(f == w, "ack gave {f:?} instead of {w:?}");
            let w = Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: sid, frame_id: fid, actions: vec![] });
            let f = Frame::AgentAck(AgentAck::new(sid, fid));
            check!(f == w, "AgentAck::new gave {f:?} instead of {w:?}");
            let ms = g.small_messages();
            let f = Frame::notify(sid, fid, ms.clone());
            let w = Frame::HaproxyNotify(HaproxyNotify { fragmented: false, stream_id: sid, frame_id: fid, messages: ms });
            check!(f == w, "notify gave {f:?} instead of {w:?}");
            Ok(())
        }),
        Phase::rand("disconnects and types", |g, _| {
            let code = g.pick(&(0..14u32).chain([99]).collect::<Vec<_>>());
            let st = Error::try_from(code).map_err(|_| format!("{code} is not a status"))?;
            let msg = g.name();
            g.note(&code.to_le_bytes());
            g.note(msg.as_bytes());
            g.describe(|| format!("disconnect {code} {}", short(&msg)));
            let d = Disconnect { status_code: code, message: msg.clone() };
            check!(Disconnect::new(st, msg.as_str()) == d, "Disconnect::new of {code}");
            let h = Frame::haproxy_disconnect(st, msg.as_str());
            check!(h == Frame::HaproxyDisconnect(d.clone()), "haproxy_disconnect gave {h:?}");
            let a = Frame::agent_disconnect(st, msg);
            check!(a == Frame::AgentDisconnect(d.clone()), "agent_disconnect gave {a:?}");
            let ty = |f: &Frame| f.frame_type() as u8;
            let hh = HaproxyHello { supported_versions: g.versions(), max_frame_size: 9, capabilities: vec![], healthcheck: None, engine_id: None };
            let ah = AgentHello { version: g.version(), max_frame_size: 9, capabilities: vec![] };
            for (f, want) in [
                (Frame::Unset, 0), (Frame::HaproxyHello(hh.clone()), 1), (h, 2), (Frame::notify(1, 2, Vec::<Message>::new()), 3),
                (Frame::AgentHello(ah.clone()), 101), (a, 102), (Frame::ack(1, 2, Vec::<Action>::new()), 103),
            ] {
                check!(ty(&f) == want, "the type of {f:?} is {}", ty(&f));
            }
            check!(Frame::from(hh.clone()) == Frame::HaproxyHello(hh), "From<HaproxyHello>");
            check!(Frame::from(ah.clone()) == Frame::AgentHello(ah), "From<AgentHello>");
            for n in 0..8u64 {
                let (fr, ab) = (n & 1 == 1, n & 2 == 2);
                let (s, i) = (g.id(), g.id());
                let f: Frame = if n & 4 == 0 {
                    AgentAck { fragmented: fr, aborted: ab, stream_id: s, frame_id: i, actions: vec![] }.into()
                } else {
                    HaproxyNotify { fragmented: fr, stream_id: s, frame_id: i, messages: vec![] }.into()
                };
                let md = f.metadata().ok_or("no metadata")?;
                let ab = ab && n & 4 == 0;
                check!(
                    md.stream_id == s && md.frame_id == i && md.fragmented() == fr && md.is_final() == !fr && md.aborted() == ab,
                    "the metadata of {f:?} is {md:?}"
                );
            }
            check!(Frame::Unset.metadata().is_none(), "UNSET has metadata");
            Ok(())
        }),
    ]
}
