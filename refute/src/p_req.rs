//! Header blocks: C25.

use crate::{gen::*, hex, spec, Phase};
use bytes::Buf;
use haproxy_spoa::req::hdrs_bin;
use http::{HeaderName, HeaderValue};

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
type Res = Result<(), String>;

fn header_name(g: &mut G) -> String {
    match g.below(6) {
        0 => g.pick(&["host", "cookie", "set-cookie", "x-a", "accept", "Content-Type", "X-A"]).to_string(),
        1 => {
            let n = g.pick(&[239, 240, 241, 300, 2287, 2288, 2289]);
            "n".repeat(n)
        }
        _ => {
            let n = 1 + g.usize(8);
            (0..n).map(|_| *b"abcXYZ019-_!#$%&'*+.^`|~".get(g.usize(23)).unwrap() as char).collect()
        }
    }
}

fn header_value(g: &mut G) -> Vec<u8> {
    let n = match g.below(8) {
        0 => 0,
        1 => 239 + g.usize(3),
        2 => 2287 + g.usize(3),
        3 if g.chance(10) => 264430 + g.usize(4),
        _ => g.usize(20),
    };
    (0..n)
        .map(|_| match g.below(20) {
            0 => b'\t',
            1 => 0x80 | g.next() as u8,
            2 => b' ',
            _ => 0x20 + g.below(0x5f) as u8,
        })
        .collect()
}

/// The reference: headers, bytes consumed.
fn reference(b: &[u8]) -> Result<(Vec<(HeaderName, HeaderValue)>, Option<usize>), ()> {
    let mut r = spec::R::new(b);
    let mut v = vec![];
    loop {
        // a cut pair ends the block
        let Some(k) = r.bytes() else { return Ok((v, None)) };
        let Some(x) = r.bytes() else { return Ok((v, None)) };
        if k.is_empty() && x.is_empty() {
            return Ok((v, Some(r.pos)));
        }
        v.push((
            HeaderName::from_bytes(k).map_err(|_| ())?,
            HeaderValue::from_bytes(x).map_err(|_| ())?,
        ));
    }
}

fn diff(g: &mut G, b: &[u8]) -> Res {
    g.note(b);
    g.describe(|| format!("decode headers {}", hex(b)));
    let want = reference(b);
    let mut left = b;
    let at = g.usize(b.len() + 1);
    let (x, y) = b.split_at(at);
    for (i, got) in [hdrs_bin(&mut left), hdrs_bin(x.chain(y))].into_iter().enumerate() {
        let (got, (want, end)) = match (got, &want) {
            (Err(_), Err(())) => continue,
            (Ok(g), Ok(w)) => (g, w),
            (Ok(m), Err(())) => return Err(format!("{} decodes as {m:?} instead of an error", hex(b))),
            (Err(e), Ok(_)) => return Err(format!("{} is refused: {e}", hex(b))),
        };
        check!(got.len() == want.len(), "{} decodes to {} headers instead of {}", hex(b), got.len(), want.len());
        for (k, _) in want {
            let a: Vec<_> = got.get_all(k).iter().collect();
            let w: Vec<_> = want.iter().filter(|(n, _)| n == k).map(|(_, v)| v).collect();
            check!(a == w, "{}: header {k} is {a:?} instead of {w:?}", hex(b));
        }
        if let (Some(end), 0) = (end, i) {
            check!(left.len() == b.len() - end, "{}: {} bytes left instead of {}", hex(b), left.len(), b.len() - end);
        }
    }
    Ok(())
}

fn block(g: &mut G) -> Vec<u8> {
    let mut b = vec![];
    let n = g.pick(&[0, 1, 1, 2, 3, 5, 12]);
    let again = header_name(g);
    for _ in 0..n {
        let k = if g.chance(3) { again.clone() } else { header_name(g) };
        spec::enc_bytes(k.as_bytes(), &mut b);
        let v = header_value(g);
        spec::enc_bytes(&v, &mut b);
    }
    b
}

pub fn c25(_: bool) -> Vec<Phase> {
    vec![
        Phase::rand("blocks", |g, _| {
            let mut b = block(g);
            b.extend([0, 0]);
            let n = g.pick(&[0, 0, 1, 7]);
            let t = g.bytes_n(n);
            b.extend(t);
            diff(g, &b)
        }),
        Phase::rand("changed blocks", |g, _| {
            let mut b = block(g);
            b.extend([0, 0]);
            if b.len() < 5000 {
                g.mutate(&mut b);
            }
            diff(g, &b)
        }),
        Phase::rand("empty names or values", |g, _| {
            let mut b = block(g);
            match g.below(4) {
                0 => {
                    b.push(0);
                    spec::enc_bytes(b"v", &mut b)
                }
                1 => {
                    spec::enc_bytes(b"k", &mut b);
                    b.push(0)
                }
                2 => spec::enc_bytes(b"a b", &mut b),
                _ => {
                    spec::enc_bytes(b"k", &mut b);
                    spec::enc_bytes(b"a\nb", &mut b)
                }
            }
            b.extend([0, 0]);
            diff(g, &b)
        }),
        Phase::rand("declared lengths", |g, _| {
            let mut b = block(g);
            let n = g.u64();
            b.extend(spec::varint(n));
            let k = g.usize(20);
            let t = g.bytes_n(k);
            b.extend(t);
            diff(g, &b)
        }),
        Phase::all("every length of a name and of a value up to 260", 2 * 260, |g, i| {
            let n = (i / 2) as usize;
            let mut b = vec![];
            let (k, v) = if i % 2 == 0 { (n.max(1), 3) } else { (3, n) };
            spec::enc_bytes("k".repeat(k).as_bytes(), &mut b);
            spec::enc_bytes("v".repeat(v).as_bytes(), &mut b);
            b.extend([0, 0]);
            diff(g, &b)
        }),
        Phase::all("more headers than a map holds", 8, |g, i| {
            let n = [20000, 24576, 24577, 26000, 32768, 32769, 40000, 26000][i as usize];
            let mut b = vec![];
            let mut want = http::HeaderMap::new();
            let mut full = false;
            for k in 0..n {
                // the last case: one name again and again
                let name = if i == 7 { "k".to_string() } else { format!("k{k}") };
                spec::enc_bytes(name.as_bytes(), &mut b);
                spec::enc_bytes(b"v", &mut b);
                full |= want.try_append(HeaderName::from_bytes(name.as_bytes()).unwrap(), HeaderValue::from_static("v")).is_err();
            }
            b.extend([0, 0]);
            g.note(&b);
            g.describe(|| format!("decode {n} headers, {}", hex(&b)));
            match hdrs_bin(&b[..]) {
                Ok(m) => {
                    check!(!full, "{n} headers decode to {}", m.len());
                    check!(m == want, "{n} headers decode to others");
                }
                Err(e) => check!(full, "{n} headers are refused: {e}"),
            }
            Ok(())
        }),
    ]
}
