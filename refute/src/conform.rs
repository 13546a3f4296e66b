//! Samples of what the contracts assume of std, bytes, dashmap, http, tokio
//! and tokio-util (verus/prelude/shim*.rs), against the real libraries.

use crate::gen::G;
use crate::io::{End, ScriptIo};
use crate::{hex, Phase};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use dashmap::{mapref::entry::Entry, DashMap};
use futures::FutureExt;
use haproxy_spop::{Capability, Version};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, BufReader};

type R = Result<(), String>;
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {a:?} instead of {b:?}", format!($($m)*)));
        }
    }};
}

// ---------------------------------------------------------------- bytes
fn reads<B: Buf>(mut b: B, mut s: Vec<u8>, ops: &[u64]) -> R {
    for op in ops {
        same!(b.remaining(), s.len(), "remaining");
        same!(b.has_remaining(), !s.is_empty(), "has_remaining");
        let c = b.chunk();
        if c.is_empty() != s.is_empty() || !s.starts_with(c) {
            return Err(format!("chunk of {} is {}", hex(&s), hex(c)));
        }
        let n = (*op / 8) as usize % (s.len() + 1);
        match op % 4 {
            0 if !s.is_empty() => same!(b.get_u8(), s.remove(0), "get_u8"),
            1 if s.len() >= 4 => {
                let d = ((s[0] as u64 * 256 + s[1] as u64) * 256 + s[2] as u64) * 256 + s[3] as u64;
                same!(b.get_u32() as u64, d, "get_u32");
                s.drain(..4);
            }
            2 => {
                let got = b.copy_to_bytes(n);
                same!(got[..], s[..n], "copy_to_bytes");
                s.drain(..n);
            }
            _ => {
                b.advance(n);
                s.drain(..n);
            }
        }
    }
    Ok(())
}
fn buf(g: &mut G, _: u64) -> R {
    let s = g.bytes();
    let ops: Vec<u64> = (0..g.below(12)).map(|_| g.next()).collect();
    match g.below(4) {
        0 => reads(&s[..], s.clone(), &ops),
        1 => reads(Bytes::from(s.clone()), s, &ops),
        2 => reads(BytesMut::from(&s[..]), s, &ops),
        _ => reads(std::io::Cursor::new(s.clone()), s, &ops),
    }
}
fn writes<B: BufMut>(mut b: B, g: &mut G, s: &mut Vec<u8>) -> B {
    for _ in 0..g.below(10) {
        match g.below(3) {
            0 => {
                let x = g.next() as u8;
                b.put_u8(x);
                s.push(x);
            }
            1 => {
                let x = g.u32();
                b.put_u32(x);
                s.extend([(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]);
            }
            _ => {
                let x = g.bytes();
                b.put_slice(&x);
                s.extend(&x);
            }
        }
    }
    b
}
fn buf_mut(g: &mut G, _: u64) -> R {
    let mut s = g.bytes();
    let v = s.clone();
    same!(writes(v, g, &mut s), s, "BufMut for Vec");
    let mut b = BytesMut::with_capacity(g.usize(64));
    same!(b.len(), 0, "with_capacity");
    b.extend_from_slice(&s);
    let mut b = writes(b, g, &mut s);
    same!(b[..], s[..], "BufMut for BytesMut");
    let n = g.usize(2 * s.len() + 2);
    let x = g.next() as u8;
    b.resize(n, x);
    s.resize(n, x);
    for i in 0..n {
        same!(b[i], s[i], "resize");
    }
    if n >= 4 {
        let at = g.usize(n - 3);
        let v = g.u32();
        (&mut b[at..]).put_u32(v);
        s[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
    let f = b.freeze();
    same!(f[..], s[..], "freeze");
    same!(f.len(), s.len(), "len");
    same!(f.is_empty(), s.is_empty(), "is_empty");
    same!(f.clone(), f, "clone");
    same!(f.to_vec(), s, "to_vec");
    same!(Vec::from(f.clone()), s, "Vec from Bytes");
    same!(Bytes::from(s.clone()), f, "Bytes from Vec");
    same!(Bytes::from(s.clone().into_boxed_slice()), f, "Bytes from Box");
    same!(Bytes::copy_from_slice(&s), f, "copy_from_slice");
    same!(Bytes::new().len(), 0, "new");
    Ok(())
}

// ---------------------------------------------------------------- text
/// UTF-8 by its definition.
fn utf8(mut s: &[u8]) -> Option<Vec<char>> {
    let mut out = vec![];
    while let Some(&a) = s.first() {
        let (n, min, v) = match a {
            0..=0x7f => (1, 0, a as u32),
            0xc0..=0xdf => (2, 0x80, a as u32 & 0x1f),
            0xe0..=0xef => (3, 0x800, a as u32 & 15),
            0xf0..=0xf7 => (4, 0x10000, a as u32 & 7),
            _ => return None,
        };
        if s.len() < n || s[1..n].iter().any(|b| b & 0xc0 != 0x80) {
            return None;
        }
        let v = s[1..n].iter().fold(v, |v, b| v * 64 + (*b as u32 & 0x3f));
        if v < min || v > 0x10ffff || (0xd800..0xe000).contains(&v) {
            return None;
        }
        out.push(char::from_u32(v)?);
        s = &s[n..];
    }
    Some(out)
}
fn from_utf8(g: &mut G, i: u64) -> R {
    let check = |v: &[u8]| -> R {
        let want = utf8(v);
        same!(String::from_utf8(v.to_vec()).ok().map(|s| s.chars().collect::<Vec<_>>()), want, "from_utf8 of {}", hex(v));
        same!(std::str::from_utf8(v).ok().map(|s| s.len()), want.as_ref().map(|_| v.len()), "len of {}", hex(v));
        if let Some(w) = want {
            same!(w.iter().collect::<String>().into_bytes(), v, "encoding of {w:?}");
        }
        Ok(())
    };
    check(&[i as u8])?;
    for j in 0..=255 {
        check(&[i as u8, j])?;
        if i >= 0xc0 {
            for k in [0, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xbe, 0xbf, 0xc0, 0xff] {
                check(&[i as u8, j, k])?;
                check(&[i as u8, j, k, 0x80])?;
                check(&[i as u8, j, 0x80, k])?;
            }
        }
    }
    let b = g.bytes();
    check(&b)
}
fn text(g: &mut G) -> String {
    let n = g.below(9);
    (0..n).map(|_| g.pick(&['a', 'b', ',', ',', ' ', ' ', '\t', '\n', '\u{a0}', '\u{2003}', 'é', '漢', '1', '+', '.'])).collect()
}
fn split(s: &[char], c: char) -> Vec<Vec<char>> {
    if s.is_empty() {
        vec![vec![]]
    } else if s[0] == c {
        let mut r = vec![vec![]];
        r.extend(split(&s[1..], c));
        r
    } else {
        let mut r = split(&s[1..], c);
        r[0].insert(0, s[0]);
        r
    }
}
fn trim_start(mut s: &[char]) -> &[char] {
    while !s.is_empty() && s[0].is_whitespace() {
        s = &s[1..];
    }
    s
}
fn trim_end(mut s: &[char]) -> &[char] {
    while !s.is_empty() && s[s.len() - 1].is_whitespace() {
        s = &s[..s.len() - 1];
    }
    s
}
fn cs(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn number(s: &[char]) -> Option<u128> {
    let s = if s.len() > 1 && s[0] == '+' { &s[1..] } else { s };
    if s.is_empty() {
        return None;
    }
    s.iter().try_fold(0u128, |n, c| c.is_ascii_digit().then(|| n * 10 + (*c as u128 - 48)))
}
fn strings(g: &mut G, _: u64) -> R {
    let s = text(g);
    let c = cs(&s);
    same!(s.split(',').map(cs).collect::<Vec<_>>(), split(&c, ','), "split");
    same!(cs(s.trim()), trim_end(trim_start(&c)), "trim");
    same!(cs(s.trim_start()), trim_start(&c), "trim_start");
    same!(cs(s.trim_end()), trim_end(&c), "trim_end");
    same!(s.chars().count(), c.len(), "count");
    let l: Vec<String> = (0..g.below(5)).map(|_| text(g)).collect();
    let mut j = String::new();
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        j.push_str(x);
    }
    same!(l.join(","), j, "join");
    same!(l.concat() + &s, l.iter().fold(String::new(), |a, x| a + x) + &s, "concat");
    let p = text(g);
    let pc = cs(&p);
    let at = |n: usize| c.len() >= n + pc.len() && c[n..n + pc.len()] == pc[..];
    same!(s.starts_with(&p), at(0), "starts_with");
    same!(s.strip_prefix(&p).map(cs), at(0).then(|| c[pc.len()..].to_vec()), "strip_prefix");
    let e = c.len() >= pc.len() && c[c.len() - pc.len()..] == pc[..];
    same!(s.ends_with(&p), e, "ends_with");
    same!(s.strip_suffix(&p).map(cs), e.then(|| c[..c.len() - pc.len()].to_vec()), "strip_suffix");
    let first = (0..=c.len()).find(|n| at(*n));
    same!(s.split_once(&p).map(|(a, b)| (cs(a), cs(b))), first.map(|n| (c[..n].to_vec(), c[n + pc.len()..].to_vec())), "split_once");
    if !pc.is_empty() {
        let mut a = &c[..];
        while a.starts_with(&pc) {
            a = &a[pc.len()..];
        }
        same!(cs(s.trim_start_matches(&p)), a, "trim_start_matches");
        let mut a = &c[..];
        while a.ends_with(&pc) {
            a = &a[..a.len() - pc.len()];
        }
        same!(cs(s.trim_end_matches(&p)), a, "trim_end_matches");
        let (mut out, mut i) = (vec![], 0);
        while i < c.len() {
            if at(i) {
                out.extend(['X', 'Y']);
                i += pc.len();
            } else {
                out.push(c[i]);
                i += 1;
            }
        }
        same!(cs(&s.replace(&p, "XY")), out, "replace");
    }
    let t: String = (0..g.below(12)).map(|_| g.pick(&['0', '1', '2', '5', '9', '4', '+', '-', ' ', 'a'])).collect();
    for t in [t, g.next().to_string(), g.u32().to_string(), g.below(300).to_string()] {
        let n = number(&cs(&t));
        same!(t.parse::<u8>().ok().map(u128::from), n.filter(|n| *n < 256), "u8 {t:?}");
        same!(t.parse::<u32>().ok().map(u128::from), n.filter(|n| *n <= u32::MAX as u128), "u32 {t:?}");
    }
    let n = g.u64();
    let (mut d, mut m) = (vec![], n);
    loop {
        d.insert(0, (b'0' + (m % 10) as u8) as char);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    same!(cs(&n.to_string()), d, "to_string");
    same!(n.to_be_bytes().iter().fold(0u64, |a, b| a << 8 | *b as u64), n, "to_be_bytes");
    Ok(())
}
/// No character below 0x80 is white space but these.
fn spaces(_: &mut G, i: u64) -> R {
    for c in (i as u32 * 4096..(i as u32 + 1) * 4096).filter_map(char::from_u32) {
        if c.is_whitespace() && !(c == ' ' || ('\t'..='\r').contains(&c) || c as u32 >= 0x80) {
            return Err(format!("{c:?} is white space"));
        }
    }
    Ok(())
}
/// What versions and capabilities look like, and that it can be read back.
fn names(_: &mut G, i: u64) -> R {
    for j in 0..=255 {
        let v = Version::new(i as u8, j);
        same!(v.to_string(), i.to_string() + "." + &j.to_string(), "a version");
        same!(v.to_string().parse::<Version>().ok(), Some(v), "parsing a version");
        same!(v <= Version::new(j, i as u8), (i as u8, j) <= (j, i as u8), "order of versions");
    }
    for (c, n) in [(Capability::Fragmentation, "fragmentation"), (Capability::Pipelining, "pipelining"), (Capability::Async, "async")] {
        same!(c.to_string(), n, "a capability");
        same!(n.parse::<Capability>().ok(), Some(c), "parsing a capability");
    }
    Ok(())
}
fn addresses(g: &mut G, _: u64) -> R {
    let mut b = [0u8; 16];
    for (i, x) in b.iter_mut().enumerate() {
        *x = if g.chance(2) { g.next() as u8 } else if i == 10 || i == 11 { 255 } else { 0 };
    }
    if g.chance(3) {
        b[..10].fill(0);
    }
    if g.chance(4) {
        b[10..12].fill(0);
    }
    let a = Ipv6Addr::from(b);
    same!(a.octets(), b, "octets");
    let low: [u8; 4] = b[12..].try_into().unwrap();
    let mapped = b[..10].iter().all(|x| *x == 0) && b[10] == 255 && b[11] == 255;
    let compatible = b[..12].iter().all(|x| *x == 0);
    same!(a.to_ipv4_mapped(), mapped.then(|| Ipv4Addr::from(low)), "to_ipv4_mapped");
    same!(a.to_ipv4(), (mapped || compatible).then(|| Ipv4Addr::from(low)), "to_ipv4");
    same!(a.to_canonical(), if mapped { IpAddr::V4(low.into()) } else { IpAddr::V6(a) }, "to_canonical");
    same!(Ipv4Addr::from(low).octets(), low, "octets");
    Ok(())
}

// ---------------------------------------------------------------- sequences, maps, sets
fn sequences(g: &mut G, _: u64) -> R {
    let v: Vec<u32> = (0..g.below(10)).map(|_| g.below(6) as u32).collect();
    let mut s = v.clone();
    s.sort();
    same!(s.len(), v.len(), "sort");
    for i in 0..s.len() {
        same!(i + 1 >= s.len() || s[i] <= s[i + 1], true, "sort");
        same!(s.iter().filter(|x| **x == s[i]).count(), v.iter().filter(|x| **x == s[i]).count(), "sort");
    }
    let mut d: Vec<u32> = vec![];
    for x in &v {
        if d.last() != Some(x) {
            d.push(*x);
        }
    }
    let mut w = v.clone();
    w.dedup();
    same!(w, d, "dedup");
    let n = v.len();
    same!(v.iter().rev().copied().collect::<Vec<_>>(), (0..n).map(|i| v[n - 1 - i]).collect::<Vec<_>>(), "rev");
    let mut a = v.clone();
    same!(std::mem::take(&mut a), v, "take");
    same!(a.len(), 0, "take");
    a.extend(v.iter());
    a.extend(&s);
    same!(a.len(), 2 * n, "extend");
    same!(a[..n], v[..], "extend");
    same!(a[n..], s[..], "extend");
    let (x, y) = (g.u32(), g.u32());
    same!(std::cmp::min(x, y), if x <= y { x } else { y }, "min");
    same!(std::cmp::max(x, y), if y <= x { x } else { y }, "max");
    Ok(())
}
fn maps(g: &mut G, _: u64) -> R {
    let kv: Vec<(String, u32)> = (0..g.below(12)).map(|_| (g.pick(&["a", "b", "", "A"]).to_string(), g.u32())).collect();
    let mut m: HashMap<String, u32> = kv.iter().cloned().collect();
    let mut want: BTreeMap<String, u32> = BTreeMap::new();
    for (k, v) in &kv {
        want.insert(k.clone(), *v);
    }
    for _ in 0..g.below(6) {
        same!(m.len(), want.len(), "len");
        let k = g.pick(&["a", "b", "", "A"]);
        same!(m.get(k), want.get(k), "get");
        same!(m.contains_key(k), want.contains_key(k), "contains_key");
        if g.chance(2) {
            same!(m.remove(k), want.remove(k), "remove");
        } else {
            same!(m.insert(k.into(), 1), want.insert(k.into(), 1), "insert");
        }
    }
    let a: Vec<u8> = (0..g.below(8)).map(|_| g.below(8) as u8).collect();
    let b: Vec<u8> = (0..g.below(8)).map(|_| g.below(8) as u8).collect();
    let (x, y): (HashSet<u8>, HashSet<u8>) = (a.iter().copied().collect(), b.iter().copied().collect());
    for i in 0..8 {
        same!(x.contains(&i), a.contains(&i), "collect");
        same!(x.intersection(&y).filter(|j| **j == i).count(), (a.contains(&i) && b.contains(&i)) as usize, "intersection");
        same!(x.clone().into_iter().filter(|j| *j == i).count(), a.contains(&i) as usize, "into_iter");
        let mut z = x.clone();
        z.extend(b.iter().copied());
        same!(z.contains(&i), a.contains(&i) || b.contains(&i), "extend");
        same!(z.insert(i), !(a.contains(&i) || b.contains(&i)), "insert");
    }
    same!(x.is_empty(), a.is_empty(), "is_empty");
    Ok(())
}
fn dashmap(g: &mut G, _: u64) -> R {
    let m: DashMap<(u64, u64), Vec<u8>> = DashMap::new();
    let mut want: BTreeMap<(u64, u64), Vec<u8>> = BTreeMap::new();
    for _ in 0..g.below(20) {
        let k = (g.below(3), g.below(2));
        let v = vec![g.next() as u8];
        match g.below(9) {
            0 => same!(m.insert(k, v.clone()), want.insert(k, v), "insert"),
            1 => same!(m.remove(&k), want.remove(&k).map(|v| (k, v)), "remove"),
            2 => match m.entry(k) {
                Entry::Occupied(e) => same!(Some(e.remove()), want.remove(&k), "entry.remove"),
                Entry::Vacant(e) => {
                    same!(want.contains_key(&k), false, "vacant");
                    e.insert(v.clone());
                    want.insert(k, v);
                }
            },
            3 => match m.entry(k) {
                Entry::Occupied(mut e) => {
                    same!(Some(e.get()), want.get(&k), "entry.get");
                    e.get_mut().extend(&v);
                    want.get_mut(&k).unwrap().extend(v);
                }
                Entry::Vacant(_) => same!(want.contains_key(&k), false, "vacant"),
            },
            4 => {
                m.entry(k).or_default().extend(&v);
                want.entry(k).or_default().extend(v);
            }
            5 => {
                m.entry(k).or_insert(v.clone()).push(7);
                want.entry(k).or_insert(v).push(7);
            }
            6 => {
                if let Some(mut x) = m.get_mut(&k) {
                    x.push(1);
                }
                if let Some(x) = want.get_mut(&k) {
                    x.push(1);
                }
            }
            7 => same!(m.get(&k).map(|r| r.value().clone()), want.get(&k).cloned(), "get"),
            _ => match m.entry(k) {
                Entry::Occupied(mut e) => same!(Some(e.insert(v.clone())), want.insert(k, v), "entry.insert"),
                Entry::Vacant(e) => drop(e),
            },
        }
        same!(m.contains_key(&k), want.contains_key(&k), "contains_key");
    }
    same!(m.len(), want.len(), "len");
    for (k, v) in want {
        same!(m.get(&k).map(|r| r.value().clone()), Some(v), "get");
    }
    Ok(())
}
/// A guard of an entry excludes every other access to its key.
fn dash_guard(g: &mut G, _: u64) -> R {
    let m: DashMap<u64, u64> = DashMap::new();
    let (t, n) = (2 + g.below(3), 200);
    std::thread::scope(|s| {
        for _ in 0..t {
            s.spawn(|| {
                for i in 0..n {
                    match m.entry(i % 2) {
                        Entry::Occupied(mut e) => {
                            let x = *e.get();
                            if i % 8 == 0 {
                                std::thread::yield_now();
                            }
                            *e.get_mut() = x + 1;
                        }
                        Entry::Vacant(e) => drop(e.insert(1)),
                    }
                }
            });
        }
    });
    same!(*m.get(&0).unwrap() + *m.get(&1).unwrap(), t * n, "additions under a guard");
    Ok(())
}
fn headers(g: &mut G, i: u64) -> R {
    use http::{HeaderMap, HeaderName, HeaderValue};
    let mut m = HeaderMap::new();
    let mut want: Vec<(HeaderName, Vec<HeaderValue>)> = vec![];
    for _ in 0..g.below(12) {
        let k = HeaderName::from_bytes(g.pick(&[&b"a"[..], b"host", b"x-b", b"A"])).map_err(|e| e.to_string())?;
        let v = HeaderValue::from_bytes(g.pick(&[&b"1"[..], b"", b"\xff", b"2"])).map_err(|e| e.to_string())?;
        let had = m.try_append(k.clone(), v.clone()).map_err(|e| e.to_string())?;
        match want.iter_mut().find(|w| w.0 == k) {
            Some(w) => {
                same!(had, true, "try_append");
                w.1.push(v);
            }
            None => {
                same!(had, false, "try_append");
                want.push((k, vec![v]));
            }
        }
    }
    same!(m.keys_len(), want.len(), "keys");
    for (k, v) in want {
        same!(m.get_all(&k).iter().cloned().collect::<Vec<_>>(), v, "get_all");
    }
    if i == 0 {
        // full only beyond 6553 names
        let mut m = HeaderMap::new();
        let mut n = 0usize;
        while let Ok(_) = m.try_append(HeaderName::from_bytes(format!("n{n}").as_bytes()).unwrap(), HeaderValue::from_static("")) {
            n += 1;
            if n > 40_000 {
                return Err("never full".into());
            }
        }
        if n <= 6553 {
            return Err(format!("full with {n} names"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tasks
struct Woken(std::sync::atomic::AtomicUsize);
impl std::task::Wake for Woken {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}
fn channels(g: &mut G, _: u64) -> R {
    use tokio::sync::{mpsc, oneshot};
    let (tx, mut rx) = oneshot::channel();
    if g.chance(2) {
        same!(tx.send(5), Ok(()), "oneshot send");
        same!((&mut rx).now_or_never(), Some(Ok(5)), "oneshot recv");
    } else if g.chance(2) {
        drop(rx);
        same!(tx.send(5), Err(5), "oneshot send to nobody");
    } else {
        drop(tx);
        same!((&mut rx).now_or_never().map(|r| r.is_err()), Some(true), "oneshot without a sender");
    }
    let (tx, mut rx) = mpsc::unbounded_channel();
    let mut txs = vec![tx];
    let mut q = std::collections::VecDeque::new();
    let w = std::sync::Arc::new(Woken(Default::default()));
    let waker = std::task::Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let count = || w.0.load(std::sync::atomic::Ordering::SeqCst);
    let mut waits: Option<usize> = None;
    for n in 0..g.below(20) {
        match g.below(4) {
            0 if !txs.is_empty() => {
                let t = g.usize(txs.len());
                same!(txs[t].send(n).is_ok(), true, "send");
                q.push_back(n);
                if let Some(c) = waits.take() {
                    same!(count() > c, true, "woken by a send");
                }
            }
            1 if !txs.is_empty() => {
                let t = txs[0].clone();
                txs.push(t);
            }
            2 if !txs.is_empty() => {
                txs.pop();
                if let (true, Some(c)) = (txs.is_empty(), waits) {
                    waits = None;
                    same!(count() > c, true, "woken by the last sender's end");
                }
            }
            _ => match rx.poll_recv(&mut cx) {
                Poll::Ready(r) => {
                    same!(r.is_some() || txs.is_empty(), true, "the end of a channel");
                    same!(r, q.pop_front(), "poll_recv");
                }
                Poll::Pending => {
                    same!(q.is_empty() && !txs.is_empty(), true, "pending");
                    waits = Some(count());
                }
            },
        }
    }
    if let Some(t) = txs.first() {
        drop(rx);
        same!(t.send(1).is_err(), true, "send to nobody");
    }
    Ok(())
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
fn tasks(g: &mut G, _: u64) -> R {
    use tokio_util::{sync::CancellationToken, task::TaskTracker};
    let a = CancellationToken::new();
    let (b, c) = (a.child_token(), a.clone());
    let d = b.child_token();
    match g.below(4) {
        0 => {
            a.cancel();
            same!([b.is_cancelled(), c.is_cancelled(), d.is_cancelled()], [true; 3], "cancel of a parent");
        }
        1 => {
            c.cancel();
            same!([a.is_cancelled(), b.is_cancelled(), d.is_cancelled()], [true; 3], "cancel of a clone");
        }
        2 => {
            b.cancel();
            same!([a.is_cancelled(), c.is_cancelled(), d.is_cancelled()], [false, false, true], "cancel of a child");
        }
        _ => same!(d.cancelled().now_or_never().is_some(), false, "cancelled too early"),
    }
    let ms = 1 + g.below(50);
    let late = g.chance(2);
    let n = g.below(4);
    rt().block_on(async move {
        let work = Duration::from_millis(if late { ms + 1 } else { ms - 1 });
        let r = tokio::time::timeout(Duration::from_millis(ms), async { tokio::time::sleep(work).await; 7 }).await;
        same!(r.ok(), if late { None } else { Some(7) }, "timeout of {ms} ms");
        same!(tokio::time::timeout(Duration::ZERO, async { 7 }).await.ok(), Some(7), "a timeout of a future that is ready");
        let t = TaskTracker::new();
        same!(t.is_closed(), false, "new");
        let ended = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
        for i in 0..n {
            let e = ended.clone();
            let f = async move {
                tokio::time::sleep(Duration::from_millis(i * 7)).await;
                e.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            };
            if i % 2 == 0 {
                t.spawn(f);
            } else {
                let f = t.track_future(f);
                tokio::spawn(f);
            }
        }
        same!(t.len() as u64, n, "len");
        same!(t.is_empty(), n == 0, "is_empty");
        same!(tokio::time::timeout(Duration::from_secs(1), t.wait()).await.is_err(), true, "wait of an open tracker");
        let more = t.spawn(async { tokio::time::sleep(Duration::from_millis(3)).await });
        same!(t.close(), true, "close");
        same!(t.close(), false, "close again");
        same!(t.is_closed(), true, "is_closed");
        t.wait().await;
        same!(more.is_finished(), true, "wait");
        same!((t.len(), ended.load(std::sync::atomic::Ordering::SeqCst)), (0, n), "wait");
        // a branch whose pattern does not fit is waited for no more
        let x = tokio::select! {
            Some(x) = async { None::<u8> } => x,
            x = async { tokio::task::yield_now().await; 9 } => x,
        };
        same!(x, 9, "select!");
        let l = tokio::sync::RwLock::new(1);
        let w = l.write().await;
        same!(l.write().now_or_never().is_some(), false, "two writers");
        drop(w);
        same!(l.write().now_or_never().map(|w| *w), Some(1), "write");
        Ok(())
    })
}
async fn slow<F: Future>(f: F) -> Result<F::Output, String> {
    tokio::time::timeout(Duration::from_secs(5), f).await.map_err(|_| "does not return".to_string())
}
fn streams(g: &mut G, _: u64) -> R {
    let input = { let n = g.usize(40); g.bytes_n(n) };
    let chunks: Vec<usize> = (0..1 + g.below(4)).map(|_| 1 + g.usize(7)).collect();
    let wch: Vec<usize> = (0..1 + g.below(4)).map(|_| 1 + g.usize(7)).collect();
    let end = g.pick(&[End::Eof, End::Error]);
    let mut io = ScriptIo::new(input.clone(), end, chunks, wch, g.chance(2));
    let fail = g.chance(3).then(|| g.usize(30));
    io.write_error_at = fail;
    let sh = io.sh.clone();
    let ops: Vec<(u64, usize, Vec<u8>)> = (0..g.below(10)).map(|_| (g.below(5), g.usize(12), { let n = g.usize(12); g.bytes_n(n) })).collect();
    let buffered = g.chance(2);
    rt().block_on(async move {
        if buffered {
            drive(BufReader::new(io), input, ops, sh, fail).await
        } else {
            drive(io, input, ops, sh, fail).await
        }
    })
}
async fn drive<S: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin>(
    mut io: S, mut rx: Vec<u8>, ops: Vec<(u64, usize, Vec<u8>)>, sh: std::sync::Arc<std::sync::Mutex<crate::io::Shared>>, fail: Option<usize>,
) -> R {
    let mut tx: Vec<u8> = vec![];
    for (op, n, b) in ops {
        match op {
            0 => {
                let r = slow(io.read_u32()).await?;
                if rx.len() >= 4 {
                    same!(r.ok(), Some(u32::from_be_bytes(rx[..4].try_into().unwrap())), "read_u32");
                    rx.drain(..4);
                } else {
                    same!(r.is_err(), true, "read_u32 at the end");
                    return Ok(());
                }
            }
            1 => {
                let mut d = BytesMut::zeroed(n);
                let r = slow(io.read_exact(&mut d[..])).await?;
                same!(d.len(), n, "read_exact");
                if rx.len() >= n {
                    same!(r.ok(), Some(n), "read_exact");
                    same!(d[..], rx[..n], "read_exact");
                    rx.drain(..n);
                } else {
                    same!(r.is_err(), true, "read_exact at the end");
                    return Ok(());
                }
            }
            2 => {
                let mut d = vec![0xaa; n];
                match slow(io.read(&mut d)).await? {
                    Ok(k) => {
                        same!(k <= n && k <= rx.len() && (k > 0 || n == 0 || rx.is_empty()), true, "read of {k}");
                        same!(d[..k], rx[..k], "read");
                        same!(d[k..].iter().all(|x| *x == 0xaa), true, "read");
                        rx.drain(..k);
                    }
                    Err(_) => return Ok(()),
                }
            }
            3 => {
                let r = slow(io.write_all(&b)).await?;
                let out = sh.lock().unwrap().output.clone();
                if r.is_ok() {
                    tx.extend(&b);
                    same!(out, tx, "write_all");
                } else {
                    same!(fail.is_some(), true, "write_all failed");
                    same!(out.starts_with(&tx) && b.starts_with(&out[tx.len()..]), true, "a write that fails");
                    return Ok(());
                }
            }
            _ => {
                let ok = slow(io.flush()).await?.is_ok();
                same!(sh.lock().unwrap().output, tx, "flush");
                if !ok {
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

pub fn trusted(_: bool) -> Vec<Phase> {
    vec![
        Phase::some("bytes: Buf for slices, Bytes, BytesMut, Cursor", 20000, buf),
        Phase::some("bytes: BufMut, BytesMut, Bytes", 20000, buf_mut),
        Phase::some("std: String::from_utf8, str::from_utf8", 256, from_utf8),
        Phase::some("std: split, trim, join, strip, replace, parse, to_string", 20000, strings),
        Phase::all("std: white space below 0x80, all characters", 272, spaces),
        Phase::all("parse-display: every Version and Capability, both ways", 256, names),
        Phase::some("std: Ipv4Addr, Ipv6Addr", 10000, addresses),
        Phase::some("std: sort, dedup, rev, extend, take, min, max", 10000, sequences),
        Phase::some("std: HashMap, HashSet", 10000, maps),
        Phase::some("dashmap: each operation and entry", 10000, dashmap),
        Phase::some("dashmap: a guard excludes others", 200, dash_guard),
        Phase::some("http: HeaderMap, its order and its limit", 4000, headers),
        Phase::some("tokio: oneshot, mpsc", 20000, channels),
        Phase::some("tokio, tokio-util: CancellationToken, timeout, TaskTracker, select!, RwLock", 1500, tasks),
        Phase::some("tokio: read_u32, read_exact, read, write_all, flush, BufReader", 10000, streams),
    ]
}
