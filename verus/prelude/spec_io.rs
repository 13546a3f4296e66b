// Frames on a stream, fragments, ready-made handlers.
pub mod spec_io {
#[allow(unused_imports)]
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::spec_frame::*;
use crate::spop::error::Error;
use crate::spop::action::Action;
use crate::spop::frame::{frames::Frame, msg::Message};

// ---------------------------------------------------------------- status codes
// The codes of the protocol.
pub open spec fn code_of(e: Error) -> u32 {
    match e {
        Error::Normal => 0, Error::Io => 1, Error::Timeout => 2, Error::TooBig => 3, Error::Invalid => 4, Error::NoVersion => 5,
        Error::NoFrameSize => 6, Error::NoCapabilities => 7, Error::BadVersion => 8, Error::BadFrameSize => 9,
        Error::FragmentNotSupported => 10, Error::InterlacedFrames => 11, Error::FrameIdNotFound => 12, Error::ResourceAllocErr => 13,
        Error::Unknown => 99,
    }
}
pub proof fn lemma_codes(e: Error, n: u32)
    ensures e as u32 == code_of(e), Error::prim_spec(code_of(e)) == Some(e),
        Error::prim_spec(n) is Some <==> n <= 13 || n == 99,
        Error::prim_spec(n) is Some ==> code_of(Error::prim_spec(n)->Some_0) == n,
{ }
pub open spec fn status_of(n: u32) -> Error { match Error::prim_spec(n) { Some(e) => e, None => Error::Unknown } }

// ---------------------------------------------------------------- frames on a stream
// What reading gives, and what is left.
pub open spec fn read_ok(max: int, rx: Seq<u8>, r: Result<Frame, Error>, rx2: Seq<u8>) -> bool {
    if rx.len() < 4 { r == Err::<Frame, Error>(Error::Io) && suffix(rx, rx2) } else {
        let n = d_u32(rx) as int;
        if n > max { r == Err::<Frame, Error>(Error::BadFrameSize) && rx2 == rx.skip(4) }
        else if rx.len() < 4 + n { r == Err::<Frame, Error>(Error::Io) && suffix(rx, rx2) }
        else {
            rx2 == rx.skip(4 + n) && match p_frame(rx.skip(4).take(n)) { Ok(f) => r is Ok && fv(r->Ok_0) == f, Err(_) => r == Err::<Frame, Error>(Error::Invalid) }
        }
    }
}
pub open spec fn wire(f: FV) -> Seq<u8> { e_u32(e_frame(f).len() as u32) + e_frame(f) }
pub open spec fn write_ok(max: int, f: FV, tx: Seq<u8>, r: Result<usize, Error>, tx2: Seq<u8>) -> bool {
    if e_frame(f).len() > max { r == Err::<usize, Error>(Error::TooBig) && tx2 == tx } else {
        match r {
            Ok(n) => tx2 == tx + wire(f) && n == wire(f).len(),
            Err(e) => e == Error::Io && exists|n: int| 0 <= n <= wire(f).len() && tx2 == tx + #[trigger] wire(f).take(n),
        }
    }
}
// Frames of 4 GiB and more are not covered.
pub open spec fn huge(max: int, f: FV) -> bool { u32::MAX < e_frame(f).len() <= max }
pub open spec fn wrote(max: int, f: FV, tx: Seq<u8>, r: Result<usize, Error>, tx2: Seq<u8>) -> bool { huge(max, f) || write_ok(max, f, tx, r, tx2) }
pub proof fn lemma_skip4(s: Seq<u8>)
    requires s.len() >= 4
    ensures forall|n: int| 0 <= n <= s.len() - 4 ==> #[trigger] s.skip(4 + n) == s.skip(4).skip(n), forall|t: Seq<u8>| suffix(s.skip(4), t) ==> suffix(s, t),
{
    assert forall|n: int| 0 <= n <= s.len() - 4 implies #[trigger] s.skip(4 + n) == s.skip(4).skip(n) by { assert(s.skip(4 + n) =~= s.skip(4).skip(n)); }
    assert forall|t: Seq<u8>| suffix(s.skip(4), t) implies suffix(s, t) by {
        let n = choose|n: int| 0 <= n <= s.skip(4).len() && t == #[trigger] s.skip(4).skip(n);
        assert(s.skip(4 + n) == t);
    }
}
// The frames of a list, one after another.
pub open spec fn wires(l: Seq<FV>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { wire(l[0]) + wires(l.skip(1)) }
}
pub open spec fn can_send(f: FV, max: int) -> bool { frame_ok(f) && e_frame(f).len() <= max && e_frame(f).len() <= u32::MAX }
// Writing one frame after another gives wires.
pub proof fn lemma_wires_push(l: Seq<FV>, f: FV) ensures wires(l.push(f)) == wires(l) + wire(f) decreases l.len()
{
    if l.len() > 0 {
        lemma_wires_push(l.skip(1), f);
        assert(l.push(f).skip(1) =~= l.skip(1).push(f));
        assert(wires(l.push(f)) =~= wires(l) + wire(f));
    } else {
        assert(l.push(f).skip(1) =~= Seq::<FV>::empty());
        assert(l.push(f)[0] == f);
        assert(wires(l.push(f).skip(1)) == Seq::<u8>::empty());
        assert(wires(l.push(f)) =~= wires(l) + wire(f));
    }
}
// Reading again and again: st holds what is left before each result, and after
// the last one.
pub open spec fn reads(max: int, st: Seq<Seq<u8>>, rs: Seq<Result<Frame, Error>>) -> bool {
    st.len() == rs.len() + 1 && forall|i: int| 0 <= i < rs.len() ==> read_ok(max, st[i], #[trigger] rs[i], st[i + 1])
}
// C15: whatever was written is read back, equal and in order.
pub proof fn lemma_stream(l: Seq<FV>, max: int, t: Seq<u8>, st: Seq<Seq<u8>>, rs: Seq<Result<Frame, Error>>)
    requires forall|i: int| 0 <= i < l.len() ==> can_send(#[trigger] l[i], max), rs.len() == l.len(), reads(max, st, rs), st[0] == wires(l) + t
    ensures st.last() == t, forall|i: int| 0 <= i < l.len() ==> (#[trigger] rs[i]) is Ok && fv(rs[i]->Ok_0) == l[i]
    decreases l.len()
{
    hide(read_ok); hide(wire); hide(frame_ok); hide(e_frame); hide(fv);
    if l.len() == 0 { assert(wires(l) + t =~= t); } else {
        let u = wires(l.skip(1)) + t;
        assert(wires(l) + t =~= wire(l[0]) + u);
        assert(can_send(l[0], max));
        assert(read_ok(max, st[0], rs[0], st[1]));
        lemma_wire(l[0], max, u, rs[0], st[1]);
        assert forall|i: int| 0 <= i < l.skip(1).len() implies can_send(#[trigger] l.skip(1)[i], max) by { assert(l.skip(1)[i] == l[i + 1]); }
        assert forall|i: int| 0 <= i < rs.skip(1).len() implies read_ok(max, st.skip(1)[i], #[trigger] rs.skip(1)[i], st.skip(1)[i + 1]) by { assert(rs.skip(1)[i] == rs[i + 1]); }
        lemma_stream(l.skip(1), max, t, st.skip(1), rs.skip(1));
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] rs[i]) is Ok && fv(rs[i]->Ok_0) == l[i] by {
            if i > 0 { assert(rs.skip(1)[i - 1] == rs[i]); assert(l.skip(1)[i - 1] == l[i]); }
        }
    }
}
pub proof fn lemma_wire(f: FV, max: int, t: Seq<u8>, r: Result<Frame, Error>, rx2: Seq<u8>)
    requires frame_ok(f), e_frame(f).len() <= max, e_frame(f).len() <= u32::MAX, read_ok(max, wire(f) + t, r, rx2)
    ensures r is Ok, fv(r->Ok_0) == f, rx2 == t
{
    let s = wire(f) + t;
    lemma_frame(f);
    lemma_u32(e_frame(f).len() as u32, e_frame(f) + t);
    assert(s =~= e_u32(e_frame(f).len() as u32) + (e_frame(f) + t));
    assert(s.skip(4).take(e_frame(f).len() as int) =~= e_frame(f));
    assert(s.skip(4 + e_frame(f).len() as int) =~= t);
}

// ---------------------------------------------------------------- fragments
// The table after a fragment, and what it yields.
pub open spec fn part<T>(m: Map<(u64, u64), Vec<T>>, k: (u64, u64)) -> Seq<T> { if m.dom().contains(k) { m[k]@ } else { Seq::empty() } }
pub open spec fn views<T>(m: Map<(u64, u64), Vec<T>>) -> Map<(u64, u64), Seq<T>> { m.map_values(|v: Vec<T>| v@) }
pub open spec fn tab_next<T>(m: Map<(u64, u64), Seq<T>>, fragmented: bool, k: (u64, u64), v: Seq<T>) -> (Map<(u64, u64), Seq<T>>, Option<Seq<T>>) {
    let c = if m.dom().contains(k) { m[k] + v } else { v };
    if fragmented { (m.insert(k, c), None) } else { (m.remove(k), Some(c)) }
}
pub open spec fn vo<T>(o: Option<Vec<T>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
pub proof fn lemma_views<T>(m: Map<(u64, u64), Vec<T>>, k: (u64, u64))
    ensures views(m).dom().contains(k) == m.dom().contains(k), m.dom().contains(k) ==> views(m)[k] == m[k]@,
        views(m.remove(k)) == views(m).remove(k), forall|v: Vec<T>| #[trigger] views(m.insert(k, v)) == views(m).insert(k, v@),
        forall|s: Seq<T>| Seq::<T>::empty() + s == s,
        !m.dom().contains(k) ==> views(m).remove(k) == views(m),
{
    assert(views(m.remove(k)) =~= views(m).remove(k));
    assert forall|v: Vec<T>| #[trigger] views(m.insert(k, v)) == views(m).insert(k, v@) by { assert(views(m.insert(k, v)) =~= views(m).insert(k, v@)); }
    assert forall|s: Seq<T>| Seq::<T>::empty() + s == s by { assert(Seq::<T>::empty() + s =~= s); }
    if !m.dom().contains(k) { assert(views(m).remove(k) =~= views(m)); }
}
// A history of fragments: (fragmented, key, value).
pub struct Frag<T> { pub fragmented: bool, pub key: (u64, u64), pub value: Seq<T> }
pub open spec fn tab_run<T>(h: Seq<Frag<T>>) -> Map<(u64, u64), Seq<T>> decreases h.len() {
    if h.len() == 0 { Map::empty() } else { tab_next(tab_run(h.drop_last()), h.last().fragmented, h.last().key, h.last().value).0 }
}
// The contents of the fragments of one pair since it was last completed.
pub open spec fn since<T>(h: Seq<Frag<T>>, k: (u64, u64)) -> Option<Seq<T>> decreases h.len() {
    if h.len() == 0 { None } else {
        let p = since(h.drop_last(), k);
        if h.last().key != k { p }
        else if !h.last().fragmented { None }
        else { match p { Some(s) => Some(s + h.last().value), None => Some(h.last().value) } }
    }
}
// C17, for every history: what is kept for a pair is what was said of it, and
// the final fragment yields it with its own.
pub proof fn lemma_tab_run<T>(h: Seq<Frag<T>>, k: (u64, u64))
    ensures match since(h, k) { Some(s) => tab_run(h).dom().contains(k) && tab_run(h)[k] == s, None => !tab_run(h).dom().contains(k) }
    decreases h.len()
{ if h.len() > 0 { lemma_tab_run(h.drop_last(), k); } }
pub proof fn lemma_tab_final<T>(h: Seq<Frag<T>>, k: (u64, u64), v: Seq<T>)
    ensures
        tab_next(tab_run(h), true, k, v).1 is None,
        tab_next(tab_run(h), false, k, v).1 == Some(match since(h, k) { Some(s) => s + v, None => v }),
        forall|k2: (u64, u64), b: bool| k2 != k ==> #[trigger] tab_next(tab_run(h), b, k, v).0.dom().contains(k2) == tab_run(h).dom().contains(k2),
        !tab_next(tab_run(h), false, k, v).0.dom().contains(k),
{ lemma_tab_run(h, k); }

// ---------------------------------------------------------------- handlers
pub open spec fn disc_err<T>(d: u32) -> Result<T, Error> { Err(status_of(d)) }
}
