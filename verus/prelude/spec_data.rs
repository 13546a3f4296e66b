// Typed data, key-value pairs.
pub mod spec_data {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use crate::shim::*;
use crate::spec::*;
use crate::spop::data::typed::Typed;
use crate::spop::data::value::KeyValue;

pub enum TV {
    Null,
    Boolean(bool),
    Int32(i32),
    Uint32(u32),
    Int64(i64),
    Uint64(u64),
    Ipv4(Seq<u8>),
    Ipv6(Seq<u8>),
    String(Seq<char>),
    Binary(Seq<u8>),
}
pub open spec fn tv(t: Typed) -> TV {
    match t {
        Typed::Null => TV::Null,
        Typed::Boolean(b) => TV::Boolean(b),
        Typed::Int32(n) => TV::Int32(n),
        Typed::Uint32(n) => TV::Uint32(n),
        Typed::Int64(n) => TV::Int64(n),
        Typed::Uint64(n) => TV::Uint64(n),
        Typed::Ipv4(a) => TV::Ipv4(a.o()),
        Typed::Ipv6(a) => TV::Ipv6(a.o()),
        Typed::String(s) => TV::String(s@),
        Typed::Binary(b) => TV::Binary(b@),
    }
}
pub open spec fn tv_ok(v: TV) -> bool {
    match v {
        TV::Ipv4(a) => a.len() == 4,
        TV::Ipv6(a) => a.len() == 16,
        TV::String(s) => encode_utf8(s).len() <= isize::MAX,
        TV::Binary(b) => b.len() <= isize::MAX,
        _ => true,
    }
}
// The view tells everything.
pub proof fn lemma_tv_inj(a: Typed, b: Typed) requires tv(a) == tv(b) ensures a == b {
    broadcast use group_shim;
    match (a, b) {
        (Typed::Ipv4(x), Typed::Ipv4(y)) => { assert(mk_v4(x.o()) == x); assert(mk_v4(y.o()) == y); }
        (Typed::Ipv6(x), Typed::Ipv6(y)) => { assert(mk_v6(x.o()) == x); assert(mk_v6(y.o()) == y); }
        (Typed::String(x), Typed::String(y)) => { assert(mk_string(x@) == x); assert(mk_string(y@) == y); }
        (Typed::Binary(x), Typed::Binary(y)) => { assert(mk_bytes(x@) == x); assert(mk_bytes(y@) == y); }
        _ => {}
    }
}

pub open spec fn e_bytes(b: Seq<u8>) -> Seq<u8> { e_varint(b.len() as u64) + b }
pub open spec fn e_string(s: Seq<char>) -> Seq<u8> { e_bytes(encode_utf8(s)) }
pub open spec fn e_typed(v: TV) -> Seq<u8> {
    match v {
        TV::Null => seq![0u8],
        TV::Boolean(b) => seq![if b { 0x11u8 } else { 0x01u8 }],
        TV::Int32(n) => seq![2u8] + e_varint(n as u64),
        TV::Uint32(n) => seq![3u8] + e_varint(n as u64),
        TV::Int64(n) => seq![4u8] + e_varint(n as u64),
        TV::Uint64(n) => seq![5u8] + e_varint(n),
        TV::Ipv4(a) => seq![6u8] + a,
        TV::Ipv6(a) => seq![7u8] + a,
        TV::String(s) => seq![8u8] + e_string(s),
        TV::Binary(b) => seq![9u8] + e_bytes(b),
    }
}
pub open spec fn p_fixed(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() >= n { Some((s.take(n as int), s.skip(n as int))) } else { None }
}
pub open spec fn p_bytes(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match p_varint(s) { Some((n, t)) => p_fixed(t, n as nat), None => None }
}
pub open spec fn p_string(s: Seq<u8>) -> Option<(Seq<char>, Seq<u8>)> {
    match p_bytes(s) {
        Some((b, t)) => if valid_utf8(b) { Some((decode_utf8(b), t)) } else { None },
        None => None,
    }
}
// The low half of the first byte is the type, the high half are the flags.
pub open spec fn p_typed(s: Seq<u8>) -> Option<(TV, Seq<u8>)> {
    if s.len() == 0 { None } else {
        let ty = s[0] % 16;
        let t = s.skip(1);
        if ty == 0 { Some((TV::Null, t)) }
        else if ty == 1 { Some((TV::Boolean((s[0] / 16) % 2 == 1), t)) }
        else if ty == 2 { match p_varint(t) { Some((n, t)) => Some((TV::Int32(n as i32), t)), None => None } }
        else if ty == 3 { match p_varint(t) { Some((n, t)) => Some((TV::Uint32(n as u32), t)), None => None } }
        else if ty == 4 { match p_varint(t) { Some((n, t)) => Some((TV::Int64(n as i64), t)), None => None } }
        else if ty == 5 { match p_varint(t) { Some((n, t)) => Some((TV::Uint64(n), t)), None => None } }
        else if ty == 6 { match p_fixed(t, 4) { Some((a, t)) => Some((TV::Ipv4(a), t)), None => None } }
        else if ty == 7 { match p_fixed(t, 16) { Some((a, t)) => Some((TV::Ipv6(a), t)), None => None } }
        else if ty == 8 { match p_string(t) { Some((x, t)) => Some((TV::String(x), t)), None => None } }
        else if ty == 9 { match p_bytes(t) { Some((b, t)) => Some((TV::Binary(b), t)), None => None } }
        else { None }
    }
}
pub proof fn lemma_fixed(b: Seq<u8>, t: Seq<u8>)
    ensures p_fixed(b + t, b.len()) == Some((b, t))
{ assert((b + t).take(b.len() as int) =~= b); assert((b + t).skip(b.len() as int) =~= t); }
pub broadcast proof fn lemma_bytes(b: Seq<u8>, t: Seq<u8>)
    requires b.len() <= isize::MAX
    ensures p_bytes(#[trigger] (e_bytes(b) + t)) == Some((b, t))
{
    assert(e_bytes(b) + t =~= e_varint(b.len() as u64) + (b + t));
    lemma_varint(b.len() as u64, b + t);
    lemma_fixed(b, t);
}
pub broadcast proof fn lemma_string(s: Seq<char>, t: Seq<u8>)
    requires encode_utf8(s).len() <= isize::MAX
    ensures p_string(#[trigger] (e_string(s) + t)) == Some((s, t))
{
    lemma_bytes(encode_utf8(s), t);
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
pub proof fn lemma_casts(a: i32, b: i64, c: u32)
    ensures ((a as u64) as i32) == a, ((b as u64) as i64) == b, ((c as u64) as u32) == c
{
    assert(((a as u64) as i32) == a) by (bit_vector);
    assert(((b as u64) as i64) == b) by (bit_vector);
}
pub broadcast proof fn lemma_typed(v: TV, t: Seq<u8>)
    requires tv_ok(v)
    ensures p_typed(#[trigger] (e_typed(v) + t)) == Some((v, t)), e_typed(v).len() >= 1,
{
    let s = e_typed(v) + t;
    let tail = e_typed(v).skip(1) + t;
    assert(s.skip(1) =~= tail);
    match v {
        TV::Int32(n) => { lemma_casts(n, 0, 0); lemma_varint(n as u64, t); assert(tail =~= e_varint(n as u64) + t); }
        TV::Uint32(n) => { lemma_casts(0, 0, n); lemma_varint(n as u64, t); assert(tail =~= e_varint(n as u64) + t); }
        TV::Int64(n) => { lemma_casts(0, n, 0); lemma_varint(n as u64, t); assert(tail =~= e_varint(n as u64) + t); }
        TV::Uint64(n) => { lemma_varint(n, t); assert(tail =~= e_varint(n) + t); }
        TV::Ipv4(a) => { lemma_fixed(a, t); assert(tail =~= a + t); }
        TV::Ipv6(a) => { lemma_fixed(a, t); assert(tail =~= a + t); }
        TV::String(x) => { lemma_string(x, t); assert(tail =~= e_string(x) + t); }
        TV::Binary(b) => { lemma_bytes(b, t); assert(tail =~= e_bytes(b) + t); }
        _ => { assert(tail =~= t); }
    }
}
pub broadcast proof fn lemma_p_bytes_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_bytes(s) { Some((v, t)) => t.len() < s.len() && v.len() < s.len(), None => true },
{ lemma_p_varint_shrinks(s); }
pub broadcast proof fn lemma_p_string_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_string(s) { Some((v, t)) => t.len() < s.len(), None => true },
{ lemma_p_bytes_shrinks(s); }
pub broadcast proof fn lemma_p_typed_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_typed(s) { Some((v, t)) => t.len() < s.len(), None => true },
{ if s.len() > 0 { lemma_p_varint_shrinks(s.skip(1)); lemma_p_bytes_shrinks(s.skip(1)); lemma_p_string_shrinks(s.skip(1)); } }

// ---------------------------------------------------------------- pairs
pub type KV = (Seq<char>, TV);
pub open spec fn kv_ok(x: KV) -> bool { encode_utf8(x.0).len() <= isize::MAX && tv_ok(x.1) }
pub open spec fn arg(a: (String, Typed)) -> KV { (a.0@, tv(a.1)) }
pub open spec fn args(s: Seq<(String, Typed)>) -> Seq<KV> { s.map_values(|a: (String, Typed)| arg(a)) }
pub open spec fn e_kv(x: KV) -> Seq<u8> { e_string(x.0) + e_typed(x.1) }
pub open spec fn p_kv(s: Seq<u8>) -> Option<(KV, Seq<u8>)> {
    match p_string(s) {
        Some((k, t)) => match p_typed(t) { Some((v, t)) => Some(((k, v), t)), None => None },
        None => None,
    }
}
pub broadcast proof fn lemma_kv(x: KV, t: Seq<u8>)
    requires kv_ok(x)
    ensures p_kv(#[trigger] (e_kv(x) + t)) == Some((x, t)), e_kv(x).len() >= 1,
{
    assert(e_kv(x) + t =~= e_string(x.0) + (e_typed(x.1) + t));
    lemma_string(x.0, e_typed(x.1) + t);
    lemma_typed(x.1, t);
}
pub broadcast proof fn lemma_p_kv_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_kv(s) { Some((v, t)) => t.len() < s.len(), None => true },
{ lemma_p_string_shrinks(s); match p_string(s) { Some((k, t)) => lemma_p_typed_shrinks(t), None => {} } }
pub open spec fn e_kvs(s: Seq<KV>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { e_kv(s[0]) + e_kvs(s.skip(1)) }
}
// Pairs until the end.
pub open spec fn p_kvs(s: Seq<u8>) -> Option<Seq<KV>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match p_kv(s) {
            Some((x, t)) => if t.len() < s.len() { match p_kvs(t) { Some(r) => Some(seq![x] + r), None => None } } else { None },
            None => None,
        }
    }
}
pub proof fn lemma_kvs(l: Seq<KV>)
    requires forall|i: int| 0 <= i < l.len() ==> kv_ok(#[trigger] l[i])
    ensures p_kvs(e_kvs(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        let t = e_kvs(l.skip(1));
        lemma_kv(l[0], t);
        lemma_kvs(l.skip(1));
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); }
}
// Exactly `n` pairs.
pub open spec fn p_nkvs(s: Seq<u8>, n: nat) -> Option<(Seq<KV>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match p_kv(s) {
            Some((x, t)) => match p_nkvs(t, (n - 1) as nat) { Some((r, t)) => Some((seq![x] + r, t)), None => None },
            None => None,
        }
    }
}
pub proof fn lemma_nkvs(l: Seq<KV>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> kv_ok(#[trigger] l[i])
    ensures p_nkvs(e_kvs(l) + t, l.len()) == Some((l, t))
    decreases l.len()
{
    if l.len() > 0 {
        let u = e_kvs(l.skip(1)) + t;
        assert(e_kvs(l) + t =~= e_kv(l[0]) + u);
        lemma_kv(l[0], u);
        lemma_nkvs(l.skip(1), t);
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); assert(e_kvs(l) + t =~= t); }
}
// What a value that can be turned into a pair stands for.
pub open spec fn kv_of<'a, K: Into<KeyValue<'a, V>>, V: Into<Typed>>(k: K) -> KV {
    (k.into_spec().0.ref_spec()@, tv(k.into_spec().1.into_spec()))
}
pub open spec fn kv_room<'a, K: Into<KeyValue<'a, V>>, V: Into<Typed>>(k: K) -> bool { k.into_spec().1.into_room() }
pub open spec fn e_kvlist<'a, K: Into<KeyValue<'a, V>>, V: Into<Typed>>(s: Seq<K>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { e_kv(kv_of::<K, V>(s[0])) + e_kvlist::<K, V>(s.skip(1)) }
}
pub proof fn lemma_kv_of_arg(a: (String, Typed))
    ensures kv_of::<(String, Typed), Typed>(a) == arg(a)
{ axiom_string_str(&a.0); }
pub proof fn lemma_kvlist_args(s: Seq<(String, Typed)>)
    ensures e_kvlist::<(String, Typed), Typed>(s) == e_kvs(args(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_kvlist_args(s.skip(1));
        lemma_kv_of_arg(s[0]);
        assert(args(s)[0] == arg(s[0]));
        assert(args(s).skip(1) =~= args(s.skip(1)));
    }
}
pub proof fn bits_typed(b: u8)
    ensures b & 0x0F == b % 16, ((b & 0xF0) & 0x10 & 0x10 == 0x10) == ((b / 16) % 2 == 1),
        1u8 | 0x10u8 == 0x11u8, 1u8 | 0u8 == 1u8, 0x10u8 | 1u8 == 0x11u8, 0u8 | 1u8 == 1u8,
{
    assert(b & 0x0F == b % 16) by (bit_vector);
    assert(((b & 0xF0) & 0x10 & 0x10 == 0x10) == ((b / 16) % 2 == 1)) by (bit_vector);
    assert(1u8 | 0x10u8 == 0x11u8) by (bit_vector);
    assert(1u8 | 0u8 == 1u8) by (bit_vector);
    assert(0x10u8 | 1u8 == 0x11u8) by (bit_vector);
    assert(0u8 | 1u8 == 1u8) by (bit_vector);
}
}
