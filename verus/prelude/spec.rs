// What the protocol says, as functions over sequences of bytes, and the
// lemmas that tie the two directions.
pub mod spec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
pub use vstd::arithmetic::power2::*;
use crate::shim::*;

pub open spec fn e_u32(n: u32) -> Seq<u8> {
    seq![(n / 0x1000000) as u8, ((n / 0x10000) % 256) as u8, ((n / 0x100) % 256) as u8, (n % 256) as u8]
}
pub open spec fn d_u32(s: Seq<u8>) -> u32 {
    (s[0] * 0x1000000 + s[1] * 0x10000 + s[2] * 0x100 + s[3]) as u32
}

// ---------------------------------------------------------------- varints
pub open spec fn e_tail(m: nat) -> Seq<u8> decreases m {
    if m < 128 { seq![m as u8] } else { seq![(128 + m % 128) as u8] + e_tail(((m - 128) / 128) as nat) }
}
#[verifier::opaque]
pub open spec fn e_varint(n: u64) -> Seq<u8> {
    if n < 240 { seq![n as u8] } else { seq![(240 + n % 16) as u8] + e_tail(((n - 240) / 16) as nat) }
}
pub open spec fn p_tail(s: Seq<u8>) -> Option<(nat, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] < 128 { Some((s[0] as nat, s.skip(1))) }
    else { match p_tail(s.skip(1)) { Some((v, t)) => Some(((s[0] + 128 * v) as nat, t)), None => None } }
}
// The value must fit in 64 bits.
#[verifier::opaque]
pub open spec fn p_varint(s: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] < 240 { Some((s[0] as u64, s.skip(1))) }
    else { match p_tail(s.skip(1)) {
        Some((v, t)) => if s[0] + 16 * v <= u64::MAX { Some(((s[0] + 16 * v) as u64, t)) } else { None },
        None => None,
    } }
}
pub proof fn lemma_tail(m: nat, t: Seq<u8>)
    ensures p_tail(e_tail(m) + t) == Some((m, t)), e_tail(m).len() >= 1,
    decreases m
{
    let s = e_tail(m) + t;
    if m < 128 {
        assert(s.skip(1) =~= t);
    } else {
        let k = ((m - 128) / 128) as nat;
        lemma_tail(k, t);
        assert(s.skip(1) =~= e_tail(k) + t);
    }
}
pub broadcast proof fn lemma_varint(n: u64, t: Seq<u8>)
    ensures p_varint(#[trigger] (e_varint(n) + t)) == Some((n, t)), e_varint(n).len() >= 1,
{
    reveal(e_varint); reveal(p_varint);
    let s = e_varint(n) + t;
    if n < 240 {
        assert(s.skip(1) =~= t);
    } else {
        let k = ((n - 240) / 16) as nat;
        lemma_tail(k, t);
        assert(s.skip(1) =~= e_tail(k) + t);
    }
}
// The size classes of the protocol: 1 to 10 bytes.
pub open spec fn size_tail(m: nat) -> nat {
    if m < 0x80 { 1 } else if m < 0x4080 { 2 } else if m < 0x204080 { 3 } else if m < 0x10204080 { 4 }
    else if m < 0x810204080 { 5 } else if m < 0x40810204080 { 6 } else if m < 0x2040810204080 { 7 }
    else if m < 0x102040810204080 { 8 } else { 9 }
}
pub proof fn lemma_tail_size(m: nat)
    requires m < 0x1000000000000000
    ensures e_tail(m).len() == size_tail(m),
    decreases m
{ if m >= 128 { lemma_tail_size(((m - 128) / 128) as nat); } }
pub open spec fn varint_size(n: u64) -> nat {
    if n < 0xf0 { 1 } else if n < 0x8f0 { 2 } else if n < 0x408f0 { 3 } else if n < 0x20408f0 { 4 }
    else if n < 0x1020408f0 { 5 } else if n < 0x81020408f0 { 6 } else if n < 0x4081020408f0 { 7 }
    else if n < 0x204081020408f0 { 8 } else if n < 0x10204081020408f0 { 9 } else { 10 }
}
pub proof fn lemma_size_of(n: u64)
    ensures e_varint(n).len() == varint_size(n),
{ reveal(e_varint); if n >= 240 { lemma_tail_size(((n - 240) / 16) as nat); } }
pub broadcast proof fn lemma_varint_len(n: u64)
    ensures 1 <= (#[trigger] e_varint(n)).len() <= 10,
{ lemma_size_of(n); }
// one step of writing
pub proof fn lemma_put_tail(o: Seq<u8>, m: nat)
    ensures
        m < 128 ==> o + e_tail(m) == o.push(m as u8) && e_tail(m).len() == 1,
        m >= 128 ==> o + e_tail(m) == o.push((128 + m % 128) as u8) + e_tail(((m - 128) / 128) as nat)
            && e_tail(m).len() == 1 + e_tail(((m - 128) / 128) as nat).len(),
{
    if m < 128 { assert(o + e_tail(m) =~= o.push(m as u8)); }
    else { assert(o + e_tail(m) =~= o.push((128 + m % 128) as u8) + e_tail(((m - 128) / 128) as nat)); }
}
pub proof fn lemma_put_varint(o: Seq<u8>, n: u64)
    ensures
        n < 240 ==> o + e_varint(n) == o.push(n as u8) && e_varint(n).len() == 1,
        n >= 240 ==> o + e_varint(n) == o.push((240 + n % 16) as u8) + e_tail(((n - 240) / 16) as nat)
            && e_varint(n).len() == 1 + e_tail(((n - 240) / 16) as nat).len(),
{
    reveal(e_varint);
    if n < 240 { assert(o + e_varint(n) =~= o.push(n as u8)); }
    else { assert(o + e_varint(n) =~= o.push((240 + n % 16) as u8) + e_tail(((n - 240) / 16) as nat)); }
}
// What is left to read when `n` has been read, and the next byte counts 2^r.
pub open spec fn p_more(s: Seq<u8>, n: u64, r: nat) -> Option<(u64, Seq<u8>)> {
    match p_tail(s) {
        Some((v, t)) => if n + v * pow2(r) <= u64::MAX { Some(((n + v * pow2(r)) as u64, t)) } else { None },
        None => None,
    }
}
pub proof fn lemma_pow2_consts()
    ensures pow2(0) == 1, pow2(4) == 16, pow2(7) == 128, pow2(11) == 0x800, pow2(18) == 0x40000, pow2(25) == 0x2000000,
        pow2(32) == 0x100000000, pow2(39) == 0x8000000000, pow2(46) == 0x400000000000, pow2(53) == 0x20000000000000,
        pow2(60) == 0x1000000000000000, pow2(14) == 0x4000, pow2(21) == 0x200000, pow2(28) == 0x10000000,
        pow2(35) == 0x800000000, pow2(42) == 0x40000000000, pow2(49) == 0x2000000000000, pow2(56) == 0x100000000000000,
{
    lemma2_to64();
    lemma2_to64_rest();
}
pub proof fn lemma_p_more(s: Seq<u8>, n: u64, r: nat)
    ensures
        s.len() == 0 ==> p_more(s, n, r) is None,
        s.len() > 0 && n + s[0] * pow2(r) > u64::MAX ==> p_more(s, n, r) is None,
        s.len() > 0 && n + s[0] * pow2(r) <= u64::MAX ==> p_more(s, n, r) == (
            if s[0] < 128 { Some(((n + s[0] * pow2(r)) as u64, s.skip(1))) }
            else { p_more(s.skip(1), (n + s[0] * pow2(r)) as u64, r + 7) }),
{
    lemma_pow2_pos(r);
    if s.len() > 0 && s[0] >= 128 {
        lemma_pow2_adds(7, r);
        lemma2_to64();
        match p_tail(s.skip(1)) {
            Some((v, t)) => {
                let p = pow2(r);
                assert(pow2(r + 7) == 128 * p);
                assert((s[0] + 128 * v) * p == s[0] * p + v * (128 * p)) by (nonlinear_arith);
                assert(v * (128 * p) >= 0) by (nonlinear_arith);
            }
            None => {}
        }
    }
}
pub proof fn lemma_shift(b: u8, n: u64, r: u64)
    requires r <= 60
    ensures
        (b as u64 > (((u64::MAX - n) as u64) >> r)) == (n + b * pow2(r as nat) > u64::MAX),
        n + b * pow2(r as nat) <= u64::MAX ==> ((b as u64) << r) == b * pow2(r as nat),
{
    let m = (u64::MAX - n) as u64;
    let p = pow2(r as nat);
    lemma_pow2_pos(r as nat);
    vstd::bits::lemma_u64_shr_is_div(m, r);
    let q = m as int / p as int;
    assert(q * p <= m < q * p + p) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, p as int); vstd::arithmetic::div_mod::lemma_mod_bound(m as int, p as int);
        assert(p * q == q * p) by (nonlinear_arith); }
    if b > q { assert(b * p >= (q + 1) * p) by (nonlinear_arith) requires b >= q + 1, p > 0; assert((q + 1) * p == q * p + p) by (nonlinear_arith); }
    else { assert(b * p <= q * p) by (nonlinear_arith) requires b <= q, p > 0; }
    if n + b * p <= u64::MAX { vstd::bits::lemma_u64_shl_is_mul(b as u64, r); }
}
pub broadcast proof fn lemma_p_tail_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_tail(s) { Some((v, t)) => t.len() < s.len(), None => true },
    decreases s.len()
{ if s.len() > 0 && s[0] >= 128 { lemma_p_tail_shrinks(s.skip(1)); } }
pub broadcast proof fn lemma_p_varint_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_varint(s) { Some((v, t)) => t.len() < s.len(), None => true },
{ reveal(p_varint); if s.len() > 0 { lemma_p_tail_shrinks(s.skip(1)); } }

// bit operations as arithmetic
pub broadcast proof fn bits_or_f0(n: u64) ensures #[trigger] ((n as u8) | 0xF0u8) == 240 + n % 16,
{ assert(((n as u8) | 0xF0u8) == 240u64 + n % 16u64) by (bit_vector); }
pub broadcast proof fn bits_or_80(n: u64) ensures #[trigger] ((n as u8) | 0x80u8) == 128 + n % 128,
{ assert(((n as u8) | 0x80u8) == 128u64 + n % 128u64) by (bit_vector); }
pub broadcast proof fn bits_shr4(n: u64) ensures #[trigger] (n >> 4u64) == n / 16,
{ assert((n >> 4u64) == n / 16u64) by (bit_vector); }
pub broadcast proof fn bits_shr7(n: u64) ensures #[trigger] (n >> 7u64) == n / 128,
{ assert((n >> 7u64) == n / 128u64) by (bit_vector); }
pub broadcast group group_varint { bits_or_f0, bits_or_80, bits_shr4, bits_shr7 }
}
