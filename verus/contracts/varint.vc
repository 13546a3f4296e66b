@fn spop::data::varint::get -> r
    ensures match p_varint(old(buf).rem()) {
        Some((v, t)) => r == Some(v) && final(buf).rem() == t,
        None => r is None,
    },
@body
    broadcast use lemma_p_varint_shrinks;
    reveal(p_varint);
    let ghost rem0 = buf.rem();
    proof { lemma_pow2_consts(); }
@loop 0 while
    invariant
        r == 4 || r == 11 || r == 18 || r == 25 || r == 32 || r == 39 || r == 46 || r == 53 || r == 60,
        rem0 == old(buf).rem(),
        p_varint(rem0) == p_more(buf.rem(), n, r as nat),
    ensures
        p_varint(rem0) is None,
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_pow2_consts(); assert(pow2(60nat) == 0x1000000000000000); assert(r == 60 ==> buf.rem()[0] * pow2(r as nat) == buf.rem()[0] * 0x1000000000000000); lemma_p_more(buf.rem(), n, r as nat); lemma_shift(buf.rem()[0], n, r as u64); assert(((u64::MAX - n) as u64 >> r) == (u64::MAX - n) as u64 >> (r as u64)); assert(((buf.rem()[0] as u64) << r) == ((buf.rem()[0] as u64) << (r as u64)));  }
@fn spop::data::varint::put -> r
    ensures final(buf).out() == old(buf).out() + e_varint(n), r == e_varint(n).len(),
        final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_varint;
    let ghost n0 = n;
    let ghost out0 = buf.out();
    proof { lemma_varint_len(n); lemma_put_varint(buf.out(), n); }
@before 0
    // what is still to be counted
    let ghost d = buf.out().len() - out0.len() - sz;
@loop 0 while
    invariant
        buf.out() + e_tail(n as nat) == out0 + e_varint(n0),
        sz + d == buf.out().len() - out0.len(), -10 <= d <= 10,
        e_varint(n0).len() <= 10,
    decreases n,
@loopbody 0
    proof { lemma_put_tail(buf.out(), n as nat); bits_or_80(n); bits_shr7((n - 128) as u64); 
    assert(((n as u8) | 0x80) == 128 + n % 128);
    assert(((n - 0x80) as u64 >> 7) == (n - 128) / 128);
    }
@fn spop::data::varint::size_of -> r
    ensures r == e_varint(n).len(),
@body
    proof { lemma_size_of(n); }
