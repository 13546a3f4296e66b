@impl spop::data::typed::From<()> for Typed
open spec fn from_spec(v: ()) -> Self { Typed::Null }
@impl spop::data::typed::From<&str> for Typed
open spec fn from_spec(v: &str) -> Self { Typed::String(mk_string(v@)) }
@impl spop::data::typed::From<&'a[u8]> for Typed
open spec fn from_spec(v: &'a [u8]) -> Self { Typed::Binary(mk_bytes(v@)) }
@impl spop::data::typed::From<Box<[u8]>> for Typed
open spec fn from_spec(v: Box<[u8]>) -> Self { Typed::Binary(mk_bytes((*v)@)) }
@impl spop::data::typed::From<Vec<u8>> for Typed
open spec fn from_spec(v: Vec<u8>) -> Self { Typed::Binary(mk_bytes(v@)) }
@impl spop::data::typed::From<BytesMut> for Typed
open spec fn from_spec(v: BytesMut) -> Self { Typed::Binary(mk_bytes(v@)) }
@impl spop::data::typed::From<IpAddr> for Typed
open spec fn from_spec(v: IpAddr) -> Self { match v { IpAddr::V4(a) => Typed::Ipv4(a), IpAddr::V6(a) => Typed::Ipv6(a) } }
@fn spop::data::typed::From<()> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<&str> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<&'a[u8]> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<Box<[u8]>> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<Vec<u8>> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<BytesMut> for Typed::from
@body
    broadcast use group_shim;
@fn spop::data::typed::From<IpAddr> for Typed::from
@body
    broadcast use group_shim;

@impl spop::data::value::From<(&'static str,T)> for KeyValue
open spec fn from_spec(v: (&'static str, T)) -> Self { KeyValue(Cow::Borrowed(v.0), v.1) }
@impl spop::data::value::From<(String,T)> for KeyValue
open spec fn from_spec(v: (String, T)) -> Self { KeyValue(Cow::Owned(v.0), v.1) }

@supertrait spop::data::buf::BufExt Buf
@supertrait spop::data::buf::BufMutExt BufMut
@module spop::data::buf
#[allow(unused_imports)]
use vstd::utf8::*;
@fn spop::data::buf::BufExt::typed -> r
    ensures match p_typed(old(self).rem()) {
        Some((v, t)) => r is Some && tv(r->Some_0) == v && final(self).rem() == t,
        None => r is None,
    },
@fn spop::data::buf::BufExt::varint -> r
    ensures match p_varint(old(self).rem()) {
        Some((v, t)) => r == Some(v) && final(self).rem() == t,
        None => r is None,
    },
@fn spop::data::buf::BufExt::string -> r
    ensures match p_string(old(self).rem()) {
        Some((v, t)) => r is Some && r->Some_0@ == v && final(self).rem() == t,
        None => r is None,
    },
@fn spop::data::buf::BufExt::kv -> r
    ensures match p_kv(old(self).rem()) {
        Some((v, t)) => r is Some && arg(r->Some_0) == v && final(self).rem() == t,
        None => r is None,
    },
@fn spop::data::buf::BufExt::kv_list__next -> r
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && match p_kv(old(self).rem()) {
            Some((v, t)) => r->Some_0 is Some && arg(r->Some_0->Some_0) == v && final(self).rem() == t,
            None => r->Some_0 is None,
        },
@fn spop::data::buf::BufExt for T::string
@body
    broadcast use group_shim;
@fn spop::data::buf::get_bytes -> r
    ensures match p_fixed(old(buf).rem(), n as nat) {
        Some((b, t)) => r is Some && r->Some_0@ == b && final(buf).rem() == t,
        None => r is None,
    },
@fn spop::data::buf::typed_data -> r
    ensures match p_typed(old(buf).rem()) {
        Some((v, t)) => r is Some && tv(r->Some_0) == v && final(buf).rem() == t,
        None => r is None,
    },
@body
    broadcast use group_shim;
    proof { if buf.rem().len() > 0 { bits_typed(buf.rem()[0]); } }
@fn spop::data::buf::typed_data_type -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 && old(buf).rem()[0] % 16 > 9 ==> r is None,
        old(buf).rem().len() > 0 && old(buf).rem()[0] % 16 <= 9 ==> r is Some && final(buf).rem() == old(buf).rem().skip(1)
            && r->Some_0.0 as u8 == old(buf).rem()[0] % 16 && r->Some_0.1.b == (old(buf).rem()[0] & 0xF0) & 0x10,
@body
    broadcast use group_shim;
    proof { if buf.rem().len() > 0 { bits_typed(buf.rem()[0]); } }
@fn spop::data::buf::BufMutExt::put_typed -> r
    ensures final(self).out() == old(self).out() + e_typed(tv(data.into_spec())), r == e_typed(tv(data.into_spec())).len(),
        final(self).out().len() <= isize::MAX,
@fn spop::data::buf::BufMutExt::put_varint -> r
    ensures final(self).out() == old(self).out() + e_varint(n), r == e_varint(n).len(),
        final(self).out().len() <= isize::MAX,
@fn spop::data::buf::BufMutExt::put_string -> r
    ensures final(self).out() == old(self).out() + e_string(s.ref_spec()@), r == e_string(s.ref_spec()@).len(),
        final(self).out().len() <= isize::MAX,
@fn spop::data::buf::BufMutExt::put_kv -> r
    ensures final(self).out() == old(self).out() + e_kv(kv_of::<KV, V>(kv)), r == e_kv(kv_of::<KV, V>(kv)).len(),
        final(self).out().len() <= isize::MAX, kv_room::<KV, V>(kv),
@body
    broadcast use group_shim;
@fn spop::data::buf::BufMutExt::put_kvlist -> r
    ensures final(self).out() == old(self).out() + e_kvlist::<KV, V>(i.seq()), r == e_kvlist::<KV, V>(i.seq()).len(),
        old(self).out().len() <= isize::MAX ==> final(self).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
    let ghost out0 = self.out();
@loop 0 each
    invariant
        self.out() + e_kvlist::<KV, V>(__it0@) == out0 + e_kvlist::<KV, V>(i.seq()),
        sz + e_kvlist::<KV, V>(__it0@).len() == e_kvlist::<KV, V>(i.seq()).len(),
        sz <= self.out().len(), sz > 0 ==> self.out().len() <= isize::MAX,
    ensures __it0@.len() == 0,
    decreases __it0@.len(),
@loopbody 0
    proof {
        if __it0@.len() > 0 {
            let x = e_kv(kv_of::<KV, V>(__it0@[0]));
            assert(self.out() + e_kvlist::<KV, V>(__it0@) =~= self.out() + x + e_kvlist::<KV, V>(__it0@.skip(1)));
        }
    }
@fn spop::data::buf::BufMutExt for T::put_typed
@body
    broadcast use group_shim;
    proof { bits_typed(0); }
@fn spop::data::buf::put_bytes -> r
    ensures final(buf).out() == old(buf).out() + e_bytes(b.ref_spec()@), r == e_bytes(b.ref_spec()@).len(),
        final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
