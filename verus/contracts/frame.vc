
@impl spop::frame::metadata::Default for Metadata
open spec fn default_spec() -> Self { Metadata { flags: Flags::FIN, stream_id: 0, frame_id: 0 } }
@impl spop::version::Default for Version
open spec fn default_spec() -> Self { Version { major: 2, minor: 0 } }
@impl spop::frame::kv::From<Punctuated<I>> for Typed
open spec fn from_spec(v: Punctuated<I>) -> Self { Typed::String(mk_string(join(names(v.0.seq()), v.1@))) }
open spec fn room(v: Punctuated<I>) -> bool { vstd::utf8::encode_utf8(join(names(v.0.seq()), v.1@)).len() <= isize::MAX }
@impl spop::frame::decode::FromIterator<(String,Typed)> for KVList
open spec fn from_iter_spec(s: Seq<(String, Typed)>) -> Self { KVList(mk_map(of_pairs(s))) }
@fn spop::frame::kv::From<Punctuated<I>> for Typed::from
@body
    broadcast use group_shim;
@loop 0 each
    invariant texts(__acc0@) + names(__it0@) == names(items.seq()),
    ensures texts(__acc0@) == names(items.seq()),
    decreases __it0@.len(),
@loopbody 0
    let ghost a0 = __acc0@;
    let ghost i0 = __it0@;
    proof { if i0.len() > 0 { assert(texts(a0) + names(i0) =~= texts(a0).push(i0[0].disp()) + names(i0.skip(1)));
      assert forall|s: String| s@ == i0[0].disp() implies #[trigger] texts(a0.push(s)) == texts(a0).push(i0[0].disp()) by { assert(texts(a0.push(s)) =~= texts(a0).push(i0[0].disp())); } } else { assert(texts(a0) + names(i0) =~= texts(a0)); } }

@fn spop::version::Version::new -> r
    ensures r == (Version { major, minor }),
@fn spop::version::Default for Version::default
@fn spop::action::Action::set_var -> r
    ensures r == (Action::SetVar { scope, name: name.into_spec(), value: value.into_spec() }),
@fn spop::action::Action::unset_var -> r
    ensures r == (Action::UnsetVar { scope, name: name.into_spec() }),
@fn spop::frame::metadata::Default for Metadata::default
@fn spop::frame::metadata::Metadata::is_final -> r
    ensures r == mdv(*self).fin,
@body
    proof { bits_flags(self.flags.b); }
@fn spop::frame::metadata::Metadata::fragmented -> r
    ensures r == !mdv(*self).fin,
@fn spop::frame::metadata::Metadata::aborted -> r
    ensures r == mdv(*self).abort,
@body
    proof { bits_flags(self.flags.b); }
@fn spop::frame::metadata::Metadata::size -> r
    ensures r == e_md(*self).len(),
@body
    proof { lemma_varint_len(self.stream_id); lemma_varint_len(self.frame_id); }
@fn spop::frame::haproxy::Notify::metadata -> r
    ensures r.flags.b == fl(!self.fragmented, false), r.stream_id == self.stream_id, r.frame_id == self.frame_id,
@fn spop::frame::agent::Ack::metadata -> r
    ensures r.flags.b == fl(!self.fragmented, self.aborted), r.stream_id == self.stream_id, r.frame_id == self.frame_id,
@body
    proof { bits_flags(0); }
@fn spop::frame::agent::Ack::new -> r
    ensures kv_(r) == (AckV { fragmented: false, aborted: false, stream_id, frame_id, actions: Seq::empty() }),
@body
    proof { assert(avs(Seq::<Action>::empty()) =~= Seq::<ActV>::empty()); }
@fn spop::frame::disconnect::Disconnect::new -> r
    ensures r.status_code == status as u32, r.message == reason.into_spec(),
@fn spop::frame::frames::Frame::frame_type -> r
    ensures r as u8 == e_frame(fv(*self))[0],
@fn spop::frame::frames::Frame::haproxy_disconnect -> r
    ensures fv(r) == FV::HaproxyDisconnect(DiscV { code: status as u32, msg: reason.into_spec()@ }),
@fn spop::frame::frames::Frame::agent_disconnect -> r
    ensures fv(r) == FV::AgentDisconnect(DiscV { code: status as u32, msg: reason.into_spec()@ }),
@fn spop::frame::frames::Frame::metadata -> r
    ensures match *self {
        Frame::HaproxyNotify(n) => r is Some && r->Some_0.stream_id == n.stream_id && r->Some_0.frame_id == n.frame_id
            && r->Some_0.flags.b == fl(!n.fragmented, false),
        Frame::AgentAck(a) => r is Some && r->Some_0.stream_id == a.stream_id && r->Some_0.frame_id == a.frame_id
            && r->Some_0.flags.b == fl(!a.fragmented, a.aborted),
        _ => r is None,
    },
@fn spop::frame::frames::Frame::notify -> r
    ensures r is HaproxyNotify, !r->HaproxyNotify_0.fragmented, r->HaproxyNotify_0.stream_id == stream_id, r->HaproxyNotify_0.frame_id == frame_id,
        r->HaproxyNotify_0.messages@ == intos::<T, Message>(msgs.seq()),
@body
    broadcast use group_shim;
@loop 0 each
    invariant __acc0@ + intos::<T, Message>(__it0@) == intos::<T, Message>(msgs.seq()),
    ensures __acc0@ == intos::<T, Message>(msgs.seq()),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_intos::<T, Message>(__acc0@, __it0@); }
@fn spop::frame::frames::Frame::ack -> r
    ensures r is AgentAck, !r->AgentAck_0.fragmented, !r->AgentAck_0.aborted, r->AgentAck_0.stream_id == stream_id, r->AgentAck_0.frame_id == frame_id,
        r->AgentAck_0.actions@ == intos::<T, Action>(actions.seq()),
@body
    broadcast use group_shim;
@loop 0 each
    invariant __acc0@ + intos::<T, Action>(__it0@) == intos::<T, Action>(actions.seq()),
    ensures __acc0@ == intos::<T, Action>(actions.seq()),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_intos::<T, Action>(__acc0@, __it0@); }

@fn spop::frame::msg::Message::new -> r
    ensures r.name == name.into_spec(), r.args@ == intos2::<K, V>(args.seq()),
@body
    broadcast use group_shim;
@loop 0 each
    invariant __acc0@ + intos2::<K, V>(__it0@) == intos2::<K, V>(args.seq()),
    ensures __acc0@ == intos2::<K, V>(args.seq()),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_intos2::<K, V>(__acc0@, __it0@); }
@fn spop::frame::msg::Message::builder -> r
    ensures r.0.name == name.into_spec(), r.0.args@.len() == 0,
@fn spop::frame::msg::Builder::arg -> r
    ensures r.0.name == self.0.name, r.0.args@ == self.0.args@.push((name.into_spec(), value.into_spec())),
@fn spop::frame::msg::Builder::args -> r
    ensures r.0.name == self.0.name, r.0.args@ == self.0.args@ + intos2::<K, V>(args_.seq()),
@body
    broadcast use group_shim;
@loop 0 each
    invariant __acc0@ + intos2::<K, V>(__it0@) == intos2::<K, V>(args_.seq()),
    ensures __acc0@ == intos2::<K, V>(args_.seq()),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_intos2::<K, V>(__acc0@, __it0@); }
@fn spop::frame::msg::Builder::build -> r
    ensures r == self.0,

@fn spop::frame::kv::punctuated -> r
    ensures r.0@ == i.seq(), r.1@ == comma(),
@body
    proof { lemma_keys(); }
@fn spop::frame::kv::supported_versions -> r
    ensures k_room(r) ==> k_of(r) == (k_versions(), TV::String(list_text(versions@))),
@body
    broadcast use group_shim;
    proof { lemma_names_refs(versions@); }
@fn spop::frame::kv::version -> r
    ensures k_room(r) ==> k_of(r) == (k_version(), TV::String(list_text(seq![version_]))),
@body
    broadcast use group_shim;
@fn spop::frame::kv::max_frame_size -> r
    ensures k_of(r) == (k_max(), TV::Uint32(sz)),
@fn spop::frame::kv::capabilities -> r
    ensures k_room(r) ==> k_of(r) == (k_caps(), TV::String(list_text(caps@))),
@body
    broadcast use group_shim;
    proof { lemma_names_refs(caps@); }
@fn spop::frame::kv::healthcheck -> r
    ensures k_of(r) == (k_health(), TV::Boolean(enable)),
@fn spop::frame::kv::engine_id -> r
    ensures k_of(r) == (k_engine(), TV::String(id@)),
@body
    broadcast use group_shim;
@fn spop::frame::kv::status_code -> r
    ensures k_of(r) == (k_status(), TV::Uint32(code)),
@fn spop::frame::kv::message -> r
    ensures k_of(r) == (k_msg(), TV::String(msg@)),
@body
    broadcast use group_shim;

@supertrait spop::frame::encode::BufMutExt BufMut
@fn spop::frame::encode::BufMutExt::put_frame
    requires put_ok(fv(frame)),
    ensures final(self).out() == old(self).out() + e_frame(fv(frame)), final(self).out().len() <= isize::MAX,
@fn spop::frame::encode::frame
    requires put_ok(fv(frame_)),
    ensures final(buf).out() == old(buf).out() + e_frame(fv(frame_)), final(buf).out().len() <= isize::MAX,
@body
    let ghost out0 = buf.out();
    let ghost f0 = fv(frame_);
    proof { assert forall|b: u8| #[trigger] out0.push(b) == out0 + seq![b] by { assert(out0.push(b) =~= out0 + seq![b]); }
      assert forall|b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] (out0 + b + c + d) == out0 + (b + c + d) by { assert(out0 + b + c + d =~= out0 + (b + c + d)); }
      assert forall|b: Seq<u8>, c: Seq<u8>| #[trigger] (out0 + b + c) == out0 + (b + c) by { assert(out0 + b + c =~= out0 + (b + c)); } }
@fn spop::frame::encode::metadata
    ensures final(buf).out() == old(buf).out() + e_md(metadata_), final(buf).out().len() <= isize::MAX,
@body
    let ghost out0 = buf.out();
    proof { assert forall|b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] (out0 + b + c + d) == out0 + (b + c + d) by { assert(out0 + b + c + d =~= out0 + (b + c + d)); } }
@fn spop::frame::encode::haproxy_hello
    ensures final(buf).out() == old(buf).out() + e_kvs(kvs_hhello(hhv(hello))), final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
    let ghost out0 = buf.out();
    proof { lemma_put_hhello(out0, hhv(hello)); }
@fn spop::frame::encode::agent_hello
    ensures final(buf).out() == old(buf).out() + e_kvs(kvs_ahello(ahv(hello))), final(buf).out().len() <= isize::MAX,
@body
    let ghost out0 = buf.out();
    proof { lemma_put_ahello(out0, ahv(hello)); }
@fn spop::frame::encode::disconnect
    ensures final(buf).out() == old(buf).out() + e_kvs(kvs_disc(dv(disconnect_))), final(buf).out().len() <= isize::MAX,
@body
    let ghost out0 = buf.out();
    proof { lemma_put_disc(out0, dv(disconnect_)); }
@fn spop::frame::encode::haproxy_notify
    requires put_ok(FV::HaproxyNotify(nv(notify))), old(buf).out().len() <= isize::MAX,
    ensures final(buf).out() == old(buf).out() + e_msgs(mvs(notify.messages@)), final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
    let ghost out0 = buf.out();
    let ghost ms = notify.messages@;
    proof { lemma_put_ok(notify); }
@loop 0 each
    invariant
        buf.out() + e_msgs(mvs(__it0@)) == out0 + e_msgs(mvs(ms)), out0 == old(buf).out(),
        forall|i: int| 0 <= i < __it0@.len() ==> (#[trigger] __it0@[i]).args@.len() <= 255,
        buf.out().len() <= isize::MAX,
    ensures buf.out() == out0 + e_msgs(mvs(ms)),
    decreases __it0@.len(),
@loopbody 0
    broadcast use axiom_string_str;
    proof { lemma_put_msg(buf.out(), __it0@); }
@fn spop::frame::encode::agent_ack
    requires old(buf).out().len() <= isize::MAX,
    ensures final(buf).out() == old(buf).out() + e_acts(avs(ack.actions@)), final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
    let ghost out0 = buf.out();
    let ghost acts = ack.actions@;
@loop 0 each
    invariant
        buf.out() + e_acts(avs(__it0@)) == out0 + e_acts(avs(acts)), out0 == old(buf).out(),
        buf.out().len() <= isize::MAX,
    ensures buf.out() == out0 + e_acts(avs(acts)),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_put_act(buf.out(), __it0@); }
@fn spop::frame::encode::action
    ensures final(buf).out() == old(buf).out() + e_act(av(action_)), final(buf).out().len() <= isize::MAX,
@body
    broadcast use group_shim;
    let ghost out0 = buf.out();
    let ghost a0 = av(action_);
    proof { assert forall|b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] (out0 + b + c + d) == out0 + (b + c + d) by { assert(out0 + b + c + d =~= out0 + (b + c + d)); }
      assert forall|b: Seq<u8>, c: Seq<u8>| #[trigger] (out0 + b + c) == out0 + (b + c) by { assert(out0 + b + c =~= out0 + (b + c)); } }

@supertrait spop::frame::decode::BufExt Buf
@module spop::frame::decode
#[allow(unused_imports)]
use crate::spop::error::Error;
@fn spop::frame::decode::BufExt::get_frame -> r
    ensures match p_frame(old(self).rem()) { Ok(f) => r is Ok && fv(r->Ok_0) == f, Err(e) => r == Err::<Frame, Error>(e) },
@fn spop::frame::decode::frame -> r
    ensures match p_frame(old(buf).rem()) { Ok(f) => r is Ok && fv(r->Ok_0) == f, Err(e) => r == Err::<Frame, Error>(e) },
@fn spop::frame::decode::get_u8 -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 ==> r == Some(old(buf).rem()[0]) && final(buf).rem() == old(buf).rem().skip(1),
@fn spop::frame::decode::try_from_u8 -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 ==> r == T::prim(old(buf).rem()[0]) && final(buf).rem() == old(buf).rem().skip(1),
@fn spop::frame::decode::frame_type -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 ==> r == frame::Type::prim(old(buf).rem()[0]) && final(buf).rem() == old(buf).rem().skip(1),
@fn spop::frame::decode::action_type -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 ==> r == action::Type::prim(old(buf).rem()[0]) && final(buf).rem() == old(buf).rem().skip(1),
@fn spop::frame::decode::scope -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None,
        old(buf).rem().len() > 0 ==> r == scope_of(old(buf).rem()[0]) && final(buf).rem() == old(buf).rem().skip(1),
@fn spop::frame::decode::metadata -> r
    ensures match p_meta(old(buf).rem()) {
        Some((m, t)) => r is Some && mdv(r->Some_0) == m && final(buf).rem() == t,
        None => r is None,
    },
@body
    proof { if buf.rem().len() >= 4 { bits_flags(d_u32(buf.rem())); } }

@fn spop::frame::decode::FromIterator<(String,Typed)> for KVList::from_iter
@body
    broadcast use group_shim;
@fn spop::frame::decode::KVList::string -> r
    ensures ov(r) == m_str(kl(*old(self)), key@), kl(*final(self)) == kl(*old(self)).remove(key@),
@body
    proof { lemma_kl_remove(*old(self), key@); }
@fn spop::frame::decode::KVList::boolean -> r
    ensures r == m_bool(kl(*old(self)), key@), kl(*final(self)) == kl(*old(self)).remove(key@),
@body
    proof { lemma_kl_remove(*old(self), key@); }
@fn spop::frame::decode::KVList::uint -> r
    ensures r == m_uint(kl(*old(self)), key@), kl(*final(self)) == kl(*old(self)).remove(key@),
@body
    proof { lemma_kl_remove(*old(self), key@); }
@fn spop::frame::decode::KVList::supported_versions -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_versions()),
        match m_versions(kl(*old(self))) { Ok(l) => r is Ok && r->Ok_0@ == l, Err(e) => r == Err::<Vec<Version>, Error>(e) },
@body
    broadcast use group_shim;
@loop 0 each
    invariant_except_break __stop0 is None, match d_versions(texts(__it0@)) { Some(r) => d_versions(split(s@, ',')) == Some(__acc0@ + r), None => d_versions(split(s@, ',')) is None },
    ensures __stop0 is Some ==> d_versions(split(s@, ',')) is None, __stop0 is None ==> d_versions(split(s@, ',')) == Some(__acc0@),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_step_versions(__acc0@, __it0@); }
@fn spop::frame::decode::KVList::version -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_version()), r == m_version(kl(*old(self))),
@fn spop::frame::decode::KVList::max_frame_size -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_max()), r == m_max(kl(*old(self))),
@fn spop::frame::decode::KVList::capabilities -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_caps()),
        match m_caps(kl(*old(self))) { Ok(l) => r is Ok && r->Ok_0@ == l, Err(e) => r == Err::<Vec<Capability>, Error>(e) },
@body
    broadcast use group_shim;
@loop 0 each
    invariant_except_break __stop0 is None, match d_caps(texts(__it0@)) { Some(r) => d_caps(split(s@, ',')) == Some(__acc0@ + r), None => d_caps(split(s@, ',')) is None },
    ensures __stop0 is Some ==> d_caps(split(s@, ',')) is None, __stop0 is None ==> d_caps(split(s@, ',')) == Some(__acc0@),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_step_caps(__acc0@, __it0@); }
@fn spop::frame::decode::KVList::status_code -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_status()), r == m_status(kl(*old(self))),
@fn spop::frame::decode::KVList::message -> r
    ensures kl(*final(self)) == kl(*old(self)).remove(k_msg()), r@ == m_msg(kl(*old(self))),
@body
    broadcast use group_shim;

@fn spop::frame::decode::haproxy_hello -> r
    ensures match p_hhello(old(buf).rem()) { Ok(h) => r is Ok && hhv(r->Ok_0) == h, Err(e) => r == Err::<haproxy::Hello, Error>(e) },
@body
    let ghost rem0 = buf.rem();
    proof { lemma_keys();
      assert forall|s: Seq<(String, Typed)>| kl(#[trigger] KVList::from_iter_spec(s)) == kvmap(args(s)) by { lemma_of_pairs(s); axiom_mk_map::<String, Typed>(of_pairs(s)); } }
@loop 0 each
    invariant_except_break !__stop0, match p_kvs(buf.rem()) { Some(r) => p_kvs(rem0) == Some(args(__acc0@) + r), None => p_kvs(rem0) is None },
    ensures __stop0 ==> p_kvs(rem0) is None, !__stop0 ==> p_kvs(rem0) == Some(args(__acc0@)),
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_step_kvs(__acc0@, buf.rem()); }
@fn spop::frame::decode::agent_hello -> r
    ensures match p_ahello(old(buf).rem()) { Ok(h) => r is Ok && ahv(r->Ok_0) == h, Err(e) => r == Err::<agent::Hello, Error>(e) },
@body
    let ghost rem0 = buf.rem();
    proof { lemma_keys();
      assert forall|s: Seq<(String, Typed)>| kl(#[trigger] KVList::from_iter_spec(s)) == kvmap(args(s)) by { lemma_of_pairs(s); axiom_mk_map::<String, Typed>(of_pairs(s)); } }
@loop 0 each
    invariant_except_break !__stop0, match p_kvs(buf.rem()) { Some(r) => p_kvs(rem0) == Some(args(__acc0@) + r), None => p_kvs(rem0) is None },
    ensures __stop0 ==> p_kvs(rem0) is None, !__stop0 ==> p_kvs(rem0) == Some(args(__acc0@)),
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_step_kvs(__acc0@, buf.rem()); }
@fn spop::frame::decode::disconnect -> r
    ensures match p_disc(old(buf).rem()) { Ok(h) => r is Ok && dv(r->Ok_0) == h, Err(e) => r == Err::<frame::Disconnect, Error>(e) },
@body
    let ghost rem0 = buf.rem();
    proof { lemma_keys();
      assert forall|s: Seq<(String, Typed)>| kl(#[trigger] KVList::from_iter_spec(s)) == kvmap(args(s)) by { lemma_of_pairs(s); axiom_mk_map::<String, Typed>(of_pairs(s)); } }
@loop 0 each
    invariant_except_break !__stop0, match p_kvs(buf.rem()) { Some(r) => p_kvs(rem0) == Some(args(__acc0@) + r), None => p_kvs(rem0) is None },
    ensures __stop0 ==> p_kvs(rem0) is None, !__stop0 ==> p_kvs(rem0) == Some(args(__acc0@)),
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_step_kvs(__acc0@, buf.rem()); }
@fn spop::frame::decode::message -> r
    ensures match p_msg(old(buf).rem()) {
        Some((m, t)) => r is Some && mv(r->Some_0) == m && final(buf).rem() == t,
        None => r is None,
    },
@body
    broadcast use group_shim;
    let ghost rem1 = match p_string(buf.rem()) { Some((x, t)) => t.skip(1), None => buf.rem() };
@loop 0 each
    invariant_except_break !__stop0, __k0 <= __k0_end, __k0_end == nb, __acc0@.len() == __k0,
        match p_nkvs(buf.rem(), (nb - __k0) as nat) { Some((r, t)) => p_nkvs(rem1, nb as nat) == Some((args(__acc0@) + r, t)), None => p_nkvs(rem1, nb as nat) is None },
    ensures
        __acc0@.len() <= nb, __stop0 || __acc0@.len() < nb ==> p_nkvs(rem1, nb as nat) is None,
        !__stop0 && __acc0@.len() == nb ==> p_nkvs(rem1, nb as nat) == Some((args(__acc0@), buf.rem())),
    decreases __k0_end - __k0,
@loopbody 0
    proof { lemma_step_nkvs(__acc0@, buf.rem(), (nb - __k0) as nat); }
@fn spop::frame::decode::action -> r
    ensures match p_act(old(buf).rem()) {
        Some((m, t)) => r is Some && av(r->Some_0) == m && final(buf).rem() == t,
        None => r is None,
    },
@body
    let ghost rem0 = buf.rem();
    proof { if rem0.len() >= 3 { assert(rem0.skip(1).skip(1).skip(1) =~= rem0.skip(3)); assert(rem0.skip(1)[0] == rem0[1]); assert(rem0.skip(1).skip(1)[0] == rem0[2]); } }
@fn spop::frame::decode::list_of_messages__next -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None && final(buf).rem() == old(buf).rem(),
        old(buf).rem().len() > 0 ==> r is Some && match p_msg(old(buf).rem()) {
            Some((v, t)) => r->Some_0 is Some && mv(r->Some_0->Some_0) == v && final(buf).rem() == t,
            None => r->Some_0 is None,
        },
@fn spop::frame::decode::list_of_actions__next -> r
    ensures
        old(buf).rem().len() == 0 ==> r is None && final(buf).rem() == old(buf).rem(),
        old(buf).rem().len() > 0 ==> r is Some && match p_act(old(buf).rem()) {
            Some((v, t)) => r->Some_0 is Some && av(r->Some_0->Some_0) == v && final(buf).rem() == t,
            None => r->Some_0 is None,
        },
@fn spop::frame::decode::haproxy_notify -> r
    ensures match p_msgs(old(buf).rem()) {
        Some(l) => r is Ok && nv(r->Ok_0) == (NotifyV { fragmented: !mdv(md).fin, stream_id: md.stream_id, frame_id: md.frame_id, messages: l }),
        None => r == Err::<haproxy::Notify, Error>(Error::Invalid),
    },
@body
    broadcast use group_shim;
    let ghost rem0 = buf.rem();
@loop 0 each
    invariant_except_break !__stop0, match p_msgs(buf.rem()) { Some(r) => p_msgs(rem0) == Some(mvs(__acc0@) + r), None => p_msgs(rem0) is None },
    ensures __stop0 ==> p_msgs(rem0) is None, !__stop0 ==> p_msgs(rem0) == Some(mvs(__acc0@)),
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_step_msgs(__acc0@, buf.rem()); }
@fn spop::frame::decode::agent_ack -> r
    ensures match p_acts(old(buf).rem()) {
        Some(l) => r is Ok && kv_(r->Ok_0) == (AckV { fragmented: !mdv(md).fin, aborted: mdv(md).abort, stream_id: md.stream_id, frame_id: md.frame_id, actions: l }),
        None => r == Err::<agent::Ack, Error>(Error::Invalid),
    },
@body
    broadcast use group_shim;
    let ghost rem0 = buf.rem();
@loop 0 each
    invariant_except_break !__stop0, match p_acts(buf.rem()) { Some(r) => p_acts(rem0) == Some(avs(__acc0@) + r), None => p_acts(rem0) is None },
    ensures __stop0 ==> p_acts(rem0) is None, !__stop0 ==> p_acts(rem0) == Some(avs(__acc0@)),
    decreases buf.rem().len(),
@loopbody 0
    proof { lemma_step_acts(__acc0@, buf.rem()); }
