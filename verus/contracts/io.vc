@fn spop::handler::notify_handler__call -> r
    ensures r == (match frame {
        Frame::HaproxyNotify(n) => Ok::<Option<Vec<Message>>, Error>(Some(n.messages)),
        Frame::HaproxyDisconnect(d) => Err(status_of(d.status_code)),
        _ => Err(Error::Invalid),
    }),
@fn spop::handler::ack_handler__call -> r
    ensures r == (match frame {
        Frame::AgentAck(n) => Ok::<Option<Vec<Action>>, Error>(Some(n.actions)),
        Frame::AgentDisconnect(d) => Err(status_of(d.status_code)),
        _ => Err(Error::Invalid),
    }),

@fn spop::frame::fragment::Table::reassemble -> r
    ensures ({ let n = tab_next(views(old(self).0@), fragmented, key, value@);
        r is Ok && vo(r->Ok_0) == n.1 && views(final(self).0@) == n.0 }),
@mutself
@body
    proof { lemma_views(self.0@, key); }
@fn spop::frame::fragment::Reassembly::reassemble -> r
    ensures ({ let n = tab_next(views(old(self).0.0@), fragmented, (stream_id, frame_id), value@);
        r is Ok && vo(r->Ok_0) == n.1 && views(final(self).0.0@) == n.0 }),
@mutself
@impl spop::frame::fragment::Default for Table
open spec fn default_spec() -> Self { Table(mk_dash(Map::empty())) }
@impl spop::frame::fragment::Default for Reassembly
open spec fn default_spec() -> Self { Reassembly(Table(mk_dash(Map::empty()))) }
@impl spop::handler::AsyncHandler
spec fn handle_spec(old: &Self, frame: Frame, r: Result<T, Self::Error>, new: &Self) -> bool;
@fn spop::handler::AsyncHandler::handle_frame -> r
    ensures Self::handle_spec(old(self), frame, r, final(self)),
@impl spop::frame::fragment::AsyncHandler<Option<Vec<Message>>>for Reassembly
open spec fn handle_spec(old: &Self, frame: Frame, r: Result<Option<Vec<Message>>>, new: &Self) -> bool {
    match frame {
        Frame::HaproxyNotify(n) => { let t = tab_next(views(old.0.0@), n.fragmented, (n.stream_id, n.frame_id), n.messages@);
            r is Ok && vo(r->Ok_0) == t.1 && views(new.0.0@) == t.0 },
        Frame::HaproxyDisconnect(_) => r == Err::<Option<Vec<Message>>, Error>(Error::Normal),
        _ => r == Err::<Option<Vec<Message>>, Error>(Error::Invalid),
    }
}
@impl spop::frame::fragment::AsyncHandler<Option<Vec<Action>>>for Reassembly
open spec fn handle_spec(old: &Self, frame: Frame, r: Result<Option<Vec<Action>>>, new: &Self) -> bool {
    match frame {
        Frame::AgentAck(n) => { let t = tab_next(views(old.0.0@), n.fragmented, (n.stream_id, n.frame_id), n.actions@);
            r is Ok && vo(r->Ok_0) == t.1 && views(new.0.0@) == t.0 },
        Frame::AgentDisconnect(_) => r == Err::<Option<Vec<Action>>, Error>(Error::Normal),
        _ => r == Err::<Option<Vec<Action>>, Error>(Error::Invalid),
    }
}
@fn spop::frame::fragment::AsyncHandler<Option<Vec<Message>>>for Reassembly::handle_frame
@fn spop::frame::fragment::AsyncHandler<Option<Vec<Action>>>for Reassembly::handle_frame
@fn spop::frame::fragment::Default for Table::default
@fn spop::frame::fragment::Default for Reassembly::default

@fn spop::frame::framer::Framer::new -> r
    ensures r.max_frame_size == max_frame_size,
@fn spop::frame::framer::Framer::set_max_frame_size
    ensures final(self).max_frame_size == max_frame_size,
@fn spop::frame::framer::Framer::read_frame -> res
    ensures read_ok(self.max_frame_size as int, old(r).rx(), res, final(r).rx()), final(r).tx() == old(r).tx(), final(r).broken() == old(r).broken(),
@body
    proof { if r.rx().len() >= 4 { lemma_skip4(r.rx()); } }
@fn spop::frame::framer::read_frame -> res
    ensures
        final(r).tx() == old(r).tx(), final(r).broken() == old(r).broken(),
        old(r).rx().len() < len ==> res == Err::<Bytes, crate::spop::error::Error>(crate::spop::error::Error::Io) && suffix(old(r).rx(), final(r).rx()),
        old(r).rx().len() >= len ==> res is Ok && res->Ok_0@ == old(r).rx().take(len as int) && final(r).rx() == old(r).rx().skip(len as int),
@fn spop::frame::framer::Framer::write_frame -> res
    requires put_ok(fv(frame)),
    ensures wrote(self.max_frame_size as int, fv(frame), old(w).tx(), res, final(w).tx()), old(w).broken() ==> final(w).broken(),
        res == Err::<usize, crate::spop::error::Error>(crate::spop::error::Error::Io) ==> final(w).broken(), final(w).rx() == old(w).rx(),
        res == Err::<usize, crate::spop::error::Error>(crate::spop::error::Error::TooBig) ==> e_frame(fv(frame)).len() > self.max_frame_size,
@fn spop::frame::framer::write_frame -> res
    requires put_ok(fv(frame)), buf@.len() == 0,
    ensures res@.len() == 4 + e_frame(fv(frame)).len(), res@ == wire(fv(frame)),
@fn spop::frame::codec::BufCodec::buffered -> r
    ensures r.stream.rx() == stream.rx(), r.stream.tx() == stream.tx(), r.stream.broken() == stream.broken(), r.stream.around() == stream, r.framer == framer,
@fn spop::frame::codec::Codec::new -> r
    ensures r.stream == stream, r.framer == framer,
@fn spop::frame::codec::Codec::set_max_frame_size
    ensures final(self).framer.max_frame_size == max_frame_size, final(self).stream == old(self).stream,
@fn spop::frame::codec::Codec::read_frame -> r
    ensures read_ok(old(self).framer.max_frame_size as int, old(self).stream.rx(), r, final(self).stream.rx()),
        final(self).stream.tx() == old(self).stream.tx(), final(self).framer == old(self).framer, final(self).stream.broken() == old(self).stream.broken(),
@fn spop::frame::codec::Codec::write_frame -> r
    requires put_ok(fv(frame)),
    ensures wrote(old(self).framer.max_frame_size as int, fv(frame), old(self).stream.tx(), r, final(self).stream.tx()),
        final(self).stream.rx() == old(self).stream.rx(), final(self).framer == old(self).framer, old(self).stream.broken() ==> final(self).stream.broken(),
        r == Err::<usize, crate::spop::error::Error>(crate::spop::error::Error::Io) ==> final(self).stream.broken(),
        r == Err::<usize, crate::spop::error::Error>(crate::spop::error::Error::TooBig) ==> e_frame(fv(frame)).len() > old(self).framer.max_frame_size,
