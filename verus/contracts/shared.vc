@fn spop::frame::shared::Table::reassemble -> r
    ensures r is Ok, atomic(old(self).0.log(), final(self).0.log(), fragmented, key, value@, vo(r->Ok_0)),
@mutself
@body
    broadcast use {crate::shim_shared::lemma_steps, crate::shim_shared::lemma_to, crate::shim_shared::lemma_empty_front};
@fn spop::frame::shared::Reassembly::reassemble -> r
    ensures r is Ok, atomic(old(self).0.0.log(), final(self).0.0.log(), fragmented, (stream_id, frame_id), value@, vo(r->Ok_0)),
@mutself
@impl spop::frame::shared::Default for Table
open spec fn default_spec() -> Self { Table(DashMap::default_spec()) }
@impl spop::frame::shared::Default for Reassembly
open spec fn default_spec() -> Self { Reassembly(Table::default_spec()) }
@impl spop::frame::shared::AsyncHandler<Option<Vec<Message>>>for Reassembly
open spec fn handle_spec(old: &Self, frame: Frame, r: Result<Option<Vec<Message>>>, new: &Self) -> bool {
    match frame {
        Frame::HaproxyNotify(n) => r is Ok && atomic(old.0.0.log(), new.0.0.log(), n.fragmented, (n.stream_id, n.frame_id), n.messages@, vo(r->Ok_0)),
        _ => r is Err && new.0.0.log() == old.0.0.log(),
    }
}
@impl spop::frame::shared::AsyncHandler<Option<Vec<Action>>>for Reassembly
open spec fn handle_spec(old: &Self, frame: Frame, r: Result<Option<Vec<Action>>>, new: &Self) -> bool {
    match frame {
        Frame::AgentAck(n) => r is Ok && atomic(old.0.0.log(), new.0.0.log(), n.fragmented, (n.stream_id, n.frame_id), n.actions@, vo(r->Ok_0)),
        _ => r is Err && new.0.0.log() == old.0.0.log(),
    }
}
@fn spop::frame::shared::AsyncHandler<Option<Vec<Message>>>for Reassembly::handle_frame
@fn spop::frame::shared::AsyncHandler<Option<Vec<Action>>>for Reassembly::handle_frame
