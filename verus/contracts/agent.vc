@supertrait spoa::error::Reason Display
@inherent spoa::runtime::acker::Drop for Acker
@inherent spoa::error::From<Error>for Disconnect
@fn spoa::state::process::AsyncHandler<S,T>for Processing::handle_frame -> r
@refmut reassembly
@body
    broadcast use {group_shim, lemma_intos_same, lemma_called};

@fn spoa::error::Error::status -> r
    ensures r == stat_of(*self),
    decreases edepth(*self),
@body
    broadcast use group_agent;
@fn spoa::error::From<Error>for Disconnect::from -> r
    ensures r.status_code == code_of(told(err)),
@body
    broadcast use group_agent;
    proof { lemma_codes(told(err), 0); }
@impl spoa::error::Context
spec fn ctx_rel(self, r: StdResult<T, Error>) -> bool;
@fn spoa::error::Context::context -> r
    ensures self.ctx_rel(r),
@fn spoa::error::Context::with_context -> r
    requires f.requires(()),
    ensures self.ctx_rel(r),
@impl spoa::error::Context<T,E>for StdResult
open spec fn ctx_rel(self, r: StdResult<T, Error>) -> bool { ctx_ok(self, r) }
@fn spoa::error::Context<T,E>for StdResult::context -> r
@fn spoa::error::Context<T,E>for StdResult::with_context -> r

@impl spoa::runtime::processor::Stream for Processor
open spec fn rest(&self) -> Seq<(Acker, Messages)> { self.0.rest().map_values(|p: (Acker, UnboundedReceiver<Message>)| (p.0, Messages(p.1))) }
open spec fn wakes(&self, cx: Context) -> bool { self.0.wakes(cx) }
@impl spoa::runtime::processor::Stream for Messages
open spec fn rest(&self) -> Seq<Message> { self.0.rest() }
open spec fn wakes(&self, cx: Context) -> bool { self.0.wakes(cx) }
@fn spoa::runtime::processor::Stream for Processor::poll_next -> r
@body
    proof {
        let f = |p: (Acker, UnboundedReceiver<Message>)| (p.0, Messages(p.1));
        if self.0.rest().len() > 0 { assert(self.0.rest().skip(1).map_values(f) =~= self.0.rest().map_values(f).skip(1)); }
    }
@fn spoa::runtime::processor::Stream for Messages::poll_next -> r

@fn spoa::runtime::builder::Builder::new -> r
    ensures r.supported_versions@ == Set::<Version>::empty(), r.capabilities@ == Set::<Capability>::empty(), r.max_frame_size is None, r.max_process_time is None,
@body
    broadcast use group_agent;
@fn spoa::runtime::builder::Builder::version -> r
    ensures r.supported_versions@ == self.supported_versions@.insert(version_), same_rest(self, r, true, false, false, false),
@fn spoa::runtime::builder::Builder::fragmentation -> r
    ensures r.capabilities@ == self.capabilities@.insert(Capability::Fragmentation), same_rest(self, r, false, true, false, false),
@fn spoa::runtime::builder::Builder::pipelining -> r
    ensures r.capabilities@ == self.capabilities@.insert(Capability::Pipelining), same_rest(self, r, false, true, false, false),
@fn spoa::runtime::builder::Builder::asynchronous -> r
    ensures r.capabilities@ == self.capabilities@.insert(Capability::Async), same_rest(self, r, false, true, false, false),
@fn spoa::runtime::builder::Builder::capability -> r
    ensures r.capabilities@ == self.capabilities@.insert(cap), same_rest(self, r, false, true, false, false),
@fn spoa::runtime::builder::Builder::capabilities -> r
    ensures r.capabilities@ == self.capabilities@.union(caps.seq().to_set()), same_rest(self, r, false, true, false, false),
@body
    broadcast use group_agent;
@fn spoa::runtime::builder::Builder::max_frame_size -> r
    ensures r.max_frame_size == Some(sz), same_rest(self, r, false, false, true, false),
@fn spoa::runtime::builder::Builder::max_process_time -> r
    ensures r.max_process_time == Some(d.into_spec()), same_rest(self, r, false, false, false, true),
@fn spoa::runtime::builder::Builder::make_service -> r
    ensures
        (*r).supported_versions@.to_set() == (if self.supported_versions@ == Set::<Version>::empty() { set![v20()] } else { self.supported_versions@ }),
        (*r).capabilities@.to_set() == self.capabilities@,
        (*r).max_frame_size == (match self.max_frame_size { Some(n) => n, None => 16384 }),
        (*r).max_process_time == (match self.max_process_time { Some(d) => d, None => Duration::from_secs_spec(15) }),
        (*r).service_maker.start().maker == make_service_ && (*r).service_maker.start().state == state,
        (*r).dispatcher.processing.id() == (*r).processor.0.id(),
        (*r).dispatcher.receiving@ == Map::<(u64, u64), UnboundedSender<Message>>::empty(),
        !old(__w).used@.contains((*r).processor.0.id()),
@world Runtime::new
@body
    broadcast use {group_agent, group_shim};
    proof { lemma_one(v20()); }
@fn spoa::runtime::runtime::Runtime::new -> r
    ensures
        r.supported_versions@ == supported_versions@, r.capabilities@ == capabilities@, r.max_frame_size == max_frame_size, r.max_process_time == max_process_time,
        r.service_maker.start().maker == make_service && r.service_maker.start().state == make_state,
        r.dispatcher.processing.id() == r.processor.0.id(),
        r.dispatcher.receiving@ == Map::<(u64, u64), UnboundedSender<crate::spop::frame::msg::Message>>::empty(),
        !old(__w).used@.contains(r.processor.0.id()),
@world unbounded_channel
@fn spoa::runtime::dispatch::Dispatcher::new -> r
    ensures r.processing == processing, r.receiving@ == Map::<(u64, u64), UnboundedSender<Message>>::empty(),

@fn spoa::state::handshake::negotiate -> r
    ensures neg_ok(supported_versions@, max_frame_size, capabilities@.to_set(), hello, r),
@body
    broadcast use {group_agent, group_shim, group_seqs};
    let ghost ours = supported_versions@;
    let ghost theirs = hello.supported_versions@;
    let ghost both = hello.capabilities@.to_set().intersect(capabilities@.to_set());
    proof { lemma_empty_plus::<Capability>(); }
@loops 3
@loop 0 each
    invariant_except_break __found0 is None, forall|x: Version| ours.contains(x) && #[trigger] theirs.contains(x) ==> __it0@.contains(x),
    invariant
        forall|x: Version| supported_versions@.contains(x) == ours.contains(x),
        down(__it0@), forall|x: Version| #[trigger] __it0@.contains(x) ==> theirs.contains(x),
    ensures match __found0 {
        Some(v) => theirs.contains(v) && ours.contains(v) && forall|x: Version| ours.contains(x) && #[trigger] theirs.contains(x) ==> x.le(v),
        None => forall|x: Version| !(ours.contains(x) && #[trigger] theirs.contains(x)),
    },
    decreases __it0@.len(),
@loopbody 0
    broadcast use {group_agent, group_shim, group_seqs};
    proof { if __it0@.len() > 0 { assert(__it0@.contains(__it0@[0])); } }
@loop 1 each
    invariant_except_break !__found1, supported_versions@.contains(*version) ==> __it1@.contains(version),
    invariant forall|i: int| 0 <= i < __it1@.len() ==> supported_versions@.contains(*#[trigger] __it1@[i]),
    ensures __found1 == supported_versions@.contains(*version),
    decreases __it1@.len(),
@loopbody 1
    broadcast use {group_agent, group_shim, group_seqs};
@loop 2 each
    invariant (__acc2@ + derefs(__it2@)).to_set() == both,
    ensures __acc2@.to_set() == both,
    decreases __it2@.len(),
@loopbody 2
    broadcast use {group_agent, group_shim};
    proof { lemma_derefs(__acc2@, __it2@); }
@fn spoa::state::handshake::Negotiated::supports_async -> r
    ensures r == self.capabilities@.contains(Capability::Async),
@fn spoa::state::handshake::Negotiated::supports_fragmentation -> r
    ensures r == self.capabilities@.contains(Capability::Fragmentation),
@fn spoa::state::handshake::Negotiated::supports_pipelining -> r
    ensures r == self.capabilities@.contains(Capability::Pipelining),
@fn spoa::state::handshake::Negotiated::agent_hello -> r
    ensures r.version == self.version, r.max_frame_size == self.max_frame_size,
        r.capabilities@.to_set() == self.capabilities@, r.capabilities@.no_duplicates(),
@body
    broadcast use {group_agent, group_shim};
@loops 1
@loop 0 each
    invariant __acc0@ + derefs(__it0@) == set_seq(self.capabilities),
    ensures __acc0@ == set_seq(self.capabilities),
    decreases __it0@.len(),
@loopbody 0
    broadcast use {group_agent, group_shim};
    proof { lemma_derefs(__acc0@, __it0@); }

@fn spoa::state::connect::Connecting::new -> r
    ensures r.runtime == runtime,
@fn spoa::state::state::State::new -> r
    ensures r is Connecting, r->Connecting_0.runtime == rt,
@fn spoa::conn::Connection::new -> r
    ensures r.codec.framer.max_frame_size == (*runtime).max_frame_size, r.codec.stream.rx() == io.rx(), r.codec.stream.tx() == io.tx(), r.codec.stream.around() == io,
        r.state is Connecting, r.state->Connecting_0.runtime == runtime, r.tok == tok,

@fn spoa::req::hdrs_bin -> r
    ensures hdr_ok(Map::empty(), old(b).rem(), r, final(b).rem()),
@lift strs (b: &mut T) -> Option<Bytes>
@body
    broadcast use {group_agent, axiom_bytes_ext};
    let ghost rem0 = b.rem();
@loops 1
@loop 0 while-let
    invariant_except_break forall|q: Result<HeaderMap>, t: Seq<u8>| hdr_ok(hdrs@, b.rem(), q, t) ==> #[trigger] hdr_ok(Map::empty(), rem0, q, t),
    invariant rem0 == old(b).rem(),
    ensures hdr_ok(Map::empty(), rem0, Ok::<HeaderMap, crate::spoa::error::Error>(hdrs), b.rem()),
    decreases b.rem().len(),
@loopbody 0
    broadcast use {group_agent, axiom_bytes_ext, lemma_p_bytes_shrinks};
@fn spoa::req::hdrs_bin__lazy -> r
    ensures match p_bytes(old(b).rem()) { Some((s, t)) => r is Some && r->Some_0@ == s && final(b).rem() == t, None => r is None },

@fn spoa::runtime::acker::Acker::new -> r
    ensures ack_ok(r.0), r.0.0 is Some, kv_(r.0.0->Some_0.0) == fresh(stream_id, frame_id), r.0.0->Some_0.1.of(r.1),
@fn spoa::runtime::acker::Acker::complete -> r
    requires ack_ok(*old(self)),
    ensures ack_sent(*old(self), false, r, *final(self)),
@fn spoa::runtime::acker::Acker::abort -> r
    requires ack_ok(*old(self)),
    ensures ack_sent(*old(self), true, r, *final(self)),
@fn spoa::runtime::acker::Acker::set_var
    ensures ack_ok(*old(self)) ==> ack_ok(*final(self)), ack_rec(*old(self), av(Action::SetVar { scope, name: name.into_spec(), value: value.into_spec() }), *final(self)),
@body
    broadcast use lemma_avs_push;
@fn spoa::runtime::acker::Acker::unset_var
    ensures ack_ok(*old(self)) ==> ack_ok(*final(self)), ack_rec(*old(self), av(Action::UnsetVar { scope, name: name.into_spec() }), *final(self)),
@body
    broadcast use lemma_avs_push;
@fn spoa::runtime::acker::Drop for Acker::drop
    requires ack_ok(*old(self)),
    ensures exists|r: Result<()>| ack_sent(*old(self), false, r, *final(self)),

@fn spoa::runtime::dispatch::Dispatcher::recieve_messages -> r
    requires disp_inv(disp(*old(self), *old(__w))),
    ensures received(*old(self), *old(__w), notify, r, *final(self), *final(__w)),
@mutself
@isolate
@world unbounded_channel .send
@body
    let ghost n = notify;
    let ghost (a, wa) = (*old(self), *old(__w));
    proof { lemma_chans(self.receiving@, key_of(n)); lemma_one_more(n.messages@, 0); }
@loops 1
@loop 0 each
    invariant_except_break
        __it0@ == n.messages@.skip(n.messages@.len() - __it0@.len()), __it0@.len() <= n.messages@.len(),
        disp_mid(disp(a, wa), n, sender.id(), disp(*self, *__w), n.messages@.take(n.messages@.len() - __it0@.len())),
    invariant
        a == *old(self), wa == *old(__w), self.processing == a.processing, disp_inv(disp(*self, *__w)),
        handed(acked, n, chans(a.receiving@).dom().contains(key_of(n)), a.processing.id(), sender.id(), wa, *__w),
    ensures disp_step(disp(a, wa), n, sender.id(), disp(*self, *__w)),
    decreases __it0@.len(),
@loopbody 0
    proof { lemma_one_more(n.messages@, n.messages@.len() - __it0@.len()); }

@fn spoa::runtime::runtime::ServiceMaker::make -> r
    ensures match r { Ok(s) => s.hist().len() == 0, Err(e) => exists|m: S::MakeError| #[trigger] S::unmade(m) && stat_of(e) == stat_in(m) },
@fn spoa::state::process::Processing::new -> r
    ensures r.runtime == runtime, r.service == service, r.reassembly == reassembly,
@fn spoa::state::process::Processing::process -> r
    ensures final(self).runtime == old(self).runtime, final(self).reassembly == old(self).reassembly,
        match r {
            Ok(v) => final(self).service.hist() == old(self).service.hist().push((msgs, Ok::<Vec<Action>, S::Error>(v))),
            Err(e) => <S::Service as Service<Vec<Message>>>::gave(e),
        },
@impl spoa::state::state::AsyncHandler
spec fn pre(self, frame: Frame) -> bool;
spec fn post(self, frame: Frame, r: Result<(State<S, T>, Option<Frame>)>) -> bool;
@fn spoa::state::state::AsyncHandler::handle_frame -> r
    requires self.pre(frame),
    ensures self.post(frame, r),
@impl spoa::state::connect::AsyncHandler<S,T>for Connecting
open spec fn pre(self, frame: Frame) -> bool { wants_service(frame) ==> may((*self.runtime).service_maker) }
open spec fn post(self, frame: Frame, r: Result<(State<S, T>, Option<Frame>)>) -> bool { conn_ok(self, frame, r) }
@fn spoa::state::connect::AsyncHandler<S,T>for Connecting::handle_frame -> r
@fn spoa::state::connect::Connecting::handshake -> r
    requires wants_service(Frame::HaproxyHello(hello)) ==> may((*self.runtime).service_maker),
    ensures conn_ok(self, Frame::HaproxyHello(hello), r),
@body
    broadcast use {group_agent, group_shim};
    proof { lemma_views_empty(); }
@impl spoa::state::process::AsyncHandler<S,T>for Processing
open spec fn pre(self, frame: Frame) -> bool { true }
open spec fn post(self, frame: Frame, r: Result<(State<S, T>, Option<Frame>)>) -> bool { proc_ok(self, frame, r) }
@impl spoa::state::state::AsyncHandler<S,T>for State
open spec fn pre(self, frame: Frame) -> bool { self is Connecting && wants_service(frame) ==> may((*self->Connecting_0.runtime).service_maker) }
open spec fn post(self, frame: Frame, r: Result<(State<S, T>, Option<Frame>)>) -> bool { state_ok(self, frame, r) }
@fn spoa::state::state::AsyncHandler<S,T>for State::handle_frame -> r

@fn spoa::conn::Connection::disconnect -> r
    ensures self_kept(*old(self), *final(self)), disc_ok(final(self).codec.stream.broken(), old(self).codec.framer.max_frame_size as int, code_of(status), old(self).codec.stream.tx(), r, final(self).codec.stream.tx()),
@body
    proof { lemma_codes(status, 0); }
@fn spoa::conn::Connection::send_disconnect -> r
    ensures self_kept(*old(self), *final(self)), disc_ok(final(self).codec.stream.broken(), old(self).codec.framer.max_frame_size as int, disconnect.status_code, old(self).codec.stream.tx(), r, final(self).codec.stream.tx()),
@body
    broadcast use {lemma_write_disc, group_shim};
@fn spoa::conn::Connection::fail -> r
    ensures self_kept(*old(self), *final(self)), failed(final(self).codec.stream.broken(), old(self).codec.framer.max_frame_size as int, status, old(self).codec.stream.tx(), r, final(self).codec.stream.tx()),
@fn spoa::conn::Connection::serve -> r
    requires !old(__w).agent@.asked, old(self).state is Connecting ==> may((*old(self).state->Connecting_0.runtime).service_maker),
    ensures serve_ok(final(__w).agent@.asked, final(self).codec.stream.broken(), old(self).state, old(self).codec.framer.max_frame_size as int, old(self).codec.stream.rx(), old(self).codec.stream.tx(), r, final(self).codec.stream.rx(), final(self).codec.stream.tx()),
@world .cancelled> .is_cancelled>
@keepbranches
@loops 1
@loop 0 loop
    invariant_except_break
        !__w.agent@.asked,
        forall|asked: bool, b: bool, r: Result<()>, rx2: Seq<u8>, tx2: Seq<u8>|
            serve_ok(asked, b, self.state, self.codec.framer.max_frame_size as int, self.codec.stream.rx(), self.codec.stream.tx(), r, rx2, tx2)
                ==> #[trigger] serve_ok(asked, b, old(self).state, old(self).codec.framer.max_frame_size as int, old(self).codec.stream.rx(), old(self).codec.stream.tx(), r, rx2, tx2),
        self.state is Connecting ==> may((*self.state->Connecting_0.runtime).service_maker),
    ensures
        serve_ok(__w.agent@.asked, self.codec.stream.broken(), old(self).state, old(self).codec.framer.max_frame_size as int, old(self).codec.stream.rx(), old(self).codec.stream.tx(), Ok::<(), crate::spoa::error::Error>(()), self.codec.stream.rx(), self.codec.stream.tx()),
    decreases self.codec.stream.rx().len(),
@loopbody 0
    broadcast use lemma_suffix_self;

@fn spoa::agent::Agent::new -> r
    ensures match r { Ok(a) => a.runtime == runtime && a.listener.id() == listener.id(), Err(_) => true },
@fn spoa::agent::Agent::shutdown -> r
    ensures r.id() == self.shutdown.token.id(),
@impl spoa::agent::Default for Shutdown
open spec fn default_spec() -> Self { Shutdown { tracker: TaskTracker::default_spec(), token: CancellationToken::default_spec() } }
@fn spoa::agent::Agent::serve -> r
    requires may((*self.runtime).service_maker), !old(__w).agent@.asked, !old(__w).agent@.failed,
    ensures served(*self, old(__w).agent@, r, final(__w).agent@),
@attr #[verifier::exec_allows_no_decreases_clause]
@world .cancelled> .accept .track_future .spawn spawn .close .is_empty .wait .len .is_closed
@keepbranches
@task (conn: Connection<TcpStream, S, T>) -> Result<()>
@loops 1
@loop 0 loop
    invariant_except_break !__w.agent@.asked,
    invariant
        !__w.agent@.failed,
        may((*self.runtime).service_maker), all_run(*self, old(__w).agent@, __w.agent@),
    ensures __w.agent@.asked,
@fn spoa::agent::serve__task
    requires conn.runnable(), !old(__w).agent@.asked,
    ensures was_served(final(__w).agent@.asked, conn.state, conn.codec.framer.max_frame_size as int, conn.codec.stream.rx(), conn.codec.stream.tx()),
@world .serve
@fn spoa::agent::Agent::accept -> r
    requires !old(__w).agent@.asked,
    ensures final(__w).agent@ == (AgentLog { taken: old(__w).agent@.taken.push(r.0.id()), ..old(__w).agent@ }),
@attr #[verifier::exec_allows_no_decreases_clause]
@world .accept
@loops 1
@loop 0 loop
    invariant !old(__w).agent@.asked, __w.agent@ == old(__w).agent@,
