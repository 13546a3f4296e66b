# What each check decides, and how. Executed by manifest.py.
# GROUPS: name -> (patterns of function keys, lemmas)
GROUPS = {
    "varint_put": ([r"spop::data::varint::(put|size_of)"], ["lemma_tail_size", "lemma_size_of", "lemma_varint_len", "lemma_put_tail", "lemma_put_varint"]),
    "varint_get": ([r"spop::data::varint::get"], ["lemma_tail", "lemma_varint", "lemma_p_more", "lemma_shift", "lemma_p_tail_shrinks", "lemma_p_varint_shrinks"]),
    "varint_traits": ([r"spop::data::buf::BufExt for T::varint", r"spop::data::buf::BufMutExt for T::put_varint"], []),
    "bytes": ([r"spop::data::buf::(get_bytes|put_bytes)", r"spop::data::buf::BufExt for T::string", r"spop::data::buf::BufMutExt for T::put_string"],
              ["lemma_bytes", "lemma_string", "lemma_p_bytes_shrinks", "lemma_p_string_shrinks"]),
    "typed": ([r"spop::data::buf::(typed_data|typed_data_type)", r"spop::data::buf::BufExt for T::typed", r"spop::data::buf::BufMutExt for T::put_typed"],
              ["lemma_fixed", "lemma_casts", "lemma_tv_inj", "lemma_typed", "lemma_p_typed_shrinks", "bits_typed"]),
    "kv": ([r"spop::data::buf::BufExt for T::(kv|kv_list__next)", r"spop::data::buf::BufMutExt::(put_kv|put_kvlist)"],
           ["lemma_kv", "lemma_p_kv_shrinks", "lemma_kvs", "lemma_nkvs", "lemma_kv_of_arg", "lemma_kvlist_args"]),
    "conv": ([r"spop::data::typed::From<.*>for Typed::from", r"spop::data::value::.*"], []),
    "meta": ([r"spop::frame::metadata::.*", r"spop::frame::(encode|decode)::metadata", r"spop::frame::(haproxy::Notify|agent::Ack)::metadata"],
             ["lemma_u32", "lemma_meta", "bits_flags"]),
    "head": ([r"spop::frame::(encode|decode)::frame", r"spop::frame::encode::BufMutExt for T::put_frame", r"spop::frame::decode::BufExt for T::get_frame",
              r"spop::frame::decode::(frame_type|try_from_u8|get_u8)", r"spop::frame::frames::Frame::frame_type"], ["lemma_frame"]),
    "msgs": ([r"spop::frame::encode::haproxy_notify", r"spop::frame::decode::(haproxy_notify|message|list_of_messages__next|get_u8)"],
             ["lemma_msg", "lemma_p_nkvs_shrinks", "lemma_p_msg_shrinks", "lemma_msgs", "lemma_step_msgs", "lemma_step_nkvs", "lemma_put_ok", "lemma_put_msg"]),
    "acts": ([r"spop::frame::encode::(agent_ack|action)", r"spop::frame::decode::(agent_ack|action|action_type|scope|list_of_actions__next|get_u8|try_from_u8)"],
             ["lemma_act", "lemma_p_act_shrinks", "lemma_acts", "lemma_step_acts", "lemma_put_act"]),
    "kvlist": ([r"spop::frame::decode::FromIterator<\(String,Typed\)>for KVList::from_iter", r"spop::frame::decode::KVList::(string|uint|boolean)"],
               ["lemma_step_kvs", "lemma_kl_remove", "lemma_of_pairs", "lemma_e_kvs_push", "lemma_put_kvs", "lemma_kvmap_push", "lemma_keys"]),
    "hello": ([r"spop::frame::encode::(haproxy_hello|agent_hello)", r"spop::frame::decode::(haproxy_hello|agent_hello)",
               r"spop::frame::decode::KVList::(supported_versions|version|max_frame_size|capabilities)",
               r"spop::frame::kv::(punctuated|From<Punctuated<I>>for Typed::from|supported_versions|version|max_frame_size|capabilities|healthcheck|engine_id)"],
              ["lemma_step_versions", "lemma_step_caps", "lemma_put_ahello", "lemma_put_hhello", "lemma_frame_hhello", "lemma_frame_ahello", "lemma_kvmap_hhello", "lemma_kvmap_ahello",
               "lemma_names_refs", "lemma_split_len", "lemma_split_one", "lemma_split_cons", "lemma_split_join", "lemma_version_text", "lemma_cap_text", "lemma_dec", "lemma_trim",
               "lemma_version_name", "lemma_cap_name", "lemma_versions", "lemma_caps", "lemma_versions_text", "lemma_caps_text"]),
    "disc": ([r"spop::frame::(encode|decode)::disconnect", r"spop::frame::decode::KVList::(status_code|message)", r"spop::frame::kv::(status_code|message)"],
             ["lemma_put_disc", "lemma_frame_disc", "lemma_kvmap_disc"]),
    "make": ([r"spop::frame::disconnect::Disconnect::new", r"spop::frame::agent::Ack::new", r"spop::frame::msg::.*", r"spop::action::.*", r"spop::version::.*", r"spop::frame::frames::.*"],
             ["lemma_intos", "lemma_intos2"]),
    "codes": ([r"spop::frame::disconnect::Disconnect::new"], ["lemma_codes"]),
    "stream": ([r"spop::frame::framer::.*", r"spop::frame::codec::.*"], ["lemma_wire", "lemma_wires_push", "lemma_stream", "lemma_skip4"]),
    "table": ([r"spop::frame::fragment::.*"], ["lemma_views", "lemma_tab_run", "lemma_tab_final"]),
    "agent": ([r"spoa::agent::.*", r"spoa::conn::Connection::new", r"spop::frame::codec::BufCodec::buffered"], []),
    "shared": ([r"spop::frame::shared::.*"], ["lemma_steps", "lemma_to", "lemma_empty_front", "lemma_linear"]),
    "errors": ([r"spoa::error::.*"], ["lemma_contexts", "lemma_context_status", "lemma_codes"]),
    "negotiate": ([r"spoa::state::handshake::.*"], ["lemma_empty_plus", "lemma_derefs", "lemma_derefs_refs", "lemma_reverse", "lemma_skip_contains", "lemma_refs_contains", "lemma_sorted_reverse"]),
    "headers": ([r"spoa::req::hdrs_bin.*"], ["lemma_hdrs", "lemma_hdrs_bad"]),
    "acker": ([r"spoa::runtime::acker::.*", r"spop::frame::agent::Ack::new"], ["lemma_avs_push", "lemma_acker", "lemma_closed"]),
    "dispatch": ([r"spoa::runtime::dispatch::.*", r"spoa::runtime::acker::Acker::new", r"spop::frame::agent::Ack::new"],
                 ["lemma_chans", "lemma_one_more", "lemma_disp_inv", "lemma_disp_run", "lemma_disp_same", "lemma_disp_used", "lemma_disp_logs", "lemma_disp_feed", "lemma_feed_none", "lemma_disp_from"]),
    "connect": ([r"spoa::state::connect::.*", r"spoa::state::state::.*", r"spoa::runtime::runtime::ServiceMaker::make", r"spoa::state::process::Processing::new", r"spop::frame::fragment::Default for .*"], ["lemma_views_empty"]),
    "process": ([r"spoa::state::process::.*", r"spoa::state::state::.*", r"spop::frame::frames::Frame::ack"], ["lemma_called", "lemma_intos_same", "lemma_intos"]),
    "serve": ([r"spoa::conn::.*", r"spop::frame::disconnect::Disconnect::new"], ["lemma_suffix_self", "lemma_write_disc", "lemma_state_reply", "lemma_talk_disc", "lemma_talk_failed", "lemma_talk_more", "lemma_talk_cut", "lemma_session", "lemma_codes"]),
    "processor": ([r"spoa::runtime::processor::.*"], []),
    "builder": ([r"spoa::runtime::builder::.*", r"spoa::runtime::runtime::Runtime::new", r"spoa::runtime::dispatch::Dispatcher::new", r"spoa::conn::Connection::new",
                 r"spoa::state::state::State::new", r"spoa::state::connect::Connecting::new", r"spop::frame::(framer::Framer::new|codec::BufCodec::buffered|codec::Codec::new)"], ["lemma_one"]),
    "handlers": ([r"spop::handler::.*"], ["lemma_codes"]),
}
NOT_APPLICABLE = {
}
_D = "Bounded stand-in on every run (never counted as proved): "
TABLE = {
    "C01": dict(groups=["varint_put", "varint_traits"], note="put and size_of are proved against the spec of the encoding for every u64 and every buffer content.", bounded=_D + "all values below 2^21 and around each size boundary, random values."),
    "C02": dict(groups=["varint_get", "varint_put", "varint_traits"], note="get is proved to be the partial inverse p_varint; lemma_varint proves the round trip with any bytes behind.", bounded=_D + "random and boundary values and byte sequences."),
    "C03": dict(groups=["varint_get"], note="get is proved to return None exactly where p_varint has no value, without overflow or panic.", bounded=_D + "all sequences of up to 2 bytes, every truncation of every size class, oversized varints."),
    "C04": dict(groups=["typed", "bytes", "varint_get", "varint_put", "varint_traits"], note="typed_data and put_typed are proved against one spec; lemma_typed proves the round trip.", bounded=_D + "random typed values with random bytes behind."),
    "C05": dict(groups=["typed", "bytes"], note="put_typed and typed_data are proved against the layout written as a spec function (type byte, flags, sign extension, addresses).", bounded=_D + "every first byte, random contents."),
    "C06": dict(groups=["bytes", "varint_get"], note="get_bytes and string are proved never to panic and to give exactly the declared bytes.", bounded=_D + "random lengths up to 2^64-1 and contents."),
    "C07": dict(groups=["acts", "typed", "bytes", "varint_get", "varint_put", "varint_traits"], note='encode::action and decode::action are proved against one spec (e_act, p_act); lemma_act and lemma_acts prove the round trip.', bounded=_D + "random actions and random corruptions."),
    "C08": dict(groups=["msgs", "kv", "typed", "bytes", "varint_get", "varint_put", "varint_traits"], note='haproxy_notify and message are proved against one spec in both directions; lemma_msgs proves the round trip. Precondition: at most 255 arguments.', bounded=_D + "random lists of messages, including 255 arguments."),
    "C09": dict(groups=["head", "meta", "msgs", "acts", "kvlist", "hello", "disc", "kv", "typed", "bytes", "varint_get", "varint_put", "varint_traits"], note='Every function of encode.rs and decode.rs is proved against e_frame and p_frame; lemma_frame proves that a frame decodes to itself.', bounded=_D + "random frames of every type."),
    "C10": dict(groups=["head", "meta"], note='decode::frame is proved equal to p_frame, which states which types and ids are accepted.', bounded=_D + "every type byte with zero and non-zero ids."),
    "C11": dict(groups=["head", "meta", "msgs", "acts", "kvlist", "hello", "disc", "kv", "typed", "bytes", "varint_get", "varint_put", "varint_traits"], note='Every function of decode.rs and those of data it calls are proved free of panics, overflow and reads past the end, and their loops to terminate, for every byte sequence.', bounded=_D + "random and mutated byte sequences."),
    "C12": dict(groups=["head", "meta", "msgs", "acts", "kvlist", "hello", "disc", "kv", "typed", "bytes", "varint_get", "varint_put", "varint_traits"], note='decode is proved equal to p_frame, whose lists (p_kvs, p_msgs, p_acts) have no value unless every byte of the payload belongs to a well-formed entry.', bounded=_D + "every truncation of and random damage to random frames."),
    "C13": dict(groups=["hello", "kvlist", "kv", "bytes"], note='The HELLO decoders are proved equal to p_hhello and p_ahello over the map of entries, with the status of each missing or bad entry; the encoders to kvs_hhello and kvs_ahello.', bounded=_D + "random HELLO frames with entries missing, retyped, reordered."),
    "C14": dict(groups=["meta", "head"], note='The flags word written and read is proved bit by bit (fl, mdv); Metadata::size is proved equal to the number of bytes written.', bounded=_D + "all frames kinds and flag words."),
    "C15": dict(groups=["stream", "head"], note="Framer and Codec are proved against read_ok and write_ok over the bytes that are still to come and those written; lemma_stream proves that any sequence of frames is read back. A stream is its future bytes up to its end or break; frames of 4 GiB and more are not covered.", bounded=_D + "random sequences of frames cut at random places."),
    "C16": dict(groups=["stream", "serve"], note="read_ok and write_ok state the refusal, with 4 bytes read and none written; serve_ok states which limit holds before and after the handshake.", bounded=_D + "frames around the limit, and sessions with negotiated limits."),
    "C17": dict(groups=["table"], note="Table::reassemble is proved to be tab_next; lemma_tab_run and lemma_tab_final prove the property for every history. The map is seen by one task at a time.", bounded=_D + "random histories of fragments against a reference table."),
    "C18": dict(groups=["negotiate"], note='negotiate is proved against neg_ok, which states the greatest common version, the smaller size and the common capabilities or the no-version status, for every offer; agent_hello to announce just that.', bounded=_D + "random offers and settings through a whole session."),
    "C19": dict(groups=["connect", "serve", "negotiate"], note='Connecting::handle_frame and handshake are proved against conn_ok (a health check never touches the service maker: the lock has a precondition only other HELLOs give), State against state_ok, serve against serve_ok, which states a whole session; lemma_session proves what it may write. An error of a maker that fails is the one it gave.', bounded=_D + "sessions with every kind of first frame."),
    "C20": dict(groups=["process", "serve", "table"], note="Processing::handle_frame is proved against proc_ok: the service is called once with exactly the whole messages, its history grows by that call, and the ACK carries its actions; serve against serve_ok over every sequence of frames. poll_ready and call have the contract of tower's Service; an error that the service gives is the one told; a future is run to its end when it is awaited, a timeout decided by an uninterpreted predicate of its duration and result.", bounded=_D + "random sessions."),
    "C21": dict(groups=["serve", "connect", "process", "errors", "codes", "stream"], note='serve is proved against serve_ok, fail and send_disconnect against failed and disc_ok, with the status of each error from state_ok and read_ok; lemma_session proves that what is written is whole frames, the only DISCONNECT the last one. serve ends without an error only at the end of the stream, after a DISCONNECT or a health check, or when it saw that it was told to; an error that is not its own is one that the maker or the service gave.', bounded=_D + "random sessions with a fault."),
    "C22": dict(groups=["codes", "errors"], note='The discriminants of the real enum are proved to be the codes of the protocol; Error::status is proved to look through any depth of contexts (lemma_contexts), the conversion to DISCONNECT to carry that code. What a boxed error holds, and that boxes are not cyclic, is assumed.', bounded=_D + "every code up to 70000 and random ones, random context stacks."),
    "C23": dict(groups=["acker"], note='Each method of Acker, and its drop, is proved against ack_sent or ack_rec; lemma_acker proves the property for every history. The oneshot channel is assumed to deliver what is sent.', bounded=_D + "random histories of a handle."),
    "C24": dict(groups=["dispatch"], note="recieve_messages is proved against received (one step on the table of channels, the logs of the channels and what is handed to the processor); lemma_disp_same and lemma_disp_feed prove the property for every history. The channels are tokio's; the table is seen by one task at a time; of a call that fails because the processor is gone nothing more is said.", bounded=_D + "random histories of the dispatcher."),
    "C25": dict(groups=["headers", "bytes", "varint_get"], note="hdrs_bin is proved against hdr_ok; lemma_hdrs and lemma_hdrs_bad prove the property for every block. What names and values HTTP allows, and when a map is full, is http's.", bounded=_D + "random header blocks and damage to them."),
    "C26": dict(groups=["processor"], note="Both poll_next are proved to keep the contract of a stream: the items of the channel in order, pending only with the waker of the caller registered. The channel is tokio's.", bounded=_D + "random schedules of sends and polls."),
    "C27": dict(groups=["builder"], note='Every method of Builder, Runtime::new and Connection::new is proved to set what it names and keep the rest, with the defaults in the postcondition of make_service.', bounded=_D + "random sequences of builder calls."),
    "C28": dict(groups=["handlers", "table"], note="The inner closures of the two handlers and the reassembling handlers are proved to give exactly what the property says.", bounded=_D + "random frames through each handler."),
    "C29": dict(groups=["conv","make"], note="The conversions into typed data and key-value pairs and the constructors of actions, messages and frames are proved to keep what they are given.", bounded=_D + "random values through every constructor."),
    "C30": dict(groups=["disc", "kvlist", "kv", "make"], note='disconnect is proved in both directions against p_disc and kvs_disc; lemma_frame_disc proves the round trip.', bounded=_D + "random codes, types and messages."),
    "C31": dict(groups=["agent"], note="Agent::serve is proved against served for every choice that its select! can make and every moment at which tasks end: when it returns Ok, shutdown was seen, no connection was accepted afterwards (a precondition of accept), each accepted connection runs in a task of the tracker under a child of the agent's token, and the tracker was seen closed and empty. TaskTracker, CancellationToken and TcpListener have the contracts of their documentation; that it returns at all is not proved.", bounded=_D + "a real agent on the loopback network with connections in different states at shutdown, late connections, several serving calls."),
    "C32": dict(groups=["shared", "table"], note="The text of fragment.rs is extracted a second time, against a map whose entries may become anything between two accesses: each call is proved to have its whole effect in one access (atomic), and lemma_linear proves that then any interleaving of any number of calls gives the results and the table of a sequential order. That a DashMap guard excludes other accesses to its key is dashmap's documented contract.", bounded=_D + "threads that share a table, judged against all orders of their calls."),
    "C33": dict(groups=["agent", "serve"], note="Agent::serve is proved to end only when shutdown was seen (or when tokio cannot spawn a task), never to wait for shutdown alone after a failed accept, to run every connection in a task of its own and to give it a child of the agent's token, which ends nothing but that connection; serve__task, the spawned block of a connection, is proved to serve it as the contract of serve says (was_served); serve_ok states the rest of a connection's effects.", bounded=_D + "a real agent on the loopback network with connections that fail in many ways, and without file descriptors."),
}
# What the contracts of a group rest on besides the verifier and the extractor.
_BUF = "bytes: Buf, BufMut and Bytes are sequences of bytes with the documented effect of each get, put, advance and split"
_STR = "std: String, str and UTF-8 validation behave as specified in the prelude (trim, split, parse, to_string, from_utf8)"
_MAP = "std: HashMap and HashSet are finite maps and sets whose order of iteration is arbitrary"
_LEN = "frames of 4 GiB and more, messages with more than 255 arguments are outside the preconditions"
_IO = "tokio: a stream is the bytes still to come before its end or break and the bytes written; read_buf gives any non-empty part of them"
_DASH = "dashmap: an entry's guard excludes every other access to its key; one task at a time is seen where a contract is sequential"
_TASK = "tokio: a future runs to its end where it is awaited; a select! takes any branch that is ready; a spawned task runs"
_TOWER = "tower: call only after poll_ready was Ready(Ok), MakeService makes a service or an error"
_CHAN = "tokio: oneshot and mpsc channels deliver what is sent, in order, unless the receiver is gone"
_BOX = "std: what a boxed error holds is fixed, and boxed errors are not cyclic"
ASSUME = {
    "varint_put": [_BUF], "varint_get": [_BUF], "varint_traits": [_BUF], "bytes": [_BUF, _STR], "typed": [_BUF, "std: octets of Ipv4Addr and Ipv6Addr are a bijection", _STR],
    "kv": [_BUF, _STR], "conv": ["std: conversions between integer widths keep the value", _STR], "meta": [_BUF, "bitflags: Flags is its bits"], "head": [_BUF],
    "msgs": [_BUF, _STR, _LEN], "acts": [_BUF, _STR], "kvlist": [_MAP, _STR], "hello": [_STR, _MAP],
    "disc": [_STR, _MAP], "make": ["std: Into is the From of the type, verified where it is the crate's own"], "codes": [], "stream": [_IO, _BUF, _LEN],
    "table": [_DASH, _BUF], "agent": ["tokio-util: CancellationToken, TaskTracker as documented; tokio: TcpListener::accept may fail at any time", _TASK],
    "shared": [_DASH], "errors": [_BOX], "negotiate": [_MAP, "std: sort, reverse and filter of sequences as specified in the prelude"],
    "headers": [_BUF, "http: which names and values are allowed, and when a HeaderMap is full, is uninterpreted"], "acker": [_CHAN], "dispatch": [_CHAN, _DASH],
    "connect": [_TOWER, "tokio: RwLock gives its content to one holder at a time", _TASK], "process": [_TOWER, _TASK, "tokio: timeout fires by an uninterpreted predicate of its duration and of what it waits for"],
    "serve": [_IO, _TASK], "processor": [_CHAN, "std: a Context's waker is the caller's"], "builder": [], "handlers": [_TASK],
}
