// The agent: errors, the handshake, handles, the dispatcher, connections.
pub mod spec_agent {
#[allow(unused_imports)]
use vstd::prelude::*;
use crate::shim::*;
use crate::shim_agent::*;
use crate::spec::*;
use crate::spec_data::*;
use crate::spec_frame::*;
use crate::spec_io::*;
use crate::spoa::error::Error as AgentError;
use crate::spop::error::Error as Status;
use crate::spop::action::Action;
use crate::spop::version::Version;
use crate::spop::frame::{frames::Frame, agent::Hello as AgentHello};
use crate::spoa::conn::Connection;
use crate::spoa::agent::Agent;
use crate::spoa::runtime::runtime::Runtime;
use crate::spoa::state::{connect::Connecting, process::Processing, state::State};
use crate::spoa::runtime::{acker::Acker, builder::Builder, dispatch::Dispatcher};
use crate::spop::frame::{haproxy::Notify as HaproxyNotify, msg::Message};
use crate::spop::frame::agent::Ack as AgentAck;
use crate::spoa::state::handshake::Negotiated;
use crate::spop::caps::Capability;
use crate::spop::frame::haproxy::Hello as HaproxyHello;

// ---------------------------------------------------------------- errors
// The status under any number of contexts.
pub open spec fn stat_of(e: AgentError) -> Option<Status>
    decreases edepth(e) via dec_stat_of
{
    match e {
        AgentError::Status(s) => Some(s),
        AgentError::Context { source, .. } => match down_error(*source) { Some(x) => stat_of(x), None => down_status(*source) },
        _ => None,
    }
}
#[via_fn]
proof fn dec_stat_of(e: AgentError) { broadcast use group_agent; }
pub open spec fn told(e: AgentError) -> Status { match stat_of(e) { Some(s) => s, None => Status::Unknown } }
// What a context around an error makes of a result.
pub open spec fn ctx_ok<T, E: StdError>(r: Result<T, E>, q: Result<T, AgentError>) -> bool {
    match r {
        Ok(v) => q == Ok::<T, AgentError>(v),
        Err(e) => match q {
            Err(AgentError::Context { source, .. }) => down_error(*source) == e.as_error() && down_status(*source) == e.as_status(),
            _ => false,
        },
    }
}
// The status in an error of any type.
pub open spec fn stat_in<E: StdError>(e: E) -> Option<Status> { match e.as_error() { Some(x) => stat_of(x), None => e.as_status() } }
// C22: es[0] is some error, each other one is a context around the one before.
pub open spec fn stack(es: Seq<AgentError>) -> bool {
    forall|i: int| 0 < i < es.len() ==> ctx_ok(Err::<(), AgentError>(es[i - 1]), Err::<(), AgentError>(#[trigger] es[i]))
}
pub proof fn lemma_contexts(es: Seq<AgentError>)
    requires stack(es), es.len() > 0
    ensures stat_of(es.last()) == stat_of(es[0])
    decreases es.len()
{
    if es.len() > 1 {
        let t = es.drop_last();
        assert forall|i: int| 0 < i < t.len() implies ctx_ok(Err::<(), AgentError>(t[i - 1]), Err::<(), AgentError>(#[trigger] t[i])) by { assert(t[i] == es[i]); }
        lemma_contexts(t);
        assert(ctx_ok(Err::<(), AgentError>(es[es.len() - 2]), Err::<(), AgentError>(es[es.len() - 1])));
        assert(t.last() == es[es.len() - 2]);
    }
}
// A context around a bare status.
pub proof fn lemma_context_status(s: Status, e: AgentError)
    requires ctx_ok(Err::<(), Status>(s), Err::<(), AgentError>(e))
    ensures stat_of(e) == Some(s)
{ }

// ---------------------------------------------------------------- configuration
pub open spec fn v20() -> Version { Version { major: 2, minor: 0 } }
// Nothing but what is named differs.
pub open spec fn same_rest(a: Builder, b: Builder, ver: bool, caps: bool, sz: bool, time: bool) -> bool {
    (ver || b.supported_versions@ == a.supported_versions@) && (caps || b.capabilities@ == a.capabilities@)
        && (sz || b.max_frame_size == a.max_frame_size) && (time || b.max_process_time == a.max_process_time)
}
pub proof fn lemma_one<T>(x: T) ensures Seq::empty().push(x).to_set() == set![x]
{
    assert(Seq::empty().push(x)[0] == x);
    assert(Seq::empty().push(x).to_set() =~= set![x]);
}

// ---------------------------------------------------------------- handshake
// C18: the best of what both have.
pub open spec fn common(ours: Seq<Version>, theirs: Seq<Version>, v: Version) -> bool { ours.contains(v) && theirs.contains(v) }
pub open spec fn best(ours: Seq<Version>, theirs: Seq<Version>, v: Version) -> bool {
    common(ours, theirs, v) && forall|x: Version| #[trigger] common(ours, theirs, x) ==> x.le(v)
}
pub open spec fn neg_ok(ours: Seq<Version>, max: u32, caps: Set<Capability>, h: HaproxyHello, r: Result<Negotiated, AgentError>) -> bool {
    match r {
        Ok(n) => best(ours, h.supported_versions@, n.version) && n.max_frame_size == (if h.max_frame_size <= max { h.max_frame_size } else { max })
            && n.capabilities@ == h.capabilities@.to_set().intersect(caps),
        Err(e) => e == AgentError::Status(Status::NoVersion) && forall|x: Version| !#[trigger] common(ours, h.supported_versions@, x),
    }
}
pub open spec fn down<T: Order>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[j]).le(#[trigger] s[i]) }
pub proof fn lemma_empty_plus<T>() ensures forall|s: Seq<T>| #[trigger] (Seq::<T>::empty() + s) == s
{ assert forall|s: Seq<T>| #[trigger] (Seq::<T>::empty() + s) == s by { assert(Seq::<T>::empty() + s =~= s); } }
pub proof fn lemma_derefs<'a, T>(a: Seq<T>, s: Seq<&'a T>)
    ensures s.len() > 0 ==> a + derefs(s) == a.push(*s[0]) + derefs(s.skip(1)), s.len() == 0 ==> a + derefs(s) == a
{
    if s.len() > 0 { assert(a + derefs(s) =~= a.push(*s[0]) + derefs(s.skip(1))); } else { assert(a + derefs(s) =~= a); }
}
pub proof fn lemma_derefs_refs<'a, T>(s: Seq<T>) ensures derefs(refs::<'a, T>(s)) == s { assert(derefs(refs::<'a, T>(s)) =~= s); }
pub broadcast proof fn lemma_reverse<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.reverse().contains(x) == s.contains(x)
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.reverse()[s.len() - 1 - i] == x); }
    if s.reverse().contains(x) { let i = choose|i: int| 0 <= i < s.len() && s.reverse()[i] == x; assert(s[s.len() - 1 - i] == x); }
}
pub broadcast proof fn lemma_skip_contains<T>(s: Seq<T>, x: T)
    requires s.len() > 0
    ensures s.contains(x) ==> x == s[0] || #[trigger] s.skip(1).contains(x), s.skip(1).contains(x) ==> s.contains(x),
{
    if s.skip(1).contains(x) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == x; assert(s[i + 1] == x); }
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(s.skip(1)[i - 1] == x); } }
}
pub broadcast proof fn lemma_refs_contains<'a, T>(s: Seq<T>, x: T)
    ensures #[trigger] refs::<'a, T>(s).contains(&x) == s.contains(x)
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(refs::<'a, T>(s)[i] == &x); }
    if refs::<'a, T>(s).contains(&x) { let i = choose|i: int| 0 <= i < s.len() && refs::<'a, T>(s)[i] == &x; assert(s[i] == x); }
}
pub broadcast proof fn lemma_sorted_reverse<T: Order>(s: Seq<T>)
    requires sorted(s)
    ensures down(#[trigger] s.reverse())
{ }
pub broadcast group group_seqs { lemma_reverse, lemma_skip_contains, lemma_refs_contains, lemma_sorted_reverse }

// ---------------------------------------------------------------- headers
pub type Hdrs = Map<HeaderName, Seq<HeaderValue>>;
// C25: what a block gives after the headers in m. Of one that is cut short
// nothing is said.
pub open spec fn hdr_ok(m: Hdrs, s: Seq<u8>, r: Result<HeaderMap, AgentError>, rest: Seq<u8>) -> bool
    decreases s.len() via dec_hdr_ok
{
    match p_bytes(s) {
        None => true,
        Some((k, t)) => match p_bytes(t) {
            None => true,
            Some((v, u)) =>
                if k.len() == 0 && v.len() == 0 { r is Ok && r->Ok_0@ == m && rest == u }
                else {
                    match (name_of(k), value_of(v)) {
                        (Some(n), Some(x)) => (r is Err && full(m)) || hdr_ok(hm_append(m, n, x), u, r, rest),
                        _ => r is Err,
                    }
                },
        },
    }
}
#[via_fn]
proof fn dec_hdr_ok(m: Hdrs, s: Seq<u8>, r: Result<HeaderMap, AgentError>, rest: Seq<u8>) { broadcast use lemma_p_bytes_shrinks; }
// A block of headers.
pub open spec fn e_hdrs(l: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { e_bytes(Seq::empty()) + e_bytes(Seq::empty()) } else { e_bytes(l[0].0) + (e_bytes(l[0].1) + e_hdrs(l.skip(1))) }
}
pub open spec fn hdrs_of(m: Hdrs, l: Seq<(Seq<u8>, Seq<u8>)>) -> Hdrs decreases l.len() {
    if l.len() == 0 { m } else { hdrs_of(hm_append(m, name_of(l[0].0)->Some_0, value_of(l[0].1)->Some_0), l.skip(1)) }
}
pub open spec fn hdr_pair_ok(p: (Seq<u8>, Seq<u8>)) -> bool {
    !(p.0.len() == 0 && p.1.len() == 0) && p.0.len() <= isize::MAX && p.1.len() <= isize::MAX && name_of(p.0) is Some && value_of(p.1) is Some
}
// Every block decodes to exactly its headers, unless a map cannot hold them,
// and what is behind it stays.
pub proof fn lemma_hdrs(m: Hdrs, l: Seq<(Seq<u8>, Seq<u8>)>, t: Seq<u8>, r: Result<HeaderMap, AgentError>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> hdr_pair_ok(#[trigger] l[i]), hdr_ok(m, e_hdrs(l) + t, r, rest)
    ensures match r { Ok(h) => h@ == hdrs_of(m, l) && rest == t, Err(_) => exists|n: int| 0 <= n < l.len() && full(hdrs_of(m, #[trigger] l.take(n))) }
    decreases l.len()
{
    let e = Seq::<u8>::empty();
    if l.len() == 0 {
        lemma_bytes(e, e_bytes(e) + t);
        lemma_bytes(e, t);
        assert(e_hdrs(l) + t =~= e_bytes(e) + (e_bytes(e) + t));
    } else {
        let (k, v) = l[0];
        let u = e_hdrs(l.skip(1)) + t;
        assert(hdr_pair_ok(l[0]));
        lemma_bytes(k, e_bytes(v) + u);
        lemma_bytes(v, u);
        assert(e_hdrs(l) + t =~= e_bytes(k) + (e_bytes(v) + u));
        let m2 = hm_append(m, name_of(k)->Some_0, value_of(v)->Some_0);
        assert forall|i: int| 0 <= i < l.skip(1).len() implies hdr_pair_ok(#[trigger] l.skip(1)[i]) by { assert(l.skip(1)[i] == l[i + 1]); }
        if r is Err && full(m) { assert(hdrs_of(m, l.take(0)) == m); } else {
            lemma_hdrs(m2, l.skip(1), t, r, rest);
            if r is Err {
                let n = choose|n: int| 0 <= n < l.skip(1).len() && full(hdrs_of(m2, #[trigger] l.skip(1).take(n)));
                assert(l.take(n + 1).skip(1) =~= l.skip(1).take(n));
                assert(full(hdrs_of(m, l.take(n + 1))));
            }
        }
    }
}
// An illegal name or value is an error.
pub proof fn lemma_hdrs_bad(m: Hdrs, l: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>, v: Seq<u8>, t: Seq<u8>, r: Result<HeaderMap, AgentError>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> hdr_pair_ok(#[trigger] l[i]), k.len() + v.len() > 0, k.len() <= isize::MAX, v.len() <= isize::MAX,
        name_of(k) is None || value_of(v) is None, hdr_ok(m, e_pairs(l) + (e_bytes(k) + (e_bytes(v) + t)), r, rest)
    ensures r is Err
    decreases l.len()
{
    if l.len() == 0 {
        lemma_bytes(k, e_bytes(v) + t);
        lemma_bytes(v, t);
        assert(e_pairs(l) + (e_bytes(k) + (e_bytes(v) + t)) =~= e_bytes(k) + (e_bytes(v) + t));
    } else {
        let u = e_pairs(l.skip(1)) + (e_bytes(k) + (e_bytes(v) + t));
        assert(hdr_pair_ok(l[0]));
        lemma_bytes(l[0].0, e_bytes(l[0].1) + u);
        lemma_bytes(l[0].1, u);
        assert(e_pairs(l) + (e_bytes(k) + (e_bytes(v) + t)) =~= e_bytes(l[0].0) + (e_bytes(l[0].1) + u));
        assert forall|i: int| 0 <= i < l.skip(1).len() implies hdr_pair_ok(#[trigger] l.skip(1)[i]) by { assert(l.skip(1)[i] == l[i + 1]); }
        if !(r is Err) { lemma_hdrs_bad(hm_append(m, name_of(l[0].0)->Some_0, value_of(l[0].1)->Some_0), l.skip(1), k, v, t, r, rest); }
    }
}
pub open spec fn e_pairs(l: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { e_bytes(l[0].0) + (e_bytes(l[0].1) + e_pairs(l.skip(1))) }
}

// ---------------------------------------------------------------- handles
pub open spec fn fresh(stream_id: u64, frame_id: u64) -> AckV { AckV { fragmented: false, aborted: false, stream_id, frame_id, actions: Seq::empty() } }
// What is not sent yet is not aborted: holds of a new one, and recording keeps it.
pub open spec fn ack_ok(a: Acker) -> bool { a.0 is Some ==> !a.0->Some_0.0.aborted }
// Completing or aborting.
pub open spec fn ack_sent(a: Acker, aborted: bool, r: Result<(), AgentError>, b: Acker) -> bool {
    match a.0 {
        Some(i) => b.0 is None && i.1.sent() is Some && kv_(i.1.sent()->Some_0) == (AckV { aborted, ..kv_(i.0) })
            && r == (if i.1.waits() { Ok::<(), AgentError>(()) } else { Err::<(), AgentError>(AgentError::Closed) }),
        None => b == a && r == Err::<(), AgentError>(AgentError::Closed),
    }
}
pub broadcast proof fn lemma_avs_push(s: Seq<Action>, a: Action) ensures #[trigger] avs(s.push(a)) == avs(s).push(av(a))
{ assert(avs(s.push(a)) =~= avs(s).push(av(a))); }
// Recording an action.
pub open spec fn ack_rec(a: Acker, x: ActV, b: Acker) -> bool {
    match a.0 {
        Some(i) => b.0 is Some && b.0->Some_0.1 == i.1 && kv_(b.0->Some_0.0) == (AckV { actions: kv_(i.0).actions.push(x), ..kv_(i.0) }),
        None => b == a,
    }
}
pub enum AckOp { Rec(ActV), Send(bool) }
pub open spec fn ack_step(a: Acker, o: AckOp, r: Result<(), AgentError>, b: Acker) -> bool {
    match o { AckOp::Rec(x) => ack_rec(a, x, b), AckOp::Send(aborted) => ack_sent(a, aborted, r, b) }
}
// The actions recorded before anything is sent, and whether what is sent then
// is aborted.
pub open spec fn recorded(ops: Seq<AckOp>) -> Seq<ActV> decreases ops.len() {
    if ops.len() == 0 { Seq::empty() } else { match ops[0] { AckOp::Rec(x) => seq![x] + recorded(ops.skip(1)), AckOp::Send(_) => Seq::empty() } }
}
pub open spec fn sends(ops: Seq<AckOp>) -> Option<bool> decreases ops.len() {
    if ops.len() == 0 { None } else { match ops[0] { AckOp::Rec(_) => sends(ops.skip(1)), AckOp::Send(b) => Some(b) } }
}
// C23, for every history: a handle with the ACK k and the sender s, used as in
// ops, then dropped (the last op is Send(false)), sends exactly one ACK.
pub open spec fn ack_run(st: Seq<Acker>, ops: Seq<AckOp>, rs: Seq<Result<(), AgentError>>) -> bool {
    st.len() == ops.len() + 1 && rs.len() == ops.len() && forall|i: int| 0 <= i < ops.len() ==> ack_step(st[i], #[trigger] ops[i], rs[i], st[i + 1])
}
pub proof fn lemma_acker(st: Seq<Acker>, ops: Seq<AckOp>, rs: Seq<Result<(), AgentError>>, k: AckV, s: Sender<AgentAck>)
    requires ack_run(st, ops, rs), st[0].0 is Some, kv_(st[0].0->Some_0.0) == k, st[0].0->Some_0.1 == s, sends(ops) is Some
    ensures s.sent() is Some, kv_(s.sent()->Some_0) == (AckV { actions: k.actions + recorded(ops), aborted: sends(ops)->Some_0, ..k }), st.last().0 is None,
        forall|i: int, j: int| 0 <= i < j < ops.len() && #[trigger] ops[i] is Send && #[trigger] ops[j] is Send ==> rs[j] == Err::<(), AgentError>(AgentError::Closed),
    decreases ops.len()
{
    let (st2, ops2, rs2) = (st.skip(1), ops.skip(1), rs.skip(1));
    assert forall|i: int| 0 <= i < ops2.len() implies ack_step(st2[i], #[trigger] ops2[i], rs2[i], st2[i + 1]) by { assert(ops2[i] == ops[i + 1]); }
    assert(ack_step(st[0], ops[0], rs[0], st[1]));
    match ops[0] {
        AckOp::Rec(x) => {
            lemma_acker(st2, ops2, rs2, AckV { actions: k.actions.push(x), ..k }, s);
            assert(k.actions.push(x) + recorded(ops2) =~= k.actions + recorded(ops));
            assert forall|i: int, j: int| 0 <= i < j < ops.len() && #[trigger] ops[i] is Send && #[trigger] ops[j] is Send implies rs[j] == Err::<(), AgentError>(AgentError::Closed) by {
                assert(ops[i] == ops2[i - 1] && ops[j] == ops2[j - 1]);
            }
        }
        AckOp::Send(_) => { lemma_closed(st2, ops2, rs2);
            assert(k.actions + recorded(ops) =~= k.actions);
            assert forall|i: int, j: int| 0 <= i < j < ops.len() && #[trigger] ops[i] is Send && #[trigger] ops[j] is Send implies rs[j] == Err::<(), AgentError>(AgentError::Closed) by {
                assert(ops[j] == ops2[j - 1]);
            }
        }
    }
    assert(st.last() == st2.last());
}
pub proof fn lemma_closed(st: Seq<Acker>, ops: Seq<AckOp>, rs: Seq<Result<(), AgentError>>)
    requires ack_run(st, ops, rs), st[0].0 is None
    ensures st.last().0 is None, forall|j: int| 0 <= j < ops.len() && #[trigger] ops[j] is Send ==> rs[j] == Err::<(), AgentError>(AgentError::Closed)
    decreases ops.len()
{
    if ops.len() > 0 {
        let (st2, ops2, rs2) = (st.skip(1), ops.skip(1), rs.skip(1));
        assert forall|i: int| 0 <= i < ops2.len() implies ack_step(st2[i], #[trigger] ops2[i], rs2[i], st2[i + 1]) by { assert(ops2[i] == ops[i + 1]); }
        assert(ack_step(st[0], ops[0], rs[0], st[1]));
        lemma_closed(st2, ops2, rs2);
        assert forall|j: int| 0 <= j < ops.len() && #[trigger] ops[j] is Send implies rs[j] == Err::<(), AgentError>(AgentError::Closed) by {
            if j > 0 { assert(ops[j] == ops2[j - 1]); }
        }
        assert(st.last() == st2.last());
    }
}

// ---------------------------------------------------------------- dispatching
// What is known of a dispatcher: the channel of each pair that is open, what
// went over every channel, the channels there are and those nobody reads.
pub struct Disp { pub chans: Map<(u64, u64), int>, pub logs: Map<int, Seq<Message>>, pub used: Set<int>, pub gone: Set<int> }
pub open spec fn disp(d: Dispatcher, w: World) -> Disp { Disp { chans: chans(d.receiving@), logs: w.msgs@, used: w.used@, gone: w.gone@ } }
pub open spec fn chans(m: Map<(u64, u64), UnboundedSender<Message>>) -> Map<(u64, u64), int> { m.map_values(|s: UnboundedSender<Message>| s.id()) }
pub open spec fn disp_inv(a: Disp) -> bool {
    (forall|k: (u64, u64)| #[trigger] a.chans.dom().contains(k) ==> a.used.contains(a.chans[k]))
        && (forall|k: (u64, u64), l: (u64, u64)| #[trigger] a.chans.dom().contains(k) && #[trigger] a.chans.dom().contains(l) && a.chans[k] == a.chans[l] ==> k == l)
}
pub open spec fn key_of(n: HaproxyNotify) -> (u64, u64) { (n.stream_id, n.frame_id) }
// The log of channel c grew from s by msgs, or by the first of them when
// nobody reads it any more.
pub open spec fn fed(s: Seq<Message>, msgs: Seq<Message>, gone: bool, t: Seq<Message>) -> bool {
    t == s + msgs || (gone && exists|i: int| 0 <= i <= msgs.len() && t == s + #[trigger] msgs.take(i))
}
// A NOTIFY of which channel c gets the messages.
pub open spec fn disp_step(a: Disp, n: HaproxyNotify, c: int, b: Disp) -> bool {
    let k = key_of(n);
    let open = a.chans.dom().contains(k);
    let s = if open { a.logs[c] } else { Seq::empty() };
    (if open { c == a.chans[k] && b.used == a.used } else { !a.used.contains(c) && b.used == a.used.insert(c) })
        && b.chans == (if n.fragmented { a.chans.insert(k, c) } else { a.chans.remove(k) })
        && a.gone.subset_of(b.gone) && (forall|d: int| d != c ==> #[trigger] b.logs[d] == a.logs[d]) && fed(s, n.messages@, b.gone.contains(c), b.logs[c])
}
pub open spec fn handed(o: Option<Receiver<AgentAck>>, n: HaproxyNotify, open: bool, id: int, c: int, a: World, b: World) -> bool {
    match o {
        // a later fragment: nothing is handed on
        None => open && b.procs@ == a.procs@,
        // the first one: one handle with its own acknowledgement, and the channel
        Some(acked) => !open && exists|h: Acker, m: UnboundedReceiver<Message>| b.procs@ == #[trigger] a.procs@.insert(id, a.procs@[id].push((h, m)))
            && m.id() == c && h.0 is Some && kv_(h.0->Some_0.0) == fresh(n.stream_id, n.frame_id) && h.0->Some_0.1.of(acked),
    }
}
pub open spec fn received(a: Dispatcher, wa: World, n: HaproxyNotify, r: Result<Option<Receiver<AgentAck>>, AgentError>, b: Dispatcher, wb: World) -> bool {
    b.processing == a.processing && match r {
        Ok(o) => disp_inv(disp(b, wb)) && exists|c: int| #[trigger] disp_step(disp(a, wa), n, c, disp(b, wb)) && handed(o, n, chans(a.receiving@).dom().contains(key_of(n)), a.processing.id(), c, wa, wb),
        Err(_) => wb.gone@.contains(a.processing.id()),
    }
}
// After the first messages were sent.
pub open spec fn disp_mid(a: Disp, n: HaproxyNotify, c: int, b: Disp, done: Seq<Message>) -> bool {
    let k = key_of(n);
    let open = a.chans.dom().contains(k);
    let s = if open { a.logs[c] } else { Seq::empty() };
    (if open { c == a.chans[k] && b.used == a.used } else { !a.used.contains(c) && b.used == a.used.insert(c) })
        && b.chans == (if n.fragmented { a.chans.insert(k, c) } else { a.chans.remove(k) })
        && a.gone.subset_of(b.gone) && (forall|d: int| d != c ==> #[trigger] b.logs[d] == a.logs[d]) && b.logs[c] == s + done
}
pub proof fn lemma_chans(m: Map<(u64, u64), UnboundedSender<Message>>, k: (u64, u64))
    ensures chans(m).dom() == m.dom(), m.dom().contains(k) ==> chans(m)[k] == m[k].id(),
        chans(m.remove(k)) == chans(m).remove(k), forall|v: UnboundedSender<Message>| chans(#[trigger] m.insert(k, v)) == chans(m).insert(k, v.id()),
        !m.dom().contains(k) ==> chans(m).remove(k) == chans(m), m.dom().contains(k) ==> chans(m).insert(k, chans(m)[k]) == chans(m),
{
    assert(chans(m).dom() =~= m.dom());
    assert(chans(m.remove(k)) =~= chans(m).remove(k));
    assert forall|v: UnboundedSender<Message>| chans(#[trigger] m.insert(k, v)) == chans(m).insert(k, v.id()) by { assert(chans(m.insert(k, v)) =~= chans(m).insert(k, v.id())); }
    if !m.dom().contains(k) { assert(chans(m).remove(k) =~= chans(m)); } else { assert(chans(m).insert(k, chans(m)[k]) =~= chans(m)); }
}
pub proof fn lemma_disp_inv(a: Disp, n: HaproxyNotify, c: int, b: Disp)
    requires disp_inv(a), disp_step(a, n, c, b)
    ensures disp_inv(b)
{ }
// A history of a dispatcher.
pub open spec fn disp_run(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>) -> bool {
    st.len() == h.len() + 1 && got.len() == h.len() && disp_inv(st[0]) && forall|i: int| 0 <= i < h.len() ==> disp_step(st[i], #[trigger] h[i], got[i], st[i + 1])
}
// The messages of the fragments that channel c gets.
pub open spec fn feed(h: Seq<HaproxyNotify>, got: Seq<int>, c: int) -> Seq<Message> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else {
        let p = feed(h.drop_last(), got.drop_last(), c);
        if got.last() == c { p + h.last().messages@ } else { p }
    }
}
pub open spec fn whole(h: Seq<HaproxyNotify>, k: (u64, u64), i: int, j: int) -> bool { forall|m: int| i <= m < j && key_of(#[trigger] h[m]) == k ==> h[m].fragmented }
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lemma_disp_run(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>, j: int)
    requires disp_run(st, h, got), 0 <= j <= h.len()
    ensures
        disp_inv(st[j]), st[0].used.subset_of(st[j].used), st[0].gone.subset_of(st[j].gone),
        forall|i: int| 0 <= i < j ==> st[j].used.contains(#[trigger] got[i]),
        // a pair is open as long as no final fragment came, with its channel
        forall|i: int| 0 <= i < j && whole(h, key_of(#[trigger] h[i]), i, j) ==> st[j].chans.dom().contains(key_of(h[i])) && st[j].chans[key_of(h[i])] == got[i],
        // and no other pair has that channel, then or later
        forall|i: int, k: (u64, u64)| 0 <= i < j && #[trigger] st[j].chans.dom().contains(k) && st[j].chans[k] == #[trigger] got[i] ==> k == key_of(h[i]) && whole(h, k, i, j),
    decreases j
{
    if j > 0 {
        lemma_disp_run(st, h, got, j - 1);
        let (a, n, c, b) = (st[j - 1], h[j - 1], got[j - 1], st[j]);
        assert(disp_step(a, n, c, b));
        lemma_disp_inv(a, n, c, b);
        assert forall|i: int| 0 <= i < j && whole(h, key_of(#[trigger] h[i]), i, j) implies st[j].chans.dom().contains(key_of(h[i])) && st[j].chans[key_of(h[i])] == got[i] by {
            let k = key_of(h[i]);
            if i < j - 1 {
                assert(whole(h, k, i, j - 1));
                if key_of(n) == k { assert(h[j - 1].fragmented); }
            } else { assert(h[j - 1].fragmented); }
        }
        assert forall|i: int, k: (u64, u64)| 0 <= i < j && #[trigger] st[j].chans.dom().contains(k) && st[j].chans[k] == #[trigger] got[i] implies k == key_of(h[i]) && whole(h, k, i, j) by {
            if k == key_of(n) {
                assert(n.fragmented && st[j].chans[k] == c);
                if i < j - 1 {
                    assert(a.used.contains(got[i]));
                    assert(a.chans.dom().contains(k));
                    assert(whole(h, k, i, j - 1));
                }
                assert forall|m: int| i <= m < j && key_of(#[trigger] h[m]) == k implies h[m].fragmented by { if m < j - 1 { assert(whole(h, k, i, j - 1)); } }
            } else {
                assert(a.chans.dom().contains(k) && a.chans[k] == b.chans[k]);
                if i == j - 1 {
                    assert(a.used.contains(a.chans[k]));
                    assert(a.chans.dom().contains(key_of(n)));
                    assert(false);
                }
                assert(whole(h, k, i, j - 1));
            }
        }
        assert(a.used.subset_of(b.used));
        assert forall|i: int| 0 <= i < j implies st[j].used.contains(#[trigger] got[i]) by {
            if i == j - 1 {
                if a.chans.dom().contains(key_of(n)) { assert(a.used.contains(a.chans[key_of(n)])); }
            } else { assert(st[j - 1].used.contains(got[i])); }
        }
    }
}
// C24: two fragments go to the same channel exactly when they are of the same
// pair and it was not closed in between.
pub proof fn lemma_disp_same(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>, i: int, j: int)
    requires disp_run(st, h, got), 0 <= i < j < h.len()
    ensures got[i] == got[j] <==> key_of(h[i]) == key_of(h[j]) && whole(h, key_of(h[i]), i, j)
{
    lemma_disp_run(st, h, got, j);
    assert(disp_step(st[j], h[j], got[j], st[j + 1]));
    let k = key_of(h[j]);
    if got[i] == got[j] {
        assert(st[j].used.contains(got[i]));
        assert(st[j].chans.dom().contains(k));
    }
}
pub proof fn lemma_disp_used(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>, i: int, j: int)
    requires disp_run(st, h, got), 0 <= i < j <= h.len()
    ensures st[j].used.contains(got[i])
{ lemma_disp_run(st, h, got, j); assert(got[i] == got[i]); }
pub proof fn lemma_disp_logs(a: Disp, n: HaproxyNotify, c: int, b: Disp)
    requires disp_inv(a), disp_step(a, n, c, b)
    ensures
        forall|d: int| d != c ==> #[trigger] b.logs[d] == a.logs[d], forall|d: int| a.gone.contains(d) ==> #[trigger] b.gone.contains(d),
        !b.gone.contains(c) ==> b.logs[c] == (if a.chans.dom().contains(key_of(n)) { a.logs[c] } else { Seq::empty() }) + n.messages@,
        a.used.contains(c) == a.chans.dom().contains(key_of(n)), a.used.contains(c) ==> a.chans[key_of(n)] == c,
{ if a.chans.dom().contains(key_of(n)) { assert(a.used.contains(a.chans[key_of(n)])); } }
// And a channel that is opened gets exactly the messages of these, in order,
// as long as somebody reads it.
pub proof fn lemma_disp_feed(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>, c: int)
    requires disp_run(st, h, got), !st[0].used.contains(c), got.contains(c), !st.last().gone.contains(c)
    ensures st.last().logs[c] == feed(h, got, c)
    decreases h.len()
{
    let j = h.len() - 1;
    let (a, n, d, b) = (st[j], h[j], got[j], st[j + 1]);
    assert(disp_step(a, n, d, b)) by { assert(h[j] == n); }
    let (st2, h2, got2) = (st.drop_last(), h.drop_last(), got.drop_last());
    assert(disp_run(st2, h2, got2)) by {
        assert forall|i: int| 0 <= i < h2.len() implies disp_step(st2[i], #[trigger] h2[i], got2[i], st2[i + 1]) by { assert(h2[i] == h[i]); }
    }
    assert(disp_inv(a)) by { lemma_disp_run(st, h, got, j); }
    lemma_disp_logs(a, n, d, b);
    assert(st2.last() == a && st.last() == b);
    if got2.contains(c) {
        lemma_disp_feed(st2, h2, got2, c);
        let i = choose|i: int| 0 <= i < got2.len() && got2[i] == c;
        assert(got[i] == c);
        lemma_disp_used(st, h, got, i, j);
    } else {
        let m = choose|m: int| 0 <= m < got.len() && got[m] == c;
        if m < j { assert(got2[m] == c); }
        lemma_feed_none(h2, got2, c);
        if a.chans.dom().contains(key_of(n)) {
            lemma_disp_from(st, h, got, j, key_of(n));
            assert forall|i: int| 0 <= i < j implies #[trigger] got[i] != c by { assert(got2[i] == got[i]); }
        }
    }
}
pub proof fn lemma_feed_none(h: Seq<HaproxyNotify>, got: Seq<int>, c: int)
    requires !got.contains(c), got.len() == h.len()
    ensures feed(h, got, c) == Seq::<Message>::empty()
    decreases h.len()
{
    if h.len() > 0 {
        assert(got[got.len() - 1] != c);
        assert(!got.drop_last().contains(c)) by {
            if got.drop_last().contains(c) { let i = choose|i: int| 0 <= i < got.drop_last().len() && got.drop_last()[i] == c; assert(got[i] == c); }
        }
        lemma_feed_none(h.drop_last(), got.drop_last(), c);
    }
}
// The channel of an open pair is one of before or one that was opened.
pub proof fn lemma_disp_from(st: Seq<Disp>, h: Seq<HaproxyNotify>, got: Seq<int>, j: int, k: (u64, u64))
    requires disp_run(st, h, got), 0 <= j <= h.len(), st[j].chans.dom().contains(k)
    ensures st[0].used.contains(st[j].chans[k]) || exists|i: int| 0 <= i < j && #[trigger] got[i] == st[j].chans[k]
    decreases j
{
    if j > 0 {
        assert(disp_step(st[j - 1], h[j - 1], got[j - 1], st[j]));
        if k == key_of(h[j - 1]) && h[j - 1].fragmented { assert(got[j - 1] == st[j].chans[k]); } else { lemma_disp_from(st, h, got, j - 1, k); }
    }
}
pub proof fn lemma_one_more(m: Seq<Message>, i: int)
    requires 0 <= i <= m.len()
    ensures i < m.len() ==> forall|s: Seq<Message>| (s + #[trigger] m.take(i)).push(m[i]) == s + m.take(i + 1) && m.skip(i)[0] == m[i] && m.skip(i).skip(1) == m.skip(i + 1),
        i == m.len() ==> m.take(i) == m,
        forall|s: Seq<Message>| s + #[trigger] m.take(0) == s, m.skip(0) == m,
{
    assert(m.skip(0) =~= m);
    assert forall|s: Seq<Message>| s + #[trigger] m.take(0) == s by { assert(s + m.take(0) =~= s); }
    if i < m.len() {
        assert(m.skip(i).skip(1) =~= m.skip(i + 1));
        assert forall|s: Seq<Message>| (s + #[trigger] m.take(i)).push(m[i]) == s + m.take(i + 1) by { assert((s + m.take(i)).push(m[i]) =~= s + m.take(i + 1)); }
    } else { assert(m.take(i) =~= m); }
}

// ---------------------------------------------------------------- a connection
pub open spec fn u32_max(n: usize) -> u32 { if n <= u32::MAX { n as u32 } else { u32::MAX } }
pub open spec fn wants_service(f: Frame) -> bool { f is HaproxyHello && f->HaproxyHello_0.healthcheck != Some(true) }
// What an AGENT-HELLO may say.
pub open spec fn terms<S, T>(rt: Runtime<S, T>, h: HaproxyHello, a: AgentHello) -> bool {
    best(rt.supported_versions@, h.supported_versions@, a.version)
        && a.max_frame_size == (if h.max_frame_size <= u32_max(rt.max_frame_size) { h.max_frame_size } else { u32_max(rt.max_frame_size) })
        && a.capabilities@.to_set() == h.capabilities@.to_set().intersect(rt.capabilities@.to_set()) && a.capabilities@.no_duplicates()
}
// C19, the first frame.
pub open spec fn conn_ok<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(c: Connecting<S, T>, f: Frame, r: Result<(State<S, T>, Option<Frame>), AgentError>) -> bool {
    match f {
        Frame::HaproxyHello(h) => match r {
            Ok((next, reply)) => reply is Some && match reply->Some_0 {
                Frame::AgentHello(a) => terms(*c.runtime, h, a) && match next {
                    State::Disconnecting => h.healthcheck == Some(true),
                    State::Processing(p) => h.healthcheck != Some(true) && p.runtime == c.runtime && p.service.hist().len() == 0 && match p.reassembly {
                        Some(t) => a.capabilities@.contains(Capability::Fragmentation) && views(t.0.0@) == Map::<(u64, u64), Seq<Message>>::empty(),
                        None => !a.capabilities@.contains(Capability::Fragmentation),
                    },
                    State::Connecting(_) => false,
                },
                _ => false,
            },
            // there is no common version, or no service
            Err(e) => (stat_of(e) == Some(Status::NoVersion) && forall|x: Version| !#[trigger] common((*c.runtime).supported_versions@, h.supported_versions@, x))
                || (wants_service(f) && (exists|x: Version| #[trigger] common((*c.runtime).supported_versions@, h.supported_versions@, x))
                    && exists|m: S::MakeError| #[trigger] S::unmade(m) && stat_of(e) == stat_in(m)),
        },
        _ => r is Err && stat_of(r->Err_0) == Some(Status::Invalid),
    }
}
// A service was called once more.
pub open spec fn called<A, B>(h: Seq<(Vec<A>, B)>, msgs: Seq<A>, res: B, h2: Seq<(Vec<A>, B)>) -> bool {
    h2.len() == h.len() + 1 && h2.drop_last() == h && h2.last().0@ == msgs && h2.last().1 == res
}
pub broadcast proof fn lemma_called<A, B>(h: Seq<(Vec<A>, B)>, x: (Vec<A>, B)) ensures called(h, x.0@, x.1, #[trigger] h.push(x))
{ assert(h.push(x).drop_last() =~= h); }
// What a whole NOTIFY is to be answered with, when the service gives res.
pub open spec fn acked<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(p: Processing<S, T>, n: HaproxyNotify, msgs: Seq<Message>, res: Result<Vec<Action>, S::Error>, r: Result<(State<S, T>, Option<Frame>), AgentError>) -> bool {
    if late((*p.runtime).max_process_time, res) { r is Err && stat_of(r->Err_0) == Some(Status::Timeout) }
    else {
        match res {
            Ok(acts) => r is Ok && r->Ok_0.0 is Processing && called(p.service.hist(), msgs, res, r->Ok_0.0->Processing_0.service.hist())
                && r->Ok_0.1 is Some && fv(r->Ok_0.1->Some_0) == FV::AgentAck(AckV { actions: avs(acts@), ..fresh(n.stream_id, n.frame_id) }),
            Err(e) => <S::Service as Service<Vec<Message>>>::gave(e) && r is Err && stat_of(r->Err_0) == Some(Status::Unknown),
        }
    }
}
// C20, each later frame.
pub open spec fn proc_ok<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(p: Processing<S, T>, f: Frame, r: Result<(State<S, T>, Option<Frame>), AgentError>) -> bool {
    match f {
        Frame::HaproxyNotify(n) => {
            let (tab, whole) = match p.reassembly {
                Some(t) => tab_next(views(t.0.0@), n.fragmented, key_of(n), n.messages@),
                None => (Map::empty(), if n.fragmented { None } else { Some(n.messages@) }),
            };
            if p.reassembly is None && n.fragmented { r is Err && stat_of(r->Err_0) == Some(Status::FragmentNotSupported) }
            else {
                (r is Ok ==> r->Ok_0.0 is Processing && ({ let q = r->Ok_0.0->Processing_0;
                    q.runtime == p.runtime && (q.reassembly is Some == p.reassembly is Some) && (p.reassembly is Some ==> views(q.reassembly->Some_0.0.0@) == tab) }))
                && match whole {
                    None => r is Ok && r->Ok_0.1 is None && r->Ok_0.0->Processing_0.service == p.service,
                    Some(msgs) => exists|res: Result<Vec<Action>, S::Error>| late((*p.runtime).max_process_time, res) == #[trigger] late((*p.runtime).max_process_time, res) && acked(p, n, msgs, res, r),
                }
            }
        },
        Frame::HaproxyDisconnect(_) => r is Err && stat_of(r->Err_0) == Some(Status::Normal),
        _ => r is Err && stat_of(r->Err_0) == Some(Status::Invalid),
    }
}
pub open spec fn state_ok<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(s: State<S, T>, f: Frame, r: Result<(State<S, T>, Option<Frame>), AgentError>) -> bool {
    match s {
        State::Connecting(c) => conn_ok(c, f, r),
        State::Processing(p) => proc_ok(p, f, r),
        State::Disconnecting => r is Ok && r->Ok_0.0 is Disconnecting && r->Ok_0.1 is None,
    }
}
pub proof fn lemma_views_empty() ensures views(Map::<(u64, u64), Vec<Message>>::empty()) == Map::<(u64, u64), Seq<Message>>::empty()
{ assert(views(Map::<(u64, u64), Vec<Message>>::empty()) =~= Map::<(u64, u64), Seq<Message>>::empty()); }
pub broadcast proof fn lemma_intos_same(s: Seq<Action>) ensures #[trigger] intos::<Action, Action>(s) == s
{ assert(intos::<Action, Action>(s) =~= s); }

// ---------------------------------------------------------------- a session
pub open spec fn self_kept<IO: Stream_, S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(a: Connection<IO, S, T>, b: Connection<IO, S, T>) -> bool {
    b.state == a.state && b.codec.framer == a.codec.framer && b.codec.stream.rx() == a.codec.stream.rx() && b.tok == a.tok
        && (a.codec.stream.broken() ==> b.codec.stream.broken())
}
pub open spec fn disc_of(code: u32, msg: Seq<char>) -> FV { FV::AgentDisconnect(DiscV { code, msg }) }
// Telling why: one DISCONNECT with this code, of which all is written unless
// the stream breaks; with no message when it would be too long. A limit too
// small for even that lets nothing be written. b: the stream broke, then or
// later.
pub open spec fn disc_ok(b: bool, max: int, code: u32, tx: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>) -> bool {
    exists|msg: Seq<char>, w: Result<usize, Status>| #[trigger] write_disc(max, code, msg, tx, w, tx2)
        && match w { Ok(_) => r is Ok, Err(e) => (e == Status::Io ==> b) && r == Err::<(), AgentError>(AgentError::Status(e)) }
}
pub open spec fn write_disc(max: int, code: u32, msg: Seq<char>, tx: Seq<u8>, w: Result<usize, Status>, tx2: Seq<u8>) -> bool {
    (w == Err::<usize, Status>(Status::TooBig) ==> msg.len() == 0) && wrote(max, disc_of(code, msg), tx, w, tx2)
}
pub broadcast proof fn lemma_write_disc(max: int, f: Frame, tx: Seq<u8>, w: Result<usize, Status>, tx2: Seq<u8>)
    ensures
        #![trigger wrote(max, fv(f), tx, w, tx2)]
        f is AgentDisconnect && (w == Err::<usize, Status>(Status::TooBig) ==> f->AgentDisconnect_0.message@.len() == 0) && wrote(max, fv(f), tx, w, tx2)
            ==> write_disc(max, f->AgentDisconnect_0.status_code, f->AgentDisconnect_0.message@, tx, w, tx2)
{ }
// The stream gave an error: when it is not broken, the peer is told.
pub open spec fn failed(b: bool, max: int, status: Status, tx: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>) -> bool {
    if status == Status::Io { r == Err::<(), AgentError>(AgentError::Status(status)) && tx2 == tx }
    else { r is Err && exists|q: Result<(), AgentError>| #[trigger] disc_ok(b, max, code_of(status), tx, q, tx2) && (q is Ok ==> r == Err::<(), AgentError>(AgentError::Status(status))) && (q is Err ==> r == q) }
}
pub broadcast proof fn lemma_suffix_self(s: Seq<u8>) ensures #[trigger] suffix(s, s) { assert(s.skip(0) =~= s); }
// What a connection does from a state on: s, max, rx and tx are its state, its
// limit, the bytes to come and those written; r, rx2 and tx2 what serving it
// returns, leaves and has written in the end.
pub open spec fn serve_ok<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(asked: bool, b: bool, s: State<S, T>, max: int, rx: Seq<u8>, tx: Seq<u8>, r: Result<(), AgentError>, rx2: Seq<u8>, tx2: Seq<u8>) -> bool
    decreases rx.len(), 1int
{
    if s is Disconnecting { r is Ok && rx2 == rx && tx2 == tx }
    // it was told to end
    else if asked && r is Ok && suffix(rx, rx2) && tx2 == tx { true }
    else {
        exists|fr: Result<Frame, Status>, rx1: Seq<u8>| #[trigger] read_ok(max, rx, fr, rx1) && match fr {
            Err(status) => rx2 == rx1 && failed(b, max, status, tx, r, tx2),
            Ok(f) => rx1.len() < rx.len() && exists|h: Result<(State<S, T>, Option<Frame>), AgentError>| #[trigger] state_ok(s, f, h) && goes_on(asked, b, h, max, rx1, tx, r, rx2, tx2),
        }
    }
}
pub open spec fn was_served<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(asked: bool, s: State<S, T>, max: int, rx: Seq<u8>, tx: Seq<u8>) -> bool {
    exists|b: bool, r: Result<(), AgentError>, rx2: Seq<u8>, tx2: Seq<u8>| #[trigger] serve_ok(asked, b, s, max, rx, tx, r, rx2, tx2)
}
// After a frame was handled.
pub open spec fn goes_on<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(asked: bool, b: bool, h: Result<(State<S, T>, Option<Frame>), AgentError>, max: int, rx: Seq<u8>, tx: Seq<u8>, r: Result<(), AgentError>, rx2: Seq<u8>, tx2: Seq<u8>) -> bool
    decreases rx.len(), 2int
{
    match h {
        Err(e) => rx2 == rx && exists|q: Result<(), AgentError>| #[trigger] disc_ok(b, max, code_of(told(e)), tx, q, tx2) && r == q,
        Ok((next, None)) => serve_ok(asked, b, next, max, rx, tx, r, rx2, tx2),
        Ok((next, Some(reply))) => exists|max2: int, w: Result<usize, Status>, tx1: Seq<u8>| #[trigger] wrote(max2, fv(reply), tx, w, tx1) && max2 == limit(max, reply) && match w {
            Ok(_) => serve_ok(asked, b, next, max2, rx, tx1, r, rx2, tx2),
            Err(status) => (status == Status::Io ==> b) && rx2 == rx && failed(b, max2, status, tx1, r, tx2),
        },
    }
}
// The limit after a reply: an AGENT-HELLO sets it.
pub open spec fn limit(max: int, reply: Frame) -> int { match reply { Frame::AgentHello(h) => h.max_frame_size as int, _ => max } }

// C21, C19: all that is written is whole frames, but for a piece of the last
// one when the stream breaks: one AGENT-HELLO first, then ACKs, and at most
// one DISCONNECT, which is last.
pub open spec fn said(start: bool, l: Seq<FV>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> match #[trigger] l[i] {
        FV::AgentHello(_) => start && i == 0,
        FV::AgentAck(a) => !(start && i == 0) && !a.aborted && !a.fragmented,
        FV::AgentDisconnect(_) => i == l.len() - 1,
        _ => false,
    }
}
pub open spec fn talk(start: bool, tx: Seq<u8>, l: Seq<FV>, p: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>) -> bool {
    tx2 == tx + (wires(l) + p) && said(start, l) && (p.len() > 0 ==> r is Err && stat_of(r->Err_0) == Some(Status::Io))
}
pub proof fn lemma_talk_disc(b: bool, start: bool, max: int, code: u32, tx: Seq<u8>, q: Result<(), AgentError>, tx2: Seq<u8>)
    requires disc_ok(b, max, code, tx, q, tx2), max <= u32::MAX
    ensures exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(start, tx, l, p, q, tx2) && l.len() <= 1
        && (q is Ok ==> l.len() == 1) && (l.len() == 1 ==> l[0] is AgentDisconnect && l[0]->AgentDisconnect_0.code == code)
{
    let (msg, w) = choose|msg: Seq<char>, w: Result<usize, Status>| #[trigger] write_disc(max, code, msg, tx, w, tx2)
        && match w { Ok(_) => q is Ok, Err(e) => q == Err::<(), AgentError>(AgentError::Status(e)) };
    let f = disc_of(code, msg);
    let e = Seq::<u8>::empty();
    let none = Seq::<FV>::empty();
    assert(wires(none) == e);
    if e_frame(f).len() > max {
        assert(tx + (wires(none) + e) =~= tx);
        assert(talk(start, tx, none, e, q, tx2));
    } else {
        match w {
            Ok(_) => {
                lemma_wires_push(none, f);
                let l = none.push(f);
                assert(tx + (wires(l) + e) =~= tx + wire(f));
                assert(talk(start, tx, l, e, q, tx2));
            }
            Err(_) => {
                let n = choose|n: int| 0 <= n <= wire(f).len() && tx2 == tx + #[trigger] wire(f).take(n);
                let p = wire(f).take(n);
                assert(tx + (wires(none) + p) =~= tx + p);
                assert(talk(start, tx, none, p, q, tx2));
            }
        }
    }
}
pub proof fn lemma_talk_failed(b: bool, start: bool, max: int, status: Status, tx: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>)
    requires failed(b, max, status, tx, r, tx2), max <= u32::MAX
    ensures exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(start, tx, l, p, r, tx2), r is Err
{
    if status == Status::Io {
        let (l, p) = (Seq::<FV>::empty(), Seq::<u8>::empty());
        assert(wires(l) == p);
        assert(tx + (wires(l) + p) =~= tx);
        assert(talk(start, tx, l, p, r, tx2));
    } else {
        let q = choose|q: Result<(), AgentError>| #[trigger] disc_ok(b, max, code_of(status), tx, q, tx2) && (q is Ok ==> r == Err::<(), AgentError>(AgentError::Status(status))) && (q is Err ==> r == q);
        lemma_talk_disc(b, start, max, code_of(status), tx, q, tx2);
        let (l, p) = choose|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(start, tx, l, p, q, tx2) && l.len() <= 1;
        assert(talk(start, tx, l, p, r, tx2));
    }
}
pub open spec fn reply_fits(start: bool, f: FV) -> bool {
    if start { f is AgentHello } else { f is AgentAck && !f->AgentAck_0.aborted && !f->AgentAck_0.fragmented }
}
pub proof fn lemma_state_reply<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(s: State<S, T>, f: Frame, next: State<S, T>, reply: Option<Frame>, max: int)
    requires state_ok(s, f, Ok((next, reply))), !(s is Disconnecting), max <= u32::MAX
    ensures !(next is Connecting), reply is None ==> !(s is Connecting), reply is Some ==> reply_fits(s is Connecting, fv(reply->Some_0)) && limit(max, reply->Some_0) <= u32::MAX
{ }
// One frame more in front.
pub proof fn lemma_talk_more(start: bool, tx: Seq<u8>, f: FV, tx1: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>)
    requires exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(false, tx1, l, p, r, tx2), tx1 == tx + wire(f), reply_fits(start, f)
    ensures exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(start, tx, l, p, r, tx2)
{
    hide(wire);
    let (l, p) = choose|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(false, tx1, l, p, r, tx2);
    let m = seq![f] + l;
    assert(m[0] == f && m.skip(1) =~= l);
    assert(tx + (wires(m) + p) =~= tx1 + (wires(l) + p));
    assert(said(start, m)) by {
        assert forall|i: int| 0 <= i < m.len() implies match #[trigger] m[i] {
            FV::AgentHello(_) => start && i == 0,
            FV::AgentAck(a) => !(start && i == 0) && !a.aborted && !a.fragmented,
            FV::AgentDisconnect(_) => i == m.len() - 1,
            _ => false,
        } by { if i > 0 { assert(m[i] == l[i - 1]); } }
    }
    assert(talk(start, tx, m, p, r, tx2));
}
pub proof fn lemma_talk_cut(b: bool, start: bool, max: int, tx: Seq<u8>, f: FV, status: Status, tx1: Seq<u8>, r: Result<(), AgentError>, tx2: Seq<u8>)
    requires wrote(max, f, tx, Err(status), tx1), failed(b, max, status, tx1, r, tx2), max <= u32::MAX
    ensures exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(start, tx, l, p, r, tx2)
{
    hide(wire); hide(e_frame);
    lemma_talk_failed(b, start, max, status, tx1, r, tx2);
    if e_frame(f).len() <= max {
        let none = Seq::<FV>::empty();
        assert(wires(none) == Seq::<u8>::empty());
        let n = choose|n: int| 0 <= n <= wire(f).len() && tx1 == tx + #[trigger] wire(f).take(n);
        let p = wire(f).take(n);
        assert(tx + (wires(none) + p) =~= tx + p);
        assert(talk(start, tx, none, p, r, tx2));
    }
}
pub proof fn lemma_session<S: MakeService<T, Vec<Message>, Response = Vec<Action>>, T>(asked: bool, b: bool, s: State<S, T>, max: int, rx: Seq<u8>, tx: Seq<u8>, r: Result<(), AgentError>, rx2: Seq<u8>, tx2: Seq<u8>)
    requires serve_ok(asked, b, s, max, rx, tx, r, rx2, tx2), max <= u32::MAX
    ensures exists|l: Seq<FV>, p: Seq<u8>| #[trigger] talk(s is Connecting, tx, l, p, r, tx2)
    decreases rx.len()
{
    hide(state_ok); hide(e_frame); hide(wire); hide(fv); hide(read_ok); hide(failed); hide(disc_ok); hide(limit); hide(reply_fits);
    let start = s is Connecting;
    if s is Disconnecting || (asked && r is Ok && suffix(rx, rx2) && tx2 == tx) {
        let (none, e) = (Seq::<FV>::empty(), Seq::<u8>::empty());
        assert(wires(none) == e);
        assert(tx + (wires(none) + e) =~= tx);
        assert(talk(start, tx, none, e, r, tx2));
    } else {
        let (fr, rx1) = choose|fr: Result<Frame, Status>, rx1: Seq<u8>| #[trigger] read_ok(max, rx, fr, rx1) && match fr {
            Err(status) => rx2 == rx1 && failed(b, max, status, tx, r, tx2),
            Ok(f) => rx1.len() < rx.len() && exists|h: Result<(State<S, T>, Option<Frame>), AgentError>| #[trigger] state_ok(s, f, h) && goes_on(asked, b, h, max, rx1, tx, r, rx2, tx2),
        };
        match fr {
            Err(status) => { lemma_talk_failed(b, start, max, status, tx, r, tx2); }
            Ok(f) => {
                let h = choose|h: Result<(State<S, T>, Option<Frame>), AgentError>| #[trigger] state_ok(s, f, h) && goes_on(asked, b, h, max, rx1, tx, r, rx2, tx2);
                match h {
                    Err(x) => {
                        let q = choose|q: Result<(), AgentError>| #[trigger] disc_ok(b, max, code_of(told(x)), tx, q, tx2) && r == q;
                        lemma_talk_disc(b, start, max, code_of(told(x)), tx, q, tx2);
                    }
                    Ok((next, None)) => { lemma_state_reply(s, f, next, None, max); lemma_session(asked, b, next, max, rx1, tx, r, rx2, tx2); }
                    Ok((next, Some(reply))) => {
                        lemma_state_reply(s, f, next, Some(reply), max);
                        let (max2, w, tx1) = choose|max2: int, w: Result<usize, Status>, tx1: Seq<u8>| #[trigger] wrote(max2, fv(reply), tx, w, tx1) && max2 == limit(max, reply) && match w {
                            Ok(_) => serve_ok(asked, b, next, max2, rx1, tx1, r, rx2, tx2),
                            Err(status) => rx2 == rx1 && failed(b, max2, status, tx1, r, tx2),
                        };
                        match w {
                            Ok(_) => { lemma_session(asked, b, next, max2, rx1, tx1, r, rx2, tx2); lemma_talk_more(start, tx, fv(reply), tx1, r, tx2); }
                            Err(status) => { lemma_talk_cut(b, start, max2, tx, fv(reply), status, tx1, r, tx2); }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the agent
// C31, C33: each connection that was taken runs in a task of its own, with a
// token that ends with the agent's and ends nothing but itself.
pub open spec fn all_run<S, T>(a: Agent<S, T>, old: AgentLog, new: AgentLog) -> bool {
    let d = old.runs.len() - old.taken.len();
    &&& old.taken.len() <= new.taken.len()
    &&& new.runs.len() == new.taken.len() + d
    &&& forall|i: int| 0 <= i < old.taken.len() ==> #[trigger] new.taken[i] == old.taken[i]
    &&& forall|i: int| 0 <= i < old.runs.len() ==> #[trigger] new.runs[i] == old.runs[i]
    &&& forall|i: int| old.taken.len() <= i < new.taken.len() ==> new.runs[i + d] == (Run { io: #[trigger] new.taken[i], under: a.shutdown.token.id() })
}
pub open spec fn served<S, T>(a: Agent<S, T>, old: AgentLog, r: Result<(), AgentError>, new: AgentLog) -> bool {
    &&& r is Ok ==> new.asked && new.closed && new.open == Set::<int>::empty() && all_run(a, old, new)
    // C33: nothing else ends it
    &&& r is Err ==> new.failed
}
}
