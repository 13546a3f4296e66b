// Frames.
pub mod spec_frame {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use crate::shim::*;
use crate::spec::*;
use crate::spec_data::*;
use crate::spec_text::*;
use crate::spop::action::{self, Action, Scope};
use crate::spop::error::Error;
use crate::spop::version::Version;
use crate::spop::caps::Capability;
use crate::spop::frame::{self, msg::Message, frames::Frame, metadata::Metadata, agent, haproxy, disconnect::Disconnect};
use crate::spop::data::typed::Typed;
use crate::spop::data::value::KeyValue;
use crate::spop::frame::decode::KVList;

// ---------------------------------------------------------------- views
pub struct HHelloV { pub versions: Seq<Version>, pub max: u32, pub caps: Seq<Capability>, pub health: Option<bool>, pub engine: Option<Seq<char>> }
pub struct AHelloV { pub version: Version, pub max: u32, pub caps: Seq<Capability> }
pub struct DiscV { pub code: u32, pub msg: Seq<char> }
pub struct MsgV { pub name: Seq<char>, pub args: Seq<KV> }
pub struct NotifyV { pub fragmented: bool, pub stream_id: u64, pub frame_id: u64, pub messages: Seq<MsgV> }
pub enum ActV { Set(Scope, Seq<char>, TV), Unset(Scope, Seq<char>) }
pub struct AckV { pub fragmented: bool, pub aborted: bool, pub stream_id: u64, pub frame_id: u64, pub actions: Seq<ActV> }
pub enum FV {
    Unset,
    HaproxyHello(HHelloV),
    HaproxyDisconnect(DiscV),
    HaproxyNotify(NotifyV),
    AgentHello(AHelloV),
    AgentDisconnect(DiscV),
    AgentAck(AckV),
}
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn hhv(h: haproxy::Hello) -> HHelloV {
    HHelloV { versions: h.supported_versions@, max: h.max_frame_size, caps: h.capabilities@, health: h.healthcheck, engine: ov(h.engine_id) }
}
pub open spec fn ahv(h: agent::Hello) -> AHelloV { AHelloV { version: h.version, max: h.max_frame_size, caps: h.capabilities@ } }
pub open spec fn dv(d: Disconnect) -> DiscV { DiscV { code: d.status_code, msg: d.message@ } }
pub open spec fn mv(m: Message) -> MsgV { MsgV { name: m.name@, args: args(m.args@) } }
pub open spec fn mvs(s: Seq<Message>) -> Seq<MsgV> { s.map_values(|m: Message| mv(m)) }
pub open spec fn av(a: Action) -> ActV {
    match a {
        Action::SetVar { scope, name, value } => ActV::Set(scope, name@, tv(value)),
        Action::UnsetVar { scope, name } => ActV::Unset(scope, name@),
    }
}
pub open spec fn avs(s: Seq<Action>) -> Seq<ActV> { s.map_values(|a: Action| av(a)) }
pub open spec fn nv(n: haproxy::Notify) -> NotifyV {
    NotifyV { fragmented: n.fragmented, stream_id: n.stream_id, frame_id: n.frame_id, messages: mvs(n.messages@) }
}
pub open spec fn kv_(a: agent::Ack) -> AckV {
    AckV { fragmented: a.fragmented, aborted: a.aborted, stream_id: a.stream_id, frame_id: a.frame_id, actions: avs(a.actions@) }
}
pub open spec fn fv(f: Frame) -> FV {
    match f {
        Frame::Unset => FV::Unset,
        Frame::HaproxyHello(h) => FV::HaproxyHello(hhv(h)),
        Frame::HaproxyDisconnect(d) => FV::HaproxyDisconnect(dv(d)),
        Frame::HaproxyNotify(n) => FV::HaproxyNotify(nv(n)),
        Frame::AgentHello(h) => FV::AgentHello(ahv(h)),
        Frame::AgentDisconnect(d) => FV::AgentDisconnect(dv(d)),
        Frame::AgentAck(a) => FV::AgentAck(kv_(a)),
    }
}

// ---------------------------------------------------------------- metadata
pub struct MetaV { pub fin: bool, pub abort: bool, pub stream_id: u64, pub frame_id: u64 }
pub open spec fn mdv(m: Metadata) -> MetaV {
    MetaV { fin: m.flags.b % 2 == 1, abort: (m.flags.b / 2) % 2 == 1, stream_id: m.stream_id, frame_id: m.frame_id }
}
pub open spec fn e_meta(fin: bool, abort: bool, stream_id: u64, frame_id: u64) -> Seq<u8> {
    e_u32(fl(fin, abort)) + e_varint(stream_id) + e_varint(frame_id)
}
pub open spec fn fl(fin: bool, abort: bool) -> u32 { ((if fin { 1int } else { 0 }) + (if abort { 2int } else { 0 })) as u32 }
pub open spec fn e_md(m: Metadata) -> Seq<u8> { e_u32(m.flags.b) + e_varint(m.stream_id) + e_varint(m.frame_id) }
pub open spec fn p_meta(s: Seq<u8>) -> Option<(MetaV, Seq<u8>)> {
    if s.len() < 4 { None } else {
        let f = d_u32(s);
        match p_varint(s.skip(4)) {
            Some((sid, t)) => match p_varint(t) {
                Some((fid, t)) => Some((MetaV { fin: f % 2 == 1, abort: (f / 2) % 2 == 1, stream_id: sid, frame_id: fid }, t)),
                None => None,
            },
            None => None,
        }
    }
}
pub proof fn lemma_u32(n: u32, t: Seq<u8>)
    ensures d_u32(e_u32(n) + t) == n, e_u32(n).len() == 4
{
    let s = e_u32(n) + t;
    assert(s[0] == e_u32(n)[0] && s[1] == e_u32(n)[1] && s[2] == e_u32(n)[2] && s[3] == e_u32(n)[3]);
    assert(e_u32(n)[0] == (n / 0x1000000) as u8 && e_u32(n)[1] == ((n / 0x10000) % 0x100) as u8
        && e_u32(n)[2] == ((n / 0x100) % 0x100) as u8 && e_u32(n)[3] == (n % 0x100) as u8);
    assert((n / 0x1000000) * 0x1000000 + ((n / 0x10000) % 0x100) * 0x10000 + ((n / 0x100) % 0x100) * 0x100 + n % 0x100 == n
        && n / 0x1000000 < 0x100) by (bit_vector);
}
pub proof fn lemma_meta(fin: bool, abort: bool, sid: u64, fid: u64, t: Seq<u8>)
    ensures p_meta(e_meta(fin, abort, sid, fid) + t) == Some((MetaV { fin, abort, stream_id: sid, frame_id: fid }, t))
{
    let f = fl(fin, abort);
    let s = e_meta(fin, abort, sid, fid) + t;
    assert(s =~= e_u32(f) + (e_varint(sid) + (e_varint(fid) + t)));
    lemma_u32(f, e_varint(sid) + (e_varint(fid) + t));
    assert(s.skip(4) =~= e_varint(sid) + (e_varint(fid) + t));
    lemma_varint(sid, e_varint(fid) + t);
    lemma_varint(fid, t);
}
pub proof fn bits_flags(b: u32)
    ensures
        (b & 3) % 2 == b % 2, ((b & 3) / 2) % 2 == (b / 2) % 2,
        (b & 1 == 1) == (b % 2 == 1), (b & 2 == 2) == ((b / 2) % 2 == 1), b & 3 < 4,
        0u32 | 0u32 == 0u32, 0u32 | 2u32 == 2u32, 1u32 | 0u32 == 1u32, 1u32 | 2u32 == 3u32,
        0u32 | 1u32 == 1u32, 2u32 | 0u32 == 2u32, 2u32 | 1u32 == 3u32, 3u32 | 0u32 == 3u32, 1u32 | 1u32 == 1u32, 2u32 | 2u32 == 2u32,
{
    assert((b & 3) % 2 == b % 2) by (bit_vector);
    assert(((b & 3) / 2) % 2 == (b / 2) % 2) by (bit_vector);
    assert((b & 1 == 1) == (b % 2 == 1)) by (bit_vector);
    assert((b & 2 == 2) == ((b / 2) % 2 == 1)) by (bit_vector);
    assert(b & 3 < 4) by (bit_vector);
    assert(0u32 | 0u32 == 0u32 && 0u32 | 2u32 == 2u32 && 1u32 | 0u32 == 1u32 && 1u32 | 2u32 == 3u32) by (bit_vector);
    assert(0u32 | 1u32 == 1u32 && 2u32 | 0u32 == 2u32 && 2u32 | 1u32 == 3u32 && 3u32 | 0u32 == 3u32 && 1u32 | 1u32 == 1u32 && 2u32 | 2u32 == 2u32) by (bit_vector);
}

// ---------------------------------------------------------------- messages
pub open spec fn msg_ok(m: MsgV) -> bool {
    encode_utf8(m.name).len() <= isize::MAX && m.args.len() <= 255 && forall|i: int| 0 <= i < m.args.len() ==> kv_ok(#[trigger] m.args[i])
}
pub open spec fn e_msg(m: MsgV) -> Seq<u8> { e_string(m.name) + seq![m.args.len() as u8] + e_kvs(m.args) }
pub open spec fn p_msg(s: Seq<u8>) -> Option<(MsgV, Seq<u8>)> {
    match p_string(s) {
        Some((name, t)) => if t.len() == 0 { None } else {
            match p_nkvs(t.skip(1), t[0] as nat) { Some((args, t)) => Some((MsgV { name, args }, t)), None => None }
        },
        None => None,
    }
}
pub broadcast proof fn lemma_msg(m: MsgV, t: Seq<u8>)
    requires msg_ok(m)
    ensures p_msg(#[trigger] (e_msg(m) + t)) == Some((m, t)), e_msg(m).len() >= 1,
{
    let u = e_kvs(m.args) + t;
    let w = seq![m.args.len() as u8] + u;
    assert(e_msg(m) + t =~= e_string(m.name) + w);
    lemma_string(m.name, w);
    assert(w.skip(1) =~= u);
    lemma_nkvs(m.args, t);
}
pub broadcast proof fn lemma_p_nkvs_shrinks(s: Seq<u8>, n: nat)
    ensures match #[trigger] p_nkvs(s, n) { Some((v, t)) => t.len() <= s.len() && v.len() == n, None => true },
    decreases n
{ if n > 0 { lemma_p_kv_shrinks(s); match p_kv(s) { Some((x, t)) => lemma_p_nkvs_shrinks(t, (n - 1) as nat), None => {} } } }
pub broadcast proof fn lemma_p_msg_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_msg(s) { Some((v, t)) => t.len() < s.len(), None => true },
{
    lemma_p_string_shrinks(s);
    match p_string(s) { Some((x, t)) => if t.len() > 0 { lemma_p_nkvs_shrinks(t.skip(1), t[0] as nat); }, None => {} }
}
pub open spec fn e_msgs(l: Seq<MsgV>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { e_msg(l[0]) + e_msgs(l.skip(1)) }
}
pub open spec fn p_msgs(s: Seq<u8>) -> Option<Seq<MsgV>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match p_msg(s) {
            Some((x, t)) => if t.len() < s.len() { match p_msgs(t) { Some(r) => Some(seq![x] + r), None => None } } else { None },
            None => None,
        }
    }
}
pub proof fn lemma_msgs(l: Seq<MsgV>)
    requires forall|i: int| 0 <= i < l.len() ==> msg_ok(#[trigger] l[i])
    ensures p_msgs(e_msgs(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        lemma_msg(l[0], e_msgs(l.skip(1)));
        lemma_msgs(l.skip(1));
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); }
}

// ---------------------------------------------------------------- actions
pub open spec fn scope_no(s: Scope) -> u8 {
    match s { Scope::Process => 0, Scope::Session => 1, Scope::Transaction => 2, Scope::Request => 3, Scope::Response => 4 }
}
pub open spec fn scope_of(b: u8) -> Option<Scope> {
    if b == 0 { Some(Scope::Process) } else if b == 1 { Some(Scope::Session) } else if b == 2 { Some(Scope::Transaction) }
    else if b == 3 { Some(Scope::Request) } else if b == 4 { Some(Scope::Response) } else { None }
}
pub open spec fn act_ok(a: ActV) -> bool {
    match a {
        ActV::Set(_, n, v) => encode_utf8(n).len() <= isize::MAX && tv_ok(v),
        ActV::Unset(_, n) => encode_utf8(n).len() <= isize::MAX,
    }
}
pub open spec fn e_act(a: ActV) -> Seq<u8> {
    match a {
        ActV::Set(s, n, v) => seq![1u8, 3, scope_no(s)] + e_string(n) + e_typed(v),
        ActV::Unset(s, n) => seq![2u8, 2, scope_no(s)] + e_string(n),
    }
}
pub open spec fn p_act(s: Seq<u8>) -> Option<(ActV, Seq<u8>)> {
    if s.len() < 3 { None } else {
        match (scope_of(s[2]), p_string(s.skip(3))) {
            (Some(scope), Some((n, t))) =>
                if s[0] == 1 && s[1] == 3 {
                    match p_typed(t) { Some((v, t)) => Some((ActV::Set(scope, n, v), t)), None => None }
                } else if s[0] == 2 && s[1] == 2 { Some((ActV::Unset(scope, n), t)) }
                else { None },
            _ => None,
        }
    }
}
pub broadcast proof fn lemma_act(a: ActV, t: Seq<u8>)
    requires act_ok(a)
    ensures p_act(#[trigger] (e_act(a) + t)) == Some((a, t)), e_act(a).len() >= 1,
{
    let s = e_act(a) + t;
    match a {
        ActV::Set(c, n, v) => {
            let u = e_typed(v) + t;
            assert(s.skip(3) =~= e_string(n) + u);
            lemma_string(n, u);
            lemma_typed(v, t);
        }
        ActV::Unset(c, n) => {
            assert(s.skip(3) =~= e_string(n) + t);
            lemma_string(n, t);
        }
    }
}
pub broadcast proof fn lemma_p_act_shrinks(s: Seq<u8>)
    ensures match #[trigger] p_act(s) { Some((v, t)) => t.len() < s.len(), None => true },
{
    if s.len() >= 3 {
        lemma_p_string_shrinks(s.skip(3));
        match p_string(s.skip(3)) { Some((n, t)) => lemma_p_typed_shrinks(t), None => {} }
    }
}
pub open spec fn e_acts(l: Seq<ActV>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { e_act(l[0]) + e_acts(l.skip(1)) }
}
pub open spec fn p_acts(s: Seq<u8>) -> Option<Seq<ActV>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match p_act(s) {
            Some((x, t)) => if t.len() < s.len() { match p_acts(t) { Some(r) => Some(seq![x] + r), None => None } } else { None },
            None => None,
        }
    }
}
pub proof fn lemma_acts(l: Seq<ActV>)
    requires forall|i: int| 0 <= i < l.len() ==> act_ok(#[trigger] l[i])
    ensures p_acts(e_acts(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        lemma_act(l[0], e_acts(l.skip(1)));
        lemma_acts(l.skip(1));
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); }
}

// ---------------------------------------------------------------- HELLO and DISCONNECT
pub open spec fn k_versions() -> Seq<char> { "supported-versions"@ }
pub open spec fn k_version() -> Seq<char> { "version"@ }
pub open spec fn k_max() -> Seq<char> { "max-frame-size"@ }
pub open spec fn k_caps() -> Seq<char> { "capabilities"@ }
pub open spec fn k_health() -> Seq<char> { "healthcheck"@ }
pub open spec fn k_engine() -> Seq<char> { "engine-id"@ }
pub open spec fn k_status() -> Seq<char> { "status-code"@ }
pub open spec fn k_msg() -> Seq<char> { "message"@ }
pub proof fn lemma_keys()
    ensures k_versions().len() == 18, k_version().len() == 7, k_max().len() == 14, k_caps().len() == 12, k_health().len() == 11,
        k_engine().len() == 9, k_status().len() == 11, k_msg().len() == 7, ","@ == comma(),
        text_ok(k_versions()), text_ok(k_version()), text_ok(k_max()), text_ok(k_caps()), text_ok(k_health()), text_ok(k_engine()),
        text_ok(k_status()), text_ok(k_msg()), k_health() != k_status(),
{
    axiom_str_len("supported-versions"); axiom_str_len("version"); axiom_str_len("max-frame-size"); axiom_str_len("capabilities");
    axiom_str_len("healthcheck"); axiom_str_len("engine-id"); axiom_str_len("status-code"); axiom_str_len("message");
    assert("healthcheck"@[0] == 'h' && "status-code"@[0] == 's') by { reveal_strlit("healthcheck"); reveal_strlit("status-code"); }
    reveal_strlit("supported-versions"); reveal_strlit("version"); reveal_strlit("max-frame-size"); reveal_strlit("capabilities");
    reveal_strlit("healthcheck"); reveal_strlit("engine-id"); reveal_strlit("status-code"); reveal_strlit("message"); reveal_strlit(",");
    assert(","@ =~= comma());
}
pub type KVMap = Map<Seq<char>, TV>;
// The last of the pairs with a key counts.
pub open spec fn kvmap(l: Seq<KV>) -> KVMap decreases l.len() {
    if l.len() == 0 { Map::empty() } else { kvmap(l.drop_last()).insert(l.last().0, l.last().1) }
}
pub open spec fn m_str(m: KVMap, k: Seq<char>) -> Option<Seq<char>> {
    if m.dom().contains(k) { match m[k] { TV::String(s) => Some(s), _ => None } } else { None }
}
pub open spec fn m_bool(m: KVMap, k: Seq<char>) -> Option<bool> {
    if m.dom().contains(k) { match m[k] { TV::Boolean(b) => Some(b), _ => None } } else { None }
}
pub open spec fn m_uint(m: KVMap, k: Seq<char>) -> Option<u64> {
    if m.dom().contains(k) {
        match m[k] {
            TV::Int32(n) => Some(n as u64),
            TV::Uint32(n) => Some(n as u64),
            TV::Int64(n) => Some(n as u64),
            TV::Uint64(n) => Some(n),
            _ => None,
        }
    } else { None }
}
pub open spec fn m_versions(m: KVMap) -> Result<Seq<Version>, Error> {
    match m_str(m, k_versions()) {
        None => Err(Error::NoVersion),
        Some(s) => match d_versions(split(s, ',')) { Some(l) => Ok(l), None => Err(Error::Invalid) },
    }
}
pub open spec fn m_version(m: KVMap) -> Result<Version, Error> {
    match m_str(m, k_version()) {
        None => Err(Error::NoVersion),
        Some(s) => match Version::parse_spec(s) { Some(l) => Ok(l), None => Err(Error::BadVersion) },
    }
}
pub open spec fn m_max(m: KVMap) -> Result<u32, Error> {
    match m_uint(m, k_max()) {
        None => Err(Error::NoFrameSize),
        Some(n) => if n <= u32::MAX { Ok(n as u32) } else { Err(Error::BadFrameSize) },
    }
}
pub open spec fn m_caps(m: KVMap) -> Result<Seq<Capability>, Error> {
    match m_str(m, k_caps()) {
        None => Err(Error::NoCapabilities),
        Some(s) => match d_caps(split(s, ',')) { Some(l) => Ok(l), None => Err(Error::Invalid) },
    }
}
pub open spec fn m_status(m: KVMap) -> u32 { match m_uint(m, k_status()) { Some(n) => n as u32, None => 0 } }
pub open spec fn m_msg(m: KVMap) -> Seq<char> { match m_str(m, k_msg()) { Some(s) => s, None => Seq::empty() } }
pub open spec fn p_hhello(s: Seq<u8>) -> Result<HHelloV, Error> {
    match p_kvs(s) {
        None => Err(Error::Invalid),
        Some(l) => {
            let m = kvmap(l);
            match m_versions(m) { Err(e) => Err(e), Ok(versions) =>
            match m_max(m) { Err(e) => Err(e), Ok(max) =>
            match m_caps(m) { Err(e) => Err(e), Ok(caps) =>
                Ok(HHelloV { versions, max, caps, health: m_bool(m, k_health()), engine: m_str(m, k_engine()) }) } } }
        }
    }
}
pub open spec fn p_ahello(s: Seq<u8>) -> Result<AHelloV, Error> {
    match p_kvs(s) {
        None => Err(Error::Invalid),
        Some(l) => {
            let m = kvmap(l);
            match m_version(m) { Err(e) => Err(e), Ok(version) =>
            match m_max(m) { Err(e) => Err(e), Ok(max) =>
            match m_caps(m) { Err(e) => Err(e), Ok(caps) => Ok(AHelloV { version, max, caps }) } } }
        }
    }
}
pub open spec fn p_disc(s: Seq<u8>) -> Result<DiscV, Error> {
    match p_kvs(s) {
        None => Err(Error::Invalid),
        Some(l) => Ok(DiscV { code: m_status(kvmap(l)), msg: m_msg(kvmap(l)) }),
    }
}
pub open spec fn kvs_hhello(h: HHelloV) -> Seq<KV> {
    seq![(k_versions(), TV::String(list_text(h.versions))), (k_max(), TV::Uint32(h.max)), (k_caps(), TV::String(list_text(h.caps)))]
    + (match h.health { Some(b) => seq![(k_health(), TV::Boolean(b))], None => Seq::empty() })
    + (match h.engine { Some(s) => seq![(k_engine(), TV::String(s))], None => Seq::empty() })
}
pub open spec fn kvs_ahello(h: AHelloV) -> Seq<KV> {
    seq![(k_version(), TV::String(list_text(seq![h.version]))), (k_max(), TV::Uint32(h.max)), (k_caps(), TV::String(list_text(h.caps)))]
}
pub open spec fn kvs_disc(d: DiscV) -> Seq<KV> { seq![(k_status(), TV::Uint32(d.code)), (k_msg(), TV::String(d.msg))] }

// ---------------------------------------------------------------- frames
pub open spec fn e_frame(f: FV) -> Seq<u8> {
    match f {
        FV::Unset => seq![0u8] + e_meta(true, false, 0, 0),
        FV::HaproxyHello(h) => seq![1u8] + e_meta(true, false, 0, 0) + e_kvs(kvs_hhello(h)),
        FV::HaproxyDisconnect(d) => seq![2u8] + e_meta(true, false, 0, 0) + e_kvs(kvs_disc(d)),
        FV::HaproxyNotify(n) => seq![3u8] + e_meta(!n.fragmented, false, n.stream_id, n.frame_id) + e_msgs(n.messages),
        FV::AgentHello(h) => seq![101u8] + e_meta(true, false, 0, 0) + e_kvs(kvs_ahello(h)),
        FV::AgentDisconnect(d) => seq![102u8] + e_meta(true, false, 0, 0) + e_kvs(kvs_disc(d)),
        FV::AgentAck(a) => seq![103u8] + e_meta(!a.fragmented, a.aborted, a.stream_id, a.frame_id) + e_acts(a.actions),
    }
}
pub open spec fn p_frame(s: Seq<u8>) -> Result<FV, Error> {
    if s.len() == 0 { Err(Error::Invalid) } else {
        match p_meta(s.skip(1)) {
            None => Err(Error::Invalid),
            Some((m, t)) => {
                let zero = m.stream_id == 0 && m.frame_id == 0;
                if s[0] == 1 && zero { match p_hhello(t) { Ok(h) => Ok(FV::HaproxyHello(h)), Err(e) => Err(e) } }
                else if s[0] == 101 && zero { match p_ahello(t) { Ok(h) => Ok(FV::AgentHello(h)), Err(e) => Err(e) } }
                else if s[0] == 2 && zero { match p_disc(t) { Ok(d) => Ok(FV::HaproxyDisconnect(d)), Err(e) => Err(e) } }
                else if s[0] == 102 && zero { match p_disc(t) { Ok(d) => Ok(FV::AgentDisconnect(d)), Err(e) => Err(e) } }
                else if s[0] == 3 && m.frame_id != 0 {
                    match p_msgs(t) {
                        Some(l) => Ok(FV::HaproxyNotify(NotifyV { fragmented: !m.fin, stream_id: m.stream_id, frame_id: m.frame_id, messages: l })),
                        None => Err(Error::Invalid),
                    }
                }
                else if s[0] == 103 && m.frame_id != 0 {
                    match p_acts(t) {
                        Some(l) => Ok(FV::AgentAck(AckV { fragmented: !m.fin, aborted: m.abort, stream_id: m.stream_id, frame_id: m.frame_id, actions: l })),
                        None => Err(Error::Invalid),
                    }
                }
                else { Err(Error::Invalid) }
            }
        }
    }
}
pub open spec fn kl(k: KVList) -> KVMap { k.0@.map_values(|t: Typed| tv(t)) }
pub proof fn lemma_step_kvs(acc: Seq<(String, Typed)>, s: Seq<u8>)
    ensures
        s.len() == 0 ==> p_kvs(s) == Some(Seq::<KV>::empty()) && args(acc) + Seq::<KV>::empty() == args(acc),
        s.len() > 0 ==> match p_kv(s) {
            None => p_kvs(s) is None,
            Some((x, t)) => t.len() < s.len() && match p_kvs(t) { None => p_kvs(s) is None, Some(r) => p_kvs(s) == Some(seq![x] + r)
                && forall|y: (String, Typed)| arg(y) == x ==> args(acc) + (seq![x] + r) == #[trigger] args(acc.push(y)) + r } },
{
    if s.len() == 0 { assert(args(acc) + Seq::<KV>::empty() =~= args(acc)); } else {
        lemma_p_kv_shrinks(s);
        match p_kv(s) { Some((x, t)) => match p_kvs(t) { Some(r) => {
            assert forall|y: (String, Typed)| arg(y) == x implies args(acc) + (seq![x] + r) == #[trigger] args(acc.push(y)) + r by {
                assert(args(acc) + (seq![x] + r) =~= args(acc.push(y)) + r); } } None => {} }, None => {} }
    }
}
pub proof fn lemma_step_msgs(acc: Seq<Message>, s: Seq<u8>)
    ensures
        s.len() == 0 ==> p_msgs(s) == Some(Seq::<MsgV>::empty()) && mvs(acc) + Seq::<MsgV>::empty() == mvs(acc),
        s.len() > 0 ==> match p_msg(s) {
            None => p_msgs(s) is None,
            Some((x, t)) => t.len() < s.len() && match p_msgs(t) { None => p_msgs(s) is None, Some(r) => p_msgs(s) == Some(seq![x] + r)
                && forall|y: Message| mv(y) == x ==> mvs(acc) + (seq![x] + r) == #[trigger] mvs(acc.push(y)) + r } },
{
    if s.len() == 0 { assert(mvs(acc) + Seq::<MsgV>::empty() =~= mvs(acc)); } else {
        lemma_p_msg_shrinks(s);
        match p_msg(s) { Some((x, t)) => match p_msgs(t) { Some(r) => {
            assert forall|y: Message| mv(y) == x implies mvs(acc) + (seq![x] + r) == #[trigger] mvs(acc.push(y)) + r by {
                assert(mvs(acc) + (seq![x] + r) =~= mvs(acc.push(y)) + r); } } None => {} }, None => {} }
    }
}
pub proof fn lemma_step_acts(acc: Seq<Action>, s: Seq<u8>)
    ensures
        s.len() == 0 ==> p_acts(s) == Some(Seq::<ActV>::empty()) && avs(acc) + Seq::<ActV>::empty() == avs(acc),
        s.len() > 0 ==> match p_act(s) {
            None => p_acts(s) is None,
            Some((x, t)) => t.len() < s.len() && match p_acts(t) { None => p_acts(s) is None, Some(r) => p_acts(s) == Some(seq![x] + r)
                && forall|y: Action| av(y) == x ==> avs(acc) + (seq![x] + r) == #[trigger] avs(acc.push(y)) + r } },
{
    if s.len() == 0 { assert(avs(acc) + Seq::<ActV>::empty() =~= avs(acc)); } else {
        lemma_p_act_shrinks(s);
        match p_act(s) { Some((x, t)) => match p_acts(t) { Some(r) => {
            assert forall|y: Action| av(y) == x implies avs(acc) + (seq![x] + r) == #[trigger] avs(acc.push(y)) + r by {
                assert(avs(acc) + (seq![x] + r) =~= avs(acc.push(y)) + r); } } None => {} }, None => {} }
    }
}
pub proof fn lemma_step_nkvs(acc: Seq<(String, Typed)>, s: Seq<u8>, n: nat)
    ensures
        n == 0 ==> p_nkvs(s, n) == Some((Seq::<KV>::empty(), s)) && args(acc) + Seq::<KV>::empty() == args(acc),
        n > 0 ==> match p_kv(s) {
            None => p_nkvs(s, n) is None,
            Some((x, t)) => match p_nkvs(t, (n - 1) as nat) { None => p_nkvs(s, n) is None, Some((r, t)) => p_nkvs(s, n) == Some((seq![x] + r, t))
                && forall|y: (String, Typed)| arg(y) == x ==> args(acc) + (seq![x] + r) == #[trigger] args(acc.push(y)) + r } },
        s.len() == 0 && n > 0 ==> p_nkvs(s, n) is None,
{
    reveal(p_varint);
    if n == 0 { assert(args(acc) + Seq::<KV>::empty() =~= args(acc)); } else {
        match p_kv(s) { Some((x, t)) => match p_nkvs(t, (n - 1) as nat) { Some((r, t)) => {
            assert forall|y: (String, Typed)| arg(y) == x implies args(acc) + (seq![x] + r) == #[trigger] args(acc.push(y)) + r by {
                assert(args(acc) + (seq![x] + r) =~= args(acc.push(y)) + r); } } None => {} }, None => {} }
    }
}
pub proof fn lemma_step_versions(acc: Seq<Version>, l: Seq<&str>)
    ensures
        l.len() == 0 ==> d_versions(texts(l)) == Some(Seq::<Version>::empty()) && acc + Seq::<Version>::empty() == acc,
        l.len() > 0 ==> texts(l)[0] == l[0]@ && texts(l).skip(1) == texts(l.skip(1)) && match (Version::parse_spec(trim(l[0]@)), d_versions(texts(l.skip(1)))) {
            (Some(v), Some(r)) => d_versions(texts(l)) == Some(seq![v] + r) && acc + (seq![v] + r) == acc.push(v) + r,
            _ => d_versions(texts(l)) is None,
        },
{
    if l.len() == 0 { assert(acc + Seq::<Version>::empty() =~= acc); } else {
        assert(texts(l).skip(1) =~= texts(l.skip(1)));
        match (Version::parse_spec(trim(l[0]@)), d_versions(texts(l.skip(1)))) { (Some(v), Some(r)) => { assert(acc + (seq![v] + r) =~= acc.push(v) + r); } _ => {} }
    }
}
pub proof fn lemma_step_caps(acc: Seq<Capability>, l: Seq<&str>)
    ensures
        l.len() == 0 ==> d_caps(texts(l)) == Some(Seq::<Capability>::empty()) && acc + Seq::<Capability>::empty() == acc,
        l.len() > 0 ==> texts(l)[0] == l[0]@ && texts(l).skip(1) == texts(l.skip(1)),
        l.len() > 0 && trim(l[0]@).len() == 0 ==> d_caps(texts(l)) == d_caps(texts(l.skip(1))),
        l.len() > 0 && trim(l[0]@).len() > 0 ==> match (Capability::parse_spec(trim(l[0]@)), d_caps(texts(l.skip(1)))) {
            (Some(v), Some(r)) => d_caps(texts(l)) == Some(seq![v] + r) && acc + (seq![v] + r) == acc.push(v) + r,
            _ => d_caps(texts(l)) is None,
        },
{
    if l.len() == 0 { assert(acc + Seq::<Capability>::empty() =~= acc); } else {
        assert(texts(l).skip(1) =~= texts(l.skip(1)));
        match (Capability::parse_spec(trim(l[0]@)), d_caps(texts(l.skip(1)))) { (Some(v), Some(r)) => { assert(acc + (seq![v] + r) =~= acc.push(v) + r); } _ => {} }
    }
}
pub proof fn lemma_kl_remove(k: KVList, key: Seq<char>)
    ensures forall|n: KVList| (#[trigger] kl(n)) == kl(k).remove(key) || n.0@ != k.0@.remove(key),
        kl(k).dom().contains(key) == k.0@.dom().contains(key), k.0@.dom().contains(key) ==> kl(k)[key] == tv(k.0@[key]),
{
    assert forall|n: KVList| n.0@ == k.0@.remove(key) implies (#[trigger] kl(n)) == kl(k).remove(key) by { assert(kl(n) =~= kl(k).remove(key)); }
}
pub proof fn lemma_of_pairs(s: Seq<(String, Typed)>)
    ensures of_pairs(s).map_values(|t: Typed| tv(t)) == kvmap(args(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_of_pairs(s.drop_last());
        assert(args(s).drop_last() =~= args(s.drop_last()));
        assert(of_pairs(s).map_values(|t: Typed| tv(t)) =~= kvmap(args(s)));
    } else { assert(of_pairs(s).map_values(|t: Typed| tv(t)) =~= kvmap(args(s))); }
}
pub proof fn lemma_names_refs<T: Display>(s: Seq<T>) ensures names(refs(s)) == names(s)
{ assert(names(refs(s)) =~= names(s)); }
// What can be written: the number of arguments fits in a byte.
pub open spec fn put_ok(f: FV) -> bool {
    match f { FV::HaproxyNotify(n) => forall|i: int| 0 <= i < n.messages.len() ==> (#[trigger] n.messages[i]).args.len() <= 255, _ => true }
}
pub proof fn lemma_put_ok(x: haproxy::Notify)
    requires put_ok(FV::HaproxyNotify(nv(x)))
    ensures forall|i: int| 0 <= i < x.messages@.len() ==> (#[trigger] x.messages@[i]).args@.len() <= 255
{
    let n = nv(x);
    let f = FV::HaproxyNotify(n);
    assert(put_ok(f));
    assert(put_ok(f) == (match f { FV::HaproxyNotify(m) => forall|j: int| 0 <= j < m.messages.len() ==> (#[trigger] m.messages[j]).args.len() <= 255, _ => true }));
    assert(forall|j: int| 0 <= j < n.messages.len() ==> (#[trigger] n.messages[j]).args.len() <= 255);
    assert forall|i: int| 0 <= i < x.messages@.len() implies (#[trigger] x.messages@[i]).args@.len() <= 255 by {
        assert(n.messages.len() == x.messages@.len());
        assert(n.messages[i] == mv(x.messages@[i]));
        assert(0 <= i < n.messages.len());
        assert(n.messages[i].args.len() <= 255);
    }
}
pub open spec fn k_of<'a, V: Into<Typed>>(k: KeyValue<'a, V>) -> KV { kv_of::<KeyValue<'a, V>, V>(k) }
pub open spec fn k_room<'a, V: Into<Typed>>(k: KeyValue<'a, V>) -> bool { kv_room::<KeyValue<'a, V>, V>(k) }
pub proof fn lemma_e_kvs_push(l: Seq<KV>, x: KV) ensures e_kvs(l.push(x)) == e_kvs(l) + e_kv(x) decreases l.len()
{
    if l.len() > 0 {
        lemma_e_kvs_push(l.skip(1), x);
        assert(l.push(x).skip(1) =~= l.skip(1).push(x));
        assert(e_kvs(l.push(x)) =~= e_kvs(l) + e_kv(x));
    } else {
        assert(l.push(x).skip(1) =~= Seq::<KV>::empty());
        assert(e_kvs(l.push(x).skip(1)) =~= Seq::<u8>::empty());
        assert(l.push(x)[0] == x);
        assert(e_kvs(l.push(x)) =~= e_kvs(l) + e_kv(x));
    }
}
pub open spec fn intos<T: Into<U>, U>(s: Seq<T>) -> Seq<U> { s.map_values(|x: T| x.into_spec()) }
pub proof fn lemma_intos<T: Into<U>, U>(a: Seq<U>, s: Seq<T>)
    ensures s.len() > 0 ==> a + intos::<T, U>(s) == a.push(s[0].into_spec()) + intos::<T, U>(s.skip(1)), s.len() == 0 ==> a + intos::<T, U>(s) == a
{
    if s.len() > 0 { assert(a + intos::<T, U>(s) =~= a.push(s[0].into_spec()) + intos::<T, U>(s.skip(1))); }
    else { assert(a + intos::<T, U>(s) =~= a); }
}
pub open spec fn into2<K: Into<String>, V: Into<Typed>>(x: (K, V)) -> (String, Typed) { (x.0.into_spec(), x.1.into_spec()) }
pub open spec fn intos2<K: Into<String>, V: Into<Typed>>(s: Seq<(K, V)>) -> Seq<(String, Typed)> { s.map_values(|x: (K, V)| into2(x)) }
pub proof fn lemma_intos2<K: Into<String>, V: Into<Typed>>(a: Seq<(String, Typed)>, s: Seq<(K, V)>)
    ensures s.len() > 0 ==> a + intos2(s) == a.push(into2(s[0])) + intos2(s.skip(1)), s.len() == 0 ==> a + intos2(s) == a
{
    if s.len() > 0 { assert(a + intos2(s) =~= a.push(into2(s[0])) + intos2(s.skip(1))); }
    else { assert(a + intos2(s) =~= a); }
}
pub proof fn lemma_put_kvs(o: Seq<u8>, l: Seq<KV>, x: KV) ensures o + e_kvs(l.push(x)) == o + e_kvs(l) + e_kv(x)
{ lemma_e_kvs_push(l, x); assert(o + e_kvs(l.push(x)) =~= o + e_kvs(l) + e_kv(x)); }
pub proof fn lemma_put_disc(o: Seq<u8>, d: DiscV)
    ensures o + e_kvs(kvs_disc(d)) == o + e_kv(kvs_disc(d)[0]) + e_kv(kvs_disc(d)[1])
{
    let l = kvs_disc(d);
    let e = Seq::<KV>::empty();
    lemma_put_kvs(o, e, l[0]); lemma_put_kvs(o, e.push(l[0]), l[1]);
    assert(o + e_kvs(e) =~= o);
    assert(l =~= e.push(l[0]).push(l[1]));
}
pub proof fn lemma_put_ahello(o: Seq<u8>, h: AHelloV)
    ensures o + e_kvs(kvs_ahello(h)) == o + e_kv(kvs_ahello(h)[0]) + e_kv(kvs_ahello(h)[1]) + e_kv(kvs_ahello(h)[2])
{
    let l = kvs_ahello(h);
    let e = Seq::<KV>::empty();
    lemma_put_kvs(o, e, l[0]); lemma_put_kvs(o, e.push(l[0]), l[1]); lemma_put_kvs(o, e.push(l[0]).push(l[1]), l[2]);
    assert(o + e_kvs(e) =~= o);
    assert(l =~= e.push(l[0]).push(l[1]).push(l[2]));
}
pub open spec fn kv_health(b: bool) -> KV { (k_health(), TV::Boolean(b)) }
pub open spec fn kv_engine(s: Seq<char>) -> KV { (k_engine(), TV::String(s)) }
pub proof fn lemma_put_hhello(o: Seq<u8>, h: HHelloV)
    ensures ({
        let l = kvs_hhello(h);
        let o3 = o + e_kv(l[0]) + e_kv(l[1]) + e_kv(l[2]);
        let o4 = match h.health { Some(b) => o3 + e_kv(kv_health(b)), None => o3 };
        o + e_kvs(l) == (match h.engine { Some(s) => o4 + e_kv(kv_engine(s)), None => o4 })
    }), kvs_hhello(h)[0] == (k_versions(), TV::String(list_text(h.versions))), kvs_hhello(h)[1] == (k_max(), TV::Uint32(h.max)), kvs_hhello(h)[2] == (k_caps(), TV::String(list_text(h.caps))),
{
    let l = kvs_hhello(h);
    let e = Seq::<KV>::empty();
    lemma_put_kvs(o, e, l[0]); lemma_put_kvs(o, e.push(l[0]), l[1]); lemma_put_kvs(o, e.push(l[0]).push(l[1]), l[2]);
    assert(o + e_kvs(e) =~= o);
    let l3 = e.push(l[0]).push(l[1]).push(l[2]);
    match (h.health, h.engine) {
        (None, None) => { assert(l =~= l3); }
        (Some(b), None) => { lemma_put_kvs(o, l3, kv_health(b)); assert(l =~= l3.push(kv_health(b))); }
        (None, Some(s)) => { lemma_put_kvs(o, l3, kv_engine(s)); assert(l =~= l3.push(kv_engine(s))); }
        (Some(b), Some(s)) => { lemma_put_kvs(o, l3, kv_health(b)); lemma_put_kvs(o, l3.push(kv_health(b)), kv_engine(s)); assert(l =~= l3.push(kv_health(b)).push(kv_engine(s))); }
    }
}
pub proof fn lemma_put_msg(o: Seq<u8>, s: Seq<Message>)
    ensures s.len() == 0 ==> o + e_msgs(mvs(s)) == o,
        s.len() > 0 ==> ({
            let m = s[0];
            let o3 = (o + e_string(m.name@)).push(m.args@.len() as u8) + e_kvlist::<(String, Typed), Typed>(m.args@);
            o + e_msgs(mvs(s)) == o3 + e_msgs(mvs(s.skip(1))) })
{
    if s.len() == 0 { assert(o + e_msgs(mvs(s)) =~= o); } else {
        let m = s[0];
        lemma_kvlist_args(m.args@);
        assert(mvs(s).skip(1) =~= mvs(s.skip(1)));
        assert(mvs(s)[0] == mv(m));
        let o3 = (o + e_string(m.name@)).push(m.args@.len() as u8) + e_kvlist::<(String, Typed), Typed>(m.args@);
        assert(o + e_msgs(mvs(s)) =~= o3 + e_msgs(mvs(s.skip(1))));
    }
}
pub proof fn lemma_put_act(o: Seq<u8>, s: Seq<Action>)
    ensures s.len() == 0 ==> o + e_acts(avs(s)) == o,
        s.len() > 0 ==> o + e_acts(avs(s)) == o + e_act(av(s[0])) + e_acts(avs(s.skip(1)))
{
    if s.len() == 0 { assert(o + e_acts(avs(s)) =~= o); } else {
        assert(avs(s).skip(1) =~= avs(s.skip(1)));
        assert(o + e_acts(avs(s)) =~= o + e_act(av(s[0])) + e_acts(avs(s.skip(1))));
    }
}
pub open spec fn text_ok(s: Seq<char>) -> bool { encode_utf8(s).len() <= isize::MAX }
pub open spec fn frame_ok(f: FV) -> bool {
    match f {
        FV::Unset => false,
        FV::HaproxyHello(h) => h.versions.len() > 0 && text_ok(list_text(h.versions)) && text_ok(list_text(h.caps))
            && (h.engine is Some ==> text_ok(h.engine->Some_0)),
        FV::AgentHello(h) => text_ok(list_text(seq![h.version])) && text_ok(list_text(h.caps)),
        FV::HaproxyDisconnect(d) => text_ok(d.msg),
        FV::AgentDisconnect(d) => text_ok(d.msg),
        FV::HaproxyNotify(n) => n.frame_id != 0 && forall|i: int| 0 <= i < n.messages.len() ==> msg_ok(#[trigger] n.messages[i]),
        FV::AgentAck(a) => a.frame_id != 0 && forall|i: int| 0 <= i < a.actions.len() ==> act_ok(#[trigger] a.actions[i]),
    }
}
// C09: a frame decodes to itself.
pub proof fn lemma_frame_hhello(h: HHelloV)
    requires frame_ok(FV::HaproxyHello(h))
    ensures p_frame(e_frame(FV::HaproxyHello(h))) == Ok::<FV, Error>(FV::HaproxyHello(h))
{
    lemma_keys();
    let s = e_frame(FV::HaproxyHello(h));
    let l = kvs_hhello(h);
    let p = e_kvs(l);
    assert(s.skip(1) =~= e_meta(true, false, 0, 0) + p);
    lemma_meta(true, false, 0, 0, p);
    assert forall|i: int| 0 <= i < l.len() implies kv_ok(#[trigger] l[i]) by { }
    lemma_kvs(l);
    lemma_versions_text(h.versions);
    lemma_caps_text(h.caps);
    lemma_kvmap_hhello(h);
}
pub proof fn lemma_frame_ahello(h: AHelloV)
    requires frame_ok(FV::AgentHello(h))
    ensures p_frame(e_frame(FV::AgentHello(h))) == Ok::<FV, Error>(FV::AgentHello(h))
{
    lemma_keys();
    let s = e_frame(FV::AgentHello(h));
    let l = kvs_ahello(h);
    let p = e_kvs(l);
    assert(s.skip(1) =~= e_meta(true, false, 0, 0) + p);
    lemma_meta(true, false, 0, 0, p);
    assert forall|i: int| 0 <= i < l.len() implies kv_ok(#[trigger] l[i]) by { }
    lemma_kvs(l);
    lemma_version_name(h.version);
    assert(names(seq![h.version])[0] == h.version.disp());
    assert(list_text(seq![h.version]) =~= h.version.disp());
    lemma_caps_text(h.caps);
    lemma_kvmap_ahello(h);
}
pub proof fn lemma_frame_disc(d: DiscV)
    requires text_ok(d.msg)
    ensures p_disc(e_kvs(kvs_disc(d))) == Ok::<DiscV, Error>(d)
{
    lemma_keys();
    let l = kvs_disc(d);
    assert forall|i: int| 0 <= i < l.len() implies kv_ok(#[trigger] l[i]) by { }
    lemma_kvs(l);
    lemma_kvmap_disc(d);
}
pub proof fn lemma_frame(f: FV)
    requires frame_ok(f)
    ensures p_frame(e_frame(f)) == Ok::<FV, Error>(f)
{
    let s = e_frame(f);
    match f {
        FV::Unset => {}
        FV::HaproxyHello(h) => lemma_frame_hhello(h),
        FV::AgentHello(h) => lemma_frame_ahello(h),
        FV::HaproxyDisconnect(d) => {
            let p = e_kvs(kvs_disc(d));
            assert(s.skip(1) =~= e_meta(true, false, 0, 0) + p);
            lemma_meta(true, false, 0, 0, p);
            lemma_frame_disc(d);
        }
        FV::AgentDisconnect(d) => {
            let p = e_kvs(kvs_disc(d));
            assert(s.skip(1) =~= e_meta(true, false, 0, 0) + p);
            lemma_meta(true, false, 0, 0, p);
            lemma_frame_disc(d);
        }
        FV::HaproxyNotify(n) => {
            let p = e_msgs(n.messages);
            assert(s.skip(1) =~= e_meta(!n.fragmented, false, n.stream_id, n.frame_id) + p);
            lemma_meta(!n.fragmented, false, n.stream_id, n.frame_id, p);
            lemma_msgs(n.messages);
        }
        FV::AgentAck(a) => {
            let p = e_acts(a.actions);
            assert(s.skip(1) =~= e_meta(!a.fragmented, a.aborted, a.stream_id, a.frame_id) + p);
            lemma_meta(!a.fragmented, a.aborted, a.stream_id, a.frame_id, p);
            lemma_acts(a.actions);
        }
    }
}
pub proof fn lemma_kvmap_push(l: Seq<KV>, x: KV)
    ensures kvmap(l.push(x)) == kvmap(l).insert(x.0, x.1)
{ assert(l.push(x).drop_last() =~= l); }
pub proof fn lemma_kvmap_hhello(h: HHelloV)
    ensures ({ let m = kvmap(kvs_hhello(h));
        m_str(m, k_versions()) == Some(list_text(h.versions)) && m_uint(m, k_max()) == Some(h.max as u64) && m_str(m, k_caps()) == Some(list_text(h.caps))
        && m_bool(m, k_health()) == h.health && m_str(m, k_engine()) == h.engine })
{
    lemma_keys();
    let a = (k_versions(), TV::String(list_text(h.versions)));
    let b = (k_max(), TV::Uint32(h.max));
    let c = (k_caps(), TV::String(list_text(h.caps)));
    let e = Seq::<KV>::empty();
    assert(kvmap(e) == Map::<Seq<char>, TV>::empty());
    lemma_kvmap_push(e, a); lemma_kvmap_push(e.push(a), b); lemma_kvmap_push(e.push(a).push(b), c);
    let l3 = e.push(a).push(b).push(c);
    match (h.health, h.engine) {
        (None, None) => { assert(kvs_hhello(h) =~= l3); }
        (Some(x), None) => { assert(kvs_hhello(h) =~= l3.push((k_health(), TV::Boolean(x)))); lemma_kvmap_push(l3, (k_health(), TV::Boolean(x))); }
        (None, Some(y)) => { assert(kvs_hhello(h) =~= l3.push((k_engine(), TV::String(y)))); lemma_kvmap_push(l3, (k_engine(), TV::String(y))); }
        (Some(x), Some(y)) => {
            let l4 = l3.push((k_health(), TV::Boolean(x)));
            assert(kvs_hhello(h) =~= l4.push((k_engine(), TV::String(y))));
            lemma_kvmap_push(l3, (k_health(), TV::Boolean(x)));
            lemma_kvmap_push(l4, (k_engine(), TV::String(y)));
        }
    }
}
pub proof fn lemma_kvmap_ahello(h: AHelloV)
    ensures ({ let m = kvmap(kvs_ahello(h));
        m_str(m, k_version()) == Some(list_text(seq![h.version])) && m_uint(m, k_max()) == Some(h.max as u64) && m_str(m, k_caps()) == Some(list_text(h.caps)) })
{
    lemma_keys();
    let a = (k_version(), TV::String(list_text(seq![h.version])));
    let b = (k_max(), TV::Uint32(h.max));
    let c = (k_caps(), TV::String(list_text(h.caps)));
    let e = Seq::<KV>::empty();
    assert(kvmap(e) == Map::<Seq<char>, TV>::empty());
    lemma_kvmap_push(e, a); lemma_kvmap_push(e.push(a), b); lemma_kvmap_push(e.push(a).push(b), c);
    assert(kvs_ahello(h) =~= e.push(a).push(b).push(c));
}
pub proof fn lemma_kvmap_disc(d: DiscV)
    ensures ({ let m = kvmap(kvs_disc(d)); m_status(m) == d.code && m_msg(m) == d.msg })
{
    lemma_keys();
    let a = (k_status(), TV::Uint32(d.code));
    let b = (k_msg(), TV::String(d.msg));
    let e = Seq::<KV>::empty();
    assert(kvmap(e) == Map::<Seq<char>, TV>::empty());
    lemma_kvmap_push(e, a); lemma_kvmap_push(e.push(a), b);
    assert(kvs_disc(d) =~= e.push(a).push(b));
    lemma_casts(0, 0, d.code);
}
}
