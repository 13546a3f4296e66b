// What the agent uses of the standard library, tokio, tower and http.
pub mod shim_agent {
#[allow(unused_imports)]
use vstd::prelude::*;
use crate::shim::*;
use crate::spoa::error::Error as AgentError;
use crate::spop::error::Error as Status;
pub use std::sync::Arc;

// ---------------------------------------------------------------- conversions
// A conversion of which only a relation is said.
pub trait IntoR<U>: Sized {
    spec fn into_rel(self, r: U) -> bool;
    fn into_r(self) -> (r: U) ensures self.into_rel(r);
}
impl<T: Into<U>, U> IntoR<U> for T {
    open spec fn into_rel(self, r: U) -> bool { r == self.into_spec() }
    fn into_r(self) -> (r: U) { self.into() }
}

impl IntoR<crate::spop::frame::disconnect::Disconnect> for AgentError {
    open spec fn into_rel(self, r: crate::spop::frame::disconnect::Disconnect) -> bool { r.status_code == crate::spec_io::code_of(crate::spec_agent::told(self)) }
    fn into_r(self) -> (r: crate::spop::frame::disconnect::Disconnect) { crate::spop::frame::disconnect::Disconnect::from__impl(self) }
}

// ---------------------------------------------------------------- errors
pub struct Utf8Error;
pub struct io_Error;
pub struct http_Error;
pub struct MaxSizeReached;
pub struct InvalidHeaderName;
pub struct InvalidHeaderValue;
pub struct SendError<T>(pub T);
impl From<MaxSizeReached> for http_Error {
    open spec fn from_spec(v: MaxSizeReached) -> Self { http_Error }
    fn from(v: MaxSizeReached) -> (r: Self) { http_Error }
}
// An error, as one that is boxed sees it.
pub trait StdError: Sized {
    spec fn as_error(self) -> Option<AgentError>;
    spec fn as_status(self) -> Option<Status>;
}
impl StdError for AgentError {
    open spec fn as_error(self) -> Option<AgentError> { Some(self) }
    open spec fn as_status(self) -> Option<Status> { None }
}
impl StdError for Status {
    open spec fn as_error(self) -> Option<AgentError> { None }
    open spec fn as_status(self) -> Option<Status> { Some(self) }
}
impl StdError for Elapsed {
    open spec fn as_error(self) -> Option<AgentError> { None }
    open spec fn as_status(self) -> Option<Status> { None }
}
impl StdError for IoError {
    open spec fn as_error(self) -> Option<AgentError> { None }
    open spec fn as_status(self) -> Option<Status> { None }
}
#[verifier::external_body]
pub struct DynError { d: Vec<u8> }
pub uninterp spec fn down_error(d: DynError) -> Option<AgentError>;
pub uninterp spec fn down_status(d: DynError) -> Option<Status>;
// How deep errors are nested in a boxed one. Boxes cannot be cyclic.
pub uninterp spec fn depth(d: DynError) -> nat;
pub open spec fn edepth(e: AgentError) -> nat {
    match e { AgentError::Context { source, .. } => depth(*source) + 1, _ => 0 }
}
#[verifier::external_body]
pub broadcast axiom fn axiom_depth(d: DynError)
    ensures (#[trigger] down_error(d)) is Some ==> edepth(down_error(d)->Some_0) <= depth(d),
        // a value has one type
        down_error(d) is Some ==> down_status(d) is None;
pub trait Down: Sized {
    spec fn down_spec(d: DynError) -> Option<Self>;
}
impl Down for AgentError { open spec fn down_spec(d: DynError) -> Option<Self> { down_error(d) } }
impl Down for Status { open spec fn down_spec(d: DynError) -> Option<Self> { down_status(d) } }
impl DynError {
    #[verifier::external_body]
    pub fn downcast_ref<T: Down>(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => T::down_spec(*self) == Some(*x), None => T::down_spec(*self) is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DynReason { d: String }
impl Display for DynReason {
    uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T: Display> Display for Box<T> {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn to_string(&self) -> (r: String) { (**self).to_string() }
}
pub trait Boxed<T>: Sized {
    spec fn boxed_ok(v: T, d: Self) -> bool;
    fn boxed_(v: T) -> (r: Box<Self>) ensures Self::boxed_ok(v, *r);
}
impl<T: StdError> Boxed<T> for DynError {
    open spec fn boxed_ok(v: T, d: Self) -> bool { down_error(d) == v.as_error() && down_status(d) == v.as_status() }
    #[verifier::external_body]
    fn boxed_(v: T) -> (r: Box<Self>) { unimplemented!() }
}
impl<T: crate::spoa::error::Reason> Boxed<T> for DynReason {
    open spec fn boxed_ok(v: T, d: Self) -> bool { d.disp() == v.disp() }
    #[verifier::external_body]
    fn boxed_(v: T) -> (r: Box<Self>) { unimplemented!() }
}
pub fn boxed<T, D: Boxed<T>>(v: T) -> (r: Box<D>) ensures D::boxed_ok(v, *r) { D::boxed_(v) }

// ---------------------------------------------------------------- headers
#[verifier::external_body]
pub struct HeaderName { d: Vec<u8> }
#[verifier::external_body]
pub struct HeaderValue { d: Vec<u8> }
// The name or value that these bytes are, if HTTP allows them.
pub uninterp spec fn name_of(s: Seq<u8>) -> Option<HeaderName>;
pub uninterp spec fn value_of(s: Seq<u8>) -> Option<HeaderValue>;
impl HeaderName {
    #[verifier::external_body]
    pub fn from_bytes<S: AsSlice<Item = u8> + ?Sized>(s: &S) -> (r: Result<HeaderName, InvalidHeaderName>)
        ensures match name_of(s.slice_spec()) { Some(n) => r == Ok::<HeaderName, InvalidHeaderName>(n), None => r is Err }
    { unimplemented!() }
}
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_bytes<S: AsSlice<Item = u8> + ?Sized>(s: &S) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures match value_of(s.slice_spec()) { Some(n) => r == Ok::<HeaderValue, InvalidHeaderValue>(n), None => r is Err }
    { unimplemented!() }
}
// Every name with its values in order.
#[verifier::external_body]
pub struct HeaderMap { d: Vec<u8> }
impl View for HeaderMap { type V = Map<HeaderName, Seq<HeaderValue>>; uninterp spec fn view(&self) -> Map<HeaderName, Seq<HeaderValue>>; }
pub open spec fn hm_append(m: Map<HeaderName, Seq<HeaderValue>>, k: HeaderName, v: HeaderValue) -> Map<HeaderName, Seq<HeaderValue>> {
    m.insert(k, (if m.dom().contains(k) { m[k] } else { Seq::empty() }).push(v))
}
// It holds no more: this does not happen with less than so many names.
pub uninterp spec fn hm_full(m: HeaderMap) -> bool;
pub open spec fn full(m: Map<HeaderName, Seq<HeaderValue>>) -> bool { m.dom().len() > 6553 }
#[verifier::external_body]
pub broadcast axiom fn axiom_full(m: HeaderMap) ensures #[trigger] hm_full(m) ==> full(m@);
impl HeaderMap {
    #[verifier::external_body]
    pub fn new() -> (r: HeaderMap) ensures r@ == Map::<HeaderName, Seq<HeaderValue>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_append(&mut self, k: HeaderName, v: HeaderValue) -> (r: Result<bool, MaxSizeReached>)
        ensures hm_full(*old(self)) ==> r is Err,
            !hm_full(*old(self)) ==> r == Ok::<bool, MaxSizeReached>(old(self)@.dom().contains(k)) && final(self)@ == hm_append(old(self)@, k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, k: HeaderName, v: HeaderValue) -> (r: bool)
        requires !hm_full(*old(self))
        ensures r == old(self)@.dom().contains(k), final(self)@ == hm_append(old(self)@, k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: HeaderName, v: HeaderValue) -> (r: Option<HeaderValue>)
        requires !hm_full(*old(self))
        ensures final(self)@ == old(self)@.insert(k, seq![v]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- order and sets
pub trait Order: Sized {
    spec fn le(self, o: Self) -> bool;
}
impl Order for u8 { open spec fn le(self, o: u8) -> bool { self <= o } }
impl Order for u32 { open spec fn le(self, o: u32) -> bool { self <= o } }
impl Order for u64 { open spec fn le(self, o: u64) -> bool { self <= o } }
impl Order for usize { open spec fn le(self, o: usize) -> bool { self <= o } }
pub open spec fn sorted<T: Order>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).le(#[trigger] s[j]) }
#[verifier::external_body]
pub fn sort<T: Order>(v: &mut Vec<T>)
    ensures sorted(final(v)@), final(v)@.len() == old(v)@.len(), forall|x: T| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
{ unimplemented!() }
#[verifier::external_body]
pub fn min<T: Order>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn max<T: Order>(a: T, b: T) -> (r: T) ensures r == (if b.le(a) { a } else { b }) { unimplemented!() }
// A set. The order in which its elements come is not known.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { d: Vec<T> }
pub type BTreeSet<T> = HashSet<T>;
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub uninterp spec fn mk_set<T>(s: Set<T>) -> HashSet<T>;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_set<T>(s: Set<T>) ensures (#[trigger] mk_set(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_set_ext<T>(s: HashSet<T>) ensures mk_set(#[trigger] s@) == s;
// The elements in some order, each once.
pub uninterp spec fn set_seq<T>(s: HashSet<T>) -> Seq<T>;
#[verifier::external_body]
pub broadcast axiom fn axiom_set_seq<T>(s: HashSet<T>)
    ensures (#[trigger] set_seq(s)).no_duplicates(), set_seq(s).to_set() == s@;
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { s.map_values(|x: &'a T| *x) }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, v: &T) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()), r == (set_seq(*self).len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == set_seq(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T>) -> (r: IntoIter<&'a T>)
        ensures derefs(r@).to_set() == self@.intersect(o@), derefs(r@).no_duplicates(),
    { unimplemented!() }
}
impl<T> Clone for HashSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Default for HashSet<T> {
    open spec fn default_spec() -> Self { mk_set(Set::empty()) }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { set_seq(self) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<T>) { unimplemented!() }
}
impl<T> FromIterator<T> for HashSet<T> {
    open spec fn from_iter_spec(s: Seq<T>) -> Self { mk_set(s.to_set()) }
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Self) { unimplemented!() }
}
impl<T> Extend<T> for HashSet<T> {
    open spec fn extended(self, s: Seq<T>, after: Self) -> bool { after@ == self@.union(s.to_set()) }
    #[verifier::external_body]
    fn extend_<I: IntoIterator<Item = T>>(&mut self, iter: I) { unimplemented!() }
}
impl<T> Iterable for HashSet<T> {
    type Item = T;
    open spec fn iter_seq(&self) -> Seq<T> { set_seq(*self) }
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
impl<T> Default for Option<T> {
    open spec fn default_spec() -> Self { None }
    fn default() -> (r: Self) { None }
}

// ---------------------------------------------------------------- channels
// A channel for one value. What is sent is said of the sender; whether
// somebody still waits for it then, too.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { d: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { d: Vec<T> }
impl<T> Sender<T> {
    pub uninterp spec fn sent(&self) -> Option<T>;
    pub uninterp spec fn waits(&self) -> bool;
    pub uninterp spec fn of(&self, r: Receiver<T>) -> bool;
    #[verifier::external_body]
    pub fn send(self, v: T) -> (r: Result<(), T>)
        ensures self.sent() == Some(v), r == (if self.waits() { Ok::<(), T>(()) } else { Err(v) })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.of(r.1) { unimplemented!() }

// A channel for many values. What was sent over each is in a ghost state, one
// log per channel; a channel whose receiver is gone gets nothing more.
pub struct World {
    pub msgs: Ghost<Map<int, Seq<crate::spop::frame::msg::Message>>>,
    pub procs: Ghost<Map<int, Seq<(crate::spoa::runtime::acker::Acker, UnboundedReceiver<crate::spop::frame::msg::Message>)>>>,
    // the receivers that are gone
    pub gone: Ghost<Set<int>>,
    // the channels there are
    pub used: Ghost<Set<int>>,
    // what an agent did
    pub agent: Ghost<AgentLog>,
}
pub trait Chan: Sized {
    spec fn logs(w: World) -> Map<int, Seq<Self>>;
    // nothing but the logs of this kind differs
    spec fn others(a: World, b: World) -> bool;
}
impl Chan for crate::spop::frame::msg::Message {
    open spec fn logs(w: World) -> Map<int, Seq<Self>> { w.msgs@ }
    open spec fn others(a: World, b: World) -> bool { a.procs == b.procs }
}
impl Chan for (crate::spoa::runtime::acker::Acker, UnboundedReceiver<crate::spop::frame::msg::Message>) {
    open spec fn logs(w: World) -> Map<int, Seq<Self>> { w.procs@ }
    open spec fn others(a: World, b: World) -> bool { a.msgs == b.msgs }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnboundedSender<T> { d: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnboundedReceiver<T> { d: Vec<T> }
impl<T> UnboundedSender<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, v: T, w: &mut World) -> (r: Result<(), SendError<T>>)
        where T: Chan
        ensures
            T::others(*old(w), *final(w)), final(w).used == old(w).used,
            old(w).gone@.subset_of(final(w).gone@),
            r is Ok ==> T::logs(*final(w)) == T::logs(*old(w)).insert(self.id(), T::logs(*old(w))[self.id()].push(v)),
            r is Err ==> final(w).gone@.contains(self.id()) && T::logs(*final(w)) == T::logs(*old(w)),
    { unimplemented!() }
}
impl<T> Clone for UnboundedSender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub fn unbounded_channel<T: Chan>(w: &mut World) -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
    ensures
        r.0.id() == r.1.id(), !old(w).used@.contains(r.0.id()), final(w).used@ == old(w).used@.insert(r.0.id()),
        T::others(*old(w), *final(w)), old(w).gone@.subset_of(final(w).gone@),
        T::logs(*final(w)) == T::logs(*old(w)).insert(r.0.id(), Seq::<T>::empty()),
{ unimplemented!() }

// ---------------------------------------------------------------- polling
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context { d: u8 }
impl<T> UnboundedReceiver<T> {
    pub uninterp spec fn id(&self) -> int;
    // What still comes before the senders are gone.
    pub uninterp spec fn rest(&self) -> Seq<T>;
    // The task of cx is woken when there is more, or when the senders are gone.
    pub uninterp spec fn wakes(&self, cx: Context) -> bool;
    #[verifier::external_body]
    pub fn poll_recv(&mut self, cx: &mut Context) -> (r: Poll<Option<T>>)
        ensures
            final(self).id() == old(self).id(),
            match r {
                Poll::Ready(Some(v)) => old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Poll::Pending => final(self).rest() == old(self).rest() && final(self).wakes(*final(cx)),
            }
    { unimplemented!() }
    // the same, without any promise to wake
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<T, TryRecvError>)
        ensures
            final(self).id() == old(self).id(),
            match r {
                Ok(v) => old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                Err(TryRecvError::Disconnected) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Err(TryRecvError::Empty) => final(self).rest() == old(self).rest(),
            }
    { unimplemented!() }
}
pub enum TryRecvError { Empty, Disconnected }
pub trait Stream {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    spec fn wakes(&self, cx: Context) -> bool;
    fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Self::Item>>)
        ensures match r {
            Poll::Ready(Some(v)) => old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Poll::Pending => final(self).rest() == old(self).rest() && final(self).wakes(*final(cx)),
        };
}

// ---------------------------------------------------------------- time, locks, services
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub open spec fn from_secs_spec(n: u64) -> Duration { Duration { ns: (n * 1000000000) as u128 } }
    pub open spec fn from_millis_spec(n: u64) -> Duration { Duration { ns: (n * 1000000) as u128 } }
    pub const fn from_secs(n: u64) -> (r: Duration) ensures r == Self::from_secs_spec(n) { Duration { ns: n as u128 * 1000000000 } }
    pub const fn from_millis(n: u64) -> (r: Duration) ensures r == Self::from_millis_spec(n) { Duration { ns: n as u128 * 1000000 } }
    pub const fn from_nanos(n: u64) -> (r: Duration) ensures r == (Duration { ns: n as u128 }) { Duration { ns: n as u128 } }
    pub const fn is_zero(&self) -> (r: bool) ensures r == (self.ns == 0) { self.ns == 0 }
    pub const fn as_nanos(&self) -> (r: u128) ensures r == self.ns { self.ns }
    pub const fn as_micros(&self) -> (r: u128) ensures r == self.ns / 1000 { self.ns / 1000 }
    pub const fn as_millis(&self) -> (r: u128) ensures r == self.ns / 1000000 { self.ns / 1000000 }
    #[verifier::external_body]
    pub const fn as_secs(&self) -> (r: u64) ensures r == self.ns / 1000000000 { unimplemented!() }
}
pub struct Elapsed;
// A future that gave v did not do so in this time.
pub uninterp spec fn late<T>(d: Duration, v: T) -> bool;
#[verifier::external_body]
pub fn timeout<T>(d: Duration, v: T) -> (r: Result<T, Elapsed>)
    ensures r == (if late(d, v) { Err::<T, Elapsed>(Elapsed) } else { Ok(v) })
{ unimplemented!() }
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { t: T }
// That it may be used at all: where this is not known, it is not.
pub uninterp spec fn may<T>(l: RwLock<T>) -> bool;
impl<T> RwLock<T> {
    pub uninterp spec fn start(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.start() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'a>(&'a self) -> (r: &'a mut T) requires may(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct CancellationToken { d: u8 }
impl CancellationToken {
    // Tokens with one id are cancelled together, and with the parent.
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn parent(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cancelled(&self) { unimplemented!() }
    // the same, where it is noted that it was seen
    #[verifier::external_body]
    pub fn cancelled_w(&self, w: &mut World) ensures final(w).agent@ == (AgentLog { asked: true, ..old(w).agent@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_cancelled_w(&self, w: &mut World) -> (r: bool)
        ensures final(w).agent@ == (if r { AgentLog { asked: true, ..old(w).agent@ } } else { old(w).agent@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn child_token(&self) -> (r: Self) ensures r.parent() == Some(self.id()), r.id() != self.id() { unimplemented!() }
}
impl Clone for CancellationToken {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id() == self.id(), r.parent() == self.parent() { unimplemented!() }
}
impl Default for CancellationToken {
    uninterp spec fn default_spec() -> Self;
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}

// ---------------------------------------------------------------- the agent
// A connection, by its stream and the token over its own.
pub struct Run { pub io: int, pub under: int }
pub struct AgentLog {
    // shutdown was seen
    pub asked: bool,
    // the connections taken, and those that run in tasks of the tracker
    pub taken: Seq<int>,
    pub runs: Seq<Run>,
    // those tasks that are not known to have ended
    pub open: Set<int>,
    pub closed: bool,
    // a task could not be spawned
    pub failed: bool,
}
#[verifier::external_body]
pub struct StdTcpListener { d: u8 }
impl StdTcpListener { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub struct TcpListener { d: u8 }
#[verifier::external_body]
pub struct SocketAddr { d: u8 }
#[verifier::external_body]
pub struct TcpStream { d: u8 }
impl TcpStream { pub uninterp spec fn id(&self) -> int; }
impl Stream_ for TcpStream {
    uninterp spec fn rx(&self) -> Seq<u8>;
    uninterp spec fn tx(&self) -> Seq<u8>;
    uninterp spec fn broken(&self) -> bool;
}
impl AsyncRead for TcpStream {
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl AsyncWrite for TcpStream {
    #[verifier::external_body]
    fn write_all<S: AsSlice<Item = u8> + ?Sized>(&mut self, b: &S) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl TcpListener {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn from_std(l: StdTcpListener) -> (r: Result<TcpListener, io_Error>) ensures r is Ok ==> r->Ok_0.id() == l.id() { unimplemented!() }
    // No connection is taken after shutdown was seen.
    #[verifier::external_body]
    pub fn accept(&self, w: &mut World) -> (r: Result<(TcpStream, SocketAddr), io_Error>)
        requires !old(w).agent@.asked
        ensures match r {
            Ok(x) => final(w).agent@ == (AgentLog { taken: old(w).agent@.taken.push(x.0.id()), ..old(w).agent@ }),
            Err(_) => final(w).agent@ == old(w).agent@,
        }
    { unimplemented!() }
}
// What an async block captured.
pub trait Captured: Sized {
    spec fn runnable(self) -> bool;
    spec fn as_run(self) -> Run;
}
impl<S: MakeService<T, Vec<crate::spop::frame::msg::Message>, Response = Vec<crate::spop::action::Action>>, T> Captured for crate::spoa::conn::Connection<TcpStream, S, T> {
    open spec fn runnable(self) -> bool {
        self.tok.parent() is Some && (self.state is Connecting ==> may((*self.state->Connecting_0.runtime).service_maker))
    }
    open spec fn as_run(self) -> Run { Run { io: self.codec.stream.around().id(), under: self.tok.parent()->Some_0 } }
}
pub struct Future_<C> { pub c: C }
pub fn future<C: Captured>(c: C) -> (r: Future_<C>)
    requires c.runnable()
    ensures r.c == c
{ Future_ { c } }
#[verifier::external_body]
#[verifier::accept_recursive_types(C)]
pub struct TrackedFuture<C> { c: Future_<C> }
impl<C> TrackedFuture<C> { pub uninterp spec fn c(&self) -> C; }
#[verifier::external_body]
pub struct JoinHandle { d: u8 }
pub open spec fn run_more(a: AgentLog, r: Run) -> AgentLog { AgentLog { runs: a.runs.push(r), open: a.open.insert(r.io), ..a } }
// Tasks. What is spawned runs from now on, with whatever else runs.
#[verifier::external_body]
pub struct TaskTracker { d: u8 }
impl TaskTracker {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn track_future<C: Captured>(&self, f: Future_<C>, w: &mut World) -> (r: TrackedFuture<C>)
        ensures r.c() == f.c, final(w).agent@ == old(w).agent@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<C: Captured>(&self, f: Future_<C>, w: &mut World) -> (r: JoinHandle)
        ensures final(w).agent@ == run_more(old(w).agent@, f.c.as_run())
    { unimplemented!() }
    // Whether it was open before.
    #[verifier::external_body]
    pub fn close(&self, w: &mut World) -> (r: bool) ensures final(w).agent@ == (AgentLog { closed: true, ..old(w).agent@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self, w: &mut World) -> (r: bool) ensures r == old(w).agent@.closed, final(w).agent@ == old(w).agent@ { unimplemented!() }
    // Tasks may end at any time.
    #[verifier::external_body]
    pub fn is_empty(&self, w: &mut World) -> (r: bool)
        ensures final(w).agent@ == (if r { AgentLog { open: Set::empty(), ..old(w).agent@ } } else { old(w).agent@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self, w: &mut World) -> (r: usize)
        ensures final(w).agent@ == (if r == 0 { AgentLog { open: Set::empty(), ..old(w).agent@ } } else { old(w).agent@ })
    { unimplemented!() }
    // Returns when it is closed and its tasks have ended; nothing but close
    // closes it.
    #[verifier::external_body]
    pub fn wait(&self, w: &mut World)
        requires old(w).agent@.closed
        ensures final(w).agent@ == (AgentLog { open: Set::empty(), ..old(w).agent@ })
    { unimplemented!() }
}
impl Default for TaskTracker {
    uninterp spec fn default_spec() -> Self;
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
impl Clone for TaskTracker {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct task_Builder { d: u8 }
impl task_Builder {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn name(self, n: &str) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<F: Task>(self, f: F, w: &mut World) -> (r: Result<JoinHandle, io_Error>)
        ensures match r {
            Ok(_) => final(w).agent@ == f.begun(old(w).agent@),
            Err(_) => final(w).agent@ == (AgentLog { failed: true, ..old(w).agent@ }),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn<F: Task>(f: F, w: &mut World) -> (r: JoinHandle) ensures final(w).agent@ == f.begun(old(w).agent@) { unimplemented!() }
// What may be spawned, and what is known then: of a task that is not the
// tracker's nothing is.
pub trait Task: Sized {
    spec fn begun(self, a: AgentLog) -> AgentLog;
}
impl<C: Captured> Task for TrackedFuture<C> { open spec fn begun(self, a: AgentLog) -> AgentLog { run_more(a, self.c().as_run()) } }
impl<C: Captured> Task for Future_<C> { open spec fn begun(self, a: AgentLog) -> AgentLog { a } }
pub trait Service<R> {
    type Response;
    type Error;
    // The requests so far, with what became of them.
    spec fn hist(&self) -> Seq<(R, Result<Self::Response, Self::Error>)>;
    spec fn ready(&self) -> bool;
    // a service gave this error
    spec fn gave(e: Self::Error) -> bool;
    fn poll_ready__wait(&mut self) -> (r: Result<(), Self::Error>)
        ensures final(self).hist() == old(self).hist(), r is Ok ==> final(self).ready(), r is Err ==> Self::gave(r->Err_0);
    fn call(&mut self, req: R) -> (r: Result<Self::Response, Self::Error>)
        requires old(self).ready()
        ensures final(self).hist() == old(self).hist().push((req, r)), r is Err ==> Self::gave(r->Err_0);
}
pub trait MakeService<T, R> {
    type Response;
    type Error;
    type Service: Service<R, Response = Self::Response, Error = Self::Error>;
    // the code asks for this bound wherever it makes a service
    type MakeError: StdError;
    spec fn ready(&self) -> bool;
    // a maker gave this error
    spec fn unmade(e: Self::MakeError) -> bool;
    fn poll_ready__wait(&mut self) -> (r: Result<(), Self::MakeError>)
        ensures r is Ok ==> final(self).ready(), r is Err ==> Self::unmade(r->Err_0);
    fn make_service(&mut self, t: T) -> (r: Result<Self::Service, Self::MakeError>)
        requires old(self).ready()
        ensures r is Ok ==> r->Ok_0.hist().len() == 0, r is Err ==> Self::unmade(r->Err_0);
}

pub broadcast group group_agent { axiom_depth, axiom_full, axiom_mk_set, axiom_set_ext, axiom_set_seq }
}
