// DashMap, as a task sees it that shares it with others: between any two
// accesses the entries may become anything. An access holds the lock of the
// key's shard until its guard is gone, so what is read and written under one
// guard is one step. The steps that this task made are in a log.
pub mod shim_shared {
#[allow(unused_imports)]
use vstd::prelude::*;
use crate::shim::*;

pub struct Step<K, V> { pub key: K, pub before: Option<V>, pub after: Option<V> }
pub open spec fn to<K, V>(l: Seq<Step<K, V>>, v: Option<V>) -> Seq<Step<K, V>> {
    l.drop_last().push(Step { key: l.last().key, before: l.last().before, after: v })
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { d: Vec<(K, V)> }
impl<K, V> DashMap<K, V> {
    pub uninterp spec fn log(&self) -> Seq<Step<K, V>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.log().len() == 0 { unimplemented!() }
    // what entry finds, and what its guard does
    #[verifier::external_body]
    fn lock_(&mut self, k: &K) -> (r: bool)
        ensures seen(old(self).log(), final(self).log(), *k), r == (final(self).log().last().before is Some)
    { unimplemented!() }
    #[verifier::external_body]
    fn take_(&mut self) -> (r: V)
        requires old(self).log().len() > 0, old(self).log().last().after is Some
        ensures r == old(self).log().last().after->Some_0, final(self).log() == to(old(self).log(), None)
    { unimplemented!() }
    #[verifier::external_body]
    fn put_(&mut self, v: V)
        requires old(self).log().len() > 0
        ensures final(self).log() == to(old(self).log(), Some(v))
    { unimplemented!() }
    #[verifier::external_body]
    fn at_<'a>(&'a self) -> (r: &'a V)
        requires self.log().len() > 0, self.log().last().after is Some
        ensures *r == self.log().last().after->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn at_mut_<'a>(&'a mut self) -> (r: &'a mut V)
        requires old(self).log().len() > 0, old(self).log().last().after is Some
        ensures *r == old(self).log().last().after->Some_0, final(self).log() == to(old(self).log(), Some(*final(r)))
    { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => seen(old(self).log(), e.map.log(), k) && e.map.log().last().before is Some && e.key == k && *final(e.map) == *final(self),
            Entry::Vacant(e) => seen(old(self).log(), e.map.log(), k) && e.map.log().last().before is None && e.key == k && *final(e.map) == *final(self),
        }
    {
        if self.lock_(&k) { Entry::Occupied(OccupiedEntry { map: self, key: k }) } else { Entry::Vacant(VacantEntry { map: self, key: k }) }
    }
    #[verifier::external_body]
    pub fn contains_key(&mut self, k: &K) -> (r: bool)
        ensures seen(old(self).log(), final(self).log(), *k), r == (final(self).log().last().before is Some)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a mut self, k: &K) -> (r: Option<&'a V>)
        ensures seen(old(self).log(), final(self).log(), *k),
            match r { Some(v) => Some(*v) == final(self).log().last().before, None => final(self).log().last().before is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures did(old(self).log(), final(self).log(), *k),
            match r {
                Some(v) => Some(*v) == final(self).log().last().before && final(self).log().last().after == Some(*final(v)),
                None => final(self).log().last().before is None && final(self).log().last().after is None,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures did(old(self).log(), final(self).log(), k), r == final(self).log().last().before, final(self).log().last().after == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures did(old(self).log(), final(self).log(), *k), final(self).log().last().after is None,
            r == (match final(self).log().last().before { Some(v) => Some((*k, v)), None => None }),
    { unimplemented!() }
}
// One more step, on this key.
pub open spec fn did<K, V>(a: Seq<Step<K, V>>, b: Seq<Step<K, V>>, k: K) -> bool {
    b.len() == a.len() + 1 && b.drop_last() == a && b.last().key == k
}
// One that changed nothing.
pub open spec fn seen<K, V>(a: Seq<Step<K, V>>, b: Seq<Step<K, V>>, k: K) -> bool { did(a, b, k) && b.last().after == b.last().before }
impl<K, V> Default for DashMap<K, V> {
    uninterp spec fn default_spec() -> Self;
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> (r: &V)
        requires old(self.map).log().len() > 0, old(self.map).log().last().after is Some
        ensures Some(*r) == old(self.map).log().last().after
    { self.map.at_() }
    pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).map.log().len() > 0, old(self).map.log().last().after is Some
        ensures Some(*r) == old(self).map.log().last().after, final(self).map.log() == to(old(self).map.log(), Some(*final(r))),
            final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map)
    { self.map.at_mut_() }
    pub fn insert(&mut self, v: V) -> (r: V)
        requires old(self).map.log().len() > 0, old(self).map.log().last().after is Some
        ensures Some(r) == old(self).map.log().last().after, final(self).map.log() == to(old(self).map.log(), Some(v)),
            final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map)
    { let r = self.map.take_(); self.map.put_(v); r }
    pub fn into_ref(self) -> (r: &'a mut V)
        requires old(self.map).log().len() > 0, old(self.map).log().last().after is Some
        ensures Some(*r) == old(self.map).log().last().after, final(self.map).log() == to(old(self.map).log(), Some(*final(r)))
    { self.map.at_mut_() }
    pub fn remove(self) -> (r: V)
        requires old(self.map).log().len() > 0, old(self.map).log().last().after is Some
        ensures Some(r) == old(self.map).log().last().after, final(self.map).log() == to(old(self.map).log(), None)
    { self.map.take_() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> (r: &'a mut V)
        requires old(self.map).log().len() > 0
        ensures *r == v, final(self.map).log() == to(old(self.map).log(), Some(*final(r)))
    { self.map.put_(v); self.map.at_mut_() }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub open spec fn map_(self) -> &'a mut DashMap<K, V> { match self { Entry::Occupied(e) => e.map, Entry::Vacant(e) => e.map } }
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        requires self.map_().log().len() > 0, self is Occupied ==> self.map_().log().last().after is Some
        ensures *r == (match self { Entry::Occupied(e) => e.map.log().last().after->Some_0, Entry::Vacant(_) => v }),
            final(self.map_()).log() == to(self.map_().log(), Some(*final(r)))
    { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_default(self) -> (r: &'a mut V)
        where V: Default
        requires self.map_().log().len() > 0, self is Occupied ==> self.map_().log().last().after is Some
        ensures *r == (match self { Entry::Occupied(e) => e.map.log().last().after->Some_0, Entry::Vacant(_) => V::default_spec() }),
            final(self.map_()).log() == to(self.map_().log(), Some(*final(r)))
    { self.or_insert(V::default()) }
}

// ---------------------------------------------------------------- C32
pub type Key = (u64, u64);
pub open spec fn kv<T>(o: Option<Vec<T>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
// What a fragment makes of the entry of its key, and what is given back.
pub open spec fn frag_next<T>(b: Option<Seq<T>>, fragmented: bool, v: Seq<T>) -> (Option<Seq<T>>, Option<Seq<T>>) {
    let c = match b { Some(s) => s + v, None => v };
    if fragmented { (Some(c), None) } else { (None, Some(c)) }
}
pub open spec fn is_point<T>(s: Step<Key, Vec<T>>, fragmented: bool, k: Key, v: Seq<T>, r: Option<Seq<T>>) -> bool {
    s.key == k && frag_next(kv(s.before), fragmented, v) == (kv(s.after), r)
}
pub open spec fn idle<T>(s: Step<Key, Vec<T>>) -> bool { kv(s.before) == kv(s.after) }
// The call has its whole effect in one of its steps, and none in the others.
pub open spec fn atomic<T>(a: Seq<Step<Key, Vec<T>>>, b: Seq<Step<Key, Vec<T>>>, fragmented: bool, k: Key, v: Seq<T>, r: Option<Seq<T>>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && exists|i: int| a.len() <= i < b.len() && only(a, b, i) && is_point(#[trigger] b[i], fragmented, k, v, r)
}
pub open spec fn only<T>(a: Seq<Step<Key, Vec<T>>>, b: Seq<Step<Key, Vec<T>>>, i: int) -> bool {
    forall|j: int| a.len() <= j < b.len() && j != i ==> idle(#[trigger] b[j])
}
// One to three steps.
pub broadcast proof fn lemma_steps<T>(a: Seq<Step<Key, Vec<T>>>, b: Seq<Step<Key, Vec<T>>>, fragmented: bool, k: Key, v: Seq<T>, r: Option<Seq<T>>)
    ensures
        b.len() > 0 && b.drop_last() == a && is_point(b.last(), fragmented, k, v, r) ==> #[trigger] atomic(a, b, fragmented, k, v, r),
        b.len() > 1 && b.drop_last().drop_last() == a && is_point(b.last(), fragmented, k, v, r) && idle(b[b.len() - 2]) ==> atomic(a, b, fragmented, k, v, r),
        b.len() > 1 && b.drop_last().drop_last() == a && is_point(b[b.len() - 2], fragmented, k, v, r) && idle(b.last()) ==> atomic(a, b, fragmented, k, v, r),
        b.len() > 2 && b.drop_last().drop_last().drop_last() == a && is_point(b.last(), fragmented, k, v, r) && idle(b[b.len() - 2]) && idle(b[b.len() - 3]) ==> atomic(a, b, fragmented, k, v, r),
{
    let n = b.len() as int;
    if n > 0 && b.drop_last() == a && is_point(b.last(), fragmented, k, v, r) { assert(b.take(n - 1) =~= a); assert(only(a, b, n - 1) && is_point(b[n - 1], fragmented, k, v, r)); }
    if n > 1 && b.drop_last().drop_last() == a {
        assert(b.take(n - 2) =~= a);
        if is_point(b.last(), fragmented, k, v, r) && idle(b[n - 2]) { assert(only(a, b, n - 1) && is_point(b[n - 1], fragmented, k, v, r)); }
        if is_point(b[n - 2], fragmented, k, v, r) && idle(b.last()) { assert(only(a, b, n - 2) && is_point(b[n - 2], fragmented, k, v, r)); }
    }
    if n > 2 && b.drop_last().drop_last().drop_last() == a && is_point(b.last(), fragmented, k, v, r) && idle(b[n - 2]) && idle(b[n - 3]) {
        assert(b.take(n - 3) =~= a);
        assert(only(a, b, n - 1) && is_point(b[n - 1], fragmented, k, v, r));
    }
}
pub broadcast proof fn lemma_to<K, V>(l: Seq<Step<K, V>>, v: Option<V>)
    requires l.len() > 0
    ensures (#[trigger] to(l, v)).drop_last() == l.drop_last(), to(l, v).len() == l.len(),
{ assert(to(l, v).drop_last() =~= l.drop_last()); }
pub broadcast proof fn lemma_empty_front<T>(s: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + s) == s { assert(Seq::<T>::empty() + s =~= s); }

// What several tasks did to one table: the calls, and all their steps in the
// order in which they were made; a step sees what the one before left.
pub struct Call<T> { pub fragmented: bool, pub key: Key, pub value: Seq<T>, pub result: Option<Seq<T>> }
// point: the call that has its effect in this step
pub struct Event<T> { pub step: Step<Key, Vec<T>>, pub point: Option<Call<T>> }
pub type Tab<T> = Map<Key, Seq<T>>;
pub open spec fn look<T>(m: Tab<T>, k: Key) -> Option<Seq<T>> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub open spec fn make<T>(m: Tab<T>, k: Key, v: Option<Seq<T>>) -> Tab<T> { match v { Some(s) => m.insert(k, s), None => m.remove(k) } }
pub open spec fn after<T>(m: Tab<T>, h: Seq<Event<T>>) -> Tab<T> decreases h.len() {
    if h.len() == 0 { m } else { make(after(m, h.drop_last()), h.last().step.key, kv(h.last().step.after)) }
}
pub open spec fn happens<T>(m: Tab<T>, h: Seq<Event<T>>) -> bool decreases h.len() {
    h.len() > 0 ==> happens(m, h.drop_last()) && look(after(m, h.drop_last()), h.last().step.key) == kv(h.last().step.before)
}
// What the contract of reassemble says of each call.
pub open spec fn calls_atomic<T>(h: Seq<Event<T>>) -> bool {
    forall|i: int| 0 <= i < h.len() ==> match (#[trigger] h[i]).point {
        Some(c) => is_point(h[i].step, c.fragmented, c.key, c.value, c.result),
        None => idle(h[i].step),
    }
}
pub open spec fn order<T>(h: Seq<Event<T>>) -> Seq<Call<T>> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else {
        match h.last().point { Some(c) => order(h.drop_last()).push(c), None => order(h.drop_last()) }
    }
}
// One task makes these calls, one after the other (tab_next is C17).
pub open spec fn run<T>(m: Tab<T>, cs: Seq<Call<T>>) -> Tab<T> decreases cs.len() {
    if cs.len() == 0 { m } else { let c = cs.last(); crate::spec_io::tab_next(run(m, cs.drop_last()), c.fragmented, c.key, c.value).0 }
}
pub open spec fn gives<T>(m: Tab<T>, cs: Seq<Call<T>>) -> bool decreases cs.len() {
    cs.len() > 0 ==> gives(m, cs.drop_last()) && ({ let c = cs.last(); crate::spec_io::tab_next(run(m, cs.drop_last()), c.fragmented, c.key, c.value).1 == c.result })
}
pub proof fn lemma_linear<T>(m: Tab<T>, h: Seq<Event<T>>)
    requires happens(m, h), calls_atomic(h)
    ensures gives(m, order(h)), run(m, order(h)) == after(m, h)
    decreases h.len()
{
    if h.len() > 0 {
        let e = h[h.len() - 1];
        let g = h.drop_last();
        let x = after(m, g);
        assert forall|i: int| 0 <= i < g.len() implies match (#[trigger] g[i]).point {
            Some(c) => is_point(g[i].step, c.fragmented, c.key, c.value, c.result),
            None => idle(g[i].step),
        } by { assert(g[i] == h[i]); }
        lemma_linear(m, g);
        match e.point {
            Some(c) => {
                assert(order(h) == order(g).push(c));
                assert(order(h).drop_last() =~= order(g));
                assert(order(h).last() == c);
                let t = crate::spec_io::tab_next(x, c.fragmented, c.key, c.value);
                assert(t.1 == c.result);
                assert(t.0 =~= make(x, e.step.key, kv(e.step.after)));
            },
            None => {
                assert(order(h) == order(g));
                assert(make(x, e.step.key, kv(e.step.after)) =~= x);
            },
        }
    }
}
}
