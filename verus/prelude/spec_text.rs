// Text: lists separated by commas, the names of versions and capabilities.
pub mod spec_text {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use crate::shim::*;
use crate::spec::*;
use crate::spop::version::Version;
use crate::spop::caps::Capability;

pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split(s, c).len() >= 1 decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.skip(1), c); } }
pub proof fn lemma_split_one(x: Seq<char>, c: char)
    requires !x.contains(c)
    ensures split(x, c) == seq![x]
    decreases x.len()
{
    if x.len() > 0 {
        assert(x.contains(x[0]));
        assert forall|d: char| x.skip(1).contains(d) implies x.contains(d) by {
            let i = choose|i: int| 0 <= i < x.skip(1).len() && x.skip(1)[i] == d; assert(x[i + 1] == d); }
        lemma_split_one(x.skip(1), c);
        assert(seq![x[0]] + x.skip(1) =~= x);
        assert(split(x, c) =~= seq![x]);
    } else { assert(x =~= Seq::empty()); }
}
pub proof fn lemma_split_cons(x: Seq<char>, c: char, t: Seq<char>)
    requires !x.contains(c)
    ensures split(x + seq![c] + t, c) == seq![x] + split(t, c)
    decreases x.len()
{
    let s = x + seq![c] + t;
    if x.len() > 0 {
        assert(x.contains(x[0]));
        assert forall|d: char| x.skip(1).contains(d) implies x.contains(d) by {
            let i = choose|i: int| 0 <= i < x.skip(1).len() && x.skip(1)[i] == d; assert(x[i + 1] == d); }
        lemma_split_cons(x.skip(1), c, t);
        assert(s.skip(1) =~= x.skip(1) + seq![c] + t);
        assert(seq![x[0]] + x.skip(1) =~= x);
        assert((seq![x.skip(1)] + split(t, c)).skip(1) =~= split(t, c));
        assert(split(s, c) =~= seq![x] + split(t, c));
    } else {
        assert(s.skip(1) =~= t);
        assert(x =~= Seq::empty());
    }
}
pub proof fn lemma_split_join(l: Seq<Seq<char>>, c: char)
    requires l.len() >= 1, forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).contains(c)
    ensures split(join(l, seq![c]), c) == l
    decreases l.len()
{
    if l.len() == 1 {
        lemma_split_one(l[0], c);
        assert(l =~= seq![l[0]]);
    } else {
        let t = l.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies !(#[trigger] t[i]).contains(c) by { assert(t[i] == l[i + 1]); }
        lemma_split_join(t, c);
        lemma_split_cons(l[0], c, join(t, seq![c]));
        assert(l =~= seq![l[0]] + t);
    }
}
// What is displayed can be read back (parse_display derives both).
#[verifier::external_body]
pub broadcast axiom fn axiom_version_parse(v: Version)
    ensures Version::parse_spec(#[trigger] v.disp()) == Some(v);
#[verifier::external_body]
pub broadcast axiom fn axiom_cap_parse(v: Capability)
    ensures Capability::parse_spec(#[trigger] v.disp()) == Some(v);
// C13: what they look like.
pub open spec fn version_text(v: Version) -> Seq<char> { dec(v.major as nat) + seq!['.'] + dec(v.minor as nat) }
pub open spec fn cap_text(c: Capability) -> Seq<char> {
    match c { Capability::Fragmentation => "fragmentation"@, Capability::Pipelining => "pipelining"@, Capability::Async => "async"@ }
}
pub proof fn lemma_version_text(v: Version) ensures v.disp() == version_text(v)
{ assert(v.disp() =~= version_text(v)); }
pub proof fn lemma_cap_text(c: Capability) ensures c.disp() == cap_text(c)
{
    reveal_strlit("fragmentation"); reveal_strlit("pipelining"); reveal_strlit("async");
    assert(c.disp() =~= cap_text(c));
}
pub open spec fn plain(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') }
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> plain(#[trigger] dec(n)[i])
    decreases n
{ if n >= 10 { lemma_dec(n / 10); } }
pub proof fn lemma_trim(s: Seq<char>)
    requires s.len() > 0, plain(s[0]), plain(s.last())
    ensures trim(s) == s
{ axiom_space(s[0]); axiom_space(s.last()); }
pub proof fn lemma_version_name(v: Version)
    ensures !v.disp().contains(','), trim(v.disp()) == v.disp(), Version::parse_spec(v.disp()) == Some(v)
{
    lemma_version_text(v); lemma_dec(v.major as nat); lemma_dec(v.minor as nat);
    axiom_version_parse(v);
    let a = dec(v.major as nat);
    let b = dec(v.minor as nat);
    let t = v.disp();
    assert(t[0] == a[0]);
    assert(t.last() == b.last());
    assert forall|i: int| 0 <= i < t.len() implies t[i] != ',' by {
        if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); }
    }
    lemma_trim(t);
}
pub proof fn lemma_cap_name(c: Capability)
    ensures !c.disp().contains(','), trim(c.disp()) == c.disp(), Capability::parse_spec(c.disp()) == Some(c), c.disp().len() > 0
{
    lemma_cap_text(c);
    reveal_strlit("fragmentation"); reveal_strlit("pipelining"); reveal_strlit("async");
    axiom_cap_parse(c);
    lemma_trim(c.disp());
    assert forall|i: int| 0 <= i < c.disp().len() implies c.disp()[i] != ',' by { }
}
pub open spec fn names<T: Display>(l: Seq<T>) -> Seq<Seq<char>> { l.map_values(|v: T| v.disp()) }
pub open spec fn comma() -> Seq<char> { seq![','] }
pub open spec fn list_text<T: Display>(l: Seq<T>) -> Seq<char> { join(names(l), comma()) }

pub open spec fn d_versions(parts: Seq<Seq<char>>) -> Option<Seq<Version>> decreases parts.len() {
    if parts.len() == 0 { Some(Seq::empty()) } else {
        match (Version::parse_spec(trim(parts[0])), d_versions(parts.skip(1))) {
            (Some(v), Some(r)) => Some(seq![v] + r),
            _ => None,
        }
    }
}
pub open spec fn d_caps(parts: Seq<Seq<char>>) -> Option<Seq<Capability>> decreases parts.len() {
    if parts.len() == 0 { Some(Seq::empty()) } else {
        if trim(parts[0]).len() == 0 { d_caps(parts.skip(1)) } else {
            match (Capability::parse_spec(trim(parts[0])), d_caps(parts.skip(1))) {
                (Some(v), Some(r)) => Some(seq![v] + r),
                _ => None,
            }
        }
    }
}
pub proof fn lemma_versions(l: Seq<Version>)
    ensures d_versions(names(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        lemma_versions(l.skip(1));
        lemma_version_name(l[0]);
        assert(names(l).skip(1) =~= names(l.skip(1)));
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); }
}
pub proof fn lemma_caps(l: Seq<Capability>)
    ensures d_caps(names(l)) == Some(l)
    decreases l.len()
{
    if l.len() > 0 {
        lemma_caps(l.skip(1));
        lemma_cap_name(l[0]);
        assert(names(l).skip(1) =~= names(l.skip(1)));
        assert(seq![l[0]] + l.skip(1) =~= l);
    } else { assert(l =~= Seq::empty()); }
}
pub proof fn lemma_versions_text(l: Seq<Version>)
    requires l.len() > 0
    ensures d_versions(split(list_text(l), ',')) == Some(l)
{
    assert forall|i: int| 0 <= i < names(l).len() implies !(#[trigger] names(l)[i]).contains(',') by { lemma_version_name(l[i]); }
    lemma_split_join(names(l), ',');
    lemma_versions(l);
}
pub proof fn lemma_caps_text(l: Seq<Capability>)
    ensures d_caps(split(list_text(l), ',')) == Some(l)
{
    if l.len() > 0 {
        assert forall|i: int| 0 <= i < names(l).len() implies !(#[trigger] names(l)[i]).contains(',') by { lemma_cap_name(l[i]); }
        lemma_split_join(names(l), ',');
        lemma_caps(l);
    } else {
        let p = split(list_text(l), ',');
        assert(p =~= seq![Seq::empty()]);
        assert(p.skip(1) =~= Seq::empty());
        assert(p[0] =~= Seq::<char>::empty());
        assert(trim(p[0]).len() == 0);
        assert(d_caps(p.skip(1)) == Some(Seq::<Capability>::empty()));
        assert(l =~= Seq::empty());
    }
}
}
