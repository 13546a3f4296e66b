// What a changed tree may use of the standard library besides shim.rs: trusted
// in the same way. On the unchanged tree little of it is used.
pub mod shim_std {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use crate::shim::*;
use crate::spec::*;
pub use core::cmp::Ordering;

#[verifier::external_body]
pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { unimplemented!() }
#[verifier::external_body]
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body]
pub fn take<T: Default>(d: &mut T) -> (r: T) ensures r == *old(d), *final(d) == T::default_spec() { unimplemented!() }

#[verifier::external_body]
pub fn vec_of<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn concat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

// ---------------------------------------------------------------- text
pub trait Needle: Sized {
    spec fn needle(self) -> Seq<char>;
}
impl Needle for char { open spec fn needle(self) -> Seq<char> { seq![self] } }
impl<'a> Needle for &'a str { open spec fn needle(self) -> Seq<char> { self@ } }
impl<'a> Needle for &'a String { open spec fn needle(self) -> Seq<char> { self@ } }
pub open spec fn starts<T>(s: Seq<T>, p: Seq<T>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn ends<T>(s: Seq<T>, p: Seq<T>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn trim_starts(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && starts(s, p) { trim_starts(s.skip(p.len() as int), p) } else { s }
}
pub open spec fn trim_ends(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && ends(s, p) { trim_ends(s.take(s.len() - p.len()), p) } else { s }
}
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
// replaced(s, a, b): every a in s is b instead
pub open spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> decreases s.len() {
    if a.len() == 0 { s }
    else if starts(s, a) { b + replaced(s.skip(a.len() as int), a, b) }
    else if s.len() == 0 { s }
    else { seq![s[0]] + replaced(s.skip(1), a, b) }
}
// s is a, the first p, b
pub open spec fn cut(s: Seq<char>, p: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool {
    s == a + p + b && forall|n: int| 0 <= n < a.len() ==> !starts(#[trigger] s.skip(n), p)
}
pub trait StrMore {
    spec fn cs(&self) -> Seq<char>;
    fn trim_end_<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_end(self.cs());
    fn trim_start_<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_start(self.cs());
    fn trim_matches_<'a>(&'a self, p: char) -> (r: &'a str) ensures r@ == trim_ends(trim_starts(self.cs(), seq![p]), seq![p]);
    fn trim_start_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) ensures r@ == trim_starts(self.cs(), p.needle());
    fn trim_end_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) ensures r@ == trim_ends(self.cs(), p.needle());
    fn starts_with_<P: Needle>(&self, p: P) -> (r: bool) ensures r == starts(self.cs(), p.needle());
    fn ends_with_<P: Needle>(&self, p: P) -> (r: bool) ensures r == ends(self.cs(), p.needle());
    fn strip_prefix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => starts(self.cs(), p.needle()) && t@ == self.cs().skip(p.needle().len() as int), None => !starts(self.cs(), p.needle()) };
    fn strip_suffix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => ends(self.cs(), p.needle()) && t@ == self.cs().take(self.cs().len() - p.needle().len()), None => !ends(self.cs(), p.needle()) };
    fn split_once_<'a, P: Needle>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures match r {
            Some(t) => cut(self.cs(), p.needle(), t.0@, t.1@),
            None => forall|n: int| 0 <= n <= self.cs().len() ==> !starts(#[trigger] self.cs().skip(n), p.needle()),
        };
    fn to_lowercase_(&self) -> (r: String) ensures r@ == lower(self.cs());
    fn to_uppercase_(&self) -> (r: String) ensures r@ == upper(self.cs());
    fn to_ascii_lowercase_(&self) -> (r: String) ensures r@ == ascii_lower(self.cs());
    fn to_ascii_uppercase_(&self) -> (r: String) ensures r@ == ascii_upper(self.cs());
    fn eq_ignore_ascii_case_(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self.cs()) == ascii_lower(o@));
    fn replace_<P: Needle>(&self, p: P, b: &str) -> (r: String) ensures p.needle().len() > 0 ==> r@ == replaced(self.cs(), p.needle(), b@);
    fn char_count_(&self) -> (r: usize) ensures r == self.cs().len();
    fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == encode_utf8(self.cs());
}
impl StrMore for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn trim_end_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_matches_<'a>(&'a self, p: char) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with_<P: Needle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with_<P: Needle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn strip_suffix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn split_once_<'a, P: Needle>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body]
    fn to_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_uppercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_ascii_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_ascii_uppercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn eq_ignore_ascii_case_(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn replace_<P: Needle>(&self, p: P, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn char_count_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
impl StrMore for String {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn trim_end_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_matches_<'a>(&'a self, p: char) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_matches_<'a, P: Needle>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with_<P: Needle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with_<P: Needle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn strip_suffix_<'a, P: Needle>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn split_once_<'a, P: Needle>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body]
    fn to_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_uppercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_ascii_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_ascii_uppercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn eq_ignore_ascii_case_(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn replace_<P: Needle>(&self, p: P, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn char_count_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
pub trait IntoBytes: Sized { spec fn bytes_spec(self) -> Seq<u8>; fn into_bytes_(self) -> (r: Vec<u8>) ensures r@ == self.bytes_spec(); }
impl IntoBytes for String {
    open spec fn bytes_spec(self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn into_bytes_(self) -> (r: Vec<u8>) { unimplemented!() }
}
// Digits, after a plus perhaps, of a number that fits.
pub open spec fn number(s: Seq<char>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None }
    else if !('0' <= s.last() && s.last() <= '9') { None }
    else {
        let d = (s.last() as u32 - '0' as u32) as nat;
        if s.len() == 1 { Some(d) } else { match number(s.drop_last()) { Some(n) => Some(10 * n + d), None => None } }
    }
}
pub open spec fn signed(s: Seq<char>) -> Option<nat> { if s.len() > 1 && s[0] == '+' { number(s.skip(1)) } else { number(s) } }
impl FromStr for u32 {
    open spec fn parse_spec(s: Seq<char>) -> Option<u32> { match signed(s) { Some(n) => if n <= u32::MAX { Some(n as u32) } else { None }, None => None } }
    #[verifier::external_body]
    fn parse_(s: &str) -> (r: Result<u32, ParseError>) { unimplemented!() }
}
impl FromStr for u8 {
    open spec fn parse_spec(s: Seq<char>) -> Option<u8> { match signed(s) { Some(n) => if n <= u8::MAX { Some(n as u8) } else { None }, None => None } }
    #[verifier::external_body]
    fn parse_(s: &str) -> (r: Result<u8, ParseError>) { unimplemented!() }
}
// UTF-8 with something else for what is none.
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>;

#[verifier::external_body]
pub fn from_utf8_lossy<'a, S: AsSlice<Item = u8> + ?Sized>(s: &'a S) -> (r: Cow<'a, str>)
    ensures r.ref_spec()@ == lossy(s.slice_spec()), valid_utf8(s.slice_spec()) ==> r.ref_spec()@ == decode_utf8(s.slice_spec())
{ unimplemented!() }
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self.ref_spec()@ { unimplemented!() }
}

// ---------------------------------------------------------------- addresses
pub open spec fn compatible(o: Seq<u8>) -> bool { forall|i: int| 0 <= i < 12 ==> #[trigger] o[i] == 0 }
pub open spec fn mapped(o: Seq<u8>) -> bool { (forall|i: int| 0 <= i < 10 ==> #[trigger] o[i] == 0) && o[10] == 255 && o[11] == 255 }
impl Ipv6Addr {
    #[verifier::external_body]
    pub fn to_ipv4(&self) -> (r: Option<Ipv4Addr>)
        ensures match r { Some(a) => (mapped(self.o()) || compatible(self.o())) && a.o() == self.o().skip(12), None => !mapped(self.o()) && !compatible(self.o()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ipv4_mapped(&self) -> (r: Option<Ipv4Addr>)
        ensures match r { Some(a) => mapped(self.o()) && a.o() == self.o().skip(12), None => !mapped(self.o()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_canonical(&self) -> (r: IpAddr)
        ensures match r { IpAddr::V4(a) => mapped(self.o()) && a.o() == self.o().skip(12), IpAddr::V6(a) => !mapped(self.o()) && a == *self }
    { unimplemented!() }
}
impl Ipv4Addr {
    #[verifier::external_body]
    pub fn to_ipv6_mapped(&self) -> (r: Ipv6Addr) ensures mapped(r.o()), r.o().skip(12) == self.o() { unimplemented!() }
}

// ---------------------------------------------------------------- numbers
pub trait ToBytes: Sized {
    type A;
    spec fn be(self, a: Self::A) -> bool;
    fn to_be_bytes_(self) -> (r: Self::A) ensures self.be(r);
}
impl ToBytes for u32 {
    type A = [u8; 4];
    open spec fn be(self, a: [u8; 4]) -> bool { a@ == e_u32(self) }
    #[verifier::external_body]
    fn to_be_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
}
impl ToBytes for u64 {
    type A = [u8; 8];
    open spec fn be(self, a: [u8; 8]) -> bool { a@ == e_u32((self / 0x1_0000_0000) as u32) + e_u32((self % 0x1_0000_0000) as u32) }
    #[verifier::external_body]
    fn to_be_bytes_(self) -> (r: [u8; 8]) { unimplemented!() }
}
impl ToBytes for u8 {
    type A = [u8; 1];
    open spec fn be(self, a: [u8; 1]) -> bool { a@ == seq![self] }
    #[verifier::external_body]
    fn to_be_bytes_(self) -> (r: [u8; 1]) { unimplemented!() }
}
#[verifier::external_body]
pub fn u32_from_be_bytes(a: [u8; 4]) -> (r: u32) ensures r == d_u32(a@) { unimplemented!() }

// ---------------------------------------------------------------- sequences
pub open spec fn deduped<T>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() <= 1 { s }
    else if s[s.len() - 1] == s[s.len() - 2] { deduped(s.drop_last()) }
    else { deduped(s.drop_last()).push(s.last()) }
}
pub open spec fn indexed<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
impl<T> IntoIter<T> {
    #[verifier::external_body]
    pub fn enumerate_(self) -> (r: IntoIter<(usize, T)>) ensures r@ == indexed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_(self, n: usize) -> (r: IntoIter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain_<I: IntoIterator<Item = T>>(self, o: I) -> (r: IntoIter<T>) ensures r@ == self@ + o.seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn last_(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back_(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
}
impl<T> IntoIterator for Option<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { match self { Some(v) => seq![v], None => Seq::empty() } }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<T>) { unimplemented!() }
}
impl<'a, T> IntoIterator for &'a Option<T> {
    type Item = &'a T;
    open spec fn seq(self) -> Seq<&'a T> { match self { Some(v) => seq![v], None => Seq::empty() } }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
impl<T> Iterable for [T] {
    type Item = T;
    open spec fn iter_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
impl<'b, I: Iterable + ?Sized> Iterable for &'b I {
    type Item = I::Item;
    open spec fn iter_seq(&self) -> Seq<I::Item> { (**self).iter_seq() }
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: IntoIter<&'a I::Item>) { unimplemented!() }
}
pub trait VecMore<T> {
    spec fn all(&self) -> Seq<T>;
    fn dedup_(&mut self) ensures final(self).all() == deduped(old(self).all());
    fn reverse_(&mut self) ensures final(self).all() == old(self).all().reverse();
}
impl<T> VecMore<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn dedup_(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn reverse_(&mut self) { unimplemented!() }
}
pub trait ToVec<T> {
    spec fn vec_spec(&self) -> Seq<T>;
    fn to_vec_(&self) -> (r: Vec<T>) ensures r@ == self.vec_spec();
}
impl<T: Copy> ToVec<T> for [T] {
    open spec fn vec_spec(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl ToVec<u8> for Bytes {
    open spec fn vec_spec(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait Deref_ {
    type To: ?Sized;
    spec fn deref_spec(&self) -> &Self::To;
    fn deref_(&self) -> (r: &Self::To) ensures r == self.deref_spec();
}
impl Deref_ for String {
    type To = str;
    open spec fn deref_spec(&self) -> &str { string_str(self) }
    #[verifier::external_body]
    fn deref_(&self) -> (r: &str) { unimplemented!() }
}
impl<'a, D: Deref_> Deref_ for &'a D {
    type To = D::To;
    open spec fn deref_spec(&self) -> &D::To { (**self).deref_spec() }
    fn deref_(&self) -> (r: &D::To) { (**self).deref_() }
}
// TryFrom between the integer types: the value when it fits
impl TryFrom<u8> for u16 {
    open spec fn try_spec(v: u8) -> Option<u16> { Some(v as u16) }
    fn try_from(v: u8) -> (r: Result<u16, TryError>) { Ok(v as u16) }
}
impl TryFrom<u8> for u32 {
    open spec fn try_spec(v: u8) -> Option<u32> { Some(v as u32) }
    fn try_from(v: u8) -> (r: Result<u32, TryError>) { Ok(v as u32) }
}
impl TryFrom<u8> for u64 {
    open spec fn try_spec(v: u8) -> Option<u64> { Some(v as u64) }
    fn try_from(v: u8) -> (r: Result<u64, TryError>) { Ok(v as u64) }
}
impl TryFrom<u8> for usize {
    open spec fn try_spec(v: u8) -> Option<usize> { Some(v as usize) }
    fn try_from(v: u8) -> (r: Result<usize, TryError>) { Ok(v as usize) }
}
impl TryFrom<u8> for i8 {
    open spec fn try_spec(v: u8) -> Option<i8> { if v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: u8) -> (r: Result<i8, TryError>) { if v <= (i8::MAX as u8) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<u8> for i16 {
    open spec fn try_spec(v: u8) -> Option<i16> { Some(v as i16) }
    fn try_from(v: u8) -> (r: Result<i16, TryError>) { Ok(v as i16) }
}
impl TryFrom<u8> for i32 {
    open spec fn try_spec(v: u8) -> Option<i32> { Some(v as i32) }
    fn try_from(v: u8) -> (r: Result<i32, TryError>) { Ok(v as i32) }
}
impl TryFrom<u8> for i64 {
    open spec fn try_spec(v: u8) -> Option<i64> { Some(v as i64) }
    fn try_from(v: u8) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<u8> for isize {
    open spec fn try_spec(v: u8) -> Option<isize> { Some(v as isize) }
    fn try_from(v: u8) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<u16> for u8 {
    open spec fn try_spec(v: u16) -> Option<u8> { if v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: u16) -> (r: Result<u8, TryError>) { if v <= (u8::MAX as u16) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<u16> for u32 {
    open spec fn try_spec(v: u16) -> Option<u32> { Some(v as u32) }
    fn try_from(v: u16) -> (r: Result<u32, TryError>) { Ok(v as u32) }
}
impl TryFrom<u16> for u64 {
    open spec fn try_spec(v: u16) -> Option<u64> { Some(v as u64) }
    fn try_from(v: u16) -> (r: Result<u64, TryError>) { Ok(v as u64) }
}
impl TryFrom<u16> for usize {
    open spec fn try_spec(v: u16) -> Option<usize> { Some(v as usize) }
    fn try_from(v: u16) -> (r: Result<usize, TryError>) { Ok(v as usize) }
}
impl TryFrom<u16> for i8 {
    open spec fn try_spec(v: u16) -> Option<i8> { if v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: u16) -> (r: Result<i8, TryError>) { if v <= (i8::MAX as u16) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<u16> for i16 {
    open spec fn try_spec(v: u16) -> Option<i16> { if v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: u16) -> (r: Result<i16, TryError>) { if v <= (i16::MAX as u16) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<u16> for i32 {
    open spec fn try_spec(v: u16) -> Option<i32> { Some(v as i32) }
    fn try_from(v: u16) -> (r: Result<i32, TryError>) { Ok(v as i32) }
}
impl TryFrom<u16> for i64 {
    open spec fn try_spec(v: u16) -> Option<i64> { Some(v as i64) }
    fn try_from(v: u16) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<u16> for isize {
    open spec fn try_spec(v: u16) -> Option<isize> { Some(v as isize) }
    fn try_from(v: u16) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<u32> for u8 {
    open spec fn try_spec(v: u32) -> Option<u8> { if v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: u32) -> (r: Result<u8, TryError>) { if v <= (u8::MAX as u32) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<u32> for u16 {
    open spec fn try_spec(v: u32) -> Option<u16> { if v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: u32) -> (r: Result<u16, TryError>) { if v <= (u16::MAX as u32) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<u32> for u64 {
    open spec fn try_spec(v: u32) -> Option<u64> { Some(v as u64) }
    fn try_from(v: u32) -> (r: Result<u64, TryError>) { Ok(v as u64) }
}
impl TryFrom<u32> for usize {
    open spec fn try_spec(v: u32) -> Option<usize> { Some(v as usize) }
    fn try_from(v: u32) -> (r: Result<usize, TryError>) { Ok(v as usize) }
}
impl TryFrom<u32> for i8 {
    open spec fn try_spec(v: u32) -> Option<i8> { if v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: u32) -> (r: Result<i8, TryError>) { if v <= (i8::MAX as u32) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<u32> for i16 {
    open spec fn try_spec(v: u32) -> Option<i16> { if v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: u32) -> (r: Result<i16, TryError>) { if v <= (i16::MAX as u32) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<u32> for i32 {
    open spec fn try_spec(v: u32) -> Option<i32> { if v <= i32::MAX { Some(v as i32) } else { None } }
    fn try_from(v: u32) -> (r: Result<i32, TryError>) { if v <= (i32::MAX as u32) { Ok(v as i32) } else { Err(TryError) } }
}
impl TryFrom<u32> for i64 {
    open spec fn try_spec(v: u32) -> Option<i64> { Some(v as i64) }
    fn try_from(v: u32) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<u32> for isize {
    open spec fn try_spec(v: u32) -> Option<isize> { Some(v as isize) }
    fn try_from(v: u32) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<u64> for u8 {
    open spec fn try_spec(v: u64) -> Option<u8> { if v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: u64) -> (r: Result<u8, TryError>) { if v <= (u8::MAX as u64) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<u64> for u16 {
    open spec fn try_spec(v: u64) -> Option<u16> { if v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: u64) -> (r: Result<u16, TryError>) { if v <= (u16::MAX as u64) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<u64> for i8 {
    open spec fn try_spec(v: u64) -> Option<i8> { if v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: u64) -> (r: Result<i8, TryError>) { if v <= (i8::MAX as u64) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<u64> for i16 {
    open spec fn try_spec(v: u64) -> Option<i16> { if v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: u64) -> (r: Result<i16, TryError>) { if v <= (i16::MAX as u64) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<u64> for i32 {
    open spec fn try_spec(v: u64) -> Option<i32> { if v <= i32::MAX { Some(v as i32) } else { None } }
    fn try_from(v: u64) -> (r: Result<i32, TryError>) { if v <= (i32::MAX as u64) { Ok(v as i32) } else { Err(TryError) } }
}
impl TryFrom<u64> for i64 {
    open spec fn try_spec(v: u64) -> Option<i64> { if v <= i64::MAX { Some(v as i64) } else { None } }
    fn try_from(v: u64) -> (r: Result<i64, TryError>) { if v <= (i64::MAX as u64) { Ok(v as i64) } else { Err(TryError) } }
}
impl TryFrom<u64> for isize {
    open spec fn try_spec(v: u64) -> Option<isize> { if v <= isize::MAX { Some(v as isize) } else { None } }
    fn try_from(v: u64) -> (r: Result<isize, TryError>) { if v <= (isize::MAX as u64) { Ok(v as isize) } else { Err(TryError) } }
}
impl TryFrom<usize> for u16 {
    open spec fn try_spec(v: usize) -> Option<u16> { if v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: usize) -> (r: Result<u16, TryError>) { if v <= (u16::MAX as usize) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<usize> for u64 {
    open spec fn try_spec(v: usize) -> Option<u64> { Some(v as u64) }
    fn try_from(v: usize) -> (r: Result<u64, TryError>) { Ok(v as u64) }
}
impl TryFrom<usize> for i8 {
    open spec fn try_spec(v: usize) -> Option<i8> { if v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: usize) -> (r: Result<i8, TryError>) { if v <= (i8::MAX as usize) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<usize> for i16 {
    open spec fn try_spec(v: usize) -> Option<i16> { if v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: usize) -> (r: Result<i16, TryError>) { if v <= (i16::MAX as usize) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<usize> for i32 {
    open spec fn try_spec(v: usize) -> Option<i32> { if v <= i32::MAX { Some(v as i32) } else { None } }
    fn try_from(v: usize) -> (r: Result<i32, TryError>) { if v <= (i32::MAX as usize) { Ok(v as i32) } else { Err(TryError) } }
}
impl TryFrom<usize> for i64 {
    open spec fn try_spec(v: usize) -> Option<i64> { if v <= i64::MAX { Some(v as i64) } else { None } }
    fn try_from(v: usize) -> (r: Result<i64, TryError>) { if v <= (i64::MAX as usize) { Ok(v as i64) } else { Err(TryError) } }
}
impl TryFrom<usize> for isize {
    open spec fn try_spec(v: usize) -> Option<isize> { if v <= isize::MAX { Some(v as isize) } else { None } }
    fn try_from(v: usize) -> (r: Result<isize, TryError>) { if v <= (isize::MAX as usize) { Ok(v as isize) } else { Err(TryError) } }
}
impl TryFrom<i8> for u8 {
    open spec fn try_spec(v: i8) -> Option<u8> { if v >= 0 { Some(v as u8) } else { None } }
    fn try_from(v: i8) -> (r: Result<u8, TryError>) { if v >= 0 { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<i8> for u16 {
    open spec fn try_spec(v: i8) -> Option<u16> { if v >= 0 { Some(v as u16) } else { None } }
    fn try_from(v: i8) -> (r: Result<u16, TryError>) { if v >= 0 { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<i8> for u32 {
    open spec fn try_spec(v: i8) -> Option<u32> { if v >= 0 { Some(v as u32) } else { None } }
    fn try_from(v: i8) -> (r: Result<u32, TryError>) { if v >= 0 { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<i8> for u64 {
    open spec fn try_spec(v: i8) -> Option<u64> { if v >= 0 { Some(v as u64) } else { None } }
    fn try_from(v: i8) -> (r: Result<u64, TryError>) { if v >= 0 { Ok(v as u64) } else { Err(TryError) } }
}
impl TryFrom<i8> for usize {
    open spec fn try_spec(v: i8) -> Option<usize> { if v >= 0 { Some(v as usize) } else { None } }
    fn try_from(v: i8) -> (r: Result<usize, TryError>) { if v >= 0 { Ok(v as usize) } else { Err(TryError) } }
}
impl TryFrom<i8> for i16 {
    open spec fn try_spec(v: i8) -> Option<i16> { Some(v as i16) }
    fn try_from(v: i8) -> (r: Result<i16, TryError>) { Ok(v as i16) }
}
impl TryFrom<i8> for i32 {
    open spec fn try_spec(v: i8) -> Option<i32> { Some(v as i32) }
    fn try_from(v: i8) -> (r: Result<i32, TryError>) { Ok(v as i32) }
}
impl TryFrom<i8> for i64 {
    open spec fn try_spec(v: i8) -> Option<i64> { Some(v as i64) }
    fn try_from(v: i8) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<i8> for isize {
    open spec fn try_spec(v: i8) -> Option<isize> { Some(v as isize) }
    fn try_from(v: i8) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<i16> for u8 {
    open spec fn try_spec(v: i16) -> Option<u8> { if v >= 0 && v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: i16) -> (r: Result<u8, TryError>) { if v >= 0 && v <= (u8::MAX as i16) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<i16> for u16 {
    open spec fn try_spec(v: i16) -> Option<u16> { if v >= 0 { Some(v as u16) } else { None } }
    fn try_from(v: i16) -> (r: Result<u16, TryError>) { if v >= 0 { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<i16> for u32 {
    open spec fn try_spec(v: i16) -> Option<u32> { if v >= 0 { Some(v as u32) } else { None } }
    fn try_from(v: i16) -> (r: Result<u32, TryError>) { if v >= 0 { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<i16> for u64 {
    open spec fn try_spec(v: i16) -> Option<u64> { if v >= 0 { Some(v as u64) } else { None } }
    fn try_from(v: i16) -> (r: Result<u64, TryError>) { if v >= 0 { Ok(v as u64) } else { Err(TryError) } }
}
impl TryFrom<i16> for usize {
    open spec fn try_spec(v: i16) -> Option<usize> { if v >= 0 { Some(v as usize) } else { None } }
    fn try_from(v: i16) -> (r: Result<usize, TryError>) { if v >= 0 { Ok(v as usize) } else { Err(TryError) } }
}
impl TryFrom<i16> for i8 {
    open spec fn try_spec(v: i16) -> Option<i8> { if v >= i8::MIN && v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: i16) -> (r: Result<i8, TryError>) { if v >= (i8::MIN as i16) && v <= (i8::MAX as i16) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<i16> for i32 {
    open spec fn try_spec(v: i16) -> Option<i32> { Some(v as i32) }
    fn try_from(v: i16) -> (r: Result<i32, TryError>) { Ok(v as i32) }
}
impl TryFrom<i16> for i64 {
    open spec fn try_spec(v: i16) -> Option<i64> { Some(v as i64) }
    fn try_from(v: i16) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<i16> for isize {
    open spec fn try_spec(v: i16) -> Option<isize> { Some(v as isize) }
    fn try_from(v: i16) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<i32> for u8 {
    open spec fn try_spec(v: i32) -> Option<u8> { if v >= 0 && v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: i32) -> (r: Result<u8, TryError>) { if v >= 0 && v <= (u8::MAX as i32) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<i32> for u16 {
    open spec fn try_spec(v: i32) -> Option<u16> { if v >= 0 && v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: i32) -> (r: Result<u16, TryError>) { if v >= 0 && v <= (u16::MAX as i32) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<i32> for u32 {
    open spec fn try_spec(v: i32) -> Option<u32> { if v >= 0 { Some(v as u32) } else { None } }
    fn try_from(v: i32) -> (r: Result<u32, TryError>) { if v >= 0 { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<i32> for u64 {
    open spec fn try_spec(v: i32) -> Option<u64> { if v >= 0 { Some(v as u64) } else { None } }
    fn try_from(v: i32) -> (r: Result<u64, TryError>) { if v >= 0 { Ok(v as u64) } else { Err(TryError) } }
}
impl TryFrom<i32> for usize {
    open spec fn try_spec(v: i32) -> Option<usize> { if v >= 0 { Some(v as usize) } else { None } }
    fn try_from(v: i32) -> (r: Result<usize, TryError>) { if v >= 0 { Ok(v as usize) } else { Err(TryError) } }
}
impl TryFrom<i32> for i8 {
    open spec fn try_spec(v: i32) -> Option<i8> { if v >= i8::MIN && v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: i32) -> (r: Result<i8, TryError>) { if v >= (i8::MIN as i32) && v <= (i8::MAX as i32) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<i32> for i16 {
    open spec fn try_spec(v: i32) -> Option<i16> { if v >= i16::MIN && v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: i32) -> (r: Result<i16, TryError>) { if v >= (i16::MIN as i32) && v <= (i16::MAX as i32) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<i32> for i64 {
    open spec fn try_spec(v: i32) -> Option<i64> { Some(v as i64) }
    fn try_from(v: i32) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl TryFrom<i32> for isize {
    open spec fn try_spec(v: i32) -> Option<isize> { Some(v as isize) }
    fn try_from(v: i32) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<i64> for u8 {
    open spec fn try_spec(v: i64) -> Option<u8> { if v >= 0 && v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: i64) -> (r: Result<u8, TryError>) { if v >= 0 && v <= (u8::MAX as i64) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<i64> for u16 {
    open spec fn try_spec(v: i64) -> Option<u16> { if v >= 0 && v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: i64) -> (r: Result<u16, TryError>) { if v >= 0 && v <= (u16::MAX as i64) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<i64> for u32 {
    open spec fn try_spec(v: i64) -> Option<u32> { if v >= 0 && v <= u32::MAX { Some(v as u32) } else { None } }
    fn try_from(v: i64) -> (r: Result<u32, TryError>) { if v >= 0 && v <= (u32::MAX as i64) { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<i64> for u64 {
    open spec fn try_spec(v: i64) -> Option<u64> { if v >= 0 { Some(v as u64) } else { None } }
    fn try_from(v: i64) -> (r: Result<u64, TryError>) { if v >= 0 { Ok(v as u64) } else { Err(TryError) } }
}
impl TryFrom<i64> for usize {
    open spec fn try_spec(v: i64) -> Option<usize> { if v >= 0 { Some(v as usize) } else { None } }
    fn try_from(v: i64) -> (r: Result<usize, TryError>) { if v >= 0 { Ok(v as usize) } else { Err(TryError) } }
}
impl TryFrom<i64> for i8 {
    open spec fn try_spec(v: i64) -> Option<i8> { if v >= i8::MIN && v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: i64) -> (r: Result<i8, TryError>) { if v >= (i8::MIN as i64) && v <= (i8::MAX as i64) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<i64> for i16 {
    open spec fn try_spec(v: i64) -> Option<i16> { if v >= i16::MIN && v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: i64) -> (r: Result<i16, TryError>) { if v >= (i16::MIN as i64) && v <= (i16::MAX as i64) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<i64> for i32 {
    open spec fn try_spec(v: i64) -> Option<i32> { if v >= i32::MIN && v <= i32::MAX { Some(v as i32) } else { None } }
    fn try_from(v: i64) -> (r: Result<i32, TryError>) { if v >= (i32::MIN as i64) && v <= (i32::MAX as i64) { Ok(v as i32) } else { Err(TryError) } }
}
impl TryFrom<i64> for isize {
    open spec fn try_spec(v: i64) -> Option<isize> { Some(v as isize) }
    fn try_from(v: i64) -> (r: Result<isize, TryError>) { Ok(v as isize) }
}
impl TryFrom<isize> for u8 {
    open spec fn try_spec(v: isize) -> Option<u8> { if v >= 0 && v <= u8::MAX { Some(v as u8) } else { None } }
    fn try_from(v: isize) -> (r: Result<u8, TryError>) { if v >= 0 && v <= (u8::MAX as isize) { Ok(v as u8) } else { Err(TryError) } }
}
impl TryFrom<isize> for u16 {
    open spec fn try_spec(v: isize) -> Option<u16> { if v >= 0 && v <= u16::MAX { Some(v as u16) } else { None } }
    fn try_from(v: isize) -> (r: Result<u16, TryError>) { if v >= 0 && v <= (u16::MAX as isize) { Ok(v as u16) } else { Err(TryError) } }
}
impl TryFrom<isize> for u32 {
    open spec fn try_spec(v: isize) -> Option<u32> { if v >= 0 && v <= u32::MAX { Some(v as u32) } else { None } }
    fn try_from(v: isize) -> (r: Result<u32, TryError>) { if v >= 0 && v <= (u32::MAX as isize) { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<isize> for u64 {
    open spec fn try_spec(v: isize) -> Option<u64> { if v >= 0 { Some(v as u64) } else { None } }
    fn try_from(v: isize) -> (r: Result<u64, TryError>) { if v >= 0 { Ok(v as u64) } else { Err(TryError) } }
}
impl TryFrom<isize> for usize {
    open spec fn try_spec(v: isize) -> Option<usize> { if v >= 0 { Some(v as usize) } else { None } }
    fn try_from(v: isize) -> (r: Result<usize, TryError>) { if v >= 0 { Ok(v as usize) } else { Err(TryError) } }
}
impl TryFrom<isize> for i8 {
    open spec fn try_spec(v: isize) -> Option<i8> { if v >= i8::MIN && v <= i8::MAX { Some(v as i8) } else { None } }
    fn try_from(v: isize) -> (r: Result<i8, TryError>) { if v >= (i8::MIN as isize) && v <= (i8::MAX as isize) { Ok(v as i8) } else { Err(TryError) } }
}
impl TryFrom<isize> for i16 {
    open spec fn try_spec(v: isize) -> Option<i16> { if v >= i16::MIN && v <= i16::MAX { Some(v as i16) } else { None } }
    fn try_from(v: isize) -> (r: Result<i16, TryError>) { if v >= (i16::MIN as isize) && v <= (i16::MAX as isize) { Ok(v as i16) } else { Err(TryError) } }
}
impl TryFrom<isize> for i32 {
    open spec fn try_spec(v: isize) -> Option<i32> { if v >= i32::MIN && v <= i32::MAX { Some(v as i32) } else { None } }
    fn try_from(v: isize) -> (r: Result<i32, TryError>) { if v >= (i32::MIN as isize) && v <= (i32::MAX as isize) { Ok(v as i32) } else { Err(TryError) } }
}
impl TryFrom<isize> for i64 {
    open spec fn try_spec(v: isize) -> Option<i64> { Some(v as i64) }
    fn try_from(v: isize) -> (r: Result<i64, TryError>) { Ok(v as i64) }
}
impl From<Bytes> for Vec<u8> {
    open spec fn from_spec(v: Bytes) -> Vec<u8> { mk_vec(v@) }
    #[verifier::external_body]
    fn from(v: Bytes) -> (r: Vec<u8>) { unimplemented!() }
}
impl From<String> for Vec<u8> {
    open spec fn from_spec(v: String) -> Vec<u8> { mk_vec(encode_utf8(v@)) }
    #[verifier::external_body]
    fn from(v: String) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait Drain_ {
    type Item;
    spec fn drained(self, got: Seq<Self::Item>, after: Self) -> bool;
    // of the whole
    fn drain_(&mut self) -> (r: IntoIter<Self::Item>) ensures old(self).drained(r@, *final(self));
}
impl<T> Drain_ for Vec<T> {
    type Item = T;
    open spec fn drained(self, got: Seq<T>, after: Vec<T>) -> bool { got == self@ && after@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn drain_(&mut self) -> (r: IntoIter<T>) { unimplemented!() }
}
} // mod
