// What the verified code uses of the standard library and of other crates.
// Every `external_body` and `axiom` here is trusted (see DESIGN.md).
pub mod shim {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
pub use crate::shim_agent::*;
pub use crate::shim_std::*;

// A usize has 64 bits.
global size_of usize == 8;

// ---------------------------------------------------------------- values
// A String is its content.
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_string(s: Seq<char>)
    requires encode_utf8(s).len() <= isize::MAX
    ensures (#[trigger] mk_string(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_string_ext(s: String)
    ensures mk_string(#[trigger] s@) == s;
pub uninterp spec fn mk_str(s: Seq<char>) -> &'static str;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_str(s: Seq<char>)
    requires encode_utf8(s).len() <= isize::MAX
    ensures (#[trigger] mk_str(s))@ == s;
// No object has more than isize::MAX bytes.
#[verifier::external_body]
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures encode_utf8(#[trigger] s@).len() <= isize::MAX;
#[verifier::external_body]
pub broadcast axiom fn axiom_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX;
#[verifier::external_body]
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [std::string::String::from_utf8] (v: std::vec::Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8(r->Ok_0@) == v@, r is Ok ==> r->Ok_0@ == decode_utf8(v@);

#[verifier::external_body]
pub struct Bytes { d: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn mk_bytes(s: Seq<u8>) -> Bytes;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_bytes(s: Seq<u8>)
    requires s.len() <= isize::MAX
    ensures (#[trigger] mk_bytes(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_bytes_ext(b: Bytes)
    ensures mk_bytes(#[trigger] b@) == b, b@.len() <= isize::MAX;
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
}
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() }
}

#[verifier::external_body]
pub struct BytesMut { d: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroed(n: usize) -> (r: BytesMut) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: u8)
        ensures final(self)@.len() == n,
            forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { v }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32_at(&mut self, lo: usize, hi: usize, v: u32)
        requires lo + 4 <= hi <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(lo as int) + crate::spec::e_u32(v) + old(self)@.skip(lo + 4)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}

// ---------------------------------------------------------------- addresses
#[verifier::external_body]
pub struct Ipv4Addr { d: u32 }
impl Ipv4Addr {
    pub uninterp spec fn o(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn octets(&self) -> (r: [u8; 4]) ensures r@ == self.o() { unimplemented!() }
}
#[verifier::external_body]
pub struct Ipv6Addr { d: u128 }
impl Ipv6Addr {
    pub uninterp spec fn o(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn octets(&self) -> (r: [u8; 16]) ensures r@ == self.o() { unimplemented!() }
}
pub uninterp spec fn mk_v4(s: Seq<u8>) -> Ipv4Addr;
pub uninterp spec fn mk_v6(s: Seq<u8>) -> Ipv6Addr;
#[verifier::external_body]
pub broadcast axiom fn axiom_v4(a: Ipv4Addr) ensures (#[trigger] a.o()).len() == 4, mk_v4(a.o()) == a;
#[verifier::external_body]
pub broadcast axiom fn axiom_v6(a: Ipv6Addr) ensures (#[trigger] a.o()).len() == 16, mk_v6(a.o()) == a;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_v4(s: Seq<u8>) requires s.len() == 4 ensures (#[trigger] mk_v4(s)).o() == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_v6(s: Seq<u8>) requires s.len() == 16 ensures (#[trigger] mk_v6(s)).o() == s;
impl From<[u8; 4]> for Ipv4Addr {
    open spec fn from_spec(v: [u8; 4]) -> Self { mk_v4(v@) }
    #[verifier::external_body]
    fn from(v: [u8; 4]) -> (r: Self) { unimplemented!() }
}
impl From<[u8; 16]> for Ipv6Addr {
    open spec fn from_spec(v: [u8; 16]) -> Self { mk_v6(v@) }
    #[verifier::external_body]
    fn from(v: [u8; 16]) -> (r: Self) { unimplemented!() }
}
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }

// ---------------------------------------------------------------- conversions
pub trait From<T>: Sized {
    spec fn from_spec(v: T) -> Self;
    // It does not return where there is no room for the result.
    open spec fn room(v: T) -> bool { true }
    fn from(v: T) -> (r: Self) ensures r == Self::from_spec(v), Self::room(v);
}
pub trait Into<T>: Sized {
    spec fn into_spec(self) -> T;
    spec fn into_room(self) -> bool;
    fn into(self) -> (r: T) ensures r == self.into_spec(), self.into_room();
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn into_spec(self) -> U { U::from_spec(self) }
    open spec fn into_room(self) -> bool { U::room(self) }
    fn into(self) -> (r: U) { U::from(self) }
}
impl<T> From<T> for T {
    open spec fn from_spec(v: T) -> T { v }
    open spec fn room(v: T) -> bool { true }
    fn from(v: T) -> (r: T) { v }
}
impl<'a> From<&'a str> for String {
    open spec fn from_spec(v: &'a str) -> String { mk_string(v@) }
    #[verifier::external_body]
    fn from(v: &'a str) -> (r: String) { unimplemented!() }
}
impl<'a> From<&'a String> for String {
    open spec fn from_spec(v: &'a String) -> String { *v }
    #[verifier::external_body]
    fn from(v: &'a String) -> (r: String) { unimplemented!() }
}
impl From<Vec<u8>> for Bytes {
    open spec fn from_spec(v: Vec<u8>) -> Bytes { mk_bytes(v@) }
    #[verifier::external_body]
    fn from(v: Vec<u8>) -> (r: Bytes) { unimplemented!() }
}
impl From<Box<[u8]>> for Bytes {
    open spec fn from_spec(v: Box<[u8]>) -> Bytes { mk_bytes((*v)@) }
    #[verifier::external_body]
    fn from(v: Box<[u8]>) -> (r: Bytes) { unimplemented!() }
}
pub struct TryError;
pub trait TryFrom<T>: Sized {
    spec fn try_spec(v: T) -> Option<Self>;
    fn try_from(v: T) -> (r: Result<Self, TryError>)
        ensures match Self::try_spec(v) { Some(x) => r == Ok::<Self, TryError>(x), None => r is Err };
}
impl TryFrom<u64> for u32 {
    open spec fn try_spec(v: u64) -> Option<u32> { if v <= u32::MAX { Some(v as u32) } else { None } }
    fn try_from(v: u64) -> (r: Result<u32, TryError>) { if v <= 0xffff_ffff { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<usize> for u32 {
    open spec fn try_spec(v: usize) -> Option<u32> { if v <= u32::MAX { Some(v as u32) } else { None } }
    fn try_from(v: usize) -> (r: Result<u32, TryError>) { if v <= 0xffff_ffff { Ok(v as u32) } else { Err(TryError) } }
}
impl TryFrom<u64> for usize {
    open spec fn try_spec(v: u64) -> Option<usize> { Some(v as usize) }
    fn try_from(v: u64) -> (r: Result<usize, TryError>) { Ok(v as usize) }
}
impl TryFrom<usize> for u8 {
    open spec fn try_spec(v: usize) -> Option<u8> { if v <= 255 { Some(v as u8) } else { None } }
    fn try_from(v: usize) -> (r: Result<u8, TryError>) { if v <= 255 { Ok(v as u8) } else { Err(TryError) } }
}
impl From<u8> for u64 {
    open spec fn from_spec(v: u8) -> u64 { v as u64 }
    fn from(v: u8) -> (r: u64) { v as u64 }
}
impl From<u32> for u64 {
    open spec fn from_spec(v: u32) -> u64 { v as u64 }
    fn from(v: u32) -> (r: u64) { v as u64 }
}
impl From<u8> for usize {
    open spec fn from_spec(v: u8) -> usize { v as usize }
    fn from(v: u8) -> (r: usize) { v as usize }
}
pub trait TryFromPrimitive: Sized {
    type Primitive;
    spec fn prim(n: Self::Primitive) -> Option<Self>;
    fn try_from_primitive(n: Self::Primitive) -> (r: Result<Self, TryError>)
        ensures match Self::prim(n) { Some(x) => r == Ok::<Self, TryError>(x), None => r is Err };
}
pub trait AsRef<T: ?Sized> {
    spec fn ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.ref_spec();
}
pub uninterp spec fn string_str(s: &String) -> &str;
#[verifier::external_body]
pub broadcast axiom fn axiom_string_str(s: &String) ensures (#[trigger] string_str(s))@ == s@;
pub uninterp spec fn bytes_slice(s: &Bytes) -> &[u8];
#[verifier::external_body]
pub broadcast axiom fn axiom_bytes_slice(s: &Bytes) ensures (#[trigger] bytes_slice(s))@ == s@;
pub uninterp spec fn str_slice(s: &str) -> &[u8];
#[verifier::external_body]
pub broadcast axiom fn axiom_str_slice(s: &str) ensures (#[trigger] str_slice(s))@ == encode_utf8(s@);
impl AsRef<str> for str {
    open spec fn ref_spec(&self) -> &str { self }
    fn as_ref(&self) -> (r: &str) { self }
}
impl<'a> AsRef<str> for &'a str {
    open spec fn ref_spec(&self) -> &str { *self }
    fn as_ref(&self) -> (r: &str) { *self }
}
impl AsRef<str> for String {
    open spec fn ref_spec(&self) -> &str { string_str(self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> AsRef<str> for &'a String {
    open spec fn ref_spec(&self) -> &str { string_str(*self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl AsRef<[u8]> for [u8] {
    open spec fn ref_spec(&self) -> &[u8] { self }
    fn as_ref(&self) -> (r: &[u8]) { self }
}
impl<'a> AsRef<[u8]> for &'a [u8] {
    open spec fn ref_spec(&self) -> &[u8] { *self }
    fn as_ref(&self) -> (r: &[u8]) { *self }
}
impl AsRef<[u8]> for Bytes {
    open spec fn ref_spec(&self) -> &[u8] { bytes_slice(self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
// &x[..]
pub trait AsSlice {
    type Item;
    spec fn slice_spec(&self) -> Seq<Self::Item>;
    fn as_slice_(&self) -> (r: &[Self::Item]) ensures r@ == self.slice_spec();
}
impl<T, const N: usize> AsSlice for [T; N] {
    type Item = T;
    open spec fn slice_spec(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn as_slice_(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> AsSlice for [T] {
    type Item = T;
    open spec fn slice_spec(&self) -> Seq<T> { self@ }
    fn as_slice_(&self) -> (r: &[T]) { self }
}
impl AsSlice for Bytes {
    type Item = u8;
    open spec fn slice_spec(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_slice_(&self) -> (r: &[u8]) { unimplemented!() }
}
impl<T> AsSlice for Vec<T> {
    type Item = T;
    open spec fn slice_spec(&self) -> Seq<T> { self@ }
    fn as_slice_(&self) -> (r: &[T]) { self.as_slice() }
}
// <[u8; N]>::try_from(slice).unwrap()
#[verifier::external_body]
pub struct Array { d: Vec<u8> }
impl View for Array { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn array_from_slice(s: &[u8], n: usize) -> (r: Array)
    requires s@.len() == n
    ensures r@ == s@
{ unimplemented!() }
impl From<Array> for Ipv4Addr {
    open spec fn from_spec(v: Array) -> Self { mk_v4(v@) }
    #[verifier::external_body]
    fn from(v: Array) -> (r: Self) { unimplemented!() }
}
impl From<Array> for Ipv6Addr {
    open spec fn from_spec(v: Array) -> Self { mk_v6(v@) }
    #[verifier::external_body]
    fn from(v: Array) -> (r: Self) { unimplemented!() }
}
// Panics: must not be reachable.
#[verifier::external_body]
pub fn diverge<T>() -> (r: T)
    requires false
{ unimplemented!() }
// A branch of a select! is waited for no more, as its pattern did not fit.
#[verifier::external_body]
pub fn branch_lost()
    requires false
{ unimplemented!() }
// Any choice may be made.
#[verifier::external_body]
pub fn choose(k: u8) -> (r: bool) { unimplemented!() }
pub trait Cloned: Sized {
    type Out;
    spec fn cloned_spec(self) -> Self::Out;
    fn cloned_(self) -> (r: Self::Out) ensures r == self.cloned_spec();
}
impl<'a, T: Copy> Cloned for &'a T {
    type Out = T;
    open spec fn cloned_spec(self) -> T { *self }
    fn cloned_(self) -> (r: T) { *self }
}
pub fn cloned<T: Cloned>(x: T) -> (r: T::Out) ensures r == x.cloned_spec() { x.cloned_() }

pub trait Default: Sized {
    spec fn default_spec() -> Self;
    fn default() -> (r: Self) ensures r == Self::default_spec();
}
impl Default for u32 { open spec fn default_spec() -> u32 { 0 } fn default() -> (r: u32) { 0 } }
impl Default for u64 { open spec fn default_spec() -> u64 { 0 } fn default() -> (r: u64) { 0 } }
impl Default for usize { open spec fn default_spec() -> usize { 0 } fn default() -> (r: usize) { 0 } }
impl Default for bool { open spec fn default_spec() -> bool { false } fn default() -> (r: bool) { false } }
impl<T> Default for Vec<T> {
    open spec fn default_spec() -> Vec<T> { mk_vec(Seq::empty()) }
    #[verifier::external_body]
    fn default() -> (r: Vec<T>) { unimplemented!() }
}
impl Default for u8 { open spec fn default_spec() -> u8 { 0 } fn default() -> (r: u8) { 0 } }
impl Default for String {
    open spec fn default_spec() -> String { mk_string(Seq::empty()) }
    #[verifier::external_body]
    fn default() -> (r: String) { unimplemented!() }
}
pub trait UnwrapOr<T> {
    spec fn unwrap_or_spec(self, d: T) -> T;
    fn unwrap_or_(self, d: T) -> (r: T) ensures r == self.unwrap_or_spec(d);
}
impl<T> UnwrapOr<T> for Option<T> {
    open spec fn unwrap_or_spec(self, d: T) -> T { match self { Some(v) => v, None => d } }
    fn unwrap_or_(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
}
impl<T, E> UnwrapOr<T> for Result<T, E> {
    open spec fn unwrap_or_spec(self, d: T) -> T { match self { Ok(v) => v, Err(_) => d } }
    fn unwrap_or_(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } }
}
pub trait SizeOf {
    spec fn size_spec() -> nat;
    fn size() -> (r: usize) ensures r == Self::size_spec();
}
impl SizeOf for u8 { open spec fn size_spec() -> nat { 1 } fn size() -> (r: usize) { 1 } }
impl SizeOf for u16 { open spec fn size_spec() -> nat { 2 } fn size() -> (r: usize) { 2 } }
impl SizeOf for u32 { open spec fn size_spec() -> nat { 4 } fn size() -> (r: usize) { 4 } }
impl SizeOf for u64 { open spec fn size_spec() -> nat { 8 } fn size() -> (r: usize) { 8 } }
pub mod mem {
    #[allow(unused_imports)]
    use vstd::prelude::*;
    pub fn size_of<T: super::SizeOf>() -> (r: usize) ensures r == T::size_spec() { T::size() }
    #[verifier::external_body]
    pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { unimplemented!() }
}
pub trait Display {
    spec fn disp(&self) -> Seq<char>;
    fn to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl Display for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl Display for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'a, T: Display + ?Sized> Display for &'a T {
    open spec fn disp(&self) -> Seq<char> { (*self).disp() }
    fn to_string(&self) -> (r: String) { (*self).to_string() }
}
pub enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> AsRef<str> for Cow<'a, str> {
    open spec fn ref_spec(&self) -> &str { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => string_str(s) } }
    fn as_ref(&self) -> (r: &str) { match self { Cow::Borrowed(s) => *s, Cow::Owned(s) => AsRef::as_ref(s) } }
}
impl<'a> From<&'a str> for Cow<'a, str> {
    open spec fn from_spec(s: &'a str) -> Self { Cow::Borrowed(s) }
    fn from(s: &'a str) -> (r: Self) { Cow::Borrowed(s) }
}
impl<'a> From<String> for Cow<'a, str> {
    open spec fn from_spec(s: String) -> Self { Cow::Owned(s) }
    fn from(s: String) -> (r: Self) { Cow::Owned(s) }
}
pub trait BitOr: Sized {
    spec fn or_spec(self, o: Self) -> Self;
    fn bitor(self, o: Self) -> (r: Self) ensures r == self.or_spec(o);
}

// ---------------------------------------------------------------- bytes
pub trait Buf {
    spec fn rem(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.rem().len();
    fn has_remaining(&self) -> (r: bool) ensures r == (self.rem().len() > 0);
    fn get_u8(&mut self) -> (r: u8)
        requires old(self).rem().len() > 0
        ensures r == old(self).rem()[0], final(self).rem() == old(self).rem().skip(1);
    fn get_u32(&mut self) -> (r: u32)
        requires old(self).rem().len() >= 4
        ensures r == crate::spec::d_u32(old(self).rem()), final(self).rem() == old(self).rem().skip(4);
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires old(self).rem().len() >= n
        ensures r@ == old(self).rem().take(n as int), final(self).rem() == old(self).rem().skip(n as int);
    fn advance(&mut self, n: usize)
        requires old(self).rem().len() >= n
        ensures final(self).rem() == old(self).rem().skip(n as int);
    fn chunk(&self) -> (r: &[u8])
        ensures r@.len() <= self.rem().len(), r@ == self.rem().take(r@.len() as int), self.rem().len() > 0 ==> r@.len() > 0;
}
impl Buf for Bytes {
    open spec fn rem(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn has_remaining(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn get_u8(&mut self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    fn get_u32(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
}
// A buffer that can grow. It never holds more than isize::MAX bytes: the
// allocation would fail first, and the call not return.
pub trait BufMut {
    spec fn out(&self) -> Seq<u8>;
    fn put_u8(&mut self, b: u8)
        ensures final(self).out() == old(self).out().push(b), final(self).out().len() <= isize::MAX;
    fn put_u32(&mut self, n: u32)
        ensures final(self).out() == old(self).out() + crate::spec::e_u32(n), final(self).out().len() <= isize::MAX;
    fn put_slice<S: AsSlice<Item = u8> + ?Sized>(&mut self, b: &S)
        ensures final(self).out() == old(self).out() + b.slice_spec(), final(self).out().len() <= isize::MAX;
}
impl BufMut for BytesMut {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn put_u8(&mut self, b: u8) { unimplemented!() }
    #[verifier::external_body]
    fn put_u32(&mut self, n: u32) { unimplemented!() }
    #[verifier::external_body]
    fn put_slice<S: AsSlice<Item = u8> + ?Sized>(&mut self, b: &S) { unimplemented!() }
}

// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IntoIter<T> { v: Vec<T> }
impl<T> View for IntoIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> IntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
pub broadcast axiom fn axiom_iter_len<T>(i: IntoIter<T>) ensures (#[trigger] i@).len() <= usize::MAX;
pub uninterp spec fn mk_iter<T>(s: Seq<T>) -> IntoIter<T>;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_iter<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] mk_iter(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_iter_ext<T>(i: IntoIter<T>) ensures mk_iter(#[trigger] i@) == i;
pub trait IntoIterator: Sized {
    type Item;
    // The items, in the order in which they come.
    spec fn seq(self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: IntoIter<Self::Item>) ensures r@ == self.seq();
}
impl<T> IntoIterator for IntoIter<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { self@ }
    fn into_iter(self) -> (r: IntoIter<T>) { self }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<T>) { unimplemented!() }
}
impl<T, const N: usize> IntoIterator for [T; N] {
    type Item = T;
    open spec fn seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<T>) { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
impl<'a, T> IntoIterator for &'a [T] {
    type Item = &'a T;
    open spec fn seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    open spec fn seq(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
pub trait Iterable {
    type Item;
    spec fn iter_seq(&self) -> Seq<Self::Item>;
    fn iter_<'a>(&'a self) -> (r: IntoIter<&'a Self::Item>) ensures r@ == refs::<Self::Item>(self.iter_seq());
}
impl<T> Iterable for Vec<T> {
    type Item = T;
    open spec fn iter_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: IntoIter<&'a T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn rev<I: IntoIterator>(i: I) -> (r: IntoIter<I::Item>) ensures r@ == i.seq().reverse() { unimplemented!() }
pub trait FromIterator<T>: Sized {
    spec fn from_iter_spec(s: Seq<T>) -> Self;
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Self) ensures r == Self::from_iter_spec(iter.seq());
}
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_vec<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] mk_vec(s))@ == s;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_vec_ext<T>(v: Vec<T>) ensures mk_vec(#[trigger] v@) == v;
impl<T> FromIterator<T> for Vec<T> {
    open spec fn from_iter_spec(s: Seq<T>) -> Vec<T> { mk_vec(s) }
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Vec<T>) { unimplemented!() }
}
pub trait Extend<T>: Sized {
    spec fn extended(self, s: Seq<T>, after: Self) -> bool;
    fn extend_<I: IntoIterator<Item = T>>(&mut self, iter: I) ensures old(self).extended(iter.seq(), *final(self));
}
impl<T> Extend<T> for Vec<T> {
    open spec fn extended(self, s: Seq<T>, after: Vec<T>) -> bool { after@ == self@ + s }
    #[verifier::external_body]
    fn extend_<I: IntoIterator<Item = T>>(&mut self, iter: I) { unimplemented!() }
}

// ---------------------------------------------------------------- text
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![('0' as u8 + n) as u8 as char] } else { dec(n / 10) + seq![('0' as u8 + n % 10) as u8 as char] }
}
impl Display for u8 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl Display for u32 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl Display for u64 {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl Display for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
pub struct ParseError;
pub trait FromStr: Sized {
    spec fn parse_spec(s: Seq<char>) -> Option<Self>;
    fn parse_(s: &str) -> (r: Result<Self, ParseError>)
        ensures match Self::parse_spec(s@) { Some(v) => r == Ok::<Self, ParseError>(v), None => r is Err };
}
pub trait Text {
    spec fn text(&self) -> Seq<char>;
}
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a, T: Text + ?Sized> Text for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
#[verifier::external_body]
pub fn parse<T: FromStr, S: Text + ?Sized>(s: &S) -> (r: Result<T, ParseError>)
    ensures match T::parse_spec(s.text()) { Some(v) => r == Ok::<T, ParseError>(v), None => r is Err }
{ unimplemented!() }
pub open spec fn join(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { Seq::empty() }
    else if l.len() == 1 { l[0] }
    else { l[0] + sep + join(l.skip(1), sep) }
}
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s[0] == c { seq![Seq::<char>::empty()] + split(s.skip(1), c) }
    else { let r = split(s.skip(1), c); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
// Removing white space at both ends.
pub uninterp spec fn is_space(c: char) -> bool;
#[verifier::external_body]
pub broadcast axiom fn axiom_space(c: char)
    ensures #[trigger] is_space(c) ==> c == ' ' || ('\t' <= c && c <= '\r') || c as u32 >= 0x80;
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_space(s[0]) { trim_start(s.skip(1)) } else { s }
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_space(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn texts<T: Text>(l: Seq<T>) -> Seq<Seq<char>> { l.map_values(|s: T| s.text()) }
#[verifier::external_body]
pub fn str_join<T: Text>(v: &Vec<T>, sep: &str) -> (r: String) ensures r@ == join(texts(v@), sep@), encode_utf8(r@).len() <= isize::MAX { unimplemented!() }
pub trait StrOps {
    spec fn chars_(&self) -> Seq<char>;
    fn split_<'a>(&'a self, c: char) -> (r: IntoIter<&'a str>) ensures texts(r@) == split(self.chars_(), c);
    fn trim_<'a>(&'a self) -> (r: &'a str) ensures r@ == trim(self.chars_());
}
impl StrOps for str {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn split_<'a>(&'a self, c: char) -> (r: IntoIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn trim_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
}
impl StrOps for String {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn split_<'a>(&'a self, c: char) -> (r: IntoIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn trim_<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
}

// ---------------------------------------------------------------- maps
// What makes keys equal.
pub trait KeyOf {
    type K;
    spec fn key(&self) -> Self::K;
}
impl KeyOf for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl KeyOf for str { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { d: Vec<(K, V)> }
impl<K: KeyOf, V> View for HashMap<K, V> { type V = Map<K::K, V>; uninterp spec fn view(&self) -> Map<K::K, V>; }
impl<K: KeyOf, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn remove<Q: KeyOf<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(k.key()),
            r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.key(), v),
            r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: KeyOf<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.key()) && *v == self@[k.key()], None => !self@.dom().contains(k.key()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: KeyOf<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
}
// A map in order: what holds in every order holds in this one.
pub type BTreeMap<K, V> = HashMap<K, V>;
// The last of those with the same key counts.
pub open spec fn of_pairs<K: KeyOf, V>(s: Seq<(K, V)>) -> Map<K::K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { of_pairs(s.drop_last()).insert(s.last().0.key(), s.last().1) }
}
pub uninterp spec fn mk_map<K: KeyOf, V>(m: Map<K::K, V>) -> HashMap<K, V>;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_map<K: KeyOf, V>(m: Map<K::K, V>) ensures (#[trigger] mk_map::<K, V>(m))@ == m;
impl<K: KeyOf, V> FromIterator<(K, V)> for HashMap<K, V> {
    open spec fn from_iter_spec(s: Seq<(K, V)>) -> Self { mk_map(of_pairs(s)) }
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> (r: Self) { unimplemented!() }
}

// DashMap, as one task sees it.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { d: Vec<(K, V)> }
impl<K, V> View for DashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some((*k, old(self)@[*k])) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn take_(&mut self, k: K) -> (r: V)
        requires old(self)@.dom().contains(k)
        ensures final(self)@ == old(self)@.remove(k), r == old(self)@[k]
    { unimplemented!() }
    #[verifier::external_body]
    fn at_<'a>(&'a self, k: &K) -> (r: &'a V)
        requires self@.dom().contains(*k)
        ensures *r == self@[*k]
    { unimplemented!() }
    #[verifier::external_body]
    fn at_mut_<'a>(&'a mut self, k: &K) -> (r: &'a mut V)
        requires old(self)@.dom().contains(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    fn put_at_<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.dom().contains(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
        }
    {
        if self.contains_key(&k) { Entry::Occupied(OccupiedEntry { map: self, key: k }) } else { Entry::Vacant(VacantEntry { map: self, key: k }) }
    }
}
impl<K, V> Default for DashMap<K, V> {
    open spec fn default_spec() -> Self { mk_dash(Map::empty()) }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
pub uninterp spec fn mk_dash<K, V>(m: Map<K, V>) -> DashMap<K, V>;
#[verifier::external_body]
pub broadcast axiom fn axiom_mk_dash<K, V>(m: Map<K, V>) ensures (#[trigger] mk_dash::<K, V>(m))@ == m;
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> (r: &V)
        requires old(self.map)@.dom().contains(self.key)
        ensures *r == old(self.map)@[self.key]
    { self.map.at_(&self.key) }
    pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).map@.dom().contains(old(self).key)
        ensures *r == old(self).map@[old(self).key], final(self).map@ == old(self).map@.insert(old(self).key, *final(r)),
            final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map)
    { self.map.at_mut_(&self.key) }
    pub fn insert(&mut self, v: V) -> (r: V)
        requires old(self).map@.dom().contains(old(self).key)
        ensures r == old(self).map@[old(self).key], final(self).map@ == old(self).map@.insert(old(self).key, v),
            final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map)
    { mem::replace(self.map.at_mut_(&self.key), v) }
    pub fn into_ref(self) -> (r: &'a mut V)
        requires old(self.map)@.dom().contains(self.key)
        ensures *r == old(self.map)@[self.key], final(self.map)@ == old(self.map)@.insert(self.key, *final(r))
    { self.map.at_mut_(&self.key) }
    pub fn remove(self) -> (r: V)
        requires old(self.map)@.dom().contains(self.key)
        ensures r == old(self.map)@[self.key], final(self.map)@ == old(self.map)@.remove(self.key)
    { self.map.take_(self.key) }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r))
    { self.map.put_at_(self.key, v) }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub open spec fn map_(self) -> &'a mut DashMap<K, V> { match self { Entry::Occupied(e) => e.map, Entry::Vacant(e) => e.map } }
    pub open spec fn key_(self) -> K { match self { Entry::Occupied(e) => e.key, Entry::Vacant(e) => e.key } }
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        requires self is Occupied ==> self.map_()@.dom().contains(self.key_())
        ensures *r == (match self { Entry::Occupied(e) => e.map@[e.key], Entry::Vacant(_) => v }),
            final(self.map_())@ == self.map_()@.insert(self.key_(), *final(r))
    { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_default(self) -> (r: &'a mut V) where V: Default
        requires self is Occupied ==> self.map_()@.dom().contains(self.key_())
        ensures *r == (match self { Entry::Occupied(e) => e.map@[e.key], Entry::Vacant(_) => V::default_spec() }),
            final(self.map_())@ == self.map_()@.insert(self.key_(), *final(r))
    { self.or_insert(V::default()) }
}

// ---------------------------------------------------------------- streams
// rx: the bytes that still come before the stream ends or breaks;
// tx: the bytes written so far.
pub struct IoError;
pub trait Stream_ {
    spec fn rx(&self) -> Seq<u8>;
    spec fn tx(&self) -> Seq<u8>;
    // writing failed
    spec fn broken(&self) -> bool;
}
pub open spec fn suffix(a: Seq<u8>, b: Seq<u8>) -> bool { exists|n: int| 0 <= n <= a.len() && b == #[trigger] a.skip(n) }
pub trait AsyncRead: Stream_ {
    fn read_u32(&mut self) -> (r: Result<u32, IoError>)
        ensures
            final(self).tx() == old(self).tx(), final(self).broken() == old(self).broken(),
            old(self).rx().len() >= 4 ==> r == Ok::<u32, IoError>(crate::spec::d_u32(old(self).rx())) && final(self).rx() == old(self).rx().skip(4),
            old(self).rx().len() < 4 ==> r is Err && suffix(old(self).rx(), final(self).rx());
    fn read_exact(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>)
        ensures
            final(self).tx() == old(self).tx(), final(self).broken() == old(self).broken(),
            final(b)@.len() == old(b)@.len(),
            old(self).rx().len() >= old(b)@.len() ==> r == Ok::<usize, IoError>(old(b)@.len() as usize)
                && final(b)@ == old(self).rx().take(old(b)@.len() as int) && final(self).rx() == old(self).rx().skip(old(b)@.len() as int),
            old(self).rx().len() < old(b)@.len() ==> r is Err && suffix(old(self).rx(), final(self).rx());
    // some of the bytes, or none when there are no more
    fn read(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>)
        ensures
            final(self).tx() == old(self).tx(), final(self).broken() == old(self).broken(),
            final(b)@.len() == old(b)@.len(),
            match r {
                Ok(n) => n <= old(b)@.len() && n <= old(self).rx().len() && (n == 0 ==> old(b)@.len() == 0 || old(self).rx().len() == 0)
                    && final(b)@ == old(self).rx().take(n as int) + old(b)@.skip(n as int) && final(self).rx() == old(self).rx().skip(n as int),
                Err(_) => suffix(old(self).rx(), final(self).rx()),
            };
}
pub trait AsyncWrite: Stream_ {
    fn write_all<S: AsSlice<Item = u8> + ?Sized>(&mut self, b: &S) -> (r: Result<(), IoError>)
        ensures
            final(self).rx() == old(self).rx(), final(self).broken() == (old(self).broken() || r is Err),
            r is Ok ==> final(self).tx() == old(self).tx() + b.slice_spec(),
            r is Err ==> exists|n: int| 0 <= n <= b.slice_spec().len() && final(self).tx() == old(self).tx() + #[trigger] b.slice_spec().take(n);
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).rx() == old(self).rx(), final(self).tx() == old(self).tx(), final(self).broken() == (old(self).broken() || r is Err);
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BufReader<T> { t: T }
impl<T: Stream_> BufReader<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.rx() == t.rx(), r.tx() == t.tx(), r.broken() == t.broken(), r.around() == t { unimplemented!() }
}
impl<T> BufReader<T> {
    // the stream as it was when it was put in
    pub uninterp spec fn around(&self) -> T;
}
impl<T: Stream_> Stream_ for BufReader<T> {
    uninterp spec fn rx(&self) -> Seq<u8>;
    uninterp spec fn tx(&self) -> Seq<u8>;
    uninterp spec fn broken(&self) -> bool;
}
impl<T: AsyncRead> AsyncRead for BufReader<T> {
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, b: &mut BytesMut) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl<T: AsyncWrite> AsyncWrite for BufReader<T> {
    #[verifier::external_body]
    fn write_all<S: AsSlice<Item = u8> + ?Sized>(&mut self, b: &S) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}

pub broadcast group group_shim {
    axiom_mk_string, axiom_string_ext, axiom_mk_str, axiom_str_len, axiom_slice_len,
    axiom_mk_bytes, axiom_bytes_ext, axiom_v4, axiom_v6, axiom_mk_v4, axiom_mk_v6,
    axiom_string_str, axiom_bytes_slice, axiom_str_slice,
    axiom_iter_len, axiom_mk_iter, axiom_iter_ext, axiom_mk_vec, axiom_mk_vec_ext, axiom_mk_map, axiom_space, axiom_mk_dash,
}
}
