// Trusted prelude: specifications of the library types and functions the
// extracted code uses.  Everything in here that is `external_body`, `axiom` or
// `assume_specification` is an assumption; the evidence lists each of them.
pub mod vx {
use vstd::prelude::*;

global size_of usize == 8;

// ---------------------------------------------------------------- panics
#[verifier::external_body]
pub fn vx_unreachable() -> (ret: !)
    requires false,
{ panic!() }
pub fn vx_assert(b: bool)
    requires b,
{ }

// ---------------------------------------------------------------- core::mem, Option, str
pub assume_specification<T: std::default::Default> [std::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T> [std::mem::replace] (d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v;
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };

pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures *final(o) == Some(x), r == *old(o);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, x: T) -> (r: T)
    ensures r == (match o { Ok(y) => y, Err(_) => x });
pub assume_specification [i64::checked_neg] (x: i64) -> (r: Option<i64>)
    ensures r == (if x == i64::MIN { None::<i64> } else { Some((0 - x) as i64) });

/// The conversion made by `?` is the one of the `From` impl.
pub broadcast axiom fn axiom_try_from<T: From<S>, S>(e: S, f: T)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(e, f) ==> call_ensures(<T as From<S>>::from, (e,), f);
pub axiom fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX;
pub broadcast axiom fn axiom_vec_len(s: &Vec<u8>)
    ensures #[trigger] s@.len() <= isize::MAX;
/// The slice of some bytes (slices are what they contain).
pub uninterp spec fn slice_of<'a>(s: Seq<u8>) -> &'a [u8];
pub axiom fn axiom_slice_of<'a>(x: &'a [u8])
    ensures slice_of::<'a>(x@) == x;
pub broadcast axiom fn axiom_slice_view<'a>(s: Seq<u8>)
    requires s.len() <= isize::MAX,
    ensures (#[trigger] slice_of::<'a>(s))@ == s;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---------------------------------------------------------------- big endian numbers
#[verifier::opaque]
pub open spec fn be16(x: nat) -> Seq<u8> { seq![((x / 256) % 256) as u8, (x % 256) as u8] }
#[verifier::opaque]
pub open spec fn be32(x: nat) -> Seq<u8> {
    seq![((x / 0x1000000) % 256) as u8, ((x / 0x10000) % 256) as u8, ((x / 0x100) % 256) as u8, (x % 256) as u8]
}
#[verifier::opaque]
pub open spec fn un16(s: Seq<u8>) -> nat { (s[0] as nat * 256 + s[1] as nat) as nat }
#[verifier::opaque]
pub open spec fn un32(s: Seq<u8>) -> nat {
    (s[0] as nat * 0x1000000 + s[1] as nat * 0x10000 + s[2] as nat * 0x100 + s[3] as nat) as nat
}
pub uninterp spec fn be_i64(x: i64) -> Seq<u8>;
pub uninterp spec fn be_f64(x: f64) -> Seq<u8>;
pub uninterp spec fn un_i64(s: Seq<u8>) -> i64;
pub uninterp spec fn un_f64(s: Seq<u8>) -> f64;
pub broadcast axiom fn axiom_be_i64(x: i64)
    ensures #[trigger] be_i64(x).len() == 8, un_i64(be_i64(x)) == x;
pub broadcast axiom fn axiom_be_f64(x: f64)
    ensures #[trigger] be_f64(x).len() == 8, un_f64(be_f64(x)) == x;

pub broadcast proof fn lemma_be32_len(x: nat)
    ensures #[trigger] be32(x).len() == 4,
{ reveal(be32); }
pub broadcast proof fn lemma_be16_len(x: nat)
    ensures #[trigger] be16(x).len() == 2,
{ reveal(be16); }
pub broadcast group group_be { lemma_be32_len, lemma_be16_len }
pub broadcast proof fn lemma_un32_be32(x: nat)
    requires x < 0x1_0000_0000,
    ensures #[trigger] un32(be32(x)) == x, be32(x).len() == 4,
{
    reveal(be32); reveal(un32);
    assert(x / 0x1000000 < 256) by (nonlinear_arith) requires x < 0x1_0000_0000;
    assert(un32(be32(x)) == x) by {
        let a = x / 0x1000000; let b = (x / 0x10000) % 256; let c = (x / 0x100) % 256; let d = x % 256;
        assert(x == (x / 0x100) * 0x100 + d);
        assert(x / 0x100 == ((x / 0x100) / 0x100) * 0x100 + c);
        assert((x / 0x100) / 0x100 == x / 0x10000) by (nonlinear_arith);
        assert(x / 0x10000 == ((x / 0x10000) / 0x100) * 0x100 + b);
        assert((x / 0x10000) / 0x100 == a) by (nonlinear_arith) requires a == x / 0x1000000;
    }
}
pub broadcast proof fn lemma_un16_be16(x: nat)
    requires x < 0x1_0000,
    ensures #[trigger] un16(be16(x)) == x, be16(x).len() == 2,
{
    reveal(be16); reveal(un16);
    assert(x / 256 < 256) by (nonlinear_arith) requires x < 0x1_0000;
}
pub proof fn lemma_be32_un32(s: Seq<u8>)
    requires s.len() == 4,
    ensures be32(un32(s)) =~= s, un32(s) < 0x1_0000_0000,
{
    reveal(be32); reveal(un32);
    let x = un32(s);
    let (a, b, c, d) = (s[0] as nat, s[1] as nat, s[2] as nat, s[3] as nat);
    assert(x == a * 0x1000000 + b * 0x10000 + c * 0x100 + d);
    assert(x % 256 == d);
    assert((x / 0x100) % 256 == c);
    assert((x / 0x10000) % 256 == b);
    assert((x / 0x1000000) % 256 == a);
}
#[verifier::external_body]
pub fn vx_u8_from_be_bytes(b: [u8; 1]) -> (r: u8) ensures r == b@[0] { u8::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == un16(b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == un32(b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == un_i64(b@) { i64::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_f64_from_be_bytes(b: [u8; 8]) -> (r: f64) ensures r == un_f64(b@) { f64::from_be_bytes(b) }

pub trait VxBe: Sized {
    type A: View<V = Seq<u8>>;
    spec fn be(self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: Self::A)
        ensures r@ == self.be();
}
impl VxBe for u16 {
    type A = [u8; 2];
    open spec fn be(self) -> Seq<u8> { be16(self as nat) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}
impl VxBe for u32 {
    type A = [u8; 4];
    open spec fn be(self) -> Seq<u8> { be32(self as nat) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
impl VxBe for i64 {
    type A = [u8; 8];
    open spec fn be(self) -> Seq<u8> { be_i64(self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
impl VxBe for f64 {
    type A = [u8; 8];
    open spec fn be(self) -> Seq<u8> { be_f64(self) }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}

// `as u8`: for the enums with numeric codes the extractor generates the implementation
// from the discriminants in the source.
pub trait VxCode: Sized {
    spec fn code(self) -> u8;
    fn vx_code(self) -> (r: u8)
        ensures r == self.code();
}
impl VxCode for bool {
    open spec fn code(self) -> u8 { if self { 1 } else { 0 } }
    fn vx_code(self) -> (r: u8) { if self { 1 } else { 0 } }
}
impl VxCode for usize {
    open spec fn code(self) -> u8 { (self as nat % 256) as u8 }
    fn vx_code(self) -> (r: u8) { (self % 256) as u8 }
}

impl VxCode for i64 {
    open spec fn code(self) -> u8 { (self as int % 256) as u8 }
    fn vx_code(self) -> (r: u8) {
        let t = self % 256;
        if t < 0 { (t + 256) as u8 } else { t as u8 }
    }
}

// `as i64`
pub trait VxI64: Sized {
    spec fn i64_of(self) -> int;
    fn vx_i64(self) -> (r: i64)
        requires self.i64_of() <= i64::MAX,
        ensures r == self.i64_of();
}
impl VxI64 for usize {
    open spec fn i64_of(self) -> int { self as int }
    fn vx_i64(self) -> (r: i64) { self as i64 }
}
pub trait VxToInt: Sized { spec fn vint(self) -> int; }
impl VxToInt for u8 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for u16 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for u32 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for u64 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for usize { open spec fn vint(self) -> int { self as int } }
impl VxToInt for i8 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for i16 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for i32 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for i64 { open spec fn vint(self) -> int { self as int } }
impl VxToInt for isize { open spec fn vint(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_u64_try_from<X: VxToInt>(x: X) -> (r: Result<u64, std::num::TryFromIntError>)
    ensures r is Ok <==> u64::MIN <= x.vint() <= u64::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_try_from<X: VxToInt>(x: X) -> (r: Result<u32, std::num::TryFromIntError>)
    ensures r is Ok <==> u32::MIN <= x.vint() <= u32::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_try_from<X: VxToInt>(x: X) -> (r: Result<u16, std::num::TryFromIntError>)
    ensures r is Ok <==> u16::MIN <= x.vint() <= u16::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i64_try_from<X: VxToInt>(x: X) -> (r: Result<i64, std::num::TryFromIntError>)
    ensures r is Ok <==> i64::MIN <= x.vint() <= i64::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i32_try_from<X: VxToInt>(x: X) -> (r: Result<i32, std::num::TryFromIntError>)
    ensures r is Ok <==> i32::MIN <= x.vint() <= i32::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_usize_try_from<X: VxToInt>(x: X) -> (r: Result<usize, std::num::TryFromIntError>)
    ensures r is Ok <==> usize::MIN <= x.vint() <= usize::MAX, r matches Ok(y) ==> y == x.vint(),
{ unimplemented!() }

// slice -> array
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
#[verifier::external_body]
pub fn vx_bytes_into<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], std::array::TryFromSliceError>)
    ensures r is Ok <==> s@.len() == N, r matches Ok(a) ==> a@ == s@,
{ use std::convert::TryInto; s.try_into() }
pub trait VxTryInto<T>: Sized {
    type E;
    spec fn tried(self, r: Result<T, Self::E>) -> bool;
    fn vx_try(self) -> (r: Result<T, Self::E>)
        ensures self.tried(r);
}
impl<const N: usize> VxTryInto<[u8; N]> for &[u8] {
    type E = std::array::TryFromSliceError;
    open spec fn tried(self, r: Result<[u8; N], std::array::TryFromSliceError>) -> bool {
        &&& r is Ok <==> self@.len() == N
        &&& r matches Ok(a) ==> a@ == self@
    }
    fn vx_try(self) -> (r: Result<[u8; N], std::array::TryFromSliceError>) { vx_bytes_into(self) }
}
pub fn vx_try_into<S: VxTryInto<T>, T>(s: S) -> (r: Result<T, S::E>)
    ensures s.tried(r),
{ s.vx_try() }

// ---------------------------------------------------------------- floats (IEEE operations left uninterpreted)
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;
#[verifier::external_body]
pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { a + b }
#[verifier::external_body]
pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { a - b }
#[verifier::external_body]
pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { a * b }
#[verifier::external_body]
pub fn vx_fneg(a: f64) -> (r: f64) ensures r == fneg(a) { -a }

// ---------------------------------------------------------------- UTF-8
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn is_utf8(s: Seq<u8>) -> bool { vstd::utf8::valid_utf8(s) }
pub open spec fn un_utf8(s: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(s) }
pub broadcast proof fn axiom_utf8(s: Seq<char>)
    ensures is_utf8(#[trigger] utf8(s)), un_utf8(utf8(s)) == s, utf8(s).len() == 0 <==> s.len() == 0,
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    vstd::utf8::encode_utf8_decode_utf8(s);
    if utf8(s).len() == 0 { assert(utf8(s) =~= utf8(seq![])); vstd::utf8::encode_utf8_decode_utf8(seq![]); }
}
pub broadcast proof fn axiom_un_utf8(s: Seq<u8>)
    requires #[trigger] is_utf8(s),
    ensures utf8(un_utf8(s)) == s,
{ vstd::utf8::decode_utf8_encode_utf8(s); }
pub broadcast proof fn axiom_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b),
{ vstd::utf8::encode_utf8_concat(a, b); }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>)
    ensures r@ == utf8(s@);
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == utf8(s@);
pub struct VxChars { pub n: usize }
impl VxChars {
    pub fn count(self) -> (r: usize) ensures r == self.n { self.n }
}
pub trait VxCharsExt {
    spec fn chars_of(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxChars)
        ensures r.n == self.chars_of().len(), r.n <= isize::MAX;
}
impl VxCharsExt for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxChars) { VxChars { n: self.chars().count() } }
}
impl VxCharsExt for String {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxChars) { VxChars { n: self.chars().count() } }
}
#[verifier::external_body]
pub fn vx_str_from_utf8(b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> is_utf8(b@), r matches Ok(s) ==> s@ == un_utf8(b@),
{ std::str::from_utf8(b) }
#[verifier::external_body]
pub fn vx_string_from_utf8(b: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> is_utf8(b@), r matches Ok(s) ==> s@ == un_utf8(b@),
{ String::from_utf8(b) }

// ---------------------------------------------------------------- conversions with a specification
pub trait VxInto<T>: Sized {
    spec fn rel(self, t: T) -> bool;
    fn vx_into(self) -> (r: T)
        ensures self.rel(r);
}
impl<T> VxInto<T> for T {
    open spec fn rel(self, t: T) -> bool { t == self }
    fn vx_into(self) -> (r: T) { self }
}
pub open spec fn cow_bytes(c: std::borrow::Cow<'_, [u8]>) -> Seq<u8> {
    match c {
        std::borrow::Cow::Borrowed(b) => b@,
        std::borrow::Cow::Owned(v) => v@,
    }
}
/// `Cow` dereferences to the borrowed data or to what the owned data borrows as.
pub uninterp spec fn owned_as<O, B: ?Sized>(o: O) -> &'static B;
pub broadcast axiom fn axiom_owned_vec(v: Vec<u8>)
    ensures (#[trigger] owned_as::<Vec<u8>, [u8]>(v))@ == v@;
pub broadcast axiom fn axiom_owned_arrayvec(v: ArrayVec<[usize; 256]>)
    ensures *(#[trigger] owned_as::<ArrayVec<[usize; 256]>, ArrayVec<[usize; 256]>>(v)) == v;
pub assume_specification<'a, 'b, B: ToOwned + ?Sized> [<std::borrow::Cow<'a, B> as std::ops::Deref>::deref](c: &'b std::borrow::Cow<'a, B>) -> (r: &'b B)
    ensures match *c { std::borrow::Cow::Borrowed(b) => r == b, std::borrow::Cow::Owned(o) => r == owned_as::<<B as ToOwned>::Owned, B>(o) };
pub broadcast group group_cow { axiom_owned_vec, axiom_owned_arrayvec }
impl<'a> VxInto<std::borrow::Cow<'a, [u8]>> for &'a [u8] {
    open spec fn rel(self, t: std::borrow::Cow<'a, [u8]>) -> bool { cow_bytes(t) == self@ }
    fn vx_into(self) -> (r: std::borrow::Cow<'a, [u8]>) { std::borrow::Cow::Borrowed(self) }
}
impl<'a> VxInto<std::borrow::Cow<'a, [u8]>> for Vec<u8> {
    open spec fn rel(self, t: std::borrow::Cow<'a, [u8]>) -> bool { cow_bytes(t) == self@ }
    fn vx_into(self) -> (r: std::borrow::Cow<'a, [u8]>) { std::borrow::Cow::Owned(self) }
}
impl<'a> VxInto<Vec<u8>> for &'a [u8] {
    open spec fn rel(self, t: Vec<u8>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Vec<u8>) { self.to_vec() }
}

// ---------------------------------------------------------------- byte-like things
pub trait VxAsRef<T: ?Sized> {
    spec fn ref_bytes(&self) -> Seq<u8>;
    fn vx_as_ref(&self) -> (r: &[u8])
        ensures r@ == self.ref_bytes();
}
impl VxAsRef<[u8]> for Vec<u8> {
    open spec fn ref_bytes(&self) -> Seq<u8> { self@ }
    fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
impl VxAsRef<[u8]> for [u8] {
    open spec fn ref_bytes(&self) -> Seq<u8> { self@ }
    fn vx_as_ref(&self) -> (r: &[u8]) { self }
}
impl<const N: usize> VxAsRef<[u8]> for [u8; N] {
    open spec fn ref_bytes(&self) -> Seq<u8> { self@ }
    fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
impl<'a, A: VxAsRef<[u8]> + ?Sized> VxAsRef<[u8]> for &'a A {
    open spec fn ref_bytes(&self) -> Seq<u8> { (*self).ref_bytes() }
    fn vx_as_ref(&self) -> (r: &[u8]) { (*self).vx_as_ref() }
}
impl<'a> VxAsRef<[u8]> for std::borrow::Cow<'a, [u8]> {
    open spec fn ref_bytes(&self) -> Seq<u8> { cow_bytes(*self) }
    fn vx_as_ref(&self) -> (r: &[u8]) { match self { std::borrow::Cow::Borrowed(b) => b, std::borrow::Cow::Owned(v) => v.as_slice() } }
}
pub trait VxOptRef<T> {
    fn vx_as_ref(&self) -> (r: Option<&T>);
}
impl<T> VxOptRef<T> for Option<T> {
    fn vx_as_ref(&self) -> (r: Option<&T>)
        ensures r == match *self { Some(x) => Some(&x), None => None },
    { self.as_ref() }
}

/// `as_deref` of an optional guard of a map's entry (a plain reference here).
pub trait VxGuardDeref<'a, T> {
    fn vx_as_deref(&self) -> (r: Option<&'a T>);
}
impl<'a, T> VxGuardDeref<'a, T> for Option<&'a T> {
    fn vx_as_deref(&self) -> (r: Option<&'a T>)
        ensures r == *self,
    { *self }
}

// ---------------------------------------------------------------- iterators: a specified `next` over a ghost sequence of what is left
pub trait VxIter: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    /// What the implementation needs of itself; true for the library's iterators.
    spec fn iter_ok(&self) -> bool;
    fn vx_next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iter_ok(),
        ensures final(self).iter_ok(), match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        };
}
pub trait VxIntoIterator: Sized {
    type Item;
    type IntoIter: VxIter<Item = Self::Item>;
    spec fn items(self) -> Seq<Self::Item>;
    spec fn into_ok(self) -> bool;
    fn vx_into_iter(self) -> (r: Self::IntoIter)
        requires self.into_ok(),
        ensures r.rest() == self.items(), r.iter_ok();
}
impl<I: VxIter> VxIntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn items(self) -> Seq<I::Item> { self.rest() }
    open spec fn into_ok(self) -> bool { self.iter_ok() }
    fn vx_into_iter(self) -> (r: I) { self }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { it: std::slice::Iter<'a, T> }
impl<'a, T> VxIter for SliceIter<'a, T> {
    type Item = &'a T;
    uninterp spec fn rest(&self) -> Seq<&'a T>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a T>) { self.it.next() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIntoIter<T> { it: std::vec::IntoIter<T> }
impl<T> VxIter for VecIntoIter<T> {
    type Item = T;
    uninterp spec fn rest(&self) -> Seq<T>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<T>) { self.it.next() }
}
impl<T> VxIntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = VecIntoIter<T>;
    open spec fn items(self) -> Seq<T> { self@ }
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIntoIter<T>) { VecIntoIter { it: self.into_iter() } }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxIntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { it: self.iter() } }
}
impl<'a, T> VxIntoIterator for &'a [T] {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { it: self.iter() } }
}
impl<'a, T, const N: usize> VxIntoIterator for &'a [T; N] {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { it: self.iter() } }
}
pub trait VxIterable<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: SliceIter<'_, T>)
        ensures r.rest() == refs(self.elems());
}
impl<T> VxIterable<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: SliceIter<'_, T>) { SliceIter { it: self.iter() } }
}
impl<T> VxIterable<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: SliceIter<'_, T>) { SliceIter { it: self.iter() } }
}

// ---------------------------------------------------------------- emptiness, copies
pub trait VxEmpty {
    spec fn size(&self) -> nat;
    fn vx_is_empty(&self) -> (r: bool)
        ensures r == (self.size() == 0);
}
impl<T> VxEmpty for Vec<T> {
    open spec fn size(&self) -> nat { self@.len() }
    fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VxEmpty for [T] {
    open spec fn size(&self) -> nat { self@.len() }
    fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl VxEmpty for String {
    open spec fn size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VxEmpty for str {
    open spec fn size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
pub fn vx_vec_is_empty<T>(v: &Vec<T>) -> (r: bool)
    ensures r == (v@.len() == 0),
{ v.len() == 0 }

pub trait VxOwned {
    type O;
    spec fn owned_rel(&self, o: Self::O) -> bool;
    fn vx_to_owned(&self) -> (r: Self::O)
        ensures self.owned_rel(r);
}
impl VxOwned for [u8] {
    type O = Vec<u8>;
    open spec fn owned_rel(&self, o: Vec<u8>) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl VxOwned for str {
    type O = String;
    open spec fn owned_rel(&self, o: String) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { self.to_string() }
}
pub fn vx_to_owned<T: VxOwned + ?Sized>(x: &T) -> (r: T::O)
    ensures x.owned_rel(r),
{ x.vx_to_owned() }
pub trait VxToVec {
    spec fn vbytes(&self) -> Seq<u8>;
    fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.vbytes();
}
impl VxToVec for [u8] {
    open spec fn vbytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
pub trait VxBytesExt {
    spec fn xbytes(&self) -> Seq<u8>;
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool)
        ensures r == p@.is_prefix_of(self.xbytes());
}
impl VxBytesExt for [u8] {
    open spec fn xbytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { self.starts_with(p) }
}
pub open spec fn splice(s: Seq<u8>, lo: int, b: Seq<u8>) -> Seq<u8> {
    s.subrange(0, lo) + b + s.subrange(lo + b.len(), s.len() as int)
}
pub trait VxWriteRange: View<V = Seq<u8>> {
    fn vx_write_range(&mut self, lo: usize, hi: usize, b: &[u8])
        requires lo <= hi <= old(self)@.len(), b@.len() == hi - lo,
        ensures final(self)@ == splice(old(self)@, lo as int, b@);
}
impl VxWriteRange for Vec<u8> {
    #[verifier::external_body]
    fn vx_write_range(&mut self, lo: usize, hi: usize, b: &[u8]) { self[lo..hi].clone_from_slice(b) }
}

// ---------------------------------------------------------------- ranges
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<T>;
    spec fn hi(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>)
        ensures r == match self.lo() { Bound::Included(x) => Bound::Included(&x), Bound::Excluded(x) => Bound::Excluded(&x), Bound::Unbounded => Bound::Unbounded };
    fn end_bound(&self) -> (r: Bound<&T>)
        ensures r == match self.hi() { Bound::Included(x) => Bound::Included(&x), Bound::Excluded(x) => Bound::Excluded(&x), Bound::Unbounded => Bound::Unbounded };
}
impl RangeBounds<usize> for std::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Included(&self.start) }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
}
impl RangeBounds<usize> for std::ops::RangeFull {
    open spec fn lo(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
}

// ---------------------------------------------------------------- arrayvec::ArrayVec
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct ArrayVec<A> { v: Vec<usize>, _p: std::marker::PhantomData<A> }
impl<const N: usize> ArrayVec<[usize; N]> {
    pub uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: usize)
        requires old(self)@.len() < N,
        ensures final(self)@ == old(self)@.push(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&usize>)
        ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None::<&usize> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&usize>)
        ensures r == (if self@.len() > 0 { Some(&self@[self@.len() - 1]) } else { None::<&usize> }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= N { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<usize>::empty() { unimplemented!() }
}
impl<const N: usize> Default for ArrayVec<[usize; N]> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Seq::<usize>::empty() { unimplemented!() }
}
impl<A> Clone for ArrayVec<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn cow_pos(c: std::borrow::Cow<'_, ArrayVec<[usize; 256]>>) -> Seq<usize> {
    match c {
        std::borrow::Cow::Borrowed(b) => b@,
        std::borrow::Cow::Owned(v) => v@,
    }
}

pub trait VxIntoOwned {
    type O;
    spec fn into_owned_rel(self, o: Self::O) -> bool;
    fn vx_into_owned(self) -> (r: Self::O)
        ensures self.into_owned_rel(r);
}
impl<'a> VxIntoOwned for std::borrow::Cow<'a, [u8]> {
    type O = Vec<u8>;
    open spec fn into_owned_rel(self, o: Vec<u8>) -> bool { o@ == cow_bytes(self) }
    #[verifier::external_body]
    fn vx_into_owned(self) -> (r: Vec<u8>) { self.into_owned() }
}
impl<'a> VxIntoOwned for std::borrow::Cow<'a, ArrayVec<[usize; 256]>> {
    type O = ArrayVec<[usize; 256]>;
    open spec fn into_owned_rel(self, o: ArrayVec<[usize; 256]>) -> bool { o@ == cow_pos(self) }
    #[verifier::external_body]
    fn vx_into_owned(self) -> (r: ArrayVec<[usize; 256]>) { self.into_owned() }
}

// ---------------------------------------------------------------- dashmap (used by one task at a time)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { m: Vec<(K, V)> }
impl<K: View, V: View> View for DashMap<K, V> {
    type V = Map<K::V, V::V>;
    uninterp spec fn view(&self) -> Map<K::V, V::V>;
}
/// The order in which a map yields its entries; a function of the map value.
pub uninterp spec fn order<K: View, V: View>(m: &DashMap<K, V>) -> Seq<(K::V, V::V)>;
pub open spec fn is_order<A, B>(o: Seq<(A, B)>, m: Map<A, B>) -> bool {
    &&& o.len() == m.dom().len()
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0
    &&& forall|i: int| 0 <= i < o.len() ==> m.contains_key((#[trigger] o[i]).0) && m[o[i].0] == o[i].1
    &&& forall|k: A| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k
}
pub broadcast axiom fn axiom_order<K: View, V: View>(m: &DashMap<K, V>)
    ensures is_order(#[trigger] order(m), m@);
/// A key given by reference: `Vec<u8>` keys are looked up by `[u8]`.
pub trait VxKey<KV> {
    spec fn kv(&self) -> KV;
}
impl VxKey<Seq<u8>> for [u8] { open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VxKey<Seq<u8>> for Vec<u8> { open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VxKey<u32> for u32 { open spec fn kv(&self) -> u32 { *self } }

impl<K: View, V: View> DashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::V, V::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k@, v@),
            r is Some <==> old(self)@.contains_key(k@),
            r matches Some(x) ==> x@ == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey<K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxKey<K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<(K, V)>)
        ensures
            r is Some <==> old(self)@.contains_key(k.kv()),
            r matches Some(x) ==> x.0@ == k.kv() && x.1@ == old(self)@[k.kv()],
            final(self)@ == old(self)@.remove(k.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, Q: VxKey<K::V> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>)
        ensures
            r is Some <==> self@.contains_key(k.kv()),
            r matches Some(x) ==> x@ == self@[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: VxKey<K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
        ensures
            r is Some <==> old(self)@.contains_key(k.kv()),
            r matches Some(x) ==> x@ == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), final(x)@),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures
            r.key() == k@,
            r.map() == old(self)@,
            r is Occupied <==> old(self)@.contains_key(k@),
            final(self)@ == r.after(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: DashIter<'a, K, V>)
        ensures r.pairs() == order(self),
    { unimplemented!() }
}
impl<K: View, V: View> VxEmpty for DashMap<K, V> {
    open spec fn size(&self) -> nat { self@.dom().len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<K: View, V: View> Default for DashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K::V, V::V>::empty() { unimplemented!() }
}
/// An entry: where the map is going to be updated. `map` is the map before and `after` what
/// the entry will have made of it.
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { m: &'a mut DashMap<K, V>, k: K }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { m: &'a mut DashMap<K, V>, k: K }
impl<'a, K: View, V: View> OccupiedEntry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K::V;
    pub uninterp spec fn map(&self) -> Map<K::V, V::V>;
    pub uninterp spec fn after(&self) -> Map<K::V, V::V>;
    #[verifier::external_body]
    pub fn into_ref(self) -> (r: &'a mut V)
        ensures r@ == self.map()[self.key()], self.after() == self.map().insert(self.key(), final(r)@),
    { unimplemented!() }
}
impl<'a, K: View, V: View> VacantEntry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K::V;
    pub uninterp spec fn map(&self) -> Map<K::V, V::V>;
    pub uninterp spec fn after(&self) -> Map<K::V, V::V>;
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, self.after() == self.map().insert(self.key(), final(r)@),
    { unimplemented!() }
}
/// An entry that is dropped leaves the map as it is.
pub broadcast axiom fn axiom_occupied_unused<K: View, V: View>(e: OccupiedEntry<'_, K, V>)
    ensures #[trigger] has_resolved(e) ==> e.after() == e.map();
pub broadcast axiom fn axiom_vacant_unused<K: View, V: View>(e: VacantEntry<'_, K, V>)
    ensures #[trigger] has_resolved(e) ==> e.after() == e.map();
impl<'a, K: View, V: View> Entry<'a, K, V> {
    pub open spec fn key(&self) -> K::V { match *self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
    pub open spec fn map(&self) -> Map<K::V, V::V> { match *self { Entry::Occupied(e) => e.map(), Entry::Vacant(e) => e.map() } }
    pub open spec fn after(&self) -> Map<K::V, V::V> { match *self { Entry::Occupied(e) => e.after(), Entry::Vacant(e) => e.after() } }
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        requires self is Occupied <==> self.map().contains_key(self.key()),
        ensures
            self.map().contains_key(self.key()) ==> r@ == self.map()[self.key()],
            !self.map().contains_key(self.key()) ==> *r == v,
            self.after() == self.map().insert(self.key(), final(r)@),
    { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: Fn() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()), self is Occupied <==> self.map().contains_key(self.key()),
        ensures
            self.map().contains_key(self.key()) ==> r@ == self.map()[self.key()],
            !self.map().contains_key(self.key()) ==> exists|v: V| #[trigger] f.ensures((), v) && *r == v,
            self.after() == self.map().insert(self.key(), final(r)@),
    { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(f()) } }
}
impl<'a, K: View, V: View + Default> Entry<'a, K, V> {
    pub fn or_default(self) -> (r: &'a mut V)
        requires self is Occupied <==> self.map().contains_key(self.key()),
        ensures
            self.map().contains_key(self.key()) ==> r@ == self.map()[self.key()],
            !self.map().contains_key(self.key()) ==> exists|v: V| #[trigger] call_ensures(V::default, (), v) && *r == v,
            self.after() == self.map().insert(self.key(), final(r)@),
    { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(V::default()) } }
}
pub struct RefMulti<'a, K, V> { pub k: &'a K, pub v: &'a V }
impl<'a, K: View, V: View> RefMulti<'a, K, V> {
    pub fn key(&self) -> (r: &'a K) ensures r == self.k { self.k }
    pub fn value(&self) -> (r: &'a V) ensures r == self.v { self.v }
    pub fn pair(&self) -> (r: (&'a K, &'a V)) ensures r == (self.k, self.v) { (self.k, self.v) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashIter<'a, K, V> { m: &'a DashMap<K, V> }
pub open spec fn ref_pairs<'a, K: View, V: View>(s: Seq<RefMulti<'a, K, V>>) -> Seq<(K::V, V::V)> {
    Seq::new(s.len(), |i: int| (s[i].k@, s[i].v@))
}
pub open spec fn own_pairs<K: View, V: View>(s: Seq<(K, V)>) -> Seq<(K::V, V::V)> {
    Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@))
}
impl<'a, K: View, V: View> DashIter<'a, K, V> {
    pub open spec fn pairs(&self) -> Seq<(K::V, V::V)> { ref_pairs(self.rest()) }
}
impl<'a, K: View, V: View> VxIter for DashIter<'a, K, V> {
    type Item = RefMulti<'a, K, V>;
    uninterp spec fn rest(&self) -> Seq<RefMulti<'a, K, V>>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<RefMulti<'a, K, V>>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashIntoIter<K, V> { m: DashMap<K, V> }
impl<K: View, V: View> VxIter for DashIntoIter<K, V> {
    type Item = (K, V);
    uninterp spec fn rest(&self) -> Seq<(K, V)>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<(K, V)>) { unimplemented!() }
}
impl<K: View, V: View> VxIntoIterator for DashMap<K, V> {
    type Item = (K, V);
    type IntoIter = DashIntoIter<K, V>;
    uninterp spec fn items(self) -> Seq<(K, V)>;
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: DashIntoIter<K, V>) { unimplemented!() }
}
impl<K: View, V: View> DashMap<K, V> {
    /// `into_iter().collect()` into a map of the same type.
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: DashMap<K, V>)
        ensures r@ == self@,
    { unimplemented!() }
}
pub broadcast axiom fn axiom_into_order<K: View, V: View>(m: DashMap<K, V>)
    ensures is_order(own_pairs(#[trigger] m.items()), m@);

// DashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct DashSet<K> { m: Vec<K> }
impl<K: View> View for DashSet<K> {
    type V = Set<K::V>;
    uninterp spec fn view(&self) -> Set<K::V>;
}
pub uninterp spec fn set_order<K: View>(m: &DashSet<K>) -> Seq<K::V>;
pub open spec fn is_set_order<A>(o: Seq<A>, m: Set<A>) -> bool {
    &&& o.len() == m.len()
    &&& o.no_duplicates()
    &&& o.to_set() == m
}
pub broadcast axiom fn axiom_set_order<K: View>(m: &DashSet<K>)
    ensures is_set_order(#[trigger] set_order(m), m@);
impl<K: View> DashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxKey<K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<K>)
        ensures
            r is Some <==> old(self)@.contains(k.kv()),
            final(self)@ == old(self)@.remove(k.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: DashSetIter<'a, K>)
        ensures set_items(r.rest()) == set_order(self),
    { unimplemented!() }
}
impl<K: View> VxEmpty for DashSet<K> {
    open spec fn size(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<K: View> Default for DashSet<K> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
}
/// dashmap's `RefMulti` of a set entry dereferences to the item.
pub trait VxSelfKey: Sized {
    fn key(&self) -> (r: &Self)
        ensures *r == *self;
}
impl VxSelfKey for Vec<u8> { fn key(&self) -> (r: &Self) { self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct DashSetIter<'a, K> { m: &'a DashSet<K> }
pub open spec fn set_items<'a, K: View>(s: Seq<&'a K>) -> Seq<K::V> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn own_items<K: View>(s: Seq<K>) -> Seq<K::V> { Seq::new(s.len(), |i: int| s[i]@) }
impl<'a, K: View> VxIter for DashSetIter<'a, K> {
    type Item = &'a K;
    uninterp spec fn rest(&self) -> Seq<&'a K>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a K>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct DashSetIntoIter<K> { m: DashSet<K> }
impl<K: View> VxIter for DashSetIntoIter<K> {
    type Item = K;
    uninterp spec fn rest(&self) -> Seq<K>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<K>) { unimplemented!() }
}
impl<K: View> VxIntoIterator for DashSet<K> {
    type Item = K;
    type IntoIter = DashSetIntoIter<K>;
    uninterp spec fn items(self) -> Seq<K>;
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: DashSetIntoIter<K>) { unimplemented!() }
}
pub broadcast axiom fn axiom_set_into_order<K: View>(m: DashSet<K>)
    ensures is_set_order(own_items(#[trigger] m.items()), m@);

// `Ref` and `RefMut` are erased to plain references, so `.value()` is the identity on a value.
pub trait VxSelfValue: Sized {
    fn value(&self) -> (r: &Self)
        ensures *r == *self;
}

// ---------------------------------------------------------------- hop_internal_metrics, as the engine sees it
// (its own functions are under contract in the unit "metrics")
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Metrics<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Reader<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Writer<T> { p: std::marker::PhantomData<T> }
impl<T> Metrics<T> {
    /// What its counters are at the time.
    pub uninterp spec fn counts(&self) -> Map<T, u64>;
    /// Which instance it is.
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn reader(&self) -> (r: Reader<T>) ensures r.counts() == self.counts() { unimplemented!() }
    #[verifier::external_body]
    pub fn writer(&self) -> (r: Writer<T>) ensures r.log() == Seq::<T>::empty(), r.id() == self.id() { unimplemented!() }
}
impl<T> Default for Metrics<T> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.counts() == Map::<T, u64>::empty() { unimplemented!() }
}
impl<T> Reader<T> {
    pub uninterp spec fn counts(&self) -> Map<T, u64>;
    #[verifier::external_body]
    pub fn counter(&self, c: &T) -> (r: Option<u64>)
        ensures r == (if self.counts().contains_key(*c) { Some(self.counts()[*c]) } else { None }),
    { unimplemented!() }
}
impl<T> Writer<T> {
    /// The increments made through this writer.
    pub uninterp spec fn log(&self) -> Seq<T>;
    /// The instance it writes to.
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn increment(&mut self, c: T) -> (r: bool)
        ensures final(self).log() == old(self).log().push(c), final(self).id() == old(self).id(),
    { unimplemented!() }
}
impl<T> Clone for Writer<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.log() == Seq::<T>::empty(), r.id() == self.id() { unimplemented!() }
}

// ---------------------------------------------------------------- core::sync::atomic (used by one task at a time)
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[derive(Default)]
#[verifier::external_body]
pub struct AtomicU32 { x: u32 }
impl AtomicU32 {
    pub uninterp spec fn val(&self) -> u32;
    #[verifier::external_body]
    pub fn new(x: u32) -> (r: Self) ensures r.val() == x { AtomicU32 { x } }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u32) ensures r == self.val() { self.x }
    #[verifier::external_body]
    pub fn store(&mut self, x: u32, o: Ordering) ensures final(self).val() == x { self.x = x }
    #[verifier::external_body]
    pub fn fetch_add(&mut self, x: u32, o: Ordering) -> (r: u32)
        ensures r == old(self).val(), final(self).val() == (old(self).val() + x) % 0x1_0000_0000,
    { unimplemented!() }
}

// ---------------------------------------------------------------- weak references and channels (only handed around)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { p: std::marker::PhantomData<T> }
impl<T> Weak<T> {
    pub uninterp spec fn target(&self) -> T;
    #[verifier::external_body]
    pub fn vx_downgrade(x: &T) -> (r: Self) ensures r.target() == *x { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { p: std::marker::PhantomData<T> }
/// A channel was closed. Only a call of `close` establishes it, so where it is proved there was one.
pub uninterp spec fn closed(chan: int) -> bool;
impl<T> Sender<T> {
    /// The channel an end belongs to.
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn close(&self) ensures closed(self.chan()) { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> int;
}
impl<T> Clone for Sender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Clone for Receiver<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub mod shared {
    use super::*;
    #[verifier::external_body]
    pub fn unbuffered_channel<T>() -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.chan() == r.1.chan(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- requests of the client
/// `Arc` of a backend: what the handle leads to is the backend a request is executed on.
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
pub struct VxArc<B> { b: std::marker::PhantomData<B> }
impl<B> VxArc<B> {
    /// What it was made with.
    pub uninterp spec fn first(&self) -> B;
    #[verifier::external_body]
    pub fn new(b: B) -> (r: Self)
        ensures r.first() == b,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// A future that was made and isn't ready.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(E)]
pub struct VxInFlight<'a, T, E> { f: std::marker::PhantomData<&'a (T, E)> }
pub type MaybeInFlightFuture<'a, T, E> = Option<VxInFlight<'a, T, E>>;
#[verifier::external_body]
pub fn vx_pending<T>() -> (r: T)
    requires false,
{ unimplemented!() }
pub trait VxCollect: VxIntoIterator {
    fn vx_collect(self) -> (r: Vec<Self::Item>)
        requires self.into_ok(),
        ensures r@ == self.items();
}
impl<I: VxIntoIterator> VxCollect for I {
    #[verifier::external_body]
    fn vx_collect(self) -> (r: Vec<Self::Item>) { unimplemented!() }
}
pub trait VxFromIter<S>: Sized {
    spec fn made(s: S, r: Self) -> bool;
    fn vx_made(s: S) -> (r: Self)
        ensures Self::made(s, r);
}
pub fn vx_from_iter<S, T: VxFromIter<S>>(s: S) -> (r: T)
    ensures T::made(s, r),
{ T::vx_made(s) }
impl VxFromIter<Vec<Vec<u8>>> for Vec<Vec<u8>> {
    open spec fn made(s: Vec<Vec<u8>>, r: Vec<Vec<u8>>) -> bool { r == s }
    fn vx_made(s: Vec<Vec<u8>>) -> (r: Vec<Vec<u8>>) { s }
}
impl VxFromIter<Vec<Vec<u8>>> for DashSet<Vec<u8>> {
    open spec fn made(s: Vec<Vec<u8>>, r: DashSet<Vec<u8>>) -> bool { r@ == Seq::new(s@.len(), |i: int| s@[i]@).to_set() }
    #[verifier::external_body]
    fn vx_made(s: Vec<Vec<u8>>) -> (r: DashSet<Vec<u8>>) { unimplemented!() }
}
// ---------------------------------------------------------------- T::from of machine integers (lossless; nothing assumed)
pub trait VxFrom<T>: Sized {
    spec fn vx_as(v: T) -> Self;
    fn vx_from(v: T) -> (r: Self) ensures r == Self::vx_as(v);
}
impl VxFrom<bool> for u8 { open spec fn vx_as(v: bool) -> u8 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: u8) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for u16 { open spec fn vx_as(v: bool) -> u16 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: u16) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for u32 { open spec fn vx_as(v: bool) -> u32 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: u32) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for u64 { open spec fn vx_as(v: bool) -> u64 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: u64) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for u128 { open spec fn vx_as(v: bool) -> u128 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: u128) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for usize { open spec fn vx_as(v: bool) -> usize { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: usize) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for i8 { open spec fn vx_as(v: bool) -> i8 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: i8) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for i16 { open spec fn vx_as(v: bool) -> i16 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: i16) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for i32 { open spec fn vx_as(v: bool) -> i32 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: i32) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for i64 { open spec fn vx_as(v: bool) -> i64 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: i64) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for i128 { open spec fn vx_as(v: bool) -> i128 { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: i128) { if v { 1 } else { 0 } } }
impl VxFrom<bool> for isize { open spec fn vx_as(v: bool) -> isize { if v { 1 } else { 0 } } fn vx_from(v: bool) -> (r: isize) { if v { 1 } else { 0 } } }
impl VxFrom<u8> for u8 { open spec fn vx_as(v: u8) -> u8 { v } fn vx_from(v: u8) -> (r: u8) { v } }
impl VxFrom<u8> for u16 { open spec fn vx_as(v: u8) -> u16 { v as u16 } fn vx_from(v: u8) -> (r: u16) { v as u16 } }
impl VxFrom<u8> for u32 { open spec fn vx_as(v: u8) -> u32 { v as u32 } fn vx_from(v: u8) -> (r: u32) { v as u32 } }
impl VxFrom<u8> for u64 { open spec fn vx_as(v: u8) -> u64 { v as u64 } fn vx_from(v: u8) -> (r: u64) { v as u64 } }
impl VxFrom<u8> for u128 { open spec fn vx_as(v: u8) -> u128 { v as u128 } fn vx_from(v: u8) -> (r: u128) { v as u128 } }
impl VxFrom<u8> for i16 { open spec fn vx_as(v: u8) -> i16 { v as i16 } fn vx_from(v: u8) -> (r: i16) { v as i16 } }
impl VxFrom<u8> for i32 { open spec fn vx_as(v: u8) -> i32 { v as i32 } fn vx_from(v: u8) -> (r: i32) { v as i32 } }
impl VxFrom<u8> for i64 { open spec fn vx_as(v: u8) -> i64 { v as i64 } fn vx_from(v: u8) -> (r: i64) { v as i64 } }
impl VxFrom<u8> for i128 { open spec fn vx_as(v: u8) -> i128 { v as i128 } fn vx_from(v: u8) -> (r: i128) { v as i128 } }
impl VxFrom<u16> for u16 { open spec fn vx_as(v: u16) -> u16 { v } fn vx_from(v: u16) -> (r: u16) { v } }
impl VxFrom<u16> for u32 { open spec fn vx_as(v: u16) -> u32 { v as u32 } fn vx_from(v: u16) -> (r: u32) { v as u32 } }
impl VxFrom<u16> for u64 { open spec fn vx_as(v: u16) -> u64 { v as u64 } fn vx_from(v: u16) -> (r: u64) { v as u64 } }
impl VxFrom<u16> for u128 { open spec fn vx_as(v: u16) -> u128 { v as u128 } fn vx_from(v: u16) -> (r: u128) { v as u128 } }
impl VxFrom<u16> for i32 { open spec fn vx_as(v: u16) -> i32 { v as i32 } fn vx_from(v: u16) -> (r: i32) { v as i32 } }
impl VxFrom<u16> for i64 { open spec fn vx_as(v: u16) -> i64 { v as i64 } fn vx_from(v: u16) -> (r: i64) { v as i64 } }
impl VxFrom<u16> for i128 { open spec fn vx_as(v: u16) -> i128 { v as i128 } fn vx_from(v: u16) -> (r: i128) { v as i128 } }
impl VxFrom<u32> for u32 { open spec fn vx_as(v: u32) -> u32 { v } fn vx_from(v: u32) -> (r: u32) { v } }
impl VxFrom<u32> for u64 { open spec fn vx_as(v: u32) -> u64 { v as u64 } fn vx_from(v: u32) -> (r: u64) { v as u64 } }
impl VxFrom<u32> for u128 { open spec fn vx_as(v: u32) -> u128 { v as u128 } fn vx_from(v: u32) -> (r: u128) { v as u128 } }
impl VxFrom<u32> for i64 { open spec fn vx_as(v: u32) -> i64 { v as i64 } fn vx_from(v: u32) -> (r: i64) { v as i64 } }
impl VxFrom<u32> for i128 { open spec fn vx_as(v: u32) -> i128 { v as i128 } fn vx_from(v: u32) -> (r: i128) { v as i128 } }
impl VxFrom<u64> for u64 { open spec fn vx_as(v: u64) -> u64 { v } fn vx_from(v: u64) -> (r: u64) { v } }
impl VxFrom<u64> for u128 { open spec fn vx_as(v: u64) -> u128 { v as u128 } fn vx_from(v: u64) -> (r: u128) { v as u128 } }
impl VxFrom<u64> for i128 { open spec fn vx_as(v: u64) -> i128 { v as i128 } fn vx_from(v: u64) -> (r: i128) { v as i128 } }
impl VxFrom<u128> for u128 { open spec fn vx_as(v: u128) -> u128 { v } fn vx_from(v: u128) -> (r: u128) { v } }
impl VxFrom<i8> for i8 { open spec fn vx_as(v: i8) -> i8 { v } fn vx_from(v: i8) -> (r: i8) { v } }
impl VxFrom<i8> for i16 { open spec fn vx_as(v: i8) -> i16 { v as i16 } fn vx_from(v: i8) -> (r: i16) { v as i16 } }
impl VxFrom<i8> for i32 { open spec fn vx_as(v: i8) -> i32 { v as i32 } fn vx_from(v: i8) -> (r: i32) { v as i32 } }
impl VxFrom<i8> for i64 { open spec fn vx_as(v: i8) -> i64 { v as i64 } fn vx_from(v: i8) -> (r: i64) { v as i64 } }
impl VxFrom<i8> for i128 { open spec fn vx_as(v: i8) -> i128 { v as i128 } fn vx_from(v: i8) -> (r: i128) { v as i128 } }
impl VxFrom<i16> for i16 { open spec fn vx_as(v: i16) -> i16 { v } fn vx_from(v: i16) -> (r: i16) { v } }
impl VxFrom<i16> for i32 { open spec fn vx_as(v: i16) -> i32 { v as i32 } fn vx_from(v: i16) -> (r: i32) { v as i32 } }
impl VxFrom<i16> for i64 { open spec fn vx_as(v: i16) -> i64 { v as i64 } fn vx_from(v: i16) -> (r: i64) { v as i64 } }
impl VxFrom<i16> for i128 { open spec fn vx_as(v: i16) -> i128 { v as i128 } fn vx_from(v: i16) -> (r: i128) { v as i128 } }
impl VxFrom<i32> for i32 { open spec fn vx_as(v: i32) -> i32 { v } fn vx_from(v: i32) -> (r: i32) { v } }
impl VxFrom<i32> for i64 { open spec fn vx_as(v: i32) -> i64 { v as i64 } fn vx_from(v: i32) -> (r: i64) { v as i64 } }
impl VxFrom<i32> for i128 { open spec fn vx_as(v: i32) -> i128 { v as i128 } fn vx_from(v: i32) -> (r: i128) { v as i128 } }
impl VxFrom<i64> for i64 { open spec fn vx_as(v: i64) -> i64 { v } fn vx_from(v: i64) -> (r: i64) { v } }
impl VxFrom<i64> for i128 { open spec fn vx_as(v: i64) -> i128 { v as i128 } fn vx_from(v: i64) -> (r: i128) { v as i128 } }
impl VxFrom<i128> for i128 { open spec fn vx_as(v: i128) -> i128 { v } fn vx_from(v: i128) -> (r: i128) { v } }
impl VxFrom<u8> for usize { open spec fn vx_as(v: u8) -> usize { v as usize } fn vx_from(v: u8) -> (r: usize) { v as usize } }
impl VxFrom<u16> for usize { open spec fn vx_as(v: u16) -> usize { v as usize } fn vx_from(v: u16) -> (r: usize) { v as usize } }
impl VxFrom<usize> for usize { open spec fn vx_as(v: usize) -> usize { v } fn vx_from(v: usize) -> (r: usize) { v } }
impl VxFrom<u8> for isize { open spec fn vx_as(v: u8) -> isize { v as isize } fn vx_from(v: u8) -> (r: isize) { v as isize } }
impl VxFrom<i16> for isize { open spec fn vx_as(v: i16) -> isize { v as isize } fn vx_from(v: i16) -> (r: isize) { v as isize } }
impl VxFrom<isize> for isize { open spec fn vx_as(v: isize) -> isize { v } fn vx_from(v: isize) -> (r: isize) { v } }
} // mod vx
