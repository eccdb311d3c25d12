// Trusted prelude of the command line parser: iteration over the parts of a string, and parsing.
pub mod vs {
use vstd::prelude::*;
use crate::vx::*;

/// What `split` yields: the parts between the separators.
pub open spec fn words(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if !s.contains(c) { seq![s] } else {
        let i = s.index_of_first(c).unwrap();
        if 0 <= i < s.len() { seq![s.take(i)] + words(s.skip(i + 1), c) } else { seq![s] }
    }
}
/// What `rsplitn` yields: at most n parts, from the right.
pub open spec fn rparts(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n,
{
    if n == 0 { seq![] } else if n == 1 || !s.contains(c) { seq![s] } else {
        let i = s.index_of_last(c).unwrap();
        seq![s.skip(i + 1)] + rparts(s.take(i), (n - 1) as nat, c)
    }
}
/// What `splitn` yields: at most n parts, from the left.
pub open spec fn lparts(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n,
{
    if n == 0 { seq![] } else if n == 1 || !s.contains(c) { seq![s] } else {
        let i = s.index_of_first(c).unwrap();
        seq![s.take(i)] + lparts(s.skip(i + 1), (n - 1) as nat, c)
    }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }

#[verifier::external_body]
pub struct StrIter<'a> { it: std::vec::IntoIter<&'a str> }
impl<'a> VxIter for StrIter<'a> {
    type Item = &'a str;
    uninterp spec fn rest(&self) -> Seq<&'a str>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a str>) { self.it.next() }
}
pub trait VxStr {
    fn vx_split(&self, c: char) -> (r: StrIter<'_>);
    fn vx_rsplitn(&self, n: usize, c: char) -> (r: StrIter<'_>);
    fn vx_splitn(&self, n: usize, c: char) -> (r: StrIter<'_>);
    fn vx_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>);
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>);
}
impl VxStr for str {
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: StrIter<'_>)
        ensures strs(r.rest()) == words(self@, c),
    { StrIter { it: self.split(c).collect::<Vec<_>>().into_iter() } }
    #[verifier::external_body]
    fn vx_rsplitn(&self, n: usize, c: char) -> (r: StrIter<'_>)
        ensures strs(r.rest()) == rparts(self@, n as nat, c),
    { StrIter { it: self.rsplitn(n, c).collect::<Vec<_>>().into_iter() } }
    #[verifier::external_body]
    fn vx_splitn(&self, n: usize, c: char) -> (r: StrIter<'_>)
        ensures strs(r.rest()) == lparts(self@, n as nat, c),
    { StrIter { it: self.splitn(n, c).collect::<Vec<_>>().into_iter() } }
    #[verifier::external_body]
    fn vx_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is Some <==> self@.contains(c),
            r matches Some(x) ==> x.0@ == self@.take(self@.index_of_last(c).unwrap()) && x.1@ == self@.skip(self@.index_of_last(c).unwrap() + 1),
    { self.rsplit_once(c) }
    #[verifier::external_body]
    fn vx_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is Some <==> self@.contains(c),
            r matches Some(x) ==> x.0@ == self@.take(self@.index_of_first(c).unwrap()) && x.1@ == self@.skip(self@.index_of_first(c).unwrap() + 1),
    { self.split_once(c) }
}
/// The value that a string parses to, if it does.
pub uninterp spec fn read_as<T>(s: Seq<char>) -> Option<T>;
pub broadcast axiom fn axiom_read_bool(s: Seq<char>)
    ensures #[trigger] read_as::<bool>(s) == (if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None });
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseBoolError(std::str::ParseBoolError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(std::num::ParseFloatError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
/// The types of the library that a string is parsed to.
pub trait VxFromStr: Sized {
    type Err;
    fn vx_read(s: &str) -> (r: Result<Self, Self::Err>)
        ensures r is Ok <==> read_as::<Self>(s@) is Some, r matches Ok(x) ==> read_as::<Self>(s@) == Some(x);
}
impl VxFromStr for bool {
    type Err = std::str::ParseBoolError;
    #[verifier::external_body]
    fn vx_read(s: &str) -> (r: Result<Self, Self::Err>) { s.parse() }
}
impl VxFromStr for f64 {
    type Err = std::num::ParseFloatError;
    #[verifier::external_body]
    fn vx_read(s: &str) -> (r: Result<Self, Self::Err>) { s.parse() }
}
impl VxFromStr for i64 {
    type Err = std::num::ParseIntError;
    #[verifier::external_body]
    fn vx_read(s: &str) -> (r: Result<Self, Self::Err>) { s.parse() }
}
pub trait VxParse {
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>);
}
impl VxParse for str {
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>)
        ensures r is Ok <==> read_as::<T>(self@) is Some, r matches Ok(x) ==> read_as::<T>(self@) == Some(x),
    { T::vx_read(self) }
}
pub trait VxNext: VxIter {
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iter_ok(),
        ensures final(self).iter_ok(), match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        };
    fn peekable(self) -> (r: VxPeekable<Self>)
        requires self.iter_ok(),
        ensures r.iter_ok(), r.rest() == self.rest();
}
impl<I: VxIter> VxNext for I {
    fn next(&mut self) -> (r: Option<Self::Item>) { self.vx_next() }
    fn peekable(self) -> (r: VxPeekable<Self>) { VxPeekable { it: self, head: None } }
}
#[verifier::reject_recursive_types(I)]
pub struct VxPeekable<I: VxIter> { pub it: I, pub head: Option<I::Item> }
impl<I: VxIter> VxIter for VxPeekable<I> {
    type Item = I::Item;
    open spec fn rest(&self) -> Seq<I::Item> { match self.head { Some(x) => seq![x] + self.it.rest(), None => self.it.rest() } }
    open spec fn iter_ok(&self) -> bool { self.it.iter_ok() }
    fn vx_next(&mut self) -> (r: Option<I::Item>) {
        match self.head.take() {
            Some(x) => { proof { assert((seq![x] + self.it.rest()).drop_first() =~= self.it.rest()); } Some(x) }
            None => self.it.vx_next(),
        }
    }
}
impl<I: VxIter> VxPeekable<I> {
    pub fn peek(&mut self) -> (r: Option<&I::Item>)
        requires old(self).iter_ok(),
        ensures
            final(self).iter_ok(), final(self).rest() == old(self).rest(),
            r is Some <==> old(self).rest().len() > 0,
            r matches Some(x) ==> *x == old(self).rest()[0],
    {
        if self.head.is_none() {
            let ghost s = self.it.rest();
            self.head = self.it.vx_next();
            proof { if s.len() > 0 { assert(seq![s[0]] + s.drop_first() =~= s); } }
        }
        self.head.as_ref()
    }
}
#[verifier::external_body]
pub struct RangeIter { it: std::ops::Range<i32> }
impl VxIter for RangeIter {
    type Item = i32;
    uninterp spec fn rest(&self) -> Seq<i32>;
    open spec fn iter_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<i32>) { self.it.next() }
}
impl VxIntoIterator for std::ops::Range<i32> {
    type Item = i32;
    type IntoIter = RangeIter;
    open spec fn items(self) -> Seq<i32> { Seq::new((if self.end > self.start { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as i32) }
    open spec fn into_ok(self) -> bool { true }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: RangeIter) { RangeIter { it: self } }
}
} // mod vs
