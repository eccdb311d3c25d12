// ---------------------------------------------------------------- sockets (tokio, assumed)
pub mod vx_tcp {
use vstd::prelude::*;
use std::io::Error as IoError;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);
/// A lock that this task alone asks for; what it guards.
pub struct Mutex<T> { pub inner: T }
impl<T> Mutex<T> {
    pub fn new(x: T) -> (ret: Self) ensures ret.inner == x { Mutex { inner: x } }
    #[verifier::external_body]
    pub fn lock(&mut self) -> (ret: &mut T)
        ensures *ret == old(self).inner, final(self).inner == *final(ret),
    { &mut self.inner }
}
/// Reading through a buffer reads the same.
pub struct BufReader<T> { pub inner: T }
impl<T> BufReader<T> {
    pub fn new(x: T) -> (ret: Self) ensures ret.inner == x { BufReader { inner: x } }
}
impl BufReader<OwnedReadHalf> {
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (ret: Result<usize, IoError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            ret matches Ok(n) ==> n == old(buf)@.len() && old(self).inner.coming() == final(buf)@ + final(self).inner.coming(),
    { unimplemented!() }
}
#[verifier::external_body] pub struct TcpStream { _p: () }
pub trait ToSocketAddrs { }
impl TcpStream {
    #[verifier::external_body]
    pub fn connect(addrs: impl ToSocketAddrs) -> Result<TcpStream, IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) { unimplemented!() }
}
#[verifier::external_body] pub struct OwnedReadHalf { _p: () }
#[verifier::external_body] pub struct OwnedWriteHalf { _p: () }
impl OwnedReadHalf {
    /// What the peer sends from here on.
    pub uninterp spec fn coming(&self) -> Seq<u8>;
}
impl OwnedWriteHalf {
    /// What has been written to the peer.
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (ret: Result<(), IoError>)
        ensures ret is Ok ==> final(self).written() == old(self).written() + b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (ret: Result<(), IoError>)
        ensures ret is Ok ==> final(self).written() == old(self).written(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn drop<T>(x: T) ensures has_resolved::<T>(x) { }
pub trait VxTail {
    spec fn all(&self) -> Seq<u8>;
    /// `&mut x[n..]`.
    fn vx_tail(&mut self, n: usize) -> (ret: &mut [u8])
        requires n <= old(self).all().len(),
        ensures (*ret)@ == old(self).all().skip(n as int), final(self).all() == old(self).all().take(n as int) + (*final(ret))@;
}
impl VxTail for Vec<u8> {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_tail(&mut self, n: usize) -> (ret: &mut [u8]) { &mut self[n..] }
}
}
pub mod tokio { pub mod net { pub use crate::vx_tcp::ToSocketAddrs; } }
