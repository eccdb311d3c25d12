// ---------------------------------------------------------------- sockets (tokio, assumed)
pub mod vx_net {
use vstd::prelude::*;
#[verifier::external_body] pub struct VxIoError { _p: () }
/// `Box<dyn Error>`.
#[verifier::external_body] pub struct VxBoxed { _p: () }
impl From<VxIoError> for VxBoxed { #[verifier::external_body] fn from(e: VxIoError) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct OwnedReadHalf { _p: () }
#[verifier::external_body] pub struct OwnedWriteHalf { _p: () }
#[verifier::external_body] pub struct TcpStream { _p: () }
impl TcpStream {
    /// What has been read from the connection, and written to it.
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    pub uninterp spec fn written(&self) -> Seq<u8>;
    /// No more bytes will be read: the stream or the connection ended.
    pub uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    pub fn into_split(&mut self) -> (ret: (&mut OwnedReadHalf, &mut OwnedWriteHalf))
        ensures
            ret.0.taken() == old(self).taken(), ret.1.written() == old(self).written(),
            final(self).taken() == final(ret.0).taken(), final(self).over() == final(ret.0).over(),
            final(self).written() == final(ret.1).written(),
    { unimplemented!() }
}
pub struct BufReader { }
impl BufReader {
    /// Reading through a buffer reads the same.
    pub fn new<T>(x: T) -> (ret: T) ensures ret == x { x }
}
impl OwnedReadHalf {
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    pub uninterp spec fn over(&self) -> bool;
    /// Appends what comes next, however little, to the buffer; nothing only at the end.
    #[verifier::external_body]
    pub fn read_buf(&mut self, buf: &mut Vec<u8>) -> (ret: Result<usize, VxIoError>)
        ensures
            ret matches Ok(n) ==> ({
                &&& final(buf)@.len() == old(buf)@.len() + n
                &&& final(buf)@.take(old(buf)@.len() as int) == old(buf)@
                &&& final(self).taken() == old(self).taken() + final(buf)@.skip(old(buf)@.len() as int)
                &&& n == 0 ==> final(self).over()
            }),
            ret is Err ==> final(buf)@ == old(buf)@ && final(self).taken() == old(self).taken() && final(self).over(),
    { unimplemented!() }
}
impl OwnedWriteHalf {
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (ret: Result<(), VxIoError>)
        ensures ret is Ok ==> final(self).written() == old(self).written() + b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (ret: Result<(), VxIoError>)
        ensures ret is Ok ==> final(self).written() == old(self).written(),
    { unimplemented!() }
}
pub trait VxDrain { spec fn items(&self) -> Seq<u8>; fn vx_drain_to(&mut self, n: usize)
    requires n <= old(self).items().len(), ensures final(self).items() == old(self).items().skip(n as int); }
impl VxDrain for Vec<u8> {
    open spec fn items(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_drain_to(&mut self, n: usize) { self.drain(..n); }
}
}
