pub mod vm {
use vstd::prelude::*;
use crate::vx::*;
// ---------------------------------------------------------------- core::hash::Hash and alloc::sync::Weak (assumed)
/// The keys of a map. Two keys are equal exactly if their views are (assumed of the key type).
pub trait Hash: View + VxKey<<Self as View>::V> + Sized {}
pub broadcast axiom fn axiom_key<T: Hash>(k: &T) ensures #[trigger] k.kv() == k@;
/// A handle onto a shared value: while that value lives, `target` is what it holds.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { p: std::marker::PhantomData<T> }
impl<T> Weak<T> {
    pub uninterp spec fn target(&self) -> T;
    pub uninterp spec fn alive(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_downgrade(of: &T) -> (r: Self) ensures r.alive(), r.target() == *of { unimplemented!() }
    /// What is done to the value is done to the target.
    #[verifier::external_body]
    pub fn upgrade<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures
            r is Some <==> old(self).alive(),
            final(self).alive() == old(self).alive(),
            r matches Some(x) ==> *x == old(self).target() && final(self).target() == *final(x),
            r is None ==> final(self).target() == old(self).target(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strong_count(&self) -> (r: usize) ensures r > 0 <==> self.alive() { unimplemented!() }
}
impl<K: View, V: View> Clone for DashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
} // mod vm
