@@ root
// ---- models of iterator adapters of the standard library which the verifier does not know
pub mod itermodel {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
/// stands for std::iter::Copied over a slice
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CopiedM<'a, T> { i: std::slice::Iter<'a, T> }
impl<'a, T> CopiedM<'a, T> {
    pub uninterp spec fn rem(self) -> Seq<T>;
}
impl<'a> CopiedM<'a, u8> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<u8>)
        ensures
            r.is_none() <==> self.rem().len() == 0,
            r matches Some(m) ==> self.rem().contains(m) && forall|i: int| 0 <= i < self.rem().len() ==> #[trigger] self.rem()[i] <= m,
    { unimplemented!() }
}
pub trait CopiedModel<'a, T>: Sized { fn copied_m(self) -> CopiedM<'a, T>; }
impl<'a, T> CopiedModel<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::external_body]
    fn copied_m(self) -> (r: CopiedM<'a, T>)
        ensures
            r.rem().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == *self.remaining()[i],
            forall|d: Seq<T>| #![trigger d.len()] d.len() == self.remaining().len() && (forall|i: int| 0 <= i < d.len() ==> *(#[trigger] self.remaining()[i]) == d[i]) ==> r.rem() == d,
    { unimplemented!() }
}
/// stands for std::slice::Chunks
pub struct ChunksM<'a, T> { pub s: &'a [T], pub n: usize }
impl<'a, T> ChunksM<'a, T> {
    pub open spec fn wf(self) -> bool { self.n > 0 }
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).n == old(self).n,
            match r {
                None => old(self).s@.len() == 0 && final(self).s@ == old(self).s@,
                Some(c) => {
                    &&& 0 < c@.len() <= old(self).n
                    &&& (c@.len() < old(self).n ==> final(self).s@.len() == 0)
                    &&& old(self).s@ == c@ + final(self).s@
                },
            },
    {
        let k = if self.s.len() < self.n { self.s.len() } else { self.n };
        if k == 0 { return None; }
        let (a, b) = self.s.split_at(k);
        proof { assert(self.s@ =~= a@ + b@); }
        self.s = b;
        Some(a)
    }
}
pub trait ChunksModel<T> {
    fn chunks_m(&self, n: usize) -> (r: ChunksM<'_, T>)
        requires n > 0;
}
impl<T> ChunksModel<T> for [T] {
    fn chunks_m(&self, n: usize) -> (r: ChunksM<'_, T>)
        ensures r.s@ == self@, r.n == n,
    { ChunksM { s: self, n } }
}
}
}
