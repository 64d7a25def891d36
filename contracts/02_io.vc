@@ root
// ---- readers and writers: what is assumed of std::io implementations
pub mod iospec {
use vstd::prelude::*;
use std::io::{self, ErrorKind, Read, Write};
verus! {
pub uninterp spec fn err_kind(e: io::Error) -> ErrorKind;
pub assume_specification[ <ErrorKind as PartialEq>::eq ](a: &ErrorKind, b: &ErrorKind) -> (r: bool)
    ensures r == (a == b);
pub assume_specification[ io::Error::kind ](e: &io::Error) -> (r: ErrorKind)
    ensures r == err_kind(*e);

/// What a reader will deliver: all bytes, how often it still interrupts, and
/// the errors (other than interruptions) it has returned so far.
pub ghost struct RState { pub data: Seq<u8>, pub fuel: nat, pub errs: Seq<io::Error> }
pub uninterp spec fn rd<R: ?Sized>(r: &R) -> RState;
pub open spec fn read_post(s0: RState, s1: RState, b0: Seq<u8>, b1: Seq<u8>, r: io::Result<usize>) -> bool {
    &&& b1.len() == b0.len()
    &&& match r {
        Ok(n) => {
            &&& n <= b0.len()
            &&& n <= s0.data.len()
            &&& (n == 0 && b0.len() > 0 ==> s0.data.len() == 0)
            &&& b1.take(n as int) == s0.data.take(n as int)
            &&& s1.data == s0.data.skip(n as int)
            &&& s1.errs == s0.errs
            &&& s1.fuel <= s0.fuel
        }
        Err(e) => {
            &&& b1 == b0
            &&& s1.data == s0.data
            &&& if err_kind(e) == ErrorKind::Interrupted {
                s1.fuel < s0.fuel && s1.errs == s0.errs
            } else {
                s1.errs == s0.errs.push(e)
            }
        }
    }
}
#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures read_post(rd(old(self)), rd(final(self)), old(buf)@, final(buf)@, r);
}

/// What a writer has accepted so far and the errors it has returned.
pub ghost struct WState { pub out: Seq<u8>, pub errs: Seq<io::Error> }
pub uninterp spec fn wr<W: ?Sized>(w: &W) -> WState;
/// `b` is `a` after writing: for a mutable reference, it still refers to the same writer
pub uninterp spec fn same_sink<W: ?Sized>(a: &W, b: &W) -> bool;
pub broadcast axiom fn sink_refl<W: ?Sized>(a: &W)
    ensures #[trigger] same_sink(a, a);
pub broadcast axiom fn sink_trans<W: ?Sized>(a: &W, b: &W, c: &W)
    requires #[trigger] same_sink(a, b), #[trigger] same_sink(b, c),
    ensures same_sink(a, c);
/// writing through `&mut W` writes to the `W` it refers to
pub broadcast axiom fn wr_mut<W: Write>(r: &mut W)
    ensures #[trigger] wr::<&mut W>(&r) == wr::<W>(&mut_ref_current(r));
pub broadcast axiom fn sink_mut<W: Write>(a: &mut W, b: &mut W)
    requires #[trigger] same_sink::<&mut W>(&a, &b),
    ensures mut_ref_future(a) == mut_ref_future(b), same_sink::<W>(&mut_ref_current(a), &mut_ref_current(b));
pub broadcast group group_wr { sink_refl, sink_trans, wr_mut, sink_mut }

/// `s1` is `s0` after an attempt to write all of `b`
pub open spec fn wrote(s0: WState, s1: WState, b: Seq<u8>, ok: bool) -> bool {
    if ok {
        s1.out == s0.out + b && s1.errs == s0.errs
    } else {
        &&& s0.out.is_prefix_of(s1.out)
        &&& s1.out.is_prefix_of(s0.out + b)
        &&& s1.errs.len() == s0.errs.len() + 1
        &&& s1.errs.drop_last() == s0.errs
    }
}
pub open spec fn io_post<T>(s0: WState, s1: WState, b: Seq<u8>, r: io::Result<T>) -> bool {
    &&& wrote(s0, s1, b, r.is_ok())
    &&& r matches Err(e) ==> s1.errs.last() == e
}
#[verifier::external_trait_specification]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures
            same_sink(old(self), final(self)),
            r matches Ok(n) ==> n <= buf@.len() && wr(final(self)).out == wr(old(self)).out + buf@.take(n as int) && wr(final(self)).errs == wr(old(self)).errs,
            r matches Err(e) ==> wr(final(self)).out == wr(old(self)).out && wr(final(self)).errs == wr(old(self)).errs.push(e);
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures
            same_sink(old(self), final(self)),
            io_post(wr(old(self)), wr(final(self)), buf@, r);
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures
            same_sink(old(self), final(self)),
            r.is_ok() ==> wr(final(self)) == wr(old(self)),
            r matches Err(e) ==> wr(final(self)).out == wr(old(self)).out && wr(final(self)).errs == wr(old(self)).errs.push(e);
}
}
}
