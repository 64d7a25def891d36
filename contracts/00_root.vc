@@ root
#![allow(unused_imports, dead_code, unused_variables, unused_macros, unused_mut, non_camel_case_types, unused_parens, unused_braces)]
#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
// the code is checked for 64 bit targets
verus! { global size_of usize == 8; }

// Logging has no effect on results; the statements are dropped.
macro_rules! debug { ($($t:tt)*) => {} }
macro_rules! warn { ($($t:tt)*) => {} }
// A reachable panic is a failed obligation.
macro_rules! panic { ($($t:tt)*) => { crate::rt::rt_panic() } }
macro_rules! todo { ($($t:tt)*) => { crate::rt::rt_todo() } }
macro_rules! unreachable { ($($t:tt)*) => { crate::rt::rt_panic() } }
macro_rules! debug_assert { ($c:expr $(, $($t:tt)*)?) => { crate::rt::rt_assert($c) } }
macro_rules! debug_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::rt::rt_assert($a == $b) } }
macro_rules! assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::rt::rt_assert($a == $b) } }
macro_rules! assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::rt::rt_assert($a != $b) } }
macro_rules! assert { ($c:expr $(, $($t:tt)*)?) => { crate::rt::rt_assert($c) } }
// In the copies made for `guard` contracts an assertion ends the call instead.
macro_rules! guard_panic { ($($t:tt)*) => { crate::rt::rt_todo() } }
macro_rules! guard_none { ($($t:tt)*) => {} }
macro_rules! guard_none_eq { ($($t:tt)*) => {} }
macro_rules! guard_none_ne { ($($t:tt)*) => {} }
macro_rules! guard_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::rt::rt_guard($a == $b) } }
macro_rules! guard_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::rt::rt_guard($a != $b) } }
macro_rules! guard { ($c:expr $(, $($t:tt)*)?) => { crate::rt::rt_guard($c) } }

pub mod rt {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub fn rt_panic() -> !
    requires false,
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_todo() -> !
{ unimplemented!() }
/// number of pairs of zip
pub fn zip_len(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
#[verifier::external_body]
pub fn rt_assert(c: bool)
    requires c,
{ }
/// returns only if the condition holds
#[verifier::external_body]
pub fn rt_guard(c: bool)
    ensures c,
{ core::assert!(c) }
}
}

pub mod pix {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct Raster<P> { p: Vec<P> }
#[verifier::external_body]
pub struct Palette { p: u8 }
#[derive(Clone, Copy)]
pub struct Region { pub x: i32, pub y: i32, pub width: i32, pub height: i32 }
impl PartialEq for Region {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool)
        ensures r == (*self == *o),
    { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Region {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
/// the part of a region inside of an image
pub open spec fn inside(w: int, h: int, reg: Region) -> Region {
    let x1 = if reg.x + reg.width < w { reg.x + reg.width } else { w };
    let y1 = if reg.y + reg.height < h { reg.y + reg.height } else { h };
    let x0 = if reg.x > 0 { reg.x as int } else { 0 };
    let y0 = if reg.y > 0 { reg.y as int } else { 0 };
    if x0 < x1 && y0 < y1 { Region { x: x0 as i32, y: y0 as i32, width: (x1 - x0) as i32, height: (y1 - y0) as i32 } }
    else { Region { x: 0, y: 0, width: 0, height: 0 } }
}
/// the pixels of a region are replaced by one colour
pub open spec fn painted<P>(w: int, px: Seq<P>, reg: Region, clr: P) -> Seq<P> {
    Seq::new(px.len(), |i: int| if reg.x <= i % w < reg.x + reg.width && reg.y <= i / w < reg.y + reg.height { clr } else { px[i] })
}
impl Region {
    #[verifier::external_body]
    pub fn new(x: i32, y: i32, width: u32, height: u32) -> (r: Region)
        requires width <= 0x7fff_ffff, height <= 0x7fff_ffff,
        ensures r == (Region { x, y, width: width as i32, height: height as i32 }),
    { unimplemented!() }
}
/// default pixel
pub uninterp spec fn clear<P>() -> P;
pub axiom fn clear_rgba()
    ensures clear::<rgb::SRgba8>() == (rgb::SRgba8 { r: 0, g: 0, b: 0, a: 0 });
pub axiom fn px_len<P>(r: &Raster<P>)
    ensures r.px().len() == r.w() * r.h(), r.w() <= 0x7fff_ffff, r.h() <= 0x7fff_ffff;
pub axiom fn gray_len(r: &Raster<gray::Gray8>)
    ensures r.gray().len() == r.w() * r.h();
impl<P> Raster<P> {
    pub uninterp spec fn w(&self) -> nat;
    pub uninterp spec fn h(&self) -> nat;
    /// pixels, row by row
    pub uninterp spec fn px(&self) -> Seq<P>;
    /// bytes of the pixels, row by row
    pub uninterp spec fn gray(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn with_clear(width: u32, height: u32) -> (r: Self)
        requires width as nat * height as nat <= 0x7fff_ffff,
        ensures r.w() == width, r.h() == height, r.px() == Seq::new(width as nat * height as nat, |i: int| clear::<P>()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_raster(r: &Self) -> (c: Self)
        requires r.w() > 0,
        ensures c.w() == r.w(), c.h() == r.h(), c.px() == r.px(), c.gray() == r.gray(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32)
        ensures r == self.w(), r <= 0x7fff_ffff,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32)
        ensures r == self.h(), r <= 0x7fff_ffff,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u8_slice(&self) -> (r: &[u8])
        ensures r@ == self.gray(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_color(&mut self, reg: Region, clr: P)
        ensures
            final(self).w() == old(self).w(), final(self).h() == old(self).h(),
            final(self).px() == painted(old(self).w() as int, old(self).px(), inside(old(self).w() as int, old(self).h() as int, reg), clr),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(&self, reg: Region) -> (r: Region)
        ensures r == inside(self.w() as int, self.h() as int, reg),
    { unimplemented!() }
    /// number of items of rows_mut
    #[verifier::external_body]
    pub fn rows_count(&self, reg: Region) -> (r: usize)
        requires self.w() > 0,
        ensures r == inside(self.w() as int, self.h() as int, reg).height,
    { unimplemented!() }
    /// item of rows_mut
    #[verifier::external_body]
    pub fn row_at_mut(&mut self, reg: Region, y: usize) -> (row: &mut [P])
        requires
            old(self).w() > 0,
            y < inside(old(self).w() as int, old(self).h() as int, reg).height,
        ensures
            final(self).w() == old(self).w(), final(self).h() == old(self).h(),
            final(row)@.len() == row@.len(),
            ({
                let s = inside(old(self).w() as int, old(self).h() as int, reg);
                let o = (s.y + y) * old(self).w() + s.x;
                &&& row@ == old(self).px().subrange(o, o + s.width)
                &&& final(self).px() == old(self).px().take(o) + final(row)@ + old(self).px().skip(o + s.width)
            }),
    { unimplemented!() }
}
impl<P> Clone for Raster<P> {
    #[verifier::external_body]
    fn clone(&self) -> (c: Self)
        ensures c.w() == self.w(), c.h() == self.h(), c.px() == self.px(), c.gray() == self.gray(),
    { unimplemented!() }
}
impl Clone for Palette {
    #[verifier::external_body]
    fn clone(&self) -> (c: Self)
        ensures c.pal() == self.pal(),
    { unimplemented!() }
}
impl Palette {
    pub uninterp spec fn pal(&self) -> Seq<rgb::SRgb8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.pal().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn colors(&self) -> (r: &[rgb::SRgb8])
        ensures r@ == self.pal(),
    { unimplemented!() }
}
}
pub mod chan { use vstd::prelude::*; verus! {
#[derive(Clone, Copy)]
pub struct Ch8(pub u8);
impl From<Ch8> for u8 {
    #[verifier::external_body]
    fn from(c: Ch8) -> (r: u8)
        ensures r == c.0,
    { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<Ch8> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: Ch8) -> u8 { c.0 }
}
} }
pub mod gray { use vstd::prelude::*; verus! {
#[derive(Clone, Copy)]
pub struct Gray8 { pub v: u8 }
} }
pub mod rgb { use vstd::prelude::*; use super::chan::Ch8; verus! {
#[derive(Clone, Copy)]
pub struct SRgba8 { pub r: u8, pub g: u8, pub b: u8, pub a: u8 }
#[derive(Clone, Copy)]
pub struct SRgb8 { pub r: u8, pub g: u8, pub b: u8 }
pub struct Rgb {}
impl Rgb {
    #[verifier::external_body]
    pub fn red(c: SRgb8) -> (r: Ch8)
        ensures r.0 == c.r,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn green(c: SRgb8) -> (r: Ch8)
        ensures r.0 == c.g,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn blue(c: SRgb8) -> (r: Ch8)
        ensures r.0 == c.b,
    { unimplemented!() }
}
impl SRgba8 {
    #[verifier::external_body]
    pub fn new(r: u8, g: u8, b: u8, a: u8) -> (c: SRgba8)
        ensures c == (SRgba8 { r, g, b, a }),
    { unimplemented!() }
}
impl Default for SRgba8 {
    #[verifier::external_body]
    fn default() -> (c: SRgba8)
        ensures c == (SRgba8 { r: 0, g: 0, b: 0, a: 0 }),
    { unimplemented!() }
}
} }
}

pub mod std_specs {
use vstd::prelude::*;
use std::slice::SliceIndex;
use vstd::slice::SliceIndexSpec;
use std::alloc::Allocator;
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExIoErrorKind(std::io::ErrorKind);
pub assume_specification<T, I: SliceIndex<[T]>, A: Allocator> [<Vec<T, A> as std::ops::IndexMut<I>>::index_mut] (v: &mut Vec<T,A>, i: I) -> (r: &mut <Vec<T,A> as std::ops::Index<I>>::Output)
    ensures exists|s0: &[T], s1: &[T]| s0@ == old(v)@ && s1@ == final(v)@ && #[trigger] i.index_mut_postcondition(s0, s1, r, final(r));
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification [<core::cmp::Ordering as PartialEq>::eq] (a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool)
    ensures r == (a == b);
/// r is the smallest power of two which is not less than n
pub open spec fn next_p2(n: nat, r: nat) -> bool {
    n <= r && exists|k: nat| #[trigger] crate::lzspec::p2(k) == r && (k == 0 || crate::lzspec::p2((k - 1) as nat) < n)
}
pub assume_specification [usize::next_power_of_two] (_0: usize) -> (r: usize)
    requires _0 <= 0x8000_0000_0000_0000,
    ensures next_p2(_0 as nat, r as nat);
pub assume_specification [u32::next_power_of_two] (_0: u32) -> (r: u32)
    requires _0 <= 0x8000_0000,
    ensures next_p2(_0 as nat, r as nat);
pub assume_specification<T: core::clone::Clone>[<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| #![trigger s@[i]] #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]);
pub assume_specification<T, A: Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (a + b - 1) / (b as int);
/// the question mark operator converts errors by From
pub broadcast axiom fn question_mark<S, T: From<S>>(v: S, r: T)
    requires
        #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(v, r),
        <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec(),
    ensures r == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v);
/// the slice of all elements
pub broadcast proof fn full_slice<T>(s: Seq<T>)
    ensures #[trigger] s.subrange(0, s.len() as int) == s,
{ assert(s.subrange(0, s.len() as int) =~= s); }
/// a vector from a slice of bytes
pub broadcast axiom fn vec_from_slice(s: &[u8])
    ensures
        <Vec<u8> as vstd::std_specs::convert::FromSpec<&[u8]>>::obeys_from_spec(),
        (<Vec<u8> as vstd::std_specs::convert::FromSpec<&[u8]>>::from_spec(s))@ == #[trigger] s@;
pub axiom fn u16_into_i32(v: u16)
    ensures
        <u16 as vstd::std_specs::convert::IntoSpec<i32>>::obeys_into_spec(),
        <u16 as vstd::std_specs::convert::IntoSpec<i32>>::into_spec(v) == v as i32;
}
}
@@ module error
@@ drop Error as Display
@@ drop Error as Error
@@ module encode
