@@ cli_root
// ---- models for the command: terminal output, strings, files, arguments
pub mod climodel {
use vstd::prelude::*;
use std::io::{self, Read};
use crate::iospec::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
/// What is shown: a text, a number, hundredths or a path
pub ghost enum Val { Char(char), Str(Seq<char>), Text(Seq<Piece>), Int(int), Ratio(F32V), Path(Seq<u8>) }
pub ghost enum F32V { Of(int), Lit(Seq<char>), Div(Box<F32V>, Box<F32V>) }
/// Part of the output: a character, or a value with alignment (1 left, 2 right, 3 center), width, precision
pub ghost enum Piece { Ch(char), Arg { v: Val, align: u8, width: nat, prec: Option<usize>, debug: bool } }
pub open spec fn piece(v: Val, num: bool, align: u8, width: nat, prec: Option<usize>, debug: bool) -> Piece {
    match v {
        Val::Char(c) if width == 0 && prec is None && !debug => Piece::Ch(c),
        _ => Piece::Arg { v, align: if width == 0 { 0 } else if align == 0 { if num { 2 } else { 1 } } else { align }, width, prec, debug },
    }
}
/// std::fmt::Display and Debug
pub trait Show {
    spec fn val(&self) -> Val;
    spec fn num() -> bool;
}
impl Show for u8 { open spec fn val(&self) -> Val { Val::Int(*self as int) } open spec fn num() -> bool { true } }
impl Show for u16 { open spec fn val(&self) -> Val { Val::Int(*self as int) } open spec fn num() -> bool { true } }
impl Show for u32 { open spec fn val(&self) -> Val { Val::Int(*self as int) } open spec fn num() -> bool { true } }
impl Show for usize { open spec fn val(&self) -> Val { Val::Int(*self as int) } open spec fn num() -> bool { true } }
impl Show for char { open spec fn val(&self) -> Val { Val::Char(*self) } open spec fn num() -> bool { false } }
impl Show for str { open spec fn val(&self) -> Val { Val::Str(self@) } open spec fn num() -> bool { false } }
impl Show for String { open spec fn val(&self) -> Val { Val::Text(self.text()) } open spec fn num() -> bool { false } }
impl Show for OsString { open spec fn val(&self) -> Val { Val::Path(self.bytes()) } open spec fn num() -> bool { false } }
impl Show for F32 { open spec fn val(&self) -> Val { Val::Ratio(self.v()) } open spec fn num() -> bool { true } }
impl<T: Show + ?Sized> Show for &T { open spec fn val(&self) -> Val { (**self).val() } open spec fn num() -> bool { T::num() } }

// ---- std::string
#[verifier::external_body]
pub struct String { s: std::string::String }
/// text with each byte sequence which is not UTF-8 replaced
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<Piece>;
pub uninterp spec fn split_at(t: Seq<Piece>, sep: Seq<char>) -> Seq<Seq<Piece>>;
pub uninterp spec fn trimmed(t: Seq<Piece>) -> Seq<Piece>;
pub uninterp spec fn no_text(t: Seq<Piece>) -> bool;
impl String {
    pub uninterp spec fn text(&self) -> Seq<Piece>;
    #[verifier::external_body]
    pub fn new_text() -> (r: String) ensures r.text() == Seq::<Piece>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_char(&mut self, c: char) ensures final(self).text() == old(self).text().push(Piece::Ch(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_arg<T: Show + ?Sized>(&mut self, v: &T, align: u8, width: usize, prec: Option<usize>, debug: bool)
        ensures final(self).text() == old(self).text().push(piece(v.val(), T::num(), align, width as nat, prec, debug))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8_lossy(b: &[u8]) -> (r: String) ensures r.text() == lossy(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_m(&self) -> (r: String) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: String) ensures r.text() == trimmed(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == no_text(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, sep: &str) -> (r: Split) ensures r.parts() == split_at(self.text(), sep@), r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct Split { s: u8 }
impl Split {
    pub uninterp spec fn parts(&self) -> Seq<Seq<Piece>>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<String>)
        requires old(self).pos() <= old(self).parts().len(),
        ensures
            final(self).parts() == old(self).parts(),
            match r {
                None => old(self).pos() == old(self).parts().len() && final(self).pos() == old(self).pos(),
                Some(s) => old(self).pos() < old(self).parts().len() && final(self).pos() == old(self).pos() + 1 && s.text() == old(self).parts()[old(self).pos() as int],
            },
    { unimplemented!() }
}
pub trait ToStringModel { fn to_string_m(&self) -> String; }
impl ToStringModel for str {
    #[verifier::external_body]
    fn to_string_m(&self) -> (r: String) ensures r.text() == seq![piece(Val::Str(self@), false, 0, 0, None, false)] { unimplemented!() }
}
/// comparisons only choose colors
impl PartialEq<&str> for String {
    #[verifier::external_body]
    fn eq(&self, o: &&str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ---- std::iter::Enumerate
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumM<T> { v: Vec<T> }
impl<T> EnumM<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        requires old(self).pos() <= old(self).all().len(),
        ensures
            final(self).all() == old(self).all(),
            match r {
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
                Some((n, x)) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && n == old(self).pos() && x == old(self).all()[n as int],
            },
    { unimplemented!() }
}
pub trait EnumModel<T>: Sized { fn enumerate_m(self) -> EnumM<T>; }
impl<T> EnumModel<T> for std::vec::IntoIter<T> {
    #[verifier::external_body]
    fn enumerate_m(self) -> (r: EnumM<T>) ensures r.all() == self.remaining(), r.pos() == 0 { unimplemented!() }
}
impl<'a, T> EnumModel<&'a T> for std::slice::Iter<'a, T> {
    #[verifier::external_body]
    fn enumerate_m(self) -> (r: EnumM<&'a T>) ensures r.all() == self.remaining(), r.pos() == 0 { unimplemented!() }
}

// ---- f32
#[verifier::external_body]
pub struct F32 { f: f32 }
impl F32 { pub uninterp spec fn v(&self) -> F32V; }
#[verifier::external_body]
pub fn f32_of(n: u16) -> (r: F32) ensures r.v() == F32V::Of(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn f32_div(a: F32, b: F32) -> (r: F32) ensures r.v() == F32V::Div(Box::new(a.v()), Box::new(b.v())) { unimplemented!() }
#[verifier::external_body]
pub fn f32_lit(s: &str) -> (r: F32) ensures r.v() == F32V::Lit(s@) { unimplemented!() }

// ---- termcolor; colors are not part of the text
/// writing to the terminal has failed in this run
pub uninterp spec fn write_failed() -> bool;
#[verifier::external_body]
pub struct StandardStream { s: u8 }
pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
pub enum Color { Black, Blue, Green, Red, Cyan, Magenta, Yellow, White }
#[verifier::external_body]
pub struct ColorSpec { s: u8 }
impl ColorSpec {
    #[verifier::external_body]
    pub fn new() -> ColorSpec { unimplemented!() }
    #[verifier::external_body]
    pub fn set_fg(&mut self, c: Option<Color>) -> &mut ColorSpec { unimplemented!() }
    #[verifier::external_body]
    pub fn set_intense(&mut self, b: bool) -> &mut ColorSpec { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bold(&mut self, b: bool) -> &mut ColorSpec { unimplemented!() }
}
impl StandardStream {
    /// text printed so far
    pub uninterp spec fn text(&self) -> Seq<Piece>;
    pub open spec fn kept(&self, b: &Self, r: io::Result<()>) -> bool {
        match r { Ok(()) => b.text() == self.text(), Err(_) => write_failed() }
    }
    #[verifier::external_body]
    pub fn stdout(c: ColorChoice) -> (r: StandardStream) ensures r.text() == Seq::<Piece>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_char(&mut self, c: char) ensures final(self).text() == old(self).text().push(Piece::Ch(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_arg<T: Show + ?Sized>(&mut self, v: &T, align: u8, width: usize, prec: Option<usize>, debug: bool)
        ensures final(self).text() == old(self).text().push(piece(v.val(), T::num(), align, width as nat, prec, debug))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_end(&mut self) -> (r: io::Result<()>) ensures old(self).kept(final(self), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_color(&mut self, c: &ColorSpec) -> (r: io::Result<()>) ensures old(self).kept(final(self), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) -> (r: io::Result<()>) ensures old(self).kept(final(self), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) ensures old(self).kept(final(self), r) { unimplemented!() }
}

// ---- files
#[verifier::external_body]
pub struct OsString { s: u8 }
pub type OsStr = OsString;
impl OsString { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
/// bytes of the file with a path while the command runs
pub uninterp spec fn content(path: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn open_failed(path: Seq<u8>) -> bool;
/// reading of a file has failed in this run
pub uninterp spec fn read_failed() -> bool;
#[verifier::external_body]
pub struct File { f: u8 }
impl File {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open(path: &OsStr) -> (r: io::Result<File>)
        ensures match r { Ok(f) => f.path() == path.bytes(), Err(_) => open_failed(path.bytes()) }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct BufReader { f: u8 }
impl BufReader {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufReader) ensures rd(&r).data == content(f.path()), rd(&r).errs.len() == 0 { unimplemented!() }
}
impl Read for BufReader {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
pub axiom fn errors_are_failures(b: &BufReader)
    ensures rd(b).errs.len() > 0 ==> read_failed();

// ---- anyhow
#[verifier::external_body]
pub struct Failure { e: u8 }
pub type Result<T> = std::result::Result<T, Failure>;
impl From<io::Error> for Failure {
    #[verifier::external_body]
    fn from(e: io::Error) -> Failure { unimplemented!() }
}
impl From<crate::error::Error> for Failure {
    #[verifier::external_body]
    fn from(e: crate::error::Error) -> Failure { unimplemented!() }
}

// ---- numbers
pub axiom fn into_usize()
    ensures
        <u16 as IntoSpec<usize>>::obeys_into_spec(), <usize as IntoSpec<usize>>::obeys_into_spec(),
        forall|v: u16| #[trigger] <u16 as IntoSpec<usize>>::into_spec(v) == v as usize,
        forall|v: usize| #[trigger] <usize as IntoSpec<usize>>::into_spec(v) == v;
}
/// the logger is set up, the arguments are parsed
pub mod env_logger {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Builder { b: u8 }
#[verifier::external_body]
pub fn builder() -> Builder { unimplemented!() }
impl Builder {
    #[verifier::external_body]
    pub fn format_timestamp(&mut self, t: Option<u8>) -> &mut Builder { unimplemented!() }
    #[verifier::external_body]
    pub fn init(&mut self) { unimplemented!() }
}
}
}
pub mod argh {
use vstd::prelude::*;
verus! {
pub uninterp spec fn arguments<T>() -> T;
#[verifier::external_body]
pub fn from_env<T>() -> (r: T) ensures r == arguments::<T>() { unimplemented!() }
}
}
}
// ---- what the command shows
pub mod clispec {
use vstd::prelude::*;
use crate::climodel::*;
use crate::parsespec::*;
use crate::block::*;
verus! {
pub open spec fn digits_of(n: nat) -> nat { if n < 10 { 1 } else if n < 100 { 2 } else if n < 1000 { 3 } else if n < 10000 { 4 } else { 5 } }
pub open spec fn max_of(a: nat, b: nat) -> nat { if a < b { b } else { a } }

// ---- the frames of a file
pub ghost struct Listed { pub frames: Seq<FrameV>, pub err: Option<EV> }
pub open spec fn frames_run(fs: FS, d: Seq<u8>) -> Listed
    decreases d.len()
{
    let n = frame_next(fs, d);
    match n.item {
        None => Listed { frames: Seq::empty(), err: None },
        Some(Err(e)) => Listed { frames: Seq::empty(), err: Some(e) },
        Some(Ok(f)) => if n.rest.len() < d.len() { let a = frames_run(n.fs, n.rest); Listed { frames: seq![f] + a.frames, err: a.err } } else { arbitrary() },
    }
}
/// preamble and frames of a file, or the error which ends decoding
pub open spec fn decoded(d: Seq<u8>) -> std::result::Result<(PreV, Seq<FrameV>), EV> {
    let fs = crate::private::fs_new(Some(33554432usize));
    let p = pre_run(FS { pre: Some(preamble_default()), ..fs }, d);
    match p.r {
        Err(e) => Err(e),
        Ok(pre) => {
            let l = frames_run(p.fs, p.rest);
            match l.err { Some(e) => Err(e), None => Ok((pre, l.frames)) }
        }
    }
}

// ---- text
pub type T = Seq<Piece>;
macro_rules! chs { ($t:expr; ) => { $t }; ($t:expr; $c:literal $($r:literal)*) => { chs!($t.push(Piece::Ch($c)); $($r)*) } }
pub open spec fn shown(t: T, v: Val) -> T { t.push(piece(v, v is Int, 0, 0, None, false)) }
/// in a column
pub open spec fn right(t: T, v: Val, width: nat) -> T { t.push(piece(v, v is Int, 2, width, None, false)) }
pub open spec fn pair(a: u16, c: char, b: u16) -> Val { Val::Text(shown(shown(Seq::empty(), Val::Int(a as int)).push(Piece::Ch(c)), Val::Int(b as int))) }
/// 6 characters with 2 decimals of hundredths / 100
pub open spec fn seconds(t: T, d: u16) -> T {
    t.push(piece(Val::Ratio(F32V::Div(Box::new(F32V::Of(d as int)), Box::new(F32V::Of(100)))), true, 0, 6, Some(2), false))
}
pub open spec fn disposal_name(f: FrameV) -> Seq<char> {
    match f.gce {
        None => "-"@,
        Some(g) => match gce_disp(g.flags) {
            DisposalMethod::NoAction => "none"@,
            DisposalMethod::Keep => "keep"@,
            DisposalMethod::Background => "bg"@,
            DisposalMethod::Previous => "prev"@,
            _ => "res"@,
        },
    }
}
pub open spec fn transparent_text(f: FrameV) -> Val {
    match f.gce {
        Some(g) if gce_trans(g) is Some => Val::Text(shown(Seq::empty(), Val::Int(gce_trans(g)->Some_0 as int))),
        _ => Val::Text(seq![piece(Val::Str("-"@), false, 0, 0, None, false)]),
    }
}
pub open spec fn delay_of(f: FrameV) -> u16 { match f.gce { Some(g) => g.delay_time_cs, None => 0 } }
pub open spec fn colors_text(t: T, f: FrameV, global: nat) -> T {
    let n = desc_cfg(f.desc.flags).slen();
    if n > 0 { right(chs!(t; ' ' ' '), Val::Int(n as int), 3) } else { right(chs!(t; ' '), Val::Int(global as int), 3).push(Piece::Ch('g')) }
}
/// line for frame n
pub open spec fn frame_line(t: T, f: FrameV, global: nat, n: nat, fd: nat, sd: nat) -> T {
    let t = t.push(Piece::Ch(if f.desc.flags & 0x40 != 0 { 'i' } else { ' ' }));
    let t = right(t, Val::Int(n as int), fd);
    let t = seconds(chs!(t; ' '), delay_of(f));
    let t = right(chs!(t; ' '), Val::Str(disposal_name(f)), 4);
    let t = right(chs!(t; ' '), pair(f.desc.width, 'x', f.desc.height), sd);
    let t = right(chs!(t; ' '), pair(f.desc.left, ',', f.desc.top), sd);
    let t = colors_text(t, f, global);
    let t = right(chs!(t; ' '), transparent_text(f), 3);
    chs!(t; '\n')
}
pub open spec fn frame_lines(t: T, fs: Seq<FrameV>, n: nat, global: nat, fd: nat, sd: nat) -> T
    decreases n
{
    if n == 0 { t } else { frame_line(frame_lines(t, fs, (n - 1) as nat, global, fd, sd), fs[n - 1], global, (n - 1) as nat, fd, sd) }
}
// comments: lines which are not empty
pub open spec fn lines(acc: Seq<T>, parts: Seq<T>, n: nat) -> Seq<T>
    decreases n
{
    if n == 0 { acc } else {
        let a = lines(acc, parts, (n - 1) as nat);
        let l = trimmed(parts[n - 1]);
        if no_text(l) { a } else { a.push(l) }
    }
}
pub open spec fn parts_of(b: Seq<u8>) -> Seq<T> { split_at(lossy(b), "\n"@) }
pub open spec fn block_lines(acc: Seq<T>, subs: Seq<Seq<u8>>, n: nat) -> Seq<T>
    decreases n
{
    if n == 0 { acc } else { let p = parts_of(subs[n - 1]); lines(block_lines(acc, subs, (n - 1) as nat), p, p.len()) }
}
pub open spec fn comment_lines(cs: Seq<Seq<Seq<u8>>>, n: nat) -> Seq<T>
    decreases n
{
    if n == 0 { Seq::empty() } else { block_lines(comment_lines(cs, (n - 1) as nat), cs[n - 1], cs[n - 1].len()) }
}
pub open spec fn comments_text(t: T, ls: Seq<T>, n: nat) -> T
    decreases n
{
    if n == 0 { t } else { let t = comments_text(t, ls, (n - 1) as nat); let l = ls[n - 1]; chs!(shown(chs!(t; ' ' ' ' '#' ' '), Val::Text(l)); '\n') }
}
pub open spec fn repeat_text(t: T, p: PreV) -> T {
    match p.looping {
        Some(a) if loop_of(a) is Some => {
            let t = chs!(t; ',' ' ' 'r' 'e' 'p' 'e' 'a' 't' ':' ' ');
            let c = loop_of(a)->Some_0;
            if c == 0 { chs!(t; '∞') } else { shown(t, Val::Int(c as int)) }
        }
        _ => t,
    }
}
/// everything before the lines of frames
pub open spec fn title(t: T, path: Seq<u8>, p: PreV, count: nat, fd: nat, sd: nat) -> T {
    let t = t.push(piece(Val::Path(path), false, 0, 0, None, true));
    let t = chs!(t; '\n' 'G' 'I' 'F');
    let t = shown(t, Val::Text(lossy(p.header)));
    let t = chs!(t; ',' ' ' 'f' 'r' 'a' 'm' 'e' 's' ':' ' ');
    let t = shown(t, Val::Int(count as int));
    let t = repeat_text(t, p);
    let ls = comment_lines(p.comments, p.comments.len());
    let t = if ls.len() > 0 { comments_text(t, ls, ls.len()) } else { chs!(t; '\n') };
    let t = right(chs!(t; ' '), Val::Str("Fr#"@), fd);
    let t = chs!(t; ' ' ' ' 'D' 'e' 'l' 'a' 'y' ' ' 'D' 'i' 's' 'p' ' ');
    let t = right(t, Val::Str("Size"@), sd);
    let t = right(chs!(t; ' '), Val::Str("X,Y"@), sd);
    chs!(t; ' ' 'C' 'l' 'r' 's' ' ' 'T' 'r' 'n' '\n')
}
pub open spec fn size_col(p: PreV) -> nat { max_of(4, 1 + digits_of(p.lsd.screen_width as nat) + digits_of(p.lsd.screen_height as nat)) }
pub open spec fn listing(t: T, path: Seq<u8>, p: PreV, fs: Seq<FrameV>) -> T {
    let fd = max_of(3, digits_of(fs.len()));
    let sd = size_col(p);
    frame_lines(title(t, path, p, fs.len(), fd, sd), fs, fs.len(), lsd_cfg(p.lsd.flags).slen(), fd, sd)
}
/// result of showing one file
pub open spec fn file_post(a: StandardStream, b: StandardStream, path: Seq<u8>, r: crate::climodel::Result<()>) -> bool {
    match decoded(content(path)) {
        Err(_) => r is Err,
        Ok((p, fs)) => match r {
            Ok(()) => b.text() == listing(a.text(), path, p, fs),
            Err(_) => write_failed() || open_failed(path) || read_failed(),
        },
    }
}
pub open spec fn can(path: Seq<u8>) -> bool { decoded(content(path)) is Ok }
pub open spec fn listings(t: T, files: Seq<OsString>, n: nat) -> T
    decreases n
{
    if n == 0 { t } else {
        let path = files[n - 1].bytes();
        let (p, fs) = decoded(content(path))->Ok_0;
        listing(listings(t, files, (n - 1) as nat), path, p, fs)
    }
}
pub open spec fn run_ok(files: Seq<OsString>) -> bool { forall|i: int| 0 <= i < files.len() ==> can(#[trigger] files[i].bytes()) }
pub open spec fn env_failed(files: Seq<OsString>) -> bool { write_failed() || read_failed() || exists|i: int| 0 <= i < files.len() && open_failed(#[trigger] files[i].bytes()) }
}
}
// ---- C19 over the contract of show_file
pub mod c19 {
use vstd::prelude::*;
use crate::climodel::*;
use crate::clispec::*;
use crate::parsespec::*;
use crate::block::*;
verus! {
pub open spec fn is_line(l: T) -> bool { l.len() > 0 && l.last() == Piece::Ch('\n') && forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] l[i] != Piece::Ch('\n') }
pub open spec fn joined(ls: Seq<T>) -> T
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { joined(ls.drop_last()) + ls.last() }
}
pub open spec fn line_of(fs: Seq<FrameV>, i: int, global: nat, fd: nat, sd: nat) -> T { frame_line(Seq::empty(), fs[i], global, i as nat, fd, sd) }
pub proof fn line_alone(t: T, f: FrameV, global: nat, n: nat, fd: nat, sd: nat)
    ensures
        frame_line(t, f, global, n, fd, sd) == t + frame_line(Seq::empty(), f, global, n, fd, sd),
        is_line(frame_line(Seq::empty(), f, global, n, fd, sd)),
{
    assert(frame_line(t, f, global, n, fd, sd) =~= t + frame_line(Seq::empty(), f, global, n, fd, sd));
}
/// one line for each frame, in order, behind the title
pub proof fn one_line_per_frame(t: T, path: Seq<u8>, p: PreV, fs: Seq<FrameV>) -> (ls: Seq<T>)
    ensures
        ls.len() == fs.len(),
        listing(t, path, p, fs) == title(t, path, p, fs.len(), max_of(3, digits_of(fs.len())), size_col(p)) + joined(ls),
        forall|i: int| 0 <= i < fs.len() ==> is_line(#[trigger] ls[i]) && ls[i] == line_of(fs, i, lsd_cfg(p.lsd.flags).slen(), max_of(3, digits_of(fs.len())), size_col(p)),
{
    let fd = max_of(3, digits_of(fs.len()));
    let sd = size_col(p);
    let global = lsd_cfg(p.lsd.flags).slen();
    split(title(t, path, p, fs.len(), fd, sd), fs, fs.len(), global, fd, sd)
}
proof fn split(t: T, fs: Seq<FrameV>, n: nat, global: nat, fd: nat, sd: nat) -> (ls: Seq<T>)
    requires n <= fs.len(),
    ensures
        ls.len() == n, frame_lines(t, fs, n, global, fd, sd) == t + joined(ls),
        forall|i: int| 0 <= i < n ==> is_line(#[trigger] ls[i]) && ls[i] == line_of(fs, i, global, fd, sd),
    decreases n
{
    hide(frame_line); hide(is_line);
    if n == 0 {
        assert(t =~= t + Seq::empty());
        Seq::empty()
    } else {
        let m = (n - 1) as nat;
        let ls = split(t, fs, m, global, fd, sd);
        let l = line_of(fs, m as int, global, fd, sd);
        let u = frame_lines(t, fs, m, global, fd, sd);
        line_alone(u, fs[m as int], global, m, fd, sd);
        assert(ls.push(l).drop_last() =~= ls);
        assert((t + joined(ls)) + l =~= t + (joined(ls) + l));
        ls.push(l)
    }
}
/// columns: the number of colors is the one of the local table, if there is one
pub proof fn frame_shown(f: FrameV, global: nat, n: nat, fd: nat, sd: nat)
    ensures
        ({
            let l = frame_line(Seq::empty(), f, global, n, fd, sd);
            &&& l[0] == Piece::Ch(if f.desc.flags & 0x40 != 0 { 'i' } else { ' ' })
            &&& (l[1] matches Piece::Arg { v, .. } && v == Val::Int(n as int))
            &&& (l[3] matches Piece::Arg { v, prec, .. } && v == Val::Ratio(F32V::Div(Box::new(F32V::Of(delay_of(f) as int)), Box::new(F32V::Of(100)))) && prec == Some(2usize))
            &&& (l[5] matches Piece::Arg { v, .. } && v == Val::Str(disposal_name(f)))
            &&& (l[7] matches Piece::Arg { v, .. } && v == pair(f.desc.width, 'x', f.desc.height))
            &&& (l[9] matches Piece::Arg { v, .. } && v == pair(f.desc.left, ',', f.desc.top))
            &&& (l[if desc_cfg(f.desc.flags).slen() > 0 { 12int } else { 11int }] matches Piece::Arg { v, .. } && v == Val::Int(if desc_cfg(f.desc.flags).slen() > 0 { desc_cfg(f.desc.flags).slen() as int } else { global as int }))
            &&& (l[14] matches Piece::Arg { v, .. } && v == transparent_text(f))
            &&& l.len() == 16
        }),
{
}
}
}
@@ module cli
@@ top
#[allow(unused_imports)] use crate::climodel::*;
#[allow(unused_imports)] use crate::clispec::*;
#[allow(unused_imports)] use crate::iospec::*;
#[allow(unused_imports)] use crate::block::*;
#[allow(unused_imports)] use crate::decode::*;
#[allow(unused_imports)] use crate::parsespec::*;
#[allow(unused_imports)] use crate::stepspec::*;
#[allow(unused_imports)] use crate::private::Decoder;
@@ rename to_string to_string_m
@@ rename enumerate enumerate_m
@@ append
pub proof fn fresh_ok()
    ensures fs_ok(FS { pre: Some(preamble_default()), ..crate::private::fs_new(Some(33554432usize)) }),
{}
pub proof fn frames_run_is()
    ensures forall|fs: FS, d: Seq<u8>| #![trigger frames_run(fs, d), frame_next(fs, d)] fs_ok(fs) ==> {
        let n = frame_next(fs, d);
        frames_run(fs, d) == match n.item {
            None => Listed { frames: Seq::empty(), err: None },
            Some(Err(e)) => Listed { frames: Seq::empty(), err: Some(e) },
            Some(Ok(f)) => { let a = frames_run(n.fs, n.rest); Listed { frames: seq![f] + a.frames, err: a.err } },
        } && (n.item matches Some(Ok(f)) ==> fs_ok(n.fs) && n.rest.len() < d.len())
    },
{
    assert forall|fs: FS, d: Seq<u8>| #![trigger frames_run(fs, d), frame_next(fs, d)] fs_ok(fs) implies {
        let n = frame_next(fs, d);
        frames_run(fs, d) == match n.item {
            None => Listed { frames: Seq::empty(), err: None },
            Some(Err(e)) => Listed { frames: Seq::empty(), err: Some(e) },
            Some(Ok(f)) => { let a = frames_run(n.fs, n.rest); Listed { frames: seq![f] + a.frames, err: a.err } },
        } && (n.item matches Some(Ok(f)) ==> fs_ok(n.fs) && n.rest.len() < d.len())
    } by { frame_next_ok(fs, d); }
}
pub open spec fn fv(s: Seq<Frame>) -> Seq<FrameV> { Seq::new(s.len(), |i: int| s[i].v()) }
pub proof fn fv_push()
    ensures forall|s: Seq<Frame>, f: Frame| fv(#[trigger] s.push(f)) == fv(s).push(f.v()),
{
    assert forall|s: Seq<Frame>, f: Frame| fv(#[trigger] s.push(f)) == fv(s).push(f.v()) by { assert(fv(s.push(f)) =~= fv(s).push(f.v())); }
}
pub open spec fn tv(s: Seq<String>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].text()) }
pub proof fn tv_push()
    ensures forall|s: Seq<String>, f: String| tv(#[trigger] s.push(f)) == tv(s).push(f.text()),
{
    assert forall|s: Seq<String>, f: String| tv(#[trigger] s.push(f)) == tv(s).push(f.text()) by { assert(tv(s.push(f)) =~= tv(s).push(f.text())); }
}
@@ fn digits
@@ ret r
@@ spec
    requires <T as vstd::std_specs::convert::IntoSpec<usize>>::obeys_into_spec(),
    ensures r == digits_of(<T as vstd::std_specs::convert::IntoSpec<usize>>::into_spec(v) as nat),
@@ fn show_frame
@@ ret r
@@ spec
    ensures
        r is Err ==> write_failed(),
        r is Ok ==> final(out).text() == frame_line(old(out).text(), frame.v(), global_clr as nat, number as nat, frame_digits as nat, size_digits as nat),
@@ fn show_file
@@ ret r
@@ own 0
@@ own 3
@@ own 5
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    ensures file_post(*old(out), *final(out), path.bytes(), r),
@@ at start
    hide(pre_run); hide(frame_next); hide(frames_run); hide(title); hide(frame_line); hide(fs_ok);
    let ghost d0 = content(path.bytes());
    let ghost t0 = out.text();
    proof {
        fv_push(); tv_push(); into_usize(); frames_run_is(); fresh_ok();
        assert forall|b: &BufReader| (#[trigger] rd(b)).errs.len() > 0 implies read_failed() by { errors_are_failures(b); }
        let fs = crate::private::fs_new(Some(33554432usize));
        pre_run_ok(FS { pre: Some(preamble_default()), ..fs }, d0);
    }
@@ at loop 0 end
    proof {
        let rest = frames_run(own_it0.fs(), rd(&own_it0.blocks.reader).data);
        assert(all.frames =~= fv(frames@) + rest.frames);
    }
@@ at loop 0 before
    let ghost pv = preamble.v();
    let ghost cs = pv.comments;
    let ghost all = frames_run(frame_dec.fs(), rd(&frame_dec.blocks.reader).data);
    proof {
        assert(all.frames =~= Seq::empty() + all.frames);
        assert(decoded(d0) == match all.err { Some(e) => Err(e), None => Ok((pv, all.frames)) });
    }
@@ loop 0
    invariant
        own_it0.wf(), fs_ok(own_it0.fs()),
        ({
            let rest = frames_run(own_it0.fs(), rd(&own_it0.blocks.reader).data);
            all.frames == fv(frames@) + rest.frames && all.err == rest.err
        }),
        rd(&own_it0.blocks.reader).errs.len() == 0,
        *out == *old(out),
    decreases rd(&own_it0.blocks.reader).data.len(),
@@ loop 1 iter it1
    invariant
        *out == *old(out),
        it1.seq() == preamble.comments@,
        tv(comments@) == comment_lines(cs, it1.index@ as nat),
@@ loop 2 iter it2
    invariant
        *out == *old(out),
        tv(comments@) == block_lines(comment_lines(cs, it1.index@ as nat), cs[it1.index@], it2.index@ as nat),
@@ loop 3
    invariant
        *out == *old(out),
        own_it3.parts() == parts_of(cs[it1.index@][it2.index@]),
        own_it3.pos() <= own_it3.parts().len(),
        tv(comments@) == lines(block_lines(comment_lines(cs, it1.index@ as nat), cs[it1.index@], it2.index@ as nat), own_it3.parts(), own_it3.pos()),

    decreases own_it3.parts().len() - own_it3.pos(),
@@ at loop 1 after
    let ghost ls = tv(comments@);
    let ghost fd = max_of(3, digits_of(frames@.len()));
    let ghost sd = size_col(pv);
    proof {
        assert(ls == comment_lines(cs, cs.len()));
        assert(*out == *old(out));
        assert(fv(frames@) == all.frames && all.err is None);
        assert(frame_digits == fd && size_digits == sd);
    }
@@ at loop 4 before
    let ghost t4 = out.text();
@@ loop 4 iter it4
    invariant
        it4.seq() == comments@,
        out.text() == comments_text(t4, ls, it4.index@ as nat),
@@ at loop 5 before
    let ghost fs = fv(frames@);
    let ghost t5 = out.text();
    proof { assert(t5 == title(t0, path.bytes(), pv, fs.len(), fd, sd)) by { reveal(title); } }
@@ loop 5
    invariant
        own_it5.pos() <= own_it5.all().len(), own_it5.all().len() == fs.len(),
        forall|i: int| 0 <= i < fs.len() ==> (#[trigger] own_it5.all()[i]).v() == fs[i],
        out.text() == frame_lines(t5, fs, own_it5.pos(), global_clr as nat, frame_digits as nat, size_digits as nat),

    decreases own_it5.all().len() - own_it5.pos(),
@@ fn Args::run
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    ensures match r {
        Ok(()) => run_ok(self.files@) && final(out).text() == listings(old(out).text(), self.files@, self.files@.len()),
        Err(_) => !run_ok(self.files@) || env_failed(self.files@),
    },
@@ at start
    hide(listing); hide(decoded);
@@ loop 0 iter it
    invariant
        it.seq() == self.files@,
        forall|i: int| 0 <= i < it.index@ ==> can(#[trigger] self.files@[i].bytes()),
        out.text() == listings(old(out).text(), self.files@, it.index@ as nat),
@@ fn main
@@ ret r
@@ spec
    ensures match r {
        Ok(()) => run_ok(argh::arguments::<Args>().files@),
        Err(_) => !run_ok(argh::arguments::<Args>().files@) || env_failed(argh::arguments::<Args>().files@),
    },
