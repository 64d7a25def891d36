@@ root
// ---- reading of GIF files, as a function of the bytes alone
pub mod parsespec {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
verus! {
/// Kinds of errors
pub ghost enum EV { Io, Header, Version(Seq<u8>), Code, Sequence, Gce, Eof, Lzw, TooLarge, Incomplete, FrameDim, MissingTable, ColorIndex, Other }
pub open spec fn ev(e: crate::error::Error) -> EV {
    match e {
        crate::error::Error::Io(_) => EV::Io,
        crate::error::Error::MalformedHeader => EV::Header,
        crate::error::Error::UnsupportedVersion(v) => EV::Version(v@),
        crate::error::Error::InvalidBlockCode => EV::Code,
        crate::error::Error::InvalidBlockSequence => EV::Sequence,
        crate::error::Error::MalformedGraphicControlExtension => EV::Gce,
        crate::error::Error::UnexpectedEndOfFile => EV::Eof,
        crate::error::Error::InvalidLzwData => EV::Lzw,
        crate::error::Error::TooLargeImage => EV::TooLarge,
        crate::error::Error::IncompleteImageData => EV::Incomplete,
        crate::error::Error::InvalidFrameDimensions => EV::FrameDim,
        crate::error::Error::MissingColorTable => EV::MissingTable,
        crate::error::Error::InvalidColorIndex => EV::ColorIndex,
        _ => EV::Other,
    }
}
/// What comes next
pub ghost enum Next { Header, Lsd, Gct(nat), Lct(nat), Data, Any }
/// State between blocks: limit of the image size, what comes next, size of the last image
pub ghost struct PS { pub max: Option<nat>, pub next: Next, pub sz: nat }
/// State of the data of an image
pub ghost struct Lz { pub st: LzState, pub rest: Seq<bool> }

pub open spec fn u16_at(d: Seq<u8>, i: int) -> u16 { un16(d[i], d[i + 1]) }
pub open spec fn table_bytes(c: ColorTableConfig) -> nat { 3 * c.slen() }
pub open spec fn after(b: BV) -> Next {
    match b {
        BV::Header(_) => Next::Lsd,
        BV::Lsd(d) => if table_bytes(lsd_cfg(d.flags)) > 0 { Next::Gct(table_bytes(lsd_cfg(d.flags))) } else { Next::Any },
        BV::Desc(d) => if table_bytes(desc_cfg(d.flags)) > 0 { Next::Lct(table_bytes(desc_cfg(d.flags))) } else { Next::Data },
        BV::Lct(_) => Next::Data,
        BV::Trailer => Next::Header,
        _ => Next::Any,
    }
}
pub ghost struct Head { pub b: BV, pub rest: Seq<u8>, pub ps: PS, pub lz: Lz }
pub open spec fn no_lz() -> Lz { Lz { st: lz_init(2), rest: Seq::empty() } }
pub open spec fn headed(b: BV, rest: Seq<u8>, ps: PS) -> Result<Head, EV> {
    Ok(Head { b, rest, ps: PS { next: after(b), ..ps }, lz: no_lz() })
}
pub open spec fn gif87a() -> Seq<u8> { seq![0x38u8, 0x37, 0x61] }
pub open spec fn gif89a() -> Seq<u8> { seq![0x38u8, 0x39, 0x61] }
pub open spec fn min_size(b: u8) -> nat { if b < 2 { 2 } else if b > 8 { 8 } else { b as nat } }
pub open spec fn ext_block(n: u8) -> BV {
    match ext_of(n) {
        ExtensionCode::PlainText_ => BV::PlainText(Seq::empty()),
        ExtensionCode::GraphicControl_ => BV::Gce(gce_default()),
        ExtensionCode::Comment_ => BV::Comment(Seq::empty()),
        ExtensionCode::Application_ => BV::App(Seq::empty()),
        ExtensionCode::Unknown_(n) => BV::Unknown(seq![seq![n]]),
    }
}
pub open spec fn desc_at(d: Seq<u8>) -> ImageDesc {
    ImageDesc { left: u16_at(d, 0), top: u16_at(d, 2), width: u16_at(d, 4), height: u16_at(d, 6), flags: d[8] }
}
pub open spec fn lsd_at(d: Seq<u8>) -> LogicalScreenDesc {
    LogicalScreenDesc { screen_width: u16_at(d, 0), screen_height: u16_at(d, 2), flags: d[4], background_color_idx: d[5], pixel_aspect_ratio: d[6] }
}
pub open spec fn head_header(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 6 { Err(EV::Eof) }
    else if !(d.take(3) =~= seq![0x47u8, 0x49, 0x46]) { Err(EV::Header) }
    else if d.subrange(3, 6) =~= gif87a() || d.subrange(3, 6) =~= gif89a() { headed(BV::Header(d.subrange(3, 6)), d.skip(6), ps) }
    else { Err(EV::Version(d.subrange(3, 6))) }
}
pub open spec fn head_lsd(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 7 { Err(EV::Eof) } else { headed(BV::Lsd(lsd_at(d)), d.skip(7), ps) }
}
pub open spec fn head_data(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 1 { Err(EV::Eof) }
    else { Ok(Head { b: BV::Data(Seq::empty()), rest: d.skip(1), ps: PS { next: Next::Any, ..ps }, lz: Lz { st: lz_init(min_size(d[0])), rest: Seq::empty() } }) }
}
pub open spec fn head_desc(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 9 { Err(EV::Eof) }
    else {
        let b = desc_at(d);
        let sz = b.width as nat * b.height as nat;
        match ps.max {
            Some(m) => if sz > m { Err(EV::TooLarge) } else { headed(BV::Desc(b), d.skip(9), PS { sz, ..ps }) },
            None => headed(BV::Desc(b), d.skip(9), PS { sz, ..ps }),
        }
    }
}
pub open spec fn head_ext(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 1 { Err(EV::Eof) } else { headed(ext_block(d[0]), d.skip(1), ps) }
}
pub open spec fn head_any(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    if d.len() < 1 { Err(EV::Eof) }
    else if d[0] == 0x21 { head_ext(ps, d.skip(1)) }
    else if d[0] == 0x2C { head_desc(ps, d.skip(1)) }
    else if d[0] == 0x3B { headed(BV::Trailer, d.skip(1), ps) }
    else { Err(EV::Code) }
}
/// The part of a block before its sub-blocks
pub open spec fn head(ps: PS, d: Seq<u8>) -> Result<Head, EV> {
    match ps.next {
        Next::Header => head_header(ps, d),
        Next::Lsd => head_lsd(ps, d),
        Next::Gct(n) => if d.len() < n { Err(EV::Eof) } else { headed(BV::Gct(d.take(n as int)), d.skip(n as int), ps) },
        Next::Lct(n) => if d.len() < n { Err(EV::Eof) } else { headed(BV::Lct(d.take(n as int)), d.skip(n as int), ps) },
        Next::Data => head_data(ps, d),
        Next::Any => head_any(ps, d),
    }
}
/// One sub-block
pub open spec fn one_sub(b: BV, lz: Lz, s: Seq<u8>) -> Result<(BV, Lz), EV> {
    match b {
        BV::PlainText(x) => Ok((BV::PlainText(x.push(s)), lz)),
        BV::Comment(x) => Ok((BV::Comment(x.push(s)), lz)),
        BV::App(x) => Ok((BV::App(x.push(s)), lz)),
        BV::Unknown(x) => Ok((BV::Unknown(x.push(s)), lz)),
        BV::Gce(_) => if s.len() == 4 {
            Ok((BV::Gce(GraphicControl { flags: s[0], delay_time_cs: u16_at(s, 1), transparent_color_idx: s[3] }), lz))
        } else { Err(EV::Gce) },
        BV::Data(x) => {
            let r = lz_run(lz.st, lz.rest + bb(s));
            if r.ok { Ok((BV::Data(x + r.out), Lz { st: r.st, rest: if r.st.ended { Seq::empty() } else { r.rest } })) } else { Err(EV::Lzw) }
        }
        _ => Ok((b, lz)),
    }
}
pub ghost enum Sub { Err(EV), End { rest: Seq<u8> }, More { b: BV, lz: Lz, rest: Seq<u8> } }
pub open spec fn sub_step(b: BV, lz: Lz, d: Seq<u8>) -> Sub {
    if d.len() == 0 { Sub::Err(EV::Eof) }
    else if d[0] == 0 { Sub::End { rest: d.skip(1) } }
    else if d.len() < 1 + d[0] as nat { Sub::Err(EV::Eof) }
    else {
        match one_sub(b, lz, d.subrange(1, 1 + d[0] as int)) {
            Err(e) => Sub::Err(e),
            Ok((b, lz)) => Sub::More { b, lz, rest: d.skip(1 + d[0] as int) },
        }
    }
}
pub ghost struct Done { pub b: BV, pub rest: Seq<u8> }
/// All sub-blocks, up to the empty one
pub open spec fn subs_run(b: BV, lz: Lz, d: Seq<u8>) -> Result<Done, EV>
    decreases d.len()
{
    match sub_step(b, lz, d) {
        Sub::Err(e) => Err(e),
        Sub::End { rest } => Ok(Done { b, rest }),
        Sub::More { b, lz, rest } => if rest.len() < d.len() { subs_run(b, lz, rest) } else { arbitrary() },
    }
}
/// Image data are cut to the size of the image
pub open spec fn fin(b: BV, sz: nat) -> Result<BV, EV> {
    match b {
        BV::Data(x) => if x.len() >= sz { Ok(BV::Data(x.take(sz as int))) } else { Err(EV::Incomplete) },
        _ => Ok(b),
    }
}
pub ghost struct Parsed { pub b: BV, pub rest: Seq<u8>, pub ps: PS }
/// One block
pub open spec fn parse(ps: PS, d: Seq<u8>) -> Result<Parsed, EV> {
    match head(ps, d) {
        Err(e) => Err(e),
        Ok(h) => if has_subs(h.b) {
            match subs_run(h.b, h.lz, h.rest) {
                Err(e) => Err(e),
                Ok(s) => match fin(s.b, h.ps.sz) {
                    Err(e) => Err(e),
                    Ok(b) => Ok(Parsed { b, rest: s.rest, ps: h.ps }),
                },
            }
        } else {
            Ok(Parsed { b: h.b, rest: h.rest, ps: h.ps })
        },
    }
}
pub open spec fn ps_wf(ps: PS) -> bool { match ps.next { Next::Gct(n) => 0 < n <= 768 && n % 3 == 0, Next::Lct(n) => 0 < n <= 768 && n % 3 == 0, _ => true } }
pub proof fn head_wf(ps: PS, d: Seq<u8>)
    requires ps_wf(ps),
    ensures head(ps, d) matches Ok(h) ==> ps_wf(h.ps) && h.rest.len() < d.len() && h.ps.max == ps.max,
{
    if let Ok(h) = head(ps, d) {
        match h.b {
            BV::Lsd(x) => { flag_size(x.flags); }
            BV::Desc(x) => { flag_size(x.flags); }
            _ => {}
        }
    }
}
pub proof fn subs_shrink(b: BV, lz: Lz, d: Seq<u8>)
    ensures subs_run(b, lz, d) matches Ok(s) ==> s.rest.len() < d.len(),
    decreases d.len()
{
    match sub_step(b, lz, d) {
        Sub::More { b, lz, rest } => { subs_shrink(b, lz, rest); }
        _ => {}
    }
}
pub proof fn parse_wf(ps: PS, d: Seq<u8>)
    requires ps_wf(ps),
    ensures parse(ps, d) matches Ok(p) ==> ps_wf(p.ps) && p.rest.len() < d.len() && p.ps.max == ps.max,
{
    head_wf(ps, d);
    if let Ok(h) = head(ps, d) { subs_shrink(h.b, h.lz, h.rest); }
}

// ---- frames
/// Blocks which were read for the preamble and the next frame
pub ghost struct FS { pub ps: PS, pub done: bool, pub pre: Option<PreV>, pub gce: Option<GraphicControl>, pub desc: Option<ImageDesc>, pub lct: Option<Seq<u8>> }
pub open spec fn in_frame(fs: FS) -> bool { fs.gce is Some || fs.desc is Some || fs.lct is Some }
pub open spec fn to_pre(p: PreV, b: BV) -> PreV {
    match b {
        BV::Header(v) => PreV { header: v, ..p },
        BV::Lsd(d) => PreV { lsd: d, ..p },
        BV::Gct(c) => PreV { gct: Some(c), ..p },
        BV::App(s) => if loop_of(s) is Some { PreV { looping: Some(s), ..p } } else { p },
        BV::Comment(s) => PreV { comments: p.comments.push(s), ..p },
        _ => p,
    }
}
/// Effect of one block, and the frame it ends
pub open spec fn handle(fs: FS, b: BV) -> Result<(FS, Option<FrameV>), EV> {
    match b {
        BV::Gce(g) => if in_frame(fs) { Err(EV::Sequence) } else { Ok((FS { gce: Some(g), ..fs }, None)) },
        BV::Desc(d) => if fs.desc is Some { Err(EV::Sequence) } else { Ok((FS { desc: Some(d), ..fs }, None)) },
        BV::Lct(c) => Ok((FS { lct: Some(c), ..fs }, None)),
        BV::Data(x) => match fs.desc {
            Some(desc) => Ok((FS { gce: None, desc: None, lct: None, ..fs }, Some(FrameV { gce: fs.gce, desc, lct: fs.lct, data: x }))),
            None => Err(EV::Sequence),
        },
        _ => Ok((FS { pre: match fs.pre { Some(p) => Some(to_pre(p, b)), None => None }, ..fs }, None)),
    }
}
/// One block, unless the end was reached
pub open spec fn next_block(fs: FS, d: Seq<u8>) -> Option<Result<(FS, BV, Seq<u8>), EV>> {
    if fs.done { None } else {
        match parse(fs.ps, d) {
            Err(e) => Some(Err(e)),
            Ok(p) => Some(Ok((FS { ps: p.ps, done: p.b is Trailer, ..fs }, p.b, p.rest))),
        }
    }
}
pub ghost struct FrameRes { pub item: Option<Result<FrameV, EV>>, pub fs: FS, pub rest: Seq<u8> }
pub open spec fn frame_next(fs: FS, d: Seq<u8>) -> FrameRes
    decreases d.len()
{
    match next_block(fs, d) {
        None => FrameRes { item: None, fs: FS { done: false, ..fs }, rest: d },
        Some(Err(e)) => FrameRes { item: Some(Err(e)), fs, rest: d },
        Some(Ok((fs1, b, rest))) => match handle(fs1, b) {
            Err(e) => FrameRes { item: Some(Err(e)), fs, rest },
            Ok((fs2, Some(f))) => FrameRes { item: Some(Ok(f)), fs: fs2, rest },
            Ok((fs2, None)) => if rest.len() < d.len() { frame_next(fs2, rest) } else { arbitrary() },
        },
    }
}
pub ghost struct PreRes { pub r: Result<PreV, EV>, pub fs: FS, pub rest: Seq<u8> }
pub open spec fn pre_run(fs: FS, d: Seq<u8>) -> PreRes
    decreases d.len()
{
    match next_block(fs, d) {
        None => PreRes { r: Err(EV::Sequence), fs, rest: d },
        Some(Err(e)) => PreRes { r: Err(e), fs, rest: d },
        Some(Ok((fs1, b, rest))) => match handle(fs1, b) {
            Err(e) => PreRes { r: Err(e), fs, rest },
            Ok((fs2, _)) => if in_frame(fs2) { PreRes { r: Ok(fs2.pre.unwrap()), fs: FS { pre: None, ..fs2 }, rest } }
                else if rest.len() < d.len() { pre_run(fs2, rest) } else { arbitrary() },
        },
    }
}
}
}
