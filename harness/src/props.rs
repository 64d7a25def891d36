//! One bounded check per property
use crate::generate::*;
use crate::model::{self, MB, ME, MF, MP, MS};
use crate::rng::Rng;
use crate::{Case, Prop, R};
use gift::block::*;
use gift::{Decoder, Encoder, Error, Step};
use pix::gray::Gray8;
use pix::rgb::{SRgb8, SRgba8};
use pix::{Palette, Raster};
use std::cell::{Cell, RefCell};
use std::io::{self, Read};
use std::rc::Rc;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 600 { format!("{}... ({} chars)", s.chars().take(600).collect::<String>(), s.len()) } else { s }
}

fn same<T: std::fmt::Debug + PartialEq>(what: &str, got: &[T], want: &[T]) -> R {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(format!("{what} {i}: got {}, expected {}", short(&got.get(i)), short(&want.get(i))));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ conversions

fn mb(b: &Block) -> MB {
    match b {
        Block::Header(b) => MB::Header(b.version()),
        Block::LogicalScreenDesc(b) => MB::Lsd {
            w: b.screen_width(),
            h: b.screen_height(),
            flags: b.flags(),
            bg: b.background_color_idx(),
            aspect: b.pixel_aspect_ratio(),
        },
        Block::GlobalColorTable(b) => MB::Gct(b.colors().to_vec()),
        Block::PlainText(b) => MB::Plain(b.sub_blocks().clone()),
        Block::GraphicControl(b) => MB::Gce { flags: b.flags(), delay: b.delay_time_cs(), idx: b.transparent_color_idx() },
        Block::Comment(b) => MB::Comment(b.comments().clone()),
        Block::Application(b) => MB::App(b.app_data().clone()),
        Block::Unknown(b) => {
            let id = b.ext_id();
            if id.len() != 1 {
                return MB::Img(b"unknown extension without one byte identifier".to_vec());
            }
            MB::Unknown(id[0], b.sub_blocks().to_vec())
        }
        Block::ImageDesc(b) => MB::Idesc { l: b.left(), t: b.top(), w: b.width(), h: b.height(), flags: b.flags() },
        Block::LocalColorTable(b) => MB::Lct(b.colors().to_vec()),
        Block::ImageData(b) => MB::Img(b.data().to_vec()),
        Block::Trailer(_) => MB::Trailer,
    }
}

fn lib(b: &MB) -> Block {
    match b {
        MB::Header(v) => Header::with_version(*v).into(),
        MB::Lsd { w, h, flags, bg, aspect } => LogicalScreenDesc::default()
            .with_screen_width(*w)
            .with_screen_height(*h)
            .with_flags(*flags)
            .with_background_color_idx(*bg)
            .with_pixel_aspect_ratio(*aspect)
            .into(),
        MB::Gct(c) => GlobalColorTable::with_colors(c).into(),
        MB::Lct(c) => LocalColorTable::with_colors(c).into(),
        MB::Plain(s) => {
            let mut b = PlainText::default();
            s.iter().for_each(|x| b.add_sub_block(x));
            b.into()
        }
        MB::Comment(s) => {
            let mut b = Comment::default();
            s.iter().for_each(|x| b.add_comment(x));
            b.into()
        }
        MB::App(s) => {
            let mut b = Application::default();
            s.iter().for_each(|x| b.add_app_data(x));
            b.into()
        }
        MB::Unknown(id, s) => {
            let mut b = Unknown::default();
            b.add_sub_block(&[*id]);
            s.iter().for_each(|x| b.add_sub_block(x));
            b.into()
        }
        MB::Gce { flags, delay, idx } => gce(*flags, *delay, *idx).into(),
        MB::Idesc { l, t, w, h, flags } => {
            ImageDesc::default().with_left(*l).with_top(*t).with_width(*w).with_height(*h).with_flags(*flags).into()
        }
        MB::Img(d) => img(d).into(),
        MB::Trailer => Trailer::default().into(),
    }
}

fn gce(flags: u8, delay: u16, idx: u8) -> GraphicControl {
    let mut b = GraphicControl::default();
    b.set_flags(flags);
    b.set_delay_time_cs(delay);
    b.set_transparent_color_idx(idx);
    b
}

fn img(d: &[u8]) -> ImageData {
    let mut b = ImageData::new(d.len());
    b.data_mut().extend_from_slice(d);
    b
}

fn me(e: &Error) -> ME {
    match e {
        Error::Io(e) => ME::Io(e.to_string()),
        Error::TryFromInt(_) => ME::TryFromInt,
        Error::MalformedHeader => ME::MalformedHeader,
        Error::UnsupportedVersion(v) => ME::Version(*v),
        Error::InvalidBlockCode => ME::BlockCode,
        Error::InvalidBlockSequence => ME::BlockSequence,
        Error::MalformedGraphicControlExtension => ME::GraphicControl,
        Error::UnexpectedEndOfFile => ME::Eof,
        Error::InvalidLzwData => ME::Lzw,
        Error::TooLargeImage => ME::TooLarge,
        Error::IncompleteImageData => ME::Incomplete,
        Error::InvalidFrameDimensions => ME::FrameDimensions,
        Error::MissingColorTable => ME::MissingTable,
        Error::InvalidColorIndex => ME::ColorIndex,
        Error::InvalidRasterDimensions => ME::RasterDimensions,
    }
}

fn mf(f: &Frame) -> MF {
    let d = &f.image_desc;
    MF {
        gce: f.graphic_control_ext.map(|g| (g.flags(), g.delay_time_cs(), g.transparent_color_idx())),
        desc: (d.left(), d.top(), d.width(), d.height(), d.flags()),
        lct: f.local_color_table.as_ref().map(|t| t.colors().to_vec()),
        data: f.image_data.data().to_vec(),
    }
}

fn mp(p: &Preamble) -> MP {
    let d = p.logical_screen_desc;
    MP {
        version: p.header.version(),
        lsd: (d.screen_width(), d.screen_height(), d.flags(), d.background_color_idx(), d.pixel_aspect_ratio()),
        gct: p.global_color_table.as_ref().map(|t| t.colors().to_vec()),
        app: p.loop_count_ext.as_ref().map(|a| a.app_data().clone()),
        comments: p.comments.iter().map(|c| c.comments().clone()).collect(),
    }
}

fn px(p: SRgba8) -> [u8; 4] {
    use pix::el::Pixel;
    use pix::rgb::Rgb;
    [u8::from(Rgb::red(p)), u8::from(Rgb::green(p)), u8::from(Rgb::blue(p)), u8::from(p.alpha())]
}

fn ms(s: &Step) -> MS {
    let r = s.raster();
    MS {
        w: r.width() as u16,
        h: r.height() as u16,
        px: r.pixels().iter().map(|p| px(*p)).collect(),
        trans: s.transparent_color(),
        delay: s.delay_time_cs().unwrap_or(0),
    }
}

/// Blocks up to the first None (with a bound on the number of items)
fn got_blocks<X: Read>(r: X, max: Option<usize>, cap: usize) -> Vec<Result<MB, ME>> {
    let it = Decoder::new(r).max_image_sz(max).into_blocks();
    it.take(cap).map(|b| b.map(|b| mb(&b)).map_err(|e| me(&e))).collect()
}

fn got_frames<X: Read>(r: X, max: Option<usize>, cap: usize) -> Vec<Result<MF, ME>> {
    let it = Decoder::new(r).max_image_sz(max).into_frames();
    it.take(cap).map(|b| b.map(|b| mf(&b)).map_err(|e| me(&e))).collect()
}

fn got_steps<X: Read>(r: X, max: Option<usize>, cap: usize) -> Vec<Result<MS, ME>> {
    let it = Decoder::new(r).max_image_sz(max).into_steps();
    it.take(cap).map(|b| b.map(|b| ms(&b)).map_err(|e| me(&e))).collect()
}

fn enc_block(b: Block) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    Encoder::new(&mut v).into_block_enc().encode(b).map_err(|e| format!("encoding a block failed: {e}"))?;
    Ok(v)
}

const LIM: Option<usize> = Some(1 << 18);

fn dims(r: &mut Rng, size: usize) -> (u16, u16) {
    let n = [40usize, 1500, 20_000, 200_000][size];
    if r.chance(1, 30) {
        return r.pick(&[(0, 0), (0, 5), (7, 0), (1, 1)]);
    }
    let len = match r.below(3) {
        0 => r.range(1, n),
        1 => r.range(1, (n / 10).max(2)),
        _ => n - r.below(n / 4),
    };
    if len <= 65535 && r.chance(1, 2) {
        if r.chance(1, 2) { (len as u16, 1) } else { (1, len as u16) }
    } else {
        let w = r.range(len.div_ceil(60_000), len.min(600));
        (w as u16, (len / w) as u16)
    }
}

fn file_with_image(w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    let mut v = model::bytes(&MB::Header(*b"89a"));
    v.extend(model::bytes(&MB::Lsd { w, h, flags: 0, bg: 0, aspect: 0 }));
    v.extend(model::bytes(&MB::Idesc { l: 0, t: 0, w, h, flags: 0 }));
    v.extend(data);
    v.push(0x3B);
    v
}

fn a_gif(r: &mut Rng, size: usize, odd: usize) -> Vec<u8> {
    let o = Opt {
        side: [4, 12, 40, 120][size],
        frames: r.below([3, 4, 6, 8][size]),
        odd,
        interlace: r.chance(1, 3),
        loop_ext: r.chance(1, 3),
    };
    gif(r, &o)
}

/// Mixture of sound, damaged and random files
fn any_file(r: &mut Rng, size: usize) -> Vec<u8> {
    match r.below(10) {
        0 => noise(r),
        1 => {
            // header, then the second level of random structure
            let mut v = model::bytes(&MB::Header(*b"89a"));
            v.extend(model::bytes(&MB::Lsd { w: 3, h: 3, flags: 0x80 | r.u8(), bg: 0, aspect: 0 }));
            let n = model::table_len(v[10]).unwrap_or(0);
            v.extend(r.bytes(3 * n));
            v.extend(noise(r));
            v
        }
        2 => {
            let min = r.range(0, 12) as u8;
            let mut z = vec![min];
            let k = [30, 600, 3000, 8000][size];
            let n = r.range(1, k);
            let c = if r.chance(1, 2) { lzw_codes(r, min.clamp(2, 8), n, true) } else { r.bytes(n) };
            put_sub_blocks(r, &c, &mut z);
            let (w, h) = (r.range(1, 300) as u16, r.range(1, 4) as u16);
            file_with_image(w, h, &z)
        }
        3..=6 => {
            let mut v = a_gif(r, size, 3);
            mutate(r, &mut v);
            v
        }
        _ => a_gif(r, size, 3),
    }
}

// -------------------------------------------------------------- properties

fn c01(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let (w, h) = dims(r, size);
    let d = pixels(r, w as usize * h as usize);
    c.note(format!("{w}x{h}"));
    c.add("pixels", &d);
    c.trivial = d.len() < 2;
    let z = enc_block(img(&d).into())?;
    let f = file_with_image(w, h, &z);
    let got = got_blocks(&f[..], Some(1 << 25), 10);
    match got.get(3) {
        Some(Ok(MB::Img(x))) => {
            ensure!(x == &d, "decoded pixels differ at {:?} (lengths {} {})", x.iter().zip(&d).position(|(a, b)| a != b), x.len(), d.len());
        }
        o => return Err(format!("image data did not decode: {}", short(&o))),
    }
    ensure!(got.len() == 5 && got[4] == Ok(MB::Trailer), "trailer not found after image data");
    Ok(())
}

fn c02(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let min = r.range(2, 8) as u8;
    let n = [30, 600, 6000, 12_000][size];
    let n = r.range(1, n);
    let bad = r.chance(1, 2);
    let z = match r.below(8) {
        0 => r.bytes(n.min(3000)),
        1 => {
            // dictionary filled to the limit, then a deferred clear
            lzw_codes(r, min, 4096 + 600, false)
        }
        _ => lzw_codes(r, min, n, bad),
    };
    let mut s = vec![min];
    put_sub_blocks(r, &z, &mut s);
    c.note(format!("min={min}"));
    c.add("data", &s);
    c.trivial = z.len() < 2;
    let mut l = model::Lzw::new(min);
    let mut out = vec![];
    let ok = l.feed(&z, &mut out);
    let want = match r.below(6) {
        0 => out.len() + r.range(1, 3),
        1 => out.len().saturating_sub(r.range(1, 3)),
        _ => out.len(),
    };
    let (w, h) = if want <= 65535 { (want, 1) } else { (256, want / 256) };
    let exact = w * h;
    let f = file_with_image(w as u16, h as u16, &s);
    let got = got_blocks(&f[..], None, 10);
    let want = match ok {
        Err(e) => Err(e),
        Ok(()) if out.len() < exact => Err(ME::Incomplete),
        Ok(()) => {
            out.truncate(exact);
            Ok(MB::Img(out))
        }
    };
    ensure!(got.get(3) == Some(&want), "{w}x{h}: got {}, expected {}", short(&got.get(3)), short(&want));
    Ok(())
}

fn c03(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let (w, h) = dims(r, size);
    let d = pixels(r, w as usize * h as usize);
    c.add("pixels", &d);
    c.trivial = d.len() < 2;
    let z = enc_block(img(&d).into())?;
    ensure!(!z.is_empty(), "nothing written");
    let min = z[0];
    ensure!((2..=8).contains(&min), "minimum code size {min}");
    let max = d.iter().copied().max().unwrap_or(0);
    ensure!(u32::from(max) < 1 << min, "minimum code size {min} for value {max}");
    let mut cat = vec![];
    let mut i = 1;
    loop {
        ensure!(i < z.len(), "no final sub-block");
        let n = z[i] as usize;
        i += 1;
        if n == 0 {
            break;
        }
        ensure!(i + n <= z.len(), "sub-block of {n} bytes is cut off");
        cat.extend_from_slice(&z[i..i + n]);
        i += n;
    }
    ensure!(i == z.len(), "{} bytes behind the final sub-block", z.len() - i);
    let mut l = model::Lzw::new(min);
    let mut out = vec![];
    let ok = l.feed(&cat, &mut out);
    ensure!(ok.is_ok(), "an undefined code was written after {} codes", l.codes.len());
    ensure!(l.codes.first().map(|c| c.0) == Some(1 << min), "first code is {:?}", l.codes.first());
    ensure!(out == d, "codes give other pixels, first difference at {:?}", out.iter().zip(&d).position(|(a, b)| a != b));
    Ok(())
}

fn c04(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let f = any_file(r, size);
    let max = match r.below(4) {
        0 => Some(r.below(30)),
        1 => Some(1 << 14),
        2 => None,
        _ => LIM,
    };
    c.note(format!("max={max:?}"));
    c.add("file", &f);
    c.trivial = f.len() < 6;
    let cap = f.len() + 20;
    let style = r.below(4);
    let seed = r.u64();
    let rd = || ChunkReader { d: &f, p: 0, r: Rng::new(seed), style, interrupts: style == 3, fail_at: None, streak: 0 };
    let n = got_blocks(rd(), max, cap).len();
    ensure!(n < cap, "block iteration does not end");
    let n = got_frames(rd(), max, cap).len();
    ensure!(n < cap, "frame iteration does not end");
    let area = if f.len() >= 10 { (f[6] as usize + 256 * f[7] as usize) * (f[8] as usize + 256 * f[9] as usize) } else { 0 };
    if area <= 1 << 20 || max.is_some() {
        let n = Decoder::new(rd()).max_image_sz(max).into_steps().take(cap).count();
        ensure!(n < cap, "step iteration does not end");
        let _ = Decoder::new(rd()).max_image_sz(max).into_iter().take(40).count();
    }
    let mut fr = Decoder::new(rd()).max_image_sz(max).into_frames();
    let _ = fr.preamble();
    let _ = fr.preamble();
    ensure!(fr.take(cap).count() < cap, "frame iteration after the preamble does not end");
    Ok(())
}

fn block_list(r: &mut Rng, size: usize) -> Vec<MB> {
    let mut v = vec![MB::Header(if r.chance(1, 2) { *b"89a" } else { *b"87a" })];
    let flags = r.u8();
    v.push(MB::Lsd { w: r.u16e(), h: r.u16e(), flags, bg: r.u8e(), aspect: r.u8e() });
    if let Some(n) = model::table_len(flags) {
        v.push(MB::Gct(r.bytes(3 * n)));
    }
    for _ in 0..r.below([4, 6, 10, 20][size]) {
        match r.below(4) {
            0 => v.push(MB::Gce { flags: r.u8(), delay: r.u16e(), idx: r.u8e() }),
            1 => {
                let (w, h) = dims(r, if size > 1 { 1 } else { 0 });
                let flags = r.u8();
                v.push(MB::Idesc { l: r.u16e(), t: r.u16e(), w, h, flags });
                if let Some(n) = model::table_len(flags) {
                    v.push(MB::Lct(r.bytes(3 * n)));
                }
                let d = pixels(r, w as usize * h as usize);
                v.push(MB::Img(d));
            }
            _ => v.push(ext(r)),
        }
    }
    v.push(MB::Trailer);
    v
}

struct Counting<'a> {
    d: &'a [u8],
    n: Rc<Cell<usize>>,
}

impl Read for Counting<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.n.get();
        let n = b.len().min(self.d.len() - p);
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.n.set(p + n);
        Ok(n)
    }
}

fn c05(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let l = block_list(r, size);
    let blocks: Vec<Block> = l.iter().map(lib).collect();
    let mut out = vec![];
    let mut ends = vec![];
    for (m, b) in l.iter().zip(&blocks) {
        ensure!(&mb(b) == m, "getters of a built block: {} for {}", short(&mb(b)), short(m));
        let z = enc_block(b.clone())?;
        if !matches!(m, MB::Img(_)) {
            ensure!(z == model::bytes(m), "bytes of {}: {}", short(m), short(&z));
        }
        out.extend(z);
        ends.push(out.len());
    }
    c.add("file", &out);
    // one encoder for all blocks writes the same bytes
    let mut whole = vec![];
    let mut e = Encoder::new(&mut whole).into_block_enc();
    for b in &blocks {
        e.encode(b.clone()).map_err(|e| e.to_string())?;
    }
    drop(e);
    ensure!(whole == out, "bytes differ when written by one encoder");
    // behind the trailer
    out.extend(b"GIF89axyz");
    let n = Rc::new(Cell::new(0));
    let mut it = Decoder::new(Counting { d: &out, n: n.clone() }).max_image_sz(None).into_blocks();
    for (i, b) in blocks.iter().enumerate() {
        match it.next() {
            Some(Ok(x)) => ensure!(&x == b, "block {i}: got {}, expected {}", short(&x), short(b)),
            o => return Err(format!("block {i}: got {}, expected {}", short(&o.map(|o| o.map(|b| mb(&b)).map_err(|e| me(&e)))), short(b))),
        }
        ensure!(n.get() == ends[i], "block {i}: {} bytes used instead of {}", n.get(), ends[i]);
    }
    Ok(())
}

/// sub-blocks of all small sizes and just beyond the limit: what a builder accepts must be read back
fn c05_all(n: &mut u64) -> R {
    let build: [(&str, fn(&[u8]) -> Block); 4] = [
        ("plain text", |x| {
            let mut b = PlainText::default();
            b.add_sub_block(x);
            b.into()
        }),
        ("comment", |x| {
            let mut b = Comment::default();
            b.add_comment(x);
            b.into()
        }),
        ("application", |x| {
            let mut b = Application::default();
            b.add_app_data(x);
            b.into()
        }),
        ("unknown extension", |x| {
            let mut b = Unknown::default();
            b.add_sub_block(&[0x42]);
            b.add_sub_block(x);
            b.into()
        }),
    ];
    for (what, f) in build {
        for len in (0..=260).chain([511, 512, 513, 65536]) {
            let x: Vec<u8> = (0..len).map(|i| (i * 7 + len) as u8).collect();
            *n += 1;
            let b = match std::panic::catch_unwind(|| f(&x)) {
                Ok(b) => b,
                Err(_) => {
                    ensure!(len == 0 || len > 255, "{what} with {len} bytes: refused");
                    continue;
                }
            };
            let mut file = model::bytes(&MB::Header(*b"89a"));
            file.extend([1, 0, 1, 0, 0, 0, 0]);
            file.extend(enc_block(b.clone())?);
            file.push(0x3B);
            let got: Vec<_> = Decoder::new(&file[..]).into_blocks().skip(2).take(3).map(|b| b.map_err(|e| me(&e))).collect();
            match &got[..] {
                [Ok(x), Ok(Block::Trailer(_))] if *x == b => (),
                o => return Err(format!("{what} built with a sub-block of {len} bytes: decoded as {}", short(&o))),
            }
        }
    }
    // what the parts of built blocks are reported as
    let parts: [&[u8]; 3] = [&[0x42], &[1, 2, 3], &[9; 255]];
    for k in 0..=parts.len() {
        let (mut p, mut c, mut a, mut u) = (PlainText::default(), Comment::default(), Application::default(), Unknown::default());
        for x in &parts[..k] {
            p.add_sub_block(x);
            c.add_comment(x);
            a.add_app_data(x);
            u.add_sub_block(x);
        }
        let want: Vec<Vec<u8>> = parts[..k].iter().map(|x| x.to_vec()).collect();
        *n += 1;
        ensure!(*p.sub_blocks() == want && *c.comments() == want && *a.app_data() == want, "parts of blocks built with {k} sub-blocks");
        ensure!(u.ext_id() == want.first().map_or(&[][..], |x| &x[..]) && *u.sub_blocks() == want[k.min(1)..], "parts of an unknown extension built with {k} sub-blocks");
    }
    Ok(())
}

fn c06(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let mut f = any_file(r, size);
    if r.chance(1, 12) && f.len() >= 6 {
        // near misses of the header
        let i = r.below(6);
        f[i] = r.pick(&[b'8', b'7', b'9', b'a', b'b', b'G', b'I', b'F', b'g', 0]);
    }
    c.add("file", &f);
    c.trivial = f.len() < 8;
    let mut pos = vec![];
    let want = model::blocks(&f, None, &mut pos);
    let n = Rc::new(Cell::new(0));
    let it = Decoder::new(Counting { d: &f, n: n.clone() }).max_image_sz(None).into_blocks();
    let mut got = vec![];
    for b in it.take(f.len() + 20) {
        let b = b.map(|b| mb(&b)).map_err(|e| me(&e));
        if b.is_ok() {
            ensure!(pos.get(got.len()) == Some(&n.get()), "block {} ends at byte {} instead of {:?}", got.len(), n.get(), pos.get(got.len()));
        }
        got.push(b);
    }
    same("block", &got, &want)
}

fn c07(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let f = any_file(r, size);
    c.add("file", &f);
    c.trivial = f.len() < 8;
    let cap = f.len() + 20;
    let seed = r.u64();
    let style = r.below(4);
    let interrupts = r.chance(1, 2);
    let kind = r.pick(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe]);
    let fail = if r.chance(1, 2) { Some((r.range(0, f.len()), kind)) } else { None };
    c.note(format!("style={style} interrupts={interrupts} fail={fail:?}"));
    let rd = || ChunkReader { d: &f, p: 0, r: Rng::new(seed), style, interrupts, fail_at: fail, streak: 0 };
    let cut = fail.map_or(f.len(), |x| x.0);
    let fix = |e: ME| match (e, fail) {
        (ME::Eof, Some((n, _))) => ME::Io(format!("broken at {n}")),
        (e, _) => e,
    };
    let b: Vec<_> = model::blocks(&f[..cut], LIM, &mut vec![]).into_iter().map(|x| x.map_err(fix)).collect();
    same("block", &got_blocks(rd(), LIM, cap), &b)?;
    same("frame", &got_frames(rd(), LIM, cap), &model::frames(&b))?;
    same("step", &got_steps(rd(), LIM, cap), &model::steps(&b, LIM))?;
    if fail.is_none() {
        same("block (whole)", &got_blocks(&f[..], LIM, cap), &b)?;
    }
    Ok(())
}

fn c08(r: &mut Rng, _size: usize, c: &mut Case) -> R {
    let (w, h) = match r.below(4) {
        0 => (r.u16e(), r.u16e()),
        1 => r.pick(&[(8192u16, 4096u16), (8192, 4097), (8193, 4096), (5792, 5793), (5793, 5793), (4096, 8192), (65535, 512), (65535, 513), (1, 65535), (512, 65535)]),
        _ => (r.range(0, 30) as u16, r.range(0, 30) as u16),
    };
    let sz = w as usize * h as usize;
    let max = match r.below(7) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(sz)),
        3 => Some(Some(sz.saturating_sub(1))),
        4 => Some(Some(sz + 1)),
        5 => Some(Some(r.pick(&[0usize, 1, 33_554_431, 33_554_432, 33_554_433, usize::MAX]))),
        _ => Some(Some(r.below(2 * sz + 2))),
    };
    let n = if sz > 4000 {
        r.below(300)
    } else {
        match r.below(4) {
            0 => sz + r.range(1, 5),
            1 => sz.saturating_sub(r.range(1, 5)),
            2 => r.below(2 * sz + 3),
            _ => sz,
        }
    };
    let d = pixels(r, n);
    let mut z = vec![];
    image_data(r, &d, &mut z);
    let f = file_with_image(w, h, &z);
    c.note(format!("{w}x{h} max={max:?} data={n}"));
    c.hash ^= n as u64;
    let m = match max {
        None => Some(33_554_432),
        Some(m) => m,
    };
    let mut it = match max {
        None => Decoder::new(&f[..]),
        Some(m) => Decoder::new(&f[..]).max_image_sz(m),
    }
    .into_blocks();
    it.next();
    it.next();
    let g = it.next().map(|b| b.map(|b| mb(&b)).map_err(|e| me(&e)));
    if m.is_some_and(|m| sz > m) {
        ensure!(g == Some(Err(ME::TooLarge)), "image of {sz} with limit {m:?}: {}", short(&g));
        return Ok(());
    }
    ensure!(g == Some(Ok(MB::Idesc { l: 0, t: 0, w, h, flags: 0 })), "image of {sz} with limit {m:?}: {}", short(&g));
    let g = it.next().map(|b| b.map(|b| mb(&b)).map_err(|e| me(&e)));
    let want = if n < sz { Err(ME::Incomplete) } else { Ok(MB::Img(d[..sz].to_vec())) };
    ensure!(g == Some(want.clone()), "image of {sz} with {n} bytes: got {}, expected {}", short(&g), short(&want));
    Ok(())
}

fn a_preamble(r: &mut Rng) -> (Preamble, Vec<MB>) {
    let flags = r.u8();
    let mut l = vec![MB::Header(if r.chance(1, 2) { *b"89a" } else { *b"87a" })];
    l.push(MB::Lsd { w: r.u16e(), h: r.u16e(), flags, bg: r.u8e(), aspect: r.u8e() });
    if let Some(n) = model::table_len(flags) {
        l.push(MB::Gct(r.bytes(3 * n)));
    }
    if r.chance(1, 2) {
        l.push(MB::App(app(r)));
    }
    for _ in 0..r.below(3) {
        l.push(MB::Comment(sub_list(r)));
    }
    let mut p = Preamble::default();
    for b in &l {
        match lib(b) {
            Block::Header(b) => p.header = b,
            Block::LogicalScreenDesc(b) => p.logical_screen_desc = b,
            Block::GlobalColorTable(b) => p.global_color_table = Some(b),
            Block::Application(b) => p.loop_count_ext = Some(b),
            Block::Comment(b) => p.comments.push(b),
            _ => (),
        }
    }
    (p, l)
}

fn a_frame(r: &mut Rng) -> (Frame, Vec<MB>) {
    let mut l = vec![];
    let (w, h) = (r.range(0, 9) as u16, r.range(0, 9) as u16);
    let g = if r.chance(1, 2) {
        let m = (r.u8(), r.u16e(), r.u8e());
        l.push(MB::Gce { flags: m.0, delay: m.1, idx: m.2 });
        Some(gce(m.0, m.1, m.2))
    } else {
        None
    };
    let flags = r.u8();
    let (x, y) = (r.u16e(), r.u16e());
    l.push(MB::Idesc { l: x, t: y, w, h, flags });
    let d = ImageDesc::default().with_left(x).with_top(y).with_width(w).with_height(h).with_flags(flags);
    let t = model::table_len(flags).map(|n| {
        let t = r.bytes(3 * n);
        l.push(MB::Lct(t.clone()));
        LocalColorTable::with_colors(&t)
    });
    let data = pixels(r, w as usize * h as usize);
    l.push(MB::Img(data.clone()));
    (Frame::new(g, d, t, img(&data)), l)
}

fn list_bytes(l: &[MB]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    for b in l {
        match b {
            MB::Img(d) => v.extend(enc_block(img(d).into())?),
            b => v.extend(model::bytes(b)),
        }
    }
    Ok(v)
}

fn sink(out: &Rc<RefCell<Vec<u8>>>) -> Sink {
    Sink { out: out.clone(), r: Rng::new(1), style: 0, interrupts: false, fail_at: None, once: false }
}

fn c09(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let out = Rc::new(RefCell::new(vec![]));
    let mut e = Encoder::new(sink(&out)).into_frame_enc();
    let (mut pre, mut end) = (false, false);
    let mut want: Vec<u8> = vec![];
    for _ in 0..r.range(1, 4 + 4 * size) {
        let k = r.below(8);
        let (got, l, ok) = match k {
            0 | 1 => {
                let (p, l) = a_preamble(r);
                let ok = !pre;
                pre = true;
                c.note(String::from("preamble"));
                (e.encode_preamble(&p), l, ok)
            }
            2 => {
                let ok = pre && !end;
                end |= pre;
                c.note(String::from("trailer"));
                (e.encode_trailer(), vec![MB::Trailer], ok)
            }
            _ => {
                let (f, l) = a_frame(r);
                c.note(format!("frame {}", short(&l)));
                (e.encode_frame(&f), l, pre && !end)
            }
        };
        let got = got.map_err(|e| me(&e));
        if ok {
            ensure!(got == Ok(()), "call in order failed: {got:?}");
            want.extend(list_bytes(&l)?);
        } else {
            ensure!(got == Err(ME::BlockSequence), "call out of order gave {got:?}");
        }
        ensure!(*out.borrow() == want, "bytes after the call: {} instead of {}", short(&out.borrow()), short(&want));
    }
    Ok(())
}

fn c10(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let mut f = a_gif(r, size, 4);
    if r.chance(1, 4) {
        mutate(r, &mut f);
    }
    c.add("file", &f);
    let b = model::blocks(&f, LIM, &mut vec![]);
    let want = model::frames(&b);
    c.trivial = want.len() < 2;
    let cap = f.len() + 20;
    same("frame", &got_frames(&f[..], LIM, cap), &want)?;
    let mut it = Decoder::new(&f[..]).max_image_sz(LIM).into_frames();
    let p = it.preamble().map_err(|e| me(&e));
    match model::preamble(&b) {
        Err(e) => ensure!(matches!(&p, Err(x) if *x == e), "preamble: {} instead of {e:?}", short(&p.map(|p| p.map(|p| mp(&p))))),
        Ok(w) => {
            let p = p.map_err(|e| format!("preamble: {e:?}"))?;
            ensure!(p.as_ref().map(mp) == Some(w.clone()), "preamble: {} instead of {}", short(&p.as_ref().map(mp)), short(&w));
            // a second request does not disturb the frames
            ensure!(matches!(it.preamble(), Ok(None)), "second preamble");
            let got: Vec<_> = it.by_ref().take(cap).map(|b| b.map(|b| mf(&b)).map_err(|e| me(&e))).collect();
            same("frame after preamble", &got, &want)?;
        }
    }
    Ok(())
}

fn c11(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let frames = r.range(1, [3, 5, 8, 12][size]);
    let odd = if r.chance(3, 4) { 1000 } else { 4 };
    let side = [3, 8, 24, 90][size];
    let interlace = r.chance(1, 4);
    let f = gif(r, &Opt { side, frames, odd, interlace, loop_ext: false });
    c.add("file", &f);
    let max = if r.chance(1, 20) { Some(r.below(2 * side * side)) } else { LIM };
    c.note(format!("max={max:?}"));
    let want = model::steps(&model::blocks(&f, max, &mut vec![]), max);
    c.trivial = !matches!(want.first(), Some(Ok(_)));
    same("step", &got_steps(&f[..], max, f.len() + 20), &want)
}

fn interlaced_file(w: u16, h: u16, data: &[u8], flags: u8) -> Vec<u8> {
    let mut v = model::bytes(&MB::Header(*b"89a"));
    v.extend(model::bytes(&MB::Lsd { w, h, flags: 0x87, bg: 0, aspect: 0 }));
    v.extend((0..=255u8).flat_map(|i| [i, i.wrapping_mul(3), 255 - i]));
    v.extend(model::bytes(&MB::Idesc { l: 0, t: 0, w, h, flags }));
    image_data(&mut Rng::new(5), data, &mut v);
    v.push(0x3B);
    v
}

/// Row order of one height, with rows made distinct by three base-256 digits
fn c12_height(h: u16) -> R {
    let n = h as usize;
    let rows: Vec<[u8; 3]> = (0..n).map(|y| [(y % 251) as u8, (y / 251) as u8, 7]).collect();
    let stored: Vec<u8> = model::interlace_order(n).iter().flat_map(|y| rows[*y]).collect();
    let got = got_steps(&interlaced_file(3, h, &stored, 0x40)[..], None, 5);
    let plain: Vec<u8> = rows.iter().flatten().copied().collect();
    let want = got_steps(&interlaced_file(3, h, &plain, 0)[..], None, 5);
    ensure!(matches!(want.first(), Some(Ok(_))), "height {h}: not drawn: {}", short(&want));
    if got != want {
        let (Some(Ok(a)), Some(Ok(b))) = (got.first(), want.first()) else {
            return Err(format!("height {h}: {}", short(&got)));
        };
        let i = a.px.iter().zip(&b.px).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("height {h}: display row {} differs", i / 3));
    }
    Ok(())
}

fn c12_all(n: &mut u64) -> R {
    for h in (1..=260).chain([511, 512, 513, 1021, 1023, 1024, 1025]) {
        c12_height(h)?;
        *n += 1;
    }
    Ok(())
}

fn c12(r: &mut Rng, size: usize, c: &mut Case) -> R {
    if r.chance(1, 20) {
        let h = if size == 3 && r.chance(1, 4) { r.range(1, 65535) } else { r.range(1, 3000) };
        c.note(format!("height {h}"));
        return c12_height(h as u16);
    }
    let side = [9, 20, 40, 90][size];
    let frames = r.range(1, 3);
    let f = gif(r, &Opt { side, frames, odd: 1000, interlace: true, loop_ext: false });
    c.add("file", &f);
    let want = model::steps(&model::blocks(&f, LIM, &mut vec![]), LIM);
    same("step", &got_steps(&f[..], LIM, f.len() + 20), &want)
}

fn method(n: u8) -> DisposalMethod {
    match n {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        n => DisposalMethod::Reserved(n),
    }
}

/// Every flag byte with every setter of the three blocks
fn c13_all(n: &mut u64) -> R {
    let cfg = |p: bool, s: bool, n: u16| {
        ColorTableConfig::new(
            if p { ColorTableExistence::Present } else { ColorTableExistence::Absent },
            if s { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted },
            n,
        )
    };
    for f in 0..=255u8 {
        for idx in [0u8, 1, 2, 254, 255] {
            for delay in [0u16, 1, 0x1234, 0xFFFF] {
                let get = |g: GraphicControl| (g.disposal_method(), g.user_input(), g.transparent_color(), g.delay_time_cs());
                let g0 = gce(f, delay, idx);
                let want = (method(f >> 2 & 7), f & 2 != 0, if f & 1 != 0 { Some(idx) } else { None }, delay);
                ensure!(get(g0) == want, "graphic control flags {f:#x}: {:?} instead of {want:?}", get(g0));
                for m in 0..8 {
                    let mut g = g0;
                    g.set_disposal_method(method(m));
                    let w = (method(m), want.1, want.2, delay);
                    ensure!(get(g) == w, "flags {f:#x} disposal {m}: {:?} instead of {w:?}", get(g));
                    ensure!(g.flags() == f & 0xE3 | m << 2, "flags {f:#x} disposal {m}: flags {:#x}", g.flags());
                }
                for u in [false, true] {
                    let mut g = g0;
                    g.set_user_input(u);
                    let w = (want.0, u, want.2, delay);
                    ensure!(get(g) == w, "flags {f:#x} user input {u}: {:?} instead of {w:?}", get(g));
                    ensure!(g.flags() == f & 0xFD | (u as u8) << 1, "flags {f:#x} user input {u}: flags {:#x}", g.flags());
                }
                for t in [None, Some(0), Some(1), Some(9), Some(255)] {
                    let mut g = g0;
                    g.set_transparent_color(t);
                    let w = (want.0, want.1, t, delay);
                    ensure!(get(g) == w, "flags {f:#x} transparent {t:?}: {:?} instead of {w:?}", get(g));
                    ensure!(g.flags() == f & 0xFE | u8::from(t.is_some()), "flags {f:#x} transparent {t:?}: flags {:#x}", g.flags());
                }
                let mut g = g0;
                g.set_delay_time_cs(777);
                ensure!(get(g) == (want.0, want.1, want.2, 777), "flags {f:#x} delay: {:?}", get(g));
                *n += 1;
            }
        }
        let tbl = |f: u8, sorted: u8| (f & 128 != 0, f & sorted != 0, 2usize << (f & 7));
        let got = |c: ColorTableConfig| {
            let p = c.existence() == ColorTableExistence::Present;
            (p, c.ordering() == ColorTableOrdering::Sorted, if p { c.len() } else { 0 })
        };
        let d0 = ImageDesc::default().with_left(300).with_top(9).with_width(77).with_height(5).with_flags(f);
        let w = tbl(f, 0x20);
        let w = (w.0, w.1, if w.0 { w.2 } else { 0 });
        ensure!(got(d0.color_table_config()) == w, "image flags {f:#x}: table {:?}", d0.color_table_config());
        ensure!(d0.interlaced() == (f & 0x40 != 0), "image flags {f:#x}: interlaced");
        for i in [false, true] {
            let d = d0.with_interlaced(i);
            ensure!(d.interlaced() == i && d.flags() == f & 0xBF | (i as u8) << 6, "image flags {f:#x} interlaced {i}: {:#x}", d.flags());
            ensure!(d.color_table_config() == d0.color_table_config(), "image flags {f:#x} interlaced {i}: table");
            *n += 1;
        }
        let l0 = LogicalScreenDesc::default().with_screen_width(300).with_screen_height(9).with_flags(f).with_background_color_idx(3).with_pixel_aspect_ratio(4);
        let w = tbl(f, 8);
        let w = (w.0, w.1, if w.0 { w.2 } else { 0 });
        ensure!(got(l0.color_table_config()) == w, "screen flags {f:#x}: table {:?}", l0.color_table_config());
        ensure!(l0.color_resolution() == 2 << (f >> 4 & 7), "screen flags {f:#x}: color resolution {}", l0.color_resolution());
        for p in [false, true] {
            for s in [false, true] {
                for k in 1..=8u32 {
                    let e = 1usize << k;
                    let c = cfg(p, s, e as u16);
                    let d = d0.with_color_table_config(c);
                    let x = d.color_table_config();
                    ensure!(x.existence() == c.existence() && x.ordering() == c.ordering() && x.len() == c.len() && x.size_bytes() == c.size_bytes(), "image flags {f:#x} {c:?}: {x:?}");
                    ensure!(d.flags() == f & 0x58 | (p as u8) << 7 | (s as u8) << 5 | (k as u8 - 1), "image flags {f:#x} {c:?}: {:#x}", d.flags());
                    ensure!((d.left(), d.top(), d.width(), d.height(), d.interlaced()) == (300, 9, 77, 5, d0.interlaced()), "image fields");
                    let l = l0.with_color_table_config(c);
                    let x = l.color_table_config();
                    ensure!(x.existence() == c.existence() && x.ordering() == c.ordering() && x.len() == c.len() && x.size_bytes() == c.size_bytes(), "screen flags {f:#x} {c:?}: {x:?}");
                    ensure!(l.flags() & 0x8F == (p as u8) << 7 | (s as u8) << 3 | (k as u8 - 1), "screen flags {f:#x} {c:?}: {:#x}", l.flags());
                    ensure!((l.screen_width(), l.screen_height(), l.background_color_idx(), l.pixel_aspect_ratio()) == (300, 9, 3, 4), "screen fields");
                    *n += 1;
                }
            }
        }
    }
    for k in 0..=65535u16 {
        let c = cfg(true, false, k);
        let mut e = 2usize;
        while e < k as usize && e < 256 {
            e *= 2;
        }
        ensure!(c.len() == e && c.size_bytes() == 3 * e && !c.is_empty(), "configuration for {k} entries: {c:?}");
        let a = cfg(false, true, k);
        ensure!(a.len() == 0 && a.size_bytes() == 0 && a.is_empty() && a.ordering() == ColorTableOrdering::Sorted, "absent configuration for {k} entries: {a:?}");
        let d = ImageDesc::default().with_color_table_config(c);
        ensure!(d.color_table_config().len() == e && d.flags() & 7 == (e.trailing_zeros() - 1) as u8, "image table for {k} entries: {d:?}");
        *n += 1;
    }
    Ok(())
}

fn c13(r: &mut Rng, _size: usize, c: &mut Case) -> R {
    // chains of setters against a record of the fields
    let mut g = GraphicControl::default();
    let (mut m, mut u, mut t, mut dl) = (0u8, false, None, 0u16);
    let mut d = ImageDesc::default();
    let mut i = false;
    let mut k = (false, false, 2usize);
    for _ in 0..r.range(1, 12) {
        match r.below(6) {
            0 => {
                m = r.below(8) as u8;
                g.set_disposal_method(method(m));
            }
            1 => {
                u = r.chance(1, 2);
                g.set_user_input(u);
            }
            2 => {
                t = if r.chance(1, 3) { None } else { Some(r.u8e()) };
                g.set_transparent_color(t);
            }
            3 => {
                dl = r.u16e();
                g.set_delay_time_cs(dl);
            }
            4 => {
                i = r.chance(1, 2);
                d = d.with_interlaced(i);
            }
            _ => {
                let n = r.u16e();
                k = (r.chance(1, 2), r.chance(1, 2), (n as usize).clamp(2, 256).next_power_of_two());
                d = d.with_color_table_config(ColorTableConfig::new(
                    if k.0 { ColorTableExistence::Present } else { ColorTableExistence::Absent },
                    if k.1 { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted },
                    n,
                ));
            }
        }
        c.note(format!("{:02x}/{:02x}", g.flags(), d.flags()));
        let got = (g.disposal_method(), g.user_input(), g.transparent_color(), g.delay_time_cs());
        ensure!(got == (method(m), u, t, dl), "graphic control {got:?} instead of {:?}", (method(m), u, t, dl));
        let x = d.color_table_config();
        let got = (d.interlaced(), x.existence() == ColorTableExistence::Present, x.ordering() == ColorTableOrdering::Sorted, x.len());
        let want = (i, k.0, k.1, if k.0 { k.2 } else { 0 });
        ensure!(got == want, "image descriptor {got:?} instead of {want:?}");
        let z = enc_block(g.into())?;
        let w = [0x21, 0xF9, 4, m << 2 | (u as u8) << 1 | u8::from(t.is_some()), dl as u8, (dl >> 8) as u8, t.unwrap_or(0), 0];
        ensure!(z == w, "graphic control bytes {z:x?} instead of {w:x?}");
    }
    Ok(())
}

fn c14_all(n: &mut u64) -> R {
    for k in 0..=65535u16 {
        let a = Application::with_loop_count(k);
        ensure!(a.loop_count() == Some(k), "count {k}: reported {:?}", a.loop_count());
        let z = enc_block(a.clone().into())?;
        let mut w = vec![0x21, 0xFF, 11];
        w.extend(b"NETSCAPE2.0");
        w.extend([3, 1, (k % 256) as u8, (k / 256) as u8, 0]);
        ensure!(z == w, "count {k}: bytes {z:x?}");
        let mut f = model::bytes(&MB::Header(*b"89a"));
        f.extend([1, 0, 1, 0, 0, 0, 0]);
        f.extend(&z);
        f.push(0x3B);
        match Decoder::new(&f[..]).into_blocks().nth(2) {
            Some(Ok(Block::Application(b))) => ensure!(b == a && b.loop_count() == Some(k), "count {k}: decoded as {:?}", b.loop_count()),
            o => return Err(format!("count {k}: decoded as {}", short(&o.map(|o| o.map_err(|e| me(&e)))))),
        }
        *n += 1;
    }
    Ok(())
}

fn looping_model(b: &[Result<MB, ME>], max: Option<usize>, cap: usize) -> Vec<Result<MS, ME>> {
    let once = model::steps(b, max);
    let count = match model::preamble(b) {
        Ok(p) => p.app.and_then(|a| model::loop_count(&a)),
        Err(_) => None,
    };
    if once.iter().any(|s| s.is_err()) || once.is_empty() {
        return once;
    }
    let total = match count {
        None => once.len(),
        Some(0) => usize::MAX,
        Some(c) => once.len() * (c as usize + 1),
    };
    once.iter().cloned().cycle().take(total.min(cap)).collect()
}

fn c14(r: &mut Rng, size: usize, c: &mut Case) -> R {
    // recognition
    let l = app(r);
    let mut a = Application::default();
    l.iter().for_each(|x| a.add_app_data(x));
    c.note(short(&l));
    ensure!(a.loop_count() == model::loop_count(&l), "loop count of {}: {:?}", short(&l), a.loop_count());
    // repetition
    let side = [2, 3, 5, 8][size];
    let frames = r.range(1, 4);
    let count = match r.below(6) {
        0 => 0,
        1 => r.pick(&[1u16, 2]),
        5 if size == 3 => r.pick(&[255u16, 256, 257, 1000, 65535]),
        _ => r.range(0, 12) as u16,
    };
    let mut f = gif(r, &Opt { side: if count > 200 { 1 } else { side }, frames: if count > 200 { 1 } else { frames }, odd: 1000, interlace: false, loop_ext: false });
    if r.chance(5, 6) {
        let at = 13 + 3 * model::table_len(f[10]).unwrap_or(0);
        let id: &[u8] = if r.chance(1, 2) { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
        let x = model::bytes(&MB::App(vec![id.to_vec(), vec![1, (count % 256) as u8, (count / 256) as u8]]));
        f.splice(at..at, x);
    }
    c.add("file", &f);
    let cap = if count > 200 { 70_000 } else { 300 };
    let b = model::blocks(&f, LIM, &mut vec![]);
    let want = looping_model(&b, LIM, cap);
    let mut it = Decoder::new(&f[..]).max_image_sz(LIM).into_iter();
    let mut got = 0;
    while got < want.len() {
        let s = it.next().map(|s| s.map(|s| ms(&s)).map_err(|e| me(&e)));
        ensure!(s.as_ref() == Some(&want[got]), "step {got} of {} (count {count}): {} instead of {}", want.len(), short(&s), short(&want[got]));
        got += 1;
    }
    if want.len() < cap {
        for _ in 0..4 {
            let s = it.next().map(|s| s.map(|s| ms(&s)).map_err(|e| me(&e)));
            ensure!(s.is_none(), "after {} steps (count {count}): {}", want.len(), short(&s));
        }
    }
    Ok(())
}

fn c15(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let odd = if r.chance(1, 2) { 3 } else { 1000 };
    let mut f = a_gif(r, size, odd);
    match r.below(4) {
        0 => {
            let n = r.below(f.len() + 1);
            f.truncate(n)
        }
        1 | 2 => mutate(r, &mut f),
        _ => (),
    }
    c.add("file", &f);
    c.trivial = f.len() < 10;
    let cap = f.len() + 20;
    let b = model::blocks(&f, LIM, &mut vec![]);
    let fr = model::frames(&b);
    let st = model::steps(&b, LIM);
    same("block", &got_blocks(&f[..], LIM, cap), &b)?;
    same("frame", &got_frames(&f[..], LIM, cap), &fr)?;
    let mut it = Decoder::new(&f[..]).max_image_sz(LIM).into_steps();
    let got: Vec<_> = it.by_ref().take(cap).map(|b| b.map(|b| ms(&b)).map_err(|e| me(&e))).collect();
    same("step", &got, &st)?;
    for i in 0..6 {
        ensure!(it.next().is_none(), "step iterator continues after its end (call {i})");
    }
    // not by way of collect: directly behind the error
    let mut it = Decoder::new(&f[..]).max_image_sz(LIM).into_steps();
    while let Some(s) = it.next() {
        if s.is_err() {
            for i in 0..6 {
                ensure!(it.next().is_none(), "step iterator continues after an error (call {i})");
            }
        }
    }
    let want = looping_model(&b, LIM, 60);
    let mut it = Decoder::new(&f[..]).max_image_sz(LIM).into_iter();
    let got: Vec<_> = it.by_ref().take(60).map(|b| b.map(|b| ms(&b)).map_err(|e| me(&e))).collect();
    same("looping step", &got, &want)?;
    if want.len() < 60 {
        for i in 0..6 {
            ensure!(it.next().is_none(), "looping step iterator continues after its end (call {i})");
        }
    }
    Ok(())
}

fn palette(r: &mut Rng, n: usize) -> (Palette, Vec<[u8; 3]>) {
    let mut p = Palette::new(n);
    let mut v = vec![];
    let base = r.u64() as usize;
    for i in 0..n {
        let k = base.wrapping_add(i.wrapping_mul(0x10001 * 7 + 1));
        let c = [(k >> 16) as u8, (k >> 8) as u8, k as u8];
        if p.set_entry(SRgb8::new(c[0], c[1], c[2])) == Some(v.len()) {
            v.push(c);
        }
    }
    (p, v)
}

fn raster(w: u16, h: u16, d: &[u8]) -> Raster<Gray8> {
    Raster::with_u8_buffer(u32::from(w), u32::from(h), d.to_vec())
}

fn c16(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let side = [4, 12, 40, 150][size];
    let (w, h) = (r.range(1, side) as u16, r.range(1, side) as u16);
    let out = Rc::new(RefCell::new(vec![]));
    let mut e = Encoder::new(sink(&out)).into_step_enc();
    let lc = if r.chance(1, 2) { Some(r.u16e()) } else { None };
    if let Some(k) = lc {
        e = e.with_loop_count(k);
    }
    struct Want {
        d: Vec<u8>,
        pal: Vec<[u8; 3]>,
        trans: Option<u8>,
        delay: u16,
    }
    let mut wants: Vec<Want> = vec![];
    let mut last: Option<(Palette, Vec<[u8; 3]>)> = None;
    c.note(format!("{w}x{h} loop={lc:?}"));
    for _ in 0..r.range(1, 2 + size + 2) {
        if r.chance(1, 8) {
            // refused rasters
            let before = out.borrow().clone();
            let (p, _) = palette(r, 4);
            if wants.is_empty() || r.chance(1, 4) {
                let (bw, bh) = r.pick(&[(65536u32, 1u32), (1, 65536), (65537, 1), (70000, 1), (1, 131072)]);
                let s = Step::with_indexed(Raster::with_clear(bw, bh), p);
                let g = e.encode_step(&s).map_err(|e| me(&e));
                ensure!(g == Err(ME::TryFromInt), "raster of {bw}x{bh}: {g:?}");
            } else {
                let (bw, bh) = match r.below(4) {
                    0 => (w + 1, h),
                    1 => (w, h + 1),
                    2 => (h, w),
                    _ => (r.range(1, side) as u16, r.range(1, side) as u16),
                };
                if (bw, bh) != (w, h) {
                    let n = bw as usize * bh as usize;
                    let s = Step::with_indexed(raster(bw, bh, &vec![0; n]), p);
                    let g = e.encode_step(&s).map_err(|e| me(&e));
                    ensure!(g == Err(ME::RasterDimensions), "raster of {bw}x{bh} after {w}x{h}: {g:?}");
                }
            }
            ensure!(*out.borrow() == before, "refused raster wrote bytes");
        }
        let (p, pal) = match &last {
            Some(l) if r.chance(1, 2) => l.clone(),
            _ => {
                let n = match r.below(3) {
                    0 => r.pick(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 128, 129, 255, 256, 257, 300]),
                    1 => r.range(1, 16),
                    _ => r.range(1, 260),
                };
                palette(r, n)
            }
        };
        let d = pixels_below(r, w as usize * h as usize, pal.len());
        let mut s = Step::with_indexed(raster(w, h, &d), p.clone());
        let mut want = Want { d, pal: pal.clone(), trans: None, delay: 0 };
        if r.chance(1, 2) {
            want.trans = if r.chance(1, 4) { None } else { Some(if r.chance(1, 2) { r.below(pal.len().min(256)) as u8 } else { r.u8e() }) };
            s = s.with_transparent_color(want.trans);
        }
        if r.chance(1, 2) {
            let dl = if r.chance(1, 4) { None } else { Some(r.u16e()) };
            want.delay = dl.unwrap_or(0);
            s = s.with_delay_time_cs(dl);
        }
        if r.chance(1, 2) {
            s = s.with_disposal_method(method(r.below(4) as u8));
        }
        e.encode_step(&s).map_err(|e| format!("encoding a step failed: {e}"))?;
        c.note(format!("pal={} trans={:?} delay={} px={}", pal.len(), want.trans, want.delay, short(&want.d)));
        last = Some((p, pal));
        wants.push(want);
    }
    drop(e);
    let f = out.borrow().clone();
    c.add("file", &f);
    ensure!(f.last() == Some(&0x3B), "no trailer");
    let b = model::blocks(&f, None, &mut vec![]);
    if let Some(Err(e)) = b.iter().find(|b| b.is_err()) {
        return Err(format!("written file is invalid: {e:?}"));
    }
    ensure!(model::preamble(&b).map(|p| p.app.and_then(|a| model::loop_count(&a))) == Ok(lc), "loop count in file");
    for (name, got) in [("decoded", got_steps(&f[..], None, 100)), ("shown by the format", model::steps(&b, None))] {
        ensure!(got.len() == wants.len(), "{name}: {} steps instead of {}: {}", got.len(), wants.len(), short(&got));
        for (i, (g, w_)) in got.iter().zip(&wants).enumerate() {
            let g = match g {
                Ok(g) => g,
                Err(e) => return Err(format!("{name}: step {i}: {e:?}")),
            };
            ensure!((g.w, g.h) == (w, h), "{name}: step {i}: size {}x{}", g.w, g.h);
            ensure!(g.trans == w_.trans, "{name}: step {i}: transparent color {:?} instead of {:?}", g.trans, w_.trans);
            ensure!(g.delay == w_.delay, "{name}: step {i}: delay {} instead of {}", g.delay, w_.delay);
            for (k, (p, x)) in g.px.iter().zip(&w_.d).enumerate() {
                if Some(*x) != w_.trans {
                    let q = w_.pal[*x as usize];
                    ensure!(*p == [q[0], q[1], q[2], 255], "{name}: step {i} pixel {k} (index {x}): {p:?} instead of {q:?}");
                }
            }
        }
    }
    Ok(())
}

enum Job {
    Blocks(Vec<Block>),
    Frames(Preamble, Vec<Frame>),
    Steps(Vec<Step>),
}

/// Runs a job; results of the calls, and bytes written when the first call failed
fn run_job(j: &Job, s: Sink) -> (Vec<Result<(), ME>>, Option<Vec<u8>>) {
    let out = s.out.clone();
    let mut v = vec![];
    let mut at = None;
    let mut add = |x: gift::Result<()>| {
        let x = x.map_err(|e| me(&e));
        if x.is_err() && at.is_none() {
            at = Some(out.borrow().clone());
        }
        v.push(x);
        v.last().unwrap().is_ok()
    };
    match j {
        Job::Blocks(l) => {
            let mut e = Encoder::new(s).into_block_enc();
            for b in l {
                if !add(e.encode(b.clone())) {
                    break;
                }
            }
        }
        Job::Frames(p, l) => {
            let mut e = Encoder::new(s).into_frame_enc();
            if add(e.encode_preamble(p)) && l.iter().all(|f| add(e.encode_frame(f))) {
                add(e.encode_trailer());
            }
        }
        Job::Steps(l) => {
            let mut e = Encoder::new(s).into_step_enc();
            for b in l {
                if !add(e.encode_step(b)) {
                    break;
                }
            }
        }
    }
    (v, at)
}

fn c17(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let j = match r.below(3) {
        0 => Job::Blocks(block_list(r, size.min(1)).iter().map(lib).collect()),
        1 => {
            let p = a_preamble(r).0;
            Job::Frames(p, (0..r.below(4)).map(|_| a_frame(r).0).collect())
        }
        _ => {
            let (w, h) = (r.range(1, 6) as u16, r.range(1, 6) as u16);
            Job::Steps(
                (0..r.range(1, 3))
                    .map(|_| {
                        let n = r.range(1, 20);
                        let (p, v) = palette(r, n);
                        let d = pixels_below(r, w as usize * h as usize, v.len());
                        Step::with_indexed(raster(w, h, &d), p).with_delay_time_cs(Some(r.u16e()))
                    })
                    .collect(),
            )
        }
    };
    let full = Rc::new(RefCell::new(vec![]));
    let (ok, _) = run_job(&j, sink(&full));
    let full = full.borrow().clone();
    c.add("bytes", &full);
    ensure!(ok.iter().all(|x| x.is_ok()), "encoding failed without a write error: {ok:?}");
    // short writes
    let out = Rc::new(RefCell::new(vec![]));
    let style = r.range(1, 2);
    let (g, _) = run_job(&j, Sink { out: out.clone(), r: Rng::new(r.u64()), style, interrupts: r.chance(1, 2), fail_at: None, once: false });
    ensure!(g == ok && *out.borrow() == full, "short writes change the result: {g:?}");
    // every failure position for small outputs, some for others
    let l = full.len();
    let places: Vec<usize> = if l < 80 { (0..l).collect() } else { (0..24).map(|_| r.below(l)).chain([0, l - 1]).collect() };
    for at in places {
        let kind = r.pick(&[io::ErrorKind::Other, io::ErrorKind::StorageFull, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe]);
        let out = Rc::new(RefCell::new(vec![]));
        let style = r.below(3);
        let once = r.chance(1, 2);
        let (g, written) = run_job(&j, Sink { out: out.clone(), r: Rng::new(7), style, interrupts: false, fail_at: Some((at, kind)), once });
        let trailer_only = matches!(j, Job::Steps(_)) && at == l - 1;
        if trailer_only {
            // written by drop, which cannot report
            ensure!(g == ok, "failure at the trailer reported as {g:?}");
            continue;
        }
        let e = g.iter().find(|x| x.is_err());
        ensure!(e == Some(&Err(ME::Io(format!("full at {at}")))), "failure at byte {at} of {l}: results {g:?}");
        let written = written.unwrap_or_default();
        ensure!(written[..] == full[..at.min(l)], "failure at byte {at}: wrote {} bytes which are not that prefix", written.len());
    }
    Ok(())
}

fn c18(r: &mut Rng, _size: usize, c: &mut Case) -> R {
    let mut pal = Palette::new(4);
    pal.set_entry(SRgb8::new(1, 2, 3));
    let mut s = if r.chance(1, 4) { Step::with_true_color(Raster::with_clear(1, 1)) } else { Step::with_indexed(Raster::with_clear(1, 1), pal) };
    let indexed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.raster().width())).is_err();
    let (mut t, mut d, mut m) = (None, 0u16, 0u8);
    for _ in 0..r.below(8) {
        match r.below(3) {
            0 => {
                t = if r.chance(1, 3) { None } else { Some(r.u8e()) };
                c.note(format!("transparent {t:?}"));
                s = s.with_transparent_color(t);
            }
            1 => {
                let x = match r.below(4) {
                    0 => None,
                    1 => Some(0),
                    _ => Some(r.u16e()),
                };
                c.note(format!("delay {x:?}"));
                d = x.unwrap_or(0);
                s = s.with_delay_time_cs(x);
            }
            _ => {
                m = r.below(8) as u8;
                c.note(format!("disposal {m}"));
                s = s.with_disposal_method(method(m));
            }
        }
        ensure!(s.transparent_color() == t, "transparent color {:?} instead of {t:?}", s.transparent_color());
        ensure!(s.delay_time_cs().unwrap_or(0) == d, "delay {:?} instead of {d}", s.delay_time_cs());
        if r.chance(1, 4) {
            s = s.clone();
        }
    }
    if indexed {
        let mut z = vec![];
        let mut e = Encoder::new(&mut z).into_step_enc();
        e.encode_step(&s).map_err(|e| e.to_string())?;
        drop(e);
        let b = model::blocks(&z, None, &mut vec![]);
        let g: Vec<_> = b.iter().filter(|b| matches!(b, Ok(MB::Gce { .. }))).cloned().collect();
        let plain = t.is_none() && d == 0 && m == 0;
        let want = if plain { vec![] } else { vec![Ok(MB::Gce { flags: m << 2 | u8::from(t.is_some()), delay: d, idx: t.unwrap_or(0) })] };
        ensure!(g == want, "graphic control {g:?} instead of {want:?}");
    }
    Ok(())
}

fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn c19(r: &mut Rng, size: usize, c: &mut Case) -> R {
    let bin = std::env::var("GIFT_BIN").expect("GIFT_BIN");
    let dir = std::env::var("GH_SCRATCH").expect("GH_SCRATCH");
    let odd = if r.chance(3, 4) { 1000 } else { 3 };
    let mut f = a_gif(r, size.min(2), odd);
    if r.chance(1, 3) {
        // readable comments
        let at = 13 + 3 * model::table_len(f[10]).unwrap_or(0);
        let t: &[u8] = r.pick(&[&b"hello"[..], b"two\nlines", b"  trimmed  \n\n x", b"caf\xc3\xa9", b"\xff\xfe"]);
        f.splice(at..at, model::bytes(&MB::Comment(vec![t.to_vec(), b"second".to_vec()])));
    }
    if r.chance(1, 8) {
        mutate(r, &mut f);
    }
    c.add("file", &f);
    let path = format!("{dir}/{:016x}.gif", r.u64());
    std::fs::write(&path, &f).map_err(|e| format!("scratch: {e}")).unwrap();
    let o = std::process::Command::new(&bin).arg(&path).env_remove("RUST_LOG").output().expect("gift command");
    let _ = std::fs::remove_file(&path);
    let max = Some(1 << 25);
    let b = model::blocks(&f, max, &mut vec![]);
    let fr = model::frames(&b);
    let pre = model::preamble(&b);
    let bad = pre.is_err() || fr.iter().any(|f| f.is_err());
    let text = strip(&String::from_utf8_lossy(&o.stdout));
    if bad {
        ensure!(!o.status.success(), "damaged file ({:?}) reported with success", fr.last());
        return Ok(());
    }
    let p = pre.unwrap();
    ensure!(o.status.success(), "exit status {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr));
    if p.comments.iter().flatten().any(|x| x.contains(&0x1B)) {
        // cannot be told from the escape sequences for colors
        c.trivial = true;
        return Ok(());
    }
    let norm = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut want = vec![format!("{path:?}")];
    let mut head = format!("GIF{}, frames: {}", String::from_utf8_lossy(&p.version), fr.len());
    match p.app.as_ref().and_then(|a| model::loop_count(a)) {
        Some(0) => head.push_str(", repeat: ∞"),
        Some(n) => head.push_str(&format!(", repeat: {n}")),
        None => (),
    }
    let mut cm = vec![];
    for x in p.comments.iter().flatten() {
        for l in String::from_utf8_lossy(x).split('\n') {
            let l = l.trim();
            if !l.is_empty() {
                cm.push(format!("# {l}"));
            }
        }
    }
    if cm.is_empty() {
        want.push(head);
    } else {
        want.push(format!("{head} {}", cm[0]));
        want.extend(cm[1..].iter().cloned());
    }
    want.push(String::from("Fr# Delay Disp Size X,Y Clrs Trn"));
    for (n, f) in fr.iter().enumerate() {
        let f = f.as_ref().unwrap();
        let d = f.gce.map_or(0, |g| g.1);
        let disp = match f.gce {
            None => "-",
            Some(g) => ["none", "keep", "bg", "prev", "res", "res", "res", "res"][(g.0 >> 2 & 7) as usize],
        };
        let cl = match model::table_len(f.desc.4) {
            Some(n) => format!("{n}"),
            None => format!("{}g", model::table_len(p.lsd.2).unwrap_or(0)),
        };
        want.push(format!(
            "{}{n} {}.{:02} {disp} {}x{} {},{} {cl} {}",
            if f.desc.4 & 0x40 != 0 { "i " } else { "" },
            d / 100,
            d % 100,
            f.desc.2,
            f.desc.3,
            f.desc.0,
            f.desc.1,
            model::trans(&f.gce).map_or(String::from("-"), |t| t.to_string())
        ));
    }
    // a comment may hold line separators other than a line feed: compare the whole text
    let got = norm(&text);
    let want_all = norm(&want.join("\n"));
    ensure!(got == want_all, "printed {} instead of {}", short(&got), short(&want_all));
    let lines: Vec<String> = text.split('\n').map(norm).filter(|l| !l.is_empty()).collect();
    let k = fr.len();
    ensure!(lines.len() >= k && lines[lines.len() - k..] == want[want.len() - k..], "frame lines: {}", short(&lines));
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "random pixel sequences (7 styles, value limits 1..256, up to 200000 pixels) encoded as image data and decoded; non-trivial: 2 or more pixels", all: None, case: c01 },
    Prop { id: "C02", rule: "random LZW code streams (legal, with undefined codes, over-full tables, data behind the end code) and random bytes, random sub-blocks, compared with an independent reader; non-trivial: 2 or more bytes", all: None, case: c02 },
    Prop { id: "C03", rule: "random pixel sequences encoded; written bytes read by an independent LZW reader; non-trivial: 2 or more pixels", all: None, case: c03 },
    Prop { id: "C04", rule: "sound, damaged and random files with random limits and read sizes iterated at all levels; non-trivial: 6 or more bytes", all: None, case: c04 },
    Prop { id: "C05", rule: "sub-blocks of all sizes up to 260 and some larger; random valid block sequences built by the public interface, written, compared with the format and decoded", all: Some(c05_all), case: c05 },
    Prop { id: "C06", rule: "sound, damaged and random files; blocks, errors and byte positions compared with an independent parser; non-trivial: 8 or more bytes", all: None, case: c06 },
    Prop { id: "C07", rule: "files read with random piece sizes, interruptions and failures, compared with an independent parser; non-trivial: 8 or more bytes", all: None, case: c07 },
    Prop { id: "C08", rule: "random image sizes, limits around them and data lengths around them", all: None, case: c08 },
    Prop { id: "C09", rule: "random call sequences on a frame encoder with random parts", all: None, case: c09 },
    Prop { id: "C10", rule: "sound and damaged files; frames and preamble compared with an independent grouping; non-trivial: 2 or more frames", all: None, case: c10 },
    Prop { id: "C11", rule: "random animations drawn and compared with an independent composition; non-trivial: first step is drawn", all: None, case: c11 },
    Prop { id: "C12", rule: "heights 1..260 and some larger completely, random larger heights and random interlaced animations", all: Some(c12_all), case: c12 },
    Prop { id: "C13", rule: "all 256 flag bytes x all setter values, all 65536 table sizes, and random setter chains", all: Some(c13_all), case: c13 },
    Prop { id: "C14", rule: "all 65536 loop counts (report, bytes, decoding); random application blocks; random looping files", all: Some(c14_all), case: c14 },
    Prop { id: "C15", rule: "damaged and truncated files iterated beyond the end at all levels; non-trivial: 10 or more bytes", all: None, case: c15 },
    Prop { id: "C16", rule: "random step sequences (sizes, palettes of 1..300 colors, settings, refused rasters) encoded, decoded and compared", all: None, case: c16 },
    Prop { id: "C17", rule: "random blocks, frames and steps with short writes and failing writes at random (small outputs: all) positions", all: None, case: c17 },
    Prop { id: "C18", rule: "random chains of step settings, read back and encoded", all: None, case: c18 },
    Prop { id: "C19", rule: "gift command run on random sound and damaged files, output compared with independently formatted text", all: None, case: c19 },
];
