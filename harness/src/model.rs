//! Executable reading of the GIF89a definition, written without reference to
//! the implementation (no code of the library is used here).

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MB {
    Header([u8; 3]),
    Lsd { w: u16, h: u16, flags: u8, bg: u8, aspect: u8 },
    Gct(Vec<u8>),
    Plain(Vec<Vec<u8>>),
    Gce { flags: u8, delay: u16, idx: u8 },
    Comment(Vec<Vec<u8>>),
    App(Vec<Vec<u8>>),
    Unknown(u8, Vec<Vec<u8>>),
    Idesc { l: u16, t: u16, w: u16, h: u16, flags: u8 },
    Lct(Vec<u8>),
    Img(Vec<u8>),
    Trailer,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ME {
    Io(String),
    TryFromInt,
    MalformedHeader,
    Version([u8; 3]),
    BlockCode,
    BlockSequence,
    GraphicControl,
    Eof,
    Lzw,
    TooLarge,
    Incomplete,
    FrameDimensions,
    MissingTable,
    ColorIndex,
    RasterDimensions,
}

/// LZW reader; fed with bytes, one code at a time
pub struct Lzw {
    min: u32,
    bits: Vec<bool>,
    pos: usize,
    dict: Vec<Vec<u8>>,
    prev: Option<Vec<u8>>,
    width: u32,
    pub ended: bool,
    pub codes: Vec<(u32, u32)>,
}

impl Lzw {
    pub fn new(min: u8) -> Self {
        let mut s = Lzw { min: u32::from(min), bits: vec![], pos: 0, dict: vec![], prev: None, width: 0, ended: false, codes: vec![] };
        s.clear();
        s
    }
    fn clear(&mut self) {
        self.dict = (0..(1u32 << self.min)).map(|v| vec![v as u8]).collect();
        self.dict.push(vec![]);
        self.dict.push(vec![]);
        self.prev = None;
        self.width = self.min + 1;
    }
    /// Feed bytes; append decoded data. Err for a code without a definition
    pub fn feed(&mut self, bytes: &[u8], out: &mut Vec<u8>) -> Result<(), ME> {
        if self.ended {
            return Ok(());
        }
        for b in bytes {
            for i in 0..8 {
                self.bits.push(b >> i & 1 == 1);
            }
        }
        while self.bits.len() - self.pos >= self.width as usize {
            let mut code = 0u32;
            for i in 0..self.width as usize {
                if self.bits[self.pos + i] {
                    code |= 1 << i;
                }
            }
            self.pos += self.width as usize;
            self.codes.push((code, self.width));
            let clear = 1u32 << self.min;
            if code == clear {
                self.clear();
                continue;
            }
            if code == clear + 1 {
                self.ended = true;
                return Ok(());
            }
            let n = self.dict.len() as u32;
            let s = if code < n {
                self.dict[code as usize].clone()
            } else if code == n && n < 4096 && self.prev.is_some() {
                let p = self.prev.clone().unwrap();
                let mut s = p.clone();
                s.push(p[0]);
                s
            } else {
                return Err(ME::Lzw);
            };
            if let Some(p) = &self.prev
                && n < 4096
            {
                let mut e = p.clone();
                e.push(s[0]);
                self.dict.push(e);
                if self.dict.len() == 1 << self.width && self.width < 12 {
                    self.width += 1;
                }
            }
            out.extend_from_slice(&s);
            self.prev = Some(s);
        }
        if self.pos > 4096 {
            self.bits.drain(..self.pos);
            self.pos = 0;
        }
        Ok(())
    }
}

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}

impl Cur<'_> {
    fn take(&mut self, n: usize) -> Result<Vec<u8>, ME> {
        if self.p + n <= self.d.len() {
            let v = self.d[self.p..self.p + n].to_vec();
            self.p += n;
            Ok(v)
        } else {
            self.p = self.d.len();
            Err(ME::Eof)
        }
    }
    fn sub_blocks(&mut self, mut f: impl FnMut(Vec<u8>) -> Result<(), ME>) -> Result<(), ME> {
        loop {
            let n = self.take(1)?[0] as usize;
            if n == 0 {
                return Ok(());
            }
            f(self.take(n)?)?;
        }
    }
}

fn le(v: &[u8], i: usize) -> u16 {
    v[i] as u16 + 256 * v[i + 1] as u16
}

pub fn table_len(flags: u8) -> Option<usize> {
    if flags >= 128 { Some(2usize.pow(u32::from(flags % 8) + 1)) } else { None }
}

/// Decode all blocks up to and including the trailer or the first error.
/// `pos` receives the number of bytes used after each block.
pub fn blocks(d: &[u8], max: Option<usize>, pos: &mut Vec<usize>) -> Vec<Result<MB, ME>> {
    let mut c = Cur { d, p: 0 };
    let mut v = vec![];
    let r = (|| -> Result<(), ME> {
        macro_rules! emit {
            ($b:expr) => {{
                let b = $b;
                v.push(Ok(b));
                pos.push(c.p);
            }};
        }
        let h = c.take(6)?;
        if &h[..3] != b"GIF" {
            return Err(ME::MalformedHeader);
        }
        let ver = [h[3], h[4], h[5]];
        if &ver != b"87a" && &ver != b"89a" {
            return Err(ME::Version(ver));
        }
        emit!(MB::Header(ver));
        let l = c.take(7)?;
        emit!(MB::Lsd { w: le(&l, 0), h: le(&l, 2), flags: l[4], bg: l[5], aspect: l[6] });
        if let Some(n) = table_len(l[4]) {
            emit!(MB::Gct(c.take(3 * n)?));
        }
        loop {
            match c.take(1)?[0] {
                0x3B => {
                    emit!(MB::Trailer);
                    return Ok(());
                }
                0x21 => {
                    let id = c.take(1)?[0];
                    if id == 0xF9 {
                        let mut g = MB::Gce { flags: 0, delay: 0, idx: 0 };
                        c.sub_blocks(|s| {
                            if s.len() != 4 {
                                return Err(ME::GraphicControl);
                            }
                            g = MB::Gce { flags: s[0], delay: le(&s, 1), idx: s[3] };
                            Ok(())
                        })?;
                        emit!(g);
                    } else {
                        let mut subs = vec![];
                        c.sub_blocks(|s| {
                            subs.push(s);
                            Ok(())
                        })?;
                        emit!(match id {
                            1 => MB::Plain(subs),
                            0xFE => MB::Comment(subs),
                            0xFF => MB::App(subs),
                            _ => MB::Unknown(id, subs),
                        });
                    }
                }
                0x2C => {
                    let s = c.take(9)?;
                    let (w, h) = (le(&s, 4), le(&s, 6));
                    let sz = w as usize * h as usize;
                    if let Some(m) = max
                        && sz > m
                    {
                        return Err(ME::TooLarge);
                    }
                    emit!(MB::Idesc { l: le(&s, 0), t: le(&s, 2), w, h, flags: s[8] });
                    if let Some(n) = table_len(s[8]) {
                        emit!(MB::Lct(c.take(3 * n)?));
                    }
                    let min = c.take(1)?[0].clamp(2, 8);
                    let mut z = Lzw::new(min);
                    let mut out = vec![];
                    c.sub_blocks(|s| z.feed(&s, &mut out))?;
                    if out.len() < sz {
                        return Err(ME::Incomplete);
                    }
                    out.truncate(sz);
                    emit!(MB::Img(out));
                }
                _ => return Err(ME::BlockCode),
            }
        }
    })();
    if let Err(e) = r {
        v.push(Err(e));
        pos.push(c.p);
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MF {
    pub gce: Option<(u8, u16, u8)>,
    pub desc: (u16, u16, u16, u16, u8),
    pub lct: Option<Vec<u8>>,
    pub data: Vec<u8>,
}

/// Frames from blocks; stops at first error
pub fn frames(b: &[Result<MB, ME>]) -> Vec<Result<MF, ME>> {
    let (mut g, mut d, mut l) = (None, None, None);
    let mut v = vec![];
    for x in b {
        match x {
            Err(e) => {
                v.push(Err(e.clone()));
                break;
            }
            Ok(MB::Gce { flags, delay, idx }) => {
                if g.is_some() {
                    v.push(Err(ME::BlockSequence));
                    break;
                }
                g = Some((*flags, *delay, *idx));
            }
            Ok(MB::Idesc { l, t, w, h, flags }) => d = Some((*l, *t, *w, *h, *flags)),
            Ok(MB::Lct(t)) => l = Some(t.clone()),
            Ok(MB::Img(data)) => v.push(Ok(MF { gce: g.take(), desc: d.take().unwrap(), lct: l.take(), data: data.clone() })),
            _ => (),
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MP {
    pub version: [u8; 3],
    pub lsd: (u16, u16, u8, u8, u8),
    pub gct: Option<Vec<u8>>,
    pub app: Option<Vec<Vec<u8>>>,
    pub comments: Vec<Vec<Vec<u8>>>,
}

pub fn loop_count(app: &[Vec<u8>]) -> Option<u16> {
    match app {
        [id, sub] if (id == b"NETSCAPE2.0" || id == b"ANIMEXTS1.0") && sub.len() == 3 && sub[0] == 1 => Some(le(sub, 1)),
        _ => None,
    }
}

/// Preamble: everything before the first frame block
pub fn preamble(b: &[Result<MB, ME>]) -> Result<MP, ME> {
    let mut p = MP::default();
    for x in b {
        match x {
            Err(e) => return Err(e.clone()),
            Ok(MB::Header(v)) => p.version = *v,
            Ok(MB::Lsd { w, h, flags, bg, aspect }) => p.lsd = (*w, *h, *flags, *bg, *aspect),
            Ok(MB::Gct(c)) => p.gct = Some(c.clone()),
            Ok(MB::App(a)) if loop_count(a).is_some() => p.app = Some(a.clone()),
            Ok(MB::Comment(c)) => p.comments.push(c.clone()),
            Ok(MB::Gce { .. }) | Ok(MB::Idesc { .. }) => return Ok(p),
            _ => (),
        }
    }
    Err(ME::BlockSequence)
}

/// Display rows in the order they are stored (four passes)
pub fn interlace_order(height: usize) -> Vec<usize> {
    let mut v = vec![];
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut r = start;
        while r < height {
            v.push(r);
            r += step;
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MS {
    pub w: u16,
    pub h: u16,
    pub px: Vec<[u8; 4]>,
    pub trans: Option<u8>,
    pub delay: u16,
}

pub fn trans(g: &Option<(u8, u16, u8)>) -> Option<u8> {
    match g {
        Some((f, _, i)) if f & 1 == 1 => Some(*i),
        _ => None,
    }
}

/// Steps from blocks
pub fn steps(b: &[Result<MB, ME>], max: Option<usize>) -> Vec<Result<MS, ME>> {
    let p = match preamble(b) {
        Err(e) => return vec![Err(e)],
        Ok(p) => p,
    };
    let (w, h) = (p.lsd.0 as usize, p.lsd.1 as usize);
    if w * h > max.unwrap_or(usize::MAX).min(i32::MAX as usize) {
        return vec![Err(ME::TooLarge)];
    }
    let mut canvas = vec![[0u8; 4]; w * h];
    let mut v = vec![];
    for f in frames(b) {
        let f = match f {
            Err(e) => {
                v.push(Err(e));
                break;
            }
            Ok(f) => f,
        };
        let (fl, ft, fw, fh, ff) = (f.desc.0 as usize, f.desc.1 as usize, f.desc.2 as usize, f.desc.3 as usize, f.desc.4);
        if fw == 0 || fh == 0 || fl + fw > w || ft + fh > h {
            v.push(Err(ME::FrameDimensions));
            break;
        }
        let table = match (&f.lct, &p.gct) {
            (Some(t), _) => t,
            (None, Some(t)) => t,
            _ => {
                v.push(Err(ME::MissingTable));
                break;
            }
        };
        if f.data.iter().any(|i| (*i as usize) * 3 >= table.len()) {
            v.push(Err(ME::ColorIndex));
            break;
        }
        let before = canvas.clone();
        let tr = trans(&f.gce);
        let order: Vec<usize> = if ff & 0x40 != 0 { interlace_order(fh) } else { (0..fh).collect() };
        for (s, y) in order.iter().enumerate() {
            for x in 0..fw {
                let i = f.data[s * fw + x];
                if tr != Some(i) {
                    let t = 3 * i as usize;
                    canvas[(ft + y) * w + fl + x] = [table[t], table[t + 1], table[t + 2], 255];
                }
            }
        }
        v.push(Ok(MS { w: w as u16, h: h as u16, px: canvas.clone(), trans: tr, delay: f.gce.map_or(0, |g| g.1) }));
        match f.gce.map_or(0, |g| g.0 >> 2 & 7) {
            2 => {
                for y in ft..ft + fh {
                    for x in fl..fl + fw {
                        canvas[y * w + x] = [0; 4];
                    }
                }
            }
            3 => canvas = before,
            _ => (),
        }
    }
    v
}

/// Bytes of a block (image data excepted) in the GIF format
pub fn bytes(b: &MB) -> Vec<u8> {
    let mut v = vec![];
    let sub = |v: &mut Vec<u8>, s: &[Vec<u8>]| {
        for x in s {
            v.push(x.len() as u8);
            v.extend_from_slice(x);
        }
        v.push(0);
    };
    let le = |v: &mut Vec<u8>, x: u16| v.extend_from_slice(&[(x % 256) as u8, (x / 256) as u8]);
    match b {
        MB::Header(x) => {
            v.extend_from_slice(b"GIF");
            v.extend_from_slice(x);
        }
        MB::Lsd { w, h, flags, bg, aspect } => {
            le(&mut v, *w);
            le(&mut v, *h);
            v.extend_from_slice(&[*flags, *bg, *aspect]);
        }
        MB::Gct(c) | MB::Lct(c) => v.extend_from_slice(c),
        MB::Plain(s) => {
            v.extend_from_slice(&[0x21, 1]);
            sub(&mut v, s);
        }
        MB::Comment(s) => {
            v.extend_from_slice(&[0x21, 0xFE]);
            sub(&mut v, s);
        }
        MB::App(s) => {
            v.extend_from_slice(&[0x21, 0xFF]);
            sub(&mut v, s);
        }
        MB::Unknown(i, s) => {
            v.extend_from_slice(&[0x21, *i]);
            sub(&mut v, s);
        }
        MB::Gce { flags, delay, idx } => {
            v.extend_from_slice(&[0x21, 0xF9, 4, *flags]);
            le(&mut v, *delay);
            v.extend_from_slice(&[*idx, 0]);
        }
        MB::Idesc { l, t, w, h, flags } => {
            v.push(0x2C);
            for x in [l, t, w, h] {
                le(&mut v, *x);
            }
            v.push(*flags);
        }
        MB::Trailer => v.push(0x3B),
        MB::Img(_) => panic!("image data has many encodings"),
    }
    v
}
