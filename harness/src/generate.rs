//! Generators of GIF data (independent of the library)
use crate::model::*;
use crate::rng::Rng;
use std::collections::HashMap;
use std::io::{self, Read, Write};

pub struct BitW {
    pub out: Vec<u8>,
    n: u32,
}

impl BitW {
    pub fn new() -> Self {
        BitW { out: vec![], n: 0 }
    }
    pub fn put(&mut self, code: u32, width: u32) {
        for i in 0..width {
            if self.n % 8 == 0 {
                self.out.push(0);
            }
            if code >> i & 1 == 1 {
                *self.out.last_mut().unwrap() |= 1 << (self.n % 8);
            }
            self.n += 1;
        }
    }
}

/// A stream of LZW codes; with `bad` some code may be undefined
pub fn lzw_codes(r: &mut Rng, min: u8, n_codes: usize, bad: bool) -> Vec<u8> {
    let clear = 1u32 << min;
    let mut w = BitW::new();
    let mut width = u32::from(min) + 1;
    let mut lens: Vec<usize> = vec![1; clear as usize + 2];
    let mut prev: Option<usize> = None;
    let mut total = 0;
    let style = r.below(4);
    let clear_den = [40, 400, 100_000, 5000][r.below(4)];
    let bad_den = [10, 100, 1000, 5000][r.below(4)];
    if r.chance(5, 6) {
        w.put(clear, width);
    }
    for _ in 0..n_codes {
        if total > 300_000 {
            break;
        }
        let n = lens.len() as u32;
        let code = if bad && r.chance(1, bad_den) {
            let top = 1u32 << width;
            if n < top { n + r.below((top - n) as usize) as u32 } else { r.below(top as usize) as u32 }
        } else if r.chance(1, clear_den) {
            clear
        } else if bad && r.chance(1, 3000) {
            clear + 1
        } else {
            match (style, r.below(10)) {
                (0, 0..=7) | (1, 0) | (2, 0..=2) | (3, 0..=4) => r.below(clear as usize) as u32,
                (1, 1..=6) if prev.is_some() && n < 4096 => n,
                (2, _) if n > clear + 2 => n - 1 - r.below(((n - clear - 2) as usize).min(4)) as u32,
                _ if n > clear + 2 => clear + 2 + r.below((n - clear - 2) as usize) as u32,
                _ => r.below(clear as usize) as u32,
            }
        };
        w.put(code, width);
        if code == clear {
            lens.truncate(clear as usize + 2);
            prev = None;
            width = u32::from(min) + 1;
            continue;
        }
        if code == clear + 1 {
            break;
        }
        let l = if code < n {
            lens[code as usize]
        } else if let Some(p) = prev {
            p + 1
        } else {
            1
        };
        if let Some(p) = prev
            && n < 4096
        {
            lens.push(p + 1);
            if lens.len() == 1 << width && width < 12 {
                width += 1;
            }
        }
        total += l;
        prev = Some(l);
    }
    if r.chance(3, 4) {
        w.put(clear + 1, width);
    }
    if r.chance(1, 4) {
        let n = r.range(1, 5);
        w.out.extend(r.bytes(n));
    }
    w.out
}

/// Greedy LZW compression with occasional clear codes
pub fn lzw_encode(r: &mut Rng, min: u8, data: &[u8]) -> Vec<u8> {
    let clear = 1u32 << min;
    let mut w = BitW::new();
    let mut width = u32::from(min) + 1;
    let mut dict: HashMap<(u32, u8), u32> = HashMap::new();
    let mut next = clear + 2;
    let clear_den = [30, 1000, 1_000_000][r.below(3)];
    w.put(clear, width);
    let mut i = 0;
    while i < data.len() {
        let mut code = u32::from(data[i]);
        let mut j = i + 1;
        while j < data.len() {
            match dict.get(&(code, data[j])) {
                Some(c) => code = *c,
                None => break,
            }
            j += 1;
        }
        w.put(code, width);
        // the reader now has `next` entries
        if next == 1 << width && width < 12 {
            width += 1;
        }
        if j < data.len() && next < 4096 {
            dict.insert((code, data[j]), next);
            next += 1;
        }
        i = j;
        if (next == 4096 && r.chance(1, 2)) || r.chance(1, clear_den) {
            w.put(clear, width);
            dict.clear();
            next = clear + 2;
            width = u32::from(min) + 1;
        }
    }
    w.put(clear + 1, width);
    w.out
}

/// Cut bytes into sub-blocks and append with terminator
pub fn put_sub_blocks(r: &mut Rng, bytes: &[u8], out: &mut Vec<u8>) {
    let style = r.below(4);
    let mut i = 0;
    while i < bytes.len() {
        let n = match style {
            0 => 255,
            1 => 1,
            2 => r.range(1, 255),
            _ => r.range(1, 9),
        }
        .min(bytes.len() - i);
        out.push(n as u8);
        out.extend_from_slice(&bytes[i..i + n]);
        i += n;
    }
    out.push(0);
}

/// Image data block bytes
pub fn image_data(r: &mut Rng, data: &[u8], out: &mut Vec<u8>) {
    let max = data.iter().copied().max().unwrap_or(0);
    let mut min = 2u8;
    while min < 8 && (1u32 << min) <= u32::from(max) {
        min += 1;
    }
    if r.chance(1, 4) {
        min = r.range(min as usize, 8) as u8;
    }
    out.push(min);
    let z = lzw_encode(r, min, data);
    put_sub_blocks(r, &z, out);
}

pub fn pixels(r: &mut Rng, len: usize) -> Vec<u8> {
    let top = match r.below(4) {
        0 => 256,
        1 => 1usize << r.range(0, 8),
        2 => r.pick(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256]),
        _ => r.range(1, 256),
    };
    pixels_below(r, len, top)
}

pub fn pixels_below(r: &mut Rng, len: usize, top: usize) -> Vec<u8> {
    let top = top.clamp(1, 256);
    let mut v: Vec<u8> = Vec::with_capacity(len);
    let style = r.below(7);
    let base = r.below(top) as u8;
    let period = r.range(1, 40);
    let pat: Vec<u8> = (0..period).map(|_| r.below(top) as u8).collect();
    while v.len() < len {
        match style {
            0 => v.push(base),
            1 => v.push(r.below(top) as u8),
            2 => {
                let b = r.below(top) as u8;
                let n = if r.chance(1, 20) { r.range(1, 600) } else { r.range(1, 12) };
                for _ in 0..n {
                    v.push(b);
                }
            }
            3 => v.push((v.len() % top) as u8),
            4 => v.push(pat[v.len() % period]),
            5 => {
                // copy of an earlier part, then a new value
                if v.len() > 4 && r.chance(2, 3) {
                    let s = r.below(v.len());
                    let n = r.range(1, 60).min(v.len() - s);
                    for k in 0..n {
                        let x = v[s + k];
                        v.push(x);
                    }
                } else {
                    v.push(r.below(top) as u8);
                }
            }
            _ => v.push(if r.chance(1, 30) { r.below(top) as u8 } else { base }),
        }
    }
    v.truncate(len);
    if len > 0 && r.chance(1, 2) {
        // make sure the largest value occurs, once
        let i = r.below(len);
        v[i] = (top - 1) as u8;
    }
    v
}

pub fn sub_list(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = r.pick(&[0usize, 1, 1, 2, 2, 3, 5]);
    (0..n)
        .map(|_| {
            let l = match r.below(5) {
                0 => 1,
                1 => 255,
                2 => r.range(250, 255),
                _ => r.range(1, 20),
            };
            if r.chance(1, 3) {
                (0..l).map(|_| r.range(32, 126) as u8).collect()
            } else {
                r.bytes(l)
            }
        })
        .collect()
}

pub fn app(r: &mut Rng) -> Vec<Vec<u8>> {
    let c = r.u16e();
    let (lo, hi) = ((c % 256) as u8, (c / 256) as u8);
    let id: &[u8] = if r.chance(1, 2) { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
    match r.below(12) {
        0..=6 => vec![id.to_vec(), vec![1, lo, hi]],
        7 => vec![id.to_vec(), vec![r.u8e(), lo, hi]],
        8 => vec![id.to_vec(), vec![1, lo]],
        9 => vec![id.to_vec(), vec![1, lo, hi, 0]],
        10 => {
            let mut id = id.to_vec();
            let i = r.below(id.len());
            id[i] ^= 1 << r.below(7);
            vec![id, vec![1, lo, hi]]
        }
        _ => match r.below(5) {
            0 => vec![],
            1 => vec![id.to_vec()],
            2 => vec![id.to_vec(), vec![1, lo, hi], vec![7]],
            3 => vec![id[..10].to_vec(), vec![1, lo, hi]],
            _ => sub_list(r),
        },
    }
}

pub fn ext(r: &mut Rng) -> MB {
    match r.below(5) {
        0 => MB::Plain(sub_list(r)),
        1 => MB::Comment(sub_list(r)),
        2 => MB::App(app(r)),
        3 => MB::App(app(r)),
        _ => {
            let mut id = r.u8();
            while matches!(id, 1 | 0xF9 | 0xFE | 0xFF) {
                id = r.u8();
            }
            if r.chance(1, 4) {
                id = r.pick(&[0u8, 2, 0xF8, 0xFA, 0xFD, 0x2C, 0x3B, 0x21]);
            }
            MB::Unknown(id, sub_list(r))
        }
    }
}

pub struct Opt {
    /// largest screen side
    pub side: usize,
    pub frames: usize,
    /// one in `odd` decisions is unusual (bad frame position, index, missing table ...)
    pub odd: usize,
    pub interlace: bool,
    pub loop_ext: bool,
}

/// A structured GIF file
pub fn gif(r: &mut Rng, o: &Opt) -> Vec<u8> {
    let mut v = vec![];
    v.extend(bytes(&MB::Header(if r.chance(1, 2) { *b"89a" } else { *b"87a" })));
    let (w, h) = if r.chance(1, o.odd * 4) {
        (r.pick(&[0u16, 1, 3, 300]), r.pick(&[0u16, 1, 2]))
    } else {
        (r.range(1, o.side) as u16, r.range(1, o.side) as u16)
    };
    let mut flags = r.u8();
    if r.chance(3, 4) {
        flags |= 128;
    }
    if r.chance(1, 2) {
        flags = (flags & 0xF8) | r.below(3) as u8;
    }
    v.extend(bytes(&MB::Lsd { w, h, flags, bg: r.u8e(), aspect: r.u8e() }));
    let gn = table_len(flags);
    if let Some(n) = gn {
        v.extend(r.bytes(3 * n));
    }
    if o.loop_ext {
        v.extend(bytes(&MB::App(app(r))));
    }
    for _ in 0..r.below(3) {
        v.extend(bytes(&ext(r)));
    }
    for _ in 0..o.frames {
        if r.chance(2, 3) {
            let flags = if r.chance(1, 6) { r.u8() } else { (r.pick(&[0u8, 1, 1, 2, 2, 3, 3, 4, 7]) << 2) | r.below(4) as u8 };
            let idx = if r.chance(1, 3) { r.u8e() } else { r.below(4) as u8 };
            let g = bytes(&MB::Gce { flags, delay: r.u16e(), idx });
            v.extend(&g);
            if r.chance(1, o.odd * 4) {
                match r.below(3) {
                    0 => v.extend(&g),
                    1 => {
                        let n = r.range(1, 8);
                        v.extend([0x21, 0xF9, n as u8]);
                        v.extend(r.bytes(n));
                        v.push(0);
                    }
                    _ => v.extend([0x21, 0xF9, 0]),
                }
            }
        }
        if r.chance(1, 5) {
            v.extend(bytes(&ext(r)));
        }
        let (mut fw, mut fh) = (r.range(1, w.max(1) as usize), r.range(1, h.max(1) as usize));
        if r.chance(1, 3) {
            fw = w as usize;
            fh = h as usize;
        }
        let mut l = r.below((w as usize + 1).saturating_sub(fw).max(1));
        let mut t = r.below((h as usize + 1).saturating_sub(fh).max(1));
        if r.chance(1, 4) {
            l = (w as usize).saturating_sub(fw);
            t = (h as usize).saturating_sub(fh);
        }
        if r.chance(1, o.odd * 2) {
            match r.below(6) {
                0 => fw = 0,
                1 => fh = 0,
                2 => l += 1 + r.below(3),
                3 => t += 1 + r.below(3),
                4 => l = r.u16e() as usize,
                _ => t = r.u16e() as usize,
            }
        }
        let mut flags = r.u8() & !0x40;
        if o.interlace && r.chance(1, 2) || r.chance(1, 8) {
            flags |= 0x40;
        }
        if gn.is_none() && !r.chance(1, o.odd * 2) {
            flags |= 128;
        }
        if r.chance(1, 2) {
            flags = (flags & 0xF8) | r.below(3) as u8;
        }
        v.extend(bytes(&MB::Idesc { l: l as u16, t: t as u16, w: fw as u16, h: fh as u16, flags }));
        let n = match table_len(flags) {
            Some(n) => {
                v.extend(r.bytes(3 * n));
                n
            }
            None => gn.unwrap_or(4),
        };
        let top = if r.chance(1, o.odd * 2) { n + 1 } else { n };
        let mut sz = fw * fh;
        if r.chance(1, o.odd * 3) {
            sz = if r.chance(1, 2) { sz + r.range(1, 9) } else { sz - r.range(0, 3).min(sz) };
        }
        let d = pixels_below(r, sz, top);
        image_data(r, &d, &mut v);
        if r.chance(1, 6) {
            v.extend(bytes(&ext(r)));
        }
    }
    if r.chance(1, o.odd * 8) {
        v.push(r.u8());
    }
    v.push(0x3B);
    if r.chance(1, 6) {
        let n = r.range(1, 30);
        v.extend(r.bytes(n));
    }
    v
}

/// Damage a file
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            return;
        }
        let i = if r.chance(1, 4) { r.below(v.len().min(14)) } else { r.below(v.len()) };
        match r.below(8) {
            0 => v.truncate(i),
            1 | 2 => v[i] = r.u8e(),
            3 => v[i] ^= 1 << r.below(8),
            4 => v.insert(i, r.u8e()),
            5 => {
                v.remove(i);
            }
            6 => {
                let n = r.range(1, 12).min(v.len() - i);
                v.drain(i..i + n);
            }
            _ => v[i] = v[i].wrapping_add(1),
        }
    }
}

/// Random bytes which look a bit like a GIF file
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    if r.chance(9, 10) {
        v.extend(b"GIF");
        v.extend(if r.chance(1, 2) { b"89a" } else { b"87a" });
    }
    let n = r.range(0, 300);
    for _ in 0..n {
        let b = if r.chance(1, 3) { r.pick(&[0u8, 0, 1, 2, 3, 4, 8, 0x2C, 0x21, 0x3B, 0xF9, 0xFE, 0xFF, 0x80]) } else { r.u8() };
        v.push(b);
    }
    v
}

/// Reader which delivers bytes in pieces, with interruptions and a failure
pub struct ChunkReader<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub r: Rng,
    pub style: usize,
    pub interrupts: bool,
    pub fail_at: Option<(usize, io::ErrorKind)>,
    pub streak: usize,
}

impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.streak < 5 && self.r.chance(1, 3) {
            self.streak += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        self.streak = 0;
        let mut end = self.d.len();
        if let Some((f, k)) = self.fail_at {
            if self.p >= f {
                return Err(io::Error::new(k, format!("broken at {f}")));
            }
            end = end.min(f);
        }
        let n = match self.style {
            0 => usize::MAX,
            1 => 1,
            2 => 2,
            _ => self.r.range(1, 20),
        }
        .min(buf.len())
        .min(end - self.p);
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Shared sink with limited writes and a failure position
pub struct Sink {
    pub out: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    pub r: Rng,
    pub style: usize,
    pub interrupts: bool,
    pub fail_at: Option<(usize, io::ErrorKind)>,
    /// works again after the failure
    pub once: bool,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let mut out = self.out.borrow_mut();
        let mut n = match self.style {
            0 => usize::MAX,
            1 => 1,
            _ => self.r.range(1, 20),
        }
        .min(buf.len());
        if let Some((f, k)) = self.fail_at {
            if out.len() >= f {
                if self.once {
                    self.fail_at = None;
                }
                return Err(io::Error::new(k, format!("full at {f}")));
            }
            n = n.min(f - out.len());
        }
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
