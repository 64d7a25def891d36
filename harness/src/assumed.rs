//! Contracts which the proofs assume of the `pix` crate and of the standard
//! library, tried on the real functions over finite domains.
use crate::R;
use pix::gray::Gray8;
use pix::el::Pixel;
use pix::rgb::{Rgb, SRgb8, SRgba8};
use pix::{Palette, Raster, Region};

macro_rules! ensure {
    ($n:expr, $c:expr, $($t:tt)*) => {
        *$n += 1;
        if !$c { return Err(format!($($t)*)); }
    };
}

/// the part of a region inside of an image (`pix::inside` of the contracts)
fn inside(w: i64, h: i64, x: i64, y: i64, rw: i64, rh: i64) -> (i64, i64, i64, i64) {
    let (x1, y1) = ((x + rw).min(w), (y + rh).min(h));
    let (x0, y0) = (x.max(0), y.max(0));
    if x0 < x1 && y0 < y1 { (x0, y0, x1 - x0, y1 - y0) } else { (0, 0, 0, 0) }
}

fn fields(r: Region) -> (i64, i64, i64, i64) {
    (r.left().into(), r.top().into(), r.width().into(), r.height().into())
}

fn rgba(p: SRgba8) -> [u8; 4] {
    [Rgb::red(p).into(), Rgb::green(p).into(), Rgb::blue(p).into(), p.alpha().into()]
}

fn px(r: &Raster<SRgba8>) -> Vec<[u8; 4]> {
    r.pixels().iter().map(|p| rgba(*p)).collect()
}

fn numbered(w: u32, h: u32) -> Raster<SRgba8> {
    let v: Vec<SRgba8> = (0..w * h).map(|i| SRgba8::new(i as u8, 100 + i as u8, 200, 255)).collect();
    Raster::with_pixels(w, h, v)
}

fn regions(n: &mut u64) -> R {
    for (w, h) in (0..5u32).flat_map(|w| (0..5u32).map(move |h| (w, h))) {
        let r = Raster::<SRgba8>::with_clear(w, h);
        ensure!(n, (r.width(), r.height()) == (w, h) && px(&r) == vec![[0; 4]; (w * h) as usize], "with_clear {w} {h}");
        let r = numbered(w, h);
        ensure!(n, px(&r.clone()) == px(&r), "clone {w} {h}");
        if w > 0 {
            let c = Raster::<SRgba8>::with_raster(&r);
            ensure!(n, (c.width(), c.height()) == (w, h) && px(&c) == px(&r), "with_raster {w} {h}");
        }
        let g = Raster::<Gray8>::with_pixels(w, h, (0..w * h).map(|i| Gray8::new(i as u8)).collect::<Vec<_>>());
        ensure!(n, g.as_u8_slice() == (0..w * h).map(|i| i as u8).collect::<Vec<_>>() && g.clone().as_u8_slice() == g.as_u8_slice(), "as_u8_slice {w} {h}");
        let far = [0, 1, 2, 3, 4, 5, 65535, i32::MAX as u32];
        for (x, y) in [-70000, -3, -1, 0, 1, 2, 3, 4, 5, 65535].into_iter().flat_map(|x| [-70000, -3, -1, 0, 1, 2, 3, 4, 5, 65535].map(move |y| (x, y))) {
            for (rw, rh) in far.into_iter().flat_map(|a| far.map(move |b| (a, b))) {
                let reg = Region::new(x, y, rw, rh);
                ensure!(n, fields(reg) == (x.into(), y.into(), rw.into(), rh.into()), "Region::new");
                let s = inside(w.into(), h.into(), x.into(), y.into(), rw.into(), rh.into());
                let i = r.intersection(reg);
                ensure!(n, fields(i) == s && (i == reg) == (fields(i) == fields(reg)), "intersection {w} {h} {reg:?}: {i:?}");
                let mut c = r.clone();
                c.copy_color(reg, SRgba8::new(9, 8, 7, 6));
                let mut want = px(&r);
                for (k, p) in want.iter_mut().enumerate() {
                    let (px, py) = (k as i64 % i64::from(w), k as i64 / i64::from(w));
                    if s.0 <= px && px < s.0 + s.2 && s.1 <= py && py < s.1 + s.3 {
                        *p = [9, 8, 7, 6];
                    }
                }
                ensure!(n, px(&c) == want, "copy_color {w} {h} {reg:?}");
                if w > 0 {
                    let mut c = r.clone();
                    let rows: Vec<Vec<[u8; 4]>> = c.rows_mut(reg).map(|row| row.iter().map(|p| rgba(*p)).collect()).collect();
                    let all = px(&r);
                    let want: Vec<Vec<[u8; 4]>> = (0..s.3)
                        .map(|j| {
                            let o = ((s.1 + j) * i64::from(w) + s.0) as usize;
                            all[o..o + s.2 as usize].to_vec()
                        })
                        .collect();
                    ensure!(n, rows == want, "rows_mut {w} {h} {reg:?}");
                    for (j, row) in c.rows_mut(reg).enumerate() {
                        for p in row.iter_mut() {
                            *p = SRgba8::new(j as u8, 1, 2, 3);
                        }
                    }
                    let mut want = px(&r);
                    for j in 0..s.3 {
                        let o = ((s.1 + j) * i64::from(w) + s.0) as usize;
                        want[o..o + s.2 as usize].fill([j as u8, 1, 2, 3]);
                    }
                    ensure!(n, px(&c) == want, "writing rows_mut {w} {h} {reg:?}");
                }
            }
        }
    }
    Ok(())
}

fn colors(n: &mut u64) -> R {
    ensure!(n, rgba(SRgba8::default()) == [0; 4], "default color");
    for (i, a) in (0..=255u8).flat_map(|i| (0..=255u8).map(move |a| (i, a))) {
        let c = SRgba8::new(i, a, !i, a);
        ensure!(n, rgba(c) == [i, a, !i, a], "color {i} {a}");
        let r = Raster::with_pixels(1, 1, vec![c]);
        ensure!(n, px(&Raster::<SRgba8>::with_raster(&r)) == [[i, a, !i, a]], "with_raster of color {i} {a}");
        let c = SRgb8::new(i, a, !i);
        ensure!(n, [u8::from(Rgb::red(c)), u8::from(Rgb::green(c)), u8::from(Rgb::blue(c))] == [i, a, !i], "channels {i} {a}");
    }
    for len in 0..300usize {
        let mut p = Palette::new(len);
        for i in 0..len {
            p.replace_entry(i, SRgb8::new(i as u8, (i >> 8) as u8, 7));
        }
        let want: Vec<_> = p.colors().to_vec();
        ensure!(n, p.len() == want.len() && p.clone().colors() == want, "palette {len}");
    }
    Ok(())
}

fn standard(n: &mut u64) -> R {
    let near: Vec<usize> = (0..63).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain(0..70000).collect();
    for &x in &near {
        let r = x.next_power_of_two();
        ensure!(n, r >= x && r.count_ones() == 1 && (r == 1 || r / 2 < x), "next_power_of_two {x}");
    }
    for len in 0..300u16 {
        let v: Vec<u8> = (0..len).map(|x| x as u8).collect();
        ensure!(n, Vec::from(&v[..]) == v && v[..].to_vec() == v, "vector of {len}");
        let mut r = v.clone();
        r.reverse();
        ensure!(n, (0..v.len()).all(|i| r[i] == v[v.len() - 1 - i]) && r.len() == v.len(), "reverse {len}");
    }
    for b in [1usize, 2, 3, 4, 7, 8, 255, 256, 65535] {
        for a in 0..3000usize {
            ensure!(n, a.div_ceil(b) == (a + b - 1) / b, "div_ceil {a} {b}");
        }
    }
    for v in 0..=u16::MAX {
        ensure!(n, i32::from(v) as i64 == i64::from(v) && usize::from(v) as u64 == u64::from(v), "conversion of {v}");
        // text of a delay in the listing of the command
        let t = format!("{:6.2}", v as f32 / 100f32);
        let want = format!("{:>6}", format!("{}.{:02}", v / 100, v % 100));
        ensure!(n, t == want, "seconds of {v}: {t}");
    }
    Ok(())
}

pub fn check(n: &mut u64) -> R {
    regions(n)?;
    colors(n)?;
    standard(n)
}
