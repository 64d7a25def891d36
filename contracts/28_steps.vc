@@ root
// ---- drawing of frames and iteration of steps, as functions of the frames alone
pub mod stepspec {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::pix::rgb::SRgba8;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
// ---- order of the rows of an interlaced frame
pub open spec fn pass(y: int) -> int { if y % 8 == 0 { 1 } else if y % 8 == 4 { 2 } else if y % 4 == 2 { 3 } else { 4 } }
/// row a is stored before row b
pub open spec fn stored_before(a: int, b: int) -> bool { pass(a) < pass(b) || (pass(a) == pass(b) && a < b) }
/// number of rows below n which are stored before row y
pub open spec fn rank(y: int, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { rank(y, (n - 1) as nat) + if stored_before(n - 1, y) { 1nat } else { 0 } }
}
pub open spec fn rank_closed(y: int, h: int) -> int {
    if pass(y) == 1 { y / 8 } else if pass(y) == 2 { (h + 7) / 8 + y / 8 } else if pass(y) == 3 { (h + 3) / 4 + y / 4 } else { (h + 1) / 2 + y / 2 }
}
/// rows below n of each pass, and of all passes before it
pub open spec fn rank_at(y: int, n: int) -> int {
    let m = if n < y { n } else { y };
    if pass(y) == 1 { (m + 7) / 8 } else if pass(y) == 2 { (n + 7) / 8 + (m + 3) / 8 } else if pass(y) == 3 { (n + 3) / 4 + (m + 1) / 4 } else { (n + 1) / 2 + m / 2 }
}
pub proof fn rank_steps(y: int, n: nat)
    requires 0 <= y,
    ensures rank(y, n) == rank_at(y, n as int),
    decreases n
{
    if n > 0 {
        rank_steps(y, (n - 1) as nat);
        let m = n - 1;
        rank_add(y, m);
    }
}
proof fn pass_of(m: int, a: int, b: int)
    requires m == 8 * a + b, 0 <= b < 8,
    ensures pass(m) == if b == 0 { 1int } else if b == 4 { 2 } else if b == 2 || b == 6 { 3 } else { 4 },
{
    assert(m % 8 == b);
    assert(m % 4 == b % 4);
}
proof fn divs(m: int, a: int, b: int)
    requires m == 8 * a + b, 0 <= b < 8,
    ensures
        (m + 8) / 8 == a + 1, (m + 7) / 8 == if b == 0 { a } else { a + 1 },
        (m + 3) / 8 == if b < 5 { a } else { a + 1 }, (m + 4) / 8 == if b < 4 { a } else { a + 1 },
        (m + 4) / 4 == if b < 4 { 2 * a + 1 } else { 2 * a + 2 }, (m + 3) / 4 == if b == 0 { 2 * a } else if b < 5 { 2 * a + 1 } else { 2 * a + 2 },
        (m + 1) / 4 == if b < 3 { 2 * a } else if b < 7 { 2 * a + 1 } else { 2 * a + 2 },
        (m + 2) / 4 == if b < 2 { 2 * a } else if b < 6 { 2 * a + 1 } else { 2 * a + 2 },
{
}
proof fn rank_add(y: int, m: int)
    requires 0 <= y, 0 <= m,
    ensures rank_at(y, m + 1) == rank_at(y, m) + if stored_before(m, y) { 1int } else { 0 },
{
    hide(pass);
    let (a, b) = (m / 8, m % 8);
    pass_of(m, a, b);
    divs(m, a, b);
    let p = pass(y);
    let k = pass(m);
    assert(pass(y) == 1 || pass(y) == 2 || pass(y) == 3 || pass(y) == 4) by { reveal(pass); }
    if p == 1 { rank_add1(y, m, a, b); } else if p == 2 { rank_add2(y, m, a, b); } else if p == 3 { rank_add3(y, m, a, b); } else { rank_add4(y, m, a, b); }
}
proof fn rank_add1(y: int, m: int, a: int, b: int)
    requires 0 <= y, 0 <= m, m == 8 * a + b, 0 <= b < 8, pass(y) == 1,
    ensures rank_at(y, m + 1) == rank_at(y, m) + if stored_before(m, y) { 1int } else { 0 },
{
    hide(pass);
    pass_of(m, a, b);
    divs(m, a, b);
    
}
proof fn rank_add2(y: int, m: int, a: int, b: int)
    requires 0 <= y, 0 <= m, m == 8 * a + b, 0 <= b < 8, pass(y) == 2,
    ensures rank_at(y, m + 1) == rank_at(y, m) + if stored_before(m, y) { 1int } else { 0 },
{
    hide(pass);
    pass_of(m, a, b);
    divs(m, a, b);
    
}
proof fn rank_add3(y: int, m: int, a: int, b: int)
    requires 0 <= y, 0 <= m, m == 8 * a + b, 0 <= b < 8, pass(y) == 3,
    ensures rank_at(y, m + 1) == rank_at(y, m) + if stored_before(m, y) { 1int } else { 0 },
{
    hide(pass);
    pass_of(m, a, b);
    divs(m, a, b);
    
}
proof fn rank_add4(y: int, m: int, a: int, b: int)
    requires 0 <= y, 0 <= m, m == 8 * a + b, 0 <= b < 8, pass(y) == 4,
    ensures rank_at(y, m + 1) == rank_at(y, m) + if stored_before(m, y) { 1int } else { 0 },
{
    hide(pass);
    pass_of(m, a, b);
    divs(m, a, b);
    assert(b == 0 || b == 1 || b == 2 || b == 3 || b == 4 || b == 5 || b == 6 || b == 7);
    assert(m / 2 == 4 * a + b / 2 && (m + 1) / 2 == 4 * a + (b + 1) / 2 && (m + 2) / 2 == 4 * a + (b + 2) / 2);
}
pub proof fn rank_is(y: int, h: nat)
    requires 0 <= y < h,
    ensures rank(y, h) == rank_closed(y, h as int), rank(y, h) < h,
{
    rank_steps(y, h);
}
/// no stored row is used twice
pub proof fn rank_injective(a: int, b: int, h: nat)
    requires 0 <= a < h, 0 <= b < h, rank(a, h) == rank(b, h),
    ensures a == b,
{
    rank_is(a, h); rank_is(b, h);
}
/// every stored row is used
pub proof fn rank_onto(r: int, h: nat)
    requires 0 <= r < h,
    ensures exists|y: int| 0 <= y < h && #[trigger] rank(y, h) == r,
{
    let y = if r < (h + 7) / 8 { 8 * r } else if r < (h + 3) / 4 { 8 * (r - (h + 7) / 8) + 4 } else if r < (h + 1) / 2 { 4 * (r - (h + 3) / 4) + 2 } else { 2 * (r - (h + 1) / 2) + 1 };
    assert(0 <= y < h);
    rank_is(y, h);
    assert(rank(y, h) == r);
}

// ---- drawing
pub ghost struct Canvas { pub w: nat, pub h: nat, pub px: Seq<SRgba8> }
pub open spec fn transparent() -> SRgba8 { SRgba8 { r: 0, g: 0, b: 0, a: 0 } }
pub open spec fn blank(w: nat, h: nat) -> Canvas { Canvas { w, h, px: Seq::new(w * h, |i: int| transparent()) } }
pub open spec fn area(d: ImageDesc) -> nat { d.width as nat * d.height as nat }
pub open spec fn trans_of(f: FrameV) -> Option<u8> { match f.gce { Some(g) => gce_trans(g), None => None } }
pub open spec fn disposal_of(f: FrameV) -> DisposalMethod { match f.gce { Some(g) => gce_disp(g.flags), None => DisposalMethod::NoAction } }
pub open spec fn delay_of(f: FrameV) -> u16 { match f.gce { Some(g) => g.delay_time_cs, None => 0 } }
/// stored row of a displayed row
pub open spec fn stored_row(d: ImageDesc, y: int) -> int { if d.flags & 0x40 != 0 { rank(y, d.height as nat) as int } else { y } }
pub open spec fn index_at(f: FrameV, x: int, y: int) -> u8 { f.data[stored_row(f.desc, y) * f.desc.width + x] }
pub open spec fn in_table(c: Seq<u8>, k: u8) -> bool { 3 * k + 3 <= c.len() }
pub open spec fn color(c: Seq<u8>, k: u8) -> SRgba8 { SRgba8 { r: c[3 * k], g: c[3 * k + 1], b: c[3 * k + 2], a: 255 } }
/// pixel of the frame over a pixel of the canvas
pub open spec fn over(f: FrameV, c: Seq<u8>, x: int, y: int, below: SRgba8) -> SRgba8 {
    let k = index_at(f, x, y);
    if trans_of(f) == Some(k) { below } else { color(c, k) }
}
pub open spec fn covers(d: ImageDesc, x: int, y: int) -> bool { d.left <= x < d.left + d.width && d.top <= y < d.top + d.height }
/// rows of the frame up to n were drawn
pub open spec fn drawn_to(cv: Canvas, f: FrameV, c: Seq<u8>, n: int) -> Seq<SRgba8> {
    Seq::new(cv.px.len(), |i: int| {
        let x = i % (cv.w as int);
        let y = i / (cv.w as int);
        if covers(f.desc, x, y) && y < f.desc.top + n { over(f, c, x - f.desc.left, y - f.desc.top, cv.px[i]) } else { cv.px[i] }
    })
}
pub open spec fn erased(cv: Canvas, d: ImageDesc) -> Seq<SRgba8> {
    Seq::new(cv.px.len(), |i: int| if covers(d, i % (cv.w as int), i / (cv.w as int)) { transparent() } else { cv.px[i] })
}
pub open spec fn fits(cv: Canvas, d: ImageDesc) -> bool { d.width > 0 && d.height > 0 && d.left + d.width <= cv.w && d.top + d.height <= cv.h }
pub open spec fn row_ok(f: FrameV, c: Seq<u8>, y: int) -> bool { forall|x: int| 0 <= x < f.desc.width ==> in_table(c, #[trigger] index_at(f, x, y)) }
pub open spec fn rows_ok(f: FrameV, c: Seq<u8>, n: int) -> bool { forall|y: int| 0 <= y < n ==> #[trigger] row_ok(f, c, y) }
pub open spec fn draw_with(cv: Canvas, f: FrameV, c: Seq<u8>) -> Result<Canvas, EV> {
    if rows_ok(f, c, f.desc.height as int) { Ok(Canvas { px: drawn_to(cv, f, c, f.desc.height as int), ..cv }) } else { Err(EV::ColorIndex) }
}
pub open spec fn draw(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>) -> Result<Canvas, EV> {
    if !fits(cv, f.desc) { Err(EV::FrameDim) }
    else {
        match f.lct {
            Some(c) => draw_with(cv, f, c),
            None => match gct { Some(c) => draw_with(cv, f, c), None => Err(EV::MissingTable) },
        }
    }
}
pub ghost struct StepV { pub w: nat, pub h: nat, pub px: Seq<SRgba8>, pub trans: Option<u8>, pub delay: u16 }
pub open spec fn after_frame(cv: Canvas, drawn: Canvas, f: FrameV) -> Canvas {
    match disposal_of(f) {
        DisposalMethod::Previous => cv,
        DisposalMethod::Background => Canvas { px: erased(drawn, f.desc), ..drawn },
        _ => drawn,
    }
}
/// The step of a frame and the canvas of the next one
pub open spec fn apply(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>) -> Result<(StepV, Canvas), EV> {
    match draw(cv, f, gct) {
        Err(e) => Err(e),
        Ok(c) => Ok((StepV { w: c.w, h: c.h, px: c.px, trans: trans_of(f), delay: delay_of(f) }, after_frame(cv, c, f))),
    }
}
pub proof fn pos_of(w: int, y: int, x: int)
    requires 0 <= x < w,
    ensures (y * w + x) / w == y, (y * w + x) % w == x,
{
    lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
}
pub proof fn row_bounds(w: int, h: int, y: int, l: int, n: int)
    requires 0 <= y < h, 0 <= l, 0 <= n, l + n <= w,
    ensures 0 <= y * w + l, y * w + l + n <= w * h,
{
    assert(0 <= y * w && (y + 1) * w <= w * h && (y + 1) * w == y * w + w) by (nonlinear_arith) requires 0 <= y < h, 0 <= w;
}
pub proof fn area_zero(w: nat, h: nat)
    ensures w * h == 0 <==> w == 0 || h == 0,
{
    assert(w * h == 0 <==> w == 0 || h == 0) by (nonlinear_arith);
}
/// part of a row is replaced
pub proof fn row_put<P>(px: Seq<P>, w: int, h: int, y: int, l: int, row: Seq<P>)
    requires px.len() == w * h, 0 <= y < h, 0 <= l, l + row.len() <= w, 0 < w,
    ensures ({
        let o = y * w + l;
        let q = px.take(o) + row + px.skip(o + row.len());
        &&& 0 <= o && o + row.len() <= px.len()
        &&& q.len() == px.len()
        &&& forall|i: int| 0 <= i < px.len() ==> #[trigger] q[i] == if i / w == y && l <= i % w < l + row.len() { row[i % w - l] } else { px[i] }
    }),
{
    let o = y * w + l;
    let q = px.take(o) + row + px.skip(o + row.len());
    assert(0 <= y * w && (y + 1) * w <= h * w) by (nonlinear_arith) requires 0 <= y < h, 0 < w;
    assert((y + 1) * w == y * w + w) by (nonlinear_arith);
    assert(w * h == h * w) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < px.len() implies #[trigger] q[i] == if i / w == y && l <= i % w < l + row.len() { row[i % w - l] } else { px[i] } by {
        if o <= i < o + row.len() { pos_of(w, y, i - y * w); assert(y * w + (i - y * w) == i); }
        else if i / w == y { lemma_fundamental_div_mod(i, w); assert(w * (i / w) == y * w) by (nonlinear_arith) requires i / w == y; }
    }
}
pub proof fn row_in(w: int, h: int, r: int)
    requires 0 <= r < h, 0 <= w <= 0xffff, h <= 0xffff,
    ensures 0 <= r * w <= (r + 1) * w <= w * h <= 0xffff * 0xffff, (r + 1) * w == r * w + w,
{
    assert(0 <= r * w && (r + 1) * w <= h * w && (r + 1) * w == r * w + w && h * w <= 0xffff * 0xffff) by (nonlinear_arith) requires 0 <= r < h, 0 <= w <= 0xffff, h <= 0xffff;
    assert(w * h == h * w) by (nonlinear_arith);
}

// ---- what a frame of a decoded file is like
pub open spec fn table_ok(o: Option<Seq<u8>>) -> bool { o matches Some(c) ==> c.len() % 3 == 0 }
pub open spec fn fs_ok(fs: FS) -> bool {
    &&& ps_wf(fs.ps)
    &&& fs.desc matches Some(d) ==> fs.ps.sz == area(d)
    &&& table_ok(fs.lct)
    &&& fs.pre matches Some(p) ==> table_ok(p.gct)
}
pub open spec fn frame_ok(f: FrameV) -> bool { f.data.len() == area(f.desc) && table_ok(f.lct) }
pub proof fn parse_kind(ps: PS, d: Seq<u8>)
    requires ps_wf(ps),
    ensures
        parse(ps, d) matches Ok(p) ==> match p.b {
            BV::Desc(x) => p.ps.sz == area(x),
            BV::Data(x) => p.ps.sz == ps.sz && x.len() == ps.sz,
            BV::Gct(c) => p.ps.sz == ps.sz && c.len() % 3 == 0,
            BV::Lct(c) => p.ps.sz == ps.sz && c.len() % 3 == 0,
            _ => p.ps.sz == ps.sz,
        },
{
    if let Ok(h) = head(ps, d) { if has_subs(h.b) { subs_kind(h.b, h.lz, h.rest); } }
}
pub open spec fn same_kind(a: BV, b: BV) -> bool {
    &&& a is Desc == b is Desc && a is Data == b is Data && a is Gct == b is Gct && a is Lct == b is Lct
    &&& has_subs(a) == has_subs(b)
}
pub proof fn subs_kind(b: BV, lz: Lz, d: Seq<u8>)
    requires has_subs(b),
    ensures subs_run(b, lz, d) matches Ok(s) ==> same_kind(b, s.b),
    decreases d.len()
{
    match sub_step(b, lz, d) {
        Sub::More { b: b1, lz, rest } => { subs_kind(b1, lz, rest); }
        _ => {}
    }
}
pub proof fn block_ok(fs: FS, d: Seq<u8>)
    requires fs_ok(fs),
    ensures
        next_block(fs, d) matches Some(Ok((fs1, b, rest))) ==> rest.len() < d.len() && (handle(fs1, b) matches Ok((fs2, f)) ==> fs_ok(fs2) && (f matches Some(f) ==> frame_ok(f)) && fs2.ps.max == fs.ps.max),
{
    parse_wf(fs.ps, d);
    parse_kind(fs.ps, d);
}
pub proof fn frame_next_ok(fs: FS, d: Seq<u8>)
    requires fs_ok(fs),
    ensures
        frame_next(fs, d).item matches Some(Ok(f)) ==> frame_ok(f) && fs_ok(frame_next(fs, d).fs) && frame_next(fs, d).rest.len() < d.len() && frame_next(fs, d).fs.ps.max == fs.ps.max,
    decreases d.len()
{
    block_ok(fs, d);
    match next_block(fs, d) {
        Some(Ok((fs1, b, rest))) => match handle(fs1, b) {
            Ok((fs2, None)) => { frame_next_ok(fs2, rest); }
            _ => {}
        },
        _ => {}
    }
}
pub proof fn pre_run_ok(fs: FS, d: Seq<u8>)
    requires fs_ok(fs), fs.pre is Some,
    ensures
        pre_run(fs, d).r matches Ok(p) ==> table_ok(p.gct) && fs_ok(pre_run(fs, d).fs) && pre_run(fs, d).rest.len() < d.len() && pre_run(fs, d).fs.ps.max == fs.ps.max,
    decreases d.len()
{
    block_ok(fs, d);
    match next_block(fs, d) {
        Some(Ok((fs1, b, rest))) => match handle(fs1, b) {
            Ok((fs2, _)) => { if !in_frame(fs2) { pre_run_ok(fs2, rest); } }
            _ => {}
        },
        _ => {}
    }
}

// ---- steps
pub ghost struct SS { pub fs: FS, pub gct: Option<Seq<u8>>, pub looping: Option<Seq<Seq<u8>>>, pub canvas: Option<Canvas>, pub done: bool }
pub open spec fn ss_ok(ss: SS) -> bool {
    !ss.done ==> fs_ok(ss.fs) && table_ok(ss.gct) && (ss.canvas matches Some(c) ==> c.px.len() == c.w * c.h)
}
pub open spec fn screen_ok(max: Option<nat>, w: nat, h: nat) -> bool { w * h <= 0x7fff_ffff && (max matches Some(m) ==> w * h <= m) }
pub ghost struct Opened { pub r: Result<SS, EV>, pub rest: Seq<u8> }
/// The canvas is made when the preamble was read
pub open spec fn open(ss: SS, d: Seq<u8>) -> Opened {
    if ss.canvas is Some || in_frame(ss.fs) { Opened { r: Ok(ss), rest: d } }
    else {
        let n = pre_run(FS { pre: Some(preamble_default()), ..ss.fs }, d);
        match n.r {
            Err(e) => Opened { r: Err(e), rest: n.rest },
            Ok(p) => Opened {
                r: if screen_ok(ss.fs.ps.max, p.lsd.screen_width as nat, p.lsd.screen_height as nat) {
                    Ok(SS { fs: n.fs, gct: p.gct, looping: p.looping, canvas: Some(blank(p.lsd.screen_width as nat, p.lsd.screen_height as nat)), done: ss.done })
                } else { Err(EV::TooLarge) },
                rest: n.rest,
            },
        }
    }
}
pub ghost struct StepRes { pub item: Option<Result<StepV, EV>>, pub ss: SS, pub rest: Seq<u8> }
pub open spec fn ended(item: Option<Result<StepV, EV>>, ss: SS, rest: Seq<u8>) -> StepRes { StepRes { item, ss: SS { done: true, ..ss }, rest } }
pub open spec fn step_of(ss: SS, d: Seq<u8>) -> StepRes {
    match ss.canvas {
        None => ended(None, ss, d),
        Some(cv) => {
            let n = frame_next(ss.fs, d);
            match n.item {
                None => ended(None, ss, n.rest),
                Some(Err(e)) => ended(Some(Err(e)), ss, n.rest),
                Some(Ok(f)) => match apply(cv, f, ss.gct) {
                    Err(e) => ended(Some(Err(e)), ss, n.rest),
                    Ok((s, c)) => StepRes { item: Some(Ok(s)), ss: SS { fs: n.fs, canvas: Some(c), ..ss }, rest: n.rest },
                },
            }
        }
    }
}
pub open spec fn step_next(ss: SS, d: Seq<u8>) -> StepRes {
    if ss.done { StepRes { item: None, ss, rest: d } }
    else {
        let o = open(ss, d);
        match o.r {
            Err(e) => ended(Some(Err(e)), ss, o.rest),
            Ok(s) => step_of(s, o.rest),
        }
    }
}
pub proof fn open_ok(ss: SS, d: Seq<u8>)
    requires ss_ok(ss), !ss.done,
    ensures open(ss, d).r matches Ok(s) ==> ss_ok(s) && !s.done && open(ss, d).rest.len() <= d.len(),
{
    if !(ss.canvas is Some || in_frame(ss.fs)) { pre_run_ok(FS { pre: Some(preamble_default()), ..ss.fs }, d); }
}
pub proof fn step_next_ok(ss: SS, d: Seq<u8>)
    requires ss_ok(ss),
    ensures
        ss_ok(step_next(ss, d).ss),
        step_next(ss, d).item matches Some(Ok(_)) ==> step_next(ss, d).rest.len() < d.len() && !step_next(ss, d).ss.done && step_next(ss, d).ss.canvas is Some,
        !(step_next(ss, d).item matches Some(Ok(_))) ==> step_next(ss, d).ss.done,
{
    if !ss.done {
        open_ok(ss, d);
        if let Ok(s) = open(ss, d).r { frame_next_ok(s.fs, open(ss, d).rest); }
    }
}
/// All steps of a file, and the error which ends them
pub ghost struct All { pub steps: Seq<StepV>, pub err: Option<EV> }
pub open spec fn steps_run(ss: SS, d: Seq<u8>) -> All
    decreases d.len()
{
    let n = step_next(ss, d);
    match n.item {
        None => All { steps: Seq::empty(), err: None },
        Some(Err(e)) => All { steps: Seq::empty(), err: Some(e) },
        Some(Ok(s)) => if n.rest.len() < d.len() { let a = steps_run(n.ss, n.rest); All { steps: seq![s] + a.steps, err: a.err } } else { arbitrary() },
    }
}
pub proof fn run_done()
    ensures forall|ss: SS, d: Seq<u8>| ss.done ==> #[trigger] steps_run(ss, d) == (All { steps: Seq::empty(), err: None }),
{
}
// ---- looping
pub ghost struct LS { pub steps: Seq<StepV>, pub err: Option<EV>, pub count: Option<u16>, pub n: nat }
pub open spec fn ls_next(l: LS) -> (Option<Result<StepV, EV>>, LS) {
    if l.n < l.steps.len() { (Some(Ok(l.steps[l.n as int])), LS { n: l.n + 1, ..l }) }
    else {
        match l.err {
            Some(e) => (Some(Err(e)), LS { err: None, count: None, ..l }),
            None => match l.count {
                None => (None, l),
                Some(c) => {
                    let left = if c == 0 { Some(0u16) } else if c == 1 { None } else { Some((c - 1) as u16) };
                    if l.steps.len() > 0 { (Some(Ok(l.steps[0])), LS { count: left, n: 1, ..l }) } else { (None, LS { count: left, ..l }) }
                }
            },
        }
    }
}
/// state after i calls
pub open spec fn ls_iter(l: LS, i: nat) -> LS
    decreases i
{
    if i == 0 { l } else { ls_next(ls_iter(l, (i - 1) as nat)).1 }
}
/// Item number i when iterating with looping: the steps, then the error; without
/// an error the steps once, count + 1 times or endlessly.
pub open spec fn looped(steps: Seq<StepV>, err: Option<EV>, count: Option<u16>, i: nat) -> Option<Result<StepV, EV>> {
    let n = steps.len();
    match err {
        Some(e) => if i < n { Some(Ok(steps[i as int])) } else if i == n { Some(Err(e)) } else { None },
        None => match count {
            None => if i < n { Some(Ok(steps[i as int])) } else { None },
            Some(c) => if n > 0 && (c == 0 || i < n * (c + 1)) { Some(Ok(steps[i as int % n as int])) } else { None },
        },
    }
}
/// state which follows q whole passes and r steps of the next
pub open spec fn ls_at(l: LS, m: LS, q: int, r: int) -> bool {
    let n = l.steps.len() as int;
    let c = l.count->Some_0;
    &&& m.steps == l.steps && m.err is None && m.n == r && 1 <= r <= n
    &&& 0 <= q && (c > 0 ==> q <= c)
    &&& m.count == if c == 0 { Some(0u16) } else if q == c { None } else { Some((c - q) as u16) }
}
proof fn loop_pos(n: int, q: int, r: int, c: int, i: int)
    requires n > 0, 0 <= q, 1 <= r <= n, i == q * n + r, 0 < c, q <= c,
    ensures
        i % n == if r < n { r } else { 0 },
        i < n * (c + 1) <==> r < n || q < c,
{
    if r < n { pos_of(n, q, r); } else { pos_of(n, q + 1, 0); assert((q + 1) * n == q * n + n) by (nonlinear_arith); }
    if r < n || q < c {
        if q < c { assert(q * n + r < n * (c + 1)) by (nonlinear_arith) requires q + 1 <= c, r <= n, n > 0; }
        else { assert(q * n + r < n * (c + 1)) by (nonlinear_arith) requires q == c, r < n; }
    } else { assert(q * n + r >= n * (c + 1)) by (nonlinear_arith) requires q == c, r == n; }
}
proof fn loop_mod(n: int, q: int, r: int, i: int)
    requires n > 0, 1 <= r <= n, i == q * n + r,
    ensures i % n == if r < n { r } else { 0 },
{
    if r < n { pos_of(n, q, r); } else { pos_of(n, q + 1, 0); assert((q + 1) * n == q * n + n) by (nonlinear_arith); }
}
/// what is known after i calls
pub open spec fn ls_inv(l: LS, m: LS, i: nat) -> bool {
    let n = l.steps.len();
    &&& m.steps == l.steps
    &&& match l.err {
        Some(e) => if i <= n { m == LS { n: i, ..l } } else { m.err is None && m.count is None && m.n == n },
        None => match l.count {
            None => m == LS { n: if i <= n { i } else { n }, ..l },
            Some(c) => if n == 0 { m.n == 0 && m.err is None }
                else if i == 0 { m == l }
                else if c == 0 || i <= n * (c + 1) { exists|q: int, r: int| #[trigger] ls_at(l, m, q, r) && i == q * n + r }
                else { m.n == n && m.count is None && m.err is None },
        },
    }
}
proof fn ls_step(l: LS, m: LS, i: nat)
    requires l.n == 0, ls_inv(l, m, i),
    ensures ls_next(m).0 == looped(l.steps, l.err, l.count, i), ls_inv(l, ls_next(m).1, i + 1),
{
    let n = l.steps.len() as int;
    if l.err is None && l.count is Some && n > 0 {
        let c = l.count->Some_0 as int;
        let k = ls_next(m).1;
        if i == 0 {
            assert(n * (c + 1) >= n) by (nonlinear_arith) requires n > 0, c >= 0;
            assert(0int % n == 0) by { pos_of(n, 0, 0); }
            assert(ls_at(l, k, 0, 1));
            assert(i + 1 == 0 * n + 1);
        } else if c == 0 || i <= n * (c + 1) {
            let (q, r) = choose|q: int, r: int| #[trigger] ls_at(l, m, q, r) && i == q * n + r;
            loop_mod(n, q, r, i as int);
            if c > 0 { loop_pos(n, q, r, c, i as int); }
            if r < n { assert(ls_at(l, k, q, r + 1)); assert(i + 1 == q * n + (r + 1)); }
            else if c == 0 || q < c { assert(ls_at(l, k, q + 1, 1)); assert(i + 1 == (q + 1) * n + 1) by (nonlinear_arith) requires i == q * n + r, r == n; }
        }
    }
}
/// The items of a looping iterator
pub proof fn looping_items(l: LS, i: nat)
    requires l.n == 0,
    ensures ls_next(ls_iter(l, i)).0 == looped(l.steps, l.err, l.count, i), ls_inv(l, ls_iter(l, i), i),
    decreases i
{
    if i > 0 {
        looping_items(l, (i - 1) as nat);
        ls_step(l, ls_iter(l, (i - 1) as nat), (i - 1) as nat);
    }
    ls_step(l, ls_iter(l, i), i);
}
}
}
