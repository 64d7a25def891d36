@@ root
// ---- bytes of a GIF file, as the GIF89a document lays them out
pub mod gifspec {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::iospec::*;
verus! {
/// Data sub-blocks, without the empty one which ends them
pub open spec fn subs(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { subs(s.drop_last()) + seq![s.last().len() as u8] + s.last() }
}
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
/// sub-blocks have 1 to 255 bytes
pub open spec fn subs_ok(s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).len() <= 255 }
pub open spec fn ext(id: u8, s: Seq<Seq<u8>>) -> Seq<u8> { seq![0x21u8, id] + subs(s) + seq![0u8] }
/// minimum code size, compressed data cut into sub-blocks, empty sub-block
pub open spec fn data_rel_with(d: Seq<u8>, out: Seq<u8>, min: u8, parts: Seq<Seq<u8>>) -> bool {
    &&& 2 <= min <= 8
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) < p2(min as nat)
    &&& subs_ok(parts)
    &&& crate::lzw::lz_encodes(min as nat, flat(parts), d)
    &&& out == seq![min] + subs(parts) + seq![0u8]
}
pub open spec fn data_rel(d: Seq<u8>, out: Seq<u8>) -> bool { exists|min: u8, parts: Seq<Seq<u8>>| data_rel_with(d, out, min, parts) }
pub open spec fn tail(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if s.len() == 0 { s } else { s.skip(1) } }
/// `out` are the bytes of block `b`
pub open spec fn enc_rel(b: BV, out: Seq<u8>) -> bool {
    match b {
        BV::Header(v) => out == seq![0x47u8, 0x49, 0x46] + v,
        BV::Lsd(d) => out == le16(d.screen_width) + le16(d.screen_height) + seq![d.flags, d.background_color_idx, d.pixel_aspect_ratio],
        BV::Gct(c) => out == c,
        BV::PlainText(s) => out == ext(0x01, s),
        BV::Gce(g) => out == seq![0x21u8, 0xF9, 4, g.flags] + le16(g.delay_time_cs) + seq![g.transparent_color_idx, 0],
        BV::Comment(s) => out == ext(0xFE, s),
        BV::App(s) => out == ext(0xFF, s),
        BV::Unknown(s) => out == seq![0x21u8] + (if s.len() == 0 { Seq::empty() } else { s[0] }) + subs(tail(s)) + seq![0u8],
        BV::Desc(d) => out == seq![0x2Cu8] + le16(d.left) + le16(d.top) + le16(d.width) + le16(d.height) + seq![d.flags],
        BV::Lct(c) => out == c,
        BV::Data(d) => data_rel(d, out),
        BV::Trailer => out == seq![0x3Bu8],
    }
}
/// what the adding functions of the blocks ensure
pub open spec fn bv_ok(b: BV) -> bool {
    match b {
        BV::PlainText(s) => subs_ok(s),
        BV::Comment(s) => subs_ok(s),
        BV::App(s) => subs_ok(s),
        BV::Unknown(s) => subs_ok(s),
        _ => true,
    }
}
pub proof fn subs_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures subs(s.push(x)) == subs(s) + seq![x.len() as u8] + x, flat(s.push(x)) == flat(s) + x,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn subs_take(s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures subs(s.take(i + 1)) == subs(s.take(i)) + seq![s[i].len() as u8] + s[i],
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); subs_push(s.take(i), s[i]); }

pub proof fn subs_cat(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures subs(a + b) == subs(a) + subs(b), flat(a + b) == flat(a) + flat(b),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(subs(a) + subs(b) =~= subs(a));
        assert(flat(a) + flat(b) =~= flat(a));
    } else {
        subs_cat(a, b.drop_last());
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        subs_push(a + b.drop_last(), b.last());
        subs_push(b.drop_last(), b.last());
        assert(subs(a) + subs(b) =~= subs(a) + subs(b.drop_last()) + seq![b.last().len() as u8] + b.last());
        assert(flat(a) + flat(b) =~= flat(a) + flat(b.drop_last()) + b.last());
    }
}
pub proof fn subs_split(s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures subs(s) == subs(s.take(i)) + seq![s[i].len() as u8] + s[i] + subs(s.skip(i + 1)),
{
    subs_take(s, i);
    assert(s =~= s.take(i + 1) + s.skip(i + 1));
    subs_cat(s.take(i + 1), s.skip(i + 1));
}
/// data cut into pieces of 255 bytes
pub open spec fn cut(z: Seq<u8>) -> Seq<Seq<u8>>
    decreases z.len()
{
    if z.len() == 0 { Seq::empty() } else if z.len() <= 255 { seq![z] } else { seq![z.take(255)] + cut(z.skip(255)) }
}
pub proof fn cut_ok(z: Seq<u8>)
    ensures subs_ok(cut(z)), flat(cut(z)) == z,
    decreases z.len()
{
    if z.len() == 0 {
    } else if z.len() <= 255 {
        subs_push(Seq::empty(), z);
        assert(Seq::<Seq<u8>>::empty().push(z) =~= seq![z]);
        assert(flat(Seq::<Seq<u8>>::empty()) + z =~= z);
    } else {
        cut_ok(z.skip(255));
        let a = z.take(255);
        subs_push(Seq::empty(), a);
        assert(Seq::<Seq<u8>>::empty().push(a) =~= seq![a]);
        assert(flat(Seq::<Seq<u8>>::empty()) + a =~= a);
        subs_cat(seq![a], cut(z.skip(255)));
        assert(a + z.skip(255) =~= z);
    }
}
pub proof fn cut_step(c: Seq<u8>, rest: Seq<u8>)
    requires 0 < c.len() <= 255, c.len() < 255 ==> rest.len() == 0,
    ensures cut(c + rest) == seq![c] + cut(rest),
{
    let z = c + rest;
    if rest.len() == 0 {
        assert(z =~= c);
        assert(seq![c] + cut(rest) =~= seq![c]);
    } else {
        assert(z.take(255) =~= c);
        assert(z.skip(255) =~= rest);
    }
}

// ---- writing in pieces
/// marks the bytes a function is to write
pub open spec fn goal(s0: WState, full: Seq<u8>) -> bool { true }
/// `s1` is reached from `s0` by writing `done`
pub open spec fn put(s0: WState, s1: WState, done: Seq<u8>) -> bool { s1.out == s0.out + done && s1.errs == s0.errs }
/// the next write `b` is the one which the bytes `full` ask for
pub open spec fn next_is(done: Seq<u8>, b: Seq<u8>, full: Seq<u8>) -> bool {
    done.len() + b.len() <= full.len() && b =~= full.subrange(done.len() as int, (done.len() + b.len()) as int)
}
pub broadcast proof fn wr_goal<A>(s0: WState, s1: WState, s2: WState, done: Seq<u8>, b: Seq<u8>, r: std::io::Result<A>, full: Seq<u8>)
    requires
        #[trigger] io_post(s1, s2, b, r), #[trigger] goal(s0, full), #[trigger] put(s0, s1, done),
        done =~= full.take(done.len() as int), next_is(done, b, full),
    ensures
        r.is_err() ==> io_post(s0, s2, full, r),
        r.is_ok() ==> put(s0, s2, full.take((done.len() + b.len()) as int)) && (done.len() + b.len() == full.len() ==> io_post(s0, s2, full, r)),
{
    let n = (done.len() + b.len()) as int;
    assert(full.take(n) =~= done + b);
    assert(s0.out + (done + b) =~= s0.out + done + b);
    if r.is_err() {
        let x = full.skip(n);
        assert(full =~= done + b + x);
        assert(s0.out + full =~= s1.out + b + x);
        assert((s0.out + full).take((s1.out + b).len() as int) =~= s1.out + b);
        assert((s0.out + full).take(s2.out.len() as int) =~= s2.out);
        assert(s2.out.take(s0.out.len() as int) =~= s0.out);
    } else {
        if n == full.len() { assert(full.take(n) =~= full); }
    }
}
pub proof fn put_start(s0: WState, full: Seq<u8>)
    ensures put(s0, s0, Seq::empty()), put(s0, s0, full.take(0)), goal(s0, full),
{
    assert(s0.out + Seq::<u8>::empty() =~= s0.out);
    assert(full.take(0) =~= Seq::<u8>::empty());
}
pub open spec fn format_post(b: BV, s0: WState, s1: WState, r: std::io::Result<()>) -> bool {
    exists|full: Seq<u8>| #[trigger] enc_rel(b, full) && io_post(s0, s1, full, r)
}
/// the same for the error type of the crate
pub open spec fn enc_post(full: Seq<u8>, s0: WState, s1: WState, r: crate::error::Result<()>) -> bool {
    &&& wrote(s0, s1, full, r.is_ok())
    &&& r matches Err(e) ==> e == crate::error::Error::Io(s1.errs.last())
}
pub open spec fn block_post(b: BV, s0: WState, s1: WState, r: crate::error::Result<()>) -> bool {
    exists|full: Seq<u8>| #[trigger] enc_rel(b, full) && enc_post(full, s0, s1, r)
}

// ---- sequences of blocks
pub open spec fn enc_seq(bs: Seq<BV>, out: Seq<u8>) -> bool
    decreases bs.len()
{
    if bs.len() == 0 { out.len() == 0 } else { exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat_is(a, b, out) && enc_seq(bs.drop_last(), a) && enc_rel(bs.last(), b) }
}
pub open spec fn cat_is(a: Seq<u8>, b: Seq<u8>, out: Seq<u8>) -> bool { out == a + b }
pub open spec fn all_ok(bs: Seq<BV>) -> bool { forall|i: int| 0 <= i < bs.len() ==> bv_ok(#[trigger] bs[i]) }
pub open spec fn seq_post(bs: Seq<BV>, s0: WState, s1: WState) -> bool {
    exists|out: Seq<u8>| #[trigger] enc_seq(bs, out) && s1.out == s0.out + out && s1.errs == s0.errs
}
pub open spec fn all_post(bs: Seq<BV>, s0: WState, s1: WState, r: crate::error::Result<()>) -> bool {
    exists|full: Seq<u8>| #[trigger] enc_seq(bs, full) && enc_post(full, s0, s1, r)
}
pub open spec fn goal_seq(bs: Seq<BV>) -> bool { true }
pub open spec fn ok_res() -> crate::error::Result<()> { Ok(()) }
pub proof fn seq_start(s0: WState)
    ensures seq_post(Seq::empty(), s0, s0),
{
    assert(enc_seq(Seq::empty(), Seq::empty()));
    assert(s0.out + Seq::<u8>::empty() =~= s0.out);
}
pub proof fn enc_push(bs: Seq<BV>, b: BV, x: Seq<u8>, y: Seq<u8>)
    requires enc_seq(bs, x), enc_rel(b, y),
    ensures enc_seq(bs.push(b), x + y),
{ assert(bs.push(b).drop_last() =~= bs); assert(bs.push(b).last() == b); assert(cat_is(x, y, x + y)); }
pub broadcast proof fn seq_step(bs: Seq<BV>, b: BV, s0: WState, s1: WState, s2: WState, r: crate::error::Result<()>)
    requires #[trigger] seq_post(bs, s0, s1), #[trigger] block_post(b, s1, s2, r), r.is_ok(),
    ensures seq_post(bs.push(b), s0, s2),
{
    let x = choose|out: Seq<u8>| #[trigger] enc_seq(bs, out) && s1.out == s0.out + out && s1.errs == s0.errs;
    let y = choose|full: Seq<u8>| #[trigger] enc_rel(b, full) && enc_post(full, s1, s2, r);
    enc_push(bs, b, x, y);
    assert(s0.out + (x + y) =~= s0.out + x + y);
}
/// every sequence of blocks has an encoding which begins with a given one
pub proof fn seq_extend(bs: Seq<BV>, all: Seq<BV>, x: Seq<u8>)
    requires enc_seq(bs, x), bs.len() <= all.len(), bs == all.take(bs.len() as int),
    ensures exists|full: Seq<u8>| #[trigger] enc_seq(all, full) && x.is_prefix_of(full),
    decreases all.len() - bs.len()
{
    if bs.len() == all.len() {
        assert(all.take(bs.len() as int) =~= all);
        assert(enc_seq(all, x));
        assert(x.is_prefix_of(x));
    } else {
        let b = all[bs.len() as int];
        enc_exists(b);
        let y = choose|y: Seq<u8>| #[trigger] enc_rel(b, y);
        enc_push(bs, b, x, y);
        assert(bs.push(b) =~= all.take(bs.len() as int + 1));
        seq_extend(bs.push(b), all, x + y);
        let full = choose|full: Seq<u8>| #[trigger] enc_seq(all, full) && (x + y).is_prefix_of(full);
        assert(x =~= full.take(x.len() as int)) by { assert((x + y).take(x.len() as int) =~= x); assert(x + y == full.take((x + y).len() as int)); }
    }
}
pub broadcast proof fn seq_fail(bs: Seq<BV>, b: BV, all: Seq<BV>, s0: WState, s1: WState, s2: WState, r: crate::error::Result<()>)
    requires
        #[trigger] seq_post(bs, s0, s1), #[trigger] block_post(b, s1, s2, r), r.is_err(), #[trigger] goal_seq(all),
        bs.len() < all.len(), bs.push(b) =~= all.take(bs.len() as int + 1),
    ensures all_post(all, s0, s2, r),
{
    let x = choose|out: Seq<u8>| #[trigger] enc_seq(bs, out) && s1.out == s0.out + out && s1.errs == s0.errs;
    let y = choose|full: Seq<u8>| #[trigger] enc_rel(b, full) && enc_post(full, s1, s2, r);
    enc_push(bs, b, x, y);
    seq_extend(bs.push(b), all, x + y);
    let full = choose|full: Seq<u8>| #[trigger] enc_seq(all, full) && (x + y).is_prefix_of(full);
    let z = full.skip((x + y).len() as int);
    assert(full =~= x + y + z);
    assert(s2.out.take(s0.out.len() as int) =~= s0.out);
    assert(s0.out + full =~= (s1.out + y) + z);
    assert((s0.out + full).take(s2.out.len() as int) =~= s2.out) by { assert(s2.out == (s1.out + y).take(s2.out.len() as int)); }
    assert(enc_post(full, s0, s2, r));
}
pub broadcast proof fn seq_done(bs: Seq<BV>, all: Seq<BV>, s0: WState, s1: WState)
    requires #[trigger] seq_post(bs, s0, s1), #[trigger] goal_seq(all), bs =~= all,
    ensures all_post(all, s0, s1, Ok(())),
{
    let x = choose|out: Seq<u8>| #[trigger] enc_seq(bs, out) && s1.out == s0.out + out && s1.errs == s0.errs;
    assert(enc_post(x, s0, s1, Ok(())));
}
pub proof fn enc_cat(a: Seq<BV>, b: Seq<BV>, x: Seq<u8>, y: Seq<u8>)
    requires enc_seq(a, x), enc_seq(b, y),
    ensures enc_seq(a + b, x + y),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a); assert(x + y =~= x);
    } else {
        let (u, v) = choose|u: Seq<u8>, v: Seq<u8>| #[trigger] cat_is(u, v, y) && enc_seq(b.drop_last(), u) && enc_rel(b.last(), v);
        enc_cat(a, b.drop_last(), x, u);
        enc_push(a + b.drop_last(), b.last(), x + u, v);
        assert((a + b.drop_last()).push(b.last()) =~= a + b);
        assert(x + u + v =~= x + y);
    }
}
/// two runs of blocks, one after the other
pub broadcast proof fn all_cat(a: Seq<BV>, b: Seq<BV>, s0: WState, s1: WState, s2: WState, r1: crate::error::Result<()>, r2: crate::error::Result<()>)
    requires #[trigger] all_post(a, s0, s1, r1), r1.is_ok(), #[trigger] all_post(b, s1, s2, r2),
    ensures all_post(a + b, s0, s2, r2),
{
    let x = choose|full: Seq<u8>| #[trigger] enc_seq(a, full) && enc_post(full, s0, s1, r1);
    let y = choose|full: Seq<u8>| #[trigger] enc_seq(b, full) && enc_post(full, s1, s2, r2);
    enc_cat(a, b, x, y);
    assert(s0.out + (x + y) =~= s1.out + y);
    assert(s2.out.take(s0.out.len() as int) =~= s0.out) by { assert(s2.out.take(s1.out.len() as int) =~= s1.out); }
    assert(enc_post(x + y, s0, s2, r2));
}
/// the first of two runs fails
pub broadcast proof fn all_fail(a: Seq<BV>, b: Seq<BV>, s0: WState, s1: WState, r: crate::error::Result<()>)
    requires #[trigger] all_post(a, s0, s1, r), r.is_err(), #[trigger] goal_seq(b),
    ensures all_post(a + b, s0, s1, r),
{
    let x = choose|full: Seq<u8>| #[trigger] enc_seq(a, full) && enc_post(full, s0, s1, r);
    assert((a + b).take(a.len() as int) =~= a);
    seq_extend(a, a + b, x);
    let full = choose|full: Seq<u8>| #[trigger] enc_seq(a + b, full) && x.is_prefix_of(full);
    assert(full =~= x + full.skip(x.len() as int));
    assert(s0.out + full =~= (s0.out + x) + full.skip(x.len() as int));
    assert((s0.out + full).take(s1.out.len() as int) =~= s1.out) by { assert(s1.out == (s0.out + x).take(s1.out.len() as int)); }
    assert(enc_post(full, s0, s1, r));
}
pub broadcast group group_cat { all_cat, all_fail }
pub broadcast group group_seq { seq_step, seq_fail, seq_done }
pub proof fn enc_exists(b: BV)
    ensures exists|y: Seq<u8>| #[trigger] enc_rel(b, y),
{
    match b {
        BV::Header(v) => { assert(enc_rel(b, seq![0x47u8, 0x49, 0x46] + v)); }
        BV::Lsd(d) => { assert(enc_rel(b, le16(d.screen_width) + le16(d.screen_height) + seq![d.flags, d.background_color_idx, d.pixel_aspect_ratio])); }
        BV::Gct(c) => { assert(enc_rel(b, c)); }
        BV::PlainText(s) => { assert(enc_rel(b, ext(0x01, s))); }
        BV::Gce(g) => { assert(enc_rel(b, seq![0x21u8, 0xF9, 4, g.flags] + le16(g.delay_time_cs) + seq![g.transparent_color_idx, 0])); }
        BV::Comment(s) => { assert(enc_rel(b, ext(0xFE, s))); }
        BV::App(s) => { assert(enc_rel(b, ext(0xFF, s))); }
        BV::Unknown(s) => { assert(enc_rel(b, seq![0x21u8] + (if s.len() == 0 { Seq::empty() } else { s[0] }) + subs(tail(s)) + seq![0u8])); }
        BV::Desc(d) => { assert(enc_rel(b, seq![0x2Cu8] + le16(d.left) + le16(d.top) + le16(d.width) + le16(d.height) + seq![d.flags])); }
        BV::Lct(c) => { assert(enc_rel(b, c)); }
        BV::Data(d) => {
            p2_vals();
            data_exists(d, 8);
            let full = choose|full: Seq<u8>| data_rel_min(d, full, 8);
            let parts = choose|parts: Seq<Seq<u8>>| data_rel_with(d, full, 8, parts);
            assert(data_rel_with(d, full, 8, parts));
            assert(enc_rel(b, full));
        }
        BV::Trailer => { assert(enc_rel(b, seq![0x3Bu8])); }
    }
}
pub open spec fn data_rel_min(d: Seq<u8>, full: Seq<u8>, min: u8) -> bool { exists|parts: Seq<Seq<u8>>| data_rel_with(d, full, min, parts) }
/// a stream with a clear code before every value
pub open spec fn plain(min: nat, d: Seq<u8>) -> Seq<bool>
    decreases d.len()
{
    if d.len() == 0 { bits(p2(min), min + 1) } else { plain(min, d.drop_last()) + bits(d.last() as nat, min + 1) + bits(p2(min), min + 1) }
}
pub proof fn plain_ok(min: nat, d: Seq<u8>)
    requires 2 <= min <= 8, forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) < p2(min),
    ensures
        lz_run(lz_init(min), plain(min, d)) == (LzRes { ok: true, st: lz_init(min), out: d, rest: Seq::empty() }),
        crate::lzw::clear_first(min, plain(min, d)),
    decreases d.len()
{
    p2_vals(); p2_mono(min, min + 1); p2_pos(min);
    let st = lz_init(min);
    let c = bits(p2(min), min + 1);
    if d.len() == 0 {
        let e = Seq::<bool>::empty();
        let r = lz_run(st, e);
        assert(r == LzRes { ok: true, st, out: Seq::empty(), rest: e });
        lz_run_step(st, e, p2(min), c);
        assert(e + c =~= c);
        assert(d =~= Seq::<u8>::empty() + Seq::<u8>::empty());
        crate::lzw::clear_init(min);
    } else {
        let a = plain(min, d.drop_last());
        let v = d.last();
        plain_ok(min, d.drop_last());
        assert(v < p2(min));
        lz_run_step(st, a, v as nat, bits(v as nat, min + 1));
        let b = a + bits(v as nat, min + 1);
        lz_run_step(st, b, p2(min), c);
        assert(d =~= d.drop_last() + seq![v] + Seq::<u8>::empty());
        crate::lzw::clear_keep(min, a, bits(v as nat, min + 1));
        crate::lzw::clear_keep(min, b, c);
    }
}
pub proof fn bits_val(s: Seq<bool>)
    ensures bits(val(s), s.len()) == s, val(s) < p2(s.len()),
    decreases s.len()
{
    if s.len() == 0 { p2_vals(); assert(bits(val(s), 0) =~= s); }
    else {
        bits_val(s.drop_first());
        vstd::arithmetic::power2::lemma_pow2_unfold(s.len());
        assert(seq![s[0]] + s.drop_first() =~= s);
    }
}
/// every sequence of bits can be filled up to bytes
pub proof fn pack(x: Seq<bool>) -> (s: Seq<u8>)
    ensures x.is_prefix_of(bb(s)),
    decreases x.len()
{
    p2_vals();
    if x.len() == 0 {
        assert(x =~= bb(Seq::<u8>::empty()).take(0));
        Seq::empty()
    } else {
        let y = if x.len() >= 8 { x.take(8) } else { x + Seq::new((8 - x.len()) as nat, |i: int| false) };
        bits_val(y);
        let b = val(y) as u8;
        bb_one(b);
        if x.len() <= 8 {
            assert(x =~= y.take(x.len() as int));
            seq![b]
        } else {
            let t = pack(x.skip(8));
            bb_cat(seq![b], t);
            let u = y + bb(t);
            assert forall|i: int| 0 <= i < x.len() implies x[i] == u[i] by {
                if i >= 8 { assert(x[i] == x.skip(8)[i - 8]); assert(x.skip(8) == bb(t).take(x.len() - 8)); }
            }
            assert(x =~= u.take(x.len() as int));
            seq![b] + t
        }
    }
}
pub proof fn data_exists(d: Seq<u8>, min: u8)
    requires 2 <= min <= 8, forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) < p2(min as nat),
    ensures exists|full: Seq<u8>| data_rel_min(d, full, min),
{
    let m = min as nat;
    let st = lz_init(m);
    p2_vals(); p2_mono(m, m + 1); if m < 8 { p2_mono(m, 8); } p2_mono(1, m); vstd::arithmetic::power2::lemma_pow2_unfold(m + 1);
    plain_ok(m, d);
    let a = plain(m, d);
    let e = bits(p2(m) + 1, m + 1);
    lz_run_step(st, a, p2(m) + 1, e);
    let enc = pack(a + e);
    let pad = bb(enc).skip((a + e).len() as int);
    assert(bb(enc) =~= a + e + pad);
    lz_run_cat(st, a + e, pad);
    crate::lzw::clear_keep(m, a, e);
    crate::lzw::clear_keep(m, a + e, pad);
    let r = lz_run(st, a + e);
    assert(lz_run(r.st, r.rest + pad).out =~= Seq::empty());
    assert(lz_run(st, bb(enc)).out =~= d);
    cut_ok(enc);
    let full = seq![min] + subs(cut(enc)) + seq![0u8];
    assert(data_rel_with(d, full, min, cut(enc)));
    assert(data_rel_min(d, full, min));
}

// ---- order of the blocks of a file
pub open spec fn opt<T>(o: Option<T>, f: spec_fn(T) -> BV) -> Seq<BV> { match o { Some(x) => seq![f(x)], None => Seq::empty() } }
pub open spec fn pre_blocks(p: PreV) -> Seq<BV> {
    seq![BV::Header(p.header), BV::Lsd(p.lsd)] + opt(p.gct, |c: Seq<u8>| BV::Gct(c)) + opt(p.looping, |s: Seq<Seq<u8>>| BV::App(s))
        + Seq::new(p.comments.len(), |i: int| BV::Comment(p.comments[i]))
}
pub open spec fn frame_blocks(f: FrameV) -> Seq<BV> {
    opt(f.gce, |g: GraphicControl| BV::Gce(g)) + seq![BV::Desc(f.desc)] + opt(f.lct, |c: Seq<u8>| BV::Lct(c)) + seq![BV::Data(f.data)]
}
}
}
