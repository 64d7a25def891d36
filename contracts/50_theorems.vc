@@ root
// ---- the properties, stated over what the functions were proved to do
/// sub-blocks, read back
pub mod subtheory {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
verus! {
pub proof fn subs_front(p: Seq<Seq<u8>>)
    requires p.len() > 0,
    ensures
        subs(p) == seq![p[0].len() as u8] + p[0] + subs(p.skip(1)),
        flat(p) == p[0] + flat(p.skip(1)),
{
    subs_push(Seq::empty(), p[0]);
    assert(Seq::<Seq<u8>>::empty().push(p[0]) =~= seq![p[0]]);
    assert(p =~= seq![p[0]] + p.skip(1));
    subs_cat(seq![p[0]], p.skip(1));
    assert(Seq::<u8>::empty() + seq![p[0].len() as u8] + p[0] =~= seq![p[0].len() as u8] + p[0]);
    assert(Seq::<u8>::empty() + p[0] =~= p[0]);
}
/// the first of the sub-blocks `p`, followed by `tail`
pub proof fn sub_first(b: BV, lz: Lz, p: Seq<Seq<u8>>, tail: Seq<u8>)
    requires p.len() > 0, 1 <= p[0].len() <= 255,
    ensures ({
        let d = subs(p) + seq![0u8] + tail;
        let rest = subs(p.skip(1)) + seq![0u8] + tail;
        &&& rest.len() < d.len()
        &&& sub_step(b, lz, d) == match one_sub(b, lz, p[0]) { Err(e) => Sub::Err(e), Ok((b, lz)) => Sub::More { b, lz, rest } }
    }),
{
    let d = subs(p) + seq![0u8] + tail;
    let rest = subs(p.skip(1)) + seq![0u8] + tail;
    subs_front(p);
    let n = p[0].len() as int;
    assert(d =~= seq![n as u8] + p[0] + rest);
    assert(d[0] == n as u8);
    assert(d.subrange(1, 1 + n) =~= p[0]);
    assert(d.skip(1 + n) =~= rest);
}
pub proof fn sub_last(b: BV, lz: Lz, tail: Seq<u8>)
    ensures sub_step(b, lz, subs(Seq::empty()) + seq![0u8] + tail) == (Sub::End { rest: tail }),
{
    let d = subs(Seq::empty()) + seq![0u8] + tail;
    assert(d =~= seq![0u8] + tail);
    assert(d.skip(1) =~= tail);
}
pub proof fn run_ended(st: LzState, bs: Seq<bool>)
    requires st.ended,
    ensures lz_run(st, bs) == (LzRes { ok: true, st, out: Seq::empty(), rest: bs }),
{}
/// what the sub-blocks of image data give only depends on their concatenation
pub open spec fn data_run(x: Seq<u8>, lz: Lz, z: Seq<u8>, tail: Seq<u8>) -> Result<Done, EV> {
    let r = lz_run(lz.st, lz.rest + bb(z));
    if r.ok { Ok(Done { b: BV::Data(x + r.out), rest: tail }) } else { Err(EV::Lzw) }
}
pub proof fn data_subs(x: Seq<u8>, lz: Lz, p: Seq<Seq<u8>>, tail: Seq<u8>)
    requires subs_ok(p),
    ensures
        lz_run(lz.st, lz.rest).out.len() == 0 && lz_run(lz.st, lz.rest).ok ==> subs_run(BV::Data(x), lz, subs(p) + seq![0u8] + tail) == data_run(x, lz, flat(p), tail),
    decreases p.len()
{
    let d = subs(p) + seq![0u8] + tail;
    let r = lz_run(lz.st, lz.rest + bb(flat(p)));
    let q = lz_run(lz.st, lz.rest);
    if q.ok && q.out.len() == 0 {
        if p.len() == 0 {
            assert(p =~= Seq::empty());
            sub_last(BV::Data(x), lz, tail);
            assert(bb(flat(p)) =~= Seq::empty());
            assert(lz.rest + bb(flat(p)) =~= lz.rest);
            assert(x + r.out =~= x);
        } else {
            sub_first(BV::Data(x), lz, p, tail);
            subs_front(p);
            assert(subs_ok(p.skip(1)));
            let rest = subs(p.skip(1)) + seq![0u8] + tail;
            let a = lz.rest + bb(p[0]);
            let b = bb(flat(p.skip(1)));
            bb_cat(p[0], flat(p.skip(1)));
            assert(lz.rest + bb(flat(p)) =~= a + b);
            let s = lz_run(lz.st, a);
            if s.ok {
                lz_run_cat(lz.st, a, b);
                let lz2 = Lz { st: s.st, rest: if s.st.ended { Seq::empty() } else { s.rest } };
                run_rest(lz.st, a);
                data_subs(x + s.out, lz2, p.skip(1), tail);
                let r2 = lz_run(s.st, s.rest + b);
                if s.st.ended { run_ended(s.st, s.rest + b); run_ended(s.st, lz2.rest + b); run_ended(s.st, lz2.rest); }
                assert(x + s.out + r2.out =~= x + (s.out + r2.out));
            } else {
                lz_run_fail(lz.st, a, b);
            }
        }
    }
}
/// what is left over has no further code
pub proof fn run_rest(st: LzState, bs: Seq<bool>)
    ensures ({ let r = lz_run(st, bs); let q = lz_run(r.st, r.rest); r.ok ==> q.ok && q.out.len() == 0 }),
    decreases bs.len()
{
    if st.ended || st.w == 0 || bs.len() < st.w {
    } else {
        match lz_code(st, val(bs.take(st.w as int))) {
            None => {}
            Some((st2, o)) => { run_rest(st2, bs.skip(st.w as int)); }
        }
    }
}
}
}

/// C02: how image data are cut into sub-blocks does not matter
pub mod c02 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::subtheory::*;
verus! {
/// What the bytes `z` of an image with `sz` pixels give, for a reader of the GIF variant of LZW
pub open spec fn image_of(min: nat, z: Seq<u8>, sz: nat) -> Result<Seq<u8>, EV> {
    let r = lz_run(lz_init(min), bb(z));
    if !r.ok { Err(EV::Lzw) } else if r.out.len() < sz { Err(EV::Incomplete) } else { Ok(r.out.take(sz as int)) }
}
pub proof fn data_decoded(ps: PS, min: u8, p: Seq<Seq<u8>>, tail: Seq<u8>)
    requires ps.next is Data, 2 <= min <= 8, subs_ok(p),
    ensures
        parse(ps, seq![min] + subs(p) + seq![0u8] + tail) == match image_of(min as nat, flat(p), ps.sz) {
            Ok(x) => Ok(Parsed { b: BV::Data(x), rest: tail, ps: PS { next: Next::Any, ..ps } }),
            Err(e) => Err(e),
        },
{
    let d = seq![min] + subs(p) + seq![0u8] + tail;
    let lz = Lz { st: lz_init(min as nat), rest: Seq::empty() };
    assert(d[0] == min);
    assert(d.skip(1) =~= subs(p) + seq![0u8] + tail);
    assert(lz.rest + bb(flat(p)) =~= bb(flat(p)));
    data_subs(Seq::empty(), lz, p, tail);
    let r = lz_run(lz.st, bb(flat(p)));
    assert(Seq::<u8>::empty() + r.out =~= r.out);
}
/// two ways to cut the same bytes
pub proof fn cut_independent(ps: PS, min: u8, p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, tail: Seq<u8>)
    requires ps.next is Data, 2 <= min <= 8, subs_ok(p), subs_ok(q), flat(p) == flat(q),
    ensures parse(ps, seq![min] + subs(p) + seq![0u8] + tail) == parse(ps, seq![min] + subs(q) + seq![0u8] + tail),
{
    data_decoded(ps, min, p, tail);
    data_decoded(ps, min, q, tail);
}
}
}

/// C01: image data survive encoding and decoding
pub mod c01 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
verus! {
/// `out` is what the block encoder may write for the pixels `x` (contract of ImageData::format);
/// the block decoder (contract of Blocks::next_block) reads `x` from it and stops behind it
pub proof fn round_trip(ps: PS, x: Seq<u8>, out: Seq<u8>, tail: Seq<u8>)
    requires ps.next is Data, ps.sz == x.len(), enc_rel(BV::Data(x), out),
    ensures parse(ps, out + tail) == Ok::<Parsed, EV>(Parsed { b: BV::Data(x), rest: tail, ps: PS { next: Next::Any, ..ps } }),
{
    let (min, p) = choose|min: u8, p: Seq<Seq<u8>>| data_rel_with(x, out, min, p);
    crate::c02::data_decoded(ps, min, p, tail);
    assert(x.take(x.len() as int) =~= x);
}
}
}

/// C05: every block survives encoding and decoding
pub mod c05 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::subtheory::*;
verus! {
/// block `b` may stand where the decoder is, and was built through the public interface
pub open spec fn consistent(ps: PS, b: BV) -> bool {
    match b {
        BV::Header(v) => ps.next is Header && (v == gif87a() || v == gif89a()),
        BV::Lsd(_) => ps.next is Lsd,
        BV::Gct(c) => ps.next == Next::Gct(c.len()),
        BV::PlainText(s) => ps.next is Any && subs_ok(s),
        BV::Comment(s) => ps.next is Any && subs_ok(s),
        BV::App(s) => ps.next is Any && subs_ok(s),
        BV::Unknown(s) => ps.next is Any && subs_ok(s) && s.len() > 0 && s[0].len() == 1 && (ext_of(s[0][0]) is Unknown_),
        BV::Gce(_) => ps.next is Any,
        BV::Desc(d) => ps.next is Any && (ps.max matches Some(m) ==> d.width as nat * d.height as nat <= m),
        BV::Lct(c) => ps.next == Next::Lct(c.len()),
        BV::Data(x) => ps.next is Data && ps.sz == x.len(),
        BV::Trailer => ps.next is Any,
    }
}
pub open spec fn next_ps(ps: PS, b: BV) -> PS {
    PS { next: after(b), sz: match b { BV::Desc(d) => d.width as nat * d.height as nat, _ => ps.sz }, ..ps }
}
/// sub-blocks which are kept as they are
pub open spec fn with_subs(b: BV, s: Seq<Seq<u8>>) -> BV {
    match b {
        BV::PlainText(x) => BV::PlainText(x + s),
        BV::Comment(x) => BV::Comment(x + s),
        BV::App(x) => BV::App(x + s),
        BV::Unknown(x) => BV::Unknown(x + s),
        _ => b,
    }
}
pub open spec fn keeps(b: BV) -> bool { b is PlainText || b is Comment || b is App || b is Unknown }
pub proof fn kept(b: BV, lz: Lz, p: Seq<Seq<u8>>, tail: Seq<u8>)
    requires keeps(b), subs_ok(p),
    ensures subs_run(b, lz, subs(p) + seq![0u8] + tail) == Ok::<Done, EV>(Done { b: with_subs(b, p), rest: tail }),
    decreases p.len()
{
    let e = Seq::<Seq<u8>>::empty();
    if p.len() == 0 {
        assert(p =~= e);
        sub_last(b, lz, tail);
        match b {
            BV::PlainText(x) => { assert(x + e =~= x); }
            BV::Comment(x) => { assert(x + e =~= x); }
            BV::App(x) => { assert(x + e =~= x); }
            BV::Unknown(x) => { assert(x + e =~= x); }
            _ => {}
        }
    } else {
        sub_first(b, lz, p, tail);
        assert(subs_ok(p.skip(1)));
        let b2 = with_subs(b, seq![p[0]]);
        match b {
            BV::PlainText(x) => { assert(x + seq![p[0]] =~= x.push(p[0])); assert(x.push(p[0]) + p.skip(1) =~= x + p); }
            BV::Comment(x) => { assert(x + seq![p[0]] =~= x.push(p[0])); assert(x.push(p[0]) + p.skip(1) =~= x + p); }
            BV::App(x) => { assert(x + seq![p[0]] =~= x.push(p[0])); assert(x.push(p[0]) + p.skip(1) =~= x + p); }
            BV::Unknown(x) => { assert(x + seq![p[0]] =~= x.push(p[0])); assert(x.push(p[0]) + p.skip(1) =~= x + p); }
            _ => {}
        }
        assert(one_sub(b, lz, p[0]) == Ok::<(BV, Lz), EV>((b2, lz)));
        kept(b2, lz, p.skip(1), tail);
    }
}
proof fn ext_read(ps: PS, id: u8, s: Seq<Seq<u8>>, tail: Seq<u8>)
    requires ps.next is Any, subs_ok(s), keeps(ext_block(id)),
    ensures
        parse(ps, ext(id, s) + tail) == Ok::<Parsed, EV>(Parsed { b: with_subs(ext_block(id), s), rest: tail, ps: PS { next: Next::Any, ..ps } }),
{
    let d = ext(id, s) + tail;
    assert(d[0] == 0x21 && d[1] == id);
    assert(d.skip(1)[0] == id);
    assert(d.skip(1).skip(1) =~= subs(s) + seq![0u8] + tail);
    kept(ext_block(id), no_lz(), s, tail);
}
/// `out` is what the block encoder may write for `b`, `tail` follows it
pub open spec fn reads(ps: PS, b: BV, out: Seq<u8>, tail: Seq<u8>) -> bool {
    parse(ps, out + tail) == Ok::<Parsed, EV>(Parsed { b, rest: tail, ps: next_ps(ps, b) })
}
proof fn un_le(n: u16)
    ensures le16(n).len() == 2, un16(le16(n)[0], le16(n)[1]) == n,
{}
proof fn rt_header(ps: PS, v: Seq<u8>, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Header(v)), enc_rel(BV::Header(v), out),
    ensures reads(ps, BV::Header(v), out, tail),
{
    let d = out + tail;
    assert(d.take(3) =~= seq![0x47u8, 0x49, 0x46]);
    assert(d.subrange(3, 6) =~= v);
    assert(d.skip(6) =~= tail);
}
proof fn rt_lsd(ps: PS, x: LogicalScreenDesc, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Lsd(x)), enc_rel(BV::Lsd(x), out),
    ensures reads(ps, BV::Lsd(x), out, tail),
{
    un_le(x.screen_width); un_le(x.screen_height);
    let d = out + tail;
    assert(lsd_at(d) == x);
    assert(d.skip(7) =~= tail);
}
proof fn rt_desc(ps: PS, x: ImageDesc, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Desc(x)), enc_rel(BV::Desc(x), out),
    ensures reads(ps, BV::Desc(x), out, tail),
{
    un_le(x.left); un_le(x.top); un_le(x.width); un_le(x.height);
    let d = out + tail;
    assert(d[0] == 0x2C);
    let r = d.skip(1);
    assert(desc_at(r) == x);
    assert(r.skip(9) =~= tail);
}
proof fn rt_gce(ps: PS, g: GraphicControl, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Gce(g)), enc_rel(BV::Gce(g), out),
    ensures reads(ps, BV::Gce(g), out, tail),
{
    let b = BV::Gce(g);
    un_le(g.delay_time_cs);
    let d = out + tail;
    let c = seq![g.flags] + le16(g.delay_time_cs) + seq![g.transparent_color_idx];
    let r = d.skip(2);
    assert(d[0] == 0x21 && d.skip(1)[0] == 0xF9);
    assert(d.skip(1).skip(1) =~= r);
    assert(r =~= seq![4u8] + c + seq![0u8] + tail);
    assert(r.subrange(1, 5) =~= c);
    let r2 = r.skip(5);
    assert(r2 =~= seq![0u8] + tail);
    assert(r2.skip(1) =~= tail);
    assert(one_sub(BV::Gce(gce_default()), no_lz(), c) == Ok::<(BV, Lz), EV>((b, no_lz())));
    assert(sub_step(b, no_lz(), r2) == Sub::End { rest: tail });
    assert(sub_step(BV::Gce(gce_default()), no_lz(), r) == Sub::More { b, lz: no_lz(), rest: r2 });
    assert(subs_run(b, no_lz(), r2) == Ok::<Done, EV>(Done { b, rest: tail }));
}
proof fn rt_table(ps: PS, b: BV, c: Seq<u8>, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, b), enc_rel(b, out), b == BV::Gct(c) || b == BV::Lct(c),
    ensures reads(ps, b, out, tail),
{
    let d = out + tail;
    assert(d.take(c.len() as int) =~= c);
    assert(d.skip(c.len() as int) =~= tail);
}
proof fn rt_unknown(ps: PS, s: Seq<Seq<u8>>, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Unknown(s)), enc_rel(BV::Unknown(s), out),
    ensures reads(ps, BV::Unknown(s), out, tail),
{
    let n = s[0][0];
    assert(s[0] =~= seq![n]);
    assert(out =~= ext(n, s.skip(1)));
    assert(subs_ok(s.skip(1)));
    ext_read(ps, n, s.skip(1), tail);
    assert(seq![seq![n]] + s.skip(1) =~= s);
}
/// What the block encoder writes for `b` (contracts of the format functions) is
/// read as `b` by the block decoder (contract of Blocks::next_block), which stops behind it
pub proof fn round_trip(ps: PS, b: BV, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, b), enc_rel(b, out),
    ensures parse(ps, out + tail) == Ok::<Parsed, EV>(Parsed { b, rest: tail, ps: next_ps(ps, b) }),
{
    hide(parse); hide(data_rel); hide(subs);
    let e = Seq::<Seq<u8>>::empty();
    match b {
        BV::Header(v) => { rt_header(ps, v, out, tail); }
        BV::Lsd(x) => { rt_lsd(ps, x, out, tail); }
        BV::Gct(c) => { rt_table(ps, b, c, out, tail); }
        BV::Lct(c) => { rt_table(ps, b, c, out, tail); }
        BV::PlainText(s) => { ext_read(ps, 1, s, tail); assert(e + s =~= s); }
        BV::Comment(s) => { ext_read(ps, 0xFE, s, tail); assert(e + s =~= s); }
        BV::App(s) => { ext_read(ps, 0xFF, s, tail); assert(e + s =~= s); }
        BV::Unknown(s) => { rt_unknown(ps, s, out, tail); }
        BV::Gce(g) => { rt_gce(ps, g, out, tail); }
        BV::Desc(x) => { rt_desc(ps, x, out, tail); }
        BV::Data(x) => { crate::c01::round_trip(ps, x, out, tail); }
        BV::Trailer => { rt_trailer(ps, out, tail); }
    }
}
proof fn rt_trailer(ps: PS, out: Seq<u8>, tail: Seq<u8>)
    requires consistent(ps, BV::Trailer), enc_rel(BV::Trailer, out),
    ensures reads(ps, BV::Trailer, out, tail),
{
    let d = out + tail;
    assert(d[0] == 0x3B);
    assert(d.skip(1) =~= tail);
}
/// blocks which follow each other
pub open spec fn chain(ps: PS, bs: Seq<BV>) -> bool
    decreases bs.len()
{
    bs.len() == 0 || (consistent(ps, bs[0]) && chain(next_ps(ps, bs[0]), bs.skip(1)))
}
/// state after some blocks
pub open spec fn ps_after(ps: PS, bs: Seq<BV>) -> PS
    decreases bs.len()
{
    if bs.len() == 0 { ps } else { ps_after(next_ps(ps, bs[0]), bs.skip(1)) }
}
/// the first n blocks of `d`, what follows them and the state after them
pub open spec fn parse_n(ps: PS, d: Seq<u8>, n: nat) -> Result<(Seq<BV>, Seq<u8>, PS), EV>
    decreases n
{
    if n == 0 { Ok((Seq::empty(), d, ps)) }
    else {
        match parse(ps, d) {
            Err(e) => Err(e),
            Ok(p) => match parse_n(p.ps, p.rest, (n - 1) as nat) {
                Err(e) => Err(e),
                Ok((bs, rest, ps)) => Ok((seq![p.b] + bs, rest, ps)),
            },
        }
    }
}
pub proof fn enc_front(bs: Seq<BV>, out: Seq<u8>) -> (r: (Seq<u8>, Seq<u8>))
    requires enc_seq(bs, out), bs.len() > 0,
    ensures out == r.0 + r.1, enc_rel(bs[0], r.0), enc_seq(bs.skip(1), r.1),
    decreases bs.len()
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat_is(a, b, out) && enc_seq(bs.drop_last(), a) && enc_rel(bs.last(), b);
    if bs.len() == 1 {
        assert(bs.skip(1) =~= Seq::empty());
        let e = Seq::<u8>::empty();
        assert(a =~= e);
        assert(out =~= b + e);
        assert(enc_seq(bs.skip(1), e));
        (b, e)
    } else {
        let (x, y) = enc_front(bs.drop_last(), a);
        assert(bs.drop_last().skip(1) =~= bs.skip(1).drop_last());
        enc_push(bs.skip(1).drop_last(), bs.last(), y, b);
        assert(bs.skip(1).drop_last().push(bs.last()) =~= bs.skip(1));
        assert(out =~= x + (y + b));
        (x, y + b)
    }
}
/// the same for every valid sequence of blocks: they decode to themselves, one after the other
pub proof fn sequence(ps: PS, bs: Seq<BV>, out: Seq<u8>, tail: Seq<u8>)
    requires chain(ps, bs), enc_seq(bs, out),
    ensures parse_n(ps, out + tail, bs.len()) == Ok::<(Seq<BV>, Seq<u8>, PS), EV>((bs, tail, ps_after(ps, bs))),
    decreases bs.len()
{
    if bs.len() == 0 {
        assert(out + tail =~= tail);
        assert(bs =~= Seq::empty());
    } else {
        let (a, b) = enc_front(bs, out);
        assert(out + tail =~= a + (b + tail));
        round_trip(ps, bs[0], a, b + tail);
        sequence(next_ps(ps, bs[0]), bs.skip(1), b, tail);
        assert(seq![bs[0]] + bs.skip(1) =~= bs);
    }
}
}
}

/// C12: interlaced frames are drawn like the same frame with its rows in display order
pub mod c12 {
use vstd::prelude::*;
use crate::block::*;
use crate::parsespec::*;
use crate::stepspec::*;
verus! {
/// the frame with its rows rearranged to top-to-bottom order
pub open spec fn rearranged(f: FrameV) -> FrameV {
    let w = f.desc.width as int;
    FrameV {
        desc: ImageDesc { flags: f.desc.flags & !0x40u8, ..f.desc },
        data: Seq::new(area(f.desc), |i: int| f.data[rank(i / w, f.desc.height as nat) * w + i % w]),
        ..f
    }
}
pub proof fn same_index(f: FrameV, x: int, y: int)
    requires f.desc.flags & 0x40 != 0, 0 <= x < f.desc.width, 0 <= y < f.desc.height,
    ensures index_at(rearranged(f), x, y) == index_at(f, x, y),
{
    let fl = f.desc.flags;
    assert((fl & !0x40u8) & 0x40 == 0) by (bit_vector);
    let w = f.desc.width as int;
    row_bounds(w, f.desc.height as int, y, x, 1);
    pos_of(w, y, x);
}
pub proof fn same_raster(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>)
    requires f.desc.flags & 0x40 != 0, cv.px.len() == cv.w * cv.h,
    ensures draw(cv, f, gct) == draw(cv, rearranged(f), gct),
{
    let g = rearranged(f);
    let n = f.desc.height as int;
    if fits(cv, f.desc) {
        let t = match f.lct { Some(c) => Some(c), None => gct };
        if let Some(c) = t {
            assert forall|y: int| 0 <= y < n implies row_ok(f, c, y) == #[trigger] row_ok(g, c, y) by {
                assert forall|x: int| 0 <= x < f.desc.width implies index_at(f, x, y) == #[trigger] index_at(g, x, y) by { same_index(f, x, y); }
                if row_ok(g, c, y) {
                    assert forall|x: int| 0 <= x < f.desc.width implies in_table(c, #[trigger] index_at(f, x, y)) by { assert(in_table(c, index_at(g, x, y))); }
                }
            }
            assert(rows_ok(f, c, n) == rows_ok(g, c, n)) by {
                if rows_ok(g, c, n) { assert forall|y: int| 0 <= y < n implies #[trigger] row_ok(f, c, y) by { assert(row_ok(g, c, y)); } }
                if rows_ok(f, c, n) { assert forall|y: int| 0 <= y < n implies #[trigger] row_ok(g, c, y) by { assert(row_ok(f, c, y)); } }
            }
            let a = drawn_to(cv, f, c, n);
            let b = drawn_to(cv, g, c, n);
            assert forall|i: int| 0 <= i < cv.px.len() implies a[i] == b[i] by {
                let x = i % (cv.w as int);
                let y = i / (cv.w as int);
                if covers(f.desc, x, y) { same_index(f, x - f.desc.left, y - f.desc.top); }
            }
            assert(a =~= b);
        }
    }
}
/// every stored row is used for exactly one displayed row
pub proof fn one_to_one(r: int, h: nat)
    requires 0 <= r < h,
    ensures
        exists|y: int| 0 <= y < h && #[trigger] rank(y, h) == r,
        forall|a: int, b: int| 0 <= a < h && 0 <= b < h && #[trigger] rank(a, h) == r && #[trigger] rank(b, h) == r ==> a == b,
{
    rank_onto(r, h);
    assert forall|a: int, b: int| 0 <= a < h && 0 <= b < h && #[trigger] rank(a, h) == r && #[trigger] rank(b, h) == r implies a == b by { rank_injective(a, b, h); }
}
/// the rows in the order in which they are stored: every 8th from 0, every 8th from 4,
/// every 4th from 2, every 2nd from 1
pub proof fn passes(y: int, h: nat)
    requires 0 <= y < h,
    ensures
        y % 8 == 0 ==> rank(y, h) == y / 8,
        y % 8 == 4 ==> rank(y, h) == (h + 7) / 8 + (y - 4) / 8,
        y % 4 == 2 ==> rank(y, h) == (h + 3) / 4 + (y - 2) / 4,
        y % 2 == 1 ==> rank(y, h) == (h + 1) / 2 + (y - 1) / 2,
{
    rank_is(y, h);
}
}
}

/// C15: damage does not change what was read before it, and nothing follows an error
pub mod c15 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
verus! {
/// the part of `d` in front of `rest`
pub open spec fn front(d: Seq<u8>, rest: Seq<u8>) -> Seq<u8> { d.take(d.len() - rest.len()) }
pub open spec fn is_tail(d: Seq<u8>, rest: Seq<u8>) -> bool { rest.len() <= d.len() && rest == d.skip(d.len() - rest.len()) }
proof fn tail_of(d: Seq<u8>, n: int, t: Seq<u8>)
    requires 0 <= n <= d.len(),
    ensures is_tail(d, d.skip(n)), front(d, d.skip(n)) == d.take(n), (d.take(n) + t).skip(n) == t,
{
    assert((d.take(n) + t).skip(n) =~= t);
}
proof fn tail_trans(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    requires is_tail(d, a), is_tail(a, b),
    ensures is_tail(d, b), front(d, b) + t == front(d, a) + (front(a, b) + t),
{
    assert(b =~= d.skip(d.len() - b.len()));
    assert(front(d, b) + t =~= front(d, a) + (front(a, b) + t));
}
/// head of a block with n bytes
pub proof fn head_n(ps: PS, d: Seq<u8>, t: Seq<u8>)
    requires head(ps, d) is Ok,
    ensures
        is_tail(d, head(ps, d)->Ok_0.rest),
        head(ps, front(d, head(ps, d)->Ok_0.rest) + t) == Ok::<Head, EV>(Head { rest: t, ..head(ps, d)->Ok_0 }),
{
    let h = head(ps, d)->Ok_0;
    let n = d.len() - h.rest.len();
    let e = d.take(n) + t;
    match ps.next {
        Next::Header => { tail_of(d, 6, t); assert(e.take(3) =~= d.take(3)); assert(e.subrange(3, 6) =~= d.subrange(3, 6)); }
        Next::Lsd => { tail_of(d, 7, t); assert(lsd_at(e) == lsd_at(d)); }
        Next::Gct(k) => { tail_of(d, k as int, t); assert(e.take(k as int) =~= d.take(k as int)); }
        Next::Lct(k) => { tail_of(d, k as int, t); assert(e.take(k as int) =~= d.take(k as int)); }
        Next::Data => { tail_of(d, 1, t); }
        Next::Any => {
            if d[0] == 0x21 {
                assert(d.skip(1).skip(1) =~= d.skip(2));
                tail_of(d, 2, t);
                assert(e.skip(1).skip(1) =~= e.skip(2));
                assert(e.skip(1)[0] == d.skip(1)[0]);
            } else if d[0] == 0x2C {
                assert(d.skip(1).skip(9) =~= d.skip(10));
                tail_of(d, 10, t);
                assert(e.skip(1).skip(9) =~= e.skip(10));
                assert(desc_at(e.skip(1)) == desc_at(d.skip(1)));
            } else { tail_of(d, 1, t); }
        }
    }
}
proof fn subs_n(b: BV, lz: Lz, d: Seq<u8>, t: Seq<u8>)
    requires subs_run(b, lz, d) is Ok,
    ensures
        is_tail(d, subs_run(b, lz, d)->Ok_0.rest),
        subs_run(b, lz, front(d, subs_run(b, lz, d)->Ok_0.rest) + t) == Ok::<Done, EV>(Done { rest: t, ..subs_run(b, lz, d)->Ok_0 }),
    decreases d.len()
{
    let s = subs_run(b, lz, d)->Ok_0;
    match sub_step(b, lz, d) {
        Sub::Err(e) => {}
        Sub::End { rest } => {
            tail_of(d, 1, t);
            let e = d.take(1) + t;
            assert(e[0] == d[0]);
            assert(sub_step(b, lz, e) == Sub::End { rest: t });
        }
        Sub::More { b: b1, lz: lz1, rest } => {
            let k = 1 + d[0] as int;
            subs_n(b1, lz1, rest, t);
            let m = front(rest, s.rest) + t;
            tail_of(d, k, m);
            tail_trans(d, rest, s.rest, t);
            let e = d.take(k) + m;
            assert(e[0] == d[0]);
            assert(e.subrange(1, k) =~= d.subrange(1, k));
            assert(e.skip(k) =~= m);
            assert(sub_step(b, lz, e) == Sub::More { b: b1, lz: lz1, rest: m });
        }
    }
}
/// a block depends on its own bytes alone
pub proof fn block_local(ps: PS, d: Seq<u8>, t: Seq<u8>)
    requires parse(ps, d) is Ok,
    ensures
        is_tail(d, parse(ps, d)->Ok_0.rest),
        parse(ps, front(d, parse(ps, d)->Ok_0.rest) + t) == Ok::<Parsed, EV>(Parsed { rest: t, ..parse(ps, d)->Ok_0 }),
{
    let h = head(ps, d)->Ok_0;
    if has_subs(h.b) {
        let s = subs_run(h.b, h.lz, h.rest)->Ok_0;
        subs_n(h.b, h.lz, h.rest, t);
        head_n(ps, d, front(h.rest, s.rest) + t);
        tail_trans(d, h.rest, s.rest, t);
    } else {
        head_n(ps, d, t);
    }
}
pub proof fn frame_local(fs: FS, d: Seq<u8>, t: Seq<u8>)
    requires fs_ok(fs), frame_next(fs, d).item matches Some(Ok(_)),
    ensures
        is_tail(d, frame_next(fs, d).rest),
        frame_next(fs, front(d, frame_next(fs, d).rest) + t) == (FrameRes { rest: t, ..frame_next(fs, d) }),
    decreases d.len()
{
    hide(parse); hide(fs_ok);
    let n = frame_next(fs, d);
    block_ok(fs, d);
    if let Some(Ok((fs1, b, rest))) = next_block(fs, d) {
        match handle(fs1, b) {
            Err(e) => {}
            Ok((fs2, Some(f))) => { block_local(fs.ps, d, t); front_shorter(d, rest, t); }
            Ok((fs2, None)) => {
                frame_local(fs2, rest, t);
                let m = front(rest, n.rest) + t;
                block_local(fs.ps, d, m);
                tail_trans(d, rest, n.rest, t);
                front_shorter(d, rest, m);
            }
        }
    }
}
proof fn front_shorter(d: Seq<u8>, rest: Seq<u8>, t: Seq<u8>)
    requires rest.len() < d.len(),
    ensures t.len() < (front(d, rest) + t).len(),
{}
pub proof fn pre_local(fs: FS, d: Seq<u8>, t: Seq<u8>)
    requires fs_ok(fs), fs.pre is Some, pre_run(fs, d).r is Ok,
    ensures
        is_tail(d, pre_run(fs, d).rest),
        pre_run(fs, front(d, pre_run(fs, d).rest) + t) == (PreRes { rest: t, ..pre_run(fs, d) }),
    decreases d.len()
{
    hide(parse); hide(fs_ok);
    let n = pre_run(fs, d);
    block_ok(fs, d);
    if let Some(Ok((fs1, b, rest))) = next_block(fs, d) {
        match handle(fs1, b) {
            Err(e) => {}
            Ok((fs2, _)) => {
                if in_frame(fs2) { block_local(fs.ps, d, t); }
                else {
                    pre_local(fs2, rest, t);
                    let m = front(rest, n.rest) + t;
                    block_local(fs.ps, d, m);
                    tail_trans(d, rest, n.rest, t);
                    front_shorter(d, rest, m);
                }
            }
        }
    }
}
/// a step depends on the bytes up to its end alone
pub proof fn step_local(ss: SS, d: Seq<u8>, t: Seq<u8>)
    requires ss_ok(ss), step_next(ss, d).item matches Some(Ok(_)),
    ensures
        is_tail(d, step_next(ss, d).rest),
        step_next(ss, front(d, step_next(ss, d).rest) + t) == (StepRes { rest: t, ..step_next(ss, d) }),
{
    hide(frame_next); hide(pre_run); hide(apply);
    let o = open(ss, d);
    let s = o.r->Ok_0;
    open_ok(ss, d);
    let n = frame_next(s.fs, o.rest);
    frame_local(s.fs, o.rest, t);
    let m = front(o.rest, n.rest) + t;
    if ss.canvas is Some || in_frame(ss.fs) {
    } else {
        let f = FS { pre: Some(preamble_default()), ..ss.fs };
        assert(fs_ok(f));
        pre_local(f, d, m);
        tail_trans(d, o.rest, n.rest, t);
    }
}
/// the first k steps
pub open spec fn steps_n(ss: SS, d: Seq<u8>, k: nat) -> Option<(Seq<StepV>, SS, Seq<u8>)>
    decreases k
{
    if k == 0 { Some((Seq::empty(), ss, d)) }
    else {
        let n = step_next(ss, d);
        match n.item {
            Some(Ok(s)) => match steps_n(n.ss, n.rest, (k - 1) as nat) {
                Some((a, ss2, rest)) => Some((seq![s] + a, ss2, rest)),
                None => None,
            },
            _ => None,
        }
    }
}
/// whatever stands behind them, the first k steps are the same
pub proof fn steps_local(ss: SS, d: Seq<u8>, k: nat, t: Seq<u8>)
    requires ss_ok(ss), steps_n(ss, d, k) is Some,
    ensures ({
        let (a, ss2, rest) = steps_n(ss, d, k)->Some_0;
        is_tail(d, rest) && steps_n(ss, front(d, rest) + t, k) == Some((a, ss2, t))
    }),
    decreases k
{
    hide(step_next);
    if k == 0 {
        assert(front(d, d) + t =~= t);
        assert(d.skip(0) =~= d);
    } else {
        let n = step_next(ss, d);
        let (a, ss2, rest) = steps_n(n.ss, n.rest, (k - 1) as nat)->Some_0;
        step_next_ok(ss, d);
        steps_local(n.ss, n.rest, (k - 1) as nat, t);
        step_local(ss, d, front(n.rest, rest) + t);
        tail_trans(d, n.rest, rest, t);
    }
}
/// nothing follows an error: the iterator stays at its end
pub proof fn after_error(ss: SS, d: Seq<u8>, d2: Seq<u8>)
    requires step_next(ss, d).item matches Some(Err(_)),
    ensures step_next(step_next(ss, d).ss, d2) == (StepRes { item: None, ss: step_next(ss, d).ss, rest: d2 }),
{
    hide(frame_next); hide(pre_run); hide(apply);
}
/// with looping: each decoded step once, the error, the end
pub proof fn looping_error(steps: Seq<StepV>, e: EV, count: Option<u16>, i: nat)
    ensures ({
        let l = LS { steps, err: Some(e), count, n: 0 };
        ls_next(ls_iter(l, i)).0 == if i < steps.len() { Some(Ok(steps[i as int])) } else if i == steps.len() { Some(Err(e)) } else { None }
    }),
{
    looping_items(LS { steps, err: Some(e), count, n: 0 }, i);
}
}
}

/// C14: the loop count is stored and reported
pub mod c14 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
verus! {
/// bytes of the block, as used by all GIF readers
pub open spec fn netscape_bytes(n: u16) -> Seq<u8> {
    seq![0x21u8, 0xFF, 11, 0x4E, 0x45, 0x54, 0x53, 0x43, 0x41, 0x50, 0x45, 0x32, 0x2E, 0x30, 3, 1, (n % 256) as u8, (n / 256) as u8, 0]
}
pub proof fn loop_bytes(n: u16, out: Seq<u8>)
    requires enc_rel(BV::App(loop_block(n)), out),
    ensures out == netscape_bytes(n),
{
    let s = loop_block(n);
    crate::subtheory::subs_front(s);
    crate::subtheory::subs_front(s.skip(1));
    assert(s.skip(1).skip(1) =~= Seq::empty());
    assert(s.skip(1)[0] == s[1]);
    assert(out =~= netscape_bytes(n));
}
/// what Application::with_loop_count builds reports its count, and again after it was written and read
pub proof fn loop_count_kept(ps: PS, n: u16, out: Seq<u8>, tail: Seq<u8>)
    requires ps.next is Any, enc_rel(BV::App(loop_block(n)), out),
    ensures
        loop_of(loop_block(n)) == Some(n),
        parse(ps, out + tail) matches Ok(p) && p.rest == tail && p.b == BV::App(loop_block(n)),
{
    loop_count_round_trip(n);
    assert(subs_ok(loop_block(n)));
    crate::c05::round_trip(ps, BV::App(loop_block(n)), out, tail);
}
/// number of steps when iterating with looping
pub proof fn passes(steps: Seq<StepV>, count: Option<u16>, i: nat)
    requires steps.len() > 0,
    ensures ({
        let l = LS { steps, err: None, count, n: 0 };
        let r = ls_next(ls_iter(l, i)).0;
        match count {
            None => r == if i < steps.len() { Some(Ok(steps[i as int])) } else { None },
            Some(c) => r == if c == 0 || i < steps.len() * (c + 1) { Some(Ok(steps[i as int % steps.len() as int])) } else { None },
        }
    }),
{
    looping_items(LS { steps, err: None, count, n: 0 }, i);
}
}
}

/// C03: image data for any reader
pub mod c03 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
verus! {
/// the codes of a stream which a reader reads one after the other
pub open spec fn codes(st: LzState, bs: Seq<bool>) -> Seq<nat>
    decreases bs.len()
{
    if st.ended || st.w == 0 || bs.len() < st.w { Seq::empty() }
    else {
        let c = val(bs.take(st.w as int));
        match lz_code(st, c) { None => seq![c], Some((t, _)) => seq![c] + codes(t, bs.skip(st.w as int)) }
    }
}
/// reader states before each of them
pub open spec fn states(st: LzState, bs: Seq<bool>) -> Seq<LzState>
    decreases bs.len()
{
    if st.ended || st.w == 0 || bs.len() < st.w { Seq::empty() }
    else {
        match lz_code(st, val(bs.take(st.w as int))) { None => seq![st], Some((t, _)) => seq![st] + states(t, bs.skip(st.w as int)) }
    }
}
proof fn all_defined(st: LzState, bs: Seq<bool>)
    requires lz_run(st, bs).ok,
    ensures
        codes(st, bs).len() == states(st, bs).len(),
        forall|i: int| 0 <= i < codes(st, bs).len() ==> lz_code(#[trigger] states(st, bs)[i], codes(st, bs)[i]) is Some,
    decreases bs.len()
{
    if !(st.ended || st.w == 0 || bs.len() < st.w) {
        let c = val(bs.take(st.w as int));
        if let Some((t, o)) = lz_code(st, c) {
            all_defined(t, bs.skip(st.w as int));
            let (cs, ss) = (codes(t, bs.skip(st.w as int)), states(t, bs.skip(st.w as int)));
            assert forall|i: int| 0 <= i < codes(st, bs).len() implies lz_code(#[trigger] states(st, bs)[i], codes(st, bs)[i]) is Some by {
                if i > 0 { assert(lz_code(ss[i - 1], cs[i - 1]) is Some); }
            }
        }
    }
}
/// what the block encoder writes for pixels `x`
pub proof fn well_formed(x: Seq<u8>, out: Seq<u8>) -> (parts: Seq<Seq<u8>>)
    requires enc_rel(BV::Data(x), out),
    ensures ({
        let min = out[0] as nat;
        let bs = bb(flat(parts));
        &&& 2 <= min <= 8
        &&& forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) < p2(min)
        &&& out == seq![out[0]] + subs(parts) + seq![0u8]
        &&& forall|i: int| 0 <= i < parts.len() ==> 1 <= (#[trigger] parts[i]).len() <= 255
        &&& codes(lz_init(min), bs).len() > 0 && codes(lz_init(min), bs)[0] == p2(min)
        &&& codes(lz_init(min), bs).len() == states(lz_init(min), bs).len()
        &&& forall|i: int| 0 <= i < codes(lz_init(min), bs).len() ==> lz_code(#[trigger] states(lz_init(min), bs)[i], codes(lz_init(min), bs)[i]) is Some
        &&& lz_run(lz_init(min), bs).out == x
    }),
{
    let (m, p) = choose|min: u8, p: Seq<Seq<u8>>| data_rel_with(x, out, min, p);
    let min = m as nat;
    let bs = bb(flat(p));
    assert(out[0] == m);
    all_defined(lz_init(min), bs);
    let c = bits(p2(min), min + 1);
    p2_mono(min, min + 1);
    p2_vals();
    val_bits(p2(min), min + 1);
    bits_len(p2(min), min + 1);
    assert(c =~= bs.take(c.len() as int));
    assert(p2(min) < p2(min + 1));
    p
}
}
}

/// C04: iterations end
pub mod c04 {
use vstd::prelude::*;
use crate::block::*;
use crate::parsespec::*;
use crate::stepspec::*;
use crate::c05::parse_n;
use crate::c15::steps_n;
verus! {
/// no more blocks than bytes
pub proof fn blocks_end(ps: PS, d: Seq<u8>, n: nat)
    requires ps_wf(ps), parse_n(ps, d, n) is Ok,
    ensures n <= d.len(),
    decreases n
{
    hide(parse);
    if n > 0 {
        parse_wf(ps, d);
        let p = parse(ps, d)->Ok_0;
        blocks_end(p.ps, p.rest, (n - 1) as nat);
    }
}
/// n frames can be read
pub open spec fn frames_n(fs: FS, d: Seq<u8>, n: nat) -> bool
    decreases n
{
    n == 0 || (frame_next(fs, d).item matches Some(Ok(f)) && frames_n(frame_next(fs, d).fs, frame_next(fs, d).rest, (n - 1) as nat))
}
pub proof fn frames_end(fs: FS, d: Seq<u8>, n: nat)
    requires fs_ok(fs), frames_n(fs, d, n),
    ensures n <= d.len(),
    decreases n
{
    hide(frame_next); hide(fs_ok);
    if n > 0 {
        frame_next_ok(fs, d);
        frames_end(frame_next(fs, d).fs, frame_next(fs, d).rest, (n - 1) as nat);
    }
}
pub proof fn steps_end(ss: SS, d: Seq<u8>, n: nat)
    requires ss_ok(ss), steps_n(ss, d, n) is Some,
    ensures n <= d.len(),
    decreases n
{
    hide(step_next); hide(ss_ok);
    if n > 0 {
        step_next_ok(ss, d);
        steps_end(step_next(ss, d).ss, step_next(ss, d).rest, (n - 1) as nat);
    }
}
}
}

/// C06: grammar of the blocks of a file
pub mod c06 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::c05::{parse_n, keeps, with_subs, kept};
verus! {
pub open spec fn announced(flags: u8) -> bool { flags & 0x80 != 0 }
/// bytes of the announced table
pub open spec fn announced_bytes(flags: u8) -> nat { 3 * p2((flags & 7) as nat + 1) }
pub open spec fn is_ext(b: BV) -> bool { b is PlainText || b is Gce || b is Comment || b is App || b is Unknown }
/// what may stand behind a block
pub open spec fn follows(a: BV, b: BV) -> bool {
    match a {
        BV::Header(_) => b is Lsd,
        BV::Lsd(x) if announced(x.flags) => b matches BV::Gct(c) && c.len() == announced_bytes(x.flags),
        BV::Desc(x) => if announced(x.flags) { b matches BV::Lct(c) && c.len() == announced_bytes(x.flags) } else { b is Data },
        BV::Lct(_) => b is Data,
        BV::Trailer => b is Header,
        _ => is_ext(b) || b is Desc || b is Trailer,
    }
}
/// a block of the kind which is expected
pub open spec fn fits(n: Next, b: BV) -> bool {
    match n {
        Next::Header => b matches BV::Header(v) && (v == gif87a() || v == gif89a()),
        Next::Lsd => b is Lsd,
        Next::Gct(k) => b matches BV::Gct(c) && c.len() == k,
        Next::Lct(k) => b matches BV::Lct(c) && c.len() == k,
        Next::Data => b is Data,
        Next::Any => is_ext(b) || b is Desc || b is Trailer,
    }
}
proof fn same_kind(b: BV, lz: Lz, d: Seq<u8>)
    requires has_subs(b), subs_run(b, lz, d) is Ok,
    ensures ({
        let r = subs_run(b, lz, d)->Ok_0.b;
        &&& b is Data <==> r is Data
        &&& is_ext(b) <==> is_ext(r)
        &&& after(r) == after(b)
    }),
    decreases d.len()
{
    match sub_step(b, lz, d) {
        Sub::More { b: b1, lz, rest } => { same_kind(b1, lz, rest); }
        _ => {}
    }
}
proof fn one_block(ps: PS, d: Seq<u8>)
    requires parse(ps, d) is Ok,
    ensures fits(ps.next, parse(ps, d)->Ok_0.b), parse(ps, d)->Ok_0.ps.next == after(parse(ps, d)->Ok_0.b),
{
    let h = head(ps, d)->Ok_0;
    if has_subs(h.b) { same_kind(h.b, h.lz, h.rest); }
}
proof fn fits_follows(a: BV, b: BV)
    requires fits(after(a), b),
    ensures follows(a, b),
{
    match a {
        BV::Lsd(x) => { flag_size(x.flags); }
        BV::Desc(x) => { flag_size(x.flags); }
        _ => {}
    }
}
/// the blocks which are accepted: a header with a known version, and each block is one which may stand behind the block before it
pub proof fn grammar(ps: PS, d: Seq<u8>, n: nat)
    requires parse_n(ps, d, n) is Ok,
    ensures ({
        let bs = parse_n(ps, d, n)->Ok_0.0;
        &&& bs.len() == n
        &&& n > 0 ==> fits(ps.next, bs[0])
        &&& forall|i: int| 0 < i < n ==> follows(bs[i - 1], #[trigger] bs[i])
    }),
    decreases n
{
    hide(parse); hide(fits); hide(follows); hide(after);
    if n > 0 {
        let p = parse(ps, d)->Ok_0;
        let m = (n - 1) as nat;
        one_block(ps, d);
        grammar(p.ps, p.rest, m);
        let t = parse_n(p.ps, p.rest, m)->Ok_0.0;
        let bs = parse_n(ps, d, n)->Ok_0.0;
        assert(bs == seq![p.b] + t);
        assert forall|i: int| 0 < i < n implies follows(bs[i - 1], #[trigger] bs[i]) by {
            if i == 1 { fits_follows(p.b, t[0]); } else { assert(follows(t[i - 2], t[i - 1])); }
        }
    }
}
/// 16 bits, little-endian
pub open spec fn le(d: Seq<u8>, i: int) -> int { d[i] + 256 * d[i + 1] }
/// fixed parts of blocks, byte by byte
pub proof fn fields(ps: PS, d: Seq<u8>)
    ensures
        ps.next is Header && d.len() >= 6 && d[0] == 0x47 && d[1] == 0x49 && d[2] == 0x46 && d[3] == 0x38 && (d[4] == 0x37 || d[4] == 0x39) && d[5] == 0x61
            ==> (parse(ps, d) matches Ok(p) && p.b == BV::Header(d.subrange(3, 6)) && p.rest == d.skip(6)),
        ps.next is Lsd && d.len() >= 7 ==> (parse(ps, d) matches Ok(p) && (p.b matches BV::Lsd(x) && x.screen_width == le(d, 0) && x.screen_height == le(d, 2)
            && x.flags == d[4] && x.background_color_idx == d[5] && x.pixel_aspect_ratio == d[6]) && p.rest == d.skip(7)),
        (ps.next matches Next::Gct(n) && d.len() >= n) ==> (parse(ps, d) matches Ok(p) && p.b == BV::Gct(d.take(ps.next->Gct_0 as int)) && p.rest == d.skip(ps.next->Gct_0 as int)),
        (ps.next matches Next::Lct(n) && d.len() >= n) ==> (parse(ps, d) matches Ok(p) && p.b == BV::Lct(d.take(ps.next->Lct_0 as int)) && p.rest == d.skip(ps.next->Lct_0 as int)),
        ps.next is Any && d.len() >= 10 && d[0] == 0x2C && (ps.max is None || le(d, 5) * le(d, 7) <= ps.max->Some_0)
            ==> (parse(ps, d) matches Ok(p) && (p.b matches BV::Desc(x) && x.left == le(d, 1) && x.top == le(d, 3) && x.width == le(d, 5) && x.height == le(d, 7)
                && x.flags == d[9]) && p.rest == d.skip(10)),
        ps.next is Any && d.len() >= 1 && d[0] == 0x3B ==> (parse(ps, d) matches Ok(p) && p.b is Trailer && p.rest == d.skip(1)),
{
    if ps.next is Header && d.len() >= 6 {
        if d[0] == 0x47 && d[1] == 0x49 && d[2] == 0x46 { assert(d.take(3) =~= seq![0x47u8, 0x49, 0x46]); }
        if d[3] == 0x38 && d[4] == 0x37 && d[5] == 0x61 { assert(d.subrange(3, 6) =~= gif87a()); }
        if d[3] == 0x38 && d[4] == 0x39 && d[5] == 0x61 { assert(d.subrange(3, 6) =~= gif89a()); }
    }
    if ps.next is Any && d.len() >= 10 && d[0] == 0x2C {
        let e = d.skip(1);
        assert(e.skip(9) =~= d.skip(10));
        assert(desc_at(e) == (ImageDesc { left: u16_at(d, 1), top: u16_at(d, 3), width: u16_at(d, 5), height: u16_at(d, 7), flags: d[9] }));
    }
}
/// an extension is kept with its sub-blocks, an unknown one also with its identifier; the sub-block of a graphic control is read
pub proof fn extensions(ps: PS, d: Seq<u8>, id: u8, s: Seq<Seq<u8>>, tail: Seq<u8>)
    requires ps.next is Any, subs_ok(s), d == seq![0x21u8, id] + subs(s) + seq![0u8] + tail,
    ensures
        id == 0x01 ==> (parse(ps, d) matches Ok(p) && p.b == BV::PlainText(s) && p.rest == tail),
        id == 0xFE ==> (parse(ps, d) matches Ok(p) && p.b == BV::Comment(s) && p.rest == tail),
        id == 0xFF ==> (parse(ps, d) matches Ok(p) && p.b == BV::App(s) && p.rest == tail),
        id != 0x01 && id != 0xFE && id != 0xFF && id != 0xF9 ==> (parse(ps, d) matches Ok(p) && p.b == BV::Unknown(seq![seq![id]] + s) && p.rest == tail),
        id == 0xF9 && s.len() == 1 && s[0].len() == 4 ==> (parse(ps, d) matches Ok(p) && (p.b matches BV::Gce(g) && g.flags == s[0][0] && g.delay_time_cs == le(s[0], 1)
            && g.transparent_color_idx == s[0][3]) && p.rest == tail),
        id == 0xF9 && s.len() > 0 && s[0].len() != 4 ==> parse(ps, d) == Err::<Parsed, EV>(EV::Gce),
{
    let e = Seq::<Seq<u8>>::empty();
    assert(d[0] == 0x21 && d.skip(1)[0] == id);
    assert(d.skip(1).skip(1) =~= subs(s) + seq![0u8] + tail);
    assert(e + s =~= s);
    let b = ext_block(id);
    if id != 0xF9 { kept(b, no_lz(), s, tail); }
    else if s.len() > 0 {
        crate::subtheory::sub_first(b, no_lz(), s, tail);
        if s.len() == 1 && s[0].len() == 4 {
            assert(s.skip(1) =~= e);
            let b1 = one_sub(b, no_lz(), s[0])->Ok_0.0;
            crate::subtheory::sub_last(b1, no_lz(), tail);
            let rest = subs(e) + seq![0u8] + tail;
            assert(sub_step(b, no_lz(), subs(s) + seq![0u8] + tail) == Sub::More { b: b1, lz: no_lz(), rest });
            assert(subs_run(b1, no_lz(), rest) == Ok::<Done, EV>(Done { b: b1, rest: tail }));
        }
    }
}
/// what is rejected, and how
pub proof fn rejected(ps: PS, d: Seq<u8>)
    ensures
        ps.next is Any && d.len() > 0 && d[0] != 0x21 && d[0] != 0x2C && d[0] != 0x3B ==> parse(ps, d) == Err::<Parsed, EV>(EV::Code),
        ps.next is Header && d.len() >= 6 && !(d[0] == 0x47 && d[1] == 0x49 && d[2] == 0x46) ==> parse(ps, d) == Err::<Parsed, EV>(EV::Header),
        ps.next is Header && d.len() >= 6 && d[0] == 0x47 && d[1] == 0x49 && d[2] == 0x46 && !(d[3] == 0x38 && (d[4] == 0x37 || d[4] == 0x39) && d[5] == 0x61)
            ==> parse(ps, d) == Err::<Parsed, EV>(EV::Version(seq![d[3], d[4], d[5]])),
{
    if ps.next is Header && d.len() >= 6 {
        let a = d.take(3);
        let b = d.subrange(3, 6);
        assert(a[0] == d[0] && a[1] == d[1] && a[2] == d[2]);
        assert(b[0] == d[3] && b[1] == d[4] && b[2] == d[5]);
        assert(b =~= seq![d[3], d[4], d[5]]);
        let g = seq![0x47u8, 0x49, 0x46];
        assert(g[0] == 0x47 && g[1] == 0x49 && g[2] == 0x46);
        if d[0] == 0x47 && d[1] == 0x49 && d[2] == 0x46 { assert(a =~= g); }
        assert(gif87a()[0] == 0x38 && gif87a()[1] == 0x37 && gif87a()[2] == 0x61);
        assert(gif89a()[0] == 0x38 && gif89a()[1] == 0x39 && gif89a()[2] == 0x61);
    }
}
proof fn head_cut(ps: PS, d: Seq<u8>, k: int)
    requires head(ps, d) is Ok, 0 <= k < d.len() - head(ps, d)->Ok_0.rest.len(),
    ensures head(ps, d.take(k)) == Err::<Head, EV>(EV::Eof),
{
    let e = d.take(k);
    if ps.next is Any && k > 0 {
        assert(e[0] == d[0]);
        assert(e.skip(1).len() == k - 1);
    }
}
proof fn subs_cut(b: BV, lz: Lz, d: Seq<u8>, k: int)
    requires subs_run(b, lz, d) is Ok, 0 <= k < d.len() - subs_run(b, lz, d)->Ok_0.rest.len(),
    ensures subs_run(b, lz, d.take(k)) == Err::<Done, EV>(EV::Eof),
    decreases d.len()
{
    let e = d.take(k);
    match sub_step(b, lz, d) {
        Sub::More { b: b1, lz: lz1, rest } => {
            let n = 1 + d[0] as int;
            if k > 0 { assert(e[0] == d[0]); }
            if k >= n {
                subs_cut(b1, lz1, rest, k - n);
                assert(e.subrange(1, n) =~= d.subrange(1, n));
                assert(e.skip(n) =~= rest.take(k - n));
            }
        }
        _ => {}
    }
}
/// a file which ends inside a block
pub proof fn truncated(ps: PS, d: Seq<u8>, k: int)
    requires parse(ps, d) is Ok, 0 <= k < d.len() - parse(ps, d)->Ok_0.rest.len(),
    ensures parse(ps, d.take(k)) == Err::<Parsed, EV>(EV::Eof),
{
    hide(head); hide(subs_run);
    let h = head(ps, d)->Ok_0;
    let n = d.len() - h.rest.len();
    if k < n { head_cut(ps, d, k); }
    else {
        crate::c15::head_n(ps, d, h.rest.take(k - n));
        assert(d.take(k) =~= d.take(n) + h.rest.take(k - n));
        subs_cut(h.b, h.lz, h.rest, k - n);
    }
}
}
}

/// C07: only the bytes matter
pub mod c07 {
use vstd::prelude::*;
use std::io::Read;
use crate::block::*;
use crate::parsespec::*;
use crate::stepspec::*;
use crate::iospec::*;
use crate::decode::{Blocks, Frames, parse_post, frame_post};
verus! {
/// Two readers which deliver the same bytes in different pieces, and do not fail, give the same block or error and are left with the same bytes
pub proof fn same_block<R: Read, S: Read>(a: Blocks<R>, b: Blocks<R>, r: crate::error::Result<Block>, c: Blocks<S>, d: Blocks<S>, q: crate::error::Result<Block>)
    requires
        parse_post(a, b, r), parse_post(c, d, q), a.ps() == c.ps(), rd(&a.reader).data == rd(&c.reader).data,
        rd(&b.reader).errs == rd(&a.reader).errs, rd(&d.reader).errs == rd(&c.reader).errs,
    ensures
        r is Ok <==> q is Ok,
        r is Ok ==> r->Ok_0.v() == q->Ok_0.v() && b.ps() == d.ps() && rd(&b.reader).data == rd(&d.reader).data,
        r is Err ==> ev(r->Err_0) == ev(q->Err_0),
{
    hide(parse);
    no_fail(a, b); no_fail(c, d);
}
proof fn no_fail<R: Read>(a: Blocks<R>, b: Blocks<R>)
    ensures rd(&b.reader).errs == rd(&a.reader).errs ==> forall|e: std::io::Error| rd(&b.reader).errs != #[trigger] rd(&a.reader).errs.push(e),
{
    if rd(&b.reader).errs == rd(&a.reader).errs {
        assert forall|e: std::io::Error| rd(&b.reader).errs != #[trigger] rd(&a.reader).errs.push(e) by {
            assert(rd(&a.reader).errs.push(e).len() != rd(&a.reader).errs.len());
        }
    }
}
pub proof fn same_frame<R: Read, S: Read>(a: Frames<R>, b: Frames<R>, r: Option<crate::error::Result<Frame>>, c: Frames<S>, d: Frames<S>, q: Option<crate::error::Result<Frame>>)
    requires
        frame_post(a, b, r), frame_post(c, d, q), a.fs() == c.fs(), rd(&a.blocks.reader).data == rd(&c.blocks.reader).data,
        rd(&b.blocks.reader).errs == rd(&a.blocks.reader).errs, rd(&d.blocks.reader).errs == rd(&c.blocks.reader).errs,
    ensures
        r is None <==> q is None,
        r matches Some(Ok(f)) ==> (q matches Some(Ok(g)) && f.v() == g.v()) && b.fs() == d.fs() && rd(&b.blocks.reader).data == rd(&d.blocks.reader).data,
        r matches Some(Err(e)) ==> (q matches Some(Err(x)) && ev(e) == ev(x)),
{
    hide(frame_next);
    no_fail(a.blocks, b.blocks); no_fail(c.blocks, d.blocks);
}
/// a reader's own error is what the caller gets
pub proof fn own_error<R: Read>(a: Blocks<R>, b: Blocks<R>, r: crate::error::Result<Block>)
    requires parse_post(a, b, r), rd(&b.reader).errs != rd(&a.reader).errs,
    ensures r matches Err(crate::error::Error::Io(e)) && rd(&b.reader).errs == rd(&a.reader).errs.push(e),
{
    hide(parse);
}
}
}

/// C08: size of image data
pub mod c08 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
verus! {
/// image data has the announced size
pub proof fn exact(ps: PS, d: Seq<u8>)
    requires parse(ps, d) matches Ok(p) && p.b is Data,
    ensures parse(ps, d) matches Ok(p) && (p.b matches BV::Data(x) && x.len() == ps.sz),
{
    parse_kind(ps, d);
}
/// an image descriptor sets the size, and is rejected exactly when it is over the limit
pub proof fn limit(ps: PS, d: Seq<u8>)
    requires ps.next is Any, d.len() >= 10, d[0] == 0x2C,
    ensures ({
        let w = un16(d[5], d[6]) as nat;
        let h = un16(d[7], d[8]) as nat;
        if ps.max matches Some(m) && w * h > m { parse(ps, d) == Err::<Parsed, EV>(EV::TooLarge) }
        else { parse(ps, d) matches Ok(p) && (p.b matches BV::Desc(x) && x.width == w && x.height == h) && p.ps.sz == w * h && p.ps.max == ps.max && p.rest == d.skip(10) }
    }),
{
    assert(d.skip(1).skip(9) =~= d.skip(10));
}
}
}

/// C09: order of calls on a frame encoder
pub mod c09 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::iospec::*;
use crate::encode::{FrameEnc, preamble_call, frame_call, trailer_call};
verus! {
pub ghost enum Call { Preamble(PreV), Frame(FrameV), Trailer }
pub open spec fn call<W: std::io::Write>(a: FrameEnc<W>, b: FrameEnc<W>, c: Call, r: crate::error::Result<()>) -> bool {
    match c { Call::Preamble(p) => preamble_call(a, b, p, r), Call::Frame(f) => frame_call(a, b, f, r), Call::Trailer => trailer_call(a, b, r) }
}
pub open spec fn blocks_of(c: Call) -> Seq<BV> { match c { Call::Preamble(p) => pre_blocks(p), Call::Frame(f) => frame_blocks(f), Call::Trailer => seq![BV::Trailer] } }
/// what may follow the accepted calls `cs`: preamble, frames, trailer
pub open spec fn in_order(cs: Seq<Call>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> match #[trigger] cs[i] { Call::Preamble(_) => i == 0, Call::Frame(_) => i > 0, Call::Trailer => i > 0 && i == cs.len() - 1 }
}
pub open spec fn blocks_all(cs: Seq<Call>) -> Seq<BV>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { blocks_all(cs.drop_last()) + blocks_of(cs.last()) }
}
/// calls on a new frame encoder, with a writer which does not fail
pub open spec fn calls<W: std::io::Write>(es: Seq<FrameEnc<W>>, cs: Seq<Call>, rs: Seq<crate::error::Result<()>>) -> bool {
    &&& es.len() == cs.len() + 1 && rs.len() == cs.len()
    &&& !es[0].has_preamble && !es[0].has_trailer
    &&& forall|i: int| 0 <= i < cs.len() ==> call(#[trigger] es[i], es[i + 1], cs[i], rs[i]) && wr(&es[i + 1].block_enc.writer).errs == wr(&es[i].block_enc.writer).errs
}
/// the accepted ones of the first n calls
pub open spec fn accepted(cs: Seq<Call>, n: int) -> Seq<Call>
    decreases n
{
    if n <= 0 { Seq::empty() } else if in_order(accepted(cs, n - 1).push(cs[n - 1])) { accepted(cs, n - 1).push(cs[n - 1]) } else { accepted(cs, n - 1) }
}
/// A call is accepted if and only if it is in order after the accepted ones, and all accepted ones are written one after the other
pub proof fn order<W: std::io::Write>(es: Seq<FrameEnc<W>>, cs: Seq<Call>, rs: Seq<crate::error::Result<()>>, n: int)
    requires calls(es, cs, rs), 0 <= n <= cs.len(),
    ensures
        ({
            let a = accepted(cs, n);
            &&& in_order(a)
            &&& es[n].has_preamble == (a.len() > 0)
            &&& es[n].has_trailer == (a.len() > 0 && a.last() is Trailer)
            &&& seq_post(blocks_all(a), wr(&es[0].block_enc.writer), wr(&es[n].block_enc.writer))
        }),
        forall|i: int| 0 <= i < n ==> if in_order(accepted(cs, i).push(cs[i])) { #[trigger] rs[i] is Ok } else { rs[i] == Err::<(), crate::error::Error>(crate::error::Error::InvalidBlockSequence) && es[i + 1] == es[i] },
    decreases n
{
    if n == 0 { seq_start(wr(&es[0].block_enc.writer)); }
    else {
        order(es, cs, rs, n - 1);
        let (a, c, r) = (accepted(cs, n - 1), cs[n - 1], rs[n - 1]);
        let (s0, s1, s2) = (wr(&es[0].block_enc.writer), wr(&es[n - 1].block_enc.writer), wr(&es[n].block_enc.writer));
        assert(call(es[n - 1], es[n], c, r));
        let b = a.push(c);
        let fits = match c { Call::Preamble(_) => a.len() == 0, _ => a.len() > 0 && !(a.last() is Trailer) };
        assert(in_order(b) == fits) by {
            assert(b[a.len() as int] == c);
            if fits {
                assert forall|i: int| 0 <= i < b.len() implies match #[trigger] b[i] { Call::Preamble(_) => i == 0, Call::Frame(_) => i > 0, Call::Trailer => i > 0 && i == b.len() - 1 } by {
                    if i < a.len() { assert(b[i] == a[i]); }
                }
            } else if a.len() > 0 && a.last() is Trailer { assert(b[a.len() - 1] is Trailer); }
        }
        if fits {
            assert(all_post(blocks_of(c), s1, s2, r));
            let y = choose|full: Seq<u8>| #[trigger] enc_seq(blocks_of(c), full) && enc_post(full, s1, s2, r);
            let x = choose|out: Seq<u8>| #[trigger] enc_seq(blocks_all(a), out) && s1.out == s0.out + out && s1.errs == s0.errs;
            enc_cat(blocks_all(a), blocks_of(c), x, y);
            assert(b.drop_last() =~= a);
            assert(s0.out + (x + y) =~= s0.out + x + y);
        }
    }
}
}
}

/// C10: frames group the right blocks
pub mod c10 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
verus! {
/// blocks since the previous image
pub open spec fn since(bs: Seq<BV>) -> Seq<BV>
    decreases bs.len()
{
    if bs.len() == 0 || bs.last() is Data { Seq::empty() } else { since(bs.drop_last()).push(bs.last()) }
}
pub open spec fn is_gce(bs: Seq<BV>, o: Option<GraphicControl>) -> bool { match o { Some(g) => bs.contains(BV::Gce(g)), None => forall|i: int| 0 <= i < bs.len() ==> !(#[trigger] bs[i] is Gce) } }
pub open spec fn is_desc(bs: Seq<BV>, o: Option<ImageDesc>) -> bool { match o { Some(g) => bs.contains(BV::Desc(g)), None => forall|i: int| 0 <= i < bs.len() ==> !(#[trigger] bs[i] is Desc) } }
pub open spec fn is_lct(bs: Seq<BV>, o: Option<Seq<u8>>) -> bool { match o { Some(g) => bs.contains(BV::Lct(g)), None => forall|i: int| 0 <= i < bs.len() ==> !(#[trigger] bs[i] is Lct) } }
/// at most one block of a kind
pub open spec fn once(bs: Seq<BV>) -> bool {
    forall|i: int, j: int| 0 <= i < j < bs.len() ==> !(#[trigger] bs[i] is Gce && #[trigger] bs[j] is Gce) && !(bs[i] is Desc && bs[j] is Desc)
}
/// the frame of the image data which follows `bs`
pub open spec fn frame_of(bs: Seq<BV>, f: FrameV, x: Seq<u8>) -> bool {
    once(since(bs)) && is_gce(since(bs), f.gce) && is_desc(since(bs), Some(f.desc)) && is_lct(since(bs), f.lct) && f.data == x
}
/// the state which the iterator has after blocks `bs`
pub open spec fn holds(fs: FS, bs: Seq<BV>) -> bool { once(since(bs)) && is_gce(since(bs), fs.gce) && is_desc(since(bs), fs.desc) && is_lct(since(bs), fs.lct) }
/// one block: kept for its own frame, or the frame ends, or the sequence is bad
pub proof fn grouped(fs: FS, bs: Seq<BV>, b: BV)
    requires holds(fs, bs),
    ensures
        match handle(fs, b) {
            Ok((t, Some(f))) => (b matches BV::Data(x) && frame_of(bs, f, x)) && holds(t, bs.push(b)) && !in_frame(t),
            Ok((t, None)) => !(b is Data) && holds(t, bs.push(b)),
            Err(e) => e is Sequence && match b {
                BV::Gce(_) => exists|i: int| 0 <= i < since(bs).len() && (since(bs)[i] is Gce || since(bs)[i] is Desc || since(bs)[i] is Lct),
                BV::Desc(_) => exists|i: int| 0 <= i < since(bs).len() && since(bs)[i] is Desc,
                BV::Data(_) => forall|i: int| 0 <= i < since(bs).len() ==> !(#[trigger] since(bs)[i] is Desc),
                _ => false,
            },
        },
        // a second graphic control before an image is rejected
        b is Gce && !is_gce(since(bs), None) ==> handle(fs, b) is Err,
{
    let s = since(bs);
    assert(bs.push(b).drop_last() =~= bs);
    let t = since(bs.push(b));
    if !(b is Data) {
        assert(t == s.push(b));
        assert(t[s.len() as int] == b);
        assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by {}
        assert forall|y: BV| s.contains(y) implies t.contains(y) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(t[k] == y); }
    }
    if let Some(g) = fs.gce { assert(s.contains(BV::Gce(g))); }
    if let Some(g) = fs.desc { assert(s.contains(BV::Desc(g))); }
    if let Some(g) = fs.lct { assert(s.contains(BV::Lct(g))); }
}
/// nothing is held at the start
pub proof fn start(fs: FS)
    requires !in_frame(fs),
    ensures holds(fs, Seq::empty()),
{
}
/// the blocks of a file up to the next frame, its end or an error
pub open spec fn blocks_to(fs: FS, d: Seq<u8>) -> Seq<BV>
    decreases d.len()
{
    match next_block(fs, d) {
        Some(Ok((fs1, b, rest))) => match handle(fs1, b) {
            Ok((fs2, None)) => if rest.len() < d.len() { seq![b] + blocks_to(fs2, rest) } else { Seq::empty() },
            _ => seq![b],
        },
        _ => Seq::empty(),
    }
}
/// a frame holds the blocks between the previous image and its own data, and nothing else
pub proof fn frame_blocks_read(fs: FS, bs: Seq<BV>, d: Seq<u8>)
    requires holds(fs, bs), fs_ok(fs),
    ensures
        frame_next(fs, d).item matches Some(Ok(f)) ==> {
            let all = bs + blocks_to(fs, d);
            &&& blocks_to(fs, d).len() > 0 && (all.last() matches BV::Data(x) && frame_of(all.drop_last(), f, x))
            &&& forall|i: int| bs.len() <= i < all.len() - 1 ==> !(#[trigger] all[i] is Data)
            &&& holds(frame_next(fs, d).fs, all) && !in_frame(frame_next(fs, d).fs)
        },
    decreases d.len()
{
    hide(parse); hide(fs_ok); hide(holds); hide(frame_of); hide(once);
    block_ok(fs, d);
    if let Some(Ok((fs1, b, rest))) = next_block(fs, d) {
        same_holds(fs, fs1, bs);
        grouped(fs1, bs, b);
        match handle(fs1, b) {
            Ok((fs2, None)) => {
                frame_blocks_read(fs2, bs.push(b), rest);
                assert(bs + (seq![b] + blocks_to(fs2, rest)) =~= bs.push(b) + blocks_to(fs2, rest));
                if frame_next(fs, d).item matches Some(Ok(f)) {
                    let all = bs + blocks_to(fs, d);
                    assert(all[bs.len() as int] == b);
                }
            }
            Ok((fs2, Some(f))) => {
                let all = bs + seq![b];
                assert(all =~= bs.push(b));
                assert(all.drop_last() =~= bs);
            }
            Err(_) => {}
        }
    }
}
proof fn same_holds(a: FS, b: FS, bs: Seq<BV>)
    requires holds(a, bs), a.gce == b.gce, a.desc == b.desc, a.lct == b.lct,
    ensures holds(b, bs),
{}
}
}

/// C11: composition of frames
pub mod c11 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
use crate::pix::rgb::SRgba8;
verus! {
pub open spec fn at(cv: Canvas, x: int, y: int) -> SRgba8 { cv.px[y * cv.w + x] }
pub open spec fn step_at(s: StepV, x: int, y: int) -> SRgba8 { s.px[y * s.w + x] }
/// the table of a frame
pub open spec fn table_of(f: FrameV, gct: Option<Seq<u8>>) -> Option<Seq<u8>> { if f.lct is Some { f.lct } else { gct } }
/// pixel (x, y) of the step and of the canvas after it
pub proof fn pixel(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>, x: int, y: int)
    requires apply(cv, f, gct) is Ok, 0 <= x < cv.w, 0 <= y < cv.h, cv.px.len() == cv.w * cv.h,
    ensures ({
        let (s, next) = apply(cv, f, gct)->Ok_0;
        let d = f.desc;
        let inside = d.left <= x < d.left + d.width && d.top <= y < d.top + d.height;
        let k = index_at(f, x - d.left, y - d.top);
        let c = table_of(f, gct)->Some_0;
        &&& s.w == cv.w && s.h == cv.h && next.w == cv.w && next.h == cv.h
        &&& s.px.len() == cv.px.len() && next.px.len() == cv.px.len()
        &&& inside ==> table_of(f, gct) is Some && 3 * k + 3 <= c.len()
        &&& step_at(s, x, y) == if inside && trans_of(f) != Some(k) { SRgba8 { r: c[3 * k], g: c[3 * k + 1], b: c[3 * k + 2], a: 255 } } else { at(cv, x, y) }
        &&& at(next, x, y) == match disposal_of(f) {
            DisposalMethod::Background => if inside { transparent() } else { step_at(s, x, y) },
            DisposalMethod::Previous => at(cv, x, y),
            _ => step_at(s, x, y),
        }
        &&& s.trans == trans_of(f) && s.delay == delay_of(f)
    }),
{
    let (w, h) = (cv.w as int, cv.h as int);
    row_bounds(w, h, y, x, 1);
    pos_of(w, y, x);
    let d = f.desc;
    if covers(d, x, y) {
        let c = table_of(f, gct)->Some_0;
        assert(row_ok(f, c, y - d.top));
        assert(in_table(c, index_at(f, x - d.left, y - d.top)));
    }
}
/// frames which cannot be drawn
pub proof fn rejected(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>)
    ensures
        f.desc.width == 0 || f.desc.height == 0 || f.desc.left + f.desc.width > cv.w || f.desc.top + f.desc.height > cv.h ==> apply(cv, f, gct) == Err::<(StepV, Canvas), EV>(EV::FrameDim),
        table_of(f, gct) is None && fits(cv, f.desc) ==> apply(cv, f, gct) == Err::<(StepV, Canvas), EV>(EV::MissingTable),
        forall|x: int, y: int| fits(cv, f.desc) && table_of(f, gct) is Some && 0 <= x < f.desc.width && 0 <= y < f.desc.height && !in_table(table_of(f, gct)->Some_0, #[trigger] index_at(f, x, y))
            ==> apply(cv, f, gct) == Err::<(StepV, Canvas), EV>(EV::ColorIndex),
{
    assert forall|x: int, y: int| fits(cv, f.desc) && table_of(f, gct) is Some && 0 <= x < f.desc.width && 0 <= y < f.desc.height && !in_table(table_of(f, gct)->Some_0, #[trigger] index_at(f, x, y))
        implies apply(cv, f, gct) == Err::<(StepV, Canvas), EV>(EV::ColorIndex) by {
        let c = table_of(f, gct)->Some_0;
        assert(!row_ok(f, c, y));
    }
}
}
}

/// C17: write errors
pub mod c17 {
use vstd::prelude::*;
use crate::block::*;
use crate::gifspec::*;
use crate::iospec::*;
verus! {
/// a call which writes `bs` (all_post is in the contract of every encoding function)
pub proof fn failed_or_all(bs: Seq<BV>, s0: WState, s1: WState, r: crate::error::Result<()>) -> (full: Seq<u8>)
    requires all_post(bs, s0, s1, r),
    ensures
        enc_seq(bs, full),
        // no failure: success, and all was written
        s1.errs == s0.errs ==> r is Ok && s1.out == s0.out + full,
        // a failure: it is returned, and a part was written
        s1.errs != s0.errs ==> (r matches Err(crate::error::Error::Io(e)) && s1.errs == s0.errs.push(e)) && s0.out.is_prefix_of(s1.out) && s1.out.is_prefix_of(s0.out + full),
{
    let full = choose|full: Seq<u8>| #[trigger] enc_seq(bs, full) && enc_post(full, s0, s1, r);
    if r is Err { assert(s1.errs =~= s0.errs.push(s1.errs.last())); }
    full
}
}
}

/// C18: settings of a step
pub mod c18 {
use vstd::prelude::*;
use crate::block::*;
use crate::private::{Step, set_disposal, set_transparent, set_delay};
verus! {
pub ghost enum Set { Disposal(DisposalMethod), Transparent(Option<u8>), Delay(Option<u16>) }
pub open spec fn set(a: Step, b: Step, s: Set) -> bool {
    match s { Set::Disposal(m) => set_disposal(a, b, m), Set::Transparent(c) => set_transparent(a, b, c), Set::Delay(d) => set_delay(a, b, d) }
}
/// a new step and the settings made on it, in order
pub open spec fn sets(ks: Seq<Step>, ss: Seq<Set>) -> bool {
    &&& ks.len() == ss.len() + 1 && ks[0].graphic_control_ext is None
    &&& forall|i: int| 0 <= i < ss.len() ==> set(#[trigger] ks[i], ks[i + 1], ss[i])
}
pub open spec fn last_trans(ss: Seq<Set>) -> Option<u8>
    decreases ss.len()
{
    if ss.len() == 0 { None } else { match ss.last() { Set::Transparent(c) => c, _ => last_trans(ss.drop_last()) } }
}
pub open spec fn last_delay(ss: Seq<Set>) -> u16
    decreases ss.len()
{
    if ss.len() == 0 { 0 } else { match ss.last() { Set::Delay(Some(d)) => d, Set::Delay(None) => 0, _ => last_delay(ss.drop_last()) } }
}
pub open spec fn last_disp(ss: Seq<Set>) -> u8
    decreases ss.len()
{
    if ss.len() == 0 { 0 } else { match ss.last() { Set::Disposal(m) => disp_bits(m), _ => last_disp(ss.drop_last()) } }
}
/// the last setting of each kind holds, nothing else is in the block, and there is none for a step with only default settings
pub proof fn last_wins(ks: Seq<Step>, ss: Seq<Set>)
    requires sets(ks, ss),
    ensures ({
        let g = ks.last().ctl();
        &&& gce_trans(g) == last_trans(ss)
        &&& g.delay_time_cs == last_delay(ss)
        &&& (g.flags >> 2) & 7 == last_disp(ss)
        &&& g.flags & !0x1Du8 == 0
        &&& g.transparent_color_idx == (match last_trans(ss) { Some(t) => t, None => 0 })
        &&& ks.last().raster == ks[0].raster
        &&& ks.last().graphic_control_ext is None <==> (last_trans(ss) is None && last_delay(ss) == 0 && last_disp(ss) == 0)
    }),
    decreases ss.len()
{
    let f0 = 0u8;
    assert(f0 & 1 == 0 && (f0 >> 2) & 7 == 0 && f0 & !0x1Du8 == 0 && 0u8 & 1 == 0 && (0u8 >> 2) & 7 == 0 && 0u8 & !0x1Du8 == 0) by (bit_vector) requires f0 == 0;
    let g = ks.last().ctl();
    if ss.len() > 0 {
        let n = ss.len() - 1;
        let (js, rs) = (ks.drop_last(), ss.drop_last());
        assert forall|i: int| 0 <= i < rs.len() implies set(#[trigger] js[i], js[i + 1], rs[i]) by { assert(set(ks[i], ks[i + 1], ss[i])); }
        last_wins(js, rs);
        assert(set(ks[n], ks[n + 1], ss[n]));
        let (a, b) = (ks[n].ctl().flags, g.flags);
        assert(a & !0x1Cu8 == b & !0x1Cu8 ==> a & 1 == b & 1 && a & !0x1Du8 == b & !0x1Du8) by (bit_vector);
        assert(a & !0x01u8 == b & !0x01u8 ==> (a >> 2) & 7 == (b >> 2) & 7 && a & !0x1Du8 == b & !0x1Du8) by (bit_vector);
    }
    let f = g.flags;
    assert(f & 1 == 0 && (f >> 2) & 7 == 0 && f & !0x1Du8 == 0 ==> f == 0) by (bit_vector);
}
}
}

/// C13: packed fields, as a user of the blocks sees them (each call is bound to the contract of the real function)
pub mod c13 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
verus! {
/// setting a field of a graphic control block
pub fn graphic_control(g: GraphicControl, m: DisposalMethod, u: bool, t: Option<u8>)
    requires disp_valid(m),
{
    let (m0, u0, t0, d0, i0) = (g.disposal_method(), g.user_input(), g.transparent_color(), g.delay_time_cs(), g.transparent_color_idx());
    let mut a = g;
    a.set_disposal_method(m);
    proof { gce_fields_independent(g.flags, a.flags); disp_bits_range(m); }
    let (x, y, z, d, i) = (a.disposal_method(), a.user_input(), a.transparent_color(), a.delay_time_cs(), a.transparent_color_idx());
    assert(x == m && y == u0 && z == t0 && d == d0 && i == i0);
    let mut a = g;
    a.set_user_input(u);
    proof { gce_fields_independent(g.flags, a.flags); }
    let (x, y, z, d, i) = (a.disposal_method(), a.user_input(), a.transparent_color(), a.delay_time_cs(), a.transparent_color_idx());
    assert(x == m0 && y == u && z == t0 && d == d0 && i == i0);
    let mut a = g;
    a.set_transparent_color(t);
    proof { gce_fields_independent(g.flags, a.flags); }
    let (x, y, z, d) = (a.disposal_method(), a.user_input(), a.transparent_color(), a.delay_time_cs());
    assert(x == m0 && y == u0 && z == t && d == d0);
}
/// setting a field of an image descriptor
pub fn image_desc(g: ImageDesc, i: bool, e: ColorTableExistence, o: ColorTableOrdering, n: u16)
{
    let (l0, t0, w0, h0, i0) = (g.left(), g.top(), g.width(), g.height(), g.interlaced());
    let c0 = g.color_table_config();
    let a = g.with_interlaced(i);
    proof { desc_fields_independent(g.flags, a.flags); }
    let (l, t, w, h, x) = (a.left(), a.top(), a.width(), a.height(), a.interlaced());
    assert(l == l0 && t == t0 && w == w0 && h == h0 && x == i);
    let c = a.color_table_config();
    assert(c == c0);
    let cfg = ColorTableConfig::new(e, o, n);
    let a = g.with_color_table_config(cfg);
    proof { desc_fields_independent(g.flags, a.flags); flag_size(a.flags); }
    let (l, t, w, h, x) = (a.left(), a.top(), a.width(), a.height(), a.interlaced());
    assert(l == l0 && t == t0 && w == w0 && h == h0 && x == i0);
    let c = a.color_table_config();
    assert(c == cfg && cfg.table_len == table_size(n as nat));
}
/// setting the table of a logical screen descriptor
pub fn screen_desc(g: LogicalScreenDesc, e: ColorTableExistence, o: ColorTableOrdering, n: u16)
{
    let (w0, h0, b0, p0) = (g.screen_width(), g.screen_height(), g.background_color_idx(), g.pixel_aspect_ratio());
    let cfg = ColorTableConfig::new(e, o, n);
    let a = g.with_color_table_config(cfg);
    proof { flag_size(a.flags); }
    let (w, h, b, p, r) = (a.screen_width(), a.screen_height(), a.background_color_idx(), a.pixel_aspect_ratio(), a.color_resolution());
    assert(w == w0 && h == h0 && b == b0 && p == p0 && r == table_size(n as nat));
    let c = a.color_table_config();
    assert(c == cfg && cfg.table_len == table_size(n as nat));
}
/// the table announced for n entries
pub fn announced(e: ColorTableExistence, o: ColorTableOrdering, n: u16)
{
    let cfg = ColorTableConfig::new(e, o, n);
    let (k, b, x, y) = (cfg.len(), cfg.size_bytes(), cfg.existence(), cfg.ordering());
    assert(x == e && y == o && b == 3 * k);
    assert(e == ColorTableExistence::Present ==> smallest(n as nat, k as nat)) by { p2_vals(); smallest_size(n as nat); }
    assert(e == ColorTableExistence::Absent ==> k == 0);
}
/// the smallest power of two from 2 to 256 which holds n entries, 256 if n is larger
pub open spec fn smallest(n: nat, k: nat) -> bool {
    &&& 2 <= k <= 256 && exists|i: nat| k == #[trigger] p2(i)
    &&& n <= 256 ==> n <= k
    &&& n > 256 ==> k == 256
    &&& forall|i: nat| 2 <= #[trigger] p2(i) < k ==> p2(i) < n
}
proof fn smallest_size(n: nat)
    ensures smallest(n, table_size(n)),
{
    p2_vals();
    let k = table_size(n);
    assert(k == p2(1) || k == p2(2) || k == p2(3) || k == p2(4) || k == p2(5) || k == p2(6) || k == p2(7) || k == p2(8));
    assert forall|i: nat| 2 <= #[trigger] p2(i) < k implies p2(i) < n by {
        if i > 8 { p2_mono(8, i); }
    }
}
/// flags as the format lays them out
pub proof fn layout(f: u8)
    ensures
        gce_disp(f) == disp_of((f / 4) % 8), (f & 2 != 0) == ((f / 2) % 2 == 1), (f & 1 != 0) == (f % 2 == 1),
        existence_of(f & 0x80 != 0) == existence_of(f / 128 == 1),
        (f & 0x40 != 0) == ((f / 64) % 2 == 1), (f & 0x20 != 0) == ((f / 32) % 2 == 1), (f & 0x08 != 0) == ((f / 8) % 2 == 1),
        (f >> 4) & 7 == (f / 16) % 8, f & 7 == f % 8,
{
    assert((f & 2 != 0) == ((f / 2) % 2 == 1) && (f & 1 != 0) == (f % 2 == 1) && (f & 0x80 != 0) == (f / 128 == 1) && (f & 0x40 != 0) == ((f / 64) % 2 == 1)
        && (f & 0x20 != 0) == ((f / 32) % 2 == 1) && (f & 0x08 != 0) == ((f / 8) % 2 == 1)
        && (f >> 4) & 7 == (f / 16) % 8 && f & 7 == f % 8 && (f >> 2) & 7 == (f / 4) % 8) by (bit_vector);
}
}
}

/// C16: encoded steps decode to the same pictures
pub mod c16 {
use vstd::prelude::*;
use crate::block::*;
use crate::lzspec::*;
use crate::gifspec::*;
use crate::parsespec::*;
use crate::stepspec::*;
use crate::iospec::*;
use crate::encode::{self, step_pre, step_frame, pal_bytes, pal_cfg, used};
use crate::decode::{ss_new, sz_v};
use crate::private::fs_new;
use crate::pix::rgb::{SRgb8, SRgba8};
use crate::c05::*;
verus! {
// ---- one block after the other
proof fn enc_len(ps: PS, b: BV, out: Seq<u8>)
    requires consistent(ps, b), enc_rel(b, out), ps_wf(ps),
    ensures out.len() > 0,
{
    round_trip(ps, b, out, Seq::empty());
    parse_wf(ps, out + Seq::empty());
    assert(out + Seq::<u8>::empty() =~= out);
}
/// next block of a file
proof fn read_block(fs: FS, b: BV, out: Seq<u8>, tail: Seq<u8>)
    requires !fs.done, ps_wf(fs.ps), consistent(fs.ps, b), enc_rel(b, out),
    ensures
        next_block(fs, out + tail) == Some(Ok::<(FS, BV, Seq<u8>), EV>((FS { ps: next_ps(fs.ps, b), done: b is Trailer, ..fs }, b, tail))),
        tail.len() < (out + tail).len(), ps_wf(next_ps(fs.ps, b)),
{
    hide(parse);
    round_trip(fs.ps, b, out, tail);
    enc_len(fs.ps, b, out);
    parse_wf(fs.ps, out + tail);
}
proof fn enc_split(a: Seq<BV>, b: Seq<BV>, out: Seq<u8>) -> (r: (Seq<u8>, Seq<u8>))
    requires enc_seq(a + b, out),
    ensures out == r.0 + r.1, enc_seq(a, r.0), enc_seq(b, r.1),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        let e = Seq::<u8>::empty();
        assert(out =~= e + out);
        assert(enc_seq(a, e));
        (e, out)
    } else {
        let (x, y) = enc_front(a + b, out);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        let (u, v) = enc_split(a.skip(1), b, y);
        assert(out =~= (x + u) + v);
        enc_one(a[0], x);
        enc_cat(seq![a[0]], a.skip(1), x, u);
        assert(seq![a[0]] + a.skip(1) =~= a);
        (x + u, v)
    }
}
proof fn enc_one(b: BV, x: Seq<u8>)
    requires enc_rel(b, x),
    ensures enc_seq(seq![b], x),
{
    let e = Seq::<u8>::empty();
    assert(enc_seq(Seq::empty(), e));
    enc_push(Seq::empty(), b, e, x);
    assert(Seq::<BV>::empty().push(b) =~= seq![b]);
    assert(e + x =~= x);
}
// ---- one frame
/// a frame which the decoder accepts
pub open spec fn good_frame(max: Option<nat>, f: FrameV) -> bool {
    &&& f.data.len() == area(f.desc)
    &&& max matches Some(m) ==> area(f.desc) <= m
    &&& match f.lct { Some(c) => c.len() > 0 && c.len() == table_bytes(desc_cfg(f.desc.flags)), None => table_bytes(desc_cfg(f.desc.flags)) == 0 }
}
pub open spec fn between(fs: FS) -> bool { !fs.done && fs.gce is None && fs.desc is None && fs.lct is None && fs.ps.next is Any }
pub open spec fn data_blocks(f: FrameV) -> Seq<BV> { match f.lct { Some(c) => seq![BV::Lct(c), BV::Data(f.data)], None => seq![BV::Data(f.data)] } }
pub open spec fn desc_blocks(f: FrameV) -> Seq<BV> { seq![BV::Desc(f.desc)] + data_blocks(f) }
proof fn frame_parts(f: FrameV)
    ensures frame_blocks(f) == match f.gce { Some(g) => seq![BV::Gce(g)] + desc_blocks(f), None => desc_blocks(f) },
{
    assert(frame_blocks(f) =~= match f.gce { Some(g) => seq![BV::Gce(g)] + desc_blocks(f), None => desc_blocks(f) });
}
/// state after frame `f`
pub open spec fn fs_after(fs: FS, f: FrameV) -> FS { FS { ps: PS { next: Next::Any, sz: area(f.desc), ..fs.ps }, gce: None, desc: None, lct: None, ..fs } }
pub open spec fn gives(fs: FS, d: Seq<u8>, f: FrameV, tail: Seq<u8>) -> bool {
    frame_next(fs, d) == (FrameRes { item: Some(Ok(f)), fs: fs_after(fs, f), rest: tail })
}
proof fn data_left(fs: FS, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        !fs.done, fs.gce == f.gce, fs.desc == Some(f.desc), fs.lct == f.lct, fs.ps.next is Data, fs.ps.sz == area(f.desc), f.data.len() == area(f.desc),
        enc_seq(seq![BV::Data(f.data)], out),
    ensures gives(fs, out + tail, f, tail),
{
    hide(parse); hide(enc_rel);
    let (a, e) = enc_front(seq![BV::Data(f.data)], out);
    assert(seq![BV::Data(f.data)].skip(1) =~= Seq::empty());
    assert(out =~= a);
    read_block(fs, BV::Data(f.data), out, tail);
}
proof fn table_left(fs: FS, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        !fs.done, ps_wf(fs.ps), fs.gce == f.gce, fs.desc == Some(f.desc), fs.lct is None, fs.ps.next == after(BV::Desc(f.desc)), fs.ps.sz == area(f.desc), good_frame(fs.ps.max, f),
        enc_seq(data_blocks(f), out),
    ensures gives(fs, out + tail, f, tail),
{
    hide(parse); hide(enc_rel);
    match f.lct {
        None => { data_left(fs, f, out, tail); }
        Some(c) => {
            let (a, b) = enc_front(data_blocks(f), out);
            assert(data_blocks(f).skip(1) =~= seq![BV::Data(f.data)]);
            assert(out + tail =~= a + (b + tail));
            read_block(fs, BV::Lct(c), a, b + tail);
            let fs1 = FS { ps: next_ps(fs.ps, BV::Lct(c)), done: false, lct: Some(c), ..fs };
            data_left(fs1, f, b, tail);
        }
    }
}
proof fn desc_left(fs: FS, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        !fs.done, fs.gce == f.gce, fs.desc is None, fs.lct is None, fs.ps.next is Any, good_frame(fs.ps.max, f),
        enc_seq(desc_blocks(f), out),
    ensures gives(fs, out + tail, f, tail),
{
    hide(parse); hide(enc_rel);
    let b0 = BV::Desc(f.desc);
    let (a, b) = enc_front(desc_blocks(f), out);
    assert(desc_blocks(f).skip(1) =~= data_blocks(f));
    assert(out + tail =~= a + (b + tail));
    read_block(fs, b0, a, b + tail);
    table_left(FS { ps: next_ps(fs.ps, b0), done: false, desc: Some(f.desc), ..fs }, f, b, tail);
}
proof fn frame_left(fs: FS, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires between(fs), good_frame(fs.ps.max, f), enc_seq(frame_blocks(f), out),
    ensures gives(fs, out + tail, f, tail), between(fs_after(fs, f)),
{
    hide(parse); hide(enc_rel);
    frame_parts(f);
    match f.gce {
        None => { desc_left(fs, f, out, tail); }
        Some(g) => {
            let bs = seq![BV::Gce(g)] + desc_blocks(f);
            let (a, b) = enc_front(bs, out);
            assert(bs.skip(1) =~= desc_blocks(f));
            assert(out + tail =~= a + (b + tail));
            read_block(fs, BV::Gce(g), a, b + tail);
            desc_left(FS { ps: next_ps(fs.ps, BV::Gce(g)), done: false, gce: Some(g), ..fs }, f, b, tail);
        }
    }
}
// ---- the preamble
pub open spec fn good_pre(p: PreV) -> bool {
    &&& p.header == gif87a() || p.header == gif89a()
    &&& match p.gct { Some(c) => c.len() > 0 && c.len() == table_bytes(lsd_cfg(p.lsd.flags)), None => table_bytes(lsd_cfg(p.lsd.flags)) == 0 }
    &&& p.looping matches Some(s) ==> subs_ok(s) && loop_of(s) is Some
    &&& forall|i: int| 0 <= i < p.comments.len() ==> subs_ok(#[trigger] p.comments[i])
}
/// the blocks before the first frame, and the first block of it
pub open spec fn pre_gives(fs: FS, d: Seq<u8>, p: PreV, f: FrameV, tail: Seq<u8>) -> bool {
    let n = pre_run(fs, d);
    &&& n.r == Ok::<PreV, EV>(p)
    &&& n.fs.pre is None && n.fs.ps.max == fs.ps.max
    &&& in_frame(n.fs)
    &&& frame_next(n.fs, n.rest) == (FrameRes { item: Some(Ok(f)), fs: fs_after(n.fs, f), rest: tail })
    &&& between(fs_after(n.fs, f))
}
proof fn first_frame(fs: FS, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires between(fs), fs.pre is Some, good_frame(fs.ps.max, f), enc_seq(frame_blocks(f), out),
    ensures pre_gives(fs, out + tail, fs.pre->Some_0, f, tail),
{
    hide(parse); hide(enc_rel);
    frame_parts(f);
    match f.gce {
        None => {
            let b0 = BV::Desc(f.desc);
            let (a, b) = enc_front(desc_blocks(f), out);
            assert(desc_blocks(f).skip(1) =~= data_blocks(f));
            assert(out + tail =~= a + (b + tail));
            read_block(fs, b0, a, b + tail);
            table_left(FS { ps: next_ps(fs.ps, b0), done: false, desc: Some(f.desc), pre: None, ..fs }, f, b, tail);
        }
        Some(g) => {
            let bs = seq![BV::Gce(g)] + desc_blocks(f);
            let (a, b) = enc_front(bs, out);
            assert(bs.skip(1) =~= desc_blocks(f));
            assert(out + tail =~= a + (b + tail));
            read_block(fs, BV::Gce(g), a, b + tail);
            desc_left(FS { ps: next_ps(fs.ps, BV::Gce(g)), done: false, gce: Some(g), pre: None, ..fs }, f, b, tail);
        }
    }
}
/// a block of the preamble
proof fn pre_block(fs: FS, b: BV, out: Seq<u8>, d: Seq<u8>, p: PreV, f: FrameV, tail: Seq<u8>)
    requires
        !fs.done, ps_wf(fs.ps), fs.pre is Some, !in_frame(fs), consistent(fs.ps, b), enc_rel(b, out),
        b is Header || b is Lsd || b is Gct || b is App || b is Comment,
        pre_gives(FS { ps: next_ps(fs.ps, b), pre: Some(to_pre(fs.pre->Some_0, b)), ..fs }, d, p, f, tail),
    ensures pre_gives(fs, out + d, p, f, tail),
{
    hide(parse); hide(enc_rel); hide(frame_next);
    read_block(fs, b, out, d);
}
proof fn comments_left(fs: FS, p0: PreV, c: Seq<Seq<Seq<u8>>>, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        between(fs), fs.pre == Some(p0), good_frame(fs.ps.max, f), forall|i: int| 0 <= i < c.len() ==> subs_ok(#[trigger] c[i]),
        enc_seq(Seq::new(c.len(), |i: int| BV::Comment(c[i])) + frame_blocks(f), out),
    ensures pre_gives(fs, out + tail, PreV { comments: p0.comments + c, ..p0 }, f, tail),
    decreases c.len()
{
    hide(parse); hide(enc_rel); hide(frame_next); hide(pre_run);
    let bs = Seq::new(c.len(), |i: int| BV::Comment(c[i])) + frame_blocks(f);
    if c.len() == 0 {
        assert(bs =~= frame_blocks(f));
        first_frame(fs, f, out, tail);
        assert(p0.comments + c =~= p0.comments);
    } else {
        let (a, b) = enc_front(bs, out);
        let r = c.skip(1);
        assert(bs.skip(1) =~= Seq::new(r.len(), |i: int| BV::Comment(r[i])) + frame_blocks(f));
        assert(out + tail =~= a + (b + tail));
        let p1 = PreV { comments: p0.comments.push(c[0]), ..p0 };
        let fs1 = FS { ps: next_ps(fs.ps, BV::Comment(c[0])), pre: Some(p1), ..fs };
        comments_left(fs1, p1, r, f, b, tail);
        assert(p0.comments.push(c[0]) + r =~= p0.comments + c);
        pre_block(fs, BV::Comment(c[0]), a, b + tail, PreV { comments: p0.comments + c, ..p0 }, f, tail);
    }
}
pub open spec fn comment_blocks(p: PreV) -> Seq<BV> { Seq::new(p.comments.len(), |i: int| BV::Comment(p.comments[i])) }
pub open spec fn loop_part(p: PreV, f: FrameV) -> Seq<BV> { (match p.looping { Some(s) => seq![BV::App(s)], None => Seq::empty() }) + (comment_blocks(p) + frame_blocks(f)) }
pub open spec fn gct_part(p: PreV, f: FrameV) -> Seq<BV> { (match p.gct { Some(c) => seq![BV::Gct(c)], None => Seq::empty() }) + loop_part(p, f) }
proof fn pre_parts(p: PreV, f: FrameV)
    ensures pre_blocks(p) + frame_blocks(f) == seq![BV::Header(p.header), BV::Lsd(p.lsd)] + gct_part(p, f),
{
    assert(pre_blocks(p) + frame_blocks(f) =~= seq![BV::Header(p.header), BV::Lsd(p.lsd)] + gct_part(p, f));
}
proof fn loop_left(fs: FS, p0: PreV, p: PreV, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        between(fs), fs.pre == Some(p0), p0 == (PreV { looping: None, comments: Seq::empty(), ..p }), good_pre(p), good_frame(fs.ps.max, f),
        enc_seq(loop_part(p, f), out),
    ensures pre_gives(fs, out + tail, p, f, tail),
{
    hide(parse); hide(enc_rel); hide(frame_next); hide(pre_run); hide(loop_of);
    let e = Seq::<Seq<Seq<u8>>>::empty();
    assert(e + p.comments =~= p.comments);
    match p.looping {
        None => {
            assert(loop_part(p, f) =~= comment_blocks(p) + frame_blocks(f));
            comments_left(fs, p0, p.comments, f, out, tail);
        }
        Some(s) => {
            let (a, b) = enc_front(loop_part(p, f), out);
            assert(loop_part(p, f).skip(1) =~= comment_blocks(p) + frame_blocks(f));
            assert(out + tail =~= a + (b + tail));
            let p1 = PreV { looping: Some(s), ..p0 };
            let fs1 = FS { ps: next_ps(fs.ps, BV::App(s)), pre: Some(p1), ..fs };
            comments_left(fs1, p1, p.comments, f, b, tail);
            pre_block(fs, BV::App(s), a, b + tail, p, f, tail);
        }
    }
}
proof fn gct_left(fs: FS, p0: PreV, p: PreV, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        !fs.done, !in_frame(fs), fs.ps.next == after(BV::Lsd(p.lsd)), ps_wf(fs.ps), fs.pre == Some(p0),
        p0 == (PreV { gct: None, looping: None, comments: Seq::empty(), ..p }), good_pre(p), good_frame(fs.ps.max, f),
        enc_seq(gct_part(p, f), out),
    ensures pre_gives(fs, out + tail, p, f, tail),
{
    hide(parse); hide(enc_rel); hide(frame_next); hide(pre_run); hide(loop_of);
    match p.gct {
        None => {
            assert(gct_part(p, f) =~= loop_part(p, f));
            loop_left(fs, p0, p, f, out, tail);
        }
        Some(c) => {
            let (a, b) = enc_front(gct_part(p, f), out);
            assert(gct_part(p, f).skip(1) =~= loop_part(p, f));
            assert(out + tail =~= a + (b + tail));
            let p1 = PreV { gct: Some(c), ..p0 };
            let fs1 = FS { ps: next_ps(fs.ps, BV::Gct(c)), pre: Some(p1), ..fs };
            loop_left(fs1, p1, p, f, b, tail);
            pre_block(fs, BV::Gct(c), a, b + tail, p, f, tail);
        }
    }
}
/// the preamble and the first frame of a file
pub proof fn file_start(fs: FS, p: PreV, f: FrameV, out: Seq<u8>, tail: Seq<u8>)
    requires
        !fs.done, !in_frame(fs), fs.ps.next is Header, fs.pre == Some(preamble_default()), good_pre(p), good_frame(fs.ps.max, f),
        enc_seq(pre_blocks(p) + frame_blocks(f), out),
    ensures pre_gives(fs, out + tail, p, f, tail),
{
    hide(parse); hide(enc_rel); hide(frame_next); hide(pre_run); hide(loop_of);
    pre_parts(p, f);
    let bs = seq![BV::Header(p.header), BV::Lsd(p.lsd)] + gct_part(p, f);
    let (a, b) = enc_front(bs, out);
    let cs = seq![BV::Lsd(p.lsd)] + gct_part(p, f);
    assert(bs.skip(1) =~= cs);
    let (x, y) = enc_front(cs, b);
    assert(cs.skip(1) =~= gct_part(p, f));
    assert(out + tail =~= a + (x + (y + tail)));
    let p1 = PreV { header: p.header, ..preamble_default() };
    let fs1 = FS { ps: next_ps(fs.ps, BV::Header(p.header)), pre: Some(p1), ..fs };
    let p2 = PreV { lsd: p.lsd, ..p1 };
    let fs2 = FS { ps: next_ps(fs1.ps, BV::Lsd(p.lsd)), pre: Some(p2), ..fs };
    flag_size(p.lsd.flags);
    gct_left(fs2, p2, p, f, y, tail);
    pre_block(fs1, BV::Lsd(p.lsd), x, y + tail, p, f, tail);
    pre_block(fs, BV::Header(p.header), a, x + (y + tail), p, f, tail);
}
// ---- pictures
/// what is given to the step encoder
pub ghost struct In { pub idx: Seq<u8>, pub pal: Seq<SRgb8>, pub ctl: Option<GraphicControl> }
pub open spec fn in_ok(i: In, w: nat, h: nat) -> bool { i.idx.len() == w * h && forall|j: int| 0 <= j < i.idx.len() ==> (#[trigger] i.idx[j]) < i.pal.len() }
pub open spec fn in_trans(i: In) -> Option<u8> { match i.ctl { Some(g) => gce_trans(g), None => None } }
pub open spec fn in_delay(i: In) -> u16 { match i.ctl { Some(g) => g.delay_time_cs, None => 0 } }
pub open spec fn opaque(c: SRgb8) -> SRgba8 { SRgba8 { r: c.r, g: c.g, b: c.b, a: 255 } }
/// step `s` shows picture `i`
pub open spec fn shows(s: StepV, i: In, w: nat, h: nat) -> bool {
    &&& s.w == w && s.h == h && s.px.len() == w * h
    &&& s.trans == in_trans(i) && s.delay == in_delay(i)
    &&& forall|j: int| 0 <= j < w * h && in_trans(i) != Some(i.idx[j]) ==> #[trigger] s.px[j] == opaque(i.pal[i.idx[j] as int])
}
proof fn pal_at(p: Seq<SRgb8>, k: int)
    requires 0 <= k < p.len(),
    ensures pal_bytes(p).len() == 3 * p.len(), pal_bytes(p)[3 * k] == p[k].r, pal_bytes(p)[3 * k + 1] == p[k].g, pal_bytes(p)[3 * k + 2] == p[k].b,
    decreases p.len()
{
    if p.len() == 1 { assert(pal_bytes(p.drop_last()) =~= Seq::empty()); } else { pal_at(p.drop_last(), if k < p.len() - 1 { k } else { 0 }); }
}
proof fn table_at(p: Seq<SRgb8>, k: u8)
    requires k < p.len(),
    ensures in_table(encode::table_bytes(p), k), color(encode::table_bytes(p), k) == opaque(p[k as int]),
{
    let u = used(p);
    pal_at(u, k as int);
    table_size_wf(u.len());
}
proof fn picture(cv: Canvas, f: FrameV, gct: Option<Seq<u8>>, i: In)
    requires
        cv.px.len() == cv.w * cv.h, 0 < cv.w, 0 < cv.h, in_ok(i, cv.w, cv.h),
        step_frame(f, cv.w, cv.h, i.idx, i.pal, i.ctl, gct == Some(encode::table_bytes(i.pal))),
    ensures
        apply(cv, f, gct) matches Ok((s, c)) && shows(s, i, cv.w, cv.h) && c.w == cv.w && c.h == cv.h && c.px.len() == cv.px.len(),
{
    let c = encode::table_bytes(i.pal);
    let t = match f.lct { Some(c) => Some(c), None => gct };
    assert(t == Some(c));
    let fl = f.desc.flags;
    assert(0u8 & 0x40 == 0) by (bit_vector);
    assert(0u8 & !0xA7u8 == fl & !0xA7u8 ==> fl & 0x40 == 0) by (bit_vector);
    assert(fl & 0x40 == 0);
    let (w, h) = (cv.w as int, cv.h as int);
    assert(fits(cv, f.desc));
    assert forall|y: int| 0 <= y < h implies #[trigger] row_ok(f, c, y) by {
        assert forall|x: int| 0 <= x < w implies in_table(c, #[trigger] index_at(f, x, y)) by {
            row_bounds(w, h, y, x, 1);
            assert(index_at(f, x, y) == i.idx[y * w + x]);
            table_at(i.pal, index_at(f, x, y));
        }
    }
    let px = drawn_to(cv, f, c, h);
    assert forall|j: int| 0 <= j < w * h && in_trans(i) != Some(i.idx[j]) implies #[trigger] px[j] == opaque(i.pal[i.idx[j] as int]) by {
        let (x, y) = (j % w, j / w);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, w);
        assert(w * y == y * w) by (nonlinear_arith);
        assert(0 <= x < w);
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= j < w * h, j == w * y + x, 0 <= x < w, 0 < w, 0 < h;
        assert(covers(f.desc, x, y));
        assert(index_at(f, x, y) == i.idx[j]);
        table_at(i.pal, i.idx[j]);
    }
}
// ---- the whole file
/// blocks from a frame on
pub open spec fn body(fs: Seq<FrameV>) -> Seq<BV>
    decreases fs.len()
{
    if fs.len() == 0 { seq![BV::Trailer] } else { frame_blocks(fs[0]) + body(fs.skip(1)) }
}
/// the frames which the encoder writes for the pictures
pub open spec fn frames_of(fs: Seq<FrameV>, ins: Seq<In>, w: nat, h: nat, gct: Option<Seq<u8>>) -> bool {
    &&& fs.len() == ins.len()
    &&& forall|i: int| 0 <= i < fs.len() ==> in_ok(#[trigger] ins[i], w, h)
    &&& forall|i: int| 0 <= i < fs.len() ==> step_frame(#[trigger] fs[i], w, h, ins[i].idx, ins[i].pal, ins[i].ctl, gct == Some(encode::table_bytes(ins[i].pal)))
}
pub open spec fn all_show(s: Seq<StepV>, ins: Seq<In>, w: nat, h: nat) -> bool {
    s.len() == ins.len() && forall|i: int| 0 <= i < s.len() ==> shows(#[trigger] s[i], ins[i], w, h)
}
proof fn frame_good(max: Option<nat>, f: FrameV, w: nat, h: nat, i: In, global: bool)
    requires step_frame(f, w, h, i.idx, i.pal, i.ctl, global), i.idx.len() == w * h, max matches Some(m) ==> w * h <= m,
    ensures good_frame(max, f),
{
    assert(0u8 & 0x80 == 0) by (bit_vector);
}
proof fn steps_left(ss: SS, cv: Canvas, fs: Seq<FrameV>, ins: Seq<In>, out: Seq<u8>)
    requires
        ss_ok(ss), !ss.done, between(ss.fs), ss.canvas == Some(cv), 0 < cv.w, 0 < cv.h, ss.fs.ps.max matches Some(m) ==> cv.w * cv.h <= m,
        frames_of(fs, ins, cv.w, cv.h, ss.gct), enc_seq(body(fs), out), ss.fs.pre is None,
    ensures steps_run(ss, out).err is None, all_show(steps_run(ss, out).steps, ins, cv.w, cv.h),
    decreases fs.len(), 1nat
{
    hide(parse); hide(enc_rel); hide(apply); hide(shows); hide(step_frame); hide(in_ok);
    let e = Seq::<u8>::empty();
    if fs.len() == 0 {
        let (a, b) = enc_front(body(fs), out);
        assert(body(fs).skip(1) =~= Seq::empty());
        assert(out =~= a + e);
        read_block(ss.fs, BV::Trailer, a, e);
        let fs1 = FS { ps: next_ps(ss.fs.ps, BV::Trailer), done: true, ..ss.fs };
        assert(handle(fs1, BV::Trailer) == Ok::<(FS, Option<FrameV>), EV>((fs1, None)));
        assert(next_block(fs1, e) is None);
        assert(frame_next(fs1, e).item is None);
        assert(frame_next(ss.fs, out).item is None);
        assert(step_next(ss, out).item is None);
    } else {
        let (f, i) = (fs[0], ins[0]);
        let (a, b) = enc_split(frame_blocks(f), body(fs.skip(1)), out);
        in_len(i, cv.w, cv.h);
        frame_good(ss.fs.ps.max, f, cv.w, cv.h, i, ss.gct == Some(encode::table_bytes(i.pal)));
        frame_left(ss.fs, f, a, b);
        one_step(ss, ss, cv, f, fs, ins, out, out, b);
    }
}
/// the next step, and the steps after it
proof fn one_step(ss: SS, s1: SS, cv: Canvas, f: FrameV, fs: Seq<FrameV>, ins: Seq<In>, out: Seq<u8>, mid: Seq<u8>, b: Seq<u8>)
    requires
        ss_ok(ss), !ss.done, open(ss, out) == (Opened { r: Ok(s1), rest: mid }), !s1.done, s1.canvas == Some(cv),
        0 < cv.w, 0 < cv.h, s1.fs.ps.max matches Some(m) ==> cv.w * cv.h <= m, cv.px.len() == cv.w * cv.h,
        frames_of(fs, ins, cv.w, cv.h, s1.gct), fs.len() > 0, f == fs[0], s1.fs.pre is None,
        frame_next(s1.fs, mid) == (FrameRes { item: Some(Ok(f)), fs: fs_after(s1.fs, f), rest: b }), between(fs_after(s1.fs, f)),
        enc_seq(body(fs.skip(1)), b),
    ensures steps_run(ss, out).err is None, all_show(steps_run(ss, out).steps, ins, cv.w, cv.h),
    decreases fs.len(), 0nat
{
    hide(parse); hide(enc_rel); hide(apply); hide(shows); hide(step_frame); hide(in_ok); hide(open); hide(frame_next);
    let i = ins[0];
    picture(cv, f, s1.gct, i);
    step_next_ok(ss, out);
    let n = step_next(ss, out);
    let (s, c) = apply(cv, f, s1.gct)->Ok_0;
    assert(n == (StepRes { item: Some(Ok(s)), ss: SS { fs: fs_after(s1.fs, f), canvas: Some(c), ..s1 }, rest: b }));
    steps_left(n.ss, c, fs.skip(1), ins.skip(1), b);
    assert forall|k: int| 0 <= k < ins.len() implies shows(#[trigger] steps_run(ss, out).steps[k], ins[k], cv.w, cv.h) by {
        if k > 0 { assert(shows(steps_run(n.ss, b).steps[k - 1], ins.skip(1)[k - 1], cv.w, cv.h)); }
    }
}
proof fn in_len(i: In, w: nat, h: nat)
    requires in_ok(i, w, h),
    ensures i.idx.len() == w * h,
{}
/// a file written by the step encoder is read back as the pictures it was given
pub proof fn decoded(max: Option<usize>, p: PreV, fs: Seq<FrameV>, ins: Seq<In>, w: nat, h: nat, out: Seq<u8>)
    requires
        0 < w, 0 < h, screen_ok(sz_v(max), w, h), fs.len() > 0,
        step_pre(p, w, h, ins[0].pal, p.looping), p.looping matches Some(s) ==> subs_ok(s) && loop_of(s) is Some,
        frames_of(fs, ins, w, h, p.gct), enc_seq(pre_blocks(p) + body(fs), out),
    ensures ({
        let a = steps_run(ss_new(fs_new(max)), out);
        a.err is None && all_show(a.steps, ins, w, h)
    }),
{
    hide(parse); hide(enc_rel); hide(apply); hide(shows); hide(step_frame); hide(in_ok); hide(frame_next); hide(pre_run); hide(loop_of);
    let ss = ss_new(fs_new(max));
    let (f, i) = (fs[0], ins[0]);
    let pf = pre_blocks(p) + frame_blocks(f);
    assert(pre_blocks(p) + body(fs) =~= pf + body(fs.skip(1)));
    let (a, b) = enc_split(pf, body(fs.skip(1)), out);
    in_len(i, w, h);
    frame_good(sz_v(max), f, w, h, i, p.gct == Some(encode::table_bytes(i.pal)));
    pal_table(p, w, h, i.pal);
    let f0 = FS { pre: Some(preamble_default()), ..ss.fs };
    file_start(f0, p, f, a, b);
    let n = pre_run(f0, out);
    let cv = blank(w, h);
    let s1 = SS { fs: n.fs, gct: p.gct, looping: p.looping, canvas: Some(cv), done: false };
    one_step(ss, s1, cv, f, fs, ins, out, n.rest, b);
}
proof fn pal_table(p: PreV, w: nat, h: nat, pal: Seq<SRgb8>)
    requires step_pre(p, w, h, pal, p.looping), p.looping matches Some(s) ==> subs_ok(s) && loop_of(s) is Some,
    ensures good_pre(p),
{
    hide(loop_of);
    assert(encode::table_bytes(pal).len() == table_bytes(pal_cfg(pal)));
}
// ---- the calls
/// successive calls of StepEnc::encode_indexed_raster / encode_step, all of which succeed
pub open spec fn session<W: std::io::Write>(es: Seq<encode::StepEnc<W>>, rs: Seq<crate::pix::Raster<crate::pix::gray::Gray8>>, ps: Seq<crate::pix::Palette>, cs: Seq<Option<GraphicControl>>) -> bool {
    &&& es.len() == rs.len() + 1 && ps.len() == rs.len() && cs.len() == rs.len()
    &&& es[0].preamble is None
    &&& forall|i: int| 0 <= i < rs.len() ==> encode::step_post(#[trigger] es[i], es[i + 1], &rs[i], &ps[i], cs[i], Ok(()))
}
pub open spec fn in_of(rs: Seq<crate::pix::Raster<crate::pix::gray::Gray8>>, ps: Seq<crate::pix::Palette>, cs: Seq<Option<GraphicControl>>, k: int) -> Seq<In> {
    Seq::new((rs.len() - k) as nat, |i: int| In { idx: rs[k + i].gray(), pal: ps[k + i].pal(), ctl: cs[k + i] })
}
pub open spec fn written<W: std::io::Write>(e: encode::StepEnc<W>) -> WState { wr(&e.frame_enc.block_enc.writer) }
proof fn frames_left<W: std::io::Write>(es: Seq<encode::StepEnc<W>>, rs: Seq<crate::pix::Raster<crate::pix::gray::Gray8>>, ps: Seq<crate::pix::Palette>, cs: Seq<Option<GraphicControl>>, end: WState, k: int, w: nat, h: nat, pre: Preamble) -> (r: (Seq<FrameV>, Seq<u8>))
    requires
        session(es, rs, ps, cs), 0 < k <= rs.len(), es[k].preamble == Some(pre), pre.logical_screen_desc.screen_width == w, pre.logical_screen_desc.screen_height == h,
        encode::trailer_post(written(es.last()), end), end.errs.len() <= written(es[k]).errs.len(),
        forall|i: int| 0 <= i < rs.len() ==> in_ok(#[trigger] in_of(rs, ps, cs, 0)[i], w, h),
    ensures
        frames_of(r.0, in_of(rs, ps, cs, k), w, h, gct_v(pre.global_color_table)), enc_seq(body(r.0), r.1), end.out == written(es[k]).out + r.1,
    decreases rs.len() - k
{
    hide(enc_rel); hide(step_frame); hide(in_ok);
    if k == rs.len() {
        let r = choose|r: crate::error::Result<()>| #[trigger] all_post(seq![BV::Trailer], written(es[k]), end, r);
        let full = choose|full: Seq<u8>| #[trigger] enc_seq(seq![BV::Trailer], full) && enc_post(full, written(es[k]), end, r);
        (Seq::empty(), full)
    } else {
        let (e0, e1) = (es[k], es[k + 1]);
        let global = gct_v(pre.global_color_table) == Some(encode::table_bytes(ps[k].pal()));
        assert(encode::step_post(e0, e1, &rs[k], &ps[k], cs[k], Ok(())));
        let f = choose|f: FrameV| #[trigger] all_post(frame_blocks(f), written(e0), written(e1), Ok(())) && step_frame(f, rs[k].w(), rs[k].h(), rs[k].gray(), ps[k].pal(), cs[k], global);
        let full = choose|full: Seq<u8>| #[trigger] enc_seq(frame_blocks(f), full) && enc_post(full, written(e0), written(e1), Ok(()));
        let (fs, b) = frames_left(es, rs, ps, cs, end, k + 1, w, h, pre);
        let gs = seq![f] + fs;
        assert(gs.skip(1) =~= fs);
        enc_cat(frame_blocks(f), body(fs), full, b);
        assert(end.out =~= written(e0).out + (full + b));
        let ins = in_of(rs, ps, cs, k);
        let gct = gct_v(pre.global_color_table);
        assert forall|i: int| 0 <= i < gs.len() implies in_ok(#[trigger] ins[i], w, h) by { assert(in_ok(in_of(rs, ps, cs, 0)[k + i], w, h)); }
        assert forall|i: int| 0 <= i < gs.len() implies step_frame(#[trigger] gs[i], w, h, ins[i].idx, ins[i].pal, ins[i].ctl, gct == Some(encode::table_bytes(ins[i].pal))) by {
            if i > 0 {
                let j = in_of(rs, ps, cs, k + 1)[i - 1];
                assert(step_frame(fs[i - 1], w, h, j.idx, j.pal, j.ctl, gct == Some(encode::table_bytes(j.pal))));
            }
        }
        (gs, full + b)
    }
}
/// The bytes which successful calls and the drop of the encoder write decode to the same pictures
pub proof fn pictures<W: std::io::Write>(es: Seq<encode::StepEnc<W>>, rs: Seq<crate::pix::Raster<crate::pix::gray::Gray8>>, ps: Seq<crate::pix::Palette>, cs: Seq<Option<GraphicControl>>, end: WState, max: Option<usize>, w: nat, h: nat) -> (out: Seq<u8>)
    requires
        session(es, rs, ps, cs), rs.len() > 0, 0 < w == rs[0].w(), 0 < h == rs[0].h(), screen_ok(sz_v(max), w, h),
        app_v(es[0].loop_count) matches Some(s) ==> subs_ok(s) && loop_of(s) is Some,
        forall|i: int| 0 <= i < rs.len() ==> in_ok(#[trigger] in_of(rs, ps, cs, 0)[i], w, h),
        // no write fails when the encoder is dropped
        encode::trailer_post(written(es.last()), end), end.errs == written(es[0]).errs,
    ensures
        end.out == written(es[0]).out + out,
        steps_run(ss_new(fs_new(max)), out).err is None,
        all_show(steps_run(ss_new(fs_new(max)), out).steps, in_of(rs, ps, cs, 0), w, h),
{
    hide(enc_rel); hide(step_frame); hide(in_ok); hide(loop_of);
    let (e0, e1) = (es[0], es[1]);
    assert(encode::step_post(e0, e1, &rs[0], &ps[0], cs[0], Ok(())));
    let (p, f) = choose|p: PreV, f: FrameV| #[trigger] all_post(pre_blocks(p) + frame_blocks(f), written(e0), written(e1), Ok(())) && step_pre(p, w, h, ps[0].pal(), app_v(e0.loop_count))
        && step_frame(f, w, h, rs[0].gray(), ps[0].pal(), cs[0], true) && (e1.preamble matches Some(q) ==> q.v() == p) && e1.preamble is Some;
    let a = choose|full: Seq<u8>| #[trigger] enc_seq(pre_blocks(p) + frame_blocks(f), full) && enc_post(full, written(e0), written(e1), Ok(()));
    let pre = e1.preamble->Some_0;
    let (fs, b) = frames_left(es, rs, ps, cs, end, 1, w, h, pre);
    let gs = seq![f] + fs;
    let ins = in_of(rs, ps, cs, 0);
    assert(gs.skip(1) =~= fs);
    enc_cat(pre_blocks(p) + frame_blocks(f), body(fs), a, b);
    assert(pre_blocks(p) + frame_blocks(f) + body(fs) =~= pre_blocks(p) + body(gs));
    assert(end.out =~= written(e0).out + (a + b));
    assert forall|i: int| 0 <= i < gs.len() implies step_frame(#[trigger] gs[i], w, h, ins[i].idx, ins[i].pal, ins[i].ctl, p.gct == Some(encode::table_bytes(ins[i].pal))) by {
        if i > 0 {
            let j = in_of(rs, ps, cs, 1)[i - 1];
            assert(step_frame(fs[i - 1], w, h, j.idx, j.pal, j.ctl, p.gct == Some(encode::table_bytes(j.pal))));
        }
    }
    decoded(max, p, gs, ins, w, h, a + b);
    a + b
}
}
}
