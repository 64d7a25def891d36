@@ module decode
@@ top
#[allow(unused_imports)] use crate::lzspec::*;
#[allow(unused_imports)] use crate::iospec::*;
#[allow(unused_imports)] use crate::gifspec::*;
#[allow(unused_imports)] use crate::parsespec::*;
#[allow(unused_imports)] use crate::stepspec::*;

@@ fn Blocks::new
@@ ret r
@@ spec
    ensures r.wf(), !r.done, r.reader == reader, r.ps() == (PS { max: sz_v(max_image_sz), next: Next::Header, sz: 0 }),
@@ fn Blocks::fill_buffer
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    ensures
        *final(self) == (Blocks { reader: final(self).reader, ..*old(self) }),
        final(buffer)@.len() == old(buffer)@.len(),
        fill_post(rd(&old(self).reader), rd(&final(self).reader), final(buffer)@, r),
@@ at start
    let ghost s0 = rd(&self.reader);
    let ghost n0 = buffer@.len();
@@ loop 0
    invariant
        *self == (Blocks { reader: self.reader, ..*old(self) }),
        buffer@.len() == n0, len <= n0, len <= s0.data.len(),
        rd(&self.reader).data == s0.data.skip(len as int),
        rd(&self.reader).errs == s0.errs,
        buffer@.take(len as int) == s0.data.take(len as int),
    decreases n0 - len, rd(&self.reader).fuel
@@ at loop 0 start
    let ghost b0 = buffer@;
    let ghost l0 = len as int;
    let ghost s1 = rd(&self.reader);
@@ at loop 0 end
    proof {
        let n = len - l0;
        assert(buffer@.take(l0) =~= b0.take(l0));
        assert(buffer@.skip(l0).take(n) =~= s1.data.take(n)) by { if n == 0 { assert(buffer@.skip(l0).take(0) =~= s1.data.take(0)); } }
        assert forall|i: int| 0 <= i < len implies buffer@.take(len as int)[i] == s0.data.take(len as int)[i] by {
            if i < l0 { assert(buffer@.take(l0)[i] == s0.data.take(l0)[i]); } else { assert(buffer@.skip(l0).take(n)[i - l0] == s1.data.take(n)[i - l0]); }
        }
        assert(buffer@.take(len as int) =~= s0.data.take(len as int));
    }
@@ at loop 0 after
    proof { assert(buffer@.take(n0 as int) =~= buffer@); }

@@ fn Blocks::next_block
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).done == old(self).done, parse_post(*old(self), *final(self), r),
@@ at start
    let ghost s0 = rd(&self.reader);
    let ghost ps0 = self.ps();
    proof { head_wf(ps0, s0.data); }
@@ at loop 0 before
    let ghost h = head(ps0, s0.data)->Ok_0;
@@ loop 0
    invariant
        self.wf(), self.done == old(self).done, self.max_image_sz == old(self).max_image_sz,
        block.v() is Data ==> self.decompressor is Some,
        has_subs(block.v()),
        rd(&self.reader).errs == s0.errs,
        self.ps() == h.ps,
        subs_run(block.v(), lz_for(block.v(), self.decompressor), rd(&self.reader).data) == subs_run(h.b, h.lz, h.rest),
    decreases rd(&self.reader).data.len()

@@ fn Blocks::decode_block
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).done == old(self).done, final(self).max_image_sz == old(self).max_image_sz,
        head_post(*old(self), *final(self), r, head(old(self).ps(), rd(&old(self).reader).data)),
        r is Ok ==> (head(old(self).ps(), rd(&old(self).reader).data) matches Ok(h) && final(self).ps() == h.ps),
@@ at start
    proof { head_wf(self.ps(), rd(&self.reader).data); }
@@ fn Blocks::parse_expected
@@ ret r
@@ spec
    requires old(self).wf(), old(self).expected_next == Some((bc, sz)),
    ensures part_post(*old(self), *final(self), r, head(old(self).ps(), rd(&old(self).reader).data)),
@@ fn Blocks::parse_header
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_header(old(self).ps(), rd(&old(self).reader).data)),
@@ at after self.fill_buffer(&mut buf)?;
    proof { let d = rd(&old(self).reader).data; assert(buf@.take(3) =~= d.take(3)); assert(seq![buf@[3], buf@[4], buf@[5]] =~= d.subrange(3, 6)); }
@@ at after let version = [buf[3], buf[4], buf[5]];
    proof { assert(version@ =~= seq![buf@[3], buf@[4], buf@[5]]); }
@@ fn Blocks::parse_logical_screen_desc
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_lsd(old(self).ps(), rd(&old(self).reader).data)),
@@ at start
    proof { le16_or(); }
@@ fn Blocks::parse_global_color_table
@@ ret r
@@ spec
    requires old(self).wf(), sz % 3 == 0,
    ensures part_post(*old(self), *final(self), r, head(PS { next: Next::Gct(sz as nat), ..old(self).ps() }, rd(&old(self).reader).data)),
@@ fn Blocks::parse_local_color_table
@@ ret r
@@ spec
    requires old(self).wf(), sz % 3 == 0,
    ensures part_post(*old(self), *final(self), r, head(PS { next: Next::Lct(sz as nat), ..old(self).ps() }, rd(&old(self).reader).data)),
@@ fn Blocks::parse_image_data
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_data(old(self).ps(), rd(&old(self).reader).data)),
@@ fn Blocks::parse_block
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_any(old(self).ps(), rd(&old(self).reader).data)),
@@ fn Blocks::parse_extension
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_ext(old(self).ps(), rd(&old(self).reader).data)),
@@ fn Blocks::parse_image_desc
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures part_post(*old(self), *final(self), r, head_desc(old(self).ps(), rd(&old(self).reader).data)),
@@ at start
    proof { le16_or(); }
@@ fn Blocks::expected_next
@@ ret r
@@ spec
    ensures *final(self) == *old(self), next_v(r) == after(block.v()), next_ok(r),
@@ fn Blocks::check_block_end
@@ ret r
@@ spec
    requires old(self).wf(), old(block).v() is Data ==> old(self).decompressor is Some,
    ensures
        *final(self) == (Blocks { decompressor: final(self).decompressor, ..*old(self) }), final(self).wf(),
        match fin(old(block).v(), old(self).image_sz as nat) {
            Ok(b) => r is Ok && final(block).v() == b,
            Err(e) => r matches Err(x) && ev(x) == e,
        },
@@ fn Blocks::decode_sub_block
@@ ret r
@@ spec
    requires old(self).wf(), has_subs(old(block).v()), old(block).v() is Data ==> old(self).decompressor is Some,
    ensures
        final(self).wf(), *final(self) == (Blocks { reader: final(self).reader, decompressor: final(self).decompressor, ..*old(self) }),
        final(self).decompressor is Some == old(self).decompressor is Some,
        sub_post(*old(self), *final(self), old(block).v(), final(block).v(), r),
        r == Ok::<bool, Error>(true) ==> rd(&final(self).reader).data.len() < rd(&old(self).reader).data.len() && has_subs(final(block).v()) && (final(block).v() is Data == old(block).v() is Data),
@@ at start
    let ghost d = rd(&self.reader).data;
@@ at after self.fill_buffer(&mut buf[..1])?;
    proof { assert(buf@.take(1)[0] == d.take(1)[0]); assert(buf@[0] == d[0]); }
@@ at after self.fill_buffer(&mut buf[1..blk_sz])?;
    proof { assert(buf@.subrange(1, blk_sz as int) =~= d.subrange(1, blk_sz as int)); assert(rd(&self.reader).data =~= d.skip(blk_sz as int)); }
@@ fn Blocks::parse_sub_block
@@ ret r
@@ spec
    requires old(self).wf(), has_subs(old(block).v()), old(block).v() is Data ==> old(self).decompressor is Some, 1 <= bytes@.len() <= 255,
    ensures
        final(self).wf(), *final(self) == (Blocks { decompressor: final(self).decompressor, ..*old(self) }),
        final(self).decompressor is Some == old(self).decompressor is Some,
        match one_sub(old(block).v(), lz_for(old(block).v(), old(self).decompressor), bytes@) {
            Ok((b, lz)) => r is Ok && final(block).v() == b && lz_for(b, final(self).decompressor) == lz,
            Err(e) => r matches Err(x) && ev(x) == e,
        },
@@ fn ImageData::parse_sub_block
@@ ret r
@@ spec
    requires *old(decompressor) matches Some(d) && d.wf(),
    ensures
        *final(decompressor) matches Some(d) && d.wf(),
        match one_sub(BV::Data(old(self).data@), lz_v(*old(decompressor)), bytes@) {
            Ok((b, lz)) => r is Ok && BV::Data(final(self).data@) == b && lz_v(*final(decompressor)) == lz,
            Err(e) => r matches Err(x) && ev(x) == e,
        },
@@ fn ImageData::finish
@@ ret r
@@ spec
    ensures
        match fin(BV::Data(old(self).data@), image_sz as nat) {
            Ok(b) => r is Ok && BV::Data(final(self).data@) == b,
            Err(e) => r matches Err(x) && ev(x) == e,
        },
@@ at start
    proof { if self.data@.len() == image_sz as nat { assert(self.data@.take(image_sz as int) =~= self.data@); } }
@@ fn PlainText::parse_sub_block
@@ spec
    requires 1 <= bytes@.len() <= 255,
    ensures vv(final(self).sub_blocks@) == vv(old(self).sub_blocks@).push(bytes@),
@@ fn GraphicControl::parse_sub_block
@@ ret r
@@ spec
    ensures
        bytes@.len() == 4 ==> r is Ok && *final(self) == (GraphicControl { flags: bytes@[0], delay_time_cs: u16_at(bytes@, 1), transparent_color_idx: bytes@[3] }),
        bytes@.len() != 4 ==> (r matches Err(e) && e is MalformedGraphicControlExtension),
@@ at start
    proof { le16_or(); }
@@ fn Comment::parse_sub_block
@@ spec
    requires 1 <= bytes@.len() <= 255,
    ensures vv(final(self).comments@) == vv(old(self).comments@).push(bytes@),
@@ fn Application::parse_sub_block
@@ spec
    requires 1 <= bytes@.len() <= 255,
    ensures vv(final(self).app_data@) == vv(old(self).app_data@).push(bytes@),
@@ fn Unknown::new
@@ ret r
@@ spec
    ensures vv(r.sub_blocks@) =~= seq![seq![ext_id]],
@@ at after b.add_sub_block
    proof { assert(seq![ext_id] =~= [ext_id]@); }
@@ fn Unknown::parse_sub_block
@@ spec
    requires 1 <= bytes@.len() <= 255,
    ensures vv(final(self).sub_blocks@) == vv(old(self).sub_blocks@).push(bytes@),

@@ fn Blocks::next
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).done ==> r is None && *final(self) == (Blocks { done: false, ..*old(self) }),
        !old(self).done ==> (r matches Some(k) && parse_post(*old(self), *final(self), k) && final(self).done == (k is Err || k->Ok_0.v() is Trailer)),
        r matches Some(Ok(_)) ==> rd(&final(self).reader).data.len() < rd(&old(self).reader).data.len(),
@@ at start
    proof { parse_wf(self.ps(), rd(&self.reader).data); }
@@ fn Frames::new
@@ ret r
@@ spec
    requires blocks.wf(),
    ensures r.wf(), r.blocks == blocks, r.preamble is None, !in_frame(r.fs()),
@@ fn Frames::next
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires old(self).wf(),
    ensures final(self).wf(), frame_post(*old(self), *final(self), r),
@@ at start
    hide(parse); hide(handle); hide(ps_wf);
    let ghost s0 = rd(&self.blocks.reader);
    let ghost fs0 = self.fs();
@@ loop 0
    invariant
        self.wf(), rd(&self.blocks.reader).errs == s0.errs,
        frame_next(self.fs(), rd(&self.blocks.reader).data) == frame_next(fs0, s0.data),
    decreases rd(&self.blocks.reader).data.len()
@@ fn Frames::preamble
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires old(self).wf(),
    ensures final(self).wf(), pre_post(*old(self), *final(self), r),
@@ at start
    hide(parse); hide(ps_wf);
    let ghost s0 = rd(&self.blocks.reader);
@@ at loop 0 before
    let ghost fs0 = self.fs();
@@ loop 0
    invariant
        self.wf(), rd(&self.blocks.reader).errs == s0.errs,
        !in_frame(self.fs()), self.preamble is Some,
        pre_run(self.fs(), rd(&self.blocks.reader).data) == pre_run(fs0, s0.data),
    decreases rd(&self.blocks.reader).data.len()
@@ fn Frames::has_frame
@@ ret r
@@ spec
    ensures r == in_frame(self.fs()),
@@ fn Frames::handle_block
@@ ret r
@@ spec
    ensures
        final(self).blocks == old(self).blocks,
        final(self).preamble is Some == old(self).preamble is Some,
        match handle(old(self).fs(), block.v()) {
            Err(e) => r matches Err(x) && ev(x) == e,
            Ok((fs, f)) => final(self).fs() == fs && match f { Some(f) => r matches Ok(Some(k)) && k.v() == f, None => r matches Ok(None) },
        },
@@ at start
    proof { cc_push(); }

@@ fn StepsOnce::new
@@ ret r
@@ spec
    requires frames.wf(), fs_ok(frames.fs()),
    ensures r.wf(), r.ss() == (SS { fs: frames.fs(), gct: None, looping: None, canvas: None, done: false }), r.frames == frames,
@@ fn StepsOnce::check_screen_sz
@@ ret r
@@ spec
    requires w <= 0xffff, h <= 0xffff,
    ensures
        screen_ok(sz_v(self.frames.blocks.max_image_sz), w as nat, h as nat) ==> r is Ok,
        !screen_ok(sz_v(self.frames.blocks.max_image_sz), w as nat, h as nat) ==> (r matches Err(e) && ev(e) == EV::TooLarge),
@@ at start
    proof { assert(w * h <= 0xffff * 0xffff) by (nonlinear_arith) requires w <= 0xffff, h <= 0xffff; }
@@ fn StepsOnce::make_raster
@@ ret r
@@ spec
    requires old(self).wf(), !old(self).done, old(self).raster is None,
    ensures
        final(self).frames.wf(), final(self).done == old(self).done,
        r is Ok ==> final(self).wf(),
        open_post(*old(self), *final(self), r),
@@ at start
    proof { open_ok(self.ss(), rd(&self.frames.blocks.reader).data); crate::pix::clear_rgba(); blank_is(); if !in_frame(self.frames.fs()) { pre_run_ok(FS { pre: Some(preamble_default()), ..self.frames.fs() }, rd(&self.frames.blocks.reader).data); } }
@@ fn StepsOnce::next_step
@@ ret r
@@ spec
    requires old(self).wf(), !old(self).done, old(self).raster is Some,
    ensures
        final(self).frames.wf(), final(self).done == old(self).done,
        r matches Some(Ok(_)) ==> final(self).wf() && final(self).raster is Some,
        step_post(*old(self), *final(self), r, step_of(old(self).ss(), rd(&old(self).frames.blocks.reader).data)),
@@ at start
    proof { frame_next_ok(self.frames.fs(), rd(&self.frames.blocks.reader).data); }
@@ fn StepsOnce::apply_frame
@@ ret r
@@ spec
    requires old(self).wf(), !old(self).done, old(self).raster is Some, frame_ok(frame.v()),
    ensures
        final(self).frames == old(self).frames, final(self).done == old(self).done,
        match apply(canvas_v(old(self).raster)->Some_0, frame.v(), gct_v(old(self).global_color_table)) {
            Err(e) => r matches Err(x) && ev(x) == e,
            Ok((s, c)) => (r matches Ok(k) && step_is(k, s))
                && *final(self) == (StepsOnce { raster: final(self).raster, ..*old(self) }) && canvas_v(final(self).raster) == Some(c),
        },
@@ at start
    proof { assert(0u8 & 1 == 0) by (bit_vector); crate::pix::px_len(&self.raster->Some_0); if fits(canvas_v(self.raster)->Some_0, frame.image_desc) { erased_is(canvas_v(self.raster)->Some_0, frame.image_desc); } }
@@ fn StepsOnce::next
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        step_post(*old(self), *final(self), r, step_next(old(self).ss(), rd(&old(self).frames.blocks.reader).data)),
        final(self).done == !(r matches Some(Ok(_))),
        old(self).done ==> r is None && *final(self) == *old(self),
        r matches Some(Ok(_)) ==> rd(&final(self).frames.blocks.reader).data.len() < rd(&old(self).frames.blocks.reader).data.len() && final(self).raster is Some,
@@ at start
    proof { step_next_ok(self.ss(), rd(&self.frames.blocks.reader).data); }
@@ fn update_raster
@@ ret r
@@ spec
    requires frame_ok(frame.v()), table_ok(gct_v(*global_tbl)),
    ensures
        final(raster).w() == old(raster).w(), final(raster).h() == old(raster).h(),
        drawn_post(*old(raster), *final(raster), r, draw(cv(*old(raster)), frame.v(), gct_v(*global_tbl))),
@@ at start
    proof { area_zero(frame.image_desc.width as nat, frame.image_desc.height as nat); crate::pix::px_len(raster); }
@@ fn update_frame
@@ ret r
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires
        frame_ok(frame.v()), clrs@.len() % 3 == 0, fits(cv(*old(raster)), frame.image_desc),
        reg == desc_region(frame.image_desc),
    ensures
        final(raster).w() == old(raster).w(), final(raster).h() == old(raster).h(),
        drawn_post(*old(raster), *final(raster), r, draw_with(cv(*old(raster)), frame.v(), clrs@)),
@@ at start
    let ghost cv0 = cv(*raster);
    let ghost f = frame.v();
    let ghost c = clrs@;
    let ghost w = raster.w() as int;
    let ghost h = raster.h() as int;
    proof { crate::pix::px_len(raster); assert(cv0.px =~= drawn_to(cv0, f, c, 0)); }
@@ loop 0
    invariant
        raster.w() == w, raster.h() == h,
        raster.px() == drawn_to(cv0, f, c, y as int),
        rows_ok(f, c, y as int),
@@ at loop 0 start
    let ghost px0 = drawn_to(cv0, f, c, y as int);
    let ghost row0 = row@;
    let ghost sy = stored_row(f.desc, y as int);
    let ghost o = (f.desc.top + y) * w + f.desc.left;
    proof {
        if f.desc.flags & 0x40 != 0 { rank_is(y as int, f.desc.height as nat); }
        row_in(f.desc.width as int, f.desc.height as int, sy);
        row_bounds(w, h, f.desc.top + y, f.desc.left as int, f.desc.width as int);
        assert forall|x: int| 0 <= x < f.desc.width implies row0[x] == cv0.px[o + x] by { pos_of(w, f.desc.top + y, f.desc.left + x); assert(row0[x] == px0[o + x]); }
    }
@@ at loop 0 end
    proof {
        assert(row_ok(f, c, y as int));
        row_put(px0, w, h, f.desc.top + y, f.desc.left as int, row@);
        let px1 = px0.take(o) + row@ + px0.skip(o + row@.len());
        let want = drawn_to(cv0, f, c, y + 1);
        assert forall|i: int| 0 <= i < px1.len() implies px1[i] == want[i] by {
            let x = i % w;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
            if i / w == f.desc.top + y && f.desc.left <= x < f.desc.left + f.desc.width {
                let k = x - f.desc.left;
                assert(w * (i / w) == (f.desc.top + y) * w) by (nonlinear_arith) requires i / w == f.desc.top + y;
                assert(i == o + k);
                assert(row@[k] == over(f, c, k, y as int, row0[k]));
            }
        }
        assert(px1 =~= want);
    }
@@ loop 1
    invariant
        row@.len() == f.desc.width,
        forall|k: int| 0 <= k < zip_i1 ==> #[trigger] row@[k] == over(f, c, k, y as int, row0[k]),
        forall|k: int| zip_i1 <= k < f.desc.width ==> #[trigger] row@[k] == row0[k],
        forall|k: int| 0 <= k < zip_i1 ==> in_table(c, #[trigger] index_at(f, k, y as int)),
@@ at loop 1 start
    proof {
        if !in_table(c, index_at(f, zip_i1 as int, y as int)) { assert(!row_ok(f, c, y as int)); assert(!rows_ok(f, c, f.desc.height as int)); }
    }
@@ fn interlaced_row
@@ ret r
@@ spec
    requires y < height <= 0xffff,
    ensures r == rank(y as int, height as nat), r < height,
@@ at start
    proof { rank_is(y as int, height as nat); small_shifts(y); small_shifts(height); }

@@ fn StepsLooping::next
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures final(self).wf(), loop_post(*old(self), *final(self), r),
@@ fn StepsLooping::push_step
@@ spec
    ensures
        match res {
            Ok(k) => *final(self) == (StepsLooping { steps: final(self).steps, ..*old(self) }) && sv(final(self).steps@) == sv(old(self).steps@).push(step_v(k)),
            Err(e) => *final(self) == (StepsLooping { err: Some(e), ..*old(self) }),
        },
@@ at start
    proof { sv_push(); }
@@ fn StepsLooping::new
@@ ret r
@@ own 0
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires frames.wf(), fs_ok(frames.fs()),
    ensures r.wf(), r.step_n == 0, looping_post(frames, r),
@@ at start
    hide(step_next); hide(fs_ok);
    let ghost d0 = rd(&frames.blocks.reader).data;
    let ghost ss0 = ss_new(frames.fs());
    proof { step_next_ok(ss0, d0); run_done(); }
@@ at loop 0 before
    proof {
        let it = once;
        let rest = steps_run(it.ss(), rd(&it.frames.blocks.reader).data);
        if !(err_v(this.err) == Some(EV::Io)) { assert(steps_run(ss0, d0).steps =~= sv(this.steps@) + rest.steps); }
    }
@@ at loop 0 end
    proof {
        let rest = steps_run(own_it0.ss(), rd(&own_it0.frames.blocks.reader).data);
        if !(err_v(this.err) == Some(EV::Io)) { assert(steps_run(ss0, d0).steps =~= sv(this.steps@) + rest.steps); }
    }
@@ loop 0
    invariant
        own_it0.wf(), this.step_n == 0,
        this.err is Some || this.steps@.len() == 0 ==> own_it0.done,
        run_inv(steps_run(ss0, d0), sv(this.steps@), err_v(this.err), steps_run(own_it0.ss(), rd(&own_it0.frames.blocks.reader).data))
            || (own_it0.done && err_v(this.err) == Some(EV::Io) && sv(this.steps@).is_prefix_of(steps_run(ss0, d0).steps)),
        this.steps@.len() > 0 ==> this.loop_count == count_v(step_next(ss0, d0).ss.looping),
    decreases (if own_it0.done { 0 } else { 1 + rd(&own_it0.frames.blocks.reader).data.len() })
@@ fn Steps::next
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match (old(self).inner, final(self).inner) {
            (StepsInner::Once(a), StepsInner::Once(b)) => step_post(*a, *b, r, step_next(a.ss(), rd(&a.frames.blocks.reader).data)) && b.done == !(r matches Some(Ok(_))),
            (StepsInner::Looping(a), StepsInner::Looping(b)) => loop_post(a, b, r),
            _ => false,
        },
@@ fn Steps::new_once
@@ ret r
@@ spec
    requires frames.wf(), fs_ok(frames.fs()),
    ensures r.wf(), r.inner matches StepsInner::Once(s) && s.ss() == ss_new(frames.fs()) && s.frames == frames,
@@ fn Steps::new_looping
@@ ret r
@@ spec
    requires frames.wf(), fs_ok(frames.fs()),
    ensures r.wf(), r.inner matches StepsInner::Looping(s) && s.step_n == 0 && looping_post(frames, s),

@@ append
broadcast use {crate::std_specs::question_mark, crate::std_specs::full_slice, crate::std_specs::vec_from_slice};
pub open spec fn sz_v(o: Option<usize>) -> Option<nat> { match o { Some(m) => Some(m as nat), None => None } }
pub open spec fn next_v(o: Option<(BlockCode, usize)>) -> Next {
    match o {
        Some((BlockCode::Header_, _)) => Next::Header,
        Some((BlockCode::LogicalScreenDesc_, _)) => Next::Lsd,
        Some((BlockCode::GlobalColorTable_, n)) => Next::Gct(n as nat),
        Some((BlockCode::LocalColorTable_, n)) => Next::Lct(n as nat),
        Some((BlockCode::ImageData_, _)) => Next::Data,
        _ => Next::Any,
    }
}
pub open spec fn lz_v(o: Option<Decompressor>) -> Lz {
    match o { Some(d) => Lz { st: d.st(), rest: if d.st().ended { Seq::empty() } else { d.pend() } }, None => no_lz() }
}
pub open spec fn lz_for(b: BV, o: Option<Decompressor>) -> Lz { if b is Data { lz_v(o) } else { no_lz() } }
impl<R: Read> Blocks<R> {
    pub open spec fn ps(self) -> PS { PS { max: sz_v(self.max_image_sz), next: next_v(self.expected_next), sz: self.image_sz as nat } }
    pub open spec fn wf(self) -> bool {
        &&& ps_wf(self.ps())
        &&& self.decompressor matches Some(d) ==> d.wf()
        &&& next_ok(self.expected_next)
    }
}
pub open spec fn next_ok(o: Option<(BlockCode, usize)>) -> bool { o matches Some((c, n)) ==> c != BlockCode::Extension_ && c != BlockCode::ImageDesc_ && c != BlockCode::Trailer_ }
/// the part of a block before its sub-blocks was read
pub open spec fn head_post<R: Read>(a: Blocks<R>, b: Blocks<R>, r: Result<Block>, h: std::result::Result<Head, EV>) -> bool {
    let s0 = rd(&a.reader);
    let s1 = rd(&b.reader);
    io_fail(s0, s1, r) || (s1.errs == s0.errs && match h {
        Err(e) => r matches Err(x) && ev(x) == e,
        Ok(h) => r matches Ok(k) && k.v() == h.b && s1.data == h.rest && b.image_sz == h.ps.sz
            && (h.b is Data ==> b.decompressor is Some && lz_v(b.decompressor) == h.lz),
    })
}
pub open spec fn part_post<R: Read>(a: Blocks<R>, b: Blocks<R>, r: Result<Block>, h: std::result::Result<Head, EV>) -> bool {
    &&& b.wf() && b.max_image_sz == a.max_image_sz && b.expected_next == a.expected_next && b.done == a.done
    &&& head_post(a, b, r, h)
}
pub open spec fn sub_post<R: Read>(a: Blocks<R>, b: Blocks<R>, v0: BV, v1: BV, r: Result<bool>) -> bool {
    let s0 = rd(&a.reader);
    let s1 = rd(&b.reader);
    io_fail(s0, s1, r) || (s1.errs == s0.errs && match sub_step(v0, lz_for(v0, a.decompressor), s0.data) {
        Sub::Err(e) => r matches Err(x) && ev(x) == e,
        Sub::End { rest } => r matches Ok(m) && !m && v1 == v0 && s1.data == rest && b.decompressor == a.decompressor,
        Sub::More { b: v, lz, rest } => r matches Ok(m) && m && v1 == v && s1.data == rest && lz_for(v, b.decompressor) == lz,
    })
}
pub open spec fn parse_post<R: Read>(a: Blocks<R>, b: Blocks<R>, r: Result<Block>) -> bool {
    let s0 = rd(&a.reader);
    let s1 = rd(&b.reader);
    io_fail(s0, s1, r) || (s1.errs == s0.errs && match parse(a.ps(), s0.data) {
        Err(e) => r matches Err(x) && ev(x) == e,
        Ok(p) => r matches Ok(k) && k.v() == p.b && s1.data == p.rest && b.ps() == p.ps,
    })
}
pub open spec fn is_suffix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.skip(b.len() - a.len()) }
/// the call failed because the reader failed
pub open spec fn io_fail<T>(s0: RState, s1: RState, r: Result<T>) -> bool {
    r matches Err(Error::Io(e)) && s1.errs == s0.errs.push(e)
}
pub open spec fn fill_post(s0: RState, s1: RState, b: Seq<u8>, r: Result<()>) -> bool {
    let n = b.len() as int;
    io_fail(s0, s1, r) || (s1.errs == s0.errs && if s0.data.len() >= n { r is Ok && b == s0.data.take(n) && s1.data == s0.data.skip(n) } else { r matches Err(e) && e is UnexpectedEndOfFile })
}
impl<R: Read> Frames<R> {
    pub open spec fn fs(self) -> FS {
        FS { ps: self.blocks.ps(), done: self.blocks.done, pre: match self.preamble { Some(p) => Some(p.v()), None => None },
            gce: self.graphic_control_ext, desc: self.image_desc, lct: lct_v(self.local_color_table) }
    }
    pub open spec fn wf(self) -> bool { self.blocks.wf() }
}
pub open spec fn frame_post<R: Read>(a: Frames<R>, b: Frames<R>, r: Option<Result<Frame>>) -> bool {
    let s0 = rd(&a.blocks.reader);
    let s1 = rd(&b.blocks.reader);
    let n = frame_next(a.fs(), s0.data);
    ((r matches Some(k) && io_fail(s0, s1, k)) && b.blocks.done)
    || (s1.errs == s0.errs && match n.item {
        None => r is None && b.fs() == n.fs && s1.data == n.rest,
        Some(Ok(f)) => (r matches Some(Ok(k)) && k.v() == f) && b.fs() == n.fs && s1.data == n.rest,
        Some(Err(e)) => (r matches Some(Err(x)) && ev(x) == e) && b.blocks.done,
    })
}
pub open spec fn pre_post<R: Read>(a: Frames<R>, b: Frames<R>, r: Result<Option<Preamble>>) -> bool {
    let s0 = rd(&a.blocks.reader);
    let s1 = rd(&b.blocks.reader);
    if in_frame(a.fs()) { r matches Ok(None) && a == b }
    else {
        let n = pre_run(FS { pre: Some(preamble_default()), ..a.fs() }, s0.data);
        io_fail(s0, s1, r) || (s1.errs == s0.errs && match n.r {
            Ok(p) => (r matches Ok(Some(k)) && k.v() == p) && b.fs() == n.fs && s1.data == n.rest,
            Err(e) => r matches Err(x) && ev(x) == e,
        })
    }
}

pub open spec fn cv(r: Raster<SRgba8>) -> Canvas { Canvas { w: r.w(), h: r.h(), px: r.px() } }
pub open spec fn canvas_v(o: Option<Raster<SRgba8>>) -> Option<Canvas> { match o { Some(r) => Some(cv(r)), None => None } }
pub open spec fn desc_region(d: ImageDesc) -> Region { Region { x: d.left as i32, y: d.top as i32, width: d.width as i32, height: d.height as i32 } }
impl<R: Read> StepsOnce<R> {
    pub open spec fn ss(self) -> SS {
        SS { fs: self.frames.fs(), gct: gct_v(self.global_color_table), looping: app_v(self.loop_count_ext), canvas: canvas_v(self.raster), done: self.done }
    }
    pub open spec fn wf(self) -> bool { self.frames.wf() && ss_ok(self.ss()) }
}
pub open spec fn open_post<R: Read>(a: StepsOnce<R>, b: StepsOnce<R>, r: Result<()>) -> bool {
    let s0 = rd(&a.frames.blocks.reader);
    let s1 = rd(&b.frames.blocks.reader);
    let n = open(a.ss(), s0.data);
    io_fail(s0, s1, r) || (s1.errs == s0.errs && match n.r {
        Ok(ss) => r is Ok && b.ss() == ss && s1.data == n.rest,
        Err(e) => r matches Err(x) && ev(x) == e,
    })
}
pub open spec fn step_is(k: Step, s: StepV) -> bool {
    &&& k.raster.v() == (crate::private::RasterV::True { w: s.w, h: s.h, px: s.px })
    &&& gce_trans(k.ctl()) == s.trans
    &&& k.ctl().delay_time_cs == s.delay
}
pub open spec fn step_post<R: Read>(a: StepsOnce<R>, b: StepsOnce<R>, r: Option<Result<Step>>, n: StepRes) -> bool {
    let s0 = rd(&a.frames.blocks.reader);
    let s1 = rd(&b.frames.blocks.reader);
    (r matches Some(k) && io_fail(s0, s1, k)) || (s1.errs == s0.errs && match n.item {
        None => r is None,
        Some(Ok(s)) => (r matches Some(Ok(k)) && step_is(k, s)) && b.ss() == n.ss && s1.data == n.rest,
        Some(Err(e)) => r matches Some(Err(x)) && ev(x) == e,
    })
}
pub open spec fn drawn_post(a: Raster<SRgba8>, b: Raster<SRgba8>, r: Result<()>, n: std::result::Result<Canvas, EV>) -> bool {
    match n {
        Ok(c) => r is Ok && cv(b) == c,
        Err(e) => r matches Err(x) && ev(x) == e,
    }
}

pub proof fn blank_is()
    ensures forall|w: nat, h: nat| #[trigger] blank(w, h).px == Seq::new(w * h, |i: int| crate::pix::clear::<SRgba8>()),
{
    crate::pix::clear_rgba();
    assert forall|w: nat, h: nat| #[trigger] blank(w, h).px == Seq::new(w * h, |i: int| crate::pix::clear::<SRgba8>()) by { assert(blank(w, h).px =~= Seq::new(w * h, |i: int| crate::pix::clear::<SRgba8>())); }
}

pub proof fn erased_is(c: Canvas, d: ImageDesc)
    requires fits(c, d), c.w <= 0x7fff_ffff, c.h <= 0x7fff_ffff,
    ensures forall|px: Seq<SRgba8>| crate::pix::painted(c.w as int, px, crate::pix::inside(c.w as int, c.h as int, desc_region(d)), transparent()) == #[trigger] erased(Canvas { px, ..c }, d),
{
    let s = crate::pix::inside(c.w as int, c.h as int, desc_region(d));
    assert(s == desc_region(d));
    assert forall|px: Seq<SRgba8>| crate::pix::painted(c.w as int, px, s, transparent()) == #[trigger] erased(Canvas { px, ..c }, d) by {
        assert(crate::pix::painted(c.w as int, px, s, transparent()) =~= erased(Canvas { px, ..c }, d));
    }
}

pub open spec fn ss_new(fs: FS) -> SS { SS { fs, gct: None, looping: None, canvas: None, done: false } }
pub open spec fn step_v(k: Step) -> StepV {
    match k.raster.v() {
        crate::private::RasterV::True { w, h, px } => StepV { w, h, px, trans: gce_trans(k.ctl()), delay: k.ctl().delay_time_cs },
        _ => arbitrary(),
    }
}
pub open spec fn sv(s: Seq<Step>) -> Seq<StepV> { Seq::new(s.len(), |i: int| step_v(s[i])) }
pub proof fn sv_push()
    ensures forall|s: Seq<Step>, k: Step| sv(#[trigger] s.push(k)) == sv(s).push(step_v(k)),
{
    assert forall|s: Seq<Step>, k: Step| sv(#[trigger] s.push(k)) == sv(s).push(step_v(k)) by { assert(sv(s.push(k)) =~= sv(s).push(step_v(k))); }
}
pub open spec fn err_v(o: Option<Error>) -> Option<EV> { match o { Some(e) => Some(ev(e)), None => None } }
pub open spec fn count_v(o: Option<Seq<Seq<u8>>>) -> Option<u16> { match o { Some(a) => loop_of(a), None => None } }
impl StepsLooping {
    pub open spec fn ls(self) -> LS { LS { steps: sv(self.steps@), err: err_v(self.err), count: self.loop_count, n: self.step_n as nat } }
    pub open spec fn wf(self) -> bool { self.step_n <= self.steps.len() }
}
pub open spec fn item_v(r: Option<Result<Step>>) -> Option<std::result::Result<StepV, EV>> {
    match r { Some(Ok(k)) => Some(Ok(step_v(k))), Some(Err(e)) => Some(Err(ev(e))), None => None }
}
pub open spec fn loop_post(a: StepsLooping, b: StepsLooping, r: Option<Result<Step>>) -> bool {
    let n = ls_next(a.ls());
    item_v(r) == n.0 && b.ls() == n.1
}
pub open spec fn run_inv(all: All, steps: Seq<StepV>, err: Option<EV>, rest: All) -> bool {
    &&& all.steps == steps + rest.steps
    &&& all.err == if err is Some { err } else { rest.err }
    &&& err is Some ==> rest.steps.len() == 0
}
/// all steps were read; after a failure of the reader the ones before it
pub open spec fn looping_post<R: Read>(frames: Frames<R>, r: StepsLooping) -> bool {
    let d = rd(&frames.blocks.reader).data;
    let ss = ss_new(frames.fs());
    let all = steps_run(ss, d);
    ||| err_v(r.err) == Some(EV::Io) && sv(r.steps@).is_prefix_of(all.steps)
    ||| sv(r.steps@) == all.steps && err_v(r.err) == all.err && (all.steps.len() > 0 ==> r.loop_count == count_v(step_next(ss, d).ss.looping))
}
impl<R: Read> Steps<R> {
    pub open spec fn wf(self) -> bool { match self.inner { StepsInner::Once(s) => s.wf(), StepsInner::Looping(s) => s.wf() } }
}
