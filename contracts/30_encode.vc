@@ module encode
@@ top
#[allow(unused_imports)] use crate::lzspec::*;
#[allow(unused_imports)] use crate::lzw::*;
#[allow(unused_imports)] use crate::gifspec::*;
#[allow(unused_imports)] use crate::iospec::*;
#[allow(unused_imports)] use crate::itermodel::*;
#[allow(unused_imports)] use vstd::std_specs::convert::*;
@@ rename copied copied_m
@@ rename chunks chunks_m

@@ fn Header::format
@@ ret r
@@ spec
    requires bv_ok(BV::Header(self.version@)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Header(self.version@), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = seq![0x47u8, 0x49, 0x46] + self.version@;
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Header(self.version@), full)); }

@@ fn LogicalScreenDesc::format
@@ ret r
@@ spec
    requires bv_ok(BV::Lsd(self)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Lsd(self), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = le16(self.screen_width) + le16(self.screen_height) + seq![self.flags, self.background_color_idx, self.pixel_aspect_ratio];
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Lsd(self), full)); }

@@ fn GlobalColorTable::format
@@ ret r
@@ spec
    requires bv_ok(BV::Gct(self.colors@)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Gct(self.colors@), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = self.colors@;
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Gct(self.colors@), full)); }

@@ fn LocalColorTable::format
@@ ret r
@@ spec
    requires bv_ok(BV::Lct(self.colors@)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Lct(self.colors@), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = self.colors@;
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Lct(self.colors@), full)); }

@@ fn GraphicControl::format
@@ ret r
@@ spec
    requires bv_ok(BV::Gce(self)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Gce(self), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = seq![0x21u8, 0xF9, 4, self.flags] + le16(self.delay_time_cs) + seq![self.transparent_color_idx, 0];
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Gce(self), full)); }

@@ fn ImageDesc::format
@@ ret r
@@ spec
    requires bv_ok(BV::Desc(*self)),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Desc(*self), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = seq![0x2Cu8] + le16(self.left) + le16(self.top) + le16(self.width) + le16(self.height) + seq![self.flags];
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Desc(*self), full)); }

@@ fn Trailer::format
@@ ret r
@@ spec
    requires bv_ok(BV::Trailer),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Trailer, wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = seq![0x3Bu8];
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Trailer, full)); }

@@ fn PlainText::format
@@ ret r
@@ spec
    requires bv_ok(BV::PlainText(vv(self.sub_blocks@))),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::PlainText(vv(self.sub_blocks@)), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = ext(0x01, vv(self.sub_blocks@));
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::PlainText(vv(self.sub_blocks@)), full)); }

    let ghost hd = seq![0x21u8, 0x01];
    let ghost sv = vv(self.sub_blocks@);
@@ loop 0 iter it
    invariant
        same_sink(old(w), w), wr(old(w)) == s0,
        goal(s0, full), full == hd + subs(sv) + seq![0u8], hd == seq![0x21u8, 0x01], subs_ok(sv),
        enc_rel(BV::PlainText(vv(self.sub_blocks@)), full), sv == vv(self.sub_blocks@),
        it.seq().len() == self.sub_blocks@.len(),
        forall|i: int| 0 <= i < self.sub_blocks@.len() ==> *(#[trigger] it.seq()[i]) == self.sub_blocks@[i],
        put(s0, wr(w), full.take((hd + subs(sv.take(it.index@))).len() as int)),
@@ at loop 0 start
    broadcast use {group_wr, wr_goal};
    proof { assert(sv[it.index@] == self.sub_blocks@[it.index@]@); subs_take(sv, it.index@); subs_split(sv, it.index@); assert(sv.take(0) =~= Seq::empty()); }
@@ at loop 0 before
    proof { assert(sv.take(0) =~= Seq::empty()); assert(hd + subs(sv.take(0)) =~= hd); }
@@ at loop 0 after
    proof { assert(sv.take(sv.len() as int) =~= sv); }

@@ fn Comment::format
@@ ret r
@@ spec
    requires bv_ok(BV::Comment(vv(self.comments@))),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Comment(vv(self.comments@)), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = ext(0xFE, vv(self.comments@));
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::Comment(vv(self.comments@)), full)); }

    let ghost hd = seq![0x21u8, 0xFE];
    let ghost sv = vv(self.comments@);
@@ loop 0 iter it
    invariant
        same_sink(old(w), w), wr(old(w)) == s0,
        goal(s0, full), full == hd + subs(sv) + seq![0u8], hd == seq![0x21u8, 0xFE], subs_ok(sv),
        enc_rel(BV::Comment(vv(self.comments@)), full), sv == vv(self.comments@),
        it.seq().len() == self.comments@.len(),
        forall|i: int| 0 <= i < self.comments@.len() ==> *(#[trigger] it.seq()[i]) == self.comments@[i],
        put(s0, wr(w), full.take((hd + subs(sv.take(it.index@))).len() as int)),
@@ at loop 0 start
    broadcast use {group_wr, wr_goal};
    proof { assert(sv[it.index@] == self.comments@[it.index@]@); subs_take(sv, it.index@); subs_split(sv, it.index@); assert(sv.take(0) =~= Seq::empty()); }
@@ at loop 0 before
    proof { assert(sv.take(0) =~= Seq::empty()); assert(hd + subs(sv.take(0)) =~= hd); }
@@ at loop 0 after
    proof { assert(sv.take(sv.len() as int) =~= sv); }

@@ fn Application::format
@@ ret r
@@ spec
    requires bv_ok(BV::App(vv(self.app_data@))),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::App(vv(self.app_data@)), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost full: Seq<u8> = ext(0xFF, vv(self.app_data@));
    proof { le16_or(); put_start(s0, full); assert(enc_rel(BV::App(vv(self.app_data@)), full)); }

    let ghost hd = seq![0x21u8, 0xFF];
    let ghost sv = vv(self.app_data@);
@@ loop 0 iter it
    invariant
        same_sink(old(w), w), wr(old(w)) == s0,
        goal(s0, full), full == hd + subs(sv) + seq![0u8], hd == seq![0x21u8, 0xFF], subs_ok(sv),
        enc_rel(BV::App(vv(self.app_data@)), full), sv == vv(self.app_data@),
        it.seq().len() == self.app_data@.len(),
        forall|i: int| 0 <= i < self.app_data@.len() ==> *(#[trigger] it.seq()[i]) == self.app_data@[i],
        put(s0, wr(w), full.take((hd + subs(sv.take(it.index@))).len() as int)),
@@ at loop 0 start
    broadcast use {group_wr, wr_goal};
    proof { assert(sv[it.index@] == self.app_data@[it.index@]@); subs_take(sv, it.index@); subs_split(sv, it.index@); assert(sv.take(0) =~= Seq::empty()); }
@@ at loop 0 before
    proof { assert(sv.take(0) =~= Seq::empty()); assert(hd + subs(sv.take(0)) =~= hd); }
@@ at loop 0 after
    proof { assert(sv.take(sv.len() as int) =~= sv); }
@@ fn Unknown::format
@@ ret r
@@ spec
    requires bv_ok(BV::Unknown(vv(self.sub_blocks@))),
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Unknown(vv(self.sub_blocks@)), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    let ghost all = vv(self.sub_blocks@);
    let ghost id: Seq<u8> = if all.len() == 0 { Seq::empty() } else { all[0] };
    let ghost hd = seq![0x21u8] + id;
    let ghost sv = tail(all);
    let ghost full: Seq<u8> = hd + subs(sv) + seq![0u8];
    proof {
        put_start(s0, full); assert(enc_rel(BV::Unknown(all), full));
    }
@@ loop 0 iter it
    invariant
        same_sink(old(w), w), wr(old(w)) == s0,
        goal(s0, full), full == hd + subs(sv) + seq![0u8], subs_ok(sv),
        enc_rel(BV::Unknown(all), full), all == vv(self.sub_blocks@), sv == tail(all),
        it.seq().len() == (if all.len() == 0 { 0 } else { all.len() - 1 }),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.sub_blocks@[i + 1],
        put(s0, wr(w), full.take((hd + subs(sv.take(it.index@))).len() as int)),
@@ at loop 0 start
    broadcast use {group_wr, wr_goal};
    proof { assert(sv[it.index@] == self.sub_blocks@[it.index@ + 1]@); subs_take(sv, it.index@); subs_split(sv, it.index@); }
@@ at loop 0 before
    proof { assert(sv.take(0) =~= Seq::empty()); assert(hd + subs(sv.take(0)) =~= hd); }
@@ at loop 0 after
    proof { assert(sv.take(sv.len() as int) =~= sv); }

@@ fn next_high_bit
@@ ret r
@@ spec
    requires value <= 256,
    ensures r <= 8, value <= p2(r as nat), r == 0 || p2((r - 1) as nat) < value,
@@ at start
    proof { nhb(value as u32); }

@@ fn ImageData::format
@@ ret r
@@ spec
    ensures
        same_sink(old(w), final(w)),
        format_post(BV::Data(self.data@), wr(old(w)), wr(final(w)), r),
@@ at start
    broadcast use {group_wr, wr_goal};
    let ghost s0 = wr(w);
    proof { p2_vals(); }
@@ at before w.write_all(&[min_code_bits])?;
    let ghost full0 = choose|full: Seq<u8>| data_rel_min(self.data@, full, min_code_bits);
    proof {
        p2_vals();
        data_exists(self.data@, min_code_bits);
        assert(data_rel(self.data@, full0));
        put_start(s0, full0); assert(enc_rel(BV::Data(self.data@), full0));
        assert(full0.take(1) =~= seq![min_code_bits]);
    }
@@ own 0
@@ at loop 0 before
    let ghost hd = seq![min_code_bits];
    let ghost full = hd + subs(cut(buffer@)) + seq![0u8];
    let ghost mut parts: Seq<Seq<u8>> = Seq::empty();
    proof {
        cut_ok(buffer@);
        assert(buffer@.skip(0) =~= buffer@);
        assert(data_rel_with(self.data@, full, min_code_bits, cut(buffer@)));
        put_start(s0, full); assert(enc_rel(BV::Data(self.data@), full));
        assert(parts + cut(buffer@) =~= cut(buffer@));
        assert(hd + subs(parts) =~= hd);
    }
@@ loop 0
    invariant
        same_sink(old(w), w), wr(old(w)) == s0,
        own_it0.wf(), own_it0.n == 255,
        goal(s0, full), full == hd + subs(cut(buffer@)) + seq![0u8], enc_rel(BV::Data(self.data@), full),
        parts + cut(own_it0.s@) == cut(buffer@),
        put(s0, wr(w), full.take((hd + subs(parts)).len() as int)),
    ensures
        own_it0.s@.len() == 0,
    decreases own_it0.s@.len(),
@@ at loop 0 start
    broadcast use {group_wr, wr_goal};
    proof {
        cut_step(chunk@, own_it0.s@);
        assert(parts + (seq![chunk@] + cut(own_it0.s@)) =~= parts.push(chunk@) + cut(own_it0.s@));
        subs_push(parts, chunk@);
        subs_cat(parts.push(chunk@), cut(own_it0.s@));
        parts = parts.push(chunk@);
    }
@@ at loop 0 after
    proof { assert(parts =~= cut(buffer@)) ; }

@@ fn BlockEnc::new
@@ ret r
@@ spec
    ensures r.writer == writer,
@@ fn BlockEnc::encode
@@ ret r
@@ spec
    requires
        <B as IntoSpec<Block>>::obeys_into_spec(),
        bv_ok(<B as IntoSpec<Block>>::into_spec(block).v()),
    ensures
        same_sink(&old(self).writer, &final(self).writer),
        block_post(<B as IntoSpec<Block>>::into_spec(block).v(), wr(&old(self).writer), wr(&final(self).writer), r),
@@ at start
    broadcast use group_wr;

@@ fn FrameEnc::new
@@ ret r
@@ spec
    ensures r.block_enc == block_enc, !r.has_preamble, !r.has_trailer,
@@ fn FrameEnc::encode_preamble
@@ ret r
@@ spec
    requires all_ok(pre_blocks(preamble.v())),
    ensures
        same_sink(&old(self).block_enc.writer, &final(self).block_enc.writer),
        preamble_call(*old(self), *final(self), preamble.v(), r),
@@ at start
    broadcast use {group_wr, group_seq};
    let ghost s0 = wr(&self.block_enc.writer);
    let ghost pv = preamble.v();
    let ghost all = pre_blocks(pv);
    proof { seq_start(s0); assert(goal_seq(all)); pre_ok(pv); }
@@ loop 0 iter it
    invariant
        same_sink(&old(self).block_enc.writer, &self.block_enc.writer), s0 == wr(&old(self).block_enc.writer),
        self.has_trailer == old(self).has_trailer, self.has_preamble == old(self).has_preamble, !old(self).has_preamble,
        pv == preamble.v(), all == pre_blocks(pv), all_ok(all), goal_seq(all),
        it.seq().len() == preamble.comments@.len(),
        forall|i: int| 0 <= i < preamble.comments@.len() ==> *(#[trigger] it.seq()[i]) == preamble.comments@[i],
        seq_post(all.take(all.len() - pv.comments.len() + it.index@), s0, wr(&self.block_enc.writer)),
@@ at loop 0 start
    broadcast use {group_wr, group_seq};
    proof {
        let k = all.len() - pv.comments.len() + it.index@;
        assert(all[k] == BV::Comment(pv.comments[it.index@]));
        assert(all.take(k + 1) =~= all.take(k).push(all[k]));
        assert(bv_ok(all[k]));
    }
@@ at loop 0 before
    proof {
        let e = Seq::<BV>::empty().push(BV::Header(pv.header)).push(BV::Lsd(pv.lsd));
        let e1 = match pv.gct { Some(c) => e.push(BV::Gct(c)), None => e };
        let e2 = match pv.looping { Some(c) => e1.push(BV::App(c)), None => e1 };
        assert(e2 =~= pre_prefix(pv));
        assert(pre_prefix(pv) =~= all.take(all.len() - pv.comments.len()));
        assert(seq_post(e2, s0, wr(&self.block_enc.writer)));
    }
@@ at loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }

@@ fn FrameEnc::encode_frame
@@ ret r
@@ spec
    ensures
        same_sink(&old(self).block_enc.writer, &final(self).block_enc.writer),
        frame_call(*old(self), *final(self), frame.v(), r),
@@ at start
    broadcast use {group_wr, group_seq};
    let ghost s0 = wr(&self.block_enc.writer);
    let ghost fv = frame.v();
    let ghost all = frame_blocks(fv);
    proof {
        seq_start(s0); assert(goal_seq(all));
        let e0 = match fv.gce { Some(g) => Seq::<BV>::empty().push(BV::Gce(g)), None => Seq::<BV>::empty() };
        let e1 = e0.push(BV::Desc(fv.desc));
        let e2 = match fv.lct { Some(c) => e1.push(BV::Lct(c)), None => e1 };
        assert(e2.push(BV::Data(fv.data)) =~= all);
    }

@@ fn FrameEnc::encode_trailer
@@ ret r
@@ spec
    ensures
        same_sink(&old(self).block_enc.writer, &final(self).block_enc.writer),
        trailer_call(*old(self), *final(self), r),
        !(old(self).has_trailer || !old(self).has_preamble) ==> trailer_post(wr(&old(self).block_enc.writer), wr(&final(self).block_enc.writer)),
@@ at start
    broadcast use {group_wr, group_seq};
    let ghost s0 = wr(&self.block_enc.writer);
    proof { seq_start(s0); assert(goal_seq(seq![BV::Trailer])); assert(Seq::<BV>::empty().push(BV::Trailer) =~= seq![BV::Trailer]); }

@@ fn make_image_desc
@@ ret r
@@ spec
    ensures
        match r {
            Ok(d) => raster.w() <= 65535 && raster.h() <= 65535 && d == (ImageDesc { left: 0, top: 0, width: raster.w() as u16, height: raster.h() as u16, flags: 0 }),
            Err(e) => (raster.w() > 65535 || raster.h() > 65535) && e is TryFromInt,
        },

@@ fn make_color_table
@@ ret r
@@ spec
    ensures r.0 == pal_cfg(palette.pal()), r.0.wf(), r.1@ == table_bytes(palette.pal()), r.1@.len() == 3 * r.0.table_len,
@@ at loop 0 before
    let ghost q = used(palette.pal());
    proof { assert(q.take(0) =~= Seq::empty()); }
@@ loop 0 iter it
    invariant
        it.seq().len() == q.len(), q.len() <= 256, q == used(palette.pal()),
        forall|i: int| 0 <= i < q.len() ==> *(#[trigger] it.seq()[i]) == q[i],
        pal@ == pal_bytes(q.take(it.index@)), pal@.len() == 3 * it.index@,
@@ at loop 0 end
    proof { assert(q.take(it.index@ + 1).drop_last() =~= q.take(it.index@)); assert(pal@ =~= pal_bytes(q.take(it.index@)) + seq![clr.r, clr.g, clr.b]); }
@@ at loop 0 after
    proof { assert(q.take(q.len() as int) =~= q); table_size_wf(q.len()); }
@@ loop 1
    invariant
        q == used(palette.pal()), q.len() <= 256,
        tbl_cfg == pal_cfg(palette.pal()), tbl_cfg.wf(), q.len() <= tbl_cfg.table_len,
        3 * q.len() == pal_bytes(q).len(), 3 * q.len() <= pal@.len() <= 3 * tbl_cfg.table_len,
        forall|i: int| 0 <= i < pal@.len() ==> #[trigger] pal@[i] == (if i < pal_bytes(q).len() { pal_bytes(q)[i] } else { 0u8 }),
    decreases 3 * tbl_cfg.table_len - pal@.len(),
@@ at end
    proof { assert(pal@ =~= table_bytes(palette.pal())); }

@@ fn StepEnc::new
@@ ret r
@@ spec
    requires !frame_enc.has_preamble, !frame_enc.has_trailer,
    ensures r.frame_enc == frame_enc, r.wf(), r.preamble is None, r.loop_count is None,
@@ fn StepEnc::with_loop_count
@@ ret r
@@ spec
    requires self.wf(),
    ensures
        r.wf(), r.frame_enc == self.frame_enc, r.preamble == self.preamble,
        app_v(r.loop_count) == Some(loop_block(loop_count)),
@@ fn StepEnc::with_global_color_table
@@ ret r
@@ spec
    requires self.wf(),
    ensures r.wf(), r.frame_enc == self.frame_enc, r.preamble == self.preamble, r.loop_count == self.loop_count,
@@ fn StepEnc::drop
@@ spec
    ensures
        same_sink(&old(self).frame_enc.block_enc.writer, &final(self).frame_enc.block_enc.writer),
        if old(self).frame_enc.has_trailer || !old(self).frame_enc.has_preamble { *final(self) == *old(self) }
        else { trailer_post(wr(&old(self).frame_enc.block_enc.writer), wr(&final(self).frame_enc.block_enc.writer)) },

@@ fn StepEnc::encode_indexed_raster
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).loop_count == old(self).loop_count,
        same_sink(&old(self).frame_enc.block_enc.writer, &final(self).frame_enc.block_enc.writer),
        step_post(*old(self), *final(self), raster, palette, control, r),
@@ into raster ImageData
@@ at start
    broadcast use group_wr, group_cat;
@@ at before match &self.preamble
    let ghost f0 = FrameV { gce: control, desc: image_desc, lct: None, data: raster.gray() };
    proof {
        assert(goal_seq(frame_blocks(f0)));
        assert(preamble.v().comments =~= Seq::empty());
        let p = preamble.v();
        assert(p.header == seq![0x38u8, 0x39, 0x61]);
        assert(p.lsd.screen_width == raster.w() && p.lsd.screen_height == raster.h());
        assert(p.lsd.background_color_idx == 0 && p.lsd.pixel_aspect_ratio == 0);
        assert(lsd_cfg(p.lsd.flags) == pal_cfg(palette.pal()));
        assert(p.gct == Some(table_bytes(palette.pal())));
        assert(p.looping == app_v(self.loop_count));
        assert(step_pre(preamble.v(), raster.w(), raster.h(), palette.pal(), app_v(self.loop_count)));
        assert(step_frame(f0, raster.w(), raster.h(), raster.gray(), palette.pal(), control, true));
        assert(all_ok(pre_blocks(preamble.v())));
    }
@@ at end
    proof {
        assert(frame.v() == f0);
        if let Some(pre) = old(self).preamble { assert(gct_v(pre.global_color_table) == Some(table_bytes(palette.pal()))); }
    }

@@ fn StepEnc::encode_step
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).loop_count == old(self).loop_count,
        same_sink(&old(self).frame_enc.block_enc.writer, &final(self).frame_enc.block_enc.writer),
        step.raster matches StepRaster::Indexed(ra, pa) ==> step_post(*old(self), *final(self), &ra, &pa, step.graphic_control_ext, r),

@@ append
broadcast use {crate::std_specs::question_mark, crate::std_specs::full_slice, crate::std_specs::vec_from_slice};
/// a call out of order
pub open spec fn out_of_order<W: Write>(a: FrameEnc<W>, b: FrameEnc<W>, r: Result<()>) -> bool { r == Err::<(), Error>(Error::InvalidBlockSequence) && b == a }
/// FrameEnc::encode_preamble
pub open spec fn preamble_call<W: Write>(a: FrameEnc<W>, b: FrameEnc<W>, p: PreV, r: Result<()>) -> bool {
    &&& b.has_trailer == a.has_trailer
    &&& if a.has_preamble { out_of_order(a, b, r) }
        else { all_post(pre_blocks(p), wr(&a.block_enc.writer), wr(&b.block_enc.writer), r) && b.has_preamble == r.is_ok() }
}
/// FrameEnc::encode_frame
pub open spec fn frame_call<W: Write>(a: FrameEnc<W>, b: FrameEnc<W>, f: FrameV, r: Result<()>) -> bool {
    &&& b.has_trailer == a.has_trailer && b.has_preamble == a.has_preamble
    &&& if a.has_trailer || !a.has_preamble { out_of_order(a, b, r) }
        else { all_post(frame_blocks(f), wr(&a.block_enc.writer), wr(&b.block_enc.writer), r) }
}
/// FrameEnc::encode_trailer
pub open spec fn trailer_call<W: Write>(a: FrameEnc<W>, b: FrameEnc<W>, r: Result<()>) -> bool {
    &&& b.has_preamble == a.has_preamble
    &&& if a.has_trailer || !a.has_preamble { out_of_order(a, b, r) }
        else { all_post(seq![BV::Trailer], wr(&a.block_enc.writer), wr(&b.block_enc.writer), r) && b.has_trailer == r.is_ok() }
}
pub open spec fn pre_prefix(p: PreV) -> Seq<BV> {
    seq![BV::Header(p.header), BV::Lsd(p.lsd)] + opt(p.gct, |c: Seq<u8>| BV::Gct(c)) + opt(p.looping, |s: Seq<Seq<u8>>| BV::App(s))
}
pub proof fn pre_ok(p: PreV)
    requires all_ok(pre_blocks(p)),
    ensures
        p.looping matches Some(s) ==> subs_ok(s),
        forall|i: int| 0 <= i < p.comments.len() ==> subs_ok(#[trigger] p.comments[i]),
{
    let all = pre_blocks(p);
    if let Some(s) = p.looping { let k = 2 + opt(p.gct, |c: Seq<u8>| BV::Gct(c)).len(); assert(all[k as int] == BV::App(s)); assert(bv_ok(all[k as int])); }
    assert forall|i: int| 0 <= i < p.comments.len() implies subs_ok(#[trigger] p.comments[i]) by {
        let k = all.len() - p.comments.len() + i;
        assert(all[k] == BV::Comment(p.comments[i])); assert(bv_ok(all[k]));
    }
}
/// colors which can be used by pixels
pub open spec fn used(p: Seq<crate::pix::rgb::SRgb8>) -> Seq<crate::pix::rgb::SRgb8> { if p.len() <= 256 { p } else { p.take(256) } }
pub open spec fn pal_bytes(p: Seq<crate::pix::rgb::SRgb8>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { pal_bytes(p.drop_last()) + seq![p.last().r, p.last().g, p.last().b] }
}
pub open spec fn pal_cfg(p: Seq<crate::pix::rgb::SRgb8>) -> ColorTableConfig {
    ColorTableConfig { existence: ColorTableExistence::Present, ordering: ColorTableOrdering::NotSorted, table_len: table_size(used(p).len()) as usize }
}
/// color table of a palette, filled up with zeros
pub open spec fn table_bytes(p: Seq<crate::pix::rgb::SRgb8>) -> Seq<u8> {
    let b = pal_bytes(used(p));
    Seq::new(3 * table_size(used(p).len()), |i: int| if i < b.len() { b[i] } else { 0u8 })
}
impl<W: Write> StepEnc<W> {
    pub open spec fn wf(self) -> bool {
        &&& self.preamble is Some <==> self.frame_enc.has_preamble
        &&& !self.frame_enc.has_trailer
        &&& self.loop_count matches Some(a) ==> subs_ok(vv(a.app_data@))
    }
}
pub open spec fn step_pre(p: PreV, w: nat, h: nat, pal: Seq<crate::pix::rgb::SRgb8>, looping: Option<Seq<Seq<u8>>>) -> bool {
    &&& p.header == seq![0x38u8, 0x39, 0x61]
    &&& p.lsd.screen_width == w && p.lsd.screen_height == h && p.lsd.background_color_idx == 0 && p.lsd.pixel_aspect_ratio == 0
    &&& lsd_cfg(p.lsd.flags) == pal_cfg(pal)
    &&& p.gct == Some(table_bytes(pal))
    &&& p.looping == looping
    &&& p.comments.len() == 0
}
pub open spec fn step_frame(f: FrameV, w: nat, h: nat, data: Seq<u8>, pal: Seq<crate::pix::rgb::SRgb8>, control: Option<GraphicControl>, global: bool) -> bool {
    &&& f.gce == control
    &&& f.desc.left == 0 && f.desc.top == 0 && f.desc.width == w && f.desc.height == h
    &&& f.data == data
    &&& if global { f.desc.flags == 0 && f.lct is None } else { desc_cfg(f.desc.flags) == pal_cfg(pal) && desc_others(0, f.desc.flags, 0xA7) && f.lct == Some(table_bytes(pal)) }
}
pub open spec fn trailer_post(s0: WState, s1: WState) -> bool { exists|r: Result<()>| #[trigger] all_post(seq![BV::Trailer], s0, s1, r) }
/// what encoding one step does
pub open spec fn step_post<W: Write>(s: StepEnc<W>, t: StepEnc<W>, raster: &Raster<Gray8>, palette: &Palette, control: Option<GraphicControl>, r: Result<()>) -> bool {
    let w0 = wr(&s.frame_enc.block_enc.writer);
    let w1 = wr(&t.frame_enc.block_enc.writer);
    if raster.w() > 65535 || raster.h() > 65535 {
        r matches Err(e) && e is TryFromInt && s == t
    } else {
        match s.preamble {
            Some(pre) => if pre.logical_screen_desc.screen_width != raster.w() || pre.logical_screen_desc.screen_height != raster.h() {
                r == Err::<(), Error>(Error::InvalidRasterDimensions) && s == t
            } else {
                &&& t.preamble == s.preamble
                &&& exists|f: FrameV| #[trigger] all_post(frame_blocks(f), w0, w1, r)
                    && step_frame(f, raster.w(), raster.h(), raster.gray(), palette.pal(), control, gct_v(pre.global_color_table) == Some(table_bytes(palette.pal())))
            },
            None => exists|p: PreV, f: FrameV| #[trigger] all_post(pre_blocks(p) + frame_blocks(f), w0, w1, r) && step_pre(p, raster.w(), raster.h(), palette.pal(), app_v(s.loop_count))
                && step_frame(f, raster.w(), raster.h(), raster.gray(), palette.pal(), control, true)
                && (t.preamble matches Some(q) ==> q.v() == p)
                && (r is Ok ==> t.preamble is Some),
        }
    }
}
pub proof fn nhb(v: u32)
    requires v <= 256,
    ensures forall|r: u32| #[trigger] crate::std_specs::next_p2(v as nat, r as nat) ==> ({
        let k = vstd::std_specs::bits::u32_trailing_zeros(r);
        k <= 8 && v <= p2(k as nat) && (k == 0 || p2((k - 1) as nat) < v)
    }),
{
    p2_vals();
    assert forall|r: u32| #[trigger] crate::std_specs::next_p2(v as nat, r as nat) implies ({
        let k = vstd::std_specs::bits::u32_trailing_zeros(r);
        k <= 8 && v <= p2(k as nat) && (k == 0 || p2((k - 1) as nat) < v)
    }) by {
        let k = choose|k: nat| #[trigger] p2(k) == r && (k == 0 || p2((k - 1) as nat) < v);
        if k > 8 { if k > 9 { p2_mono(8, (k - 1) as nat); } }
        vstd::std_specs::bits::axiom_u32_trailing_zeros(r);
        let t = vstd::std_specs::bits::u32_trailing_zeros(r);
        assert(t <= 32 && (r >> t) & 1 == 1 ==> (r == 1 ==> t == 0) && (r == 2 ==> t == 1) && (r == 4 ==> t == 2) && (r == 8 ==> t == 3) && (r == 16 ==> t == 4)
            && (r == 32 ==> t == 5) && (r == 64 ==> t == 6) && (r == 128 ==> t == 7) && (r == 256 ==> t == 8)) by (bit_vector);
    }
}
