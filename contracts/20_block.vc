@@ module block
@@ top
#[allow(unused_imports)] use crate::lzspec::*;
#[allow(unused_imports)] use vstd::std_specs::convert::*;
#[allow(unused_imports)] use vstd::std_specs::cmp::*;

@@ fn ColorTableConfig as Default::default
@@ ret r
@@ spec
    ensures r == cfg_default(),
@@ at start
    proof { p2_vals(); }

@@ fn ColorTableConfig::new
@@ ret r
@@ spec
    ensures
        r.wf(),
        r.existence == existence, r.ordering == ordering,
        r.table_len == table_size(table_len as nat),
@@ at end
    proof {
        table_size_next(if table_len0 < 2 { 2 } else { table_len0 as nat });
        table_size_next(if table_len0 < 2 { 2 } else if table_len0 < 256 { table_len0 as nat } else { 256 });
        table_size_wf(table_len0 as nat);
    }
@@ at start
    let ghost table_len0 = table_len;

@@ fn ColorTableConfig::existence
@@ ret r
@@ spec
    ensures r == self.existence,

@@ fn ColorTableConfig::ordering
@@ ret r
@@ spec
    ensures r == self.ordering,

@@ fn ColorTableConfig::len
@@ ret r
@@ spec
    ensures r == self.slen(),

@@ fn ColorTableConfig::is_empty
@@ ret r
@@ spec
    ensures r == (self.slen() == 0),

@@ fn ColorTableConfig::len_bits
@@ ret r
@@ spec
    requires self.wf(),
    ensures r < 8, p2((r + 1) as nat) == self.table_len,
@@ at start
    proof { p2_vals(); len_bits_vals(); }
@@ loop 0
    invariant self.wf(), sz == self.table_len,
        b >= 1 ==> sz != 2, b >= 2 ==> sz != 4, b >= 3 ==> sz != 8, b >= 4 ==> sz != 16, b >= 5 ==> sz != 32, b >= 6 ==> sz != 64, b >= 7 ==> sz != 128,
@@ at loop 0 start
    proof { p2_vals(); len_bits_vals(); }
@@ at end
    proof { p2_vals(); }

@@ fn ColorTableConfig::size_bytes
@@ ret r
@@ spec
    requires self.wf(),
    ensures r == 3 * self.slen(),

@@ fn DisposalMethod as Default::default
@@ ret r
@@ spec
    ensures r == DisposalMethod::NoAction,

@@ fn DisposalMethod as From<u8>::from
@@ ret r
@@ spec
    ensures r == disp_of(n),

@@ fn u8 as From<DisposalMethod>::from
@@ ret r
@@ spec
    ensures r == disp_bits(d),

@@ fn BlockCode::from_u8
@@ ret r
@@ spec
    ensures r == (if t == 0x2C { Some(BlockCode::ImageDesc_) } else if t == 0x21 { Some(BlockCode::Extension_) } else if t == 0x3B { Some(BlockCode::Trailer_) } else { None }),

@@ fn BlockCode::signature
@@ ret r
@@ spec
    ensures r@ =~= signature(self),
@@ fn BlockCode::size
@@ ret r
@@ spec
    ensures r == block_size(self),

@@ fn ExtensionCode as From<u8>::from
@@ ret r
@@ spec
    ensures r == ext_of(n),

@@ fn u8 as From<ExtensionCode>::from
@@ ret r
@@ spec
    ensures r == ext_byte(t),

@@ fn Header as Default::default
@@ ret r
@@ spec
    ensures r.version@ =~= seq![0x38u8, 0x39, 0x61],

@@ fn Header::with_version
@@ ret r
@@ spec
    ensures r.version == version,

@@ fn Header::version
@@ ret r
@@ spec
    ensures r == self.version,

@@ fn LogicalScreenDesc as Default::default
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { screen_width: 0, screen_height: 0, flags: 0, background_color_idx: 0, pixel_aspect_ratio: 0 }),

@@ fn LogicalScreenDesc::with_screen_width
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { screen_width: screen_width, ..self }),
@@ fn LogicalScreenDesc::screen_width
@@ ret r
@@ spec
    ensures r == self.screen_width,

@@ fn LogicalScreenDesc::with_screen_height
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { screen_height: screen_height, ..self }),
@@ fn LogicalScreenDesc::screen_height
@@ ret r
@@ spec
    ensures r == self.screen_height,

@@ fn LogicalScreenDesc::with_flags
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { flags: flags, ..self }),
@@ fn LogicalScreenDesc::flags
@@ ret r
@@ spec
    ensures r == self.flags,

@@ fn LogicalScreenDesc::with_background_color_idx
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { background_color_idx: background_color_idx, ..self }),
@@ fn LogicalScreenDesc::background_color_idx
@@ ret r
@@ spec
    ensures r == self.background_color_idx,

@@ fn LogicalScreenDesc::with_pixel_aspect_ratio
@@ ret r
@@ spec
    ensures r == (LogicalScreenDesc { pixel_aspect_ratio: pixel_aspect_ratio, ..self }),
@@ fn LogicalScreenDesc::pixel_aspect_ratio
@@ ret r
@@ spec
    ensures r == self.pixel_aspect_ratio,

@@ fn LogicalScreenDesc::equal_size
@@ ret r
@@ spec
    ensures r == (self.screen_width == rhs.screen_width && self.screen_height == rhs.screen_height),
@@ fn LogicalScreenDesc::color_table_existence
@@ ret r
@@ spec
    ensures r == existence_of(self.flags & 0x80 != 0),
@@ fn LogicalScreenDesc::color_resolution
@@ ret r
@@ spec
    ensures r == p2(((self.flags >> 4) & 7) as nat + 1),
@@ at start
    proof { flag_size(self.flags); flag_size(self.flags >> 4); let f = self.flags; assert((f & 0b0111_0000u8) >> 4u8 == (f >> 4u8) & 7u8) by (bit_vector); assert((f & 0b0111_0000u8) >> 4u16 == (f >> 4u8) & 7u8) by (bit_vector); }
@@ fn LogicalScreenDesc::color_table_ordering
@@ ret r
@@ spec
    ensures r == ordering_of(self.flags & 0x08 != 0),
@@ fn LogicalScreenDesc::color_table_len
@@ ret r
@@ spec
    ensures r == p2((self.flags & 7) as nat + 1),
@@ at start
    proof { flag_size(self.flags); }
@@ fn LogicalScreenDesc::color_table_config
@@ ret r
@@ spec
    ensures r == lsd_cfg(self.flags), r.wf(),
@@ at start
    proof { flag_size(self.flags); }
@@ fn LogicalScreenDesc::with_color_table_config
@@ ret r
@@ spec
    requires tbl.wf(),
    ensures
        r.screen_width == self.screen_width, r.screen_height == self.screen_height,
        r.background_color_idx == self.background_color_idx, r.pixel_aspect_ratio == self.pixel_aspect_ratio,
        lsd_cfg(r.flags) == tbl,
        (r.flags >> 4) & 7 == r.flags & 7,
@@ at start
    proof { p2_vals(); lsd_layout(size_bits(tbl.table_len as nat)); }

@@ fn GlobalColorTable::with_colors
@@ ret r
@@ spec
    requires colors@.len() % 3 == 0,
    ensures r.colors@ == colors@,
@@ guard
    ensures colors@.len() % 3 == 0, r.colors@ == colors@,
@@ fn GlobalColorTable::len
@@ ret r
@@ spec
    ensures r == self.colors@.len() / 3,
@@ fn GlobalColorTable::is_empty
@@ ret r
@@ spec
    ensures r == (self.colors@.len() == 0),
@@ fn GlobalColorTable::colors
@@ ret r
@@ spec
    ensures r@ == self.colors@,
@@ fn GlobalColorTable as Clone::clone
@@ ret r
@@ spec
    ensures r.colors@ == self.colors@,

@@ fn LocalColorTable::with_colors
@@ ret r
@@ spec
    requires colors@.len() % 3 == 0,
    ensures r.colors@ == colors@,
@@ guard
    ensures colors@.len() % 3 == 0, r.colors@ == colors@,
@@ fn LocalColorTable::len
@@ ret r
@@ spec
    ensures r == self.colors@.len() / 3,
@@ fn LocalColorTable::is_empty
@@ ret r
@@ spec
    ensures r == (self.colors@.len() == 0),
@@ fn LocalColorTable::colors
@@ ret r
@@ spec
    ensures r@ == self.colors@,
@@ fn LocalColorTable as Clone::clone
@@ ret r
@@ spec
    ensures r.colors@ == self.colors@,

@@ fn PlainText as Default::default
@@ ret r
@@ spec
    ensures vv(r.sub_blocks@) == Seq::<Seq<u8>>::empty(), r.sub_blocks@.len() == 0,
@@ at start
    proof { assert(vv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
@@ fn PlainText as Clone::clone
@@ ret r
@@ spec
    ensures vv(r.sub_blocks@) == vv(self.sub_blocks@),
@@ at start
    proof { vv_ext(); }
@@ fn PlainText::add_sub_block
@@ spec
    requires 1 <= b@.len() < 256,
    ensures vv(final(self).sub_blocks@) == vv(old(self).sub_blocks@).push(b@),
@@ guard
    ensures 1 <= b@.len() < 256,
@@ at end
    proof { assert(vv(self.sub_blocks@) =~~= vv(old(self).sub_blocks@).push(b@)); }

@@ fn PlainText::sub_blocks
@@ ret r
@@ spec
    ensures *r == self.sub_blocks,

@@ fn Comment as Default::default
@@ ret r
@@ spec
    ensures vv(r.comments@) == Seq::<Seq<u8>>::empty(), r.comments@.len() == 0,
@@ at start
    proof { assert(vv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
@@ fn Comment as Clone::clone
@@ ret r
@@ spec
    ensures vv(r.comments@) == vv(self.comments@),
@@ at start
    proof { vv_ext(); }
@@ fn Comment::add_comment
@@ spec
    requires 1 <= b@.len() < 256,
    ensures vv(final(self).comments@) == vv(old(self).comments@).push(b@),
@@ guard
    ensures 1 <= b@.len() < 256,
@@ at end
    proof { assert(vv(self.comments@) =~~= vv(old(self).comments@).push(b@)); }

@@ fn Comment::comments
@@ ret r
@@ spec
    ensures *r == self.comments,

@@ fn Application as Default::default
@@ ret r
@@ spec
    ensures vv(r.app_data@) == Seq::<Seq<u8>>::empty(), r.app_data@.len() == 0,
@@ at start
    proof { assert(vv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
@@ fn Application as Clone::clone
@@ ret r
@@ spec
    ensures vv(r.app_data@) == vv(self.app_data@),
@@ at start
    proof { vv_ext(); }
@@ fn Application::add_app_data
@@ spec
    requires 1 <= b@.len() < 256,
    ensures vv(final(self).app_data@) == vv(old(self).app_data@).push(b@),
@@ guard
    ensures 1 <= b@.len() < 256,
@@ at end
    proof { assert(vv(self.app_data@) =~~= vv(old(self).app_data@).push(b@)); }

@@ fn Application::app_data
@@ ret r
@@ spec
    ensures *r == self.app_data,

@@ fn Unknown as Default::default
@@ ret r
@@ spec
    ensures vv(r.sub_blocks@) == Seq::<Seq<u8>>::empty(), r.sub_blocks@.len() == 0,
@@ at start
    proof { assert(vv(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
@@ fn Unknown as Clone::clone
@@ ret r
@@ spec
    ensures vv(r.sub_blocks@) == vv(self.sub_blocks@),
@@ at start
    proof { vv_ext(); }
@@ fn Unknown::add_sub_block
@@ spec
    requires 1 <= b@.len() < 256,
    ensures vv(final(self).sub_blocks@) == vv(old(self).sub_blocks@).push(b@),
@@ guard
    ensures 1 <= b@.len() < 256,
@@ at end
    proof { assert(vv(self.sub_blocks@) =~~= vv(old(self).sub_blocks@).push(b@)); }

@@ fn Unknown::ext_id
@@ ret r
@@ spec
    ensures r@ == (if self.sub_blocks@.len() == 0 { Seq::empty() } else { self.sub_blocks@[0]@ }),
@@ fn Unknown::sub_blocks
@@ ret r
@@ spec
    ensures r@ == (if self.sub_blocks@.len() == 0 { Seq::empty() } else { self.sub_blocks@.skip(1) }),

@@ fn Application::is_looping
@@ ret r
@@ spec
    ensures r == loop_id(app_id@),
@@ at start
    proof { loop_id_lits(); }
@@ fn Application::with_loop_count
@@ ret r
@@ spec
    ensures vv(r.app_data@) == loop_block(loop_count),
@@ at end
    proof { loop_id_lits(); le16_or(); assert(vv(app_data@) =~~= loop_block(loop_count)); }
@@ fn Application::loop_count
@@ ret r
@@ spec
    ensures r == loop_of(vv(self.app_data@)),
@@ at start
    proof { le16_or(); }

@@ fn GraphicControl as Default::default
@@ ret r
@@ spec
    ensures r == gce_default(),
@@ fn GraphicControl::set_flags
@@ spec
    ensures *final(self) == (GraphicControl { flags: flags, ..*old(self) }),
@@ fn GraphicControl::flags
@@ ret r
@@ spec
    ensures r == self.flags,
@@ fn GraphicControl::disposal_method
@@ ret r
@@ spec
    ensures r == gce_disp(self.flags),
@@ at start
    proof { gce_layout(self.flags); }
@@ fn GraphicControl::set_disposal_method
@@ spec
    ensures
        gce_others(old(self).flags, final(self).flags, 0x1C),
        gce_disp(final(self).flags) == disp_of(disp_bits(disposal_method)),
        (final(self).flags >> 2) & 7 == disp_bits(disposal_method),
        final(self).delay_time_cs == old(self).delay_time_cs,
        final(self).transparent_color_idx == old(self).transparent_color_idx,
@@ at end
    proof { disp_bits_range(disposal_method); gce_set_disp(old(self).flags, disp_bits(disposal_method)); }
@@ fn GraphicControl::user_input
@@ ret r
@@ spec
    ensures r == (self.flags & 2 != 0),
@@ fn GraphicControl::set_user_input
@@ spec
    ensures
        gce_others(old(self).flags, final(self).flags, 0x02),
        (final(self).flags & 2 != 0) == user_input,
        final(self).delay_time_cs == old(self).delay_time_cs,
        final(self).transparent_color_idx == old(self).transparent_color_idx,
@@ at end
    proof { gce_set_user(old(self).flags, user_input); }
@@ fn GraphicControl::delay_time_cs
@@ ret r
@@ spec
    ensures r == self.delay_time_cs,
@@ fn GraphicControl::set_delay_time_cs
@@ spec
    ensures *final(self) == (GraphicControl { delay_time_cs: delay_time_cs, ..*old(self) }),
@@ fn GraphicControl::transparent_color
@@ ret r
@@ spec
    ensures r == gce_trans(self),
@@ fn GraphicControl::transparent_color_idx
@@ ret r
@@ spec
    ensures r == self.transparent_color_idx,
@@ fn GraphicControl::set_transparent_color_idx
@@ spec
    ensures *final(self) == (GraphicControl { transparent_color_idx: transparent_color_idx, ..*old(self) }),
@@ fn GraphicControl::set_transparent_color
@@ spec
    ensures
        gce_others(old(self).flags, final(self).flags, 0x01),
        (final(self).flags & 1 != 0) == transparent_color.is_some(),
        final(self).transparent_color_idx == (match transparent_color { Some(t) => t, None => 0 }),
        gce_trans(*final(self)) == transparent_color,
        final(self).delay_time_cs == old(self).delay_time_cs,
@@ at end
    proof { gce_set_trans(old(self).flags); }

@@ fn ImageDesc as Default::default
@@ ret r
@@ spec
    ensures r == (ImageDesc { left: 0, top: 0, width: 0, height: 0, flags: 0 }),

@@ fn ImageDesc::with_left
@@ ret r
@@ spec
    ensures r == (ImageDesc { left: left, ..self }),
@@ fn ImageDesc::left
@@ ret r
@@ spec
    ensures r == self.left,

@@ fn ImageDesc::with_top
@@ ret r
@@ spec
    ensures r == (ImageDesc { top: top, ..self }),
@@ fn ImageDesc::top
@@ ret r
@@ spec
    ensures r == self.top,

@@ fn ImageDesc::with_width
@@ ret r
@@ spec
    ensures r == (ImageDesc { width: width, ..self }),
@@ fn ImageDesc::width
@@ ret r
@@ spec
    ensures r == self.width,

@@ fn ImageDesc::with_height
@@ ret r
@@ spec
    ensures r == (ImageDesc { height: height, ..self }),
@@ fn ImageDesc::height
@@ ret r
@@ spec
    ensures r == self.height,

@@ fn ImageDesc::with_flags
@@ ret r
@@ spec
    ensures r == (ImageDesc { flags: flags, ..self }),
@@ fn ImageDesc::flags
@@ ret r
@@ spec
    ensures r == self.flags,

@@ fn ImageDesc::with_interlaced
@@ ret r
@@ spec
    ensures
        r == (ImageDesc { flags: r.flags, ..self }),
        desc_others(self.flags, r.flags, 0x40),
        (r.flags & 0x40 != 0) == interlaced,
@@ at end
    proof { desc_set_interlaced(self.flags); }
@@ fn ImageDesc::interlaced
@@ ret r
@@ spec
    ensures r == (self.flags & 0x40 != 0),
@@ fn ImageDesc::color_table_existence
@@ ret r
@@ spec
    ensures r == existence_of(self.flags & 0x80 != 0),
@@ fn ImageDesc::color_table_ordering
@@ ret r
@@ spec
    ensures r == ordering_of(self.flags & 0x20 != 0),
@@ fn ImageDesc::color_table_len
@@ ret r
@@ spec
    ensures r == p2((self.flags & 7) as nat + 1),
@@ at start
    proof { flag_size(self.flags); }
@@ fn ImageDesc::color_table_config
@@ ret r
@@ spec
    ensures r == desc_cfg(self.flags), r.wf(),
@@ at start
    proof { flag_size(self.flags); }
@@ fn ImageDesc::with_color_table_config
@@ ret r
@@ spec
    requires tbl.wf(),
    ensures
        r == (ImageDesc { flags: r.flags, ..self }),
        desc_others(self.flags, r.flags, 0xA7),
        desc_cfg(r.flags) == tbl,
@@ at start
    proof { p2_vals(); desc_layout(self.flags, size_bits(tbl.table_len as nat)); }
@@ fn ImageDesc::image_sz
@@ ret r
@@ spec
    ensures r == self.width as nat * self.height as nat,
@@ at start
    proof { assert(self.width as nat * self.height as nat <= 65535 * 65535) by (nonlinear_arith) requires self.width <= 65535, self.height <= 65535; }

@@ fn ImageData as From<&Raster<Gray8>>::from
@@ ret r
@@ spec
    ensures r.data@ == raster.gray(),
@@ fn ImageData::new
@@ ret r
@@ spec
    ensures r.data@ == Seq::<u8>::empty(),
@@ fn ImageData::data
@@ ret r
@@ spec
    ensures r@ == self.data@,
@@ fn ImageData::data_mut
@@ ret r
@@ spec
    ensures *r == old(self).data, *final(r) == final(self).data,
@@ fn ImageData as Clone::clone
@@ ret r
@@ spec
    ensures r.data@ == self.data@,
@@ fn Trailer as Default::default
@@ ret r

@@ fn Block::has_sub_blocks
@@ ret r
@@ spec
    ensures r == has_subs(self.v()),

@@ fn Block as From<Header>::from
@@ ret r
@@ spec
    ensures r == Block::Header(b),

@@ fn Block as From<LogicalScreenDesc>::from
@@ ret r
@@ spec
    ensures r == Block::LogicalScreenDesc(b),

@@ fn Block as From<GlobalColorTable>::from
@@ ret r
@@ spec
    ensures r == Block::GlobalColorTable(b),

@@ fn Block as From<PlainText>::from
@@ ret r
@@ spec
    ensures r == Block::PlainText(b),

@@ fn Block as From<GraphicControl>::from
@@ ret r
@@ spec
    ensures r == Block::GraphicControl(b),

@@ fn Block as From<Comment>::from
@@ ret r
@@ spec
    ensures r == Block::Comment(b),

@@ fn Block as From<Application>::from
@@ ret r
@@ spec
    ensures r == Block::Application(b),

@@ fn Block as From<Unknown>::from
@@ ret r
@@ spec
    ensures r == Block::Unknown(b),

@@ fn Block as From<ImageDesc>::from
@@ ret r
@@ spec
    ensures r == Block::ImageDesc(b),

@@ fn Block as From<LocalColorTable>::from
@@ ret r
@@ spec
    ensures r == Block::LocalColorTable(b),

@@ fn Block as From<ImageData>::from
@@ ret r
@@ spec
    ensures r == Block::ImageData(b),

@@ fn Block as From<Trailer>::from
@@ ret r
@@ spec
    ensures r == Block::Trailer(b),

@@ fn Preamble as Default::default
@@ ret r
@@ spec
    ensures r.v().header =~= preamble_default().header, r.v().comments =~= preamble_default().comments, r.v() =~= preamble_default(),
@@ fn Preamble::screen_width
@@ ret r
@@ spec
    ensures r == self.logical_screen_desc.screen_width,
@@ fn Preamble::screen_height
@@ ret r
@@ spec
    ensures r == self.logical_screen_desc.screen_height,
@@ fn Frame::new
@@ ret r
@@ spec
    ensures r.graphic_control_ext == graphic_control_ext, r.image_desc == image_desc, r.local_color_table == local_color_table, r.image_data == image_data,
@@ fn Frame::disposal_method
@@ ret r
@@ spec
    ensures r == (match self.graphic_control_ext { Some(g) => gce_disp(g.flags), None => DisposalMethod::NoAction }),
@@ at start
    proof { assert((0u8 >> 2) & 7 & 7 == 0) by (bit_vector); }
@@ fn Frame::transparent_color
@@ ret r
@@ spec
    ensures r == (match self.graphic_control_ext { Some(g) => gce_trans(g), None => None }),

@@ fn Frame::left
@@ ret r
@@ spec
    ensures r == self.image_desc.left,

@@ fn Frame::top
@@ ret r
@@ spec
    ensures r == self.image_desc.top,

@@ fn Frame::width
@@ ret r
@@ spec
    ensures r == self.image_desc.width,

@@ fn Frame::height
@@ ret r
@@ spec
    ensures r == self.image_desc.height,

@@ fn Frame::region
@@ ret r
@@ spec
    ensures r.x == self.image_desc.left, r.y == self.image_desc.top, r.width == self.image_desc.width, r.height == self.image_desc.height,
@@ at start
    proof { crate::std_specs::u16_into_i32(self.image_desc.left); crate::std_specs::u16_into_i32(self.image_desc.top); }


@@ append
broadcast use crate::std_specs::vec_from_slice;
// ---- fields of the packed flag bytes, as the GIF89a document lays them out
pub open spec fn existence_of(b: bool) -> ColorTableExistence { if b { ColorTableExistence::Present } else { ColorTableExistence::Absent } }
pub open spec fn ordering_of(b: bool) -> ColorTableOrdering { if b { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted } }
pub open spec fn is_table_len(n: nat) -> bool { n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 || n == 256 }
/// smallest table size with room for n entries, 256 if there is none
pub open spec fn table_size(n: nat) -> nat {
    if n <= 2 { 2 } else if n <= 4 { 4 } else if n <= 8 { 8 } else if n <= 16 { 16 } else if n <= 32 { 32 } else if n <= 64 { 64 } else if n <= 128 { 128 } else { 256 }
}
impl ColorTableConfig {
    pub open spec fn wf(self) -> bool { is_table_len(self.table_len as nat) }
    pub open spec fn slen(self) -> nat { if self.existence == ColorTableExistence::Present { self.table_len as nat } else { 0 } }
}
pub open spec fn cfg_default() -> ColorTableConfig {
    ColorTableConfig { existence: ColorTableExistence::Absent, ordering: ColorTableOrdering::NotSorted, table_len: 2 }
}
pub proof fn table_size_wf(n: nat) ensures is_table_len(table_size(n)), n <= 256 ==> n <= table_size(n),
{ }
/// C13: the configured table length is the smallest power of two which has room
pub proof fn table_size_least(n: nat, m: nat)
    requires is_table_len(m), n <= m,
    ensures table_size(n) <= m,
{ }
pub proof fn table_size_next(n: nat)
    requires n >= 2,
    ensures forall|r: nat| #[trigger] crate::std_specs::next_p2(n, r) ==> table_size(n) == (if r < 256 { r } else { 256 }) && r >= 2,
{
    p2_vals();
    assert forall|r: nat| #[trigger] crate::std_specs::next_p2(n, r) implies table_size(n) == (if r < 256 { r } else { 256 }) && r >= 2 by {
        let k = choose|k: nat| #[trigger] p2(k) == r && (k == 0 || p2((k - 1) as nat) < n);
        if k > 8 { p2_mono(8, k); if k > 9 { p2_mono(8, (k - 1) as nat); } }
    }
}
pub proof fn len_bits_vals()
    ensures
        forall|b: u8| b < 7 ==> ((2usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 0),
        forall|b: u8| b < 7 ==> ((4usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 1),
        forall|b: u8| b < 7 ==> ((8usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 2),
        forall|b: u8| b < 7 ==> ((16usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 3),
        forall|b: u8| b < 7 ==> ((32usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 4),
        forall|b: u8| b < 7 ==> ((64usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 5),
        forall|b: u8| b < 7 ==> ((128usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 6),
        forall|b: u8| b < 7 ==> ((256usize >> #[trigger] ((b + 1) as u8)) != 1),
{
    assert forall|b: u8| b < 7 implies ((2usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 0) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((2usize >> c) == 1 <==> c == 1)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((4usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 1) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((4usize >> c) == 1 <==> c == 2)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((8usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 2) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((8usize >> c) == 1 <==> c == 3)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((16usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 3) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((16usize >> c) == 1 <==> c == 4)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((32usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 4) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((32usize >> c) == 1 <==> c == 5)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((64usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 5) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((64usize >> c) == 1 <==> c == 6)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((128usize >> #[trigger] ((b + 1) as u8)) == 1 <==> b == 6) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> ((128usize >> c) == 1 <==> c == 7)) by (bit_vector); }
    assert forall|b: u8| b < 7 implies ((256usize >> #[trigger] ((b + 1) as u8)) != 1) by { let c = (b + 1) as u8; assert(c >= 1 && c < 8 ==> (256usize >> c) != 1) by (bit_vector); }
}
pub proof fn flag_size(f: u8)
    ensures
        (f & 7) < 8, is_table_len(p2((f & 7) as nat + 1)),
        p2((f & 7) as nat + 1) == (2usize << ((f & 7u8) as usize)),
        p2((f & 7) as nat + 1) == (2usize << ((f & 7u8) as u16)),
        p2((f & 7) as nat + 1) == (2u16 << (f & 7u8)),
        p2((f & 7) as nat + 1) == (1u16 << ((f & 7u8) + 1)),
        p2((f & 7) as nat + 1) == (1usize << ((f & 7u8) + 1)),
{
    assert(1u16 << 1u8 == 2 && 1u16 << 2u8 == 4 && 1u16 << 3u8 == 8 && 1u16 << 4u8 == 16 && 1u16 << 5u8 == 32 && 1u16 << 6u8 == 64 && 1u16 << 7u8 == 128 && 1u16 << 8u8 == 256) by (bit_vector);
    assert(1usize << 1u8 == 2 && 1usize << 2u8 == 4 && 1usize << 3u8 == 8 && 1usize << 4u8 == 16 && 1usize << 5u8 == 32 && 1usize << 6u8 == 64 && 1usize << 7u8 == 128 && 1usize << 8u8 == 256) by (bit_vector);
    p2_vals();
    assert((f & 7u8) < 8) by (bit_vector);
    let x = f & 7u8;
    assert(2usize << 0usize == 2 && 2usize << 1usize == 4 && 2usize << 2usize == 8 && 2usize << 3usize == 16 && 2usize << 4usize == 32 && 2usize << 5usize == 64 && 2usize << 6usize == 128 && 2usize << 7usize == 256) by (bit_vector);
    assert(2usize << 0u16 == 2 && 2usize << 1u16 == 4 && 2usize << 2u16 == 8 && 2usize << 3u16 == 16 && 2usize << 4u16 == 32 && 2usize << 5u16 == 64 && 2usize << 6u16 == 128 && 2usize << 7u16 == 256) by (bit_vector);
    assert(2u16 << 0u8 == 2 && 2u16 << 1u8 == 4 && 2u16 << 2u8 == 8 && 2u16 << 3u8 == 16 && 2u16 << 4u8 == 32 && 2u16 << 5u8 == 64 && 2u16 << 6u8 == 128 && 2u16 << 7u8 == 256) by (bit_vector);
}
/// configuration announced by the flags of a logical screen descriptor
pub open spec fn lsd_cfg(f: u8) -> ColorTableConfig {
    ColorTableConfig { existence: existence_of(f & 0x80 != 0), ordering: ordering_of(f & 0x08 != 0), table_len: p2((f & 7) as nat + 1) as usize }
}
pub open spec fn desc_cfg(f: u8) -> ColorTableConfig {
    ColorTableConfig { existence: existence_of(f & 0x80 != 0), ordering: ordering_of(f & 0x20 != 0), table_len: p2((f & 7) as nat + 1) as usize }
}
/// field of a table size
pub open spec fn size_bits(n: nat) -> u8 {
    if n == 2 { 0 } else if n == 4 { 1 } else if n == 8 { 2 } else if n == 16 { 3 } else if n == 32 { 4 } else if n == 64 { 5 } else if n == 128 { 6 } else { 7 }
}
pub open spec fn lsd_right(f: u8, b: u8, p: bool, s: bool) -> bool { (f & 7 == b) && (f >> 4u8) & 7 == b && ((f & 0x80 != 0) == p) && ((f & 8 != 0) == s) }
/// the ways to put the fields of a logical screen descriptor together
pub proof fn lsd_layout(b: u8)
    requires b < 8,
    ensures
        b & 7 == b, (b << 4u8) & 0x70 == b << 4u8,
        (b << 4u8) | b == b | (b << 4u8),
        ((b | (b << 4u8)) | 8u8) | 0x80u8 == ((b | (b << 4u8)) | 0x80u8) | 8u8,
        lsd_right(b | (b << 4u8), b, false, false), lsd_right((b | (b << 4u8)) | 0x80u8, b, true, false),
        lsd_right((b | (b << 4u8)) | 8u8, b, false, true), lsd_right(((b | (b << 4u8)) | 0x80u8) | 8u8, b, true, true),
{
    assert(b < 8 ==> (b & 7 == b && (b << 4u8) & 0x70 == b << 4u8 && (b << 4u8) | b == b | (b << 4u8) && ((b | (b << 4u8)) | 8u8) | 0x80u8 == ((b | (b << 4u8)) | 0x80u8) | 8u8)) by (bit_vector);
    assert(b < 8 ==> ({
        let f = b | (b << 4u8);
        (f & 7 == b) && (f >> 4u8) & 7 == b && (f & 0x80 == 0) && (f & 8 == 0)
        && ((f | 0x80) & 7 == b) && ((f | 0x80) >> 4u8) & 7 == b && ((f | 0x80) & 0x80 != 0) && ((f | 0x80) & 8 == 0)
        && ((f | 8) & 7 == b) && ((f | 8) >> 4u8) & 7 == b && ((f | 8) & 0x80 == 0) && ((f | 8) & 8 != 0)
        && (((f | 0x80) | 8) & 7 == b) && (((f | 0x80) | 8) >> 4u8) & 7 == b && (((f | 0x80) | 8) & 0x80 != 0) && (((f | 0x80) | 8) & 8 != 0)
    })) by (bit_vector);
}
/// all flags outside `mask` are the same
pub open spec fn gce_others(a: u8, b: u8, mask: u8) -> bool { a & !mask == b & !mask }
pub open spec fn desc_others(a: u8, b: u8, mask: u8) -> bool { a & !mask == b & !mask }
pub open spec fn desc_right(f: u8, g: u8, b: u8, p: bool, s: bool) -> bool { (g & 7 == b) && ((g & 0x80 != 0) == p) && ((g & 0x20 != 0) == s) && g & !0xA7u8 == f & !0xA7u8 }
/// the ways to put the fields of an image descriptor together
pub proof fn desc_layout(f: u8, b: u8)
    requires b < 8,
    ensures ({
        let g = (f & 0x58) | b;
        &&& b & 7 == b
        &&& 0x40u8 | 0x18u8 == 0x58 && 0x18u8 | 0x40u8 == 0x58
        &&& b | (f & 0x58) == g
        &&& (g | 0x20u8) | 0x80u8 == (g | 0x80u8) | 0x20u8
        &&& desc_right(f, g, b, false, false) && desc_right(f, g | 0x80u8, b, true, false) && desc_right(f, g | 0x20u8, b, false, true)
        &&& desc_right(f, (g | 0x80u8) | 0x20u8, b, true, true)
    }),
{
    let g = (f & 0x58) | b;
    assert(b < 8 ==> (b & 7 == b && 0x40u8 | 0x18u8 == 0x58 && 0x18u8 | 0x40u8 == 0x58 && b | (f & 0x58) == (f & 0x58) | b)) by (bit_vector);
    assert((g | 0x20u8) | 0x80u8 == (g | 0x80u8) | 0x20u8) by (bit_vector);
    assert(b < 8 ==> ({
        let g = (f & 0x58) | b;
        (g & 7 == b) && (g & 0x80 == 0) && (g & 0x20 == 0) && g & !0xA7u8 == f & !0xA7u8
        && ((g | 0x80) & 7 == b) && ((g | 0x80) & 0x80 != 0) && ((g | 0x80) & 0x20 == 0) && (g | 0x80) & !0xA7u8 == f & !0xA7u8
        && ((g | 0x20) & 7 == b) && ((g | 0x20) & 0x80 == 0) && ((g | 0x20) & 0x20 != 0) && (g | 0x20) & !0xA7u8 == f & !0xA7u8
        && (((g | 0x80) | 0x20) & 7 == b) && (((g | 0x80) | 0x20) & 0x80 != 0) && (((g | 0x80) | 0x20) & 0x20 != 0) && ((g | 0x80) | 0x20) & !0xA7u8 == f & !0xA7u8
    })) by (bit_vector);
}
pub proof fn desc_set_interlaced(f: u8)
    ensures
        (f | 0x40u8) & 0x40 != 0, (f & !0x40u8) & 0x40 == 0,
        (f | 0x40u8) & !0x40u8 == f & !0x40u8, (f & !0x40u8) & !0x40u8 == f & !0x40u8,
        (f & !0x40u8) | 0x40u8 == f | 0x40u8, (f & !0x40u8) | 0u8 == f & !0x40u8, 0u8 << 6u8 == 0, 1u8 << 6u8 == 0x40,
{
    assert((f & !0x40u8) | 0x40u8 == f | 0x40u8 && (f & !0x40u8) | 0u8 == f & !0x40u8 && 0u8 << 6u8 == 0 && 1u8 << 6u8 == 0x40) by (bit_vector);
    assert((f | 0x40u8) & 0x40 != 0 && (f & !0x40u8) & 0x40 == 0 && (f | 0x40u8) & !0x40u8 == f & !0x40u8 && (f & !0x40u8) & !0x40u8 == f & !0x40u8) by (bit_vector);
}
pub open spec fn disp_of(n: u8) -> DisposalMethod {
    let k = n & 7;
    if k == 0 { DisposalMethod::NoAction } else if k == 1 { DisposalMethod::Keep } else if k == 2 { DisposalMethod::Background } else if k == 3 { DisposalMethod::Previous } else { DisposalMethod::Reserved(n) }
}
pub open spec fn disp_bits(d: DisposalMethod) -> u8 {
    match d { DisposalMethod::NoAction => 0, DisposalMethod::Keep => 1, DisposalMethod::Background => 2, DisposalMethod::Previous => 3, DisposalMethod::Reserved(n) => n & 7 }
}
pub open spec fn disp_valid(d: DisposalMethod) -> bool { d matches DisposalMethod::Reserved(n) ==> 4 <= n < 8 }
pub proof fn disp_bits_range(d: DisposalMethod)
    ensures disp_bits(d) < 8, disp_valid(d) ==> disp_of(disp_bits(d)) == d,
{
    if let DisposalMethod::Reserved(n) = d { assert((n & 7u8) < 8 && (n < 8 ==> n & 7u8 == n) && ((n & 7u8) & 7u8) == n & 7u8) by (bit_vector); }
    assert(0u8 & 7u8 == 0 && 1u8 & 7u8 == 1 && 2u8 & 7u8 == 2 && 3u8 & 7u8 == 3) by (bit_vector);
}
pub open spec fn gce_default() -> GraphicControl { GraphicControl { flags: 0, delay_time_cs: 0, transparent_color_idx: 0 } }
pub open spec fn gce_disp(f: u8) -> DisposalMethod { disp_of((f >> 2) & 7) }
pub open spec fn gce_trans(g: GraphicControl) -> Option<u8> { if g.flags & 1 != 0 { Some(g.transparent_color_idx) } else { None } }
pub proof fn gce_layout(f: u8)
    ensures (f & 0b0001_1100u8) >> 2u8 == (f >> 2) & 7,
{ assert((f & 0b0001_1100u8) >> 2u8 == (f >> 2) & 7u8) by (bit_vector); }
pub proof fn gce_set_disp(f: u8, d: u8)
    requires d < 8,
    ensures ({ let g = (f & !0b0001_1100u8) | (d << 2u8); (g >> 2) & 7 == d && g & !0x1Cu8 == f & !0x1Cu8 && d & 7 == d }),
{ assert(d < 8 ==> ({ let g = (f & !0b0001_1100u8) | (d << 2u8); (g >> 2) & 7 == d && g & !0x1Cu8 == f & !0x1Cu8 && d & 7 == d })) by (bit_vector); }
pub proof fn gce_set_user(f: u8, u: bool)
    ensures
        ({ let g = (f & !0b0000_0010u8) | (((if u { 1u8 } else { 0u8 }) << 1u8) as u8); ((g & 2 != 0) == u) && g & !0x02u8 == f & !0x02u8 }),
        (f | 2u8) & 2 != 0, (f & !2u8) & 2 == 0, (f | 2u8) & !2u8 == f & !2u8, (f & !2u8) & !2u8 == f & !2u8,
        (f & !2u8) | 2u8 == f | 2u8, (f & !2u8) | 0u8 == f & !2u8,
{
  assert((f | 2u8) & 2 != 0 && (f & !2u8) & 2 == 0 && (f | 2u8) & !2u8 == f & !2u8 && (f & !2u8) & !2u8 == f & !2u8) by (bit_vector);
  assert((f & !2u8) | 2u8 == f | 2u8 && (f & !2u8) | 0u8 == f & !2u8) by (bit_vector);
  assert(({ let g = (f & !0b0000_0010u8) | (((if u { 1u8 } else { 0u8 }) << 1u8) as u8); ((g & 2 != 0) == u) && g & !0x02u8 == f & !0x02u8 })) by (bit_vector); }
pub proof fn gce_set_trans(f: u8)
    ensures (f | 1u8) & 1 != 0, (f & !1u8) & 1 == 0, (f | 1u8) & !1u8 == f & !1u8, (f & !1u8) & !1u8 == f & !1u8, (f & !1u8) | 1u8 == f | 1u8, (f & !1u8) | 0u8 == f & !1u8,
{ assert((f & !1u8) | 1u8 == f | 1u8 && (f & !1u8) | 0u8 == f & !1u8) by (bit_vector);
  assert((f | 1u8) & 1 != 0 && (f & !1u8) & 1 == 0 && (f | 1u8) & !1u8 == f & !1u8 && (f & !1u8) & !1u8 == f & !1u8) by (bit_vector); }
/// C13: fields outside the changed mask keep their getters
pub proof fn gce_fields_independent(a: u8, b: u8)
    ensures
        gce_others(a, b, 0x1C) ==> a & 2 == b & 2 && a & 1 == b & 1 && a & 0xE0 == b & 0xE0,
        gce_others(a, b, 0x02) ==> gce_disp(a) == gce_disp(b) && a & 1 == b & 1 && a & 0xE0 == b & 0xE0,
        gce_others(a, b, 0x01) ==> gce_disp(a) == gce_disp(b) && a & 2 == b & 2 && a & 0xE0 == b & 0xE0,
{
    assert(a & !0x1Cu8 == b & !0x1Cu8 ==> a & 2 == b & 2 && a & 1 == b & 1 && a & 0xE0 == b & 0xE0) by (bit_vector);
    assert(a & !0x02u8 == b & !0x02u8 ==> (a >> 2u8) & 7 == (b >> 2u8) & 7 && a & 1 == b & 1 && a & 0xE0 == b & 0xE0) by (bit_vector);
    assert(a & !0x01u8 == b & !0x01u8 ==> (a >> 2u8) & 7 == (b >> 2u8) & 7 && a & 2 == b & 2 && a & 0xE0 == b & 0xE0) by (bit_vector);
}
pub proof fn desc_fields_independent(a: u8, b: u8)
    ensures
        desc_others(a, b, 0x40) ==> desc_cfg(a) == desc_cfg(b) && a & 0x18 == b & 0x18,
        desc_others(a, b, 0xA7) ==> a & 0x40 == b & 0x40 && a & 0x18 == b & 0x18,
{
    assert(a & !0x40u8 == b & !0x40u8 ==> a & 0x80 == b & 0x80 && a & 0x20 == b & 0x20 && a & 7 == b & 7 && a & 0x18 == b & 0x18) by (bit_vector);
    assert(a & !0xA7u8 == b & !0xA7u8 ==> a & 0x40 == b & 0x40 && a & 0x18 == b & 0x18) by (bit_vector);
}
// ---- codes
pub open spec fn signature(c: BlockCode) -> Seq<u8> {
    match c { BlockCode::ImageDesc_ => seq![0x2Cu8], BlockCode::Extension_ => seq![0x21u8], BlockCode::Trailer_ => seq![0x3Bu8], _ => Seq::empty() }
}
pub open spec fn block_size(c: BlockCode) -> nat {
    match c { BlockCode::Header_ => 6, BlockCode::LogicalScreenDesc_ => 7, BlockCode::ImageDesc_ => 10, BlockCode::Trailer_ => 1, BlockCode::Extension_ => 2, BlockCode::ImageData_ => 1, _ => 0 }
}
pub open spec fn ext_of(n: u8) -> ExtensionCode {
    if n == 1 { ExtensionCode::PlainText_ } else if n == 0xF9 { ExtensionCode::GraphicControl_ } else if n == 0xFE { ExtensionCode::Comment_ } else if n == 0xFF { ExtensionCode::Application_ } else { ExtensionCode::Unknown_(n) }
}
pub open spec fn ext_byte(t: ExtensionCode) -> u8 {
    match t { ExtensionCode::PlainText_ => 1, ExtensionCode::GraphicControl_ => 0xF9, ExtensionCode::Comment_ => 0xFE, ExtensionCode::Application_ => 0xFF, ExtensionCode::Unknown_(n) => n }
}
// ---- contents of blocks
pub open spec fn vv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn vv_ext()
    ensures forall|a: Seq<Vec<u8>>, b: Seq<Vec<u8>>| a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@) ==> #[trigger] vv(a) == #[trigger] vv(b),
{
    assert forall|a: Seq<Vec<u8>>, b: Seq<Vec<u8>>| a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@) implies #[trigger] vv(a) == #[trigger] vv(b) by { assert(vv(a) =~= vv(b)); }
}
pub open spec fn le16(n: u16) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }
pub open spec fn un16(lo: u8, hi: u8) -> u16 { (lo + 256 * hi) as u16 }
pub proof fn le16_or()
    ensures
        forall|lo: u8, hi: u8| #[trigger] (((hi as u16) << 8) | (lo as u16)) == un16(lo, hi),
        forall|lo: u8, hi: u8| #[trigger] ((lo as u16) | ((hi as u16) << 8)) == un16(lo, hi),
        forall|hi: u8| #[trigger] ((hi as u16) << 8) == 256 * hi,
        forall|n: u16| #[trigger] ((n >> 8) as u8) == (n / 256) as u8,
        forall|n: u16| #[trigger] (n as u8) == (n % 256) as u8,
        forall|n: u16| un16((n % 256) as u8, #[trigger] ((n / 256) as u8)) == n,
        forall|n: u16| #[trigger] (n & 0xFF) == n % 256,
        forall|n: u16| #[trigger] (n >> 8) == n / 256,
{
    assert forall|n: u16| #[trigger] (n & 0xFF) == n % 256 by { assert((n & 0xFFu16) == n % 256) by (bit_vector); }
    assert forall|n: u16| #[trigger] (n >> 8) == n / 256 by { assert((n >> 8u16) == n / 256) by (bit_vector); }
    assert forall|lo: u8, hi: u8| #[trigger] (((hi as u16) << 8) | (lo as u16)) == un16(lo, hi) by { assert((((hi as u16) << 8u16) | (lo as u16)) == (lo as u16) + 256 * (hi as u16)) by (bit_vector); }
    assert forall|lo: u8, hi: u8| #[trigger] ((lo as u16) | ((hi as u16) << 8)) == un16(lo, hi) by { assert(((lo as u16) | ((hi as u16) << 8u16)) == (lo as u16) + 256 * (hi as u16)) by (bit_vector); }
    assert forall|hi: u8| #[trigger] ((hi as u16) << 8) == 256 * hi by { assert(((hi as u16) << 8u16) == 256 * (hi as u16)) by (bit_vector); }
    assert forall|n: u16| #[trigger] ((n >> 8) as u8) == (n / 256) as u8 by { assert((n >> 8u16) == n / 256) by (bit_vector); }
    assert forall|n: u16| #[trigger] (n as u8) == (n % 256) as u8 by { assert(n as u8 == (n % 256) as u8) by (bit_vector); }
}
/// masks and shifts as remainders and quotients
pub proof fn small_shifts(y: usize)
    ensures y & 1 == y % 2, y & 3 == y % 4, y & 7 == y % 8, y >> 1 == y / 2, y >> 2 == y / 4, y >> 3 == y / 8,
{
    assert(y & 1usize == y % 2) by (bit_vector);
    assert(y & 3usize == y % 4) by (bit_vector);
    assert(y & 7usize == y % 8) by (bit_vector);
    assert(y >> 1usize == y / 2) by (bit_vector);
    assert(y >> 2usize == y / 4) by (bit_vector);
    assert(y >> 3usize == y / 8) by (bit_vector);
}
pub open spec fn netscape() -> Seq<u8> { seq![0x4Eu8, 0x45, 0x54, 0x53, 0x43, 0x41, 0x50, 0x45, 0x32, 0x2E, 0x30] }
pub open spec fn animexts() -> Seq<u8> { seq![0x41u8, 0x4E, 0x49, 0x4D, 0x45, 0x58, 0x54, 0x53, 0x31, 0x2E, 0x30] }
pub open spec fn loop_id(s: Seq<u8>) -> bool { s =~= netscape() || s =~= animexts() }
pub proof fn loop_id_lits() ensures true { }
/// the block NETSCAPE2.0 with sub-block 1 and the count in little-endian order
pub open spec fn loop_block(n: u16) -> Seq<Seq<u8>> { seq![netscape(), seq![1u8] + le16(n)] }
pub open spec fn loop_of(d: Seq<Seq<u8>>) -> Option<u16> {
    if d.len() == 2 && loop_id(d[0]) && d[1].len() == 3 && d[1][0] == 1 { Some(un16(d[1][1], d[1][2])) } else { None }
}
/// C14: a loop block reports its count
pub proof fn loop_count_round_trip(n: u16) ensures loop_of(loop_block(n)) == Some(n) { le16_or(); }

/// Contents of a block
pub ghost enum BV {
    Header(Seq<u8>), Lsd(LogicalScreenDesc), Gct(Seq<u8>), PlainText(Seq<Seq<u8>>), Gce(GraphicControl), Comment(Seq<Seq<u8>>),
    App(Seq<Seq<u8>>), Unknown(Seq<Seq<u8>>), Desc(ImageDesc), Lct(Seq<u8>), Data(Seq<u8>), Trailer,
}
impl Block {
    pub open spec fn v(self) -> BV {
        match self {
            Block::Header(b) => BV::Header(b.version@),
            Block::LogicalScreenDesc(b) => BV::Lsd(b),
            Block::GlobalColorTable(b) => BV::Gct(b.colors@),
            Block::PlainText(b) => BV::PlainText(vv(b.sub_blocks@)),
            Block::GraphicControl(b) => BV::Gce(b),
            Block::Comment(b) => BV::Comment(vv(b.comments@)),
            Block::Application(b) => BV::App(vv(b.app_data@)),
            Block::Unknown(b) => BV::Unknown(vv(b.sub_blocks@)),
            Block::ImageDesc(b) => BV::Desc(b),
            Block::LocalColorTable(b) => BV::Lct(b.colors@),
            Block::ImageData(b) => BV::Data(b.data@),
            Block::Trailer(_) => BV::Trailer,
        }
    }
}
pub open spec fn has_subs(b: BV) -> bool {
    match b { BV::PlainText(_) => true, BV::Gce(_) => true, BV::Comment(_) => true, BV::App(_) => true, BV::Unknown(_) => true, BV::Data(_) => true, _ => false }
}
/// Contents of a preamble and a frame
pub ghost struct PreV { pub header: Seq<u8>, pub lsd: LogicalScreenDesc, pub gct: Option<Seq<u8>>, pub looping: Option<Seq<Seq<u8>>>, pub comments: Seq<Seq<Seq<u8>>> }
pub ghost struct FrameV { pub gce: Option<GraphicControl>, pub desc: ImageDesc, pub lct: Option<Seq<u8>>, pub data: Seq<u8> }
pub open spec fn cc(s: Seq<Comment>) -> Seq<Seq<Seq<u8>>> { Seq::new(s.len(), |i: int| vv(s[i].comments@)) }
pub proof fn cc_push()
    ensures forall|s: Seq<Comment>, c: Comment| cc(#[trigger] s.push(c)) == cc(s).push(vv(c.comments@)),
{
    assert forall|s: Seq<Comment>, c: Comment| cc(#[trigger] s.push(c)) == cc(s).push(vv(c.comments@)) by { assert(cc(s.push(c)) =~= cc(s).push(vv(c.comments@))); }
}
pub open spec fn gct_v(o: Option<GlobalColorTable>) -> Option<Seq<u8>> { match o { Some(t) => Some(t.colors@), None => None } }
pub open spec fn lct_v(o: Option<LocalColorTable>) -> Option<Seq<u8>> { match o { Some(t) => Some(t.colors@), None => None } }
pub open spec fn app_v(o: Option<Application>) -> Option<Seq<Seq<u8>>> { match o { Some(t) => Some(vv(t.app_data@)), None => None } }
impl Preamble {
    pub open spec fn v(self) -> PreV {
        PreV { header: self.header.version@, lsd: self.logical_screen_desc, gct: gct_v(self.global_color_table), looping: app_v(self.loop_count_ext), comments: cc(self.comments@) }
    }
}
pub open spec fn preamble_default() -> PreV {
    PreV { header: seq![0x38u8, 0x39, 0x61], lsd: LogicalScreenDesc { screen_width: 0, screen_height: 0, flags: 0, background_color_idx: 0, pixel_aspect_ratio: 0 }, gct: None, looping: None, comments: Seq::empty() }
}
impl Frame {
    pub open spec fn v(self) -> FrameV { FrameV { gce: self.graphic_control_ext, desc: self.image_desc, lct: lct_v(self.local_color_table), data: self.image_data.data@ } }
}

impl FromSpecImpl<Header> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Header) -> Block { Block::Header(b) }
}
impl FromSpecImpl<LogicalScreenDesc> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: LogicalScreenDesc) -> Block { Block::LogicalScreenDesc(b) }
}
impl FromSpecImpl<GlobalColorTable> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: GlobalColorTable) -> Block { Block::GlobalColorTable(b) }
}
impl FromSpecImpl<PlainText> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: PlainText) -> Block { Block::PlainText(b) }
}
impl FromSpecImpl<GraphicControl> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: GraphicControl) -> Block { Block::GraphicControl(b) }
}
impl FromSpecImpl<Comment> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Comment) -> Block { Block::Comment(b) }
}
impl FromSpecImpl<Application> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Application) -> Block { Block::Application(b) }
}
impl FromSpecImpl<Unknown> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Unknown) -> Block { Block::Unknown(b) }
}
impl FromSpecImpl<ImageDesc> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: ImageDesc) -> Block { Block::ImageDesc(b) }
}
impl FromSpecImpl<LocalColorTable> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: LocalColorTable) -> Block { Block::LocalColorTable(b) }
}
impl FromSpecImpl<ImageData> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: ImageData) -> Block { Block::ImageData(b) }
}
impl FromSpecImpl<Trailer> for Block {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Trailer) -> Block { Block::Trailer(b) }
}
impl FromSpecImpl<u8> for DisposalMethod {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(n: u8) -> DisposalMethod { disp_of(n) }
}
impl FromSpecImpl<DisposalMethod> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: DisposalMethod) -> u8 { disp_bits(d) }
}
impl FromSpecImpl<u8> for ExtensionCode {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(n: u8) -> ExtensionCode { ext_of(n) }
}
impl FromSpecImpl<ExtensionCode> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ExtensionCode) -> u8 { ext_byte(d) }
}
impl<'a> FromSpecImpl<&'a Raster<Gray8>> for ImageData {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(r: &'a Raster<Gray8>) -> ImageData;
}
impl PartialEqSpecImpl for ColorTableExistence {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ColorTableExistence) -> bool { *self == *o }
}
impl PartialEqSpecImpl for ColorTableOrdering {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ColorTableOrdering) -> bool { *self == *o }
}
impl PartialEqSpecImpl for ColorTableConfig {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ColorTableConfig) -> bool { *self == *o }
}
impl PartialEqSpecImpl for DisposalMethod {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DisposalMethod) -> bool { *self == *o }
}
impl PartialEqSpecImpl for BlockCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BlockCode) -> bool { *self == *o }
}
impl PartialEqSpecImpl for ExtensionCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ExtensionCode) -> bool { *self == *o }
}
impl PartialEqSpecImpl for LogicalScreenDesc {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LogicalScreenDesc) -> bool { *self == *o }
}
impl PartialEqSpecImpl for GraphicControl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &GraphicControl) -> bool { *self == *o }
}
impl PartialEqSpecImpl for ImageDesc {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ImageDesc) -> bool { *self == *o }
}
impl PartialEqSpecImpl for Trailer {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Trailer) -> bool { *self == *o }
}
impl PartialEqSpecImpl for Header {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Header) -> bool { self.version@ =~= o.version@ }
}
impl PartialEqSpecImpl for GlobalColorTable {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &GlobalColorTable) -> bool { self.colors@ =~= o.colors@ }
}
impl PartialEqSpecImpl for LocalColorTable {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LocalColorTable) -> bool { self.colors@ =~= o.colors@ }
}
impl PartialEqSpecImpl for ImageData {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ImageData) -> bool { self.data@ =~= o.data@ }
}
impl PartialEqSpecImpl for PlainText {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &PlainText) -> bool;
}
impl PartialEqSpecImpl for Comment {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Comment) -> bool;
}
impl PartialEqSpecImpl for Application {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Application) -> bool;
}
impl PartialEqSpecImpl for Unknown {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Unknown) -> bool;
}
impl PartialEqSpecImpl for Block {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Block) -> bool;
}
impl PartialEqSpecImpl for Preamble {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Preamble) -> bool;
}