@@ module private
@@ top
#[allow(unused_imports)] use crate::block::*;
#[allow(unused_imports)] use crate::iospec::*;
#[allow(unused_imports)] use crate::parsespec::*;
#[allow(unused_imports)] use crate::stepspec::*;
#[allow(unused_imports)] use crate::decode::{sz_v, ss_new, sv, err_v, count_v};

@@ fn StepRaster as Clone::clone
@@ ret r
@@ spec
    ensures r.v() == self.v(),
@@ fn Step as Clone::clone
@@ ret r
@@ spec
    ensures r.raster.v() == self.raster.v(), r.graphic_control_ext == self.graphic_control_ext,
@@ fn Step::with_true_color
@@ ret r
@@ spec
    ensures r.raster == StepRaster::TrueColor(raster), r.graphic_control_ext is None,
@@ fn Step::with_indexed
@@ ret r
@@ spec
    ensures r.raster == StepRaster::Indexed(raster, palette), r.graphic_control_ext is None,
@@ fn Step::with_disposal_method
@@ ret r
@@ spec
    ensures
        set_disposal(self, r, method),
@@ fn Step::with_transparent_color
@@ ret r
@@ spec
    ensures
        set_transparent(self, r, clr),
@@ fn Step::transparent_color
@@ ret r
@@ closure 0 |$0: GraphicControl| -> (q: Option<u8>) ensures q == gce_trans($0)
@@ spec
    ensures r == gce_trans(self.ctl()),
@@ at start
    proof { assert(0u8 & 1 == 0) by (bit_vector); }
@@ fn Step::with_delay_time_cs
@@ ret r
@@ spec
    ensures
        set_delay(self, r, delay),
@@ fn Step::raster
@@ ret r
@@ spec
    requires self.raster is TrueColor,
    ensures self.raster == StepRaster::TrueColor(*r),
@@ fn Step::delay_time_cs
@@ ret r
@@ closure 0 |$0: GraphicControl| -> (q: u16) ensures q == $0.delay_time_cs
@@ spec
    ensures
        match r { Some(d) => d, None => 0 } == self.ctl().delay_time_cs,

@@ fn Decoder::new
@@ ret r
@@ spec
    ensures r.reader == reader, r.max_image_sz == Some(33554432usize),
@@ at start
    proof { assert(1usize << 25 == 33554432) by (bit_vector); }
@@ fn Decoder::max_image_sz
@@ ret r
@@ spec
    ensures r.reader == self.reader, r.max_image_sz == max_image_sz,
@@ fn Decoder::into_blocks
@@ ret r
@@ spec
    ensures r.wf(), !r.done, r.reader == self.reader, r.ps() == ps_new(self.max_image_sz),
@@ fn Decoder::into_frames
@@ ret r
@@ spec
    ensures r.wf(), fs_ok(r.fs()), r.blocks.reader == self.reader, r.fs() == fs_new(self.max_image_sz),
@@ fn Decoder::into_steps
@@ ret r
@@ spec
    ensures
        r.wf(),
        r.inner matches decode::StepsInner::Once(s) && s.ss() == ss_new(fs_new(self.max_image_sz)) && s.frames.blocks.reader == self.reader,
@@ fn Decoder::into_iter
@@ ret r
@@ spec
    ensures
        r.wf(),
        r.inner matches decode::StepsInner::Looping(s) && s.step_n == 0 && looped_file(rd(&self.reader).data, self.max_image_sz, s),
@@ fn Encoder::new
@@ ret r
@@ spec
    ensures r.writer == writer,
@@ fn Encoder::into_block_enc
@@ ret r
@@ spec
    ensures r.writer == self.writer,
@@ fn Encoder::into_frame_enc
@@ ret r
@@ spec
    ensures r.block_enc.writer == self.writer, !r.has_preamble, !r.has_trailer,
@@ fn Encoder::into_step_enc
@@ ret r
@@ spec
    ensures r.frame_enc.block_enc.writer == self.writer, r.wf(), r.preamble is None, r.loop_count is None,

@@ append
impl StepRaster {
    pub open spec fn v(&self) -> RasterV {
        match self {
            StepRaster::TrueColor(r) => RasterV::True { w: r.w(), h: r.h(), px: r.px() },
            StepRaster::Indexed(r, p) => RasterV::Indexed { w: r.w(), h: r.h(), idx: r.gray(), pal: p.pal() },
        }
    }
}
pub ghost enum RasterV {
    True { w: nat, h: nat, px: Seq<SRgba8> },
    Indexed { w: nat, h: nat, idx: Seq<u8>, pal: Seq<crate::pix::rgb::SRgb8> },
}
impl Step {
    /// the control block, or what a missing one stands for
    pub open spec fn ctl(&self) -> GraphicControl { match self.graphic_control_ext { Some(g) => g, None => gce_default() } }
    /// a control block is there if and only if some setting is not the default
    pub open spec fn has_control_if_needed(&self) -> bool { self.graphic_control_ext is Some <==> self.ctl() != gce_default() }
}
/// Step::with_disposal_method
pub open spec fn set_disposal(a: Step, b: Step, m: DisposalMethod) -> bool {
    &&& b.raster == a.raster && b.has_control_if_needed()
    &&& gce_others(a.ctl().flags, b.ctl().flags, 0x1C)
    &&& (b.ctl().flags >> 2) & 7 == disp_bits(m)
    &&& b.ctl().delay_time_cs == a.ctl().delay_time_cs
    &&& b.ctl().transparent_color_idx == a.ctl().transparent_color_idx
}
/// Step::with_transparent_color
pub open spec fn set_transparent(a: Step, b: Step, clr: Option<u8>) -> bool {
    &&& b.raster == a.raster && b.has_control_if_needed()
    &&& gce_others(a.ctl().flags, b.ctl().flags, 0x01)
    &&& gce_trans(b.ctl()) == clr
    &&& b.ctl().transparent_color_idx == (match clr { Some(t) => t, None => 0 })
    &&& b.ctl().delay_time_cs == a.ctl().delay_time_cs
}
/// Step::with_delay_time_cs
pub open spec fn set_delay(a: Step, b: Step, delay: Option<u16>) -> bool {
    &&& b.raster == a.raster && b.has_control_if_needed()
    &&& b.ctl() == (GraphicControl { delay_time_cs: (match delay { Some(d) => d, None => 0 }), ..a.ctl() })
}

pub open spec fn ps_new(max: Option<usize>) -> PS { PS { max: sz_v(max), next: Next::Header, sz: 0 } }
pub open spec fn fs_new(max: Option<usize>) -> FS { FS { ps: ps_new(max), done: false, pre: None, gce: None, desc: None, lct: None } }
pub open spec fn looped_file(d: Seq<u8>, max: Option<usize>, r: decode::StepsLooping) -> bool {
    let all = steps_run(ss_new(fs_new(max)), d);
    ||| err_v(r.err) == Some(EV::Io) && sv(r.steps@).is_prefix_of(all.steps)
    ||| sv(r.steps@) == all.steps && err_v(r.err) == all.err && (all.steps.len() > 0 ==> r.loop_count == count_v(step_next(ss_new(fs_new(max)), d).ss.looping))
}
