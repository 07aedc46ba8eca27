// elementary stream headers: H.264 nal units and parameter sets (N01, N02), audio headers (N03)
#include "common.h"
#include <mgmedia.h>
#include <mg/media/h264nal.h>
#include "mp4/aac.h"
#include "mp4/mpeg2au.h"
#include "h264ref.h"

using namespace MGCORE;

static Bytes zero_rich(pbt::Source& s, size_t n) {
    Bytes b(n); unsigned mode = (unsigned)s.pick({ 4, 2, 1 });
    for (auto& c : b) c = mode == 2 ? s.byte() : (uint8_t)(mode == 0 ? (uint8_t)s.pick({ 60, 10, 10, 12, 4 }) : s.chance(70) ? s.range(0, 3) : s.byte());
    return b;
}
// an rbsp ends with its stop bit, or with cabac zero words
static Bytes gen_rbsp(pbt::Source& s, std::string* what) {
    size_t n = s.chance(90) ? s.small(1, 40) : s.edgy(1, 4000); Bytes b = zero_rich(s, n);
    static const uint8_t ends[] = { 0x80, 0x40, 0x20, 0x10, 8, 4, 2, 1, 3, 0xff }; if (b.back() == 0 || s.chance(60)) b.back() = ends[s.pick({ 1, 1, 1, 1, 1, 1, 2, 3, 4, 1 })];
    if (s.chance(15)) { size_t k = s.small(1, 4); b.insert(b.end(), 2 * k, 0); *what += " zero words"; }
    return b;
}
static Bytes to_nal(uint8_t head, const Bytes& rbsp) { Bytes n(1, head); Bytes e = escape(rbsp); n.insert(n.end(), e.begin(), e.end()); if (!rbsp.empty() && rbsp.back() == 0) n.push_back(3); return n; }

PBT_PROP(nal_decode, 1, 0) {
    H264Nal nal; std::ostringstream log; unsigned cnt = 0, esc = 0;
    while ((!cnt || s.more(4)) && cnt < 12) { ++cnt; std::string what; Bytes r = s.chance(4) ? Bytes() : gen_rbsp(s, &what); uint8_t head = (uint8_t)(s.range(0, 3) << 5 | s.range(1, 31)); Bytes n = to_nal(head, r); if (n.size() > r.size() + 1) ++esc; if (!r.empty() && r.back() == 3) s.label("last byte 3"); if (!what.empty()) s.label("zero words");
        log << (cnt > 1 ? "; " : "") << hex(n); Bytes e(1, head); e.insert(e.end(), r.begin(), r.end()); std::unique_ptr<uint8_t[]> in(new uint8_t[n.size()]); memcpy(in.get(), n.data(), n.size());
        nal.decode_nal((unsigned)n.size(), in.get());
        Bytes g(nal.decoded_rbsp(), nal.decoded_rbsp() + nal.decoded_rbsp_size()); PBT_CHECK(g == e, "the nal unit " << hex(n, 200) << " is decoded to " << hex(g, 200) << " expected " << hex(e, 200));
        PBT_EQ(nal.get_decoded_nal_unit_type(), (unsigned)(head & 31), "type of the nal unit " << hex(n)); PBT_EQ(nal.get_decoded_nal_ref_idc(), (unsigned)(head >> 5), "reference value of the nal unit " << hex(n)); PBT_CHECK(memcmp(in.get(), n.data(), n.size()) == 0, "decoding changed the nal unit " << hex(n));
        unsigned ref = 99, type = 99, size = 0; H264Nal other; other.decode_nal_in_place(ref, type, size, (unsigned)n.size(), in.get());
        Bytes p(in.get(), in.get() + std::min<size_t>(size, n.size())); PBT_CHECK(p == e && size == e.size(), "the nal unit " << hex(n, 200) << " is decoded in place to " << hex(p, 200) << " (" << size << ") expected " << hex(e, 200)); PBT_CHECK(ref == (unsigned)(head >> 5) && type == (unsigned)(head & 31), "in place: reference value " << ref << " type " << type << " of " << hex(n)); }
    if (esc) { s.label("emulation prevention"); s.nontrivial(); } if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- parameter sets
struct HrdV { uint32_t cnt, scale1, scale2, rate[32], cpb[32], cbr, l1, l2, l3, off; };
struct SpsV {
    uint32_t profile, c0, c1, c2, c3, level, id, chroma, resid, luma, depth, bypass, scaling, frame_num, poc, lsb, always_zero, cycle, refs, gaps, w, h, mbs_only, mbaff, direct, crop, cr[4], vui;
    int32_t nonref, topbot, lastref; bool high;
    uint32_t aspect, idc, sarw, sarh, over, over_ok, sig, fmt, full, col, prim, trans, matrix, chl, cht, chb, tim, tick, scale, fixed, nal_hrd, vcl_hrd, low, pstruct, restr, mvs, r[6]; HrdV nal, vcl;
    Bytes rbsp;
};
static uint32_t big_ue(pbt::Source& s) { return (uint32_t)s.edgy(0, 0xFFFFFFFEu); }
static int32_t big_se(pbt::Source& s) { int64_t v = (int64_t)s.edgy(0, 0x7FFFFFFF); return (int32_t)(s.chance(50) ? -v : v); }
static void put_hrd(pbt::Source& s, BitW& w, HrdV& h) {
    h.cnt = (uint32_t)s.small(0, 31); w.ue(h.cnt); w.u(4, h.scale1 = (uint32_t)s.range(0, 15)); w.u(4, h.scale2 = (uint32_t)s.range(0, 15));
    for (uint32_t i = 0; i <= h.cnt; ++i) { w.ue(h.rate[i] = big_ue(s)); w.ue(h.cpb[i] = big_ue(s)); w.u(1, h.cbr = s.chance(50)); }
    w.u(5, h.l1 = (uint32_t)s.range(0, 31)); w.u(5, h.l2 = (uint32_t)s.range(0, 31)); w.u(5, h.l3 = (uint32_t)s.range(0, 31)); w.u(5, h.off = (uint32_t)(s.chance(30) ? 0 : s.range(0, 31)));
}
static void put_scaling(pbt::Source& s, BitW& w, unsigned n) { int next = 8; for (unsigned j = 0; j < n && next; ++j) { int d = s.chance(10) ? (next > 128 ? 256 - next : -next) : (int)s.irange(-128, 127); if (d > 127 || d < -128) d = 0; w.se(d); next = (next + d + 256) % 256; } }
static SpsV gen_full_sps(pbt::Source& s, bool want_vui) {
    SpsV p; memset((void*)&p, 0, offsetof(SpsV, rbsp)); static const uint32_t prof[] = { 66, 77, 88, 100, 110, 122, 244, 44, 118, 128 }; p.profile = prof[s.pick({ 3, 3, 1, 3, 1, 1, 1, 1, 1, 1 })]; BitW w; w.u(8, p.profile);
    w.u(1, p.c0 = s.chance(50)); w.u(1, p.c1 = s.chance(50)); w.u(1, p.c2 = s.chance(50)); w.u(1, p.c3 = s.chance(50)); w.u(4, 0); w.u(8, p.level = (uint32_t)s.edgy(9, 62)); w.ue(p.id = (uint32_t)s.edgy(0, 31));
    p.high = p.profile >= 100 || p.profile == 44;
    if (p.high) { w.ue(p.chroma = (uint32_t)s.range(0, 3)); if (p.chroma == 3) w.u(1, p.resid = s.chance(50)); w.ue(p.luma = (uint32_t)s.range(0, 6)); w.ue(p.depth = (uint32_t)s.range(0, 6)); w.u(1, p.bypass = s.chance(50)); w.u(1, p.scaling = s.chance(30)); if (p.scaling) { s.label("scaling lists"); for (unsigned i = 0; i < (p.chroma == 3 ? 12u : 8u); ++i) { bool f = s.chance(50); w.u(1, f); if (f) put_scaling(s, w, i < 6 ? 16 : 64); } } }
    w.ue(p.frame_num = (uint32_t)s.range(0, 12)); w.ue(p.poc = (uint32_t)s.range(0, 2));
    if (p.poc == 0) w.ue(p.lsb = (uint32_t)s.range(0, 12)); else if (p.poc == 1) { w.u(1, p.always_zero = s.chance(50)); w.se(p.nonref = big_se(s)); w.se(p.topbot = big_se(s)); w.ue(p.cycle = (uint32_t)(s.chance(80) ? s.small(0, 10) : s.edgy(0, 255))); for (uint32_t i = 0; i < p.cycle; ++i) w.se(p.lastref = big_se(s)); }
    w.ue(p.refs = (uint32_t)s.range(0, 16)); w.u(1, p.gaps = s.chance(50)); w.ue(p.w = (uint32_t)s.edgy(0, 1023)); w.ue(p.h = (uint32_t)s.edgy(0, 1023)); w.u(1, p.mbs_only = s.chance(60)); if (!p.mbs_only) w.u(1, p.mbaff = s.chance(50)); w.u(1, p.direct = s.chance(50)); w.u(1, p.crop = s.chance(40)); if (p.crop) for (auto& c : p.cr) w.ue(c = (uint32_t)s.small(0, 200));
    w.u(1, p.vui = want_vui || s.chance(50));
    if (p.vui) { w.u(1, p.aspect = s.chance(50)); if (p.aspect) { w.u(8, p.idc = s.chance(50) ? 255 : (uint32_t)s.range(0, 16)); if (p.idc == 255) { w.u(16, p.sarw = (uint32_t)s.edgy(0, 65535)); w.u(16, p.sarh = (uint32_t)s.edgy(0, 65535)); } }
        w.u(1, p.over = s.chance(50)); if (p.over) w.u(1, p.over_ok = s.chance(50)); w.u(1, p.sig = s.chance(50)); if (p.sig) { w.u(3, p.fmt = (uint32_t)s.range(0, 7)); w.u(1, p.full = s.chance(50)); w.u(1, p.col = s.chance(50)); if (p.col) { w.u(8, p.prim = s.byte()); w.u(8, p.trans = s.byte()); w.u(8, p.matrix = s.byte()); } }
        w.u(1, p.chl = s.chance(50)); if (p.chl) { w.ue(p.cht = (uint32_t)s.range(0, 5)); w.ue(p.chb = (uint32_t)s.range(0, 5)); } w.u(1, p.tim = s.chance(60)); if (p.tim) { w.u(32, p.tick = (uint32_t)s.edgy(0, 0xFFFFFFFFu)); w.u(32, p.scale = (uint32_t)s.edgy(0, 0xFFFFFFFFu)); w.u(1, p.fixed = s.chance(50)); }
        w.u(1, p.nal_hrd = s.chance(40)); if (p.nal_hrd) put_hrd(s, w, p.nal); w.u(1, p.vcl_hrd = s.chance(40)); if (p.vcl_hrd) put_hrd(s, w, p.vcl); if (p.nal_hrd || p.vcl_hrd) w.u(1, p.low = s.chance(50)); w.u(1, p.pstruct = s.chance(want_vui ? 85 : 50));
        w.u(1, p.restr = s.chance(50)); if (p.restr) { w.u(1, p.mvs = s.chance(50)); for (auto& c : p.r) w.ue(c = (uint32_t)s.edgy(0, 16)); } }
    w.trailing(); p.rbsp = w.b; return p;
}
struct PpsV { uint32_t id, sid, cabac, bottom, groups, map, run[8], tl[8], br[8], dir, rate, l0, l1, wp, wb, deb, intra, red, ext, t8, mat; int32_t qp, qs, cq, cq2; Bytes rbsp; };
static PpsV gen_full_pps(pbt::Source& s) {
    PpsV p; memset((void*)&p, 0, offsetof(PpsV, rbsp)); BitW w; w.ue(p.id = (uint32_t)s.edgy(0, 255)); w.ue(p.sid = (uint32_t)s.edgy(0, 31)); w.u(1, p.cabac = s.chance(50)); w.u(1, p.bottom = s.chance(50)); w.ue(p.groups = s.chance(60) ? 0 : (uint32_t)s.range(1, 7));
    if (p.groups) { w.ue(p.map = (uint32_t)s.range(0, 5)); if (p.map == 0) for (uint32_t i = 0; i <= p.groups; ++i) w.ue(p.run[i] = (uint32_t)s.edgy(0, 8159)); else if (p.map == 2) for (uint32_t i = 0; i < p.groups; ++i) { w.ue(p.tl[i] = (uint32_t)s.edgy(0, 8159)); w.ue(p.br[i] = (uint32_t)s.edgy(0, 8159)); } else if (p.map >= 3) { w.u(1, p.dir = s.chance(50)); w.ue(p.rate = (uint32_t)s.edgy(0, 8159)); } }
    w.ue(p.l0 = (uint32_t)s.edgy(0, 31)); w.ue(p.l1 = (uint32_t)s.edgy(0, 31)); w.u(1, p.wp = s.chance(50)); w.u(2, p.wb = (uint32_t)s.range(0, 2)); w.se(p.qp = (int32_t)s.irange(-62, 25)); w.se(p.qs = (int32_t)s.irange(-26, 25)); w.se(p.cq = (int32_t)s.irange(-12, 12)); w.u(1, p.deb = s.chance(50)); w.u(1, p.intra = s.chance(50)); w.u(1, p.red = s.chance(50));
    p.ext = s.chance(50); if (p.ext) { w.u(1, p.t8 = s.chance(50)); w.u(1, p.mat = s.chance(40)); if (p.mat) for (uint32_t i = 0; i < 6 + 2 * p.t8; ++i) { bool f = s.chance(50); w.u(1, f); if (f) put_scaling(s, w, i < 6 ? 16 : 64); } w.se(p.cq2 = (int32_t)s.irange(-12, 12)); }
    w.trailing(); p.rbsp = w.b; return p;
}
// the nal unit as it is in a stream, through the decoder of the code
struct Rbsp { H264Nal n; std::unique_ptr<FixedMemoryBitstream> m; unsigned size; Rbsp(uint8_t head, const Bytes& r) { Bytes b = to_nal(head, r); n.decode_nal((unsigned)b.size(), b.data()); size = n.decoded_rbsp_size() - 1; m.reset(new FixedMemoryBitstream(n.decoded_rbsp() + 1, size)); } };

#define F(v, want) do { if ((uint64_t)(v) != (uint64_t)(want)) { std::ostringstream _o; _o << #v << " is " << (v) << " expected " << (want); return _o.str(); } } while (0)
static std::string hrd_diff(const hrd_parameters* h, const HrdV& e, const char* which) {
    if (!h) return std::string(which) + " is missing"; F(h->cpb_cnt_minus1, e.cnt); F(h->bit_rate_scale, e.scale1); F(h->cpb_size_scale, e.scale2);
    for (uint32_t i = 0; i <= e.cnt; ++i) { F(h->bit_rate_value_minus1[i], e.rate[i]); F(h->cpb_size_value_minus1[i], e.cpb[i]); }
    F(h->initial_cpb_removal_delay_length_minus1, e.l1); F(h->cpb_removal_delay_length_minus1, e.l2); F(h->dpb_output_delay_length_minus1, e.l3); F(h->time_offset_length, e.off); return "";
}
static std::string sps_diff(const H264Sequence& q, const SpsV& e) {
    F(q.profile_idc, e.profile); F(q.constraint_set0_flag, e.c0); F(q.constraint_set1_flag, e.c1); F(q.constraint_set2_flag, e.c2); F(q.constraint_set3_flag, e.c3); F(q.level_idc, e.level); F(q.seq_parameter_set_id, e.id);
    if (e.high) { F(q.chroma_format_idc, e.chroma); if (e.chroma == 3) F(q.residual_color_transform_flag, e.resid); F(q.bit_depth_luma, e.luma); F(q.bit_depth_chroma, e.depth); F(q.transform_bypass, e.bypass); }
    F(q.log2_max_frame_num_minus4, e.frame_num); F(q.pic_order_cnt_type, e.poc); if (e.poc == 0) F(q.log2_max_pic_order_cnt_lsb_minus4, e.lsb); if (e.poc == 1) { F(q.delta_pic_order_always_zero_flag, e.always_zero); F((int)q.offset_for_non_ref_pic, e.nonref); F((int)q.offset_for_top_to_bottom_field, e.topbot); F(q.num_ref_frames_in_pic_order_cnt_cycle, e.cycle); if (e.cycle) F((int)q.offset_for_ref_frame, e.lastref); }
    F(q.num_ref_frames, e.refs); F(q.gaps_in_frame_num_value_allowed_flag, e.gaps); F(q.pic_width_in_mbs_minus1, e.w); F(q.pic_height_in_map_units_minus1, e.h); F(q.frame_mbs_only_flag, e.mbs_only); F(q.mb_adaptive_frame_field_flag, e.mbaff); F(q.direct_8x8_inference_flag, e.direct); F(q.frame_cropping_flag, e.crop);
    if (e.crop) { F(q.frame_crop_left_offset, e.cr[0]); F(q.frame_crop_right_offset, e.cr[1]); F(q.frame_crop_top_offset, e.cr[2]); F(q.frame_crop_bottom_offset, e.cr[3]); } F(q.vui_parameters_present_flag, e.vui); F(!!q.VUI, e.vui);
    if (e.vui) { const vui_parameters& v = *q.VUI; F(v.aspect_ratio_info_present_flag, e.aspect); if (e.aspect) { F(v.aspect_ratio_idc, e.idc); if (e.idc == 255) { F(v.sar_width, e.sarw); F(v.sar_height, e.sarh); } } F(v.overscan_info_present_flag, e.over); if (e.over) F(v.overscan_appropriate_flag, e.over_ok); F(v.video_signal_type_present_flag, e.sig); if (e.sig) { F(v.video_format, e.fmt); F(v.video_full_range_flag, e.full); F(v.colour_description_present_flag, e.col); if (e.col) { F(v.colour_primaries, e.prim); F(v.transfer_characteristics, e.trans); F(v.matrix_coefficients, e.matrix); } }
        F(v.chroma_loc_info_present_flag, e.chl); if (e.chl) { F(v.chroma_sample_loc_type_top_field, e.cht); F(v.chroma_sample_loc_type_bottom_field, e.chb); } F(v.timing_info_present_flag, e.tim); if (e.tim) { F(v.num_units_in_tick, e.tick); F(v.time_scale, e.scale); F(v.fixed_frame_rate_flag, e.fixed); }
        F(v.nal_hrd_parameters_present_flag, e.nal_hrd); if (e.nal_hrd) { std::string d = hrd_diff(v.HRD, e.nal, "HRD"); if (!d.empty()) return d; } F(v.vcl_hrd_parameters_present_flag, e.vcl_hrd); if (e.vcl_hrd) { std::string d = hrd_diff(v.VLC_HRD, e.vcl, "VLC_HRD"); if (!d.empty()) return d; } if (e.nal_hrd || e.vcl_hrd) F(v.low_delay_hrd_flag, e.low);
        F(v.pic_struct_present_flag, e.pstruct); F(v.bitstream_restriction_flag, e.restr); if (e.restr) { F(v.motion_vectors_over_pic_boundaries_flag, e.mvs); F(v.max_bytes_per_pic_denom, e.r[0]); F(v.max_bits_per_mb_denom, e.r[1]); F(v.log2_max_mv_length_horizontal, e.r[2]); F(v.log2_max_mv_length_vertical, e.r[3]); F(v.num_reorder_frames, e.r[4]); F(v.max_dec_frame_buffering, e.r[5]); } }
    return "";
}
static std::string pps_diff(const pic_parameter_set_rbsp& q, const PpsV& e, bool ext) {
    F(q.pic_parameter_set_id, e.id); F(q.seq_parameter_set_id, e.sid); F(q.entropy_coding_mode_flag, e.cabac); F(q.pic_order_present_flag, e.bottom); F(q.num_slice_groups_minus1, e.groups);
    if (e.groups) { F(q.slice_group_map_type, e.map); if (e.map == 0) for (uint32_t i = 0; i <= e.groups; ++i) F(q.run_length_minus1[i], e.run[i]); if (e.map == 2) for (uint32_t i = 0; i < e.groups; ++i) { F(q.top_left[i], e.tl[i]); F(q.bottom_right[i], e.br[i]); } if (e.map >= 3) { F(q.slice_group_change_direction_flag, e.dir); F(q.slice_group_change_rate_minus1, e.rate); } }
    F(q.num_ref_idx_l0_active_minus1, e.l0); F(q.num_ref_idx_l1_active_minus1, e.l1); F(q.weighted_pred_flag, e.wp); F(q.weighted_bipred_idc, e.wb); F(q.pic_init_qp_minus26, e.qp); F(q.pic_init_qs_minus26, e.qs); F(q.chroma_qp_index_offset, e.cq); F(q.deblocking_filter_control_present_flag, e.deb); F(q.constrained_intra_pred_flag, e.intra); F(q.redundant_pic_cnt_present_flag, e.red);
    if (ext) { F(q.extended, e.ext); if (e.ext) { F(q.transform_8x8_mode_flag, e.t8); F(q.pic_scaling_matrix_present_flag, e.mat); F(q.second_chroma_qp_index_offset, e.cq2); } } return "";
}
PBT_PROP(parameter_sets, 3, 0) {
    uint8_t ref = (uint8_t)(s.range(1, 3) << 5);
    if (s.chance(60)) { SpsV e = gen_full_sps(s, false); Rbsp r(ref | 7, e.rbsp); H264Sequence q; int ret = q.get(*r.m); std::string d = sps_diff(q, e); PBT_CHECK(d.empty(), "sequence parameter set " << hex(e.rbsp, 200) << ": " << d); PBT_EQ(ret, 0, "unexpected values in the sequence parameter set " << hex(e.rbsp, 200)); PBT_CHECK(r.m->atend(), "sequence parameter set " << hex(e.rbsp, 200) << ": read up to bit " << r.m->getpos() << " of " << r.size * 8);
        if (e.vui) { s.label("vui"); if (e.nal_hrd || e.vcl_hrd) s.label("hrd"); } if (e.vui || e.high || e.poc == 1) s.nontrivial(); if (s.want_sample()) s.sample("sps " + hex(e.rbsp)); }
    else { PpsV e = gen_full_pps(s); bool sized = s.chance(75); Rbsp r(ref | 8, e.rbsp); std::unique_ptr<pic_parameter_set_rbsp> q(sized ? new pic_parameter_set_rbsp(r.size) : new pic_parameter_set_rbsp); int ret = q->get(*r.m); std::string d = pps_diff(*q, e, sized); PBT_CHECK(d.empty(), "picture parameter set " << hex(e.rbsp, 200) << (sized ? " of known size: " : ": ") << d);
        if (sized || !e.ext) { PBT_EQ(ret, 0, "unexpected values in the picture parameter set " << hex(e.rbsp, 200)); PBT_CHECK(r.m->atend(), "picture parameter set " << hex(e.rbsp, 200) << ": read up to bit " << r.m->getpos() << " of " << r.size * 8); } s.label(e.ext ? "extended pps" : "pps"); if (e.groups || e.ext) s.nontrivial(); if (s.want_sample()) s.sample("pps " + hex(e.rbsp)); }
}
PBT_PROP(slices, 2, 0) {
    SpsV e = gen_full_sps(s, false); PpsV pe = gen_full_pps(s); Rbsp r(0x67, e.rbsp); H264Sequence q; q.get(*r.m); Rbsp pr(0x68, pe.rbsp); pic_parameter_set_rbsp pq; pq.get(*pr.m);
    std::ostringstream log; unsigned n = 0;
    while ((!n || s.more(3)) && n < 8) { ++n; static const uint8_t types[] = { 1, 5, 2, 3 }; uint8_t type = types[s.pick({ 4, 3, 1, 0 })], refi = (uint8_t)(type == 5 ? s.range(1, 3) : s.range(0, 3)); BitW w; uint32_t mb, st, id, fn, field = 0, bot = 0, idr = 0, lsb = 0, red = 0, direct = 0, over = 0, l0 = 0, l1 = 0; int32_t db = 0, d0 = 0, d1 = 0;
        w.ue(mb = (uint32_t)s.edgy(0, 36863)); w.ue(st = (uint32_t)s.range(0, 9)); w.ue(id = (uint32_t)s.edgy(0, 255)); w.u(e.frame_num + 4, fn = (uint32_t)s.edgy(0, (1u << (e.frame_num + 4)) - 1)); if (!e.mbs_only) { w.u(1, field = s.chance(50)); if (field) w.u(1, bot = s.chance(50)); } if (type == 5) w.ue(idr = (uint32_t)s.edgy(0, 65535));
        if (e.poc == 0) { w.u(e.lsb + 4, lsb = (uint32_t)s.edgy(0, (1u << (e.lsb + 4)) - 1)); if (pe.bottom && !field) w.se(db = big_se(s)); } if (e.poc == 1 && !e.always_zero) { w.se(d0 = big_se(s)); if (pe.bottom && !field) w.se(d1 = big_se(s)); } if (pe.red) w.ue(red = (uint32_t)s.edgy(0, 127));
        uint32_t k = st % 5; if (k == 1) w.u(1, direct = s.chance(50)); if (k == 0 || k == 1 || k == 3) { w.u(1, over = s.chance(50)); if (over) { w.ue(l0 = (uint32_t)s.edgy(0, 31)); if (k == 1) w.ue(l1 = (uint32_t)s.edgy(0, 31)); } }
        unsigned bits = w.n; Bytes more = s.bytes(s.small(8, 30)); for (uint8_t c : more) w.u(8, c); w.trailing(); Rbsp sr((uint8_t)(refi << 5 | type), w.b); slice_header sh(q, pq, sr.n.get_decoded_nal_unit_type(), sr.n.get_decoded_nal_ref_idc()); sh.get(*sr.m);
        std::string d = [&]() -> std::string { F(sh.first_mb_in_slice, mb); F(sh.slice_type, st); F(sh.pic_parameter_set_id, id); F(sh.frame_num, fn); if (!e.mbs_only) { F(sh.field_pic_flag, field); if (field) F(sh.bottom_field_flag, bot); } if (type == 5) F(sh.idr_pic_id, idr); if (e.poc == 0) { F(sh.pic_order_cnt_lsb, lsb); if (pe.bottom && !field) F(sh.delta_pic_order_cnt_bottom, db); } if (e.poc == 1 && !e.always_zero) { F(sh.delta_pic_order_cnt[0], d0); if (pe.bottom && !field) F(sh.delta_pic_order_cnt[1], d1); } if (pe.red) F(sh.redundant_pic_cnt, red); if (k == 1) F(sh.direct_spatial_mv_pred_flag, direct); if (k == 0 || k == 1 || k == 3) { F(sh.num_ref_idx_active_override_flag, over); if (over) { F(sh.num_ref_idx_l0_active_minus1, l0); if (k == 1) F(sh.num_ref_idx_l1_active_minus1, l1); } } return ""; }();
        log << (n > 1 ? "; " : "") << "type " << st << (type == 5 ? " idr" : "") << (field ? " field" : "") << " poc " << e.poc; if (bits > 40) s.nontrivial();
        PBT_CHECK(d.empty(), "slice header " << hex(w.b, 60) << " (sps " << hex(e.rbsp, 100) << " pps " << hex(pe.rbsp, 60) << "): " << d); }
    if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(sei_timing, 2, 0) {
    SpsV e = gen_full_sps(s, true); Rbsp r(0x67, e.rbsp); H264Sequence q; q.get(*r.m); PBT_CHECK(q.VUI, "no vui in " << hex(e.rbsp, 200));
    bool timing = s.chance(85); BitW body; uint32_t ps = 0, nclock = 0, cpb = 0, dpb = 0; struct Clock { uint32_t on, ct, nuit, cnt, full, disc, drop, nf, sf, mf, hf, s, m, h; } c[3]; memset(c, 0, sizeof c);
    const HrdV* h = e.nal_hrd ? &e.nal : e.vcl_hrd ? &e.vcl : 0; if (h && e.nal_hrd && e.vcl_hrd) { /* both must agree on the lengths */ if (e.nal.l2 != e.vcl.l2 || e.nal.l3 != e.vcl.l3 || e.nal.off != e.vcl.off) timing = false; }
    unsigned off = h ? h->off : 24;
    if (timing) { if (h) { unsigned a = h->l2 + 1, b = h->l3 + 1; body.u(a, cpb = (uint32_t)s.edgy(0, (uint32_t)((1ull << a) - 1))); body.u(b, dpb = (uint32_t)s.edgy(0, (uint32_t)((1ull << b) - 1))); }
        if (e.pstruct) { static const uint32_t num[] = { 1, 1, 1, 2, 2, 3, 3, 2, 3 }; body.u(4, ps = (uint32_t)s.range(0, 8)); nclock = num[ps]; for (uint32_t i = 0; i < nclock; ++i) { Clock& k = c[i]; body.u(1, k.on = s.chance(75)); if (!k.on) continue; body.u(2, k.ct = (uint32_t)s.range(0, 2)); body.u(1, k.nuit = s.chance(50)); body.u(5, k.cnt = (uint32_t)s.range(0, 6)); body.u(1, k.full = s.chance(50)); body.u(1, k.disc = s.chance(50)); body.u(1, k.drop = s.chance(50)); body.u(8, k.nf = s.byte());
                if (k.full) { body.u(6, k.s = (uint32_t)s.range(0, 59)); body.u(6, k.m = (uint32_t)s.range(0, 59)); body.u(5, k.h = (uint32_t)s.range(0, 23)); k.sf = k.mf = k.hf = 1; } else { body.u(1, k.sf = s.chance(70)); if (k.sf) { body.u(6, k.s = (uint32_t)s.range(0, 59)); body.u(1, k.mf = s.chance(70)); if (k.mf) { body.u(6, k.m = (uint32_t)s.range(0, 59)); body.u(1, k.hf = s.chance(70)); if (k.hf) body.u(5, k.h = (uint32_t)s.range(0, 23)); } } }
                if (off) body.u(off, s.range(0, (1ull << off) - 1)); } }
        if (body.n % 8) body.trailing(); }
    uint32_t type = timing ? 1 : (uint32_t)s.edgy(0, 1100), size = timing ? (uint32_t)body.b.size() : (uint32_t)s.edgy(0, 1100); BitW w; for (uint32_t t = type; ; t -= 255) { if (t < 255) { w.u(8, t); break; } w.u(8, 255); } for (uint32_t t = size; ; t -= 255) { if (t < 255) { w.u(8, t); break; } w.u(8, 255); }
    size_t pos = w.b.size(); Bytes all = w.b; if (timing) all.insert(all.end(), body.b.begin(), body.b.end()); else { Bytes x = s.bytes(size); all.insert(all.end(), x.begin(), x.end()); } all.push_back(0x80);
    Rbsp m(6, all); sei_message sei; sei.get(*m.m); PBT_EQ((uint32_t)sei.payloadType, type, "type of the sei message " << hex(all)); PBT_EQ((uint32_t)sei.payloadSize, size, "size of the sei message " << hex(all)); if (size > 254 || type > 254) s.label("long sei");
    if (timing) { pic_timing p; p.get(*m.m, &q); std::string d = [&]() -> std::string { if (h) { F(p.cpb_removal_delay, cpb); F(p.dpb_output_delay, dpb); } F(p.NumClockTS, nclock); if (e.pstruct) F(p.pic_struct, ps); for (uint32_t i = 0; i < nclock; ++i) { F(p.clock_timestamp_flag[i], c[i].on); if (!c[i].on) continue; F(p.ct_type[i], c[i].ct); F(p.nuit_field_based_flag[i], c[i].nuit); F(p.counting_type[i], c[i].cnt); F(p.full_timestamp_flag[i], c[i].full); F(p.discontinuity_flag[i], c[i].disc); F(p.cnt_dropped_flag[i], c[i].drop); F(p.n_frames[i], c[i].nf); if (c[i].sf) F(p.seconds_value[i], c[i].s); if (c[i].mf) F(p.minutes_value[i], c[i].m); if (c[i].hf) F(p.hours_value[i], c[i].h); } return ""; }();
        PBT_CHECK(d.empty(), "picture timing " << hex(body.b, 60) << " (" << body.n << " bits, sps " << hex(e.rbsp, 200) << "): " << d); s.label("picture timing"); if (nclock) { s.nontrivial(); for (auto& k : c) if (k.on && !k.full) s.label(k.sf ? k.mf ? k.hf ? "clock h" : "clock m" : "clock s" : "clock f"); } if (h == &e.vcl) s.label("vcl only"); }
    (void)pos; if (s.want_sample()) s.sample("sei type " + std::to_string(type) + " size " + std::to_string(size) + " " + hex(all));
}

// ---------------------------------------------------------------- audio
static const uint32_t RATES[13] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
static const uint32_t CHANS[8] = { 0, 1, 2, 3, 4, 5, 6, 8 };
template<class T> static Bytes put_bytes(T& t) { WriteMemoryBitstream w(64); t.put(w); w.align(8); w.flush(); return Bytes(w.get_buffer(), w.get_buffer() + w.get_size()); }
PBT_PROP(aac_config, 2, 0) {
    uint32_t ot = s.chance(50) ? 2 : (uint32_t)s.range(1, 30), sr = (uint32_t)s.range(0, 12), ch = (uint32_t)s.range(0, 7), flen = 0, dep = 0, delay = 0, ext = 0; bool ga = ot == 1 || ot == 2; BitW w; w.u(5, ot); w.u(4, sr); w.u(4, ch);
    if (ga) { w.u(1, flen = s.chance(30)); if (flen) w.u(2, 0); else { w.u(1, dep = s.chance(30)); if (dep) w.u(14, delay = (uint32_t)s.range(0, 16383)); w.u(1, ext = 0); } } else w.u(3, 0);
    Bytes more = s.bytes(s.small(0, 5)), in = w.b; in.insert(in.end(), more.begin(), more.end());
    FixedMemoryBitstream m(in.data(), in.size()); aac_info_mp4 a; a.get(m); std::string d = [&]() -> std::string { F(a.object_type, ot); F(a.sample_rate, RATES[sr]); F(a.channels, CHANS[ch]); if (ga) { F(a.frame_length_flag, flen); if (!flen) { F(a.depends_core_coder, dep); if (dep) F(a.core_coder_delay, delay); } } return ""; }(); PBT_CHECK(d.empty(), "audio configuration " << hex(in) << ": " << d);
    if (!dep) { Bytes o = put_bytes(a); PBT_CHECK(o == w.b, "audio configuration " << hex(w.b) << " is written as " << hex(o)); aac_info_mp4 b; b.object_type = ot; b.sample_rate = RATES[sr]; b.channels = CHANS[ch]; b.frame_length_flag = flen; o = put_bytes(b); PBT_CHECK(o == w.b, "audio configuration of type " << ot << ", " << RATES[sr] << " Hz, " << CHANS[ch] << " channels is written as " << hex(o) << " expected " << hex(w.b)); }
    s.nontrivial(); s.label(ga ? "general audio" : "other types"); if (s.want_sample()) s.sample("config " + hex(in));
}
PBT_PROP(adts_frames, 3, 0) {
    struct Fr { uint32_t ver, prot, prof, sr, priv, ch, orig, home, cp, cps, len, full, num, crc; Bytes head; size_t at; }; std::vector<Fr> fr; Bytes all; unsigned n = 0;
    while ((!n || s.more(4)) && n < 20) { ++n; Fr f; f.ver = s.chance(50); f.prot = s.chance(60); f.prof = (uint32_t)s.range(0, 3); f.sr = (uint32_t)s.range(0, 12); f.ch = (uint32_t)s.range(0, 7); f.priv = s.chance(50); f.orig = s.chance(50); f.home = s.chance(50); f.cp = s.chance(50); f.cps = s.chance(50); f.full = (uint32_t)s.edgy(0, 0x7ff); f.num = (uint32_t)s.range(0, 3); f.crc = (uint32_t)s.edgy(0, 0xffff);
        uint32_t hl = f.prot ? 7 : 9; f.len = hl + (uint32_t)(s.chance(80) ? s.small(0, 60) : s.edgy(0, 8191 - hl)); BitW w; w.u(12, 0xfff); w.u(1, f.ver); w.u(2, 0); w.u(1, f.prot); w.u(2, f.prof); w.u(4, f.sr); w.u(1, f.priv); w.u(3, f.ch); w.u(1, f.orig); w.u(1, f.home); w.u(1, f.cp); w.u(1, f.cps); w.u(13, f.len); w.u(11, f.full); w.u(2, f.num); if (!f.prot) w.u(16, f.crc);
        f.head = w.b; f.at = all.size(); all.insert(all.end(), w.b.begin(), w.b.end()); Bytes body = s.bytes(f.len - hl); all.insert(all.end(), body.begin(), body.end()); fr.push_back(f); }
    FixedMemoryBitstream m(all.data(), all.size()); ADTS a; std::ostringstream log; log << fr.size() << " frames";
    for (size_t i = 0; i < fr.size(); ++i) { Fr& f = fr[i]; bool fresh = s.chance(30); ADTS own; ADTS& t = fresh ? own : a; PBT_EQ(m.getpos() / 8, (uint64_t)f.at, "position of frame " << i); t.get(m); uint32_t hl = f.prot ? 7 : 9; log << " " << f.len;
        std::string d = [&]() -> std::string { F(t.mpeg_version, f.ver); F(t.missing_protection, f.prot); F(t.mpeg_4_audio_object_minus_1, f.prof); F(t.get_mpeg_4_audio_object(), f.prof + 1); F(t.mpeg_4_sampling_frequency, RATES[f.sr]); F(t.private_bit, f.priv); F(t.channel_configuration, CHANS[f.ch]); F(t.private_bit_2, f.orig); F(t.home, f.home); F(t.copyrighted, f.cp); F(t.copyrighted_start, f.cps); F(t.frame_length, f.len); F(t.buffer_fullnes, f.full); F(t.aac_frames_minus_1, f.num); if (!f.prot) F(t.CRC, f.crc); F(t.get_body_length(), f.len - hl); return ""; }();
        PBT_CHECK(d.empty(), "header " << i << " " << hex(f.head) << ": " << d); Bytes o = put_bytes(t); PBT_CHECK(o == f.head, "header " << hex(f.head) << " is written as " << hex(o));
        ADTS n2; n2.mpeg_version = f.ver; n2.missing_protection = f.prot; n2.set_mpeg_4_audio_object(f.prof + 1); n2.mpeg_4_sampling_frequency = RATES[f.sr]; n2.private_bit = f.priv; n2.channel_configuration = CHANS[f.ch]; n2.private_bit_2 = f.orig; n2.home = f.home; n2.copyrighted = f.cp; n2.copyrighted_start = f.cps; n2.buffer_fullnes = f.full; n2.aac_frames_minus_1 = f.num; n2.CRC = f.crc; n2.set_body_length(f.len - hl); PBT_EQ(n2.frame_length, f.len, "frame length of a body of " << f.len - hl << (f.prot ? "" : " with crc")); o = put_bytes(n2); PBT_CHECK(o == f.head, "a new header is written as " << hex(o) << " expected " << hex(f.head));
        m.skipbits((uint64_t)(t.get_body_length()) * 8); if (!f.prot) s.label("crc"); }
    PBT_CHECK(m.atend(), "the walk over the frames does not end at the end"); if (fr.size() > 1) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(mpeg_audio_header, 2, 0) {
    static const int B1[3][16] = { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0 }, { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0 }, { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 } };
    static const int B2[2][16] = { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 } }; static const int FQ[3] = { 44100, 48000, 32000 };
    unsigned n = 0; Bytes all; std::vector<uint32_t> heads; while ((!n || s.more(5)) && n < 20) { ++n; uint32_t id = (uint32_t)s.pick({ 2, 0, 2, 4 }); if (id == 1) id = 3; uint32_t layer = (uint32_t)s.range(1, 3), h = 0x7ffu << 21 | id << 19 | layer << 17 | (uint32_t)s.range(0, 1) << 16 | (uint32_t)s.range(1, 14) << 12 | (uint32_t)s.range(0, 2) << 10 | (uint32_t)s.range(0, 1023); heads.push_back(h); for (int k = 24; k >= 0; k -= 8) all.push_back((uint8_t)(h >> k)); }
    FixedMemoryBitstream m(all.data(), all.size()); AudioHeader prev; bool have = false; uint32_t ph = 0;
    for (uint32_t h : heads) { AudioHeader a; PBT_EQ(a.get(m), 0, "unexpected values in the header " << std::hex << h); uint32_t id = h >> 19 & 3, l = 4 - (h >> 17 & 3), br = h >> 12 & 15, sf = h >> 10 & 3, pad = h >> 9 & 1, mode = h >> 6 & 3; int rate = (id == 3 ? B1[l - 1][br] : B2[l == 1 ? 0 : 1][br]) * 1000, fq = FQ[sf] / (id == 3 ? 1 : id == 2 ? 2 : 4); uint32_t len = l == 1 ? (uint32_t)(12 * rate / fq + pad) * 4 : (uint32_t)((l == 3 && id != 3 ? 72 : 144) * rate / fq + pad);
        std::string d = [&]() -> std::string { F(a.getLayer(), l); F(a.getBitRate(), rate); F(a.getByteRate(), rate / 8); F(a.getFrequency(), fq); F(a.getChannels(), mode == 3 ? 1 : 2); F(a.getFrameLength(), len); F(a.IsValid(), true); F(a.padding_bit, pad); F(a.private_bit, h >> 8 & 1); F(a.protection_bit, h >> 16 & 1); F(a.mode, mode); F(a.mode_extension, h >> 4 & 3); F(a.copyright, h >> 3 & 1); F(a.original_copy, h >> 2 & 1); F(a.emphasis, h & 3); uint64_t ft = (uint64_t)((double)len * 10000000.0 / (rate / 8)); F(a.getFrameTime() + 1 >= ft && a.getFrameTime() <= ft + 1, true); return ""; }();
        PBT_CHECK(d.empty(), "audio header " << std::hex << h << std::dec << ": " << d); Bytes o = put_bytes(a); uint32_t back = o.size() == 4 ? (uint32_t)o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3] : 0; PBT_EQ(back, h, "written audio header"); if (have) PBT_EQ(prev == a, ph == h, "headers " << std::hex << ph << " and " << h << " are equal"); prev = a; have = true; ph = h; }
    if (heads.size() > 1) s.nontrivial(); if (s.want_sample()) s.sample("headers " + hex(all));
}
