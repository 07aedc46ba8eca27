// independent writer of H.264 parameter sets (ITU-T H.264 7.3.2), from generated values
#pragma once
#include "common.h"

struct BitW {
    Bytes b; unsigned n = 0;
    void u(unsigned bits, uint64_t v) { for (unsigned i = bits; i-- > 0;) { if (n % 8 == 0) b.push_back(0); if (v >> i & 1) b.back() |= 0x80 >> n % 8; ++n; } }
    void ue(uint32_t v) { uint64_t k = (uint64_t)v + 1; unsigned l = 0; while (k >> (l + 1)) ++l; u(l, 0); u(l + 1, k); }
    void se(int32_t v) { ue(v > 0 ? 2 * (uint32_t)v - 1 : 2 * (uint32_t)-(int64_t)v); }
    void trailing() { u(1, 1); while (n % 8) u(1, 0); }
};
// emulation prevention, 7.4.1
inline Bytes escape(const Bytes& in) { Bytes o; unsigned z = 0; for (uint8_t c : in) { if (z >= 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; } return o; }

struct Sps {
    uint32_t profile, constraint, level, id, chroma = 1, frame_num, poc_type, poc_lsb = 0, refs, width_mbs, height_units, mbs_only, crop = 0, cl = 0, cr = 0, ct = 0, cb = 0, vui = 0; bool high = false;
    uint32_t width() const { return width_mbs * 16 - (cl + cr) * (chroma == 1 || chroma == 2 ? 2 : 1); }
    uint32_t height() const { return height_units * 16 * (2 - mbs_only) - (ct + cb) * (chroma == 1 ? 2 : 1) * (2 - mbs_only); }
    Bytes rbsp, nal;
};
// a parameter set for the container: picture geometry with field coding, cropping and chroma formats, no vui
inline Sps gen_sps(pbt::Source& s, bool plain_size = false) {
    Sps p; static const uint32_t prof[] = { 66, 77, 88, 100, 110, 122, 244, 44 }; p.profile = prof[s.pick({ 3, 3, 1, 3, 1, 1, 1, 1 })]; p.constraint = (uint32_t)s.range(0, 15); p.level = s.chance(70) ? 30 : (uint32_t)s.range(9, 51); p.id = (uint32_t)s.small(0, 31); p.high = p.profile >= 100 || p.profile == 44;
    BitW w; w.u(8, p.profile); w.u(4, p.constraint); w.u(4, 0); w.u(8, p.level); w.ue(p.id);
    if (p.high) { p.chroma = (uint32_t)(s.chance(60) ? 1 : s.range(0, 3)); w.ue(p.chroma); if (p.chroma == 3) w.u(1, 0); w.ue((uint32_t)s.small(0, 6)); w.ue((uint32_t)s.small(0, 6)); w.u(1, 0); w.u(1, 0); }
    p.frame_num = (uint32_t)s.small(0, 12); w.ue(p.frame_num); p.poc_type = (uint32_t)s.pick({ 3, 2, 1 }); w.ue(p.poc_type);
    if (p.poc_type == 0) { p.poc_lsb = (uint32_t)s.small(0, 12); w.ue(p.poc_lsb); } else if (p.poc_type == 1) { w.u(1, s.chance(50)); w.se((int32_t)s.irange(-100000, 100000)); w.se((int32_t)s.irange(-100000, 100000)); unsigned n = (unsigned)s.small(0, 20); w.ue(n); for (unsigned i = 0; i < n; ++i) w.se((int32_t)s.irange(-100000, 100000)); }
    p.refs = (uint32_t)s.small(0, 16); w.ue(p.refs); w.u(1, s.chance(20)); p.width_mbs = (uint32_t)(1 + s.edgy(0, 255)); p.height_units = (uint32_t)(1 + s.edgy(0, 127)); w.ue(p.width_mbs - 1); w.ue(p.height_units - 1);
    p.mbs_only = plain_size ? 1 : s.chance(30) ? 0 : 1; w.u(1, p.mbs_only); if (!p.mbs_only) w.u(1, s.chance(50)); w.u(1, s.chance(50));
    p.crop = plain_size ? 0 : s.chance(40); w.u(1, p.crop); if (p.crop) { p.cl = (uint32_t)s.small(0, 3); p.cr = (uint32_t)s.small(0, 3); p.ct = (uint32_t)s.small(0, 1); p.cb = (uint32_t)s.small(0, 2); w.ue(p.cl); w.ue(p.cr); w.ue(p.ct); w.ue(p.cb); }
    w.u(1, 0); w.trailing(); p.rbsp = w.b; Bytes e = escape(w.b); p.nal.push_back((uint8_t)(s.range(1, 3) << 5 | 7)); p.nal.insert(p.nal.end(), e.begin(), e.end()); return p;
}
inline Bytes gen_pps_nal(pbt::Source& s) {
    BitW w; w.ue((uint32_t)s.small(0, 255)); w.ue((uint32_t)s.small(0, 31)); w.u(1, s.chance(50)); w.u(1, s.chance(50)); w.ue(0); w.ue((uint32_t)s.small(0, 31)); w.ue((uint32_t)s.small(0, 31)); w.u(1, s.chance(30)); w.u(2, s.range(0, 2)); w.se((int32_t)s.irange(-26, 25)); w.se((int32_t)s.irange(-26, 25)); w.se((int32_t)s.irange(-12, 12)); w.u(3, s.range(0, 7)); w.trailing();
    Bytes e = escape(w.b); Bytes n; n.push_back((uint8_t)(s.range(1, 3) << 5 | 8)); n.insert(n.end(), e.begin(), e.end()); return n;
}
