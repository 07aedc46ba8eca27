// independent reader of a fragment, generator of groups of pictures
#pragma once
#include "mp4ref.h"
#include "mp4refw.h"

// independent reader of one fragment (ISO/IEC 14496-12, 8.8)
struct FSmp { uint64_t dur = 0, size = 0; uint32_t flags = 0; int64_t cto = 0; };
struct Frag { uint64_t moof_off = 0; uint32_t seq = 0, track = 0; bool has_tfdt = false; uint64_t tfdt = 0; uint32_t first_flags = 0; bool has_first = false, has_cto = false; std::vector<FSmp> s; Bytes data; };
inline Frag ref_fragment(const ref::Box& moof, const ref::Box& mdat, const Bytes& file) {
    using namespace ref; Frag f; uint8_t v; uint32_t fl; f.moof_off = moof.off; { Cur c = moof.need("mfhd").cur(); full(c, v, fl); f.seq = (uint32_t)c.u(4); REF_NEED(!c.left(), "mfhd has bytes more"); } REF_NEED(moof.count("traf") == 1, "track fragments: " << moof.count("traf")); const ref::Box& traf = moof.need("traf");
    uint64_t base = moof.off; uint32_t dd = 0, ds = 0, df = 0; { Cur c = traf.need("tfhd").cur(); full(c, v, fl); f.track = (uint32_t)c.u(4); if (fl & 1) base = c.u(8); if (fl & 2) c.u(4); if (fl & 8) dd = (uint32_t)c.u(4); if (fl & 0x10) ds = (uint32_t)c.u(4); if (fl & 0x20) df = (uint32_t)c.u(4); REF_NEED(!c.left(), "tfhd with flags " << fl << " has " << c.left() << " bytes more"); }
    if (const ref::Box* b = traf.find("tfdt")) { Cur c = b->cur(); full(c, v, fl); f.has_tfdt = true; f.tfdt = c.u(v ? 8 : 4); REF_NEED(!c.left(), "tfdt has bytes more"); }
    REF_NEED(traf.count("trun") == 1, "track runs: " << traf.count("trun")); Cur c = traf.need("trun").cur(); full(c, v, fl); uint32_t n = (uint32_t)c.u(4); uint64_t at = base; if (fl & 1) at += (int64_t)(int32_t)c.u(4); else at = base + moof.size + 8; if (fl & 4) { f.has_first = true; f.first_flags = (uint32_t)c.u(4); } f.has_cto = (fl & 0x800) != 0; uint64_t total = 0;
    while (n--) { FSmp x; x.dur = fl & 0x100 ? c.u(4) : dd; x.size = fl & 0x200 ? c.u(4) : ds; x.flags = fl & 0x400 ? (uint32_t)c.u(4) : df; if (fl & 0x800) { uint32_t o = (uint32_t)c.u(4); x.cto = v ? (int64_t)(int32_t)o : (int64_t)o; } total += x.size; f.s.push_back(x); } REF_NEED(!c.left(), "trun has " << c.left() << " bytes more");
    REF_NEED(at == mdat.off + mdat.head, "data offset points to " << at << ", the data is at " << mdat.off + mdat.head); REF_NEED(total == mdat.body_size, "samples of " << total << " bytes in a media box of " << mdat.body_size); f.data.assign(mdat.body, mdat.body + mdat.body_size); return f;
}
struct Sidx { uint32_t id = 0, scale = 0; uint64_t ept = 0, first = 0, size = 0, duration = 0; bool sap = false; unsigned sap_type = 0; uint64_t end = 0; };
inline Frag one_fragment(const Bytes& file, Sidx& x) { auto top = ref::parse(file.data(), file.size(), 0, "the fragment"); std::string types; for (auto& b : top) types += b.type + " "; REF_NEED(types == "styp sidx moof mdat ", "boxes of the fragment: " << types); ref::Cur c = top[1].cur(); uint8_t v; uint32_t f; ref::full(c, v, f); x.id = (uint32_t)c.u(4); x.scale = (uint32_t)c.u(4); x.ept = c.u(v ? 8 : 4); x.first = c.u(v ? 8 : 4); c.u(2); REF_NEED(c.u(2) == 1, "references of the index"); uint64_t r = c.u(4); REF_NEED(!(r >> 31), "the index refers to an index"); x.size = r; x.duration = c.u(4); r = c.u(4); x.sap = r >> 31; x.sap_type = r >> 28 & 7; REF_NEED(!(r & 0xfffffff), "delta of the access point"); REF_NEED(!c.left(), "sidx has bytes more"); x.end = top[1].off + top[1].size; return ref_fragment(top[2], top[3], file); }

// closed groups of pictures: the first is a key frame that is presented first, all are presented before the next group
inline void make_gops(pbt::Source& s, refw::Trk& t, std::vector<size_t>& cuts) {
    size_t n = t.s.size(); for (size_t i = 0; i < n; ++i) { t.s[i].delta = std::max<uint32_t>(1, std::min<uint32_t>(t.s[i].delta, t.scale * 2)); } uint64_t d = 0; for (auto& x : t.s) { x.dec = d; d += x.delta; x.off_comp = 0; x.sync = false; }
    bool reorder = t.video && s.chance(70); t.stss = t.video && (reorder || s.chance(85)); t.ctts = reorder || s.chance(20); std::vector<size_t> show(n); cuts.clear(); unsigned per = (unsigned)s.range(1, 15);
    for (size_t g = 0; g < n;) { size_t k = std::min<size_t>(n - g, s.chance(75) ? per : (size_t)s.range(1, 15)); cuts.push_back(g); for (size_t i = 0; i < k; ++i) show[g + i] = g + i; if (reorder) { if (s.chance(60)) { size_t b = (size_t)s.range(1, 3); size_t i = 1; while (i < k) { size_t m = std::min(b + 1, k - i); show[g + i] = g + i + m - 1; for (size_t q = 1; q < m; ++q) show[g + i + q] = g + i + q - 1; i += m; } } else for (size_t i = 1; i + 1 < k; ++i) std::swap(show[g + i], show[g + (size_t)s.range(i, k - 1)]); } t.s[g].sync = true; g += k; }
    uint64_t lead = 0; for (size_t i = 0; i < n; ++i) if (t.s[i].dec > t.s[show[i]].dec) lead = std::max(lead, t.s[i].dec - t.s[show[i]].dec); if (t.ctts && s.chance(30)) lead += s.small(0, 2 * t.scale); if (t.ctts) for (size_t i = 0; i < n; ++i) t.s[i].off_comp = lead + t.s[show[i]].dec - t.s[i].dec; if (!t.stss) for (auto& x : t.s) x.sync = true;
}
typedef unsigned long long ull;
inline uint64_t hns(uint64_t t, uint64_t scale) { return (uint64_t)((unsigned __int128)t * 10000000 / scale); }
// samples a..b of a track in a fragment; base is the presentation time of the first
inline void check_samples(pbt::Source& s, const Frag& f, size_t at, const ref::Track& t, size_t a, size_t b, uint64_t ts, const Bytes& file, size_t& byte_at, const std::string& W, bool cto, bool longer = false) {
    for (size_t k = a; k < b; ++k, ++at) { const FSmp& g = f.s[at]; const ref::Sample& x = t.s[k]; PBT_EQ((ull)g.size, (ull)x.size, W << " size of sample " << k); PBT_CHECK(!memcmp(&f.data[byte_at], &file[(size_t)x.off], (size_t)x.size), W << " bytes of sample " << k << " differ"); byte_at += (size_t)x.size;
        if (k + 1 < t.s.size()) { double want = (double)(t.s[k + 1].dts - x.dts) * ts / t.timescale; PBT_CHECK((longer && k + 1 == b && g.dur > want) || std::abs((double)g.dur - want) < 1.01 + ts / 1e7, W << " duration of sample " << k << " is " << g.dur << " expected " << want); }
        double want = cto ? (double)x.cts * ts / t.timescale : 0; PBT_CHECK(std::abs((double)g.cto - want) < 1.01 + ts / 1e7 + 1, W << " composition offset of sample " << k << " is " << g.cto << " expected " << want); }
}
