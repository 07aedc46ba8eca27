// what a presentation of movies has to hold, and where it is cut
#pragma once
#include "cligen.h"

struct Want { uint64_t vts = 10000000, ats = 10000000, len = 20000000, tol = 260000; std::vector<uint64_t> kbit; uint64_t abit = 96000; };
// a part of the presentation: the same pictures at every bit rate, from a time to a time; the samples of every track that belong to it
struct Part { std::vector<Clip> r; uint64_t start = 0, end = 0; std::vector<size_t> a, b; std::vector<bool> open; const Clip& c() const { return r[0]; } };
struct At { size_t part, k; };
struct Seg { uint64_t t, d; size_t a, b; };
static inline void choose(Part& p) {
    const Clip& c = p.c(); size_t n = c.m.t.size(); p.a.assign(n, 0); p.b.assign(n, 0); p.open.assign(n, false); uint64_t from = p.start; bool keyed = false;
    for (unsigned i = 0; i < n; ++i) { if (!c.m.t[i].stss) continue; auto& s = c.mv.tracks[i].s; size_t k = 0; for (size_t q = 0; q < s.size(); ++q) if (s[q].sync && hns(s[q].dts, c.mv.tracks[i].timescale) <= p.start) k = q; if (!keyed) from = c.pres(i, k); keyed = true; p.a[i] = k; }
    // no key frames at all: the picture, or the frame of the first track, at that time
    if (!keyed) { unsigned r = 0; for (unsigned i = 0; i < n; ++i) if (c.m.t[i].video) { r = i; break; } size_t q = 0; while (q + 1 < c.mv.tracks[r].s.size() && c.pres(r, q + 1) <= p.start) ++q; from = c.pres(r, q); }
    for (unsigned i = 0; i < n; ++i) { auto& s = c.mv.tracks[i].s; size_t a = p.a[i], b = s.size(); if (!c.m.t[i].stss) { while (a + 1 < s.size() && c.pres(i, a) + 10 < from) ++a; uint64_t x = c.pres(i, a); bool exact = x == from && (s[a].dts + (uint64_t)s[a].cts) * 10000000 % c.mv.tracks[i].timescale == 0 && from % 1000 == 0; p.open[i] = !exact && x < from + 11 && from < x + 11 && a + 1 < s.size(); }
        if (p.end) { b = a; while (b < s.size() && c.pres(i, b) < p.end) ++b; } p.a[i] = a; p.b[i] = b; }
}
// boundaries of the segments of one part of a track (indices of samples); the last one ends with the part
static inline void check_cuts(const Clip& c, unsigned i, const std::vector<Seg>& g, const Want& w, bool alone, const std::string& W) {
    const ref::Track& t = c.mv.tracks[i]; if (c.m.t[i].stss) { for (size_t k = 0; k < g.size(); ++k) { PBT_CHECK(t.s[g[k].a].sync, W << " segment " << k << " starts with sample " << g[k].a << ", no key frame"); uint64_t at = c.pres(i, g[k].a), need = at + w.len - w.tol; if (k + 1 < g.size()) PBT_CHECK(c.pres(i, g[k + 1].a) + 3 >= need, W << " segment " << k << " of " << c.pres(i, g[k + 1].a) - at << " is shorter than " << w.len); for (size_t q = g[k].a + 1; q < g[k].b; ++q) if (t.s[q].sync && c.pres(i, q) > need + 3) PBT_CHECK(false, W << " segment " << k << " goes on over the key frame " << q << " at " << c.pres(i, q) - at << " after its start"); } }
    else { double d = 1e7 * c.m.t[i].s[0].delta / t.timescale; for (size_t k = 0; k < g.size(); ++k) { size_t n = g[k].b - g[k].a; if (k + 1 < g.size()) PBT_CHECK(n * (d - 1) <= w.len && ((n + 1) * d > w.len - 2 || !alone), W << " segment " << k << " of " << n << " frames, length " << w.len); else PBT_CHECK((n + 1) / 2 * (d - 1) <= w.len, W << " last segment of " << n << " frames, length " << w.len); } }
}
// end of the samples of a part
static inline uint64_t part_end(const Part& p, unsigned i, size_t a) { const Clip& c = p.c(); uint64_t last = 0, end = 0; for (size_t k = a; k < p.b[i]; ++k) if (c.pres(i, k) >= last) { last = c.pres(i, k); end = last + hns(c.m.t[i].s[k].delta, c.mv.tracks[i].timescale); } return end; }
static inline std::string num(uint64_t x) { return std::to_string(x); }
// a time to cut at: behind a key frame and before the next, or between the samples of a track that are in order
static inline uint64_t start_time(pbt::Source& s, const Clip& c) { for (unsigned i = 0; i < c.m.t.size(); ++i) if (c.m.t[i].stss) { auto& t = c.mv.tracks[i]; std::vector<size_t> k; for (size_t q = 0; q < t.s.size(); ++q) if (t.s[q].sync) k.push_back(q); size_t z = (size_t)s.range(0, k.size() - 1); uint64_t lo = hns(t.s[k[z]].dts, t.timescale), hi = z + 1 < k.size() ? hns(t.s[k[z + 1]].dts, t.timescale) : lo + 1000; return hi - lo > 40 ? lo + 20 + s.range(0, hi - lo - 40) : lo + 1; } unsigned r = 0; for (unsigned i = 0; i < c.m.t.size(); ++i) if (c.m.t[i].video) { r = i; break; } return c.pres(r, (size_t)s.range(0, c.mv.tracks[r].s.size() - 1)); }
static inline uint64_t end_time(pbt::Source& s, const Part& p) { const Clip& c = p.c(); unsigned i = 0; for (unsigned k = 0; k < c.m.t.size(); ++k) if (c.m.t[k].stss) { i = k; break; } auto& t = c.mv.tracks[i]; bool order = true; for (auto& x : t.s) if (x.cts != t.s[0].cts) order = false; std::vector<size_t> k; for (size_t q = p.a[i] + 1; q < t.s.size(); ++q) if (order || t.s[q].sync) k.push_back(q); uint64_t e; if (k.empty() || s.chance(10)) { e = 0; for (unsigned q = 0; q < c.m.t.size(); ++q) e = std::max(e, part_end(p, q, p.a[q])); e += s.range(100, 10000000); } else e = c.pres(i, k[(size_t)s.range(0, k.size() - 1)]) - 20; 
    for (bool near = true; near;) { near = false; for (unsigned q = 0; q < c.m.t.size(); ++q) for (size_t x = 0; x < c.mv.tracks[q].s.size(); ++x) { uint64_t v = c.pres(q, x); if (v < e + 10 && e < v + 10) near = true; } if (near) e -= 7; } return e; }
// a movie starts with the key frame at the start time; the other tracks with the sample presented then or the next
static inline void choose_mux(Part& p) {
    choose(p); const Clip& c = p.c(); uint64_t from = 0; bool keyed = false, any = false; for (unsigned i = 0; i < c.m.t.size(); ++i) if (c.m.t[i].stss) { from = c.pres(i, p.a[i]); keyed = true; break; }
    if (!keyed) { unsigned r = 0; for (unsigned i = 0; i < c.m.t.size(); ++i) if (c.m.t[i].video) { r = i; break; } size_t q = 0; while (q + 1 < c.mv.tracks[r].s.size() && c.pres(r, q + 1) <= p.start) ++q; from = c.pres(r, q); }
    for (unsigned i = 0; i < c.m.t.size(); ++i) { if (c.m.t[i].stss) continue; auto& s = c.mv.tracks[i].s; size_t a = 0; while (a + 1 < s.size() && c.pres(i, a + 1) <= from) ++a; bool exact = c.pres(i, a) == from && (s[a].dts + (uint64_t)s[a].cts) * 10000000 % c.mv.tracks[i].timescale == 0 && from % 1000 == 0; p.open[i] = !exact && c.pres(i, a) <= from && a + 1 < s.size(); p.a[i] = a; if (!p.end) p.b[i] = s.size(); else { size_t b = a; while (b < s.size() && c.pres(i, b) < p.end) ++b; p.b[i] = b; } }
}
// the codec, picture size or rate and configuration of an output track
static inline void check_config(const ref::Track& t, const refw::Trk& rt, const std::string& V) {
    if (rt.video) { if (rt.w && rt.h) PBT_EQ(t.entry_w, rt.w, V << " width"); if (rt.w && rt.h) PBT_EQ(t.entry_h, rt.h, V << " height"); Bytes w{ (uint8_t)(rt.sps.nal.size() >> 8), (uint8_t)rt.sps.nal.size() }; w.insert(w.end(), rt.sps.nal.begin(), rt.sps.nal.end()); w.push_back(1); w.push_back((uint8_t)(rt.pps[0].size() >> 8)); w.push_back((uint8_t)rt.pps[0].size()); w.insert(w.end(), rt.pps[0].begin(), rt.pps[0].end()); PBT_CHECK(t.avcc.size() >= 6 + w.size() && t.avcc[0] == 1 && std::equal(t.avcc.begin() + 1, t.avcc.begin() + 4, rt.sps.nal.begin() + 1) && (t.avcc[4] & 3) == 3 && (t.avcc[5] & 31) == 1 && std::equal(w.begin(), w.end(), t.avcc.begin() + 6), V << " configuration " << hex(t.avcc, t.avcc.size())); }
    else { unsigned ri = 0; while (refw::RATE[ri] != rt.rate) ++ri; unsigned asc = rt.object << 11 | ri << 7 | rt.channels << 3; uint8_t w[] = { 2, (uint8_t)(asc >> 8), (uint8_t)asc }; PBT_CHECK(std::search(t.esds.begin(), t.esds.end(), w, w + 3) != t.esds.end(), V << " configuration " << hex(t.esds, t.esds.size()) << " without " << hex(w, 3)); PBT_EQ(t.channels, rt.channels == 7 ? 8 : rt.channels, V << " channels"); if (rt.rate < 65536) PBT_EQ(t.rate >> 16, rt.rate, V << " rate"); }
}
