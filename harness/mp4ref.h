// independent MP4 reader (ISO/IEC 14496-12): strict about nesting; knows nothing of the code under test
#pragma once
#include "common.h"
#include <map>
#include <cmath>

namespace ref {
struct Bad { std::string what; };
#define REF_NEED(c, msg) do { if (!(c)) { std::ostringstream ro; ro << msg; throw ref::Bad{ ro.str() }; } } while (0)
typedef long double real;

struct Cur {
    const uint8_t* p; size_t n, at = 0;
    Cur(const uint8_t* q, size_t m) : p(q), n(m) {}
    size_t left() const { return n - at; }
    uint64_t u(unsigned bytes) { REF_NEED(left() >= bytes, "box too short"); uint64_t v = 0; for (unsigned i = 0; i < bytes; ++i) v = v << 8 | p[at++]; return v; }
    Bytes take(size_t k) { REF_NEED(left() >= k, "box too short"); Bytes b(p + at, p + at + k); at += k; return b; }
    void skip(size_t k) { REF_NEED(left() >= k, "box too short"); at += k; }
};
struct Box { std::string type; uint64_t off = 0, size = 0; unsigned head = 8; Bytes uuid; const uint8_t* body = nullptr; size_t body_size = 0; std::vector<Box> kids;
    const Box* find(const std::string& t) const { for (auto& k : kids) if (k.type == t) return &k; return nullptr; }
    const Box& need(const std::string& t) const { const Box* b = find(t); REF_NEED(b, "no " << t << " in " << type); return *b; }
    size_t count(const std::string& t) const { size_t c = 0; for (auto& k : kids) c += k.type == t; return c; }
    Cur cur() const { return Cur(body, body_size); } };
inline std::vector<Box> parse(const uint8_t* p, size_t n, uint64_t off, const std::string& where, int depth = 0) {
    std::vector<Box> out; size_t at = 0; REF_NEED(depth < 12, "too deep");
    while (at < n) {
        REF_NEED(n - at >= 8, "stray " << n - at << " bytes at the end of " << where); Box b; Cur c(p + at, n - at); b.size = c.u(4); Bytes t = c.take(4); b.type.assign(t.begin(), t.end()); if (b.size == 1) { b.size = c.u(8); b.head = 16; }
        REF_NEED(b.size >= b.head && b.size <= n - at, "box '" << b.type << "' in " << where << " at " << at << " of size " << b.size << " does not fit in " << n - at); if (b.type == "uuid") { b.uuid = c.take(16); b.head += 16; REF_NEED(b.size >= b.head, "uuid box too short"); }
        b.off = off + at; b.body = p + at + b.head; b.body_size = (size_t)b.size - b.head; size_t prefix = 0; bool container = false; const std::string& y = b.type;
        if (y == "moov" || y == "trak" || y == "mdia" || y == "minf" || y == "dinf" || y == "stbl" || y == "edts" || y == "moof" || y == "traf" || y == "mvex" || y == "sinf" || y == "schi" || y == "mfra" || y == "udta") container = true; else if (y == "dref" || y == "stsd") container = true, prefix = 8; else if (y == "meta") container = true, prefix = 4; else if (y == "avc1" || y == "encv") container = true, prefix = 78; else if (y == "mp4a" || y == "enca") container = true, prefix = 28;
        if (container) { REF_NEED(b.body_size >= prefix, "box " << y << " too short"); b.kids = parse(b.body + prefix, b.body_size - prefix, b.off + b.head + prefix, y, depth + 1); }
        at += (size_t)b.size; out.push_back(b); }
    return out;
}
struct Sample { uint64_t off = 0, size = 0, dts = 0; int64_t cts = 0; bool sync = true; uint32_t desc = 0; };   // times in ticks
struct Track { uint32_t id = 0, timescale = 0, width = 0, height = 0, flags = 0; uint64_t tk_duration = 0, md_duration = 0; std::string handler, lang; uint16_t volume = 0; std::vector<Sample> s; bool has_stss = false, has_ctts = false;
    struct Edit { uint64_t duration; int64_t media; }; std::vector<Edit> edits; std::string codec; Bytes avcc, esds; uint32_t entry_w = 0, entry_h = 0, channels = 0, rate = 0; uint64_t chunks = 0; uint64_t stsz_size = 0;
    // presentation time in seconds of a sample, by the edit list
    real start(uint32_t movie_scale) const { real t = 0; for (auto& e : edits) { if (e.media < 0) t += (real)e.duration / movie_scale; else { t -= (real)e.media / timescale; break; } } return t; }
    real present(size_t i, uint32_t movie_scale) const { return start(movie_scale) + (real)((int64_t)s[i].dts + s[i].cts) / timescale; } };
struct Movie { uint32_t timescale = 0, next_id = 0; uint64_t duration = 0; std::vector<Track> tracks; };
inline void full(Cur& c, uint8_t& v, uint32_t& f) { v = (uint8_t)c.u(1); f = (uint32_t)c.u(3); }
inline Track track(const Box& t) {
    Track r; uint8_t v; uint32_t f; { Cur c = t.need("tkhd").cur(); full(c, v, r.flags); unsigned w = v ? 8 : 4; c.u(w); c.u(w); r.id = (uint32_t)c.u(4); c.u(4); r.tk_duration = c.u(w); c.skip(8); c.skip(4); r.volume = (uint16_t)c.u(2); c.skip(2); static const uint32_t unit[9] = { 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000 }; for (int i = 0; i < 9; ++i) REF_NEED(c.u(4) == unit[i], "matrix of tkhd"); r.width = (uint32_t)c.u(4); r.height = (uint32_t)c.u(4); REF_NEED(!c.left(), "tkhd has " << c.left() << " bytes more"); }
    if (const Box* e = t.find("edts")) { Cur c = e->need("elst").cur(); full(c, v, f); uint32_t n = (uint32_t)c.u(4); while (n--) { Track::Edit x; x.duration = c.u(v ? 8 : 4); x.media = v ? (int64_t)c.u(8) : (int32_t)c.u(4); REF_NEED(c.u(4) == 0x10000, "edit rate"); r.edits.push_back(x); } REF_NEED(!c.left(), "elst has bytes more"); }
    const Box& md = t.need("mdia"); { Cur c = md.need("mdhd").cur(); full(c, v, f); unsigned w = v ? 8 : 4; c.u(w); c.u(w); r.timescale = (uint32_t)c.u(4); r.md_duration = c.u(w); uint16_t l = (uint16_t)c.u(2); for (int i = 2; i >= 0; --i) r.lang += (char)((l >> 5 * i & 31) + 0x60); c.u(2); REF_NEED(!c.left(), "mdhd has bytes more"); REF_NEED(r.timescale, "time scale of zero"); }
    { Cur c = md.need("hdlr").cur(); full(c, v, f); c.u(4); Bytes h = c.take(4); r.handler.assign(h.begin(), h.end()); c.skip(12); }
    const Box& mi = md.need("minf"); REF_NEED(mi.find(r.handler == "vide" ? "vmhd" : "smhd") || r.handler != "vide" && r.handler != "soun", "media header of " << r.handler); { const Box& dr = mi.need("dinf").need("dref"); Cur c = dr.cur(); c.skip(4); REF_NEED(c.u(4) == dr.kids.size(), "entry count of dref"); REF_NEED(dr.kids.size() == 1 && dr.kids[0].type == "url " && dr.kids[0].body_size == 4 && (dr.kids[0].body[3] & 1), "data reference"); }
    const Box& st = mi.need("stbl");
    { const Box& sd = st.need("stsd"); Cur c = sd.cur(); c.skip(4); REF_NEED(c.u(4) == sd.kids.size() && sd.kids.size(), "entry count of stsd"); const Box& e = sd.kids[0]; r.codec = e.type; Cur d = e.cur(); d.skip(6); REF_NEED(d.u(2) == 1, "data reference index");
      if (e.type == "avc1" || e.type == "encv") { d.skip(16); r.entry_w = (uint32_t)d.u(2); r.entry_h = (uint32_t)d.u(2); d.skip(12); REF_NEED(d.u(2) == 1, "frame count"); d.skip(32); d.skip(2); REF_NEED(d.u(2) == 0xffff, "end of the visual entry"); const Box& a = e.need("avcC"); r.avcc.assign(a.body, a.body + a.body_size); }
      else if (e.type == "mp4a" || e.type == "enca") { d.skip(8); r.channels = (uint32_t)d.u(2); REF_NEED(d.u(2) == 16, "sample size"); d.skip(4); r.rate = (uint32_t)d.u(4); const Box& a = e.need("esds"); r.esds.assign(a.body, a.body + a.body_size); } }
    uint32_t n, fixed; { Cur c = st.need("stsz").cur(); full(c, v, f); fixed = (uint32_t)c.u(4); r.stsz_size = fixed; n = (uint32_t)c.u(4); r.s.resize(n); for (auto& x : r.s) x.size = fixed ? fixed : c.u(4); REF_NEED(!c.left(), "stsz has " << c.left() << " bytes more"); }
    { Cur c = st.need("stts").cur(); full(c, v, f); uint32_t k = (uint32_t)c.u(4); size_t i = 0; uint64_t t0 = 0; while (k--) { uint32_t cnt = (uint32_t)c.u(4), d = (uint32_t)c.u(4); REF_NEED(cnt, "empty entry in stts"); while (cnt--) { REF_NEED(i < n, "stts describes more than " << n << " samples"); r.s[i++].dts = t0; t0 += d; } } REF_NEED(i == n, "stts describes " << i << " of " << n << " samples"); REF_NEED(!c.left(), "stts has bytes more"); }
    if (const Box* b = st.find("ctts")) { r.has_ctts = true; Cur c = b->cur(); full(c, v, f); uint32_t k = (uint32_t)c.u(4); size_t i = 0; while (k--) { uint32_t cnt = (uint32_t)c.u(4); uint32_t d = (uint32_t)c.u(4); while (cnt--) { REF_NEED(i < n, "ctts describes more than " << n << " samples"); r.s[i++].cts = v ? (int64_t)(int32_t)d : (int64_t)d; } } REF_NEED(i == n, "ctts describes " << i << " of " << n << " samples"); REF_NEED(!c.left(), "ctts has bytes more"); }
    std::vector<uint64_t> co; { const Box* b = st.find("stco"); bool big = !b; if (!b) b = &st.need("co64"); Cur c = b->cur(); full(c, v, f); uint32_t k = (uint32_t)c.u(4); while (k--) co.push_back(c.u(big ? 8 : 4)); REF_NEED(!c.left(), "stco has bytes more"); } r.chunks = co.size();
    { Cur c = st.need("stsc").cur(); full(c, v, f); uint32_t k = (uint32_t)c.u(4); struct E { uint32_t first, per, desc; }; std::vector<E> es; while (k--) { E e; e.first = (uint32_t)c.u(4); e.per = (uint32_t)c.u(4); e.desc = (uint32_t)c.u(4); es.push_back(e); } REF_NEED(!c.left(), "stsc has bytes more"); size_t i = 0;
      if (n) REF_NEED(es.size() && es[0].first == 1, "first entry of stsc"); for (size_t j = 0; j < es.size(); ++j) { uint64_t end = j + 1 < es.size() ? es[j + 1].first : co.size() + 1; REF_NEED(es[j].first < end, "entries of stsc are not increasing"); for (uint64_t ch = es[j].first; ch < end; ++ch) { uint64_t at = co[(size_t)ch - 1]; for (uint32_t q = 0; q < es[j].per; ++q) { REF_NEED(i < n, "stsc describes more than " << n << " samples"); r.s[i].off = at; r.s[i].desc = es[j].desc; at += r.s[i].size; ++i; } } } REF_NEED(i == n, "stsc describes " << i << " of " << n << " samples"); }
    if (const Box* b = st.find("stss")) { r.has_stss = true; for (auto& x : r.s) x.sync = false; Cur c = b->cur(); full(c, v, f); uint32_t k = (uint32_t)c.u(4); uint32_t last = 0; while (k--) { uint32_t x = (uint32_t)c.u(4); REF_NEED(x > last && x <= n, "sync sample " << x << " after " << last << " of " << n); last = x; r.s[x - 1].sync = true; } REF_NEED(!c.left(), "stss has bytes more"); }
    return r;
}
inline Movie movie(const Box& moov) {
    Movie m; uint8_t v; uint32_t f; Cur c = moov.need("mvhd").cur(); full(c, v, f); unsigned w = v ? 8 : 4; c.u(w); c.u(w); m.timescale = (uint32_t)c.u(4); m.duration = c.u(w); REF_NEED(c.u(4) == 0x10000 && c.u(2) == 0x100, "rate or volume of mvhd"); c.skip(10 + 36 + 24); m.next_id = (uint32_t)c.u(4); REF_NEED(!c.left(), "mvhd has bytes more"); REF_NEED(m.timescale, "time scale of zero");
    for (auto& k : moov.kids) if (k.type == "trak") m.tracks.push_back(track(k)); return m;
}
}
