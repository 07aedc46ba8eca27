// independent MP4 writer (ISO/IEC 14496-12) of generated movies
#pragma once
#include "common.h"
#include "h264ref.h"

namespace refw {
struct W {
    Bytes b;
    void u(unsigned n, uint64_t v) { for (unsigned i = n; i-- > 0;) b.push_back((uint8_t)(v >> 8 * i)); }
    void raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
    void str(const char* t) { while (*t) b.push_back((uint8_t)*t++); }
    size_t open(const char* type) { size_t at = b.size(); u(4, 0); str(type); return at; }
    size_t open(const char* type, unsigned version, uint32_t flags) { size_t at = open(type); u(1, version); u(3, flags); return at; }
    void close(size_t at) { set(at, b.size() - at); }
    void set(size_t at, uint64_t v) { for (int i = 0; i < 4; ++i) b[at + i] = (uint8_t)(v >> (24 - 8 * i)); }
};
struct Smp { uint64_t dec; uint64_t off_comp; uint32_t delta; uint32_t size; bool sync; };
struct Trk { bool video = true; uint32_t scale = 1000; std::vector<Smp> s; bool ctts = false, stss = false, elst = false; uint64_t delay = 0; std::string lang; unsigned v = 0, v2 = 0; Sps sps; std::vector<Bytes> pps; uint32_t w = 0, h = 0, object = 2, rate = 48000, channels = 2, bitrate = 1; std::vector<unsigned> chunks; std::vector<size_t> stco_at; std::vector<uint64_t> chunk_off; bool pasp = false, btrt = false, fixed = false; uint64_t duration() const { return s.empty() ? 0 : s.back().dec + s.back().delta; } Bytes avcc; Bytes asc; bool long_desc = false;
    std::string text() const { std::ostringstream o; o << (video ? "video" : "audio") << " scale" << scale << (ctts ? " ctts" : "") << (stss ? " stss" : "") << (elst ? " elst" : "") << " n" << s.size() << " ["; for (size_t i = 0; i < s.size() && i < 14; ++i) { o << (s[i].sync ? "I" : "") << s[i].dec; if (ctts) o << "+" << s[i].off_comp; o << ":" << s[i].size << " "; } o << "]"; return o.str(); } };
struct Mov { uint32_t scale = 1000; std::vector<Trk> t; bool moov_first = true, big = false; std::string log; Bytes file; };
static const uint32_t RATE[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };

inline Trk gen_trk(pbt::Source& s, bool video, bool many) {
    Trk t; t.video = video; static const uint32_t sc[] = { 1000, 90000, 25, 48000, 44100, 12800, 600, 30000, 10000000 }; t.scale = sc[s.pick({ 3, 3, 1, 1, 1, 1, 1, 1, 2 })]; if (s.chance(10)) t.scale = (uint32_t)s.edgy(1, 10000000);
    t.lang = "und"; if (s.chance(40)) for (auto& c : t.lang) c = (char)('a' + s.range(0, 25)); t.v = (unsigned)s.pick({ 3, 1 }); t.v2 = (unsigned)s.pick({ 3, 1 });
    size_t n = (size_t)(1 + (many ? s.range(100, 600) : s.small(0, 70))); uint32_t unit = (uint32_t)std::max<uint64_t>(1, s.chance(70) ? t.scale / 25 : s.edgy(1, 100000)); unsigned mode = (unsigned)s.pick({ 3, 2, 2, 1 }); t.fixed = s.chance(15); uint32_t one = (uint32_t)s.small(1, 300);
    uint64_t d = 0; uint32_t delta = unit; unsigned gop = (unsigned)s.range(1, 15); t.stss = video ? s.chance(85) : s.chance(5); t.ctts = video ? s.chance(60) : s.chance(5); bool all_one = t.ctts && s.chance(15); uint64_t one_off = s.small(0, 1000);
    for (size_t i = 0; i < n; ++i) { if (mode == 1 && s.chance(15)) delta = (uint32_t)s.range(1, 2 * unit); if (mode == 2) delta = (uint32_t)(unit + s.range(0, 2)); if (mode == 3) delta = s.chance(80) ? unit : (uint32_t)s.edgy(1, 1000000); Smp x; x.dec = d; delta = (uint32_t)std::min<uint64_t>(delta, (uint64_t)t.scale * 60); x.delta = delta; if (i + 1 == n && s.chance(20)) x.delta = 0; d += x.delta; x.off_comp = 0; x.size = t.fixed ? one : (uint32_t)(s.chance(95) ? s.small(1, 400) : s.edgy(1, 9000)); x.sync = !t.stss || i == 0 || i % gop == 0 || s.chance(4); t.s.push_back(x); }
    if (t.ctts) { if (all_one) for (auto& x : t.s) x.off_comp = one_off; else { uint64_t lead = s.range(0, 2) * unit; for (size_t i = 0; i < n; ++i) t.s[i].off_comp = lead + s.range(0, 3) * unit + (s.chance(15) ? s.range(0, unit) : 0); if (s.chance(60)) t.s[0].off_comp = lead; } }
    if (s.chance(35)) { t.elst = true; t.delay = s.chance(60) ? s.small(0, 5000) : s.edgy(0, 100000000); }
    if (video) { t.sps = gen_sps(s); unsigned k = 1; while (k--) t.pps.push_back(gen_pps_nal(s)); t.w = (uint32_t)s.range(0, 65535); t.h = (uint32_t)s.range(0, 65535); t.pasp = s.chance(20); t.btrt = s.chance(30);
        W w; w.u(1, 1); w.u(1, t.sps.profile); w.u(1, t.sps.constraint << 4); w.u(1, t.sps.level); w.u(1, 0xff); w.u(1, 0xe1); w.u(2, t.sps.nal.size()); w.raw(t.sps.nal); w.u(1, t.pps.size()); for (auto& p : t.pps) { w.u(2, p.size()); w.raw(p); } t.avcc = w.b; }
    else { t.object = (uint32_t)s.range(1, 4); unsigned ri = (unsigned)s.range(0, 12); t.rate = RATE[ri]; t.channels = (uint32_t)s.range(1, 7); t.bitrate = (uint32_t)s.edgy(0, 0xffffffffu); BitW b; b.u(5, t.object); b.u(4, ri); b.u(4, t.channels); b.u(3, 0); t.asc = b.b; t.long_desc = s.chance(30); }
    size_t left = n; while (left) { size_t k = std::min<size_t>(left, (size_t)(s.chance(50) && t.chunks.size() ? t.chunks.back() : s.range(1, 8))); t.chunks.push_back((unsigned)k); left -= k; }
    return t;
}
inline void desc(W& w, uint8_t tag, const Bytes& body, bool longer) { w.u(1, tag); size_t n = body.size(); if (longer) { w.u(1, 0x80); w.u(1, 0x80); w.u(1, 0x80); } w.u(1, n); w.raw(body); }
inline void junk(pbt::Source& s, W& w) { static const char* names[] = { "free", "skip", "wide", "abcd" }; size_t at = w.open(names[s.pick({ 3, 2, 1, 1 })]); w.raw(s.blob((size_t)s.small(1, 60))); w.close(at); }
inline void trak(pbt::Source& s, W& w, Trk& t, uint32_t id, uint32_t movie_scale) {
    size_t k = w.open("trak"); size_t a; uint64_t md = t.duration(), td = (uint64_t)((long double)md * movie_scale / t.scale); if (td + t.delay > UINT32_MAX) t.v = 1; if (md > UINT32_MAX) t.v2 = 1; unsigned n = t.v ? 8 : 4;
    a = w.open("tkhd", t.v, s.chance(80) ? 7 : 1); w.u(n, s.range(0, 4000000000u)); w.u(n, 0); w.u(4, id); w.u(4, 0); w.u(n, td + t.delay); w.u(8, 0); w.u(2, 0); w.u(2, s.small(0, 3)); w.u(2, t.video ? 0 : 0x100); w.u(2, 0); static const uint32_t unit[9] = { 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000 }; for (uint32_t x : unit) w.u(4, x); w.u(4, (uint64_t)(t.video ? t.w : 0) << 16); w.u(4, (uint64_t)(t.video ? t.h : 0) << 16); w.close(a);
    if (t.elst) { size_t e = w.open("edts"); unsigned v = s.chance(30) || td > INT32_MAX; a = w.open("elst", v, 0); w.u(4, 2); w.u(v ? 8 : 4, t.delay); w.u(v ? 8 : 4, UINT64_MAX); w.u(4, 0x10000); w.u(v ? 8 : 4, td); w.u(v ? 8 : 4, 0); w.u(4, 0x10000); w.close(a); w.close(e); }
    size_t m = w.open("mdia"); n = t.v2 ? 8 : 4; a = w.open("mdhd", t.v2, 0); w.u(n, s.range(0, 4000000000u)); w.u(n, 0); w.u(4, t.scale); w.u(n, md); uint32_t l = 0; for (char c : t.lang) l = l << 5 | (c - 0x60); w.u(2, l); w.u(2, 0); w.close(a);
    a = w.open("hdlr", 0, 0); w.u(4, 0); w.str(t.video ? "vide" : "soun"); w.u(4, 0); w.u(8, 0); Bytes name = s.blob((size_t)s.small(0, 20)); for (auto& c : name) c = (uint8_t)('a' + c % 26); w.raw(name); w.u(1, 0); w.close(a);
    size_t mi = w.open("minf"); if (t.video) { a = w.open("vmhd", 0, 1); w.u(8, 0); } else { a = w.open("smhd", 0, 0); w.u(4, 0); } w.close(a);
    size_t di = w.open("dinf"); a = w.open("dref", 0, 0); w.u(4, 1); size_t u = w.open("url ", 0, 1); w.close(u); w.close(a); w.close(di);
    size_t st = w.open("stbl"); a = w.open("stsd", 0, 0); w.u(4, 1);
    if (t.video) { size_t e = w.open("avc1"); w.u(6, 0); w.u(2, 1); w.u(8, 0); w.u(8, 0); w.u(2, t.w); w.u(2, t.h); w.u(4, 0x480000); w.u(4, 0x480000); w.u(4, 0); w.u(2, 1); w.raw(Bytes(32, 0)); w.u(2, 0x18); w.u(2, 0xffff); size_t c = w.open("avcC"); w.raw(t.avcc); w.close(c); if (t.pasp) { c = w.open("pasp"); w.u(4, s.range(1, 200)); w.u(4, s.range(1, 200)); w.close(c); } if (t.btrt) { c = w.open("btrt"); w.u(4, s.range(0, 1000000)); w.u(4, 5); w.u(4, 6); w.close(c); } w.close(e); }
    else { size_t e = w.open("mp4a"); w.u(6, 0); w.u(2, 1); w.u(8, 0); w.u(2, t.channels); w.u(2, 16); w.u(4, 0); w.u(4, (uint64_t)(t.rate & 0xffff) << 16); size_t c = w.open("esds", 0, 0); W dsi, dc, es, sl; desc(dsi, 5, t.asc, t.long_desc); dc.u(1, 0x40); dc.u(1, 0x15); dc.u(3, 0); dc.u(4, t.bitrate); dc.u(4, t.bitrate); dc.raw(dsi.b); sl.u(1, 2); es.u(2, id); es.u(1, 0); desc(es, 4, dc.b, t.long_desc); desc(es, 6, sl.b, t.long_desc); desc(w, 3, es.b, t.long_desc); w.close(c); w.close(e); }
    w.close(a);
    auto runs = [&](std::function<uint64_t(const Smp&)> f, unsigned split) { std::vector<std::pair<uint32_t, uint64_t>> r; for (auto& x : t.s) if (r.size() && r.back().second == f(x) && !(split && s.chance(split))) ++r.back().first; else r.push_back({ 1, f(x) }); w.u(4, r.size()); for (auto& x : r) { w.u(4, x.first); w.u(4, x.second); } };
    a = w.open("stts", 0, 0); runs([](const Smp& x) { return x.delta; }, s.chance(20) ? 10 : 0); w.close(a); if (t.ctts) { a = w.open("ctts", 0, 0); runs([](const Smp& x) { return x.off_comp; }, 0); w.close(a); }
    if (t.stss) { a = w.open("stss", 0, 0); size_t c = 0; for (auto& x : t.s) c += x.sync; w.u(4, c); for (size_t i = 0; i < t.s.size(); ++i) if (t.s[i].sync) w.u(4, i + 1); w.close(a); }
    { a = w.open("stsc", 0, 0); std::vector<std::pair<uint32_t, uint32_t>> r; bool plain = s.chance(15); for (size_t i = 0; i < t.chunks.size(); ++i) if (plain || !i || t.chunks[i] != t.chunks[i - 1]) r.push_back({ (uint32_t)i + 1, t.chunks[i] }); w.u(4, r.size()); for (auto& x : r) { w.u(4, x.first); w.u(4, x.second); w.u(4, 1); } w.close(a); }
    a = w.open("stsz", 0, 0); w.u(4, t.fixed ? t.s[0].size : 0); w.u(4, t.s.size()); if (!t.fixed) for (auto& x : t.s) w.u(4, x.size); w.close(a);
    a = w.open("stco", 0, 0); w.u(4, t.chunks.size()); for (size_t i = 0; i < t.chunks.size(); ++i) { t.stco_at.push_back(w.b.size()); w.u(4, 0); } w.close(a);
    w.close(st); w.close(mi); w.close(m); w.close(k);
}
inline void build(pbt::Source& s, Mov& m) {
    W moov; size_t a = moov.open("moov"); uint64_t dur = 0; for (auto& t : m.t) dur = std::max(dur, (uint64_t)((long double)t.duration() * m.scale / t.scale) + t.delay); unsigned v = s.chance(25) || dur > UINT32_MAX, n = v ? 8 : 4; size_t h = moov.open("mvhd", v, 0); moov.u(n, 0); moov.u(n, 0); moov.u(4, m.scale); moov.u(n, dur); moov.u(4, 0x10000); moov.u(2, 0x100); moov.raw(Bytes(10, 0)); static const uint32_t unit[9] = { 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000 }; for (uint32_t x : unit) moov.u(4, x); moov.raw(Bytes(24, 0)); moov.u(4, m.t.size() + 1); moov.close(h);
    if (s.chance(20)) junk(s, moov); for (size_t i = 0; i < m.t.size(); ++i) { trak(s, moov, m.t[i], (uint32_t)i + 1, m.scale); if (s.chance(15)) junk(s, moov); } moov.close(a);
    W f; size_t b = f.open("ftyp"); f.str("isom"); f.u(4, s.range(0, 512)); unsigned k = (unsigned)s.range(0, 3); while (k--) f.str("avc1"); f.close(b); if (s.chance(15)) junk(s, f);
    W d; std::vector<size_t> at(m.t.size(), 0), first(m.t.size(), 0); bool gaps = s.chance(20); unsigned order = (unsigned)s.pick({ 3, 1 });
    for (;;) { std::vector<size_t> have; for (size_t i = 0; i < m.t.size(); ++i) if (at[i] < m.t[i].chunks.size()) have.push_back(i); if (have.empty()) break; size_t i = have[0]; if (order == 0) { for (size_t j : have) if ((long double)m.t[j].s[first[j]].dec / m.t[j].scale < (long double)m.t[i].s[first[i]].dec / m.t[i].scale) i = j; } else i = have[s.range(0, have.size() - 1)];
        Trk& t = m.t[i]; if (gaps && s.chance(20)) d.raw(s.blob((size_t)s.small(1, 50))); t.chunk_off.push_back(d.b.size()); unsigned c = t.chunks[at[i]++]; size_t bytes = 0; for (unsigned q = 0; q < c; ++q) bytes += t.s[first[i]++].size; d.raw(s.blob(bytes)); }
    m.moov_first = s.chance(60); m.big = s.chance(10); size_t moov_at = 0; if (m.moov_first) { moov_at = f.b.size(); f.raw(moov.b); if (s.chance(20)) junk(s, f); }
    if (m.big) { f.u(4, 1); f.str("mdat"); f.u(8, d.b.size() + 16); } else { f.u(4, d.b.size() + 8); f.str("mdat"); } size_t base = f.b.size(); f.raw(d.b); if (!m.moov_first) { if (s.chance(20)) junk(s, f); moov_at = f.b.size(); f.raw(moov.b); } if (s.chance(15)) junk(s, f);
    for (auto& t : m.t) for (size_t i = 0; i < t.chunks.size(); ++i) f.set(moov_at + t.stco_at[i], base + t.chunk_off[i]);
    m.file = f.b; std::ostringstream o; o << (m.moov_first ? "moov first" : "moov last") << (m.big ? " mdat64" : "") << (gaps ? " gaps" : "") << ";"; for (auto& t : m.t) o << " " << t.text(); m.log = o.str();
}
inline Mov gen_mov(pbt::Source& s) { Mov m; m.scale = s.chance(60) ? 1000 : (uint32_t)s.edgy(1, 10000000); static const char* mix[] = { "va", "v", "a", "vaa", "av", "vv" }; bool many = s.chance(8); for (const char* c = mix[s.pick({ 5, 2, 2, 1, 1, 1 })]; *c; ++c) m.t.push_back(gen_trk(s, *c == 'v', many)); build(s, m); return m; }
}
