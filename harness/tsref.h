// independent reader of a transport stream (ISO/IEC 13818-1) with one program
#pragma once
#include "fragref.h"
#include <map>

struct Pes { unsigned id = 0; bool pts_there = false, dts_there = false; uint64_t pts = 0, dts = 0; Bytes body; bool random = false, pcr_there = false; uint64_t pcr = 0; size_t packet = 0; };
struct TsProgram { std::vector<std::pair<unsigned, unsigned>> streams; unsigned pcr_pid = 0x1fff; std::map<unsigned, std::vector<Pes>> pes; size_t packets = 0; const std::vector<Pes>& of(unsigned pid) const { static const std::vector<Pes> none; auto i = pes.find(pid); return i == pes.end() ? none : i->second; } };
inline uint32_t ts_crc(const uint8_t* p, size_t n) { uint32_t c = 0xffffffffu; while (n--) { c ^= (uint32_t)*p++ << 24; for (int i = 0; i < 8; ++i) c = c & 0x80000000u ? (c << 1) ^ 0x04c11db7u : c << 1; } return c; }
inline uint64_t ts_time(const uint8_t* p, unsigned mark, const std::string& W) { REF_NEED((unsigned)(p[0] >> 4) == mark, W << " time mark " << (p[0] >> 4)); REF_NEED((p[0] & 1) && (p[2] & 1) && (p[4] & 1), W << " marker bits of a time"); return (uint64_t)(p[0] >> 1 & 7) << 30 | (uint64_t)p[1] << 22 | (uint64_t)(p[2] >> 1) << 15 | (uint64_t)p[3] << 7 | p[4] >> 1; }
inline Pes ts_pes(const Bytes& b, const std::string& W) {
    Pes r; REF_NEED(b.size() >= 9, W << " PES header of " << b.size() << " bytes"); REF_NEED(!b[0] && !b[1] && b[2] == 1, W << " PES start code"); r.id = b[3]; size_t len = b[4] << 8 | b[5]; REF_NEED((b[6] & 0xc0) == 0x80, W << " PES marker"); REF_NEED(!(b[6] & 0x30), W << " scrambled"); unsigned fl = b[7]; REF_NEED((fl & 0xc0) != 0x40, W << " decoding time without presentation time"); REF_NEED(!(fl & 0x3f), W << " optional parts " << (fl & 0x3f)); size_t h = b[8]; REF_NEED(9 + h <= b.size(), W << " PES header length"); size_t need = (fl & 0x80 ? 5 : 0) + (fl & 0x40 ? 5 : 0); REF_NEED(h >= need, W << " PES header length " << h);
    if (fl & 0x80) { r.pts_there = true; r.pts = ts_time(&b[9], fl & 0x40 ? 3 : 2, W); } if (fl & 0x40) { r.dts_there = true; r.dts = ts_time(&b[14], 1, W); } for (size_t i = 9 + need; i < 9 + h; ++i) REF_NEED(b[i] == 0xff, W << " PES stuffing");
    if (len) REF_NEED(6 + len == b.size(), W << " PES length " << len << ", there are " << b.size() - 6); else REF_NEED((r.id & 0xf0) == 0xe0, W << " PES without a length"); r.body.assign(b.begin() + 9 + h, b.end()); return r;
}
// cc: continuity counters, kept over the segments of one presentation
inline TsProgram ts_program(const Bytes& f, const std::string& W, std::map<unsigned, unsigned>& cc) {
    TsProgram r; REF_NEED(f.size() && f.size() % 188 == 0, W << " " << f.size() << " bytes are no packets"); struct Open { Pes head; Bytes b; bool on = false; }; std::map<unsigned, Open> open; unsigned pmt = 0x1fff; bool pat_seen = false, pmt_seen = false;
    auto close = [&](unsigned pid) { Open& o = open[pid]; if (!o.on) return; Pes p = ts_pes(o.b, W + " pid " + std::to_string(pid) + " at packet " + std::to_string(o.head.packet)); p.random = o.head.random; p.pcr_there = o.head.pcr_there; p.pcr = o.head.pcr; p.packet = o.head.packet; r.pes[pid].push_back(p); o = Open(); };
    for (size_t at = 0; at < f.size(); at += 188, ++r.packets) { const uint8_t* p = &f[at]; std::string V = W + " packet " + std::to_string(r.packets); REF_NEED(p[0] == 0x47, V << " sync byte"); REF_NEED(!(p[1] & 0x80), V << " transport error"); bool start = p[1] & 0x40; unsigned pid = (p[1] & 0x1f) << 8 | p[2]; REF_NEED(!(p[3] & 0xc0), V << " scrambled"); bool af = p[3] & 0x20, pay = p[3] & 0x10; REF_NEED(af || pay, V << " adaptation field control"); unsigned n = p[3] & 15; if (pid == 0x1fff) continue;
        size_t q = 4; bool random = false, pcr_there = false; uint64_t pcr = 0; if (af) { size_t l = p[4]; REF_NEED(l <= 183, V << " adaptation field of " << l); q = 5 + l; if (l) { unsigned fl = p[5]; random = fl & 0x40; REF_NEED(!(fl & 0x0f), V << " adaptation flags " << fl); size_t x = 6; if (fl & 0x10) { REF_NEED(l >= 7, V << " clock reference"); pcr_there = true; uint64_t base = (uint64_t)p[x] << 25 | (uint64_t)p[x + 1] << 17 | (uint64_t)p[x + 2] << 9 | (uint64_t)p[x + 3] << 1 | p[x + 4] >> 7; unsigned ext = (p[x + 4] & 1) << 8 | p[x + 5]; REF_NEED(ext < 300, V << " clock extension " << ext); pcr = base * 300 + ext; x += 6; } for (; x < q; ++x) REF_NEED(p[x] == 0xff, V << " stuffing byte " << (unsigned)p[x]); } }
        if (pay) { auto c = cc.find(pid); if (c != cc.end()) REF_NEED(n == ((c->second + 1) & 15), V << " pid " << pid << " continuity counter " << n << " after " << c->second); cc[pid] = n; }
        const uint8_t* d = p + q; size_t left = 188 - q; if (!pay) { REF_NEED(!left, V << " bytes without payload"); continue; }
        if (pid == 0 || pid == pmt) { REF_NEED(start, V << " section goes on"); size_t ptr = d[0]; REF_NEED(1 + ptr + 12 <= left, V << " pointer"); d += 1 + ptr; left -= 1 + ptr; REF_NEED(d[0] == (pid ? 2 : 0), V << " table " << (unsigned)d[0]); REF_NEED(d[1] & 0x80, V << " section syntax"); REF_NEED(!(d[1] & 0x4c), V << " section flags"); size_t sl = (d[1] & 15) << 8 | d[2]; REF_NEED(3 + sl <= left && sl >= 9, V << " section of " << sl); REF_NEED(!ts_crc(d, 3 + sl), V << " CRC of the table"); REF_NEED(d[5] & 1, V << " table not current"); REF_NEED(!d[6] && !d[7], V << " section numbers"); for (size_t i = 3 + sl; i < left; ++i) REF_NEED(d[i] == 0xff, V << " bytes behind the section");
            if (!pid) { REF_NEED(sl == 13, V << " programs"); REF_NEED(d[8] || d[9], V << " program number"); unsigned x = (d[10] & 0x1f) << 8 | d[11]; REF_NEED(!pat_seen || x == pmt, V << " program map moved"); pmt = x; pat_seen = true; }
            else { r.pcr_pid = (d[8] & 0x1f) << 8 | d[9]; size_t pi = (d[10] & 15) << 8 | d[11]; size_t x = 12 + pi, e = 3 + sl - 4; std::vector<std::pair<unsigned, unsigned>> st; while (x < e) { REF_NEED(x + 5 <= e, V << " program map"); st.push_back({ (unsigned)(d[x + 1] & 0x1f) << 8 | d[x + 2], d[x] }); x += 5 + ((d[x + 3] & 15) << 8 | d[x + 4]); } REF_NEED(x == e, V << " program map length"); REF_NEED(!pmt_seen || st == r.streams, V << " program map changed"); r.streams = st; pmt_seen = true; }
            continue; }
        REF_NEED(pmt_seen, V << " before the tables"); bool known = false; for (auto& x : r.streams) known = known || x.first == pid; REF_NEED(known, V << " pid " << pid << " is not in the program map");
        if (start) { close(pid); Open& o = open[pid]; o.on = true; o.head.packet = r.packets; o.head.random = random; o.head.pcr_there = pcr_there; o.head.pcr = pcr; } else { REF_NEED(!left || open[pid].on, V << " goes on with nothing"); REF_NEED(!random && !pcr_there, V << " marks inside a unit"); } Open& o = open[pid]; o.b.insert(o.b.end(), d, d + left); }
    for (auto& x : r.streams) close(x.first); REF_NEED(pat_seen && pmt_seen, W << " no tables"); return r;
}
// NAL units of a byte stream
inline std::vector<Bytes> annexb(const Bytes& b, const std::string& W) {
    std::vector<Bytes> r; size_t i = 0; auto code = [&](size_t k) -> size_t { if (k + 4 <= b.size() && !b[k] && !b[k + 1] && !b[k + 2] && b[k + 3] == 1) return 4; if (k + 3 <= b.size() && !b[k] && !b[k + 1] && b[k + 2] == 1) return 3; return 0; }; REF_NEED(b.size() && code(0), W << " no start code"); while (i < b.size()) { i += code(i); size_t a = i; while (i < b.size() && !code(i)) ++i; r.push_back(Bytes(b.begin() + a, b.begin() + i)); } return r;
}
