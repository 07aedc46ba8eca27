// the transport stream muxer and demuxer of the library (K06, K07)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"
#include "tsref.h"
#include "tsclip.h"
#include "cmdline.h"
#include "tsinfo.h"

static CliRun ts_tool(const std::vector<std::string>& args) {
    console_command c; c.add(_T("input"), console_command::type_string, false, _T("input"), 'i'); c.add(_T("kind"), console_command::type_string, false, _T("kind"), 'k'); c.add(_T("size"), console_command::type_int, false, _T("size"), 'z'); c.add(_T("output"), console_command::type_string, false, _T("output"), 'o'); c.add(_T("starttime"), console_command::type_int, false, _T("start"), 's'); c.add(_T("endtime"), console_command::type_int, false, _T("end"), 'e'); c.add(_T("ctts"), console_command::type_bool, false, _T("ctts"));
    std::ostringstream o; std::wostringstream w; auto *a = std::cout.rdbuf(), *b = std::cerr.rdbuf(); auto *x = std::wcout.rdbuf(), *d = std::wcerr.rdbuf(); std::cout.clear(); std::wcout.clear(); std::cout.rdbuf(o.rdbuf()); std::cerr.rdbuf(o.rdbuf()); std::wcout.rdbuf(w.rdbuf()); std::wcerr.rdbuf(w.rdbuf()); struct Back { std::streambuf *a, *b; std::wstreambuf *c, *d; ~Back() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::wcout.rdbuf(c); std::wcerr.rdbuf(d); } } back{ a, b, x, d };
    std::vector<std::string> copy; copy.push_back("ts"); for (auto& q : args) copy.push_back(q); std::vector<char*> v; for (auto& q : copy) v.push_back(&q[0]); v.push_back(nullptr); CliRun r; if (!c.process((int)copy.size(), v.data())) { r.rc = -2; return r; } r.rc = tsinfo(c, o); r.out = o.str(); for (wchar_t q : w.str()) r.out += q < 128 ? (char)q : '?'; if (getenv("VERIF_SHOW")) fprintf(stderr, "%s\n", r.out.c_str()); return r;
}

static void ts_write(pbt::Source& s, unsigned parts, const char* kinds) {
    std::string outp = scratch("out.ts"); std::vector<std::string> paths; for (unsigned i = 0; i < parts; ++i) paths.push_back(scratch(("f" + num(i) + ".mp4").c_str())); struct Rm { std::vector<std::string> p; ~Rm() { if (!getenv("VERIF_KEEP")) for (auto& x : p) unlink(x.c_str()); } } rm{ paths }; rm.p.push_back(outp);
    std::vector<Part> ps(parts); for (unsigned p = 0; p < parts; ++p) { Part& P = ps[p]; P.r.push_back(gen_clip(s, kinds, paths[p], s.chance(40) ? (parts > 1 ? 2 : 1) : 0, s.chance(25), p ? &ps[0].r[0] : nullptr, parts > 1 ? 0.25 : s.chance(60) ? 1.0 : 0.05)); make_nals(s, P.r[0]); put_file(P.c().path, P.c().m.file); choose_mux(P);
        bool cut = s.chance(60); for (auto& x : P.c().m.t) if (x.stss && x.elst) cut = false; if (cut && s.chance(50)) { P.start = start_time(s, P.c()); choose_mux(P); } if (cut && s.chance(50)) { P.end = end_time(s, P); choose_mux(P); } auto few = [&]() { for (unsigned i = 0; i < P.a.size(); ++i) if (P.b[i] <= P.a[i] + (P.c().mv.tracks[i].s.size() > 1)) return true; return false; }; if (P.end && few()) { P.end = 0; choose_mux(P); } if (P.start && few()) { P.start = 0; choose_mux(P); } if (few()) throw pbt::Discard(); }
    for (auto& P : ps) for (unsigned i = 0; i < P.a.size(); ++i) if (P.c().m.t[i].video) { uint64_t first = UINT64_MAX; for (size_t k = P.a[i]; k < P.b[i]; ++k) first = std::min(first, P.c().pres(i, k)); if (first > hns(P.c().mv.tracks[i].s[P.a[i]].dts, P.c().mv.tracks[i].timescale) + P.c().off[i] + 1990000) throw pbt::Discard(); }
    std::vector<std::string> a = { "-k:MP42TS", "-o:" + outp }; for (auto& P : ps) { a.push_back("-i:" + P.c().path); a.push_back("-s:" + num(P.start)); a.push_back("-e:" + num(P.end)); }
    std::ostringstream L; for (auto& x : a) L << (x.compare(0, 3, "-i:") ? x : x.substr(0, 3) + x.substr(x.rfind('/') + 1)) << " "; for (auto& P : ps) L << "| " << P.c().log; if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.str().c_str()); CliRun r = ts_tool(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L.str());
    try { std::map<unsigned, unsigned> cc; TsProgram pr = ts_program(get_file(outp), "the stream", cc); const Clip& c0 = ps[0].c(); size_t nt = c0.m.t.size(), total = 0; PBT_EQ(pr.streams.size(), nt, "streams"); unsigned vi = 0; while (!c0.m.t[vi].video) ++vi; PBT_EQ(pr.pcr_pid, pr.streams[vi].first, "clock");
        struct Shift { bool known = false; int64_t v = 0, d = 0; bool dknown = false; }; std::vector<Shift> shift(parts); std::vector<std::vector<int64_t>> from(nt, std::vector<int64_t>(parts)), to = from, last = from;
        for (unsigned i = 0; i < nt; ++i) { PBT_EQ(pr.streams[i].second, c0.m.t[i].video ? 0x1bu : 0x0fu, "type of stream " << i); auto& pes = pr.of(pr.streams[i].first); std::string V = "track " + num(i); std::vector<At> all; for (size_t p = 0; p < parts; ++p) for (size_t k = ps[p].a[i]; k < ps[p].b[i]; ++k) all.push_back({ p, k }); auto same = [&](size_t n, const At& x) { const Clip& c = ps[x.part].c(); auto& in = c.mv.tracks[i].s[x.k]; return n < pes.size() && pes[n].body.size() == in.size + 7 && std::equal(pes[n].body.begin() + 7, pes[n].body.end(), &c.m.file[in.off]); }; for (unsigned m = 1; i != vi && m < 1u << parts && all.size() > pes.size(); ++m) { std::vector<At> v; bool ok = true; for (size_t n = 0; n < all.size(); ++n) { if ((!n || all[n - 1].part != all[n].part) && (m >> all[n].part & 1)) { if (!ps[all[n].part].open[i]) ok = false; continue; } v.push_back(all[n]); } if (!ok || v.size() != pes.size()) continue; for (size_t n = 0; n < v.size() && ok; ++n) ok = same(n, v[n]); if (ok) all = v; } PBT_EQ(pes.size(), all.size(), V << " units"); total += all.size(); uint64_t prev = 0;
            for (size_t n = 0; n < all.size(); ++n) { const Clip& c = ps[all[n].part].c(); const ref::Track& t = c.mv.tracks[i]; size_t q = all[n].k; const Pes& p = pes[n]; std::string U = V + " sample " + num(n) + " of " + num(all.size()); PBT_EQ(p.id, i == vi ? 0xe0u : 0xc0u, U << " stream id"); PBT_CHECK(p.pts_there, U << " no time"); check_unit(p, c, i, q, i == vi, U); Shift& z = shift[all[n].part]; int64_t x = (int64_t)p.pts - (int64_t)((unsigned __int128)c.pres(i, q) * 9 / 1000); if (!z.known) { z.known = true; z.v = x; } PBT_CHECK(std::abs(x - z.v) <= 2, U << " presented at " << p.pts << " (90 kHz), " << x << " from its time, others " << z.v);
                if (i == vi) { PBT_CHECK(p.dts_there, U << " no decoding time"); int64_t y = (int64_t)p.dts - (int64_t)(hns(t.s[q].dts, t.timescale) * 9 / 1000); if (!z.dknown) { z.dknown = true; z.d = y; } PBT_CHECK(std::abs(y - z.d) <= 3, U << " decoded at " << p.dts << " (90 kHz), " << y << " from its time, others " << z.d); } if (p.dts_there) PBT_CHECK(p.dts <= p.pts, U << " decoded at " << p.dts << " presented at " << p.pts); uint64_t dec = p.dts_there ? p.dts : p.pts; PBT_CHECK(!n || dec >= prev, U << " decoded at " << dec << " behind one at " << prev); prev = dec;
                int64_t out = (int64_t)p.pts; if (!n || all[n - 1].part != all[n].part || from[i][all[n].part] > out) from[i][all[n].part] = out; if (last[i][all[n].part] <= out) last[i][all[n].part] = out, to[i][all[n].part] = out + (int64_t)(hns(c.m.t[i].s[q].delta, t.timescale) * 9 / 1000); } }
        for (size_t p = 0; p + 1 < parts; ++p) { int64_t least = 1ll << 60; for (unsigned i = 0; i < nt; ++i) least = std::min(least, from[i][p + 1] - to[i][p]); PBT_CHECK(std::abs(least) <= 4, least << " between part " << p << " and the next"); }
        if (total > 20) s.nontrivial();
    } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L.str()); } catch (pbt::Failure& f) { f.msg += " | " + L.str(); throw; }
    if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
PBT_PROP(ts_write_one, 1, 0) { static const char* mix[] = { "va", "v", "av", "vaa" }; ts_write(s, 1, mix[s.pick({ 5, 3, 2, 2 })]); }
PBT_PROP(ts_write_join, 1, 0) { static const char* mix[] = { "va", "v", "av", "vaa" }; ts_write(s, (unsigned)s.range(2, 3), mix[s.pick({ 5, 3, 2, 2 })]); }

// a transport stream written from the standard, with all liberties a muxer has
struct TsOut {
    std::map<unsigned, unsigned> cc; pbt::Source& s; TsOut(pbt::Source& q) : s(q) {}
    // n bytes of payload; af < 0: no adaptation field, otherwise its least length
    Bytes packet(unsigned pid, bool start, const uint8_t* p, size_t n, bool random, bool pcr, uint64_t clock, bool may) { Bytes r; r.push_back(0x47); r.push_back((uint8_t)((start ? 0x40 : 0) | (s.chance(5) ? 0x20 : 0) | pid >> 8)); r.push_back((uint8_t)pid); bool af = n < 184 || random || pcr; (void)may; unsigned& c = cc[pid]; if (n) c = (c + 1) & 15; r.push_back((uint8_t)((af ? 0x20 : 0) | (n ? 0x10 : 0) | c)); if (af) { size_t l = 183 - n; r.push_back((uint8_t)l); if (l) { r.push_back((uint8_t)((random ? 0x40 : 0) | (pcr ? 0x10 : 0))); if (pcr) { uint64_t b = clock / 300 & 0x1ffffffffull; unsigned e = clock % 300; r.push_back((uint8_t)(b >> 25)); r.push_back((uint8_t)(b >> 17)); r.push_back((uint8_t)(b >> 9)); r.push_back((uint8_t)(b >> 1)); r.push_back((uint8_t)(b << 7 | 0x7e | e >> 8)); r.push_back((uint8_t)e); } while (r.size() < 5 + l) r.push_back(0xff); } } r.insert(r.end(), p, p + n); return r; }
    static size_t room(bool random, bool pcr) { return pcr ? 184 - 8 : random ? 184 - 2 : 184; }
    std::vector<Bytes> unit(unsigned pid, const Bytes& b, bool random, bool pcr, uint64_t clock) { std::vector<Bytes> r; size_t at = 0; bool first = true; while (at < b.size()) { size_t m = first ? room(random, pcr) : 184; size_t n = std::min(m, b.size() - at); if (s.chance(4) && n > 20) n = (size_t)s.range(20, n); r.push_back(packet(pid, first, &b[at], n, first && random, first && pcr, clock, true)); first = false; at += n; if (s.chance(2)) r.push_back(packet(pid, false, nullptr, 0, false, s.chance(50), clock, true)); } return r; }
    Bytes section(unsigned pid, Bytes b) { uint32_t c = ts_crc(b.data(), b.size()); for (int i = 3; i >= 0; --i) b.push_back((uint8_t)(c >> 8 * i)); b.insert(b.begin(), 0); while (b.size() < 184) b.push_back(0xff); return packet(pid, true, b.data(), b.size(), false, false, 0, false); }
};
static void put_time(Bytes& b, unsigned mark, uint64_t t) { b.push_back((uint8_t)(mark << 4 | (t >> 30 & 7) << 1 | 1)); b.push_back((uint8_t)(t >> 22)); b.push_back((uint8_t)((t >> 15 & 127) << 1 | 1)); b.push_back((uint8_t)(t >> 7)); b.push_back((uint8_t)((t & 127) << 1 | 1)); }
static Bytes make_pes(pbt::Source& s, unsigned id, const Bytes& body, uint64_t pts, bool dts_there, uint64_t dts, bool length) { Bytes h; put_time(h, dts_there ? 3 : 2, pts); if (dts_there) put_time(h, 1, dts); if (s.chance(20)) for (uint64_t n = s.range(1, 16); n; --n) h.push_back(0xff); size_t len = 3 + h.size() + body.size(); if (!length || len > 65535) len = 0; Bytes b = { 0, 0, 1, (uint8_t)id, (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)(0x80 | (s.chance(50) ? 4 : 0)), (uint8_t)(dts_there ? 0xc0 : 0x80), (uint8_t)h.size() }; b.insert(b.end(), h.begin(), h.end()); b.insert(b.end(), body.begin(), body.end()); return b; }

struct Unit { size_t k; bool random; uint64_t pts, dts; bool dts_there; Bytes want; bool pcr; uint64_t clock; };
struct TsMovie { Clip c; Bytes file; std::vector<Unit> video, audio; std::vector<size_t> group; unsigned vi = 0, ai = 99, rate = 0, object = 0, channels = 0; std::string log; };
// pictures and frames of a generated movie, packed as a stream
static TsMovie gen_ts(pbt::Source& s, const std::string& path) {
    TsMovie m; bool av = s.chance(60); m.c = gen_clip(s, av ? "va" : "v", path, 0, s.chance(25), nullptr, s.chance(60) ? 1.0 : 0.05); make_nals(s, m.c); const Clip& c = m.c; if (!c.mv.tracks[0].s[0].sync) throw pbt::Discard(); TsOut o(s); uint64_t base = s.chance(30) ? s.range(0, 900000) : s.chance(20) ? s.range(0, 1ull << 32) : s.range(90000, 200000); unsigned vpid = (unsigned)s.range(32, 8000), apid = vpid + 1 + (unsigned)s.range(0, 100), mpid = vpid - 1 - (unsigned)s.range(0, 10); bool length = s.chance(50), code4 = s.chance(50), video_first = s.chance(50), clock_own = s.chance(10); const ref::Track& t = c.mv.tracks[0];
    std::ostringstream L; L << "pids " << mpid << " " << vpid << " " << apid << " base " << base << (length ? " with" : " without") << " lengths; " << c.log; m.log = L.str();
    auto ticks = [&](uint64_t v, uint64_t scale) { return base + v * 90000 / scale; }; std::vector<std::vector<Bytes>> vq, aq; std::vector<uint64_t> vt, at;
    auto code = [&](Bytes& b) { if (code4 || s.chance(20)) b.push_back(0); b.push_back(0); b.push_back(0); b.push_back(1); };
    for (size_t k = 0; k < t.s.size(); ++k) { Unit u; auto& x = t.s[k]; u.k = k; u.random = x.sync; u.pts = ticks((uint64_t)((int64_t)x.dts + x.cts), t.timescale); u.dts = ticks(x.dts, t.timescale); u.dts_there = u.pts != u.dts || s.chance(30); Bytes es; auto nal = [&](const Bytes& n) { code(es); es.insert(es.end(), n.begin(), n.end()); }; if (s.chance(80)) nal({ 9, 0xf0 }); if (u.random) { nal(c.m.t[0].sps.nal); nal(c.m.t[0].pps[0]); } size_t fill = (!k && x.size < 150) || s.chance(20) ? (size_t)s.range(!k ? 150 : 1, 200) : 0; if (fill) { Bytes sei = { 6, 5, (uint8_t)fill }; for (size_t z = 0; z < fill; ++z) sei.push_back((uint8_t)(1 + s.byte() % 255)); sei.push_back(0x80); nal(sei); u.want.insert(u.want.end(), { 0, 0, 0, (uint8_t)sei.size() }); u.want.insert(u.want.end(), sei.begin(), sei.end()); } const uint8_t* src = &c.m.file[x.off]; u.want.insert(u.want.end(), src, src + x.size); for (auto& n : nals(src, x.size)) nal(n); u.pcr = (u.random || s.chance(20)) && !clock_own; u.clock = (u.dts > 9000 ? u.dts - 9000 : 0) * 300 + (s.chance(30) ? s.range(0, 299) : 0); vq.push_back(o.unit(vpid, make_pes(s, 0xe0, es, u.pts, u.dts_there, u.dts, length), u.random, u.pcr, u.clock)); vt.push_back(u.dts); m.video.push_back(u); }
    if (av) { const refw::Trk& a = c.m.t[1]; const ref::Track& ta = c.mv.tracks[1]; m.ai = 1; m.object = a.object; m.rate = a.rate; m.channels = a.channels; unsigned ri = 0; while (refw::RATE[ri] != a.rate) ++ri; size_t k = 0; uint64_t most = s.range(1, 9); bool crc = s.chance(20); while (k < ta.s.size()) { size_t n = (size_t)s.range(1, most); Bytes es; uint64_t pts = ticks(k * 1024, a.rate); size_t first = k; for (; n && k < ta.s.size(); --n, ++k) { Unit u; u.k = k; u.random = true; u.pts = pts; u.dts = pts; u.want.assign(&c.m.file[ta.s[k].off], &c.m.file[ta.s[k].off] + ta.s[k].size); while (u.want.size() < 2) u.want.push_back(s.byte()); u.dts_there = false; size_t fl = u.want.size() + (crc ? 9 : 7); if (fl >= 8192) throw pbt::Discard(); Bytes h = { 0xff, (uint8_t)(crc ? 0xf0 : 0xf1), (uint8_t)((a.object - 1) << 6 | ri << 2 | a.channels >> 2), (uint8_t)((a.channels & 3) << 6 | fl >> 11), (uint8_t)(fl >> 3), (uint8_t)((fl & 7) << 5 | 0x1f), 0xfc }; if (crc) { h.push_back(s.byte()); h.push_back(s.byte()); } es.insert(es.end(), h.begin(), h.end()); es.insert(es.end(), u.want.begin(), u.want.end()); m.audio.push_back(u); m.group.push_back(first); } if (!first && es.size() < 40) throw pbt::Discard(); bool random = s.chance(30); Bytes pes = make_pes(s, 0xc0, es, pts, false, 0, true); if (!pes[4] && !pes[5]) throw pbt::Discard(); aq.push_back(o.unit(apid, pes, random, false, 0)); at.push_back(pts); } }
    // tables and the order of the packets
    Bytes pat = { 0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, (uint8_t)(0xe0 | mpid >> 8), (uint8_t)mpid }; Bytes pmt = { 2, 0xb0, 0, 0, 1, 0xc1, 0, 0, (uint8_t)(0xe0 | vpid >> 8), (uint8_t)vpid, 0xf0, 0 }; auto desc = [&](Bytes& b) { Bytes d; while (s.chance(25) && d.size() < 20) { size_t n = (size_t)s.range(0, 6); d.push_back((uint8_t)s.range(2, 200)); d.push_back((uint8_t)n); for (; n; --n) d.push_back(s.byte()); } b[b.size() - 1] = (uint8_t)d.size(); b.insert(b.end(), d.begin(), d.end()); }; desc(pmt); auto es = [&](unsigned type, unsigned pid) { pmt.insert(pmt.end(), { (uint8_t)type, (uint8_t)(0xe0 | pid >> 8), (uint8_t)pid, 0xf0, 0 }); desc(pmt); }; if (av && !video_first) es(0x0f, apid); es(0x1b, vpid); if (av && video_first) es(0x0f, apid); pmt[2] = (uint8_t)(pmt.size() - 3 + 4);
    auto add = [&](const Bytes& p) { m.file.insert(m.file.end(), p.begin(), p.end()); }; auto junk = [&]() { while (s.chance(4)) { Bytes x(184, 0xff); bool null = s.chance(50); add(o.packet(null ? 0x1fff : apid + 1 + (unsigned)s.range(0, 80), s.chance(50), x.data(), 184, false, false, 0, false)); } }; auto tables = [&]() { add(o.section(0, pat)); junk(); add(o.section(mpid, pmt)); }; junk(); tables();
    size_t i = 0, j = 0, pi = 0, pj = 0; auto put = [&](std::vector<std::vector<Bytes>>& q, size_t& n, size_t& p) { add(q[n][p]); if (++p == q[n].size()) p = 0, ++n; junk(); }; unsigned mixed = (unsigned)s.range(0, 20); while (i < vq.size() || j < aq.size()) { bool v; if (i == vq.size()) v = false; else if (j == aq.size()) v = true; else v = vt[i] <= at[j]; if (mixed && i < vq.size() && j < aq.size() && s.chance(mixed)) v = !v; if (v && !pi && i && m.video[i].random && s.chance(70)) tables(); if (v) put(vq, i, pi); else put(aq, j, pj); }
    return m;
}
PBT_PROP(ts_read, 1, 0) {
    std::string in = scratch("in.ts"), outp = scratch("out.mp4"); struct Rm { std::vector<std::string> p; ~Rm() { if (!getenv("VERIF_KEEP")) for (auto& x : p) unlink(x.c_str()); } } rm{ { in, outp, outp + ".body.tmp", outp + ".tmp" } }; TsMovie m = gen_ts(s, scratch("src.mp4")); put_file(in, m.file); const std::string& L = m.log; if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.c_str());
    std::vector<std::string> a = { "-k:ts2mp4", "-i:" + in, "-o:" + outp }; if (s.chance(30)) a.push_back("-z:" + num(s.range(1, 300))); CliRun r = ts_tool(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L); const Clip& c = m.c;
    try { Bytes f = get_file(outp); auto top = ref::parse(f.data(), f.size(), 0, "the output"); ref::Movie mv; for (auto& b : top) if (b.type == "moov") mv = ref::movie(b); PBT_EQ(mv.tracks.size(), m.audio.size() ? 2u : 1u, "tracks"); bool known = false; double shift = 0, own = 0; bool seen[2] = {}; for (auto& t : mv.tracks) { bool video = t.codec == "avc1"; PBT_CHECK(video || t.codec == "mp4a", "codec " << t.codec); PBT_CHECK(!seen[video], "two tracks of one kind"); seen[video] = true; const char* V = video ? "video" : "audio"; auto& want = video ? m.video : m.audio; PBT_EQ(t.s.size(), want.size(), V << " samples");
            if (video) { const refw::Trk& rt = c.m.t[0]; Bytes w{ (uint8_t)(rt.sps.nal.size() >> 8), (uint8_t)rt.sps.nal.size() }; w.insert(w.end(), rt.sps.nal.begin(), rt.sps.nal.end()); w.push_back(1); w.push_back((uint8_t)(rt.pps[0].size() >> 8)); w.push_back((uint8_t)rt.pps[0].size()); w.insert(w.end(), rt.pps[0].begin(), rt.pps[0].end()); PBT_CHECK(t.avcc.size() >= 6 + w.size() && t.avcc[0] == 1 && std::equal(t.avcc.begin() + 1, t.avcc.begin() + 4, rt.sps.nal.begin() + 1) && (t.avcc[4] & 3) == 3 && (t.avcc[5] & 31) == 1 && std::equal(w.begin(), w.end(), t.avcc.begin() + 6), V << " configuration " << hex(t.avcc, t.avcc.size())); }
            else { unsigned ri = 0; while (refw::RATE[ri] != m.rate) ++ri; unsigned asc = m.object << 11 | ri << 7 | m.channels << 3; uint8_t w[] = { 2, (uint8_t)(asc >> 8), (uint8_t)asc }; PBT_CHECK(std::search(t.esds.begin(), t.esds.end(), w, w + 3) != t.esds.end(), V << " configuration " << hex(t.esds, t.esds.size()) << " without " << hex(w, 3)); }
            double tick = 1e7 / t.timescale, out0 = (double)t.start(mv.timescale) * 1e7; for (size_t n = 0; n < want.size(); ++n) { const Unit& u = want[n]; const ref::Sample& y = t.s[n]; std::string U = std::string(V) + " sample " + num(n) + " of " + num(want.size()); PBT_EQ(y.size, u.want.size(), U << " size"); PBT_CHECK(y.off + y.size <= f.size() && std::equal(u.want.begin(), u.want.end(), &f[y.off]), U << " bytes"); PBT_CHECK(y.sync == u.random, U << " key frame " << y.sync); double at = (double)u.pts / 9 * 1000; if (!video) at += (double)(n - m.group[n]) * 1024 * 1e7 / m.rate; double d = out0 + (double)((int64_t)y.dts + y.cts) * tick - at; if (!n) own = d; PBT_CHECK(std::abs(d - own) <= 2 * tick + 20, U << " presented at " << out0 + (double)((int64_t)y.dts + y.cts) * tick << ", in the stream at " << at << ", the first is shifted by " << own); if (!known) { known = true; shift = d; } PBT_CHECK(std::abs(d - shift) <= 3 * tick + 2e7 / mv.timescale + 20, U << " presented at " << out0 + (double)((int64_t)y.dts + y.cts) * tick << ", in the stream at " << at << ", others are shifted by " << shift); PBT_CHECK(y.cts >= 0, U << " presented before it is decoded"); } }
        if (m.video.size() > 20) s.nontrivial(); } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L); } catch (pbt::Failure& f) { f.msg += " | " + L; throw; }
    if (s.want_sample()) s.sample(L.substr(0, 400));
}
