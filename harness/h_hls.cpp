// the command line program: HTTP live streaming (K04)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"
#include "tsref.h"
#include "tsclip.h"
#include <aes.h>

static std::vector<std::string> lines(const Bytes& b) { std::vector<std::string> r(1); for (uint8_t x : b) { if (x == '\n') { if (r.back().size() && r.back().back() == '\r') r.back().pop_back(); r.push_back(""); } else { REF_NEED(x >= 32 || x == '\r', "play list byte " << (int)x); r.back() += (char)x; } } REF_NEED(r.back().empty(), "play list ends within a line"); r.pop_back(); return r; }
static bool tag(const std::string& l, const char* t, std::string& v) { if (l.compare(0, strlen(t), t)) return false; v = l.substr(strlen(t)); return true; }
static std::map<std::string, std::string> attributes(const std::string& v) { std::map<std::string, std::string> r; size_t p = 0; while (p < v.size()) { size_t e = v.find('=', p); REF_NEED(e != std::string::npos, "attributes " << v); std::string n = v.substr(p, e - p), x; p = e + 1; if (p < v.size() && v[p] == '"') { size_t z = v.find('"', p + 1); REF_NEED(z != std::string::npos, "attributes " << v); x = v.substr(p + 1, z - p - 1); p = z + 1; } else { size_t z = std::min(v.find(',', p), v.size()); x = v.substr(p, z - p); p = z; } REF_NEED(r.insert({ n, x }).second, "attribute " << n << " twice"); REF_NEED(p == v.size() || v[p] == ',', "attributes " << v); ++p; } return r; }
static uint64_t number(const std::string& v) { REF_NEED(v.size() && v.size() < 19 && v.find_first_not_of("0123456789") == std::string::npos, "number " << v); return strtoull(v.c_str(), nullptr, 10); }
struct Entry { std::string name; uint64_t dur; };
struct List { std::vector<Entry> e; bool key = false; std::string uri; bool has_iv = false; };
static List media_list(const Bytes& b, const std::string& W) {
    List r; auto l = lines(b); REF_NEED(l.size() && l[0] == "#EXTM3U", W << " first line"); bool ended = false, seq = false, pending = false; uint64_t target = 0, largest = 0; bool has_target = false; std::string v; uint64_t dur = 0;
    for (size_t i = 1; i < l.size(); ++i) { const std::string& x = l[i]; if (x.empty()) continue; REF_NEED(!ended, W << " goes on behind the end"); if (x == "#EXT-X-ENDLIST") { ended = true; REF_NEED(!pending, W << " an entry without a name"); } else if (tag(x, "#EXT-X-VERSION:", v)) REF_NEED(number(v) >= 3, W << " version with fractions"); else if (tag(x, "#EXT-X-TARGETDURATION:", v)) { REF_NEED(!has_target, W << " two target durations"); has_target = true; target = number(v); } else if (tag(x, "#EXT-X-MEDIA-SEQUENCE:", v)) { REF_NEED(r.e.empty(), W << " late sequence number"); REF_NEED(number(v) == 0, W << " sequence " << v); seq = true; }
        else if (tag(x, "#EXT-X-KEY:", v)) { auto a = attributes(v); REF_NEED(r.e.empty() && !r.key, W << " key"); r.key = true; REF_NEED(a["METHOD"] == "AES-128", W << " method " << a["METHOD"]); r.uri = a["URI"]; r.has_iv = a.count("IV"); } else if (tag(x, "#EXTINF:", v)) { REF_NEED(!pending, W << " two durations"); pending = true; size_t c = v.find(','); REF_NEED(c != std::string::npos, W << " duration " << v); v = v.substr(0, c); size_t d = v.find('.'); std::string f = d == std::string::npos ? "" : v.substr(d + 1); REF_NEED(f.size() <= 7, W << " duration " << v); while (f.size() < 7) f += '0'; dur = number(v.substr(0, d)) * 10000000 + number(f); largest = std::max(largest, dur); }
        else if (x[0] == '#') { REF_NEED(x.compare(0, 4, "#EXT") || tag(x, "#EXT-X-ALLOW-CACHE:", v) || tag(x, "#EXT-X-PROGRAM-DATE-TIME:", v), W << " tag " << x); } else { REF_NEED(pending, W << " name without a duration"); pending = false; r.e.push_back({ x, dur }); } }
    REF_NEED(ended, W << " has no end"); REF_NEED(has_target && seq, W << " tags are missing"); REF_NEED((largest + 5000000) / 10000000 <= target, W << " target duration " << target << ", a segment has " << largest); return r;
}
// the segments of one rate: lists, packets, every picture and frame of the parts one after the other
static void check_list(pbt::Source& s, const std::vector<Part>& ps, size_t which, const Want& w, const Dir& d, const std::string& file, std::set<std::string>& used, const Bytes& key, size_t& segs, std::vector<uint64_t>& names, std::string W) {
    List L = media_list(get_file(d.p + "/" + file), W); PBT_CHECK(L.key == !key.empty(), W << " key"); if (L.key) { PBT_CHECK(!L.has_iv, W << " explicit vector"); used.insert(L.uri); PBT_CHECK(get_file(d.p + "/" + L.uri) == key, W << " key file"); } PBT_CHECK(L.e.size(), W << " has no segment"); const Clip& c0 = ps[0].r[which]; unsigned nt = (unsigned)c0.m.t.size(), vi = 0; while (!c0.m.t[vi].video) ++vi; segs += L.e.size();
    std::map<unsigned, unsigned> cc; std::vector<uint64_t> at; std::vector<size_t> next(nt); std::vector<bool> begun(nt, false); bool off_known = false; int64_t off = 0, doff = 0; bool doff_known = false; struct P90 { static int64_t of(uint64_t x) { return (int64_t)((unsigned __int128)x * 9 / 1000); } };
    std::vector<TsProgram> prog; for (size_t k = 0; k < L.e.size(); ++k) { const std::string& n = L.e[k].name; std::string V = W + " segment " + std::to_string(k) + " of " + std::to_string(L.e.size()) + " (" + n + ")"; PBT_CHECK(used.insert(n).second, V << " twice"); Bytes b = get_file(d.p + "/" + n); if (L.key) { PBT_CHECK(b.size() && b.size() % 16 == 0, V << " " << b.size() << " bytes are no blocks"); aes_decrypt_ctx x; aes_decrypt_key(key.data(), 16, &x); uint8_t iv[16] = {}; iv[12] = (uint8_t)(k >> 24); iv[13] = (uint8_t)(k >> 16); iv[14] = (uint8_t)(k >> 8); iv[15] = (uint8_t)k; Bytes o(b.size()); aes_cbc_decrypt(b.data(), o.data(), (int)b.size(), iv, &x); size_t pad = o.back(); PBT_CHECK(pad && pad <= 16, V << " padding of " << pad); for (size_t i = o.size() - pad; i < o.size(); ++i) PBT_CHECK(o[i] == pad, V << " padding"); o.resize(o.size() - pad); b = o; }
        size_t u = n.rfind('_'), e = n.rfind('.'); PBT_CHECK(u != std::string::npos && e != std::string::npos && n.substr(e) == ".ts" && n.substr(0, u) == "video_" + num(w.kbit[which] * 1000), V << " name"); at.push_back(number(n.substr(u + 1, e - u - 1))); prog.push_back(ts_program(b, V, cc)); }
    if (which) PBT_CHECK(at == names, W << " times differ from the other rates"); names = at;
    for (size_t k = 0; k + 1 < at.size(); ++k) PBT_EQ((ull)(at[k] + L.e[k].dur), (ull)at[k + 1], W << " end of segment " << k); const uint64_t stop = at.back() + L.e.back().dur;
    // pictures: all, in order, each segment of one part
    std::vector<size_t> part; std::vector<std::vector<Seg>> g(ps.size()); std::vector<Seg> all; std::vector<int64_t> shift(ps.size()); size_t p = 0, v = ps[0].a[vi];
    for (size_t k = 0; k < at.size(); ++k) { std::string V = W + " segment " + std::to_string(k) + " of " + std::to_string(at.size()); auto& st = prog[k].streams; PBT_EQ(st.size(), (size_t)nt, V << " streams"); for (unsigned i = 0; i < nt; ++i) PBT_EQ(st[i].second, c0.m.t[i].video ? 0x1bu : 0x0fu, V << " type of stream " << i); auto& pes = prog[k].of(st[vi].first); PBT_CHECK(pes.size(), V << " has no picture"); if (v == ps[p].b[vi]) { PBT_CHECK(p + 1 < ps.size(), V << " follows the last picture"); ++p; v = ps[p].a[vi]; } const Clip& c = ps[p].r[which]; PBT_CHECK(v + pes.size() <= ps[p].b[vi], V << " has " << pes.size() << " pictures, " << ps[p].b[vi] - v << " are left of part " << p); int64_t diff = (int64_t)at[k] - (int64_t)c.pres(vi, v); if (g[p].empty()) shift[p] = diff; PBT_CHECK(std::abs(diff - shift[p]) <= 3, V << " picture " << v << " presented at " << c.pres(vi, v) << " is at " << at[k] << ", others are shifted by " << shift[p]); Seg x{ at[k], L.e[k].dur, v, v + pes.size() }; g[p].push_back(x); all.push_back(x); part.push_back(p); v += pes.size(); }
    PBT_CHECK(p + 1 == ps.size(), W << " has no picture of part " << p + 1); PBT_EQ(v, ps[p].b[vi], W << " pictures"); std::vector<uint64_t> end; for (auto& P : ps) end.push_back(part_end(P, vi, P.a[vi])); PBT_CHECK(std::abs((int64_t)stop - ((int64_t)end[p] + shift[p])) <= 4, W << " ends at " << stop << " expected " << (int64_t)end[p] + shift[p]); for (size_t q = 0; q < ps.size(); ++q) check_cuts(ps[q].r[which], vi, g[q], w, ps.size() == 1, W);
    // parts follow each other without overlap and without a gap in the track that is longest
    for (size_t q = 0; q + 1 < ps.size(); ++q) { const Part& P = ps[q + 1]; const Clip& c = P.c(); int64_t least = INT64_MAX, slack = 0; uint64_t key = P.start; if (c.m.t[vi].stss) key = hns(c.mv.tracks[vi].s[P.a[vi]].dts, c.mv.tracks[vi].timescale); for (unsigned i = 0; i < nt; ++i) { int64_t first = (int64_t)c.pres(i, P.a[i]); least = std::min(least, first + shift[q + 1] - (int64_t)part_end(ps[q], i, ps[q].a[i]) - shift[q]); size_t z = 0; if (!c.m.t[i].stss) { while (z + 1 < c.mv.tracks[i].s.size() && c.pres(i, z + 1) <= key) ++z; slack = std::max(slack, first - (int64_t)c.pres(i, z)); if (P.open[i]) slack = std::max(slack, (int64_t)c.pres(i, P.a[i] + 1) - first); } } PBT_CHECK(least >= -12 && least <= slack + 12, W << ": " << least << " between part " << q << " and the next, at most " << slack); }
    for (size_t k = 0; k < at.size(); ++k) { std::string V = W + " segment " + std::to_string(k) + " of " + std::to_string(at.size()); auto& pr = prog[k]; const Part& P = ps[part[k]]; const Clip& c = P.r[which]; bool last = k + 1 == at.size() || part[k + 1] != part[k]; if (k && part[k] != part[k - 1]) begun.assign(nt, false); const int64_t sh = shift[part[k]]; uint64_t from = c.pres(vi, all[k].a), to = !last ? c.pres(vi, all[k + 1].a) : k + 1 == at.size() ? end[part[k]] : (uint64_t)((int64_t)at[k + 1] - sh); if (last && P.end) to = std::min(to, P.end); PBT_EQ(pr.pcr_pid, pr.streams[vi].first, V << " clock");
        for (unsigned i = 0; i < nt; ++i) { auto& pes = pr.of(pr.streams[i].first); const ref::Track& t = c.mv.tracks[i]; size_t q, stopq = last && P.end && i != vi ? P.b[i] : t.s.size(); std::string U = V + " track " + std::to_string(i); if (i == vi) q = all[k].a; else { if (!begun[i]) { begun[i] = true; q = 0; while (q < t.s.size() && c.pres(i, q) + 3 < from) ++q; if (q < t.s.size() && c.pres(i, q) < from + 3 && (pes.empty() || pes[0].body.size() != 7 + t.s[q].size || !std::equal(pes[0].body.begin() + 7, pes[0].body.end(), &c.m.file[t.s[q].off]))) ++q; next[i] = q; } q = next[i]; }
            for (auto& p : pes) { std::string T = U + " sample " + std::to_string(q); PBT_CHECK(q < t.s.size(), U << " has more samples than the track"); PBT_CHECK(c.pres(i, q) + 3 > from && c.pres(i, q) < to + 3, T << " at " << c.pres(i, q) << " is not of " << from << ".." << to); PBT_EQ(p.id, i == vi ? 0xe0u : 0xc0u, T << " stream id"); PBT_CHECK(p.pts_there, T << " no time");
                int64_t x = (int64_t)p.pts - P90::of((uint64_t)((int64_t)c.pres(i, q) + sh)); if (!off_known) { off = x; off_known = true; } PBT_CHECK(std::abs(x - off) <= 2, T << " presented at " << p.pts << " (90 kHz), " << x - off << " from its time"); if (i == vi) PBT_CHECK(p.dts_there, T << " no decoding time"); if (p.dts_there) { PBT_CHECK(p.dts <= p.pts, T << " decoded at " << p.dts << " presented at " << p.pts); int64_t y = (int64_t)p.dts - P90::of((uint64_t)((int64_t)(hns(t.s[q].dts, t.timescale) + c.off[i]) + sh + 100000000)) + 900000; if (!doff_known) { doff = y; doff_known = true; } PBT_CHECK(std::abs(y - doff) <= 3, T << " decoded at " << p.dts << " (90 kHz), " << y - doff << " from its time"); }
                check_unit(p, c, i, q, i == vi, T);
                ++q; }
            if (i != vi) { PBT_CHECK(q >= stopq || c.pres(i, q) + 3 > to, U << " sample " << q << " at " << c.pres(i, q) << " is missing, the segment goes to " << to); next[i] = q; } } }
}
// without the creation times
static Bytes timeless(Bytes b) { for (const char* n : { "mvhd", "tkhd", "mdhd" }) for (auto i = b.begin(); (i = std::search(i, b.end(), n, n + 4)) != b.end(); i += 4) if (b.end() - i > 24) std::fill(i + 8, i + 8 + (i[4] ? 16 : 8), 0); return b; }
static void hls(pbt::Source& s, unsigned files, const char* kinds, unsigned parts = 1, bool both = false) {
    Dir d(scratch("out")); std::vector<std::string> paths; for (unsigned i = 0; i < files * parts; ++i) paths.push_back(scratch(("f" + num(i) + ".mp4").c_str())); struct Rm { std::vector<std::string>& p; ~Rm() { for (auto& x : p) unlink(x.c_str()); } } rm{ paths };
    std::vector<Part> ps(parts); bool many = false; size_t np = 0;
    for (unsigned p = 0; p < parts; ++p) { Part& P = ps[p]; P.r.push_back(gen_clip(s, kinds, paths[np++], s.chance(40) ? (parts > 1 ? 2 : 1) : 0, s.chance(25), p ? &ps[0].r[0] : nullptr, parts > 1 ? 0.25 : s.chance(60) ? 1.0 : 0.05)); if (parts == 1) many = files == 1 && s.range(0, 149) == 77; if (many) { stretch(s, P.r[0], 257, 290); s.label("more than 256 groups"); } for (unsigned i = 1; i < files; ++i) P.r.push_back(clip_variant(s, P.r[0], paths[np++], p ? &ps[0].r[i] : nullptr)); for (auto& c : P.r) { make_nals(s, c); put_file(c.path, c.m.file); } choose(P); bool cut = parts > 1 || s.chance(40); for (auto& x : P.c().m.t) if (x.stss && x.elst) cut = false; if (cut && s.chance(50)) { P.start = start_time(s, P.c()); choose(P); } if (cut && s.chance(50)) { P.end = end_time(s, P); choose(P); } auto few = [&]() { for (unsigned i = 0; i < P.a.size(); ++i) if (P.b[i] <= P.a[i] + (parts > 1)) return true; return false; }; if (parts == 1 && few()) { P.start = P.end = 0; choose(P); } if (parts > 1) { if (P.end && few()) { P.end = 0; choose(P); } if (P.start && few()) { P.start = 0; choose(P); } if (few()) throw pbt::Discard(); }
        // decoding times do not start below zero
        if (p) for (unsigned i = 0; i < P.a.size(); ++i) if (P.c().mv.tracks[i].s[P.a[i]].cts) { uint64_t lead = hns((uint64_t)P.c().mv.tracks[i].s[P.a[i]].cts, P.c().mv.tracks[i].timescale); const Part& o = ps[0]; if (part_end(o, i, o.a[i]) < o.c().pres(i, o.a[i]) + lead + 100) throw pbt::Discard(); } }
    Want w; w.len = 100000000; w.tol = 660000; uint64_t rate = 0; for (unsigned i = 0; i < files; ++i) { rate += s.range(1, 20000 / files); w.kbit.push_back(rate); } if (files > 1) { size_t k = s.range(0, files - 1); std::swap(w.kbit[0], w.kbit[k]); }
    std::vector<std::string> a = { "-k:hls", "-o:" + d.p }; for (auto& P : ps) { a.push_back("-i:" + P.c().path); a.push_back("-s:" + num(P.start)); a.push_back("-e:" + num(P.end)); a.push_back("-b:" + num(w.kbit[0])); for (unsigned i = 1; i < files; ++i) { a.push_back("-j:" + P.r[i].path); a.push_back("-b:" + num(w.kbit[i])); } } if (many || s.chance(85)) { w.len = (many ? 200 : s.range(200, s.chance(50) ? 700 : 4000)) * 10000; a.push_back("-segment:" + num(w.len)); } Bytes key; if (!both && s.chance(many ? 70 : 30)) { for (int i = 0; i < 16; ++i) key.push_back(s.byte()); a.push_back("-key:" + hexs(key)); }
    std::ostringstream L; for (auto& x : a) L << (x.compare(0, 3, "-i:") && x.compare(0, 3, "-j:") ? x : x.substr(0, 3) + x.substr(x.rfind('/') + 1)) << " "; for (auto& P : ps) L << "| " << P.c().log; if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.str().c_str()); CliRun r = cli(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L.str()); size_t segs = 0;
    // both formats in one run: the files of the two runs
    if (both) { Dir dd(scratch("dash")), db(scratch("both")); auto with = [&](const char* k, const Dir& o) { auto x = a; x[0] = std::string("-k:") + k; x[1] = "-o:" + o.p; CliRun q = cli(x); PBT_CHECK(q.rc == 0, k << " failed with " << q.rc << " | " << L.str()); }; with("dash", dd); with("adaptive", db); std::map<std::string, Bytes> want, got; for (const Dir* x : { &d, &dd }) for (auto& n : x->list()) PBT_CHECK(want.insert({ n, get_file(x->p + "/" + n) }).second, "file " << n << " in both packages"); for (auto& n : db.list()) got[n] = get_file(db.p + "/" + n); for (auto& x : want) { PBT_CHECK(got.count(x.first), "the package of both formats has no " << x.first << " | " << L.str()); bool init = x.first.find("_i.") != std::string::npos; PBT_CHECK(init ? timeless(got[x.first]) == timeless(x.second) : got[x.first] == x.second, x.first << " of the package of both formats differs | " << L.str()); } PBT_EQ(got.size(), want.size(), "files of the package of both formats"); }
    try { std::set<std::string> used; used.insert("main.m3u8"); auto l = lines(get_file(d.p + "/main.m3u8")); REF_NEED(l.size() && l[0] == "#EXTM3U", "main list first line"); std::vector<bool> seen(files, false); std::vector<uint64_t> names; bool open = false; std::map<std::string, std::string> at; std::vector<std::pair<size_t, std::string>> todo(files);
        bool audio = strchr(kinds, 'a') != nullptr; unsigned vi = 0; while (kinds[vi] != 'v') ++vi; for (size_t i = 1; i < l.size(); ++i) { std::string v; if (tag(l[i], "#EXT-X-STREAM-INF:", v)) { REF_NEED(!open, "main list: two entries in a row"); open = true; at = attributes(v); } else if (l[i].size() && l[i][0] != '#') { REF_NEED(open, "main list: name " << l[i] << " without an entry"); open = false; uint64_t bw = number(at["BANDWIDTH"]); size_t which = files; for (size_t k = 0; k < files; ++k) if (w.kbit[k] * 1000 + 96000 == bw) which = k; for (size_t k = 0; !audio && which == files && k < files; ++k) if (w.kbit[k] * 1000 == bw) which = k; PBT_CHECK(which < files, "main list: bandwidth " << bw << " | " << L.str()); PBT_CHECK(!seen[which], "main list: bandwidth twice"); seen[which] = true; const Clip& c = ps[0].r[which]; const refw::Trk& t = c.m.t[vi]; PBT_CHECK(at["RESOLUTION"] == num(t.w) + "x" + num(t.h), "main list: resolution " << at["RESOLUTION"] << " expected " << t.w << "x" << t.h); std::string codec = "avc1." + hexs(Bytes(t.sps.nal.begin() + 1, t.sps.nal.begin() + 4)); for (unsigned q = 0; q < c.m.t.size(); ++q) if (!c.m.t[q].video) { codec += ",mp4a.40." + num(c.m.t[q].object); break; } PBT_CHECK(lower(at["CODECS"]) == codec, "main list: codecs " << at["CODECS"] << " expected " << codec << " | " << L.str()); PBT_CHECK(used.insert(l[i]).second, "main list: " << l[i] << " twice"); todo[which] = { which, l[i] }; } }
        for (size_t k = 0; k < files; ++k) PBT_CHECK(seen[k], "main list: rate " << k << " is missing"); for (auto& x : todo) check_list(s, ps, x.first, w, d, x.second, used, key, segs, names, x.second);
        for (auto& n : d.list()) PBT_CHECK(used.count(n), "file " << n << " belongs to no list"); } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L.str()); } catch (pbt::Failure& f) { f.msg += " | " + L.str(); throw; }
    if (segs > 2) s.nontrivial(); if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
PBT_PROP(hls_one, 1, 0) { static const char* mix[] = { "va", "v", "av", "vaa" }; hls(s, 1, mix[s.pick({ 5, 3, 2, 2 })]); }
PBT_PROP(hls_many, 1, 0) { static const char* mix[] = { "va", "v", "av" }; hls(s, (unsigned)s.range(2, 4), mix[s.pick({ 5, 3, 2 })]); }
PBT_PROP(hls_join, 1, 0) { static const char* mix[] = { "va", "v", "av" }; unsigned n = (unsigned)s.range(2, 3); hls(s, (unsigned)s.pick({ 5, 1 }) + 1, mix[s.pick({ 5, 3, 2 })], n); }
PBT_PROP(adaptive, 1, 0) { static const char* mix[] = { "va", "v", "av" }; unsigned n = (unsigned)s.pick({ 5, 2 }) + 1; hls(s, (unsigned)s.pick({ 5, 3 }) + 1, mix[s.pick({ 5, 3, 2 })], n, true); }
