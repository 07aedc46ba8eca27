// the command line program: packaging for adaptive streaming (K01..)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"
#include "cencref.h"

// one timeline entry list of a SegmentTemplate
static std::vector<std::pair<uint64_t, uint64_t>> timeline(const Xml& tl) { std::vector<std::pair<uint64_t, uint64_t>> r; uint64_t t = 0; for (auto* x : tl.all("S")) { if (x->at.count("t")) t = x->num("t"); uint64_t d = x->num("d"), n = x->at.count("r") ? x->num("r") : 0; REF_NEED(d, "segment without duration"); REF_NEED(n < 100000, "repeat count"); for (uint64_t i = 0; i <= n; ++i) { r.push_back({ t, d }); t += d; } } REF_NEED(tl.kids.size() == tl.all("S").size(), "timeline"); return r; }
static std::string fill(std::string t, uint64_t bw, uint64_t time, bool has_time) { auto sub = [&](const std::string& a, uint64_t v) { size_t p = t.find(a); if (p != std::string::npos) t.replace(p, a.size(), std::to_string(v)); }; sub("$Bandwidth$", bw); if (has_time) sub("$Time$", time); REF_NEED(t.find('$') == std::string::npos, "template " << t); return t; }
static double iso_seconds(const std::string& d) { REF_NEED(d.size() > 3 && d.compare(0, 2, "PT") == 0 && d.back() == 'S', "duration " << d); std::string n = d.substr(2, d.size() - 3); REF_NEED(n.find_first_not_of("0123456789.") == std::string::npos && n[0] != '.', "duration " << d); return atof(n.c_str()); }

static void check_init(const Bytes& b, const Clip& c, unsigned i, uint64_t ts, const std::string& W, uint32_t& id) {
    auto top = ref::parse(b.data(), b.size(), 0, W); REF_NEED(top.size() == 2 && top[0].type == "ftyp" && top[1].type == "moov", W << " boxes"); ref::Movie m = ref::movie(top[1]); REF_NEED(m.tracks.size() == 1, W << " tracks " << m.tracks.size()); auto& t = m.tracks[0]; id = t.id; PBT_EQ((ull)t.timescale, (ull)ts, W << " time scale"); PBT_CHECK(t.handler == (c.m.t[i].video ? "vide" : "soun"), W << " handler " << t.handler); PBT_CHECK(t.s.empty(), W << " has samples"); const ref::Box& trex = top[1].need("mvex").need("trex"); ref::Cur x = trex.cur(); x.u(4); PBT_EQ((ull)x.u(4), (ull)t.id, W << " track of the defaults");
    if (c.m.t[i].video) { Bytes want = c.m.t[i].avcc; PBT_CHECK(t.avcc.size() == want.size() && std::equal(want.begin() + 5, want.end(), t.avcc.begin() + 5), W << " parameter sets " << hex(t.avcc, 200) << " expected " << hex(want, 200)); }
    else { PBT_CHECK(std::search(t.esds.begin(), t.esds.end(), c.m.t[i].asc.begin(), c.m.t[i].asc.end()) != t.esds.end(), W << " audio configuration " << hex(t.esds, 80) << " without " << hex(c.m.t[i].asc)); }
}
// one representation of one track: initialisation segment and segments; returns the samples (of the whole track, one part after the other) of every segment
static std::vector<Seg> check_rep(pbt::Source& s, const std::vector<Part>& ps, size_t which, unsigned i, const Dir& d, const Xml& tpl, uint64_t bw, const std::vector<std::pair<uint64_t, uint64_t>>& tl, uint64_t ts, std::set<std::string>& used, const std::string& W, std::vector<At>& all, Enc& enc, size_t& hidden, std::vector<std::pair<At, double>>* joins = nullptr) { bool vid = ps[0].c().m.t[i].video;
    std::string in = fill(tpl.get("initialization"), bw, 0, false); used.insert(in); uint32_t id = 0; check_init(clean_init(get_file(d.p + "/" + in), enc, vid, W + " " + in), ps[0].r[which], i, ts, W + " " + in, id);
    struct One { std::string name; Bytes b; Frag f; }; std::vector<One> fs; size_t total = 0; for (size_t k = 0; k < tl.size(); ++k) { One o; o.name = fill(tpl.get("media"), bw, tl[k].first, true); PBT_CHECK(used.insert(o.name).second, W << " " << o.name << " twice"); o.b = get_file(d.p + "/" + o.name); Sidx x; try { decrypt(o.b, enc, vid, W + " " + o.name, hidden); o.f = one_fragment(o.b, x); } catch (ref::Bad& b) { REF_NEED(false, W << " segment " << k << " of " << tl.size() << " (" << o.name << "): " << b.what); } total += o.f.s.size(); fs.push_back(o); }
    std::vector<size_t> a; size_t want = 0, maybe = 0, mp = 0; for (size_t p = 0; p < ps.size(); ++p) { a.push_back(ps[p].a[i]); want += ps[p].b[i] - std::min(ps[p].a[i], ps[p].b[i]); if (ps[p].open[i]) { ++maybe; mp = p; } } if (maybe && total != want) { if (maybe > 1) throw pbt::Discard(); if (total + 1 == want) ++a[mp]; }
    all.clear(); for (size_t p = 0; p < ps.size(); ++p) for (size_t k = a[p]; k < ps[p].b[i]; ++k) all.push_back({ p, k });
    std::vector<bool> cto; for (auto& p : ps) { const ref::Track& t = p.r[which].mv.tracks[i]; bool lone = t.has_ctts; for (auto& x : t.s) if (x.cts != t.s[0].cts) lone = false; cto.push_back(t.has_ctts && !lone); }
    std::vector<Seg> r; size_t at = 0; for (size_t k = 0; k < tl.size(); ++k) { std::string V = W + " segment " + std::to_string(k) + " of " + std::to_string(tl.size()) + " (" + fs[k].name + ")"; const Frag& f = fs[k].f; PBT_EQ(f.track, id, V << " track"); PBT_EQ((ull)f.seq, (ull)k + 1, V << " sequence number"); PBT_CHECK(f.s.size(), V << " is empty"); PBT_CHECK(at + f.s.size() <= all.size(), V << " has " << f.s.size() << " samples, " << all.size() - at << " are left"); size_t bytes = 0, from = at;
        for (size_t q = 0; q < f.s.size();) { size_t p = all[at].part, n = 1; while (q + n < f.s.size() && all[at + n].part == p) ++n; const Clip& c = ps[p].r[which]; check_samples(s, f, q, c.mv.tracks[i], all[at].k, all[at].k + n, ts, c.m.file, bytes, V, c.m.t[i].video && cto[p], q + n < f.s.size()); if (q && joins) { double sum = (double)f.tfdt; for (size_t z = 0; z < q; ++z) sum += f.s[z].dur; joins->push_back({ all[at], (sum + (cto[p] ? f.s[q].cto : 0)) * 1e7 / ts }); } q += n; at += n; }
        PBT_CHECK(f.has_tfdt, V << " no decoding time"); long double first = ((long double)f.tfdt + (cto[all[from].part] ? f.s[0].cto : 0)) * 10000000 / ts; PBT_CHECK(std::abs((double)(first - tl[k].first)) <= 2.1 + 2e7 / ts, V << " starts at " << (double)first); r.push_back({ tl[k].first, tl[k].second, from, at }); }
    PBT_CHECK(at == all.size(), W << " has samples up to " << at << " of " << all.size()); return r;
}
static void check_mpd(pbt::Source& s, const std::vector<Part>& ps, const Dir& d, const Want& w, const std::string& W, std::set<std::string>& used, size_t& segs, Enc& enc, size_t& hidden) {
    const Clip& c = ps[0].c(); size_t nt = c.m.t.size(); Bytes b = get_file(d.p + "/index.mpd"); used.insert("index.mpd"); std::string text(b.begin(), b.end()); XmlReader xr(text); Xml m = xr.document(); REF_NEED(m.name == "MPD", "root " << m.name); PBT_CHECK(m.get("type") == "static", W << " type"); m.get("minBufferTime"); m.get("profiles"); PBT_CHECK(m.get("xmlns") == "urn:mpeg:dash:schema:mpd:2011", W << " name space"); auto sets = m.one("Period").all("AdaptationSet"); PBT_EQ(sets.size(), nt, W << " adaptation sets"); std::set<std::string> ids, reps; std::vector<bool> seen(nt, false); unsigned nv = 0, na = 0;
    struct Shift { bool known = false; int64_t v = 0; }; std::vector<Shift> shift(ps.size()); std::vector<std::vector<uint64_t>> first(nt, std::vector<uint64_t>(ps.size(), UINT64_MAX)), end(nt, std::vector<uint64_t>(ps.size(), 0)); std::vector<uint64_t> stop(nt, 0);
    std::map<std::string, unsigned> named; { for (unsigned i = 0; i < nt; ++i) { unsigned& n = c.m.t[i].video ? nv : na; std::string nm = c.m.t[i].video ? "video" : "audio"; if (n) nm += std::to_string(n); ++n; named[nm] = i; } }
    for (auto* a : sets) { bool video = a->get("contentType") == "video"; PBT_CHECK(ids.insert(a->get("id")).second, W << " adaptation set id twice"); PBT_CHECK(a->get("mimeType") == (video ? "video/mp4" : "audio/mp4"), W << " mime type " << a->get("mimeType")); PBT_CHECK(a->get("segmentAlignment") == "true", W << " alignment"); const Xml& tpl = a->one("SegmentTemplate"); uint64_t base = tpl.num("timescale"); PBT_EQ((ull)base, 10000000ull, W << " time scale of the manifest"); std::string media = tpl.get("media"); std::string nm = media.substr(0, media.find('_')); PBT_CHECK(named.count(nm) && c.m.t[named[nm]].video == video, W << " template " << media); unsigned i = named[nm]; PBT_CHECK(!seen[i], W << " track " << i << " twice"); seen[i] = true; std::string V = W + ", " + nm;
        auto tl = timeline(tpl.one("SegmentTimeline")); PBT_CHECK(tl.size(), V << " has no segment"); auto rs = a->all("Representation"); size_t nr = video ? ps[0].r.size() : 1; PBT_EQ(rs.size(), nr, V << " representations"); uint64_t maxw = 0, maxh = 0; const std::string setcodec = lower(a->at.count("codecs") ? a->get("codecs") : "");
        for (size_t k = 0; k + 1 < tl.size(); ++k) PBT_EQ((ull)(tl[k].first + tl[k].second), (ull)tl[k + 1].first, V << " end of segment " << k);
        for (auto* r : rs) { uint64_t bw = r->num("bandwidth"); PBT_CHECK(reps.insert(r->get("id")).second, V << " representation id twice"); size_t which = 0; if (video) { which = nr; for (size_t k = 0; k < nr; ++k) if (w.kbit[k] * 1000 == bw) which = k; PBT_CHECK(which < nr, V << " bandwidth " << bw); } else PBT_EQ((ull)bw, (ull)w.abit, V << " bandwidth"); const Clip& rc = ps[0].r[which]; std::string codec = r->at.count("codecs") ? lower(r->get("codecs")) : setcodec, want; const refw::Trk& rt = rc.m.t[i];
            if (video) { want = "avc1." + hexs(Bytes(rt.sps.nal.begin() + 1, rt.sps.nal.begin() + 4)); PBT_EQ((ull)r->num("width"), (ull)rt.w, V << " width"); PBT_EQ((ull)r->num("height"), (ull)rt.h, V << " height"); maxw = std::max<uint64_t>(maxw, rt.w); maxh = std::max<uint64_t>(maxh, rt.h); } else { want = "mp4a.40." + std::to_string(rt.object); PBT_EQ((ull)r->num("audioSamplingRate"), (ull)rt.rate, V << " sampling rate"); } PBT_CHECK(codec == want, V << " codec " << codec << " expected " << want);
            std::vector<At> all; std::vector<std::pair<At, double>> joins; std::vector<Seg> g = check_rep(s, ps, which, i, d, tpl, bw, tl, video ? w.vts : w.ats, used, V + " " + std::to_string(bw), all, enc, hidden, which ? nullptr : &joins); if (which) continue; segs += g.size(); for (auto& x : all) first[i][x.part] = std::min(first[i][x.part], ps[x.part].c().pres(i, x.k)); for (size_t p = 0; p < ps.size(); ++p) { size_t a0 = SIZE_MAX; for (auto& x : all) if (x.part == p) a0 = std::min(a0, x.k); end[i][p] = part_end(ps[p], i, a0); } stop[i] = tl.back().first + tl.back().second;
            for (auto& q : g) { const At& x = all[q.a]; int64_t diff = (int64_t)q.t - (int64_t)ps[x.part].c().pres(i, x.k); Shift& z = shift[x.part]; if (!z.known) { z.v = diff; z.known = true; } PBT_CHECK(std::abs(diff - z.v) <= 6, V << " sample " << x.k << " of part " << x.part << " presented at " << ps[x.part].c().pres(i, x.k) << " is at " << q.t << ", others are shifted by " << z.v); }
            for (auto& j : joins) { const Shift& z = shift[j.first.part]; double at = (double)((int64_t)ps[j.first.part].c().pres(i, j.first.k) + z.v); if (z.known) { s.label("join inside a segment"); PBT_CHECK(std::abs(j.second - at) <= 40 + 3e7 / (video ? w.vts : w.ats), V << " sample " << j.first.k << " of part " << j.first.part << " inside a segment is at " << j.second << ", others are shifted to " << at); } }
            for (size_t p = 0; p < ps.size(); ++p) { std::vector<Seg> mine; for (auto q : g) if (all[q.a].part == p) { size_t e = q.a; while (e < q.b && all[e].part == p) ++e; q.b = all[e - 1].k + 1; q.a = all[q.a].k; mine.push_back(q); } check_cuts(ps[p].c(), i, mine, w, ps.size() == 1, V + " part " + std::to_string(p)); }
            if (c.m.t[i].stss) for (auto& q : g) PBT_CHECK(all[q.a].part == all[q.b - 1].part, V << " a segment has samples of two parts");
            if (!i) { double decl = iso_seconds(m.get("mediaPresentationDuration")), span = (tl.back().first + tl.back().second - tl[0].first) / 1e7; PBT_CHECK(std::abs(decl - span) < 0.0000015, V << " presentation of " << m.get("mediaPresentationDuration") << " expected " << span); } }
        check_protection(*a, m, video, enc, V); if (video) { PBT_EQ((ull)a->num("maxWidth"), (ull)maxw, V << " largest width"); PBT_EQ((ull)a->num("maxHeight"), (ull)maxh, V << " largest height"); } }
    // the tracks end with their last sample; parts follow each other without overlap and without a gap in the track that is longest
    for (unsigned i = 0; i < nt; ++i) { size_t p = ps.size() - 1; if (shift[p].known && first[i][p] != UINT64_MAX) PBT_CHECK(std::abs((double)stop[i] - (double)((int64_t)end[i][p] + shift[p].v)) <= 10, W << ", track " << i << " ends at " << stop[i] << " expected " << (int64_t)end[i][p] + shift[p].v); }
    for (size_t p = 0; p + 1 < ps.size(); ++p) if (shift[p].known && shift[p + 1].known) { int64_t least = INT64_MAX; for (unsigned i = 0; i < nt; ++i) if (first[i][p + 1] != UINT64_MAX && first[i][p] != UINT64_MAX) least = std::min(least, (int64_t)first[i][p + 1] + shift[p + 1].v - (int64_t)end[i][p] - shift[p].v); // audio before the first key frame is left out, it may leave a gap
            int64_t slack = 0; const Part& P = ps[p + 1]; uint64_t key = UINT64_MAX; for (unsigned i = 0; i < nt; ++i) if (P.c().m.t[i].stss && key == UINT64_MAX) key = hns(P.c().mv.tracks[i].s[P.a[i]].dts, P.c().mv.tracks[i].timescale); if (key == UINT64_MAX) key = P.start; for (unsigned i = 0; i < nt; ++i) if (!P.c().m.t[i].stss) { size_t q = 0; auto& ss = P.c().mv.tracks[i].s; while (q + 1 < ss.size() && P.c().pres(i, q + 1) <= key) ++q; if (first[i][p + 1] != UINT64_MAX) slack = std::max(slack, (int64_t)first[i][p + 1] - (int64_t)P.c().pres(i, q)); }
            PBT_CHECK(least >= -12 && least <= slack + 12, W << ": " << least << " between part " << p << " and the next, at most " << slack); }
}
static void larger(pbt::Source& s, Clip& c) { for (auto& t : c.m.t) { t.stco_at.clear(); t.chunk_off.clear(); for (auto& x : t.s) if (s.chance(60)) x.size = (uint32_t)(s.chance(40) ? s.range(90, 130) : s.chance(3) ? s.range(4090, 12000) : s.edgy(1, 3000)); } if (s.range(0, 199) == 99) { auto& t = c.m.t[s.range(0, c.m.t.size() - 1)]; t.s[s.range(0, t.s.size() - 1)].size = (uint32_t)s.range(1048570, 1049000); s.label("more than 65536 blocks"); } refw::build(s, c.m); clip_read(c); c.log = clip_text(c); }
static void dash(pbt::Source& s, unsigned parts, unsigned files, const char* kinds, bool crypt = false) { Enc enc; Want w; size_t hidden = 0; if (crypt) { enc.on = true; enc.key = s.bytes(16); enc.kid = s.bytes(16); }
    Dir d(scratch("out")); std::vector<std::string> paths; for (unsigned i = 0; i < files * parts; ++i) paths.push_back(scratch(("f" + num(i) + ".mp4").c_str())); struct Rm { std::vector<std::string>& p; ~Rm() { for (auto& x : p) unlink(x.c_str()); } } rm{ paths };
    std::vector<Part> ps(parts); size_t np = 0; for (unsigned p = 0; p < parts; ++p) { Part& P = ps[p]; P.r.push_back(gen_clip(s, kinds, paths[np++], s.chance(40) ? (parts > 1 ? 2 : 1) : 0, s.chance(25), p ? &ps[0].r[0] : nullptr, parts > 1 ? 0.25 : s.chance(60) ? 1.0 : 0.05)); for (unsigned i = 1; i < files; ++i) { P.r.push_back(clip_variant(s, P.r[0], paths[np++], p ? &ps[0].r[i] : nullptr)); } bool many = crypt && parts == 1 && files == 1 && s.range(0, 39) == 7; if (many) { stretch(s, P.r[0], 100, 120); s.label("many segments"); w.len = 2000000; } if (crypt) for (auto& c : P.r) larger(s, c); for (auto& c : P.r) put_file(c.path, c.m.file); choose(P);
        bool cut = parts > 1 || s.chance(30); for (auto& t : P.c().m.t) if (t.stss && t.elst) cut = false; if (cut && s.chance(40)) { P.start = start_time(s, P.c()); choose(P); } if (cut && s.chance(40)) { P.end = end_time(s, P); choose(P); } auto few = [&]() { for (unsigned i = 0; i < P.a.size(); ++i) if (P.b[i] <= P.a[i] + (parts > 1)) return true; return false; }; for (unsigned i = 0; i < P.a.size(); ++i) if (parts == 1 && (P.start || P.end) && P.b[i] <= P.a[i] + 1) P.start = P.end = 0; choose(P); if (P.end && few()) { P.end = 0; choose(P); } if (P.start && few()) { P.start = 0; choose(P); } if (few()) throw pbt::Discard();
        // decoding times do not start below zero
        if (p) for (unsigned i = 0; i < P.a.size(); ++i) if (P.c().mv.tracks[i].s[P.a[i]].cts) { uint64_t lead = hns((uint64_t)P.c().mv.tracks[i].s[P.a[i]].cts, P.c().mv.tracks[i].timescale); const Part& o = ps[0]; if (part_end(o, i, o.a[i]) < o.c().pres(i, o.a[i]) + lead + 100) throw pbt::Discard(); } }
    uint64_t rate = 0; for (unsigned i = 0; i < files; ++i) { rate += s.range(1, 20000 / files); w.kbit.push_back(rate); } if (files > 1) { size_t k = s.range(0, files - 1); std::swap(w.kbit[0], w.kbit[k]); }
    std::vector<std::string> a = { "-k:dash", "-o:" + d.p }; for (auto& P : ps) { a.push_back("-i:" + P.c().path); a.push_back("-s:" + num(P.start)); a.push_back("-e:" + num(P.end)); a.push_back("-b:" + num(w.kbit[0])); for (unsigned i = 1; i < files; ++i) { a.push_back("-j:" + P.r[i].path); a.push_back("-b:" + num(w.kbit[i])); } }
    bool kind = s.chance(20); if (kind) a[0] = "-k:ssf"; if (w.len == 2000000) a.push_back("-segment:2000000"); else if (s.chance(75)) { w.len = s.range(200, 4000) * 10000; a.push_back("-segment:" + num(w.len)); } if (s.chance(20)) { w.abit = s.range(1000, 400000); a.push_back("-audio_bitrate:" + num(w.abit)); } static const uint64_t tss[] = { 90000, 1000, 48000, 12800 }; if (s.chance(25)) { w.vts = tss[s.pick({ 4, 1, 1, 1 })]; a.push_back("-videotimescale:" + num(w.vts)); } if (s.chance(25)) { w.ats = s.chance(50) ? 48000 : tss[s.pick({ 1, 0, 1, 0 })]; a.push_back("-audiotimescale:" + num(w.ats)); }
    if (crypt) { auto up = [&](std::string x) { if (s.chance(50)) for (auto& c : x) c = (char)toupper((unsigned char)c); return x; }; a.push_back("-key:" + up(hexs(enc.key))); a.push_back("-kid:" + up(hexs(enc.kid))); if (s.chance(40)) { enc.flags = s.chance(50) ? 0 : 2; a.push_back("-senc_flags:" + num(enc.flags)); } if (s.chance(25)) { enc.audio = s.chance(50); a.push_back(std::string("-audio_encrypted:") + (enc.audio ? "true" : "false")); } if (s.chance(40)) { enc.clear = s.chance(80); a.push_back(std::string("-clearkey:") + (enc.clear ? "true" : "false")); } if (s.chance(40)) { enc.url = "http://"; size_t n = s.small(1, 60); while (n--) enc.url += "abcdefghijklmnopqrstuvwxyz0123456789./?=:-"[s.range(0, 41)]; a.push_back("-playreadyurl:" + enc.url); } if (s.chance(40)) { enc.wv = s.bytes((size_t)s.small(1, 300)); a.push_back("-widevinebody:" + to_b64(enc.wv)); } }
    std::ostringstream L; for (auto& x : a) L << (x.compare(0, 3, "-i:") && x.compare(0, 3, "-j:") ? x : x.substr(0, 3) + x.substr(x.rfind('/') + 1)) << " "; for (auto& P : ps) L << "| " << P.c().log; size_t segs = 0; if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.str().c_str()); CliRun r = cli(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L.str());
    try { std::set<std::string> used; check_mpd(s, ps, d, w, "dash", used, segs, enc, hidden); check_random(enc); if (enc.clear) { used.insert("json.key"); check_json(get_file(d.p + "/json.key"), enc, "json.key"); } if (kind) used.insert("index.ism"); for (auto& n : d.list()) PBT_CHECK(used.count(n), "file " << n << " belongs to no segment"); } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L.str()); } catch (pbt::Failure& f) { f.msg += " | " + L.str(); throw; }
    if (segs > 2 && (!crypt || hidden > 1000)) s.nontrivial(); if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
PBT_PROP(dash_one, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; dash(s, 1, 1, mix[s.pick({ 5, 3, 2, 2, 2 })]); }
PBT_PROP(dash_many, 1, 0) { static const char* mix[] = { "va", "v", "av", "vaa" }; unsigned n = (unsigned)s.range(2, 4); dash(s, 1, n, mix[s.pick({ 5, 3, 2, 2 })]); }
PBT_PROP(dash_join, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; unsigned n = (unsigned)s.range(2, 3); dash(s, n, (unsigned)s.pick({ 5, 1 }) + 1, mix[s.pick({ 6, 3, 2, 2, 1 })]); }
PBT_PROP(dash_enc, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; unsigned n = s.chance(25) ? 2 : 1; dash(s, n, (unsigned)s.pick({ 5, 1 }) + 1, mix[s.pick({ 6, 2, 2, 2, 1 })], true); }
