// the command line program: movies joined into one file (K05)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"

static void join(pbt::Source& s, unsigned parts, const char* kinds) {
    std::string outp = scratch("out.mp4"); std::vector<std::string> paths; for (unsigned i = 0; i < parts; ++i) paths.push_back(scratch(("f" + num(i) + ".mp4").c_str())); struct Rm { std::vector<std::string> p; ~Rm() { if (!getenv("VERIF_KEEP")) for (auto& x : p) unlink(x.c_str()); } } rm{ paths }; rm.p.push_back(outp); rm.p.push_back(outp + ".body.tmp");
    std::vector<Part> ps(parts); for (unsigned p = 0; p < parts; ++p) { Part& P = ps[p]; P.r.push_back(gen_clip(s, kinds, paths[p], s.chance(40) ? (parts > 1 ? 2 : 1) : 0, s.chance(25), p ? &ps[0].r[0] : nullptr, parts > 1 ? 0.25 : s.chance(60) ? 1.0 : 0.05)); put_file(P.c().path, P.c().m.file); choose_mux(P);
        bool cut = s.chance(60); for (auto& x : P.c().m.t) if (x.stss && x.elst) cut = false; if (cut && s.chance(50)) { P.start = start_time(s, P.c()); choose_mux(P); } if (cut && s.chance(50)) { P.end = end_time(s, P); choose_mux(P); } auto few = [&]() { for (unsigned i = 0; i < P.a.size(); ++i) if (P.b[i] <= P.a[i] + (P.c().mv.tracks[i].s.size() > 1)) return true; return false; }; if (P.end && few()) { P.end = 0; choose_mux(P); } if (P.start && few()) { P.start = 0; choose_mux(P); } if (few()) throw pbt::Discard(); }
    std::vector<std::string> a = { "-k:mux", "-o:" + outp }; for (auto& P : ps) { a.push_back("-i:" + P.c().path); a.push_back("-s:" + num(P.start)); a.push_back("-e:" + num(P.end)); }
    static const uint64_t tss[] = { 90000, 1000, 48000, 10000000 }; uint64_t vts = 0, ats = 0; if (s.chance(25)) { vts = tss[s.pick({ 4, 1, 1, 1 })]; a.push_back("-videotimescale:" + num(vts)); } if (s.chance(25)) { ats = tss[s.pick({ 2, 1, 3, 1 })]; a.push_back("-audiotimescale:" + num(ats)); } if (s.chance(20)) a.push_back("-maxdistance:" + num(s.range(0, 50000000))); if (s.chance(20)) a.push_back(std::string("-ctts:") + (s.chance(50) ? "true" : "false"));
    std::ostringstream L; for (auto& x : a) L << (x.compare(0, 3, "-i:") ? x : x.substr(0, 3) + x.substr(x.rfind('/') + 1)) << " "; for (auto& P : ps) L << "| " << P.c().log; if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.str().c_str()); CliRun r = cli(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L.str());
    try { Bytes f = get_file(outp); auto top = ref::parse(f.data(), f.size(), 0, "the output"); ref::Movie mv; for (auto& b : top) if (b.type == "moov") mv = ref::movie(b); const Clip& c0 = ps[0].c(); size_t nt = c0.m.t.size(); PBT_EQ(mv.tracks.size(), nt, "tracks");
        struct Shift { bool known = false; double v = 0, tick = 0; }; std::vector<Shift> shift(parts); size_t total = 0; std::vector<std::vector<double>> from(nt, std::vector<double>(parts)), to = from, last = from;
        for (unsigned i = 0; i < nt; ++i) { const ref::Track& t = mv.tracks[i]; const refw::Trk& rt = c0.m.t[i]; std::string V = "track " + num(i); PBT_CHECK(t.codec == (rt.video ? "avc1" : "mp4a"), V << " codec " << t.codec); std::vector<At> all; for (size_t p = 0; p < parts; ++p) for (size_t k = ps[p].a[i]; k < ps[p].b[i]; ++k) all.push_back({ p, k }); auto same = [&](size_t n, const At& x) { const Clip& c = ps[x.part].c(); auto& in = c.mv.tracks[i].s[x.k]; return n < t.s.size() && t.s[n].size == in.size && t.s[n].off + in.size <= f.size() && std::equal(&f[t.s[n].off], &f[t.s[n].off] + in.size, &c.m.file[in.off]); }; for (unsigned m = 1; m < 1u << parts && all.size() > t.s.size(); ++m) { std::vector<At> v; bool ok = true; for (size_t n = 0; n < all.size(); ++n) { if ((!n || all[n - 1].part != all[n].part) && (m >> all[n].part & 1)) { if (!ps[all[n].part].open[i]) ok = false; continue; } v.push_back(all[n]); } if (!ok || v.size() != t.s.size()) continue; for (size_t n = 0; n < v.size() && ok; ++n) ok = same(n, v[n]); if (ok) all = v; } PBT_EQ(t.s.size(), all.size(), V << " samples"); total += all.size();
            check_config(t, rt, V);
            bool lead = true; for (unsigned q = 0; q < i; ++q) if (c0.m.t[q].video == rt.video) lead = false; uint64_t want_ts = rt.video && vts ? vts : !rt.video && ats ? ats : rt.scale; if (lead) PBT_EQ((ull)t.timescale, (ull)want_ts, V << " time scale");
            double tick = 1e7 / t.timescale; double out0 = (double)t.start(mv.timescale) * 1e7; for (size_t n = 0; n < all.size(); ++n) { const Clip& c = ps[all[n].part].c(); const ref::Sample& x = c.mv.tracks[i].s[all[n].k]; const ref::Sample& y = t.s[n]; std::string U = V + " sample " + num(n) + " of " + num(all.size()); PBT_EQ(y.size, x.size, U << " size"); PBT_CHECK(y.off + y.size <= f.size() && std::equal(&f[y.off], &f[y.off] + y.size, &c.m.file[x.off]), U << " bytes"); PBT_CHECK(y.sync == x.sync, U << " key frame " << y.sync);
                double out = out0 + (double)((int64_t)y.dts + y.cts) * tick, d = out - (double)c.pres(i, all[n].k); Shift& z = shift[all[n].part]; if (!z.known) { z.known = true; z.v = d; z.tick = tick; } PBT_CHECK(std::abs(d - z.v) <= 1.5 * (tick + z.tick) + 2e7 / mv.timescale + 5, U << " presented at " << out << ", in the input at " << c.pres(i, all[n].k) << ", others are shifted by " << z.v); if (!n || all[n - 1].part != all[n].part || from[i][all[n].part] > out) from[i][all[n].part] = out; if (last[i][all[n].part] <= out) last[i][all[n].part] = out, to[i][all[n].part] = out + (double)(hns(c.m.t[i].s[all[n].k].delta, c.mv.tracks[i].timescale)); PBT_CHECK(y.cts >= 0, U << " presented before it is decoded"); } }
        for (size_t p = 0; p + 1 < parts; ++p) { double least = 1e18, slop = 2e7 / mv.timescale + 5; for (unsigned i = 0; i < nt; ++i) { least = std::min(least, from[i][p + 1] - to[i][p]); slop = std::max(slop, 2e7 / mv.timescale + 5 + 3e7 / mv.tracks[i].timescale); } PBT_CHECK(std::abs(least) <= slop, least << " between part " << p << " and the next"); }
        if (getenv("VERIF_SHOW")) for (auto& z : shift) fprintf(stderr, "shift %f\n", z.v); if (total > 20) s.nontrivial();
    } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L.str()); } catch (pbt::Failure& f) { f.msg += " | " + L.str(); throw; }
    if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
PBT_PROP(mux_one, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; join(s, 1, mix[s.pick({ 5, 3, 2, 2, 2 })]); }
PBT_PROP(mux_join, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; join(s, (unsigned)s.range(2, 3), mix[s.pick({ 5, 3, 2, 2, 2 })]); }
