// MP4 reading and seeking (P02, P03)
#include "stdafx.h"
#include "mp4gen.h"
#include <mg/media/mp4parse.h>
#include "mp4refw.h"

typedef unsigned long long ull;
static uint64_t hns(uint64_t t, uint64_t scale) { return (uint64_t)((unsigned __int128)t * 10000000 / scale); }
// what the reader says against what the independent parser finds in the same file
static void check_reader(pbt::Source& s, MP4Reader& r, CMP4& mp4, const ref::Movie& m, const Bytes& file, const std::string& log) {
    PBT_EQ(r.stream_count(), m.tracks.size(), "streams of " << log); PBT_EQ(r.parsable_stream_count(), m.tracks.size(), "parsable streams of " << log); PBT_EQ((ull)r.get_duration(), (ull)hns(m.duration, m.timescale), "duration of the movie, " << log); int first_video = -1;
    for (unsigned i = 0; i < m.tracks.size(); ++i) { const ref::Track& t = m.tracks[i]; std::ostringstream wo; wo << "track " << i << " "; std::string W = wo.str(); bool video = t.handler == "vide"; if (video && first_video < 0) first_video = (int)i; uint64_t ts = t.timescale; size_t n = t.s.size();
        PBT_EQ(r.IsVisual(i), video, W << "is visual"); PBT_EQ(r.IsSound(i), !video, W << "is sound"); PBT_CHECK(!r.IsLTC(i), W << "is a time code stream"); PBT_CHECK(r.get_language(i) == t.lang, W << "language " << r.get_language(i) << " expected " << t.lang); PBT_EQ((ull)r.get_media_time_scale(i), (ull)ts, W << "time scale"); PBT_EQ((ull)r.get_sample_count(i), (ull)n, W << "samples, " << log); PBT_EQ((ull)r.get_duration(i), (ull)hns(t.md_duration, ts), W << "duration"); PBT_EQ(r.entry_count(i), 1, W << "sample descriptions"); PBT_EQ(r.has_composition_time(i), t.has_ctts, W << "has composition offsets"); PBT_EQ(r.has_random_access_point(i), t.has_stss, W << "has a sync sample table");
        uint64_t off = t.edits.size() == 2 && t.edits[0].media == -1 ? t.edits[0].duration : 0; PBT_EQ((ull)r.get_stream_offset(i), (ull)hns(off, m.timescale), W << "stream offset, " << log);
        uint64_t total = 0, minc = UINT64_MAX, maxc = 0; size_t last = 0; for (size_t k = 0; k < n; ++k) { const ref::Sample& x = t.s[k]; uint64_t c = x.dts + (uint64_t)x.cts; total += x.size; minc = std::min(minc, c); if (c >= maxc) { maxc = c; last = k; }
            PBT_EQ((ull)r.get_sample_size(k, i), (ull)x.size, W << "size of sample " << k << ", " << log); PBT_EQ((ull)r.get_sample_offset(k, i), (ull)x.off, W << "offset of sample " << k << ", " << log); PBT_EQ((ull)r.get_raw_decoding_time(k, i), (ull)x.dts, W << "decoding ticks of sample " << k << ", " << log); PBT_EQ((ull)r.get_raw_composition_time(k, i), (ull)c, W << "composition ticks of sample " << k << ", " << log); PBT_EQ((ull)r.get_decoding_time(k, i), (ull)hns(x.dts, ts), W << "decoding time of sample " << k); PBT_EQ((ull)r.get_composition_time(k, i), (ull)hns(c, ts), W << "composition time of sample " << k); }
        PBT_EQ((ull)r.get_total_stream_size(i), (ull)total, W << "bytes of all samples, " << log);
        if (n) { PBT_EQ((ull)r.get_start_time(i), (ull)hns(minc, ts), W << "start time, " << log); PBT_EQ((ull)r.get_end_time(i), (ull)hns(maxc, ts), W << "end time, " << log); PBT_EQ((ull)r.get_decoding_start_time(i), 0ull, W << "first decoding time"); }
        if (t.md_duration / ts >= 1) { uint64_t d = t.md_duration, rate = r.get_stream_bit_rate(i); PBT_CHECK(rate + 1 >= (uint64_t)((long double)total * 8 * ts / d) && (long double)rate * (d / ts) <= (long double)total * 8, W << "bit rate " << rate << " of " << total << " bytes in " << d << "/" << ts << " s"); }
        if (video) { const CMP4VisualEntry& v = r.get_visual_entry(0, i); PBT_EQ((uint32_t)v.get_entry().width, t.entry_w, W << "width"); PBT_EQ((uint32_t)v.get_entry().height, t.entry_h, W << "height"); Bytes b(v.get_body(), v.get_body() + v.get_body_size()); PBT_CHECK(b == t.avcc, W << "codec configuration " << hex(b) << " expected " << hex(t.avcc)); }
        else { const CMP4AudioEntry& v = r.get_audio_entry(0, i); AudioSampleEntry e = v.get_entry(); PBT_EQ((uint32_t)e.get_channelcount(), t.channels, W << "channels"); PBT_EQ((uint32_t)e.get_samplerate() & 0xffff, t.rate >> 16, W << "sample rate"); } }
    PBT_EQ(r.VisualStream(), first_video, "first video stream");
}
static void check_order(pbt::Source& s, MP4Reader& r, CMP4& mp4, const ref::Movie& m, const Bytes& file, const std::string& log, std::vector<size_t> from = std::vector<size_t>(), bool whole = true) {
    struct P { uint64_t off; unsigned t; size_t k; }; std::vector<P> all; if (from.empty()) from.resize(m.tracks.size(), 0); for (unsigned i = 0; i < m.tracks.size(); ++i) for (size_t k = from[i]; k < m.tracks[i].s.size(); ++k) all.push_back({ m.tracks[i].s[k].off, i, k });
    std::sort(all.begin(), all.end(), [](const P& a, const P& b) { return a.off < b.off; }); std::vector<size_t> next = from; size_t got = 0; std::vector<uint64_t> bytes_checked;
    sample_stream_info si; while (r.next_file_chunks(si)) { PBT_CHECK(got < all.size(), "more samples than the file has: stream " << si.stream << " sample " << si.sample_number << ", " << log); const P& e = all[got]; 
        // after a seek the streams are picked up at different places of the file; in one pass the order is that of the file
        if (whole) PBT_CHECK(si.stream == e.t && si.sample_number == e.k, "sample " << got << " in file order is stream " << si.stream << " sample " << si.sample_number << " at " << si.offset << " expected stream " << e.t << " sample " << e.k << " at " << e.off << ", " << log);
        PBT_CHECK(si.stream < m.tracks.size(), "stream " << si.stream); const ref::Track& t = m.tracks[si.stream]; PBT_EQ((ull)si.sample_number, (ull)next[si.stream], "next sample of stream " << si.stream << ", " << log); size_t k = next[si.stream]++; const ref::Sample& x = t.s[k];
        PBT_EQ((ull)si.offset, (ull)x.off, "offset of stream " << si.stream << " sample " << k); PBT_EQ((ull)si.size, (ull)x.size, "size of stream " << si.stream << " sample " << k); PBT_EQ((ull)si.decoding_time, (ull)hns(x.dts, t.timescale), "decoding time of stream " << si.stream << " sample " << k); PBT_EQ((ull)si.composition_time, (ull)hns(x.dts + (uint64_t)x.cts, t.timescale), "composition time of stream " << si.stream << " sample " << k); PBT_EQ((bool)si.bIsSyncPoint, x.sync, "sync flag of stream " << si.stream << " sample " << k << ", " << log); if (k + 1 < t.s.size()) PBT_EQ((ull)si.duration, (ull)hns(t.s[k + 1].dts - x.dts, t.timescale), "duration of stream " << si.stream << " sample " << k);
        if (got % 7 == 0 || got + 1 == all.size()) { Bytes b((size_t)x.size, 0xcc); mp4.set_position(x.off); mp4.read_bytes(b.data(), b.size()); PBT_CHECK(!memcmp(b.data(), &file[(size_t)x.off], b.size()), "bytes read at the offset of stream " << si.stream << " sample " << k << " differ, " << log); }
        ++got; }
    PBT_EQ(got, all.size(), "samples in file order of " << log);
}
// last sample in the order of their times with a time that is not later; the tables are small enough to look at every one
static size_t floor_comp(const ref::Track& t, uint64_t tick) { size_t best = SIZE_MAX; uint64_t bc = 0; for (size_t k = 0; k < t.s.size(); ++k) { uint64_t c = t.s[k].dts + (uint64_t)t.s[k].cts; if (c <= tick && (best == SIZE_MAX || c >= bc)) { bc = c; best = k; } } return best; }
static bool distinct(const ref::Track& t) { std::vector<uint64_t> c; for (auto& x : t.s) c.push_back(x.dts + (uint64_t)x.cts); std::sort(c.begin(), c.end()); for (size_t i = 1; i < c.size(); ++i) if (c[i] == c[i - 1]) return false; return true; }
static size_t last_sync(const ref::Track& t, uint64_t tick) { size_t r = 0; for (size_t k = 0; k < t.s.size(); ++k) if (t.s[k].sync && t.s[k].dts <= tick) r = k; return r; }
// times are cut to 100 ns: the last tick whose time, cut, is not later
static uint64_t ticks(uint64_t t, uint64_t scale) { return (uint64_t)((((unsigned __int128)t + 1) * scale + 9999999) / 10000000) - 1; }
static void check_seek(pbt::Source& s, MP4Reader& r, CMP4& mp4, const ref::Movie& m, const Bytes& file, std::string log, unsigned& seeks) {
    for (unsigned i = 0; i < m.tracks.size(); ++i) { const ref::Track& t = m.tracks[i]; if (t.s.empty()) continue; bool ok = distinct(t); uint64_t minc = UINT64_MAX; for (auto& x : t.s) minc = std::min(minc, x.dts + (uint64_t)x.cts); 
        for (unsigned q = 0; q < 12; ++q) { ++seeks; size_t k = s.range(0, t.s.size() - 1); uint64_t c = t.s[k].dts + (uint64_t)t.s[k].cts, at = hns(c, t.timescale);
            if (ok) { PBT_EQ((ull)r.get_composition_sample_number(at, i), (ull)k, "track " << i << " sample presented at " << at << ", " << log);
                uint64_t any = hns(minc, t.timescale) + s.edgy(0, hns(t.s.back().dts + (uint64_t)t.s.back().cts - minc, t.timescale) + 20000000); uint64_t got = r.get_composition_sample_number(any, i); uint64_t tk = ticks(any, t.timescale); if (tk >= minc) { size_t f = floor_comp(t, tk); PBT_CHECK(got == f || got == f + 1, "track " << i << " sample presented at " << any << " (tick " << tk << ") is " << got << " expected " << f << " or the next, " << log); } }
            uint64_t d = hns(t.s[k].dts, t.timescale); if (s.chance(50)) d += s.edgy(0, 10000000); 
            if (t.has_stss) { size_t e = last_sync(t, ticks(d, t.timescale)); PBT_EQ((ull)r.get_IFrame_number(d, i), (ull)e, "track " << i << " key frame before " << d << ", " << log); size_t nx = e + 1; while (nx < t.s.size() && !t.s[nx].sync) ++nx; if (nx >= t.s.size()) nx = e; PBT_EQ((ull)r.get_next_IFrame_time(i), (ull)hns(t.s[nx].dts + (uint64_t)t.s[nx].cts, t.timescale), "track " << i << " time of the key frame after " << d << ", " << log); } } }
    // moving: the leading stream goes to its key frame, the others to the same time
    for (unsigned q = 0; q < 3; ++q) { unsigned lead = UINT32_MAX; bool given = s.chance(40); if (given) lead = (unsigned)s.range(0, m.tracks.size() - 1); unsigned ld = lead; if (!given) { for (unsigned i = 0; i < m.tracks.size() && ld == UINT32_MAX; ++i) if (m.tracks[i].handler == "vide") ld = i; if (ld == UINT32_MAX) ld = 0; }
        const ref::Track& L = m.tracks[ld]; if (L.s.empty()) continue; bool all_ok = true; for (auto& t : m.tracks) if (t.s.size() && !distinct(t)) all_ok = false; if (!all_ok && !L.has_stss) continue;
        auto offset = [&](unsigned i) { auto& e = m.tracks[i].edits; return hns(e.size() == 2 && e[0].media == -1 ? e[0].duration : 0, m.timescale); };
        uint64_t span = hns(L.s.back().dts, L.timescale), time = s.range(0, span + 1); if (s.chance(30)) time = hns(L.s[s.range(0, L.s.size() - 1)].dts, L.timescale); if (!L.has_stss) time += offset(ld); r.move(time, given ? lead : UINT32_MAX); ++seeks;
        // where every stream stands now
        std::vector<size_t> from(m.tracks.size(), SIZE_MAX); sample_stream_info si; std::vector<uint64_t> cnt(m.tracks.size(), 0); while (r.next_file_chunks(si)) { if (from[si.stream] == SIZE_MAX) from[si.stream] = (size_t)si.sample_number; PBT_EQ((ull)si.sample_number, (ull)(from[si.stream] + cnt[si.stream]), "samples of stream " << si.stream << " after a move to " << time << ", " << log); ++cnt[si.stream]; }
        for (unsigned i = 0; i < m.tracks.size(); ++i) { const ref::Track& t = m.tracks[i]; if (from[i] == SIZE_MAX) from[i] = t.s.size(); PBT_EQ((ull)(from[i] + cnt[i]), (ull)t.s.size(), "last sample of stream " << i << " after a move to " << time << ", " << log); }
        size_t e; if (L.has_stss) { e = last_sync(L, ticks(time, L.timescale)); PBT_EQ(from[ld], e, "leading stream " << ld << " after a move to " << time << ", " << log); } else { uint64_t tk = ticks(time - offset(ld), L.timescale); e = from[ld]; size_t f = floor_comp(L, tk); if (f != SIZE_MAX) PBT_CHECK(e == f || e == f + 1, "leading stream " << ld << " stands at " << e << " after a move to " << time << ", expected " << f << " or the next, " << log); }
        if (!all_ok || e >= L.s.size()) continue; uint64_t lead_time = hns(L.s[e].dts + (uint64_t)L.s[e].cts, L.timescale) + offset(ld), lead_dec = hns(L.s[e].dts, L.timescale);
        for (unsigned i = 0; i < m.tracks.size(); ++i) { if (i == ld || m.tracks[i].s.empty()) continue; const ref::Track& t = m.tracks[i];
            if (t.has_stss) { uint64_t tk = ticks(lead_dec, t.timescale); size_t f = 0; for (size_t k = 0; k < t.s.size(); ++k) if (t.s[k].dts <= tk) f = k; if (tk < t.s.back().dts) PBT_EQ(from[i], f, "stream " << i << " after a move to " << time << " (decoding " << lead_dec << "), " << log); }
            else { if (lead_time < offset(i)) { PBT_EQ(from[i], (size_t)0, "stream " << i << " that starts later, after a move to " << time << ", " << log); continue; } uint64_t tk = ticks(lead_time - offset(i), t.timescale); size_t f = floor_comp(t, tk); if (f == SIZE_MAX) continue; PBT_CHECK(from[i] == f || from[i] == f + 1, "stream " << i << " stands at " << from[i] << " after a move to " << time << " (presented " << lead_time << "), expected " << f << " or the next, " << log); } } }
}
enum { MEMORY, SYNC, ASYNC };
template <typename F> static void with_reader(int how, const std::string& path, const Bytes& file, unsigned page, F f) {
    if (how == MEMORY) { CMP4Memory mem; std::unique_ptr<uint8_t[]> copy(new uint8_t[file.size()]); memcpy(copy.get(), file.data(), file.size()); mem.Open(copy.get(), file.size()); { MP4Reader r; r.parse(mem); f(r, mem); } }
    else if (how == SYNC) { SYNCMP4File mp(page); mp.open(path.c_str()); { MP4Reader r; r.parse(mp); f(r, mp); } mp.close(); }
    else { mg::uv::loopthread lt; lt.Create(); lt->set_wait_time(1); lt->start(); { MP4File mp(lt, page); mp.open(path.c_str()); { MP4Reader r; r.parse(mp); f(r, mp); } mp.close(); } lt->end(); }
}
static int how_to_read(pbt::Source& s) { return (int)s.pick({ 6, 3, 1 }); }
static unsigned page_of(pbt::Source& s) { return (unsigned)(s.chance(50) ? 4096 : s.edgy(16, 5000)); }

PBT_PROP(mp4_read, 3, 0) {
    QuietStdout q; std::string path = scratch("r.mp4"); Gone gone{ path }; refw::Mov m = refw::gen_mov(s); int how = how_to_read(s); unsigned page = page_of(s); std::ostringstream o; o << (how == MEMORY ? "memory " : how == SYNC ? "file " : "async ") << page << " " << m.log; if (how) put_file(path, m.file); if (s.replaying() && getenv("VERIF_DUMP")) put_file(getenv("VERIF_DUMP"), m.file);
    try { uint64_t a; auto top = ref::parse(m.file.data(), m.file.size(), 0, "the file"); const ref::Box* moov = nullptr; for (auto& b : top) if (b.type == "moov") moov = &b; ref::Movie movie = ref::movie(*moov); PBT_EQ(movie.tracks.size(), m.t.size(), "harness: tracks"); for (size_t i = 0; i < m.t.size(); ++i) for (size_t k = 0; k < m.t[i].s.size(); ++k) PBT_CHECK(movie.tracks[i].s[k].dts == m.t[i].s[k].dec && movie.tracks[i].s[k].size == m.t[i].s[k].size && movie.tracks[i].s[k].sync == m.t[i].s[k].sync, "harness: the two references differ");
        with_reader(how, path, m.file, page, [&](MP4Reader& r, CMP4& mp4) { check_reader(s, r, mp4, movie, m.file, o.str()); check_order(s, r, mp4, movie, m.file, o.str());
            for (unsigned i = 0; i < m.t.size(); ++i) { auto& t = m.t[i]; if (t.s.size()) { size_t last = 0; uint64_t mc = 0; for (size_t k = 0; k < t.s.size(); ++k) if (t.s[k].dec + t.s[k].off_comp >= mc) { mc = t.s[k].dec + t.s[k].off_comp; last = k; } if (distinct(movie.tracks[i])) PBT_EQ((ull)r.get_end_time_plus_duration(i), (ull)hns(mc + t.s[last].delta, t.scale), "end of track " << i << ", " << o.str()); }
                if (!t.video) { const aac_info_mp4& a = r.get_audio_entry(0, i).get_aac_info(); PBT_EQ((uint32_t)a.object_type, t.object, "audio object type of track " << i); PBT_EQ((uint32_t)a.sample_rate, t.rate, "audio configuration rate of track " << i); PBT_EQ((uint32_t)a.channels, t.channels == 7 ? 8 : t.channels, "audio configuration channels of track " << i); } else { const CAVCCHeader& h = r.get_visual_entry(0, i).get_avcc_header(); PBT_EQ((uint32_t)h.get_sequence(0).profile_idc, t.sps.profile, "profile in the parameter set of track " << i); PBT_EQ((uint32_t)h.get_sequence(0).level_idc, t.sps.level, "level in the parameter set of track " << i); PBT_EQ((uint32_t)h.get_sequence(0).pic_width_in_mbs_minus1 + 1, t.sps.width_mbs, "width in the parameter set of track " << i); PBT_EQ((uint32_t)h.get_sequence(0).pic_height_in_map_units_minus1 + 1, t.sps.height_units, "height in the parameter set of track " << i); } } }); }
    catch (ref::Bad& b) { PBT_CHECK(false, "harness: not a valid file: " << b.what << " | " << o.str()); } catch (mgexceptionbase& e) { PBT_CHECK(false, "reading failed: " << e.what() << " | " << o.str()); }
    size_t n = 0; for (auto& t : m.t) n += t.s.size(); if (n > 3) s.nontrivial(); s.label(how == MEMORY ? "memory" : how == SYNC ? "file" : "asynchronous"); if (s.want_sample()) s.sample(o.str().substr(0, 300));
}
PBT_PROP(mp4_write_read, 2, 0) {
    QuietStdout q; std::string path = scratch("w.mp4"); Gone gone{ path }; std::ostringstream log; Plan p = gen_plan(s);
    try { { MP4Mux mux; write_mux(s, p, mux, path, log); } Bytes file = get_file(path); uint64_t a, b; ref::Movie movie = read_ref(file, a, b); int how = how_to_read(s); with_reader(how, path, file, page_of(s), [&](MP4Reader& r, CMP4& mp4) { check_reader(s, r, mp4, movie, file, log.str()); check_order(s, r, mp4, movie, file, log.str());
        for (unsigned i = 0; i < p.st.size(); ++i) for (size_t k = 0; k < p.st[i].in.size(); ++k) if (!p.st[i].autodec) { PBT_EQ((ull)r.get_sample_size(k, i), (ull)p.st[i].in[k].body.size(), "size of the sample written"); double d = ((double)r.get_composition_time(k, i) - (double)r.get_composition_time(0, i)) - ((double)p.st[i].in[k].comp - (double)p.st[i].in[0].comp); double lim = 4e7 / p.st[i].scale + p.st[i].in.size() + 8; PBT_CHECK(d <= lim && d >= -lim, "stream " << i << " sample " << k << " is read " << d << " hns from its time, " << log.str()); } }); }
    catch (ref::Bad& b) { PBT_CHECK(false, "not a valid file: " << b.what << " | " << log.str()); } catch (mgexceptionbase& e) { PBT_CHECK(false, "failed: " << e.what() << " | " << log.str()); }
    size_t n = 0; for (auto& t : p.st) n += t.in.size(); if (n > 3) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}
PBT_PROP(mp4_seek, 3, 0) {
    QuietStdout q; std::string path = scratch("s.mp4"); Gone gone{ path }; refw::Mov m = refw::gen_mov(s); int how = s.chance(90) ? MEMORY : SYNC; if (how) put_file(path, m.file); if (s.replaying() && getenv("VERIF_DUMP")) put_file(getenv("VERIF_DUMP"), m.file); unsigned seeks = 0;
    try { auto top = ref::parse(m.file.data(), m.file.size(), 0, "the file"); const ref::Box* moov = nullptr; for (auto& b : top) if (b.type == "moov") moov = &b; ref::Movie movie = ref::movie(*moov); with_reader(how, path, m.file, 4096, [&](MP4Reader& r, CMP4& mp4) { check_seek(s, r, mp4, movie, m.file, m.log, seeks); }); }
    catch (ref::Bad& b) { PBT_CHECK(false, "harness: not a valid file: " << b.what << " | " << m.log); } catch (mgexceptionbase& e) { PBT_CHECK(false, "failed: " << e.what() << " | " << m.log); }
    if (seeks > 3 && m.t[0].s.size() > 3) s.nontrivial(); if (s.want_sample()) s.sample(m.log.substr(0, 300));
}
