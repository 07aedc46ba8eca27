// fragmented MP4: writing fragments and initialisation segments, reading fragments (P04, P05)
#include "stdafx.h"
#include "mp4gen.h"
#include <mg/media/mp4parse.h>
#include <mg/media/mp4fragmented.h>
#include <mg/media/MOOFReader.h>
#include "mp4refw.h"

#include "fragref.h"
static std::string cutlog(const std::vector<size_t>& c) { std::ostringstream o; for (size_t x : c) o << x << " "; return o.str(); }
static uint64_t apart(uint64_t a, uint64_t b) { return a > b ? a - b : b - a; }
struct Part { size_t a, b; uint64_t start, end, base; };
PBT_PROP(frag_write, 3, 0) {
    QuietStdout q; refw::Mov m; m.scale = s.chance(60) ? 1000 : (uint32_t)s.edgy(1, 10000000); static const char* mix[] = { "va", "v", "a", "av", "vaa" }; const char* kinds = mix[s.pick({ 4, 4, 2, 1, 1 })]; std::vector<std::vector<size_t>> gops; for (const char* c = kinds; *c; ++c) { m.t.push_back(refw::gen_trk(s, *c == 'v', s.chance(5))); refw::Trk& t = m.t.back(); std::vector<size_t> g; if (t.video) { make_gops(s, t, g); } else { t.stss = false; t.ctts = false; for (size_t i = 0; i < t.s.size(); ++i) { t.s[i].sync = true; t.s[i].off_comp = 0; if (!t.s[i].delta) t.s[i].delta = 1; g.push_back(i); } uint64_t d = 0; for (auto& x : t.s) { x.dec = d; d += x.delta; } } if (t.elst) t.delay = s.small(0, 5 * m.scale); gops.push_back(g); }
    refw::build(s, m); std::ostringstream L; L << m.log << " | "; if (s.replaying() && getenv("VERIF_DUMP")) put_file(getenv("VERIF_DUMP"), m.file); size_t made = 0, cross = 0;
    try { auto top = ref::parse(m.file.data(), m.file.size(), 0, "the file"); const ref::Box* moov = nullptr; for (auto& b : top) if (b.type == "moov") moov = &b; ref::Movie movie = ref::movie(*moov); Bytes copy = m.file; CMP4Memory in; in.Open(copy.data(), copy.size()); MP4Reader reader; reader.parse(in); CMP4Memory in2; in2.Open(copy.data(), copy.size()); MP4Reader reader2; reader2.parse(in2);
        for (unsigned i = 0; i < m.t.size(); ++i) { const ref::Track& t = movie.tracks[i]; size_t n = t.s.size(); uint64_t off = t.edits.size() == 2 ? hns(t.edits[0].duration, m.scale) : 0; auto pres = [&](size_t k) { return hns(t.s[k].dts + (uint64_t)t.s[k].cts, t.timescale) + off; }; static const uint64_t tss[] = { 10000000, 90000, 1000, 48000 }; unsigned tk = (unsigned)s.pick({ 5, 3, 1, 1, 2, 2 }); uint64_t ts = tk < 4 ? tss[tk] : tk == 4 ? t.timescale : s.edgy(1, 10000000); bool video = m.t[i].video, lone = t.has_ctts; for (auto& x : t.s) if (x.cts != t.s[0].cts) lone = false; bool cto = t.has_ctts && !lone;
            // ranges that start with a group and together cover the track
            std::vector<size_t> cut; unsigned often = (unsigned)s.pick({ 2, 2, 1 }); for (size_t g : gops[i]) if (!g || s.chance(often == 0 ? 100 : often == 1 ? 40 : 10)) cut.push_back(g); uint64_t shift = s.chance(50) ? 0 : s.edgy(0, 1ull << 45); std::vector<Part> parts; for (size_t c = 0; c < cut.size(); ++c) { Part p; p.a = cut[c]; p.b = c + 1 < cut.size() ? cut[c + 1] : n; p.start = pres(p.a); p.end = p.b < n ? pres(p.b) : 1ull << 62; p.base = s.chance(30) ? UINT64_MAX : p.start + shift; parts.push_back(p); } L << "track " << i << " ts " << ts << " cuts " << cutlog(cut);
            std::vector<Frag> got(parts.size()); for (size_t r = 0; r < parts.size(); ++r) { size_t c = s.chance(75) ? r : (size_t)s.range(0, parts.size() - 1); Part p = parts[c]; int seq = (int)s.edgy(0, 0x7fffffff), id = (int)s.edgy(1, 0x7fffffff); bool two = s.chance(20) && c + 1 < parts.size(); Part p2; size_t extra = 0; if (two) { size_t o = (size_t)s.range(0, parts.size() - 1); p2 = parts[o]; extra = p2.b - p2.a; ++cross; }
                CMP4WriteMemory out; out.open(1024); std::ostringstream wo; wo << "track " << i << " samples " << p.a << ".." << p.b; if (two) wo << " and " << p2.a << ".." << p2.b; wo << " times " << p.start << ".." << p.end << " base " << p.base << " scale " << ts << ","; std::string W = wo.str(); unsigned form = (unsigned)s.pick({ 4, 1 });
                if (two && form == 0) CMP4Fragment::produce_m4f_chunk_cross(out, reader, in, reader2, in2, (int)i, id, p.start, p.end, p2.start, p2.end, seq, video, p.base, NULL, NULL, 0, ts); else if (two) CMP4Fragment::produce_m4f_chunk_cross(out, in, in2, (int)i, id, p.start, p.end, p2.start, p2.end, seq, video, p.base, NULL, NULL, 0, ts);
                else if (form == 0) CMP4Fragment::produce_m4f_chunk(out, reader, in, (int)i, id, p.start, p.end, seq, video, p.base, NULL, NULL, 0, ts); else CMP4Fragment::produce_m4f_chunk(out, in, (int)i, id, p.start, p.end, seq, video, p.base, NULL, NULL, 0, ts);
                out.flush(); Bytes b(out.get_buffer(), out.get_buffer() + out.get_size()); Sidx x; Frag f = one_fragment(b, x); ++made; PBT_EQ(f.seq, (uint32_t)seq, W << " sequence number"); PBT_EQ(f.track, (uint32_t)id, W << " track"); PBT_EQ(f.s.size(), p.b - p.a + extra, W << " samples, " << L.str()); size_t at = 0; check_samples(s, f, 0, t, p.a, p.b, ts, m.file, at, W, video && cto); if (two) check_samples(s, f, p.b - p.a, t, p2.a, p2.b, ts, m.file, at, W, video && cto);
                PBT_CHECK(f.has_tfdt, W << " no decoding time"); long double want = (long double)(p.base == UINT64_MAX ? p.start : p.base) - (cto ? (long double)t.s[p.a].cts * 10000000 / t.timescale : 0); want = want * ts / 10000000; PBT_CHECK(std::abs((double)((long double)f.tfdt - want)) <= 2.1 + (double)want * 1e-15, W << " decoding time " << f.tfdt << " expected " << (double)want); if (video) { PBT_CHECK(f.has_first && !(f.first_flags & 0x10000) && (f.first_flags >> 24 & 3) == 2, W << " flags of the first sample " << f.first_flags); }
                // the index of the fragment
                { uint64_t total = 0; for (auto& g : f.s) total += g.dur; PBT_EQ(x.id, (uint32_t)id, W << " track of the index"); PBT_EQ((ull)x.scale, (ull)ts, W << " time scale of the index"); PBT_EQ((ull)x.first, 0ull, W << " offset of the index"); PBT_EQ((ull)(x.end + x.size), (ull)b.size(), W << " end of the bytes the index refers to"); PBT_EQ((ull)x.ept, (ull)(f.tfdt + f.s[0].cto), W << " first presentation time of the index"); if (total <= UINT32_MAX) PBT_EQ((ull)x.duration, (ull)total, W << " duration of the index"); PBT_CHECK(x.sap && x.sap_type == 1, W << " access point of the index"); }
                // and read back
                { CMP4Memory fm; fm.Open(b.data(), b.size()); MOOFReader mr; mr.parse(fm, false); PBT_EQ((ull)mr.get_trun_sample_count(), (ull)f.s.size(), W << " samples read"); PBT_EQ((ull)mr.TrackFragmentBaseMediaDecode(), (ull)f.tfdt, W << " decoding time read"); PBT_EQ((ull)mr.get_base_offset(), (ull)(b.size() - f.data.size()), W << " data read"); for (size_t k = 0; k < f.s.size(); ++k) { PBT_EQ((ull)mr.get_sample_size((int)k), (ull)f.s[k].size, W << " size read of sample " << k); PBT_EQ((ull)mr.get_sample_duration((int)k), (ull)f.s[k].dur, W << " duration read of sample " << k); PBT_EQ((ull)mr.get_sample_composition_time_offset((int)k), (ull)f.s[k].cto, W << " offset read of sample " << k); } } } } }
    catch (ref::Bad& b) { PBT_CHECK(false, "not a valid fragment: " << b.what << " | " << L.str()); } catch (mgexceptionbase& e) { PBT_CHECK(false, "failed: " << e.what() << " | " << L.str()); }
    if (made > 3) s.nontrivial(); if (cross) s.label("joined"); if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
// initialisation segment
PBT_PROP(frag_init, 1, 0) {
    QuietStdout q; bool video = s.chance(60); std::ostringstream o; Bytes priv; Sps sps; Bytes pps; uint32_t object = 0, rate = 0, channels = 0, bitrate = (uint32_t)s.edgy(0, 0xffffffffu); uint64_t duration = s.chance(20) ? 0 : s.edgy(0, 1ull << 48); static const uint64_t tss[] = { 10000000, 90000, 1000, 48000 }; unsigned tk = (unsigned)s.pick({ 4, 3, 1, 1, 2 }); uint64_t ts = tk < 4 ? tss[tk] : s.edgy(1, 10000000); int id = (int)s.edgy(1, 0x7ffffffe);
    if (video) { sps = gen_sps(s); pps = gen_pps_nal(s); refw::W w; w.u(2, sps.nal.size()); w.raw(sps.nal); w.u(2, pps.size()); w.raw(pps); priv = w.b; } else { object = (uint32_t)s.range(1, 4); unsigned ri = (unsigned)s.range(0, 12); rate = refw::RATE[ri]; channels = (uint32_t)s.range(1, 7); BitW b; b.u(5, object); b.u(4, ri); b.u(4, channels); b.u(3, 0); priv = b.b; }
    o << (video ? "video " : "audio ") << hex(priv) << " track " << id << " duration " << duration << " scale " << ts << " bit rate " << bitrate; std::string W = o.str();
    try { Bytes p = priv; CMP4WriteMemory out; out.open(1024); int r = CMP4Fragment::produce_m4f_initialization(out, id, video ? STREAM_TYPE_VIDEO_H264 : STREAM_TYPE_AUDIO_AAC, p.data(), (unsigned)p.size(), bitrate, duration, ts); PBT_EQ(r, 0, W << " result"); out.flush(); Bytes b(out.get_buffer(), out.get_buffer() + out.get_size()); auto top = ref::parse(b.data(), b.size(), 0, "the segment"); std::string types; for (auto& x : top) types += x.type + " "; PBT_CHECK(types == "ftyp moov ", W << " boxes " << types); { ref::Cur c = top[0].cur(); c.u(8); bool dash = false; while (c.left()) { Bytes n = c.take(4); dash |= std::string(n.begin(), n.end()) == "dash" || n[0] == 'i'; } PBT_CHECK(dash, W << " brands"); }
        ref::Movie m = ref::movie(top[1]); PBT_EQ((ull)m.timescale, (ull)ts, W << " movie time scale"); PBT_EQ(m.tracks.size(), (size_t)1, W << " tracks"); const ref::Track& t = m.tracks[0]; PBT_EQ(t.id, (uint32_t)id, W << " track id"); PBT_EQ((ull)t.timescale, (ull)ts, W << " track time scale"); PBT_EQ(t.s.size(), (size_t)0, W << " samples"); PBT_CHECK(t.handler == (video ? "vide" : "soun"), W << " handler " << t.handler); PBT_CHECK(m.next_id > (uint32_t)id, W << " next track id " << m.next_id);
        if (video) { PBT_CHECK(t.codec == "avc1", W << " codec " << t.codec); refw::W w; w.u(2, sps.nal.size()); w.raw(sps.nal); w.u(1, 1); w.u(2, pps.size()); w.raw(pps); PBT_CHECK(t.avcc.size() >= 6 + w.b.size() && std::equal(w.b.begin(), w.b.end(), t.avcc.begin() + 6), W << " configuration " << hex(t.avcc, 200)); PBT_EQ((uint32_t)t.avcc[1], sps.profile, W << " profile"); PBT_EQ((uint32_t)t.avcc[3], sps.level, W << " level"); PBT_EQ((uint32_t)(t.avcc[4] & 3), 3u, W << " length size"); PBT_EQ(t.entry_w, sps.width() & 0xffff, W << " width"); PBT_EQ(t.entry_h, sps.height() & 0xffff, W << " height"); }
        else { PBT_CHECK(t.codec == "mp4a", W << " codec " << t.codec); PBT_CHECK(std::search(t.esds.begin(), t.esds.end(), priv.begin(), priv.end()) != t.esds.end(), W << " audio configuration " << hex(t.esds)); if (rate < 65536) PBT_EQ(t.rate >> 16, rate, W << " rate"); PBT_EQ(t.channels, channels == 7 ? 8 : channels, W << " channels"); }
        const ref::Box& mvex = top[1].need("mvex"); uint8_t v; uint32_t f; { ref::Cur c = mvex.need("mehd").cur(); ref::full(c, v, f); uint64_t d = c.u(v ? 8 : 4); PBT_CHECK(!c.left(), "mehd has bytes more"); double want = (double)duration * ts / 1e7; PBT_CHECK(std::abs((double)d - want) <= 1 + want * 1e-12, W << " duration of the fragments " << d << " expected " << want); } { PBT_EQ(mvex.count("trex"), (size_t)1, W << " trex"); ref::Cur c = mvex.need("trex").cur(); ref::full(c, v, f); PBT_EQ((uint32_t)c.u(4), (uint32_t)id, W << " track of the defaults"); PBT_EQ((uint32_t)c.u(4), 1u, W << " sample description of the defaults"); PBT_EQ((ull)c.u(8), 0ull, W << " default duration and size"); PBT_EQ((ull)c.u(4), 0ull, W << " default flags"); PBT_CHECK(!c.left(), "trex has bytes more"); } }
    catch (ref::Bad& b) { PBT_CHECK(false, "not a valid segment: " << b.what << " | " << W); } catch (mgexceptionbase& e) { PBT_CHECK(false, "failed: " << e.what() << " | " << W); }
    s.nontrivial(); if (s.want_sample()) s.sample(W.substr(0, 300));
}
// fragments of any writer are read
PBT_PROP(frag_read, 2, 0) {
    QuietStdout q; refw::W w; size_t n = s.chance(30) ? 1 : (size_t)s.range(1, 5); struct E { Frag f; uint64_t moof, mdat, base; unsigned tv; bool plain; bool tfxd = false; int64_t tt = 0; std::vector<std::pair<int64_t, int64_t>> tfrf; bool off; }; std::vector<E> es; std::ostringstream o; bool pre = false, post = false; static const uint8_t TFXD[16] = { 0x6D,0x1D,0x9B,0x05,0x42,0xD5,0x44,0xE6,0x80,0xE2,0x14,0x1D,0xAF,0xF7,0x57,0xB2 }, TFRF[16] = { 0xD4,0x80,0x7E,0xF2,0xCA,0x39,0x46,0x95,0x8E,0x54,0x26,0xCB,0x9E,0x46,0xA7,0x9F };
    for (size_t i = 0; i < n; ++i) { E e; if (s.chance(i ? 20 : 15)) { size_t a = w.open("styp"); w.str("msdh"); w.u(4, 0); w.str("dash"); w.close(a); pre |= !i; o << "styp "; } if (s.chance(15)) { refw::junk(s, w); pre |= !i; o << "junk "; } if (s.chance(10)) { size_t a = w.open("sidx", 0, 0); w.raw(s.blob(28)); w.close(a); pre |= !i; o << "sidx "; }
        e.moof = w.b.size(); size_t mf = w.open("moof"), a = w.open("mfhd", 0, 0); e.f.seq = (uint32_t)s.edgy(0, UINT32_MAX); w.u(4, e.f.seq); w.close(a); size_t tf = w.open("traf"); uint32_t hf = 0, dd = 0, ds = 0; if (s.chance(20)) hf |= 1; if (s.chance(20)) hf |= 2; if (s.chance(40)) hf |= 8; if (s.chance(40)) hf |= 0x10; if (s.chance(40)) hf |= 0x20; if (s.chance(40)) hf |= 0x20000; a = w.open("tfhd", 0, hf); w.u(4, s.range(1, 9)); uint64_t rel = e.moof; if ((hf & 1) && s.chance(40)) rel = s.range(0, e.moof); if (hf & 1) w.u(8, rel); if (hf & 2) w.u(4, 1); if (hf & 8) w.u(4, dd = (uint32_t)s.edgy(0, 0x7fffffff)); if (hf & 0x10) w.u(4, ds = (uint32_t)s.small(0, 200)); if (hf & 0x20) w.u(4, s.range(0, UINT32_MAX)); w.close(a);
        e.f.has_tfdt = s.chance(75); if (e.f.has_tfdt) { unsigned v = s.chance(60); e.f.tfdt = v ? s.edgy(0, 1ull << 62) : s.edgy(0, UINT32_MAX); a = w.open("tfdt", v, 0); w.u(v ? 8 : 4, e.f.tfdt); w.close(a); }
        uint32_t rf = 1; e.off = s.chance(85); if (!e.off) rf = 0; if (s.chance(40)) rf |= 4; if (!(hf & 8) || s.chance(50)) rf |= 0x100; if (!(hf & 0x10) || s.chance(50)) rf |= 0x200; if (s.chance(30)) rf |= 0x400; if (s.chance(60)) rf |= 0x800; unsigned v = s.chance(50); e.tv = v; size_t k = (size_t)s.small(s.chance(90) ? 1 : 0, 40); size_t run = w.open("trun", v, rf), at = 0; w.u(4, k); if (rf & 1) { at = w.b.size(); w.u(4, 0); } if (rf & 4) w.u(4, s.range(0, UINT32_MAX)); uint64_t bytes = 0; e.f.has_cto = rf & 0x800;
        for (size_t j = 0; j < k; ++j) { FSmp x; x.dur = rf & 0x100 ? s.edgy(0, 0x7fffffff) : dd; x.size = rf & 0x200 ? s.small(0, 300) : ds; bytes += x.size; uint32_t c = 0; if (rf & 0x800) { c = (uint32_t)s.edgy(0, UINT32_MAX); x.cto = v ? (int64_t)(int32_t)c : (int64_t)c; } if (rf & 0x100) w.u(4, x.dur); if (rf & 0x200) w.u(4, x.size); if (rf & 0x400) w.u(4, s.range(0, UINT32_MAX)); if (rf & 0x800) w.u(4, c); e.f.s.push_back(x); } w.close(run);
        auto uuid = [&](const uint8_t* id, const refw::W& body) { size_t u = w.open("uuid"); w.raw(Bytes(id, id + 16)); w.raw(body.b); w.close(u); };
        if (s.chance(25)) { refw::W x; unsigned y = s.chance(60); e.tfxd = true; e.tt = (int64_t)(y ? s.edgy(0, 1ull << 62) : s.edgy(0, UINT32_MAX)); x.u(1, y); x.u(3, 0); x.u(y ? 8 : 4, e.tt); x.u(y ? 8 : 4, s.edgy(0, 100000000)); uuid(TFXD, x); o << "tfxd" << y << " "; }
        if (s.chance(25)) { refw::W x; unsigned y = s.chance(60); size_t c = (size_t)s.range(0, 3); x.u(1, y); x.u(3, 0); x.u(1, c); while (c--) { uint64_t t = y ? s.edgy(0, 1ull << 62) : s.edgy(0, UINT32_MAX), d = s.edgy(0, 100000000); e.tfrf.push_back({ (int64_t)t, (int64_t)d }); x.u(y ? 8 : 4, t); x.u(y ? 8 : 4, d); } uuid(TFRF, x); o << "tfrf" << y << " "; }
        if (s.chance(15)) { refw::W x; x.b = s.blob((size_t)s.small(0, 60)); Bytes id = s.blob(16); id[0] = 1; uuid(id.data(), x); o << "uuid "; } if (s.chance(15)) { a = w.open("sdtp", 0, 0); w.raw(s.blob(k)); w.close(a); } if (s.chance(10)) refw::junk(s, w); w.close(tf); w.close(mf);
        if (s.chance(10)) refw::junk(s, w); bool big = s.chance(10); size_t lead = e.off && s.chance(15) ? (size_t)s.small(1, 20) : 0; if (big) { w.u(4, 1); w.str("mdat"); w.u(8, 16 + lead + bytes); } else { w.u(4, 8 + lead + bytes); w.str("mdat"); } e.mdat = w.b.size(); e.base = e.mdat + lead; w.raw(s.blob((size_t)(lead + bytes))); if (at) w.set(at, e.base - rel); if (s.chance(10)) { refw::junk(s, w); post = true; } o << "moof at " << e.moof << " tfhd " << hf << " trun " << rf << " v" << v << " n" << k << (big ? " mdat64 " : " mdat ") << e.mdat << "; "; es.push_back(e); }
    std::string L = o.str(); if (s.replaying() && getenv("VERIF_DUMP")) put_file(getenv("VERIF_DUMP"), w.b); bool strict = n == 1 && !pre && s.chance(60); bool same = s.chance(60); unsigned page = (unsigned)s.edgy(16, 5000); bool file = s.chance(30); std::string path = scratch("f.m4s"); Gone gone{ path }; if (file) put_file(path, w.b); Bytes copy = w.b; CMP4Memory mem; mem.Open(copy.data(), copy.size()); SYNCMP4File sf(page); if (file) sf.open(path.c_str()); CMP4& mp4 = file ? (CMP4&)sf : (CMP4&)mem; size_t read = 0;
    try { std::unique_ptr<MOOFReader> r(new MOOFReader); for (size_t i = 0; i < n; ++i) { if (!same && i) r.reset(new MOOFReader); const E& e = es[i]; r->parse(mp4, strict); std::ostringstream wo; wo << "fragment " << i << " of " << L; std::string W = wo.str(); ++read; PBT_EQ((ull)r->get_mdat_position(), (ull)e.mdat, W << ", position of the data"); PBT_EQ((ull)r->get_base_offset(), (ull)e.base, W << ", first sample"); PBT_EQ((ull)r->get_base_offset(true), (ull)e.mdat, W << ", position without the offset"); PBT_EQ((ull)r->get_trun_sample_count(), (ull)e.f.s.size(), W << ", samples"); PBT_EQ(r->has_TrackFragmentBaseMediaDecodeTimeBox(), e.f.has_tfdt, W << ", has a decoding time"); PBT_EQ((ull)r->TrackFragmentBaseMediaDecode(), e.f.has_tfdt ? (ull)e.f.tfdt : (ull)UINT64_MAX, W << ", decoding time");
            for (size_t k = 0; k < e.f.s.size(); ++k) { const FSmp& x = e.f.s[k]; PBT_EQ((ull)r->get_sample_size((int)k), (ull)x.size, W << ", size of sample " << k); PBT_EQ((ull)r->get_sample_duration((int)k), (ull)x.dur, W << ", duration of sample " << k); PBT_EQ((long long)r->get_sample_composition_time_offset((int)k), (long long)x.cto, W << ", offset of sample " << k); PBT_EQ((long long)r->get_sample_composition_time_offset((int)k, true), (long long)(int32_t)(uint32_t)x.cto, W << ", signed offset of sample " << k); }
            PBT_EQ(r->has_tfxd(), e.tfxd, W << ", has its time"); if (e.tfxd) PBT_EQ((long long)r->get_tfxd_time(), (long long)e.tt, W << ", time"); PBT_EQ(r->get_tfrf_size(), (int)e.tfrf.size(), W << ", following fragments"); PBT_EQ(r->has_tfrf(), !e.tfrf.empty(), W << ", has following fragments"); for (size_t k = 0; k < e.tfrf.size(); ++k) { PBT_EQ((long long)r->get_tfrf_time((int)k), (long long)e.tfrf[k].first, W << ", time of following fragment " << k); PBT_EQ((long long)r->get_tfrf_duration((int)k), (long long)e.tfrf[k].second, W << ", duration of following fragment " << k); } }
        if (!strict) { r->parse(mp4, false); PBT_EQ((ull)r->get_mdat_position(), 0ull, "position of data after the last fragment of " << L); } }
    catch (mgexceptionbase& x) { PBT_CHECK(false, "failed: " << x.what() << " in fragment " << read << " of " << L); }
    if (n > 1) s.nontrivial(); else if (es[0].f.s.size() > 2) s.nontrivial(); if (strict) s.label("strict"); if (file) s.label("file"); if (s.want_sample()) s.sample(L.substr(0, 400));
}
