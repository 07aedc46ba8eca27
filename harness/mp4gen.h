// generated streams, writing them with the code under test, checking the file with the independent reader
#pragma once
#include <mgmedia.h>
#include <mg/media/mp4mux.h>
#include "common.h"
#include "mp4ref.h"
#include "h264ref.h"
#include <algorithm>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace ALX;
static struct Env { Env() { setenv("UV_USE_IO_URING", "0", 1); } } env_;
struct QuietOut { int keep = -1; QuietOut() { std::cout.setstate(std::ios_base::badbit); } };

static std::string scratch(const char* what) { const char* t = getenv("VERIF_TMP"); std::string d = std::string(t ? t : "/tmp/hb/t") + "/mp." + std::to_string(getpid()); mkdir(d.c_str(), 0755); return d + "/" + what; }
static Bytes get_file(const std::string& p) { Bytes d; FILE* f = fopen(p.c_str(), "rb"); PBT_CHECK(f, "no file " << p); fseeko(f, 0, SEEK_END); d.resize(ftello(f)); rewind(f); if (d.size() && fread(d.data(), 1, d.size(), f) != d.size()) d.clear(); fclose(f); return d; }
static void put_file(const std::string& p, const Bytes& d) { FILE* f = fopen(p.c_str(), "wb"); PBT_CHECK(f, "scratch file"); if (d.size()) fwrite(d.data(), 1, d.size(), f); fclose(f); }
struct Gone { std::string p; ~Gone() { if (getenv("VERIF_KEEP")) return; unlink(p.c_str()); unlink((p + ".body.tmp").c_str()); } };

// ---------------------------------------------------------------- streams to be written
static const uint32_t RATES[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
struct In { uint64_t comp, dec; Bytes body; bool I; };
struct Stream { bool video = true, autodec = false, lang_set = false, explicit_size = false; uint64_t scale = 1000; std::string lang = "und"; Sps sps; Bytes pps; uint32_t w = 0, h = 0; uint32_t object = 2, rate = 48000, channels = 2, bitrate = 0; std::vector<In> in; int id = -1; uint64_t step = 400000;
    uint64_t minc() const { uint64_t m = UINT64_MAX; for (auto& x : in) m = std::min(m, x.comp); return m; } uint64_t maxc() const { uint64_t m = 0; for (auto& x : in) m = std::max(m, x.comp); return m; }
    std::string text() const { std::ostringstream o; o << (video ? "video" : "audio") << " scale" << scale << (autodec ? " auto" : "") << " n" << in.size() << " ["; for (size_t i = 0; i < in.size() && i < 12; ++i) o << (in[i].I ? "I" : "") << in[i].dec << "+" << (int64_t)(in[i].comp - in[i].dec) << ":" << in[i].body.size() << " "; o << "]"; return o.str(); } };

struct Plan { std::vector<Stream> st; std::vector<std::pair<unsigned, unsigned>> order; bool ctts_offset = false, async = false; std::string log; };
static Bytes gen_body(pbt::Source& s, unsigned kind, size_t fixed) { size_t n = kind == 0 ? fixed : kind == 1 ? (size_t)s.small(1, 400) : (size_t)s.edgy(1, 12000); return s.blob(n); }
static Stream gen_stream(pbt::Source& s, bool video, uint64_t base, bool may_auto = true) {
    Stream t; t.video = video; static const uint64_t scales[] = { 1000, 90000, 10000000, 25, 48000, 44100, 12800, 600, 30000 };
    if (video) { t.sps = gen_sps(s); t.pps = gen_pps_nal(s); t.w = t.sps.width(); t.h = t.sps.height(); t.explicit_size = s.chance(30); if (t.explicit_size) { t.w = (uint32_t)s.range(1, 4096); t.h = (uint32_t)s.range(1, 2304); } t.scale = scales[s.pick({ 3, 3, 2, 1, 1, 1, 1, 1, 1 })]; static const uint64_t steps[] = { 400000, 333333, 333667, 200000, 416667, 166833, 1000000 }; t.step = steps[s.pick({ 4, 2, 2, 2, 1, 1, 1 })]; if (s.chance(15)) t.step = s.range(100000, 3000000); }
    else { t.object = (uint32_t)(s.chance(70) ? 2 : s.range(1, 4)); t.rate = RATES[s.range(0, 12)]; t.channels = (uint32_t)(s.chance(60) ? s.range(1, 2) : s.range(1, 6)); if (t.channels == 6 && s.chance(30)) t.channels = 8; t.bitrate = (uint32_t)s.edgy(1, 400000); t.scale = s.chance(50) ? t.rate : scales[s.pick({ 3, 3, 2, 1, 1, 1, 1, 1, 1 })]; t.step = 10240000000ULL / t.rate; }
    if (t.step * t.scale < 10000000 * 2) { if (t.scale < 1000) t.scale = 1000; }   // a step is at least one tick
    if (s.chance(30)) { t.lang_set = true; for (auto& c : t.lang) c = (char)('a' + s.range(0, 25)); }
    size_t n = (size_t)(1 + (s.chance(20) ? s.small(0, 3) : s.small(0, 60))); unsigned kind = (unsigned)s.pick({ 2, 6, 1 }); size_t fixed = (size_t)s.small(1, 300); if (kind == 2 && n > 15) n = 15; bool jitter = s.chance(30), holes = s.chance(15); t.autodec = may_auto && video && s.chance(30);
    uint64_t d = base + (s.chance(60) ? 0 : s.small(0, 3000000)); std::vector<uint64_t> dec; for (size_t i = 0; i < n; ++i) { dec.push_back(d); d += t.step; if (jitter) d += s.range(0, t.step / 2); if (holes && s.chance(10)) d += s.range(0, 20000000); }
    if (t.autodec) { // display times, reordered locally; the first one stays first
        std::vector<uint64_t> c = dec; for (size_t i = 1; i + 1 < n; ) { size_t m = std::min<size_t>(n - i, (size_t)s.range(1, 4)); for (size_t k = m; k-- > 1;) std::swap(c[i + k], c[i + s.range(0, k)]); i += m; } for (size_t i = 0; i < n; ++i) t.in.push_back({ c[i], c[i], Bytes(), false }); }
    else { bool reorder = video && s.chance(60); uint64_t delay = reorder ? s.range(0, 2) * t.step : 0; for (size_t i = 0; i < n; ++i) { uint64_t c = dec[i] + delay; if (reorder) c += s.range(0, 3) * (s.chance(80) ? t.step : t.step / 3); t.in.push_back({ c, dec[i], Bytes(), false }); } }
    unsigned gop = (unsigned)s.range(1, 12); for (size_t i = 0; i < n; ++i) { t.in[i].body = gen_body(s, kind, fixed); t.in[i].I = video ? i == 0 || i % gop == 0 || s.chance(4) : s.chance(50); }
    return t;
}
static Plan gen_plan(pbt::Source& s) {
    Plan p; unsigned kinds = (unsigned)s.pick({ 5, 2, 2, 1, 1 }); uint64_t base = s.chance(70) ? 0 : s.edgy(0, 36000000000ULL);
    static const char* mix[] = { "va", "v", "a", "vaa", "vv" }; for (const char* c = mix[kinds]; *c; ++c) p.st.push_back(gen_stream(s, *c == 'v', base));
    // the order in which the samples of the streams arrive
    std::vector<unsigned> at(p.st.size(), 0); unsigned mode = (unsigned)s.pick({ 4, 2, 1 }); for (;;) { int best = -1; std::vector<int> have; for (size_t i = 0; i < p.st.size(); ++i) if (at[i] < p.st[i].in.size()) have.push_back((int)i); if (have.empty()) break;
        if (mode == 0) { for (int i : have) if (best < 0 || p.st[i].in[at[i]].dec < p.st[best].in[at[best]].dec) best = i; if (s.chance(10)) best = have[s.range(0, have.size() - 1)]; } else if (mode == 1) best = have[s.range(0, have.size() - 1)]; else best = have[0]; p.order.push_back({ (unsigned)best, at[best]++ }); }
    return p;
}
static void write_mux(pbt::Source& s, Plan& p, MP4Mux& mux, const std::string& path, std::ostream& log) {
    p.ctts_offset = s.chance(40); mux.set_ctts_offset(p.ctts_offset); log << (p.ctts_offset ? " ctts-offset" : ""); if (s.chance(35)) { uint64_t d = s.edgy(0, 100000000); mux.set_max_distance(d); log << " distance" << d; } if (s.chance(30)) { bool b = s.chance(50); mux.set_use_composition_in_distance(b); log << " use-composition" << b; }
    bool late = s.chance(40); unsigned room = (unsigned)(s.chance(50) ? 3000000 : s.edgy(40, 5000)); log << " room" << room << ";"; if (!late) mux.start(path.c_str(), room);
    for (auto& t : p.st) { if (t.video) { t.id = t.explicit_size ? mux.add_visual_stream(t.sps.nal.data(), (unsigned)t.sps.nal.size(), t.pps.data(), (unsigned)t.pps.size(), t.scale == 1000 && s.chance(50) ? 0 : t.scale, t.w, t.h) : mux.add_visual_stream(t.sps.nal.data(), (unsigned)t.sps.nal.size(), t.pps.data(), (unsigned)t.pps.size(), t.scale == 1000 && s.chance(50) ? 0 : t.scale); if (t.autodec) mux.set_auto_decoding_time(t.id, true); }
        else t.id = mux.add_audio_stream(t.object, t.rate, t.channels, t.bitrate, t.scale); PBT_EQ(t.id, (int)(&t - &p.st[0]), "stream number"); if (t.lang_set) mux.set_stream_optional(t.id, t.lang.c_str(), 0, 0); log << " " << t.text(); }
    if (late) mux.start(path.c_str(), room);
    for (auto& o : p.order) { In& x = p.st[o.first].in[o.second]; std::unique_ptr<uint8_t[]> b(new uint8_t[x.body.size()]); memcpy(b.get(), x.body.data(), x.body.size()); mux.add_sample(p.st[o.first].id, b.get(), (unsigned)x.body.size(), x.I, x.comp, x.dec, p.st[o.first].step); }
    mux.end();
}
// descriptors of ISO/IEC 14496-1
struct Desc { uint8_t tag; Bytes body; };
static Desc desc(ref::Cur& c) { Desc d; d.tag = (uint8_t)c.u(1); uint32_t n = 0; for (int i = 0; i < 4; ++i) { uint8_t b = (uint8_t)c.u(1); n = n << 7 | (b & 127); if (!(b & 128)) break; } d.body = c.take(n); return d; }
static void check_esds(const Bytes& e, const Stream& t) {
    ref::Cur c(e.data(), e.size()); REF_NEED(c.u(4) == 0, "version of esds"); Desc es = desc(c); REF_NEED(es.tag == 3 && !c.left(), "ES descriptor"); ref::Cur d(es.body.data(), es.body.size()); d.u(2); REF_NEED((d.u(1) & 0xe0) == 0, "flags of the ES descriptor"); Desc dc = desc(d); REF_NEED(dc.tag == 4, "decoder config descriptor"); Desc sl = desc(d); REF_NEED(sl.tag == 6 && sl.body.size() == 1 && sl.body[0] == 2 && !d.left(), "SL descriptor");
    ref::Cur f(dc.body.data(), dc.body.size()); REF_NEED(f.u(1) == 0x40, "object type of the stream"); uint64_t ty = f.u(1); REF_NEED(ty >> 2 == 5, "stream type"); f.u(3); uint64_t mx = f.u(4), av = f.u(4); PBT_EQ(av, (uint64_t)t.bitrate, "average bit rate"); PBT_CHECK(mx >= av, "maximum bit rate " << mx << " below the average"); Desc si = desc(f); REF_NEED(si.tag == 5 && !f.left(), "decoder specific info");
    Bytes& a = si.body; REF_NEED(a.size() >= 2, "audio specific config of " << a.size() << " bytes"); unsigned fi = (a[0] & 7) << 1 | a[1] >> 7, ch = a[1] >> 3 & 15; PBT_EQ((unsigned)a[0] >> 3, t.object, "audio object type"); REF_NEED(fi < 13, "sampling frequency index"); PBT_EQ(RATES[fi], t.rate, "sampling frequency"); PBT_EQ(ch == 7 ? 8u : ch, t.channels, "channels"); if (t.object <= 4) PBT_EQ((unsigned)a[1] & 7, 0u, "general audio flags");
}
static void check_avcc(const Bytes& b, const Stream& t) {
    ref::Cur c(b.data(), b.size()); PBT_EQ(c.u(1), 1u, "version of avcC"); PBT_EQ(c.u(1), t.sps.profile, "profile of avcC"); PBT_EQ(c.u(1), t.sps.constraint << 4, "constraint flags of avcC"); PBT_EQ(c.u(1), t.sps.level, "level of avcC"); PBT_EQ(c.u(1), 0xffu, "length size of avcC"); PBT_EQ(c.u(1), 0xe1u, "number of sequence parameter sets"); uint64_t n = c.u(2); Bytes x = c.take((size_t)n); PBT_CHECK(x == t.sps.nal, "sequence parameter set " << hex(x) << " expected " << hex(t.sps.nal)); PBT_EQ(c.u(1), 1u, "number of picture parameter sets"); n = c.u(2); x = c.take((size_t)n); PBT_CHECK(x == t.pps, "picture parameter set " << hex(x) << " expected " << hex(t.pps)); PBT_EQ(c.left(), 0u, "bytes behind avcC");
}
static ref::Movie read_ref(const Bytes& f, uint64_t& mdat_at, uint64_t& mdat_size) { auto top = ref::parse(f.data(), f.size(), 0, "the file"); std::string names; for (auto& b : top) names += b.type + " "; REF_NEED(names == "ftyp moov mdat ", "boxes of the file: " << names); { ref::Cur c = top[0].cur(); REF_NEED(c.left() >= 8 && c.left() % 4 == 0, "ftyp"); } mdat_at = top[2].off + top[2].head; mdat_size = top[2].body_size; return ref::movie(top[1]); }
#define TOL(a, b, tol, what) do { ref::real va = (a), vb = (b), vt = (tol); PBT_CHECK(std::fabs((double)(va - vb)) <= (double)vt, what << ": " << (double)va << " s expected " << (double)vb << " s within " << (double)vt << " | " << log.str()); } while (0)

static void check_movie(pbt::Source& s, const Plan& p, const Bytes& file, std::ostringstream& log) {
    uint64_t ma, ms; ref::Movie m = read_ref(file, ma, ms); PBT_EQ(m.tracks.size(), p.st.size(), "tracks"); PBT_EQ(m.next_id, (uint32_t)p.st.size() + 1, "next track id");
    uint64_t total = 0; std::vector<std::pair<uint64_t, uint64_t>> used; ref::real ref_shift = 0, ref_tol = 0, min_span = 1e30L, min_tol = 0;
    for (size_t i = 0; i < p.st.size(); ++i) { const Stream& t = p.st[i]; const ref::Track& r = m.tracks[i]; std::ostringstream w; w << "track " << i << " "; std::string W = w.str();
        PBT_EQ(r.id, (uint32_t)i + 1, W << "id"); PBT_CHECK(r.flags & 1, W << "is not enabled"); PBT_CHECK(r.handler == (t.video ? "vide" : "soun"), W << "handler " << r.handler); PBT_CHECK(r.lang == t.lang, W << "language " << r.lang << " expected " << t.lang); PBT_EQ(r.timescale, (uint32_t)t.scale, W << "time scale"); PBT_CHECK(r.codec == (t.video ? "avc1" : "mp4a"), W << "codec " << r.codec);
        if (t.video) { check_avcc(r.avcc, t); PBT_EQ(r.entry_w, t.w, W << "width"); PBT_EQ(r.entry_h, t.h, W << "height"); PBT_EQ(r.width, t.w << 16, W << "width of the header"); PBT_EQ(r.height, t.h << 16, W << "height of the header"); PBT_EQ((uint32_t)r.volume, 0u, W << "volume"); } else { check_esds(r.esds, t); PBT_EQ(r.channels, t.channels, W << "channels"); PBT_EQ(r.rate >> 16, t.rate & 0xffff, W << "sample rate"); PBT_EQ((uint32_t)r.volume, 0x100u, W << "volume"); }
        PBT_EQ(r.s.size(), t.in.size(), W << "samples, " << log.str());
        ref::real tick = 1.0L / t.scale, slack = 4 * tick + (t.in.size() + 8) * 1e-7L, dtol = 2.5L * tick + (t.in.size() + 4) * 1e-7L;
        for (size_t k = 0; k < t.in.size(); ++k) { const ref::Sample& x = r.s[k]; const In& in = t.in[k];
            PBT_EQ(x.size, (uint64_t)in.body.size(), W << "size of sample " << k << ", " << log.str()); PBT_CHECK(x.off >= ma && x.off + x.size <= ma + ms, W << "sample " << k << " at " << x.off << " of " << x.size << " bytes lies outside of the data " << ma << "+" << ms << " | " << log.str()); PBT_CHECK(!memcmp(&file[(size_t)x.off], in.body.data(), in.body.size()), W << "bytes of sample " << k << " at " << x.off << " differ | " << log.str());
            total += x.size; used.push_back({ x.off, x.size }); PBT_EQ(x.desc, 1u, W << "sample description"); PBT_EQ(x.sync, t.video ? in.I : true, W << "sync flag of sample " << k << " | " << log.str());
            if (!t.autodec) TOL((ref::real)x.dts / t.scale, (in.dec - t.in[0].dec) * 1e-7L, dtol, W << "decoding time of sample " << k); if (k) PBT_CHECK(x.dts >= r.s[k - 1].dts, W << "decoding times go back at sample " << k << " | " << log.str()); PBT_CHECK(x.cts >= 0, W << "negative composition offset"); }
        // composition of the samples against each other, and of the streams against each other
        ref::real shift = r.present(0, m.timescale) - t.in[0].comp * 1e-7L; for (size_t k = 1; k < t.in.size(); ++k) TOL(r.present(k, m.timescale) - r.present(0, m.timescale), (ref::real)((int64_t)(t.in[k].comp - t.in[0].comp)) * 1e-7L, slack, W << "composition time of sample " << k << " relative to the first");
        PBT_CHECK(r.present(0, m.timescale) >= -(double)slack, W << "starts before zero"); ref::real stol = slack + 1.5L / m.timescale; if (i) TOL(shift, ref_shift, stol + ref_tol, W << "offset to track 0"); else ref_shift = shift, ref_tol = stol;
        // durations: from the first to the last sample, give or take reordering and one step
        uint64_t lo = t.minc(), hi = t.maxc(); uint64_t slop = 0; std::vector<uint64_t> cs; for (auto& x : t.in) cs.push_back(x.comp); std::sort(cs.begin(), cs.end()); uint64_t gap = 0; for (size_t k = 1; k < cs.size(); ++k) gap = std::max(gap, cs[k] - cs[k - 1]); ref::real span = (hi - lo) * 1e-7L, sp = (slop + gap) * 1e-7L + 2 * tick;
        TOL((ref::real)r.md_duration / r.timescale, span, sp, W << "duration of the media"); TOL((ref::real)r.tk_duration / m.timescale, (ref::real)r.md_duration / r.timescale + (r.edits.size() && r.edits[0].media < 0 ? (ref::real)r.edits[0].duration / m.timescale : 0), 3.0L / m.timescale + tick, W << "duration of the track"); if (span < min_span) min_span = span; min_tol = std::max(min_tol, sp + 2.0L / m.timescale);
        if (r.edits.size()) s.label("edit-list"); if (r.has_ctts) s.label("composition-offsets"); if (r.chunks > 1) s.label("several-chunks"); if (r.stsz_size) s.label("one-size"); }
    TOL((ref::real)m.duration / m.timescale, min_span, min_tol, "duration of the movie");
    PBT_EQ(total, ms, "bytes of all samples and size of the data, " << log.str()); std::sort(used.begin(), used.end()); uint64_t at = ma; for (auto& u : used) { PBT_EQ(u.first, at, "samples overlap or leave a hole"); at += u.second; }
}
