// running the command line program on generated movies; independent readers of its output
#pragma once
#include "fragref.h"
#include <dirent.h>
#include <set>
#include <sys/stat.h>

int mg_cli_main(int argc, char* argv[]);

// wide output as the C library has it in the C locale: other characters are an error
struct WideOut : std::wstreambuf { std::string t; int_type overflow(int_type c) override { if (c == traits_type::eof() || (unsigned long)c > 127) return traits_type::eof(); t += (char)c; return c; } std::streamsize xsputn(const wchar_t* p, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) if (overflow((int_type)p[i]) == traits_type::eof()) return i; return n; } };
// the program in this process: output kept, scratch directory of its own
struct CliRun { int rc = -1; std::string out; };
inline CliRun cli(const std::vector<std::string>& args) {
    std::ostringstream o; WideOut w; auto *a = std::cout.rdbuf(), *b = std::cerr.rdbuf(); auto *c = std::wcout.rdbuf(), *d = std::wcerr.rdbuf(); std::cout.clear(); std::wcout.clear(); std::cout.rdbuf(o.rdbuf()); std::cerr.rdbuf(o.rdbuf()); std::wcerr.clear(); std::wcout.rdbuf(&w); std::wcerr.rdbuf(&w);
    std::vector<std::string> copy; copy.push_back("mg"); for (auto& x : args) copy.push_back(x); std::vector<char*> v; for (auto& x : copy) v.push_back(&x[0]); v.push_back(nullptr); CliRun r; struct Back { std::streambuf *a, *b; std::wstreambuf *c, *d; ~Back() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::wcout.rdbuf(c); std::wcerr.rdbuf(d); } } back{ a, b, c, d };
    r.rc = mg_cli_main((int)copy.size(), v.data()); r.out = o.str() + w.t; if (getenv("VERIF_SHOW")) fprintf(stderr, "%s\n", r.out.c_str()); return r;
}
struct Dir { std::string p; Dir(const std::string& q) : p(q) { clear(); rmdir(p.c_str()); mkdir(p.c_str(), 0755); } std::set<std::string> list() const { std::set<std::string> r; if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(d); } return r; } void clear() { for (auto& n : list()) unlink((p + "/" + n).c_str()); } ~Dir() { if (getenv("VERIF_KEEP")) return; clear(); rmdir(p.c_str()); } };

// XML: elements and attributes, strict about nesting and quoting
struct Xml { std::string name, text; std::map<std::string, std::string> at; std::vector<Xml> kids; const Xml& one(const std::string& n) const { const Xml* r = nullptr; for (auto& k : kids) if (k.name == n) { REF_NEED(!r, name << " has two " << n); r = &k; } REF_NEED(r, name << " has no " << n); return *r; } std::vector<const Xml*> all(const std::string& n) const { std::vector<const Xml*> r; for (auto& k : kids) if (k.name == n) r.push_back(&k); return r; }
    const std::string& get(const std::string& n) const { auto i = at.find(n); REF_NEED(i != at.end(), name << " has no attribute " << n); return i->second; } uint64_t num(const std::string& n) const { const std::string& v = get(n); REF_NEED(v.size() && v.size() < 20 && v.find_first_not_of("0123456789") == std::string::npos, name << " " << n << "=\"" << v << "\" is not a number"); return strtoull(v.c_str(), nullptr, 10); } };
struct XmlReader { const std::string& t; size_t p = 0; XmlReader(const std::string& x) : t(x) {}
    void ws() { while (p < t.size() && strchr(" \t\r\n", t[p])) ++p; } bool is(const char* x) { return t.compare(p, strlen(x), x) == 0; } std::string word() { size_t a = p; while (p < t.size() && (isalnum((unsigned char)t[p]) || strchr("_:-.", t[p]))) ++p; REF_NEED(p > a, "XML: a name is missing at byte " << a); return t.substr(a, p - a); }
    Xml element() { REF_NEED(is("<"), "XML: no element at byte " << p); ++p; Xml e; e.name = word(); for (;;) { size_t q = p; ws(); if (is("/>")) { p += 2; return e; } if (is(">")) { ++p; break; } REF_NEED(p > q, "XML: no space before an attribute at byte " << p); std::string n = word(); ws(); REF_NEED(is("="), "XML: = is missing at byte " << p); ++p; ws(); REF_NEED(is("\""), "XML: a quote is missing at byte " << p); size_t z = t.find('"', p + 1); REF_NEED(z != std::string::npos, "XML: open quote"); std::string v = t.substr(p + 1, z - p - 1); REF_NEED(v.find('<') == std::string::npos && v.find('&') == std::string::npos, "XML: attribute " << n); REF_NEED(e.at.insert({ n, v }).second, "XML: attribute " << n << " twice"); p = z + 1; }
        for (;;) { while (p < t.size() && t[p] != '<') e.text += t[p++]; REF_NEED(p < t.size(), "XML: " << e.name << " is not closed"); if (is("</")) { p += 2; std::string n = word(); REF_NEED(n == e.name, "XML: " << e.name << " closed by " << n); ws(); REF_NEED(is(">"), "XML: > is missing"); ++p; return e; } e.kids.push_back(element()); } }
    Xml document() { ws(); if (is("<?")) { p = t.find("?>", p); REF_NEED(p != std::string::npos, "XML: open prologue"); p += 2; ws(); } Xml e = element(); ws(); REF_NEED(p == t.size() || t[p] == 0, "XML: " << t.size() - p << " bytes after the end"); return e; } };

// movies as people package them: constant or slightly varying frame rates, groups of pictures, audio in whole frames
struct Clip { refw::Mov m; ref::Movie mv; std::vector<std::vector<size_t>> gops; std::string path, log; double nominal = 0; std::vector<uint64_t> off; uint64_t pres(unsigned i, size_t k) const { const ref::Track& t = mv.tracks[i]; return hns(t.s[k].dts + (uint64_t)t.s[k].cts, t.timescale) + off[i]; } };
inline refw::Trk clip_track(pbt::Source& s, bool video, double seconds, std::vector<size_t>& cuts, bool vary, const refw::Trk* like = nullptr) {
    refw::Trk t = refw::gen_trk(s, video, false); if (like && !like->stss) vary = false; if (like) { t.sps = like->sps; t.pps = like->pps; t.avcc = like->avcc; t.w = like->w; t.h = like->h; t.object = like->object; t.rate = like->rate; t.channels = like->channels; t.asc = like->asc; } t.fixed = false; t.elst = false; t.delay = 0; static const uint32_t vs[] = { 1000, 90000, 12800, 600, 30000, 10000000, 24000, 60000 }; size_t n; uint64_t delta;
    if (video) { t.scale = vs[s.pick({ 3, 3, 2, 1, 2, 2, 1, 1 })]; static const double fps[] = { 25, 30, 24, 50, 12.5, 60, 15, 30000. / 1001, 24000. / 1001, 10 }; double f = fps[s.pick({ 5, 3, 3, 2, 1, 1, 1, 2, 2, 1 })]; delta = std::max<uint64_t>(1, (uint64_t)(t.scale / f + 0.5)); n = std::max<size_t>(1, (size_t)(seconds * t.scale / delta)); }
    else { if (s.chance(80)) { t.scale = t.rate; delta = 1024; } else { t.scale = vs[s.pick({ 1, 2, 0, 0, 0, 2 })]; delta = std::max<uint64_t>(1, (uint64_t)(1024.0 * t.scale / t.rate + 0.5)); } n = std::max<size_t>(1, (size_t)(seconds * t.scale / delta) + (size_t)s.range(0, 2)); }
    t.s.clear(); t.chunks.clear(); uint64_t d = 0; for (size_t i = 0; i < n; ++i) { refw::Smp x; x.dec = d; x.delta = (uint32_t)delta; if (vary && video && s.chance(25)) x.delta = (uint32_t)std::max<uint64_t>(1, delta + s.range(0, delta) - delta / 2); d += x.delta; x.off_comp = 0; x.size = (uint32_t)s.small(1, 120); x.sync = true; t.s.push_back(x); } t.ctts = t.stss = false; if (video) { make_gops(s, t, cuts); if (vary) t.stss = true; if (like && t.stss != like->stss) { t.stss = like->stss; if (t.stss) { for (size_t i = 0; i < n; ++i) t.s[i].sync = std::binary_search(cuts.begin(), cuts.end(), i); } else for (auto& x : t.s) { x.sync = true; x.off_comp = t.s[0].off_comp; } } uint64_t lo = UINT64_MAX; for (auto& x : t.s) lo = std::min(lo, (uint64_t)x.off_comp); if (lo > d / 2) for (auto& x : t.s) x.off_comp -= lo; } else { cuts.clear(); for (size_t i = 0; i < n; ++i) cuts.push_back(i); }
    size_t left = n; while (left) { size_t k = std::min<size_t>(left, (size_t)(s.chance(60) && t.chunks.size() ? t.chunks.back() : s.range(1, 30))); t.chunks.push_back((unsigned)k); left -= k; } return t;
}
inline void clip_read(Clip& c) { auto top = ref::parse(c.m.file.data(), c.m.file.size(), 0, "the input"); for (auto& b : top) if (b.type == "moov") c.mv = ref::movie(b); c.off.clear(); c.nominal = 0; for (unsigned i = 0; i < c.mv.tracks.size(); ++i) { auto& t = c.mv.tracks[i]; c.off.push_back(t.edits.size() == 2 ? hns(t.edits[0].duration, c.mv.timescale) : 0); } c.nominal = (double)c.mv.duration * 1e7 / c.mv.timescale; }
inline std::string clip_text(const Clip& c) { std::ostringstream o; o << "movie scale " << c.m.scale; for (unsigned i = 0; i < c.m.t.size(); ++i) { auto& t = c.m.t[i]; o << "; " << (t.video ? "video" : "audio") << " " << t.s.size() << " x " << t.s[0].delta << "/" << t.scale << (t.stss ? " keys at" : ""); if (t.stss) for (size_t g : c.gops[i]) o << " " << g; if (t.ctts) { o << " offsets"; for (size_t k = 0; k < t.s.size() && k < 6; ++k) o << " " << t.s[k].off_comp; } if (t.elst) o << " delay " << t.delay; } return o.str(); }
// delays: 0 none, 1 any track, 2 tracks without key frames
inline Clip gen_clip(pbt::Source& s, const char* kinds, const std::string& path, int delays, bool vary, const Clip* like = nullptr, double least = 0.05) {
    Clip c; c.path = path; c.m.scale = s.chance(70) ? 1000 : s.chance(50) ? 90000 : 600; double sec = least + s.small(0, 1000) / 100.0; bool apart = s.chance(15);
    for (const char* k = kinds; *k; ++k) { std::vector<size_t> g; double x = apart ? least + s.small(0, 1000) / 100.0 : sec; c.m.t.push_back(clip_track(s, *k == 'v', std::min(x, *k == 'v' ? 7.0 : 10.0), g, vary, like ? &like->m.t[k - kinds] : nullptr)); c.gops.push_back(g); if ((delays == 1 || (delays == 2 && !c.m.t.back().stss)) && s.chance(25)) { c.m.t.back().elst = true; c.m.t.back().delay = s.small(0, 2 * c.m.scale); } }
    refw::build(s, c.m); clip_read(c); c.log = clip_text(c); return c;
}
// the same pictures coded with another rate: same times and groups, other bytes, sizes and parameter sets
inline Clip clip_variant(pbt::Source& s, const Clip& c, const std::string& path, const Clip* like = nullptr) { Clip r; r.path = path; r.m.scale = c.m.scale; r.m.t = c.m.t; r.gops = c.gops; for (auto& t : r.m.t) { t.stco_at.clear(); t.chunk_off.clear(); refw::Trk n = refw::gen_trk(s, t.video, false); for (auto& x : t.s) x.size = (uint32_t)s.small(1, 120); if (like) { n = like->m.t[&t - &r.m.t[0]]; } if (t.video) { t.sps = n.sps; t.pps = n.pps; t.avcc = n.avcc; t.w = n.w; t.h = n.h; } t.chunks.clear(); size_t left = t.s.size(); while (left) { size_t k = std::min<size_t>(left, (size_t)s.range(1, 20)); t.chunks.push_back((unsigned)k); left -= k; } } refw::build(s, r.m); clip_read(r); r.log = clip_text(r); return r; }
inline std::string lower(std::string x) { for (auto& c : x) c = (char)tolower((unsigned char)c); return x; }
inline std::string hexs(const Bytes& b) { return hex(b, b.size()); }
// a movie of many groups of pictures
static inline void stretch(pbt::Source& s, Clip& c, size_t lo, size_t hi) {
    for (unsigned i = 0; i < c.m.t.size(); ++i) { refw::Trk& t = c.m.t[i]; t.stco_at.clear(); t.chunk_off.clear(); if (!t.video) continue; uint32_t delta = std::max<uint32_t>(1, t.scale / 6), comp = t.s[0].off_comp; t.s.clear(); t.chunks.clear(); c.gops[i].clear(); for (size_t n = (size_t)s.range(lo, hi); n; --n) { c.gops[i].push_back(t.s.size()); for (size_t k = n == 3 ? 2 : s.chance(20) ? 2 : 1; k; --k) { refw::Smp x; x.dec = (uint64_t)t.s.size() * delta; x.delta = delta; x.off_comp = comp; x.size = 6; x.sync = c.gops[i].back() == t.s.size(); t.s.push_back(x); } } t.stss = true; size_t left = t.s.size(); while (left) { size_t k = std::min<size_t>(left, (size_t)s.range(1, 40)); t.chunks.push_back((unsigned)k); left -= k; } }
    refw::build(s, c.m); clip_read(c); c.log = clip_text(c);
}
