// the command line program: what it prints about movies and keys (K11)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"

static std::vector<std::string> split(const std::string& t, char c) { std::vector<std::string> r(1); for (char x : t) if (x == c) r.push_back(""); else r.back() += x; return r; }
// hours, minutes, seconds and milliseconds
static std::string clock_text(uint64_t t) { char b[40]; t /= 10000; snprintf(b, sizeof b, "%02llu:%02llu:%02llu.%03llu", (ull)(t / 3600000), (ull)(t / 60000 % 60), (ull)(t / 1000 % 60), (ull)(t % 1000)); return b; }
static uint64_t from_clock(const std::string& x) { REF_NEED(x.size() >= 12 && x[x.size() - 4] == '.', "time " << x); uint64_t n = 0, part = 0; unsigned seen = 0; for (char c : x) { if (c == ':') { n = n * 60 + part; part = 0; ++seen; } else if (c == '.') { n = n * 60 + part; part = 0; } else { REF_NEED(c >= '0' && c <= '9', "time " << x); part = part * 10 + (uint64_t)(c - '0'); } } REF_NEED(seen == 2, "time " << x); return (n * 1000 + part) * 10000; }
// truncated to a millisecond, computed with a rounding of its own
static bool near(const std::string& x, uint64_t want) { uint64_t t = from_clock(x); return t <= want + 3 && want < t + 10000 + 3 && x == clock_text(t); }
static Clip make(pbt::Source& s, const char* kinds, const std::string& path, std::string& L) { Clip c = gen_clip(s, kinds, path, s.chance(40) ? 1 : 0, s.chance(25), nullptr, s.chance(60) ? 1.0 : 0.05); if (s.range(0, 60) == 33) { stretch(s, c, 300, 900); s.label("long"); } put_file(path, c.m.file); L = c.log; return c; }
static CliRun run(const std::vector<std::string>& a, const std::string& L) { if (getenv("VERIF_SHOW")) { for (auto& x : a) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "| %s\n", L.c_str()); } CliRun r = cli(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L); return r; }

// -k:pick: every sample of every track once, with its times, duration, mark and place in the file
PBT_PROP(list_samples, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; std::string L, path = scratch("f.mp4"); Gone g{ path }; Clip c = make(s, mix[s.pick({ 5, 3, 2, 2, 2 })], path, L); int only = s.chance(25) ? (int)s.range(0, c.m.t.size() - 1) : -1; std::vector<std::string> a{ "-k:pick", "-i:" + path }; if (s.chance(50)) { a.push_back("-s:0"); a.push_back("-e:0"); } if (only >= 0) a.push_back("-stream:" + num((uint64_t)only)); CliRun r = run(a, L);
    try { auto l = split(r.out, '\n'); size_t at = 0; while (at < l.size() && l[at].compare(0, 7, "stream\t")) ++at; PBT_CHECK(at < l.size(), "no heading"); size_t nt = c.m.t.size(); for (size_t i = 0; i < nt; ++i) { size_t q = 0; std::string w = num(i) + ") offset: " + clock_text(c.off[i]); while (q < at && l[q].compare(0, w.size(), w)) ++q; PBT_CHECK(q < at, "track " << i << ": no line " << w); PBT_CHECK(l[q].find(" samples count: " + num(c.m.t[i].s.size()) + " ") != std::string::npos && l[q].size() > 12 && l[q].substr(l[q].rfind(' ') + 1) == num(c.mv.tracks[i].timescale), "track " << i << ": " << l[q]); }
        std::vector<std::vector<bool>> seen(nt); for (size_t i = 0; i < nt; ++i) seen[i].resize(c.m.t[i].s.size()); std::vector<size_t> next(nt, 0); size_t rows = 0; for (++at; at < l.size() && l[at].compare(0, 12, "MAX DISTANCE"); ++at) { auto f = split(l[at], '\t'); PBT_EQ(f.size(), (size_t)10, "fields of " << l[at]); size_t i = strtoull(f[0].c_str(), nullptr, 10), k = strtoull(f[1].c_str(), nullptr, 10); PBT_CHECK(f[0] == num(i) && i < nt && (only < 0 || (int)i == only), "track " << f[0]); PBT_CHECK(f[1] == num(k) && k == next[i], "track " << i << " sample " << f[1] << " follows " << next[i]); ++next[i]; PBT_CHECK(k < c.m.t[i].s.size(), "track " << i << " sample " << k); const ref::Track& t = c.mv.tracks[i]; const ref::Sample& x = t.s[k]; std::string V = "track " + num(i) + " sample " + num(k); uint64_t dts = hns(x.dts, t.timescale), pts = c.pres(i, k); PBT_CHECK(near(f[2], pts), V << " presented at " << f[2] << " expected " << clock_text(pts)); PBT_CHECK(near(f[3], dts), V << " decoded at " << f[3] << " expected " << clock_text(dts)); PBT_CHECK(near(f[4], hns(c.m.t[i].s[k].delta, t.timescale)), V << " duration " << f[4]); PBT_CHECK(f[5] == (x.sync ? "1" : "0"), V << " key frame " << f[5]); PBT_CHECK(f[6] == num(x.off) && f[7] == num(x.size), V << " at " << f[6] << " of " << f[7] << " bytes, expected " << x.off << ", " << x.size); uint64_t raw = strtoull(f[8].c_str(), nullptr, 10) + c.off[i]; PBT_CHECK(raw <= pts + 3 && pts <= raw + 3, V << " time " << f[8]); PBT_CHECK(f[9] == num(x.dts + (uint64_t)x.cts), V << " ticks " << f[9]); ++rows; }
        PBT_CHECK(at < l.size(), "no last line"); for (size_t i = 0; i < nt; ++i) if (only < 0 || (int)i == only) PBT_EQ(next[i], c.m.t[i].s.size(), "samples of track " << i); if (rows > 20) s.nontrivial();
    } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L); } catch (pbt::Failure& f) { f.msg += " | " + L; throw; } if (s.want_sample()) s.sample(L.substr(0, 400)); }

// -k:gop: the key frames from the one of the start time to the first at or behind the end
PBT_PROP(list_groups, 1, 0) { static const char* mix[] = { "va", "v", "av" }; std::string L, path = scratch("f.mp4"); Gone g{ path }; Clip c = make(s, mix[s.pick({ 5, 3, 2 })], path, L); unsigned vi = 0; while (!c.m.t[vi].video) ++vi; const ref::Track& t = c.mv.tracks[vi]; if (!c.m.t[vi].stss) s.label("no key frame table"); std::vector<size_t> keys; for (size_t k = 0; k < t.s.size(); ++k) if (t.s[k].sync) keys.push_back(k); auto at = [&](size_t k) { return c.pres(vi, k) - c.off[vi]; }; for (size_t k = 0; k + 1 < keys.size(); ++k) if (at(keys[k]) >= at(keys[k + 1])) throw pbt::Discard();
    uint64_t start = 0, end = 0; std::vector<std::string> a{ "-k:gop", "-i:" + path }; size_t first = 0; if (s.chance(40)) { size_t z = s.range(0, keys.size() - 1); uint64_t lo = hns(t.s[keys[z]].dts, t.timescale), hi = z + 1 < keys.size() ? hns(t.s[keys[z + 1]].dts, t.timescale) : lo + 10000; if (hi > lo + 40 && c.m.t[vi].stss) { start = lo + 20 + s.range(0, hi - lo - 40); first = z; a.push_back("-s:" + num(start)); } } if (s.chance(40)) { end = s.range(1, 100000000); a.push_back("-e:" + num(end)); } CliRun r = run(a, L); std::ostringstream C; for (size_t i = 2; i < a.size(); ++i) C << a[i] << " "; L = C.str() + L;
    try { auto l = split(r.out, '\n'); size_t q = 0; while (q < l.size() && l[q].compare(0, 9, "Duration ")) ++q; PBT_CHECK(q < l.size(), "no duration"); uint64_t dur = hns(c.mv.duration, c.mv.timescale); PBT_CHECK(near(l[q].substr(9), dur), "duration " << l[q] << " expected " << clock_text(dur)); size_t k = first, rows = 0; uint64_t last = 0; for (++q; q < l.size(); ++q) { auto f = split(l[q], '\t'); if (f.size() < 5) continue; PBT_EQ(f.size(), (size_t)5, "fields of " << l[q]); PBT_CHECK(f[0] == num(vi), "track " << f[0]); uint64_t time = strtoull(f[3].c_str(), nullptr, 10); bool again = rows && k == keys.size() && f[1] == num(keys.back()); size_t z = again ? keys.back() : k < keys.size() ? keys[k] : SIZE_MAX; PBT_CHECK(z != SIZE_MAX, "line " << l[q] << " behind the last key frame"); std::string V = "key frame " + num(k) + " (sample " + num(z) + ")"; PBT_CHECK(f[1] == num(z), V << " is named as sample " << f[1]); PBT_CHECK(f[3] == num(time) && time <= at(z) + 3 && at(z) <= time + 3, V << " at " << f[3] << " expected " << at(z)); PBT_CHECK(near(f[2], time), V << " at " << f[2]); uint64_t dts = hns(t.s[z].dts, t.timescale); PBT_CHECK(near(f[4], dts), V << " decoded at " << f[4] << " expected " << clock_text(dts)); if (!again) ++k; last = time; ++rows; }
        PBT_CHECK(rows, "nothing is listed"); uint64_t stop = end ? end : dur; PBT_CHECK(k == keys.size() || last >= stop, "the list ends with key frame " << k - 1 << " of " << keys.size() << " at " << last << ", it has to go to " << stop); if (rows > 3) s.nontrivial();
    } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L); } catch (pbt::Failure& f) { f.msg += " | " + L; throw; } if (s.want_sample()) s.sample(L.substr(0, 400)); }

// -k:hex64, -k:64hex: keys from one form to the other
static std::string b64(const Bytes& b) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < b.size(); i += 3) { unsigned v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); r += A[v >> 18]; r += A[v >> 12 & 63]; r += i + 1 < b.size() ? A[v >> 6 & 63] : '='; r += i + 2 < b.size() ? A[v & 63] : '='; } return r; }
PBT_PROP(list_keys, 1, 0) { Bytes b = s.bytes((size_t)(s.chance(50) ? 16 : s.small(1, 60))); std::string h = hexs(b), B = b64(b), in = h; if (s.chance(50)) for (auto& x : in) x = (char)toupper((unsigned char)x); CliRun r = cli({ "-k:hex64", "-key:" + in }); auto has = [](const std::string& o, const std::string& w, bool fold) { for (auto& x : split(o, '\n')) if ((fold ? lower(x) : x) == w) return true; return false; }; PBT_CHECK(has(r.out, B, false), "hex64 of " << in << " does not give " << B << ": " << r.out); r = cli({ "-k:64hex", "-key:" + B }); PBT_CHECK(has(r.out, h, true), "64hex of " << B << " does not give " << h << ": " << r.out); if (b.size() > 1) s.nontrivial(); if (s.want_sample()) s.sample(h); }

// -k:analyze: every box with its place, and what the headers and fragments say
static void expect(const std::vector<ref::Box>& v, std::vector<const ref::Box*>& out) { for (auto& b : v) { out.push_back(&b); if (b.type != "stsd" && b.type != "dref" && b.type != "meta" && b.type != "udta") expect(b.kids, out); } }
static size_t analyze(const std::string& path, const std::string& L) {
    Bytes f = get_file(path); auto top = ref::parse(f.data(), f.size(), 0, "the file"); std::vector<const ref::Box*> want; expect(top, want); CliRun r = run({ "-k:analyze", "-i:" + path }, L); auto l = split(r.out, '\n'); size_t at = 0; std::string W = path.substr(path.rfind('/') + 1); auto is_box = [](const std::string& x) { auto f = split(x, ' '); if (f.size() != 4 || f[0].size() != 4) return false; for (int i = 1; i < 4; ++i) if (f[i].empty() || f[i].find_first_not_of("0123456789") != std::string::npos) return false; return true; };
    std::vector<std::pair<uint64_t, uint64_t>> inner; for (auto* b : want) if (b->type == "stsd") inner.push_back({ b->off, b->off + b->size }); // the boxes of a sample entry may be listed too
    auto skip = [&](const std::string& x) { if (!is_box(x) || !x.compare(0, 4, "uuid")) return true; uint64_t o = strtoull(split(x, ' ')[1].c_str(), 0, 10); for (auto& r : inner) if (o > r.first && o < r.second) return true; return false; };
    for (auto* b : want) { if (b->type == "uuid") continue; while (at < l.size() && skip(l[at])) ++at; std::string w = b->type + " " + num(b->off) + " " + num(b->size) + " " + num(b->off + b->size); PBT_CHECK(at < l.size(), W << ": no line for " << w); PBT_CHECK(l[at] == w, W << ": line " << l[at] << " expected " << w); ++at; auto next = [&](size_t k) { return at + k < l.size() ? l[at + k] : std::string(); }; auto need = [&](const std::string& line, const std::string& part) { PBT_CHECK(line.find(part) != std::string::npos, W << ": " << w << " is described as " << line << " without " << part); };
        ref::Cur c = b->cur(); if (b->type == "mdhd" || b->type == "mvhd") { unsigned v = (unsigned)(c.u(4) >> 24); c.u(v ? 8 : 4); c.u(v ? 8 : 4); uint64_t ts = c.u(4), d = c.u(v ? 8 : 4); need(next(0), "timescale: " + num(ts) + " duration: " + num(d)); } else if (b->type == "tkhd") { unsigned v = (unsigned)(c.u(4) >> 24); c.u(v ? 8 : 4); c.u(v ? 8 : 4); need(next(0), "track id: " + num(c.u(4)) + " "); } else if (b->type == "mfhd") { c.u(4); need(next(0), "fragment " + num(c.u(4))); } else if (b->type == "tfhd") { c.u(4); need(next(0), "track_ID: " + num(c.u(4))); } else if (b->type == "tfdt") { unsigned v = (unsigned)(c.u(4) >> 24); uint64_t t = c.u(v ? 8 : 4); need(next(1), clock_text(t).substr(0, 3)); need(next(1), "\t" + num(t)); }
        else if (b->type == "trun") { uint32_t fl = (uint32_t)c.u(4) & 0xffffff; uint64_t n = c.u(4); need(next(0), "samples: " + num(n) + " "); if (fl & 1) { c.u(4); } if (fl & 4) c.u(4); for (uint64_t k = 0; k < n; ++k) { std::string x = next(1 + k); if (fl & 0x100) need(x, " duration: " + num(c.u(4))); if (fl & 0x200) need(x, " size: " + num(c.u(4))); if (fl & 0x400) c.u(4); if (fl & 0x800) c.u(4); } } }
    for (; at < l.size(); ++at) PBT_CHECK(skip(l[at]), W << ": line " << l[at] << " is no box"); return want.size();
}
PBT_PROP(list_boxes, 1, 0) { static const char* mix[] = { "va", "v", "a", "av", "vaa" }; std::string L, path = scratch("f.mp4"); Gone g{ path }; Clip c = make(s, mix[s.pick({ 5, 3, 2, 2, 2 })], path, L); size_t n = 0; try { n += analyze(path, L); if (s.chance(40)) { Dir d(scratch("out")); std::vector<std::string> a{ "-k:dash", "-i:" + path, "-o:" + d.p, "-s:0", "-e:0", "-b:300", "-segment:" + num(s.range(200, 1000) * 10000) }; if (s.chance(40)) { a.push_back("-key:" + hexs(s.bytes(16))); a.push_back("-kid:" + hexs(s.bytes(16))); if (s.chance(50)) a.push_back("-senc_flags:0"); s.label("encrypted fragments"); } else s.label("fragments"); run(a, L); size_t k = 0; for (auto& f : d.list()) if (f.find(".m4") != std::string::npos && k++ < 12) n += analyze(d.p + "/" + f, L); } } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L); } catch (pbt::Failure& f) { f.msg += " | " + L; throw; } if (n > 30) s.nontrivial(); if (s.want_sample()) s.sample(L.substr(0, 400)); }
