// the command line program: fragments joined into one file (K09)
#include "stdafx.h"
#include "mp4gen.h"
#include "cliplan.h"
#include "cencref.h"

struct Piece { Bytes clear; uint64_t pres = 0, dec = 0; bool key = false, first = false; };
static void ctr(Bytes& b, size_t at, size_t n, const Bytes& key, const Bytes& iv, uint64_t& done) { aes_encrypt_ctx c; aes_encrypt_key(key.data(), 16, &c); for (size_t i = 0; i < n; ++i, ++done) { static uint8_t z[16]; if (done % 16 == 0 || !i) { uint8_t in[16]; memcpy(in, iv.data(), 8); for (int k = 0; k < 8; ++k) in[15 - k] = (uint8_t)(done / 16 >> 8 * k); aes_ecb_encrypt(in, z, 16, &c); } b[at + i] ^= z[done % 16]; } }
static Bytes init_segment(pbt::Source& s, const refw::Trk& t, uint32_t scale) { refw::Mov m; m.scale = scale; m.t.push_back(t); refw::Trk& x = m.t[0]; x.s.clear(); x.chunks.clear(); x.stco_at.clear(); x.chunk_off.clear(); x.stss = x.ctts = x.elst = x.fixed = false; refw::build(s, m); Bytes b = m.file; auto top = ref::parse(b.data(), b.size(), 0, "init"); const ref::Box* mo = nullptr; for (auto& q : top) if (q.type == "moov") mo = &q; if (s.chance(85)) { refw::W w; size_t e = w.open("mvex"), a = w.open("trex", 0, 0); w.u(4, 1); w.u(4, 1); w.u(12, 0); w.close(a); w.close(e); put32(b, (size_t)mo->off, (uint32_t)(mo->size + w.b.size())); b.insert(b.begin() + (long)(mo->off + mo->size), w.b.begin(), w.b.end()); } return b; }
static void fragment(pbt::Source& s, refw::W& w, const refw::Trk& t, size_t a, size_t b, uint64_t base, int64_t low, uint32_t seq, const Bytes& key, bool crypt, bool given, bool lead, std::vector<Piece>& out, std::ostringstream& L) {
    if (s.chance(lead ? 60 : 15)) { size_t q = w.open("styp"); w.str("msdh"); w.u(4, 0); w.str("dash"); w.close(q); } if (s.chance(40)) { size_t q = w.open("sidx", 0, 0); w.raw(s.blob(28)); w.close(q); } if (s.chance(10)) refw::junk(s, w);
    size_t moof_at = w.b.size(), mf = w.open("moof"), q = w.open("mfhd", 0, 0); w.u(4, seq); w.close(q); size_t tf = w.open("traf"); bool same_d = true, same_s = true; for (size_t k = a; k < b; ++k) { same_d &= t.s[k].delta == t.s[a].delta; same_s &= t.s[k].size == t.s[a].size; } uint32_t hf = 0; if (same_d && s.chance(50)) hf |= 8; if (same_s && s.chance(50)) hf |= 16; if (s.chance(30)) hf |= 0x20; if (s.chance(30)) hf |= 1; else if (s.chance(50)) hf |= 0x20000; q = w.open("tfhd", 0, hf); w.u(4, s.range(1, 3)); if (hf & 1) w.u(8, moof_at); if (hf & 8) w.u(4, t.s[a].delta); if (hf & 16) w.u(4, t.s[a].size); if (hf & 32) w.u(4, s.range(0, UINT32_MAX)); w.close(q);
    uint64_t at = base + t.s[a].dec; unsigned v = at > UINT32_MAX || s.chance(50); q = w.open("tfdt", v, 0); w.u(v ? 8 : 4, at); w.close(q);
    bool off = false; for (size_t k = a; k < b; ++k) off |= (int64_t)t.s[k].off_comp != low; uint32_t rf = s.chance(85) ? 1 : 0; if (s.chance(40)) rf |= 4; if (!(hf & 8) || s.chance(40)) rf |= 0x100; if (!(hf & 16) || s.chance(40)) rf |= 0x200; if (s.chance(20)) rf |= 0x400; if (off || s.chance(40)) rf |= 0x800; v = low > 0 || s.chance(50); size_t run = w.open("trun", v, rf), data = 0; w.u(4, b - a); if (rf & 1) { data = w.b.size(); w.u(4, 0); } if (rf & 4) w.u(4, 0x2000000); std::vector<Bytes> body; for (size_t k = a; k < b; ++k) { auto& x = t.s[k]; int64_t c = (int64_t)x.off_comp - low; if (rf & 0x100) w.u(4, x.delta); if (rf & 0x200) w.u(4, x.size); if (rf & 0x400) w.u(4, s.range(0, UINT32_MAX)); if (rf & 0x800) w.u(4, (uint32_t)c); Piece p; p.clear = s.blob(x.size); p.dec = base + x.dec; p.pres = (uint64_t)((int64_t)p.dec + c); p.key = x.sync; p.first = k == a; body.push_back(p.clear); out.push_back(p); } w.close(run);
    if (crypt) { bool sub = s.chance(60); refw::W e; uint64_t iv0 = s.edgy(0, UINT64_MAX); std::vector<unsigned> sizes; for (size_t k = 0; k < body.size(); ++k) { Bytes& d = body[k]; Bytes iv; for (int i = 0; i < 8; ++i) iv.push_back((uint8_t)((iv0 + k) >> (56 - 8 * i))); size_t from = e.b.size(); e.raw(iv); uint64_t done = 0; if (!sub) ctr(d, 0, d.size(), key, iv, done); else { std::vector<std::pair<size_t, size_t>> ss; size_t left = d.size(); unsigned n = (unsigned)s.range(1, 3); while (n--) { size_t c = n ? s.range(0, std::min<size_t>(left, 40)) : left < 20 || s.chance(30) ? left : left % 16, h = n ? s.range(0, (left - c) / 16) * 16 : left - c; if (!n && h % 16) { c += h % 16; h -= h % 16; } ss.push_back({ c, h }); left -= c + h; } e.u(2, ss.size()); size_t o = 0; for (auto& x : ss) { e.u(2, x.first); e.u(4, x.second); o += x.first; ctr(d, o, x.second, key, iv, done); o += x.second; } } sizes.push_back((unsigned)(e.b.size() - from)); if (!given) out[out.size() - body.size() + k].clear = d; }
        bool tables = s.chance(70); bool after = s.chance(50); auto senc = [&] { size_t z = w.open("senc", 0, sub ? 2 : 0); w.u(4, body.size()); w.raw(e.b); w.close(z); }; if (!after) senc(); if (tables) { bool one = true; for (unsigned x : sizes) one &= x == sizes[0]; size_t z = w.open("saiz", 0, 0); w.u(1, one ? sizes[0] : 0); w.u(4, sizes.size()); if (!one) for (unsigned x : sizes) w.u(1, x); w.close(z); z = w.open("saio", 0, 0); w.u(4, 1); w.u(4, 77); w.close(z); } if (after) senc(); }
    if (s.chance(10)) { q = w.open("sdtp", 0, 0); w.raw(s.blob(b - a)); w.close(q); } w.close(tf); w.close(mf); if (s.chance(5)) refw::junk(s, w); uint64_t n = 0; for (auto& d : body) n += d.size(); if (s.chance(5)) { w.u(4, 1); w.str("mdat"); w.u(8, 16 + n); } else { w.u(4, 8 + n); w.str("mdat"); } if (data) w.set(data, w.b.size() - moof_at); for (auto& d : body) w.raw(d); L << (crypt ? "e" : "") << a << "-" << b << " "; }

PBT_PROP(moof_join, 1, 0) {
    static const char* mix[] = { "va", "v", "a", "av", "vaa" }; const char* kinds = mix[s.pick({ 6, 2, 2, 2, 1 })]; std::vector<std::string> paths; std::string outp = scratch("out.mp4"); struct Rm { std::vector<std::string>& p; ~Rm() { if (!getenv("VERIF_KEEP")) for (auto& x : p) unlink(x.c_str()); } } rm{ paths }; paths.push_back(outp); paths.push_back(outp + ".body.tmp");
    Clip c = gen_clip(s, kinds, "", 1, s.chance(25), nullptr, s.chance(60) ? 1.0 : 0.05); for (auto& t : c.m.t) if (t.video) t.w = t.sps.width(), t.h = t.sps.height(); bool crypt = s.chance(50), given = crypt ? s.chance(85) : s.chance(10); Bytes key; for (int i = 0; i < 16; ++i) key.push_back(s.byte()); size_t nt = c.m.t.size(); std::vector<std::vector<Piece>> want(nt); std::vector<std::string> a = { "-k:moof", "-o:" + outp }; if (given) a.push_back("-key:" + hexs(key)); uint64_t start = s.chance(60) ? 0 : s.edgy(0, 7200); std::ostringstream L; L << (given ? "key given; " : "") << "from " << start << " s; " << c.log << "; "; size_t frags = 0;
    for (size_t i = 0; i < nt; ++i) { refw::Trk& t = c.m.t[i]; bool enc = crypt && s.chance(80); if (enc) for (auto& x : t.s) if (s.chance(30)) x.size = (uint32_t)s.edgy(1, 600); uint64_t base = start * t.scale + (t.elst ? (uint64_t)((unsigned __int128)t.delay * t.scale / c.m.scale) : 0); int64_t low = 0; if (t.ctts && s.chance(30)) { low = INT64_MAX; for (auto& x : t.s) low = std::min(low, (int64_t)x.off_comp); if (s.chance(50)) { int64_t most = 0; for (auto& x : t.s) most = std::max(most, (int64_t)x.off_comp); low = (low + most) / 2; } if ((int64_t)base + (int64_t)t.s[0].off_comp < low) low = (int64_t)t.s[0].off_comp; for (auto& x : t.s) if ((int64_t)(base + x.dec) + (int64_t)x.off_comp < low) low = 0; }
        std::string n = "S" + num(i + 1), p = scratch((n + "_i.mp4").c_str()); put_file(p, init_segment(s, t, c.m.scale)); paths.push_back(p); std::vector<std::string> files{ p }; L << n << ": "; std::vector<size_t> at; size_t step = (size_t)s.range(1, t.video ? 3 : 40); std::vector<size_t>& g = c.gops[i]; for (size_t k = 0; k < g.size(); ) { at.push_back(g[k]); k += s.chance(20) ? (size_t)s.range(1, t.video ? 3 : 40) : step; } at.push_back(t.s.size()); uint32_t seq = 1; refw::W w; bool lead = true; unsigned f = 0; for (size_t k = 0; k + 1 < at.size(); ++k) { fragment(s, w, t, at[k], at[k + 1], base, low, seq++, key, enc && s.chance(90), given, lead, want[i], L); lead = false; ++frags; if (k + 2 == at.size() || !s.chance(15)) { p = scratch((n + "_" + num(f++) + ".m4s").c_str()); if (s.chance(5)) refw::junk(s, w); put_file(p, w.b); paths.push_back(p); files.push_back(p); w.b.clear(); lead = true; L << "| "; } }
        for (auto& x : files) a.push_back("-" + n + ":" + x); }
    if (getenv("VERIF_SHOW")) fprintf(stderr, "CASE %s\n", L.str().c_str()); CliRun r = cli(a); PBT_CHECK(r.rc == 0, "failed with " << r.rc << ": " << r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0) << " | " << L.str());
    try { Bytes f = get_file(outp); auto top = ref::parse(f.data(), f.size(), 0, "the output"); ref::Movie mv; for (auto& b : top) if (b.type == "moov") mv = ref::movie(b); PBT_EQ(mv.tracks.size(), nt, "tracks"); bool known = false; double z = 0, zt = 0; size_t total = 0;
        for (size_t i = 0; i < nt; ++i) { const ref::Track& t = mv.tracks[i]; const refw::Trk& rt = c.m.t[i]; std::string V = "track " + num(i); PBT_CHECK(t.codec == (rt.video ? "avc1" : "mp4a"), V << " codec " << t.codec); check_config(t, rt, V); PBT_EQ(t.s.size(), want[i].size(), V << " samples"); total += t.s.size(); double tick = 1e7 / t.timescale, out0 = (double)t.start(mv.timescale) * 1e7;
            for (size_t k = 0; k < t.s.size(); ++k) { const ref::Sample& y = t.s[k]; const Piece& x = want[i][k]; std::string U = V + " sample " + num(k) + " of " + num(t.s.size()); PBT_EQ((size_t)y.size, x.clear.size(), U << " size"); PBT_CHECK(y.off + y.size <= f.size() && std::equal(x.clear.begin(), x.clear.end(), &f[y.off]), U << " bytes"); if (!y.sync) PBT_CHECK(!x.first && rt.video, U << " begins a fragment and is no key frame"); else PBT_CHECK(x.key, U << " is marked as a key frame");
                double out = out0 + (double)((int64_t)y.dts + y.cts) * tick, in = (double)hns(x.pres, rt.scale), d = out - in; if (!known) { known = true; z = d; zt = tick; } PBT_CHECK(std::abs(d - z) <= 1.5 * (tick + zt) + 2e7 / mv.timescale + 5, U << " presented at " << out << ", in the fragments at " << in << ", others are shifted by " << z); PBT_CHECK(y.cts >= 0, U << " presented before it is decoded"); } }
        if (frags > 2 && total > 20) s.nontrivial();
    } catch (ref::Bad& b) { PBT_CHECK(false, "not valid: " << b.what << " | " << L.str()); } catch (pbt::Failure& f) { f.msg += " | " + L.str(); throw; }
    if (crypt) s.label(given ? "decrypted" : "without the key"); if (s.want_sample()) s.sample(L.str().substr(0, 400));
}
