// movies of NAL units and ADTS frames, and their samples in a transport stream
#pragma once
// video samples of NAL units with four byte lengths, no start codes inside
static inline void make_nals(pbt::Source& s, Clip& c) {
    for (auto& t : c.m.t) { t.stco_at.clear(); t.chunk_off.clear(); if (t.video) { t.pps.resize(1); Bytes a(t.avcc.begin(), t.avcc.begin() + 8 + t.sps.nal.size()); a.push_back(1); a.push_back((uint8_t)(t.pps[0].size() >> 8)); a.push_back((uint8_t)t.pps[0].size()); a.insert(a.end(), t.pps[0].begin(), t.pps[0].end()); t.avcc = a; t.avcc[4] |= 3; for (auto& x : t.s) { if (s.chance(12)) x.size = (uint32_t)s.small(1, 2000); else if (s.chance(2)) x.size = (uint32_t)s.range(65400, 65600); x.size = std::max<uint32_t>(x.size, 6); } } else for (auto& x : t.s) if (s.chance(12)) x.size = (uint32_t)s.small(1, 1200); }
    refw::build(s, c.m); clip_read(c); for (unsigned i = 0; i < c.m.t.size(); ++i) if (c.m.t[i].video) for (size_t k = 0; k < c.mv.tracks[i].s.size(); ++k) { auto& x = c.mv.tracks[i].s[k]; uint8_t* p = &c.m.file[x.off]; size_t left = x.size; for (size_t q = 0; q < left; ++q) if (!p[q]) p[q] = 0x37; while (left) { size_t n = left - 4; if (n > 8 && s.chance(30)) { size_t m = (size_t)s.range(1, n - 5); n = m; } p[0] = (uint8_t)(n >> 24); p[1] = (uint8_t)(n >> 16); p[2] = (uint8_t)(n >> 8); p[3] = (uint8_t)n; p[4] = x.sync ? 0x65 : 0x41; p += 4 + n; left -= 4 + n; } }
    c.log = clip_text(c);
}
static inline std::vector<Bytes> nals(const uint8_t* p, size_t n) { std::vector<Bytes> r; while (n) { size_t k = (size_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; r.push_back(Bytes(p + 4, p + 4 + k)); p += 4 + k; n -= 4 + k; } return r; }
// one access unit or audio frame in its packet against sample q of track i
static inline void check_unit(const Pes& p, const Clip& c, unsigned i, size_t q, bool video, const std::string& T) {
    const ref::Track& t = c.mv.tracks[i]; const uint8_t* src = &c.m.file[t.s[q].off];
    if (video) { bool sync = t.s[q].sync; PBT_CHECK(p.random == sync, T << " random access mark"); auto got = annexb(p.body, T), want = nals(src, t.s[q].size); size_t z = 0; PBT_CHECK(got.size() && (got[0].size() == 2 && (got[0][0] & 31) == 9), T << " has no delimiter"); z = 1; if (sync) { PBT_CHECK(got.size() > 2 && got[1] == c.m.t[i].sps.nal && got[2] == c.m.t[i].pps[0], T << " parameter sets"); z = 3; PBT_CHECK(p.pcr_there, T << " no clock"); } PBT_EQ(got.size() - z, want.size(), T << " units"); for (size_t n = 0; n < want.size(); ++n) PBT_CHECK(got[z + n] == want[n], T << " unit " << n); if (p.pcr_there) PBT_CHECK(p.pcr / 300 <= p.dts && p.pcr / 300 + 90000 >= p.dts, T << " clock " << p.pcr / 300 << " decoded at " << p.dts); }
    else { PBT_CHECK(p.body.size() == 7 + t.s[q].size, T << " of " << p.body.size() << " bytes, the frame has " << t.s[q].size); const Bytes& b = p.body; const refw::Trk& a = c.m.t[i]; unsigned ri = 0; while (refw::RATE[ri] != a.rate) ++ri; PBT_CHECK(b[0] == 0xff && b[1] == 0xf1, T << " header " << hex(b, 7)); PBT_EQ((unsigned)(b[2] >> 6) + 1, a.object, T << " object type"); PBT_EQ((unsigned)(b[2] >> 2 & 15), ri, T << " rate"); PBT_EQ((unsigned)((b[2] & 1) << 2 | b[3] >> 6), a.channels, T << " channels"); PBT_EQ((size_t)((b[3] & 3) << 11 | b[4] << 3 | b[5] >> 5), b.size(), T << " length"); PBT_CHECK(!(b[6] & 3), T << " blocks"); PBT_CHECK(std::equal(b.begin() + 7, b.end(), src), T << " bytes"); }
}
