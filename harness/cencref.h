// independent reader of common encryption (ISO/IEC 23001-7): protected sample entries, system headers, encrypted fragments
#pragma once
#include "cliplan.h"
#include <aes.h>

struct Enc { bool on = false, audio = true, clear = false; uint32_t flags = 2; Bytes key, kid, wv; std::string url; std::vector<Bytes> pssh; std::set<Bytes> ivs; std::vector<Bytes> firsts; bool track(bool video) const { return on && (video || audio); } };
static const uint8_t SYS_PR[] = { 0x9a, 0x04, 0xf0, 0x79, 0x98, 0x40, 0x42, 0x86, 0xab, 0x92, 0xe6, 0x5b, 0xe0, 0x88, 0x5f, 0x95 }, SYS_WV[] = { 0xed, 0xef, 0x8b, 0xa9, 0x79, 0xd6, 0x4a, 0xce, 0xa3, 0xc8, 0x27, 0xdc, 0xd5, 0x1d, 0x21, 0xed }, SYS_CK[] = { 0x10, 0x77, 0xef, 0xec, 0xc0, 0xb2, 0x4d, 0x02, 0xac, 0xe3, 0x3c, 0x1e, 0x52, 0xe2, 0xfb, 0x4b };
static inline Bytes b64(const std::string& t, const std::string& W, bool url = false) { Bytes r; uint32_t v = 0; unsigned n = 0, pad = 0; for (char c : t) { int x = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == (url ? '-' : '+') ? 62 : c == (url ? '_' : '/') ? 63 : -1; if (c == '=' && !url) { ++pad; continue; } REF_NEED(x >= 0 && !pad, W << ": base 64 text " << t); v = v << 6 | (uint32_t)x; n += 6; if (n >= 8) { n -= 8; r.push_back((uint8_t)(v >> n)); } } REF_NEED(n < 6 && (url || (t.size() % 4 == 0 && pad < 3)) && !(v & ((1u << n) - 1)), W << ": base 64 text " << t); return r; }
static inline std::string to_b64(const Bytes& b) { static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = (uint32_t)b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); r += a[v >> 18]; r += a[v >> 12 & 63]; r += i + 1 < b.size() ? a[v >> 6 & 63] : '='; r += i + 2 < b.size() ? a[v & 63] : '='; } return r; }
static inline void put32(Bytes& b, size_t at, uint32_t v) { for (int i = 0; i < 4; ++i) b[at + i] = (uint8_t)(v >> (24 - 8 * i)); }

// PlayReady object: one record with the header text
static inline void check_pro(const Bytes& d, const Enc& e, const std::string& W) {
    auto le = [&](size_t at, unsigned n) { uint32_t v = 0; REF_NEED(at + n <= d.size(), W << " object too short"); for (unsigned i = 0; i < n; ++i) v |= (uint32_t)d[at + i] << 8 * i; return v; }; PBT_EQ((ull)le(0, 4), (ull)d.size(), W << " length of the object"); PBT_EQ(le(4, 2), 1u, W << " records"); PBT_EQ(le(6, 2), 1u, W << " record type"); PBT_EQ((ull)le(8, 2), (ull)d.size() - 10, W << " length of the record"); std::string t; for (size_t i = 10; i + 1 < d.size(); i += 2) { uint32_t c = le(i, 2); REF_NEED(c && c < 128, W << " character " << c); t += (char)c; }
    XmlReader x(t); Xml h = x.document(); REF_NEED(h.name == "WRMHEADER", W << " root " << h.name); PBT_CHECK(h.get("version") == "4.0.0.0" && h.get("xmlns") == "http://schemas.microsoft.com/DRM/2007/03/PlayReadyHeader", W << " header " << t); const Xml& D = h.one("DATA"); PBT_CHECK(D.one("PROTECTINFO").one("KEYLEN").text == "16" && D.one("PROTECTINFO").one("ALGID").text == "AESCTR", W << " protection"); static const int order[16] = { 3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15 }; Bytes g; for (int k : order) g.push_back(e.kid[(size_t)k]); PBT_CHECK(b64(D.one("KID").text, W) == g, W << " key id " << D.one("KID").text);
    aes_encrypt_ctx c; aes_encrypt_key(e.key.data(), 16, &c); uint8_t o[16]; aes_ecb_encrypt(g.data(), o, 16, &c); PBT_CHECK(b64(D.one("CHECKSUM").text, W) == Bytes(o, o + 8), W << " checksum " << D.one("CHECKSUM").text); PBT_CHECK(D.one("LA_URL").text == e.url, W << " address " << D.one("LA_URL").text); }
// a whole pssh box; returns system and data
static inline void read_pssh(const Bytes& b, Bytes& sys, std::vector<Bytes>& kids, Bytes& data, const std::string& W) { auto top = ref::parse(b.data(), b.size(), 0, W); REF_NEED(top.size() == 1 && top[0].type == "pssh", W << " is no pssh"); ref::Cur c = top[0].cur(); uint8_t v; uint32_t f; ref::full(c, v, f); sys = c.take(16); kids.clear(); if (v) { uint32_t n = (uint32_t)c.u(4); while (n--) kids.push_back(c.take(16)); } data = c.take((size_t)c.u(4)); REF_NEED(!c.left(), W << " pssh has bytes more"); }
static inline void check_systems(const std::vector<Bytes>& boxes, Enc& e, const std::string& W) { unsigned pr = 0, wv = 0, ck = 0; for (auto& b : boxes) { Bytes sys, data; std::vector<Bytes> kids; read_pssh(b, sys, kids, data, W); if (sys == Bytes(SYS_PR, SYS_PR + 16)) { ++pr; check_pro(data, e, W + " PlayReady"); } else if (sys == Bytes(SYS_WV, SYS_WV + 16)) { ++wv; PBT_CHECK(data == e.wv, W << " Widevine data " << hex(data, 100) << " expected " << hex(e.wv, 100)); } else { PBT_CHECK(sys == Bytes(SYS_CK, SYS_CK + 16), W << " system " << hex(sys, 16)); ++ck; PBT_CHECK(kids.size() == 1 && kids[0] == e.kid && data.empty(), W << " clear key"); } }
    PBT_CHECK(pr == !e.url.empty() && wv == !e.wv.empty() && ck == e.clear, W << " has " << pr << " PlayReady, " << wv << " Widevine and " << ck << " clear key headers"); if (e.pssh.empty()) e.pssh = boxes; PBT_CHECK(e.pssh == boxes, W << " other headers than before"); }
// takes the protection out of an initialisation segment: checks it and returns the segment as it is without
static inline Bytes clean_init(const Bytes& b, Enc& e, bool video, const std::string& W) {
    auto top = ref::parse(b.data(), b.size(), 0, W); const ref::Box* mo = nullptr; for (auto& x : top) if (x.type == "moov") mo = &x; REF_NEED(mo, W << " no moov"); std::vector<Bytes> boxes; for (auto& k : mo->kids) if (k.type == "pssh") boxes.push_back(Bytes(b.begin() + (long)k.off, b.begin() + (long)(k.off + k.size))); if (!e.track(video)) { PBT_CHECK(boxes.empty(), W << " has a system header"); return b; } check_systems(boxes, e, W);
    const ref::Box& tr = mo->need("trak"); const ref::Box& sd = tr.need("mdia").need("minf").need("stbl").need("stsd"); REF_NEED(sd.kids.size() == 2, W << " " << sd.kids.size() << " sample entries"); const ref::Box &p = sd.kids[0], &q = sd.kids[1]; std::string orig = video ? "avc1" : "mp4a"; PBT_CHECK(p.type == (video ? "encv" : "enca") && q.type == orig, W << " sample entries " << p.type << " " << q.type); REF_NEED(p.count("sinf") == 1 && !q.count("sinf"), W << " protection of the entries"); const ref::Box& si = p.need("sinf"); { ref::Cur c = si.need("frma").cur(); Bytes t = c.take(4); PBT_CHECK(std::string(t.begin(), t.end()) == orig && !c.left(), W << " original format"); } uint8_t v; uint32_t f; { ref::Cur c = si.need("schm").cur(); ref::full(c, v, f); Bytes t = c.take(4); PBT_CHECK(std::string(t.begin(), t.end()) == "cenc" && c.u(4) == 0x10000 && !c.left(), W << " scheme"); }
    { ref::Cur c = si.need("schi").need("tenc").cur(); ref::full(c, v, f); PBT_CHECK(!v && !c.u(2), W << " version of the track encryption"); PBT_EQ((ull)c.u(1), 1ull, W << " protected"); PBT_EQ((ull)c.u(1), 8ull, W << " size of the vectors"); Bytes k = c.take(16); PBT_CHECK(k == e.kid && !c.left(), W << " key id " << hex(k, 16)); }
    Bytes enc(b.begin() + (long)(p.off + 8), b.begin() + (long)(p.off + p.size)), clr(b.begin() + (long)(q.off + 8), b.begin() + (long)(q.off + q.size)); enc.erase(enc.begin() + (long)(si.off - p.off - 8), enc.begin() + (long)(si.off - p.off - 8 + si.size)); PBT_CHECK(enc == clr, W << " the entries differ");
    Bytes r = b; size_t cut = (size_t)p.size; for (auto* x : { mo, &tr, &tr.need("mdia"), &tr.need("mdia").need("minf"), &tr.need("mdia").need("minf").need("stbl"), &sd }) put32(r, (size_t)x->off, (uint32_t)(x->size - cut)); put32(r, (size_t)sd.off + 12, 1); uint64_t ps = 0; for (size_t i = mo->kids.size(); i--;) if (mo->kids[i].type == "pssh") { r.erase(r.begin() + (long)mo->kids[i].off, r.begin() + (long)(mo->kids[i].off + mo->kids[i].size)); ps += mo->kids[i].size; REF_NEED(mo->kids[i].off > p.off, W << " order"); } r.erase(r.begin() + (long)p.off, r.begin() + (long)(p.off + p.size)); put32(r, (size_t)mo->off, (uint32_t)(mo->size - cut - ps)); return r; }
// decrypts the samples of a fragment in place; every vector is used once, the auxiliary information is where the tables say
static inline void decrypt(Bytes& b, Enc& e, bool video, const std::string& W, size_t& hidden) {
    auto top = ref::parse(b.data(), b.size(), 0, W); const ref::Box *mf = nullptr, *md = nullptr; for (auto& x : top) { if (x.type == "moof") mf = &x; if (x.type == "mdat") md = &x; } REF_NEED(mf && md, W << " boxes"); const ref::Box& tf = mf->need("traf"); if (!e.track(video)) { PBT_CHECK(!tf.find("senc") && !tf.find("saiz") && !tf.find("saio"), W << " is encrypted"); return; }
    Sidx sx; Frag f = one_fragment(b, sx); uint8_t v; uint32_t fl; REF_NEED(tf.count("senc") == 1 && tf.count("saiz") == 1 && tf.count("saio") == 1, W << " boxes of the encryption"); { ref::Cur c = tf.need("tfhd").cur(); ref::full(c, v, fl); c.u(4); REF_NEED(!(fl & 3), W << " base or description of the fragment"); }
    const ref::Box& se = tf.need("senc"); ref::Cur c = se.cur(); ref::full(c, v, fl); uint64_t n = c.u(4); PBT_EQ((ull)n, (ull)f.s.size(), W << " samples with encryption"); std::vector<size_t> info; size_t at = 0, base = (size_t)(md->off + md->head); uint32_t flags = video ? 2 : e.flags;
    for (size_t k = 0; k < n; ++k) { std::string V = W + " encryption of sample " + std::to_string(k); size_t from = c.at; Bytes iv = c.take(8); PBT_CHECK(e.ivs.insert(iv).second, V << " vector used before"); if (!k) e.firsts.push_back(iv); iv.resize(16); std::vector<std::pair<size_t, size_t>> sub; size_t size = (size_t)f.s[k].size; if (fl & 2) { uint32_t m = (uint32_t)c.u(2); while (m--) { size_t x = (size_t)c.u(2), y = (size_t)c.u(4); sub.push_back({ x, y }); } } else sub.push_back({ 0, size }); info.push_back(c.at - from); size_t sum = 0, hid = 0; for (auto& x : sub) { sum += x.first + x.second; hid += x.second; } PBT_EQ(sum, size, V << " bytes"); Bytes text; for (size_t o = at, i = 0; i < sub.size(); ++i) { o += sub[i].first; text.insert(text.end(), b.begin() + (long)(base + o), b.begin() + (long)(base + o + sub[i].second)); o += sub[i].second; }
        if (flags & 2) { PBT_CHECK(hid % 16 == 0, V << " " << hid << " bytes are no blocks"); PBT_CHECK(hid == (size > 112 ? size - 96 - size % 16 : 0), V << " hides " << hid << " of " << size << " bytes"); } else PBT_EQ(hid, size, V << " hidden bytes"); hidden += hid; if (hid) { aes_encrypt_ctx x; aes_encrypt_key(e.key.data(), 16, &x); for (size_t o = 0; o < text.size(); o += 16) { uint8_t z[16]; uint8_t ctr[16]; memcpy(ctr, iv.data(), 8); uint64_t blk = o / 16; for (int i = 0; i < 8; ++i) ctr[15 - i] = (uint8_t)(blk >> 8 * i); aes_ecb_encrypt(ctr, z, 16, &x); for (size_t i = 0; i < 16 && o + i < text.size(); ++i) text[o + i] ^= z[i]; } size_t t = 0; for (size_t o = at, i = 0; i < sub.size(); ++i) { o += sub[i].first; std::copy(text.begin() + (long)t, text.begin() + (long)(t + sub[i].second), b.begin() + (long)(base + o)); t += sub[i].second; o += sub[i].second; } } at += size; }
    REF_NEED(!c.left(), W << " senc has bytes more"); { ref::Cur z = tf.need("saiz").cur(); ref::full(z, v, fl); if (fl & 1) z.u(8); uint64_t d = z.u(1), m = z.u(4); PBT_EQ((ull)m, (ull)n, W << " samples of saiz"); for (size_t k = 0; k < n; ++k) { uint64_t s = d ? d : z.u(1); PBT_EQ((ull)s, (ull)info[k], W << " size of the information of sample " << k); } REF_NEED(!z.left(), W << " saiz has bytes more"); } { ref::Cur z = tf.need("saio").cur(); ref::full(z, v, fl); if (fl & 1) z.u(8); PBT_EQ((ull)z.u(4), 1ull, W << " entries of saio"); uint64_t o = z.u(v ? 8 : 4); PBT_EQ((ull)(mf->off + o), (ull)(se.off + se.head + 8), W << " place of the information"); REF_NEED(!z.left(), W << " saio has bytes more"); } }
// the protection of one adaptation set in the manifest
static inline void check_protection(const Xml& a, const Xml& root, bool video, const Enc& e, const std::string& W) {
    auto ps = a.all("ContentProtection"); if (!e.track(video)) { PBT_CHECK(ps.empty(), W << " is protected"); return; } std::string kid = hexs(e.kid); kid = kid.substr(0, 8) + "-" + kid.substr(8, 4) + "-" + kid.substr(12, 4) + "-" + kid.substr(16, 4) + "-" + kid.substr(20); std::map<std::string, const Xml*> by; for (auto* p : ps) { PBT_CHECK(by.insert({ lower(p->get("schemeIdUri")), p }).second, W << " scheme twice"); if (p->at.count("cenc:default_KID")) PBT_CHECK(lower(p->get("cenc:default_KID")) == kid, W << " key id " << p->get("cenc:default_KID") << " expected " << kid); } if (ps.size()) { PBT_CHECK(root.get("xmlns:cenc") == "urn:mpeg:cenc:2013" && root.get("xmlns:mspr") == "urn:microsoft:playready", W << " name spaces"); }
    auto box = [&](const uint8_t* sys) { for (auto& b : e.pssh) { Bytes s, d; std::vector<Bytes> k; read_pssh(b, s, k, d, W); if (s == Bytes(sys, sys + 16)) return std::make_pair(b, d); } return std::make_pair(Bytes(), Bytes()); }; std::vector<Bytes> got; const char *PR = "urn:uuid:9a04f079-9840-4286-ab92-e65be0885f95", *WV = "urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed", *CK = "urn:uuid:1077efec-c0b2-4d02-ace3-3c1e52e2fb4b", *MP = "urn:mpeg:dash:mp4protection:2011"; PBT_CHECK(by.count(PR) == !e.url.empty() && by.count(WV) == !e.wv.empty() && by.count(CK) == e.clear, W << " systems of the manifest"); for (auto& x : by) PBT_CHECK(x.first == PR || x.first == WV || x.first == CK || x.first == MP, W << " scheme " << x.first); if (by.count(MP)) PBT_CHECK(by[MP]->get("value") == "cenc", W << " scheme value");
    if (by.count(PR)) { Bytes pro = b64(by[PR]->one("mspr:pro").text, W + " pro"); check_pro(pro, e, W + " PlayReady"); if (e.pssh.size()) PBT_CHECK(pro == box(SYS_PR).second, W << " PlayReady object"); } if (by.count(WV) && e.pssh.size()) PBT_CHECK(b64(by[WV]->one("cenc:pssh").text, W + " pssh") == box(SYS_WV).first, W << " Widevine header"); if (by.count(CK) && e.pssh.size()) PBT_CHECK(b64(by[CK]->one("cenc:pssh").text, W + " pssh") == box(SYS_CK).first, W << " clear key header"); }
// JSON web key set of the clear key system (RFC 7517, W3C encrypted media extensions)
static inline void check_json(const Bytes& b, const Enc& e, const std::string& W) { std::string t(b.begin(), b.end()), z; std::map<std::string, std::string> f; size_t p = 0; auto ws = [&] { while (p < t.size() && strchr(" \t\r\n", t[p])) ++p; }; auto eat = [&](char c) { ws(); REF_NEED(p < t.size() && t[p] == c, W << ": " << c << " expected at " << p << " of " << t); ++p; }; auto str = [&] { eat('"'); std::string r; while (p < t.size() && t[p] != '"') { REF_NEED((uint8_t)t[p] >= 32 && t[p] != '\\', W << " character in a string"); r += t[p++]; } ++p; return r; };
    eat('{'); REF_NEED(str() == "keys", W << " keys"); eat(':'); eat('['); eat('{'); for (;;) { std::string k = str(); eat(':'); REF_NEED(f.insert({ k, str() }).second, W << " twice"); ws(); if (p < t.size() && t[p] == ',') { ++p; continue; } break; } eat('}'); eat(']'); eat('}'); ws(); REF_NEED(p >= t.size(), W << " more bytes"); PBT_CHECK(b64(f["kid"], W, true) == e.kid, W << " key id " << f["kid"]); PBT_CHECK(b64(f["k"], W, true) == e.key, W << " key " << f["k"]); }
// the fragments start with vectors of 64 random bits: over many of them no bit stays the same
static inline void check_random(const Enc& e) { if (e.firsts.size() < 60) return; for (unsigned b = 0; b < 64; ++b) { size_t one = 0; for (auto& v : e.firsts) one += v[b / 8] >> (7 - b % 8) & 1; PBT_CHECK(one && one < e.firsts.size(), "bit " << b << " of the first vector is the same in all " << e.firsts.size() << " fragments"); } }
