// time codes: arithmetic, packed form, text, and the 80 bit serial code (C01)
#include "common.h"
#include <mg/alxstring.h>
#include <mg/media/WaveParser.h>

struct Ref { uint32_t h, m, s, f; int64_t total() const { return ((int64_t)(h * 60 + m) * 60 + s) * 25 + f; } };
static Ref ref_of(int64_t t) { Ref r; r.f = t % 25; t /= 25; r.s = t % 60; t /= 60; r.m = t % 60; t /= 60; r.h = t % 24; return r; }
static uint32_t part(pbt::Source& s, uint32_t n) { return (uint32_t)(s.chance(30) ? (s.chance(50) ? 0 : n - 1) : s.range(0, n - 1)); }
static Ref gen(pbt::Source& s) { Ref r; r.h = part(s, 24); r.m = part(s, 60); r.s = part(s, 60); r.f = part(s, 25); return r; }
static std::string text(const Ref& r) { std::ostringstream o; o << r.h << ":" << r.m << ":" << r.s << ":" << r.f; return o.str(); }
static std::string text(TC& r) { std::ostringstream o; o << r._dwHours << ":" << r._dwMinutes << ":" << r._dwSeconds << ":" << r._dwFrames; return o.str(); }
static bool same(TC& t, const Ref& r) { return t._dwHours == r.h && t._dwMinutes == r.m && t._dwSeconds == r.s && t._dwFrames == r.f; }
static TC make(const Ref& r) { return TC((DWORD)r.f, (DWORD)r.s, (DWORD)r.m, (DWORD)r.h); }
static const int64_t DAY = 24LL * 3600 * 25;

PBT_PROP(timecode_arithmetic, 3, 0) {
    Ref a = gen(s), b = gen(s); std::ostringstream log; log << text(a); TC t = make(a); unsigned n = 0, carries = 0;
    PBT_CHECK(same(t, a) && t.isValid(), "a time code of " << text(a) << " is " << text(t));
    while (s.more(5) && n < 40) { ++n; Ref x = n == 1 ? b : gen(s); TC tx = make(x);
        switch (s.pick({ 4, 4, 3, 2, 2 })) {
        case 0: { TC r = t + tx; Ref e = ref_of((a.total() + x.total()) % DAY); log << " +" << text(x); if (a.f + x.f >= 25 || a.s + x.s >= 60 || a.m + x.m >= 60) ++carries; PBT_CHECK(same(r, e), log.str() << " is " << text(r) << " expected " << text(e)); t = r; a = e; break; }
        case 1: { bool swap = x.total() > a.total(); Ref big = swap ? x : a, less = swap ? a : x; TC tb = make(big), tl = make(less); TC r = tb - tl; Ref e = ref_of(big.total() - less.total()); log << " " << text(big) << "-" << text(less); if (big.f < less.f || big.s < less.s || big.m < less.m) ++carries; PBT_CHECK(same(r, e), log.str() << " is " << text(r) << " expected " << text(e)); t = r; a = e; break; }
        case 2: { unsigned k = (unsigned)s.small(1, 60); log << " ++x" << k; Ref e = ref_of((a.total() + k) % DAY); if (e.s != a.s) ++carries; for (unsigned i = 0; i < k; ++i) ++t; PBT_CHECK(same(t, e), log.str() << " is " << text(t) << " expected " << text(e)); a = e; break; }
        case 3: { int64_t fr = (int64_t)s.edgy(0, DAY - 1), extra = (int64_t)s.edgy(0, 399999); log << " +" << fr << "f"; Ref e = ref_of((a.total() + fr) % DAY); TC r = t.SumHnano(fr * 400000 + extra); ++carries; PBT_CHECK(same(r, e), log.str() << "+" << extra << "hns is " << text(r) << " expected " << text(e)); t = r; a = e; break; }
        default: { bool eq = a.total() == x.total(); PBT_EQ(t == tx, eq, text(a) << " equals " << text(x)); PBT_EQ(t != tx, !eq, text(a) << " differs from " << text(x)); PBT_EQ(t.IsZero(), a.total() == 0, text(a) << " is zero"); TC c(t); PBT_CHECK(c == t, "a copy of " << text(a) << " differs"); }
        } PBT_CHECK(t.isValid(), log.str() << " is not valid: " << text(t)); }
    if (carries) { s.label("carry"); if (n > 1) s.nontrivial(); } if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(timecode_forms, 2, 0) {
    Ref a = gen(s); TC t = make(a); uint32_t packed = t; auto bcd = [](uint32_t v) { return (v / 10) << 4 | v % 10; }; uint32_t expect = bcd(a.h) << 24 | bcd(a.m) << 16 | bcd(a.s) << 8 | bcd(a.f);
    PBT_EQ(packed, expect, "packed form of " << text(a)); TC back((uint32_t)packed); PBT_CHECK(same(back, a), "packed " << std::hex << packed << " read back as " << text(back)); PBT_CHECK(back.isValid(), "not valid " << text(back));
    int64_t fr = a.total() * 400000 + (int64_t)s.edgy(0, 399999); TC time((int64_t)fr); PBT_CHECK(same(time, a), "time of " << fr << " hns is " << text(time) << " expected " << text(a));
    Ref bad = a; switch (s.pick({ 1, 1, 1, 1 })) { case 0: bad.h = 24 + (uint32_t)s.small(0, 1000); break; case 1: bad.m = 60 + (uint32_t)s.small(0, 1000); break; case 2: bad.s = 60 + (uint32_t)s.small(0, 1000); break; default: bad.f = 25 + (uint32_t)s.small(0, 1000); } TC tb((DWORD)bad.f, (DWORD)bad.s, (DWORD)bad.m, (DWORD)bad.h); PBT_CHECK(!tb.isValid(), "a time code of " << text(bad) << " is valid");
    char buf[64]; memset(buf, 'x', sizeof buf); DWORD size = 40; char sep[2] = { (char)s.range(33, 126), 0 }; if (sep[0] == '%') sep[0] = ':'; t.GetTCHAR(buf, &size, sep); char ref[64]; snprintf(ref, sizeof ref, "%2u%s%2u%s%2u%s%2u", a.h, sep, a.m, sep, a.s, sep, a.f); PBT_CHECK(!strcmp(buf, ref), "text '" << buf << "' expected '" << ref << "'"); for (size_t i = 40; i < sizeof buf; ++i) PBT_CHECK(buf[i] == 'x', "the text was written behind its room");
    if (a.f > 9 || a.s > 9 || a.m > 9 || a.h > 9) s.nontrivial(); if (s.want_sample()) s.sample(text(a));
}
// SMPTE 12M serial code words, least significant bit first, with arbitrary user bits, after arbitrary bits
PBT_PROP(timecode_serial, 3, 0) {
    CTimeCode c; std::vector<int> history; std::ostringstream log; unsigned words = 0; auto put = [&](int b) { c.push(b); history.push_back(b); PBT_EQ((int)c.last(), b, "last bit pushed"); uint32_t chk = 0; for (size_t i = history.size() > 16 ? history.size() - 16 : 0; i < history.size(); ++i) chk = chk << 1 | history[i]; PBT_EQ(c.IsValid(), (chk & 0xffff) == 0x3ffd, "valid after " << history.size() << " bits"); };
    while (s.more(4) && words < 12) { if (s.chance(30)) { unsigned n = (unsigned)s.small(0, 130); log << " junk" << n; for (unsigned i = 0; i < n; ++i) put(s.chance(50)); } if (s.chance(8)) { c.ReSet(); history.clear(); log << " reset"; }
        Ref r = gen(s); int bits[80]; Bytes u = s.blob(10); switch (s.pick({ 3, 1, 1 })) { case 0: break; case 1: u.assign(10, 0); break; default: u.assign(10, 0xff); } for (int i = 0; i < 80; ++i) bits[i] = u[i / 8] >> (i % 8) & 1;
        auto field = [&](int at, int n, uint32_t v) { for (int i = 0; i < n; ++i) bits[at + i] = v >> i & 1; };
        field(0, 4, r.f % 10); field(8, 2, r.f / 10); field(16, 4, r.s % 10); field(24, 3, r.s / 10); field(32, 4, r.m % 10); field(40, 3, r.m / 10); field(48, 4, r.h % 10); field(56, 2, r.h / 10); for (int i = 0; i < 16; ++i) bits[64 + i] = 0x3ffd >> (15 - i) & 1;
        for (int i = 0; i < 80; ++i) put(bits[i]); ++words; log << " " << text(r); PBT_CHECK(c.IsValid(), "a complete word is not recognized," << log.str()); TC t = c.GetTimeCode(); PBT_CHECK(same(t, r), "word" << log.str() << " read as " << text(t)); }
    if (words > 1) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}
