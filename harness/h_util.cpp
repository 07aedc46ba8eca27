// base64, checksum, time codes, calendar, media queues, joins, audio clock, file system helpers (U01..U08)
#include "common.h"
#include <mg/alxstring.h>
#include <mg/core/ctime.h>
#include <mg/core/util.h>
#include <b64/include/cencode.h>
#include <b64/include/cdecode.h>
#include <mg/media/wincrc.h>
#include <mg/media/MediaJoin.h>
#define MAX_STREAM 10
#include <mg/media/aac_time_fix.h>
#include <mg/media/media_queue.h>
#include <atomic>
#include <cmath>
#include <set>
#include <map>
#include <dlfcn.h>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
using namespace mg::core;

// the file system calls of the code under test reach nothing outside of the scratch directory
static std::string scratch_root() { const char* t = getenv("VERIF_TMP"); return t ? t : "/tmp/hb/t"; }
static bool inside(const char* p) { std::string r = scratch_root(); if (!p || p[0] != '/') return false; std::string q = p; return q.compare(0, r.size(), r) == 0 && q.find("/..") == std::string::npos; }
static std::atomic<unsigned> refused{ 0 };
extern "C" int remove(const char* p) { static int (*f)(const char*) = (int (*)(const char*))dlsym(RTLD_NEXT, "remove"); if (!inside(p)) { ++refused; errno = EACCES; return -1; } return f(p); }
extern "C" int mkdir(const char* p, mode_t m) { static int (*f)(const char*, mode_t) = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, "mkdir"); if (!inside(p)) { ++refused; errno = EACCES; return -1; } return f(p, m); }

// a clock that advances with every reading, when a case asks for it
static thread_local int64_t fake_ns = 0, fake_step = 0;
extern "C" int clock_gettime(clockid_t id, timespec* t) { static int (*f)(clockid_t, timespec*) = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime"); if (fake_step && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { t->tv_sec = fake_ns / 1000000000; t->tv_nsec = fake_ns % 1000000000; fake_ns += fake_step; return 0; } return f(id, t); }
extern "C" time_t time(time_t* o) noexcept { timespec t; clock_gettime(CLOCK_REALTIME_COARSE, &t); if (o) *o = t.tv_sec; return t.tv_sec; }

// ---------------------------------------------------------------- U01 base64
static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref64(const Bytes& b) { std::string o; for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += i + 1 < b.size() ? B64[v >> 6 & 63] : '='; o += i + 2 < b.size() ? B64[v & 63] : '='; } return o; }
static Bytes gen_bytes(pbt::Source& s, size_t big) { size_t n = (size_t)(s.chance(6) ? s.edgy(0, big) : s.small(0, 60)); if (n > 600 && s.chance(70)) n = n % 600; switch (s.pick({ 5, 3, 1, 1 })) { case 0: return s.blob(n); case 1: { Bytes b(n); for (auto& x : b) x = s.byte(); return b; } case 2: return Bytes(n, 0); default: return Bytes(n, 0xff); } }
PBT_PROP(base64, 3, 0) {
    Bytes in = gen_bytes(s, 5000); std::ostringstream log; log << hex(in, 30) << " |"; base64_encodestate es; base64_init_encodestate(&es); std::string code; unsigned pieces = 0, foreign = 0; unsigned avg = (unsigned)s.small(1, 40);
    for (size_t at = 0; at < in.size() || (pieces < 3 && s.chance(20)); ++pieces) {
        size_t n = (size_t)s.small(0, std::min<size_t>(in.size() - at, s.chance(10) ? in.size() : avg)); if (pieces > in.size() + 5) n = in.size() - at; log << " " << n;
        // room: the whole groups that are complete now
        size_t room = (at + n) / 3 * 4 + ((at + n) % 3 ? (at + n) % 3 : 0) - (at / 3 * 4 + at % 3); std::unique_ptr<char[]> o(new char[room]); std::unique_ptr<char[]> src(new char[n]); if (n) memcpy(src.get(), &in[at], n);
        int w = base64_encode_block(src.get(), (int)n, o.get(), &es); PBT_EQ((size_t)w, room, "characters written for a piece, " << log.str()); code.append(o.get(), w); at += n; }
    { size_t room = in.size() % 3 == 0 ? 0 : in.size() % 3 == 1 ? 3 : 2; std::unique_ptr<char[]> o(new char[room]); int w = base64_encode_blockend(o.get(), &es); PBT_EQ((size_t)w, room, "characters of the end, " << log.str()); code.append(o.get(), w); }
    PBT_CHECK(code == ref64(in), "encoded " << log.str() << " as " << code.substr(0, 120) << " expected " << ref64(in).substr(0, 120));
    // characters outside of the alphabet in between
    std::string dirty; unsigned rate = (unsigned)s.pick({ 5, 3, 1 }) * 20; for (size_t i = 0; i <= code.size(); ++i) { while (rate && s.chance(rate)) { char c; do c = (char)(s.chance(30) ? "{*,-.:;<=>?@[`|~\xaa\xff\x80\x2a"[s.range(0, 19)] : (char)s.byte()); while (c && strchr(B64, c)); dirty += c; ++foreign; } if (i < code.size()) dirty += code[i]; }
    base64_decodestate ds; base64_init_decodestate(&ds); Bytes out; unsigned dp = 0; log << " ||";
    for (size_t at = 0; at < dirty.size(); ++dp) { size_t n = (size_t)s.small(0, std::min<size_t>(dirty.size() - at, s.chance(10) ? dirty.size() : avg)); if (dp > dirty.size() + 5) n = dirty.size() - at; log << " " << n;
        size_t good0 = 0, good1 = 0; for (size_t i = 0; i < at + n; ++i) if (dirty[i] && strchr(B64, dirty[i])) { ++good1; if (i < at) ++good0; }
        size_t room = good1 * 6 / 8 - good0 * 6 / 8; std::unique_ptr<char[]> o(new char[room + 1]); std::unique_ptr<char[]> src(new char[n]); if (n) memcpy(src.get(), &dirty[at], n);
        size_t w = base64_decode_block(src.get(), (int)n, o.get(), &ds); PBT_EQ(w, room, "bytes decoded from a piece, " << log.str()); out.insert(out.end(), o.get(), o.get() + w); at += n; }
    PBT_CHECK(out == in, "decoded to " << hex(out) << " expected " << hex(in) << " pieces " << log.str());
    if (foreign) s.label("foreign-characters"); if (pieces > 1) s.label("encoded-in-pieces"); if (in.size() > 2 && (pieces > 1 || dp > 1)) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(base64_value, 1, 0) {
    int c = (int)s.range(0, 255); const char* p = c ? strchr(B64, c) : nullptr; int v = (signed char)base64_decode_value((char)c); if (p) PBT_EQ(v, (int)(p - B64), "value of character " << c); else PBT_CHECK(v < 0, "character " << c << " outside of the alphabet has the value " << v);
    int n = (int)s.range(0, 63); PBT_EQ(base64_encode_value((char)n), B64[n], "character of " << n); s.nontrivial(); if (s.want_sample()) s.sample(std::to_string(c));
}

// ---------------------------------------------------------------- U02 checksum
static uint32_t mpegcrc(const uint8_t* p, size_t n, uint32_t c = 0xffffffffu) { for (size_t i = 0; i < n; ++i) { c ^= (uint32_t)p[i] << 24; for (int k = 0; k < 8; ++k) c = c & 0x80000000u ? c << 1 ^ 0x04C11DB7u : c << 1; } return c; }
PBT_PROP(checksum, 1, 0) {
    Bytes in = gen_bytes(s, 4000); CWinCrc c; std::ostringstream log; log << hex(in, 30); size_t mis = (size_t)s.range(0, 7); std::unique_ptr<uint8_t[]> e(new uint8_t[in.size() + mis]); if (!in.empty()) memcpy(e.get() + mis, in.data(), in.size()); const uint8_t* p = e.get() + mis;
    uint32_t want = mpegcrc(p, in.size()), got = c.crc_32(p, (unsigned)in.size()); PBT_EQ(got, want, "checksum of " << log.str());
    unsigned pieces = 0; uint32_t st = 0xffffffffu, last = 0xffffffffu; for (size_t at = 0; at < in.size(); ++pieces) { size_t n = (size_t)s.small(1, in.size() - at); last = c.crc_32(p + at, (unsigned)n, st); st = __builtin_bswap32(last); at += n; log << " " << n; } PBT_EQ(last, want, "checksum in pieces of " << log.str());
    Bytes full = in; for (int i = 0; i < 4; ++i) full.push_back((uint8_t)(want >> (24 - 8 * i))); PBT_EQ(c.crc_32(full.data(), (unsigned)full.size()), 0u, "residue of " << log.str());
    if (!full.empty()) { Bytes bad = full; size_t at = (size_t)s.range(0, full.size() * 8 - 1), len = (size_t)s.small(1, std::min<size_t>(32, full.size() * 8 - at)); uint32_t pat = (uint32_t)s.edgy(0, ~0u); for (size_t i = 0; i < len; ++i) if (i == 0 || i == len - 1 || pat >> i & 1) bad[(at + i) / 8] ^= 0x80 >> (at + i) % 8; PBT_CHECK(c.crc_32(bad.data(), (unsigned)bad.size()) != 0, "burst of " << len << " bits at " << at << " not detected in " << log.str()); }
    if (pieces > 1) { s.label("pieces"); s.nontrivial(); } if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- U03 time codes
static std::string tc(int64_t ms) { char b[64]; snprintf(b, sizeof b, "%02lld:%02lld:%02lld.%03lld", (long long)(ms / 3600000), (long long)(ms / 60000 % 60), (long long)(ms / 1000 % 60), (long long)(ms % 1000)); return b; }
PBT_PROP(timecode, 1, 0) {
    int64_t t = (int64_t)s.edgy(0, INT64_MAX); if (s.chance(60)) t = (int64_t)s.edgy(0, 4000) * (int64_t[]){ 1, 10000, 10000000, 600000000, 36000000000ll }[s.range(0, 4)] + s.irange(-10001, 10001); if (t < 0) t = -t;
    HundredNano h(t); PBT_EQ((int64_t)h, t, "value of " << t); PBT_EQ(h.H(), t / 36000000000ll, "hours of " << t); PBT_EQ(h.M(), t / 600000000ll % 60, "minutes of " << t); PBT_EQ(h.S(), t / 10000000ll % 60, "seconds of " << t); PBT_EQ(h.ML(), t / 10000ll % 1000, "milliseconds of " << t);
    PBT_CHECK(std::string((char*)h.ToString()) == tc(t / 10000), "text of " << t << " is " << (char*)h.ToString() << " expected " << tc(t / 10000));
    bool neg = s.chance(40); std::string w = (neg && t ? "-" : "") + tc(t / 10000); PBT_CHECK(std::string((char*)hns(neg ? -t : t)) == w, "text of " << (neg ? -t : t) << " is " << (char*)hns(neg ? -t : t) << " expected " << w);
    HundredNano r(h.H(), h.M(), h.S(), h.ML()); PBT_EQ((int64_t)r, t / 10000 * 10000, "rebuilt from the parts of " << t); PBT_EQ((int64_t)HundredNano(r.H(), r.M(), r.S(), r.ML()), (int64_t)r, "rebuilt twice");
    // parts outside of their usual range, negative ones included
    int64_t H = s.irange(-200000, 200000), M = s.irange(-200000, 200000), S = s.irange(-300000, 300000), ML = s.irange(-4000000, 4000000); PBT_EQ((int64_t)HundredNano(H, M, S, ML), H * 36000000000ll + M * 600000000ll + S * 10000000ll + ML * 10000ll, "built from " << H << ":" << M << ":" << S << "." << ML);
    // order: the parts compare like the times
    int64_t u = (int64_t)s.edgy(0, INT64_MAX); HundredNano g(u); auto key = [](HundredNano& x) { return std::make_tuple(x.H(), x.M(), x.S(), x.ML()); }; int64_t a = t / 10000, b = u / 10000; PBT_CHECK((a < b) == (key(h) < key(g)) && (a == b) == (key(h) == key(g)), "order of " << t << " and " << u);
    if (t % 36000000000ll) s.nontrivial(); if (neg) s.label("negative"); if (s.want_sample()) s.sample(w);
}

// ---------------------------------------------------------------- U04 calendar
static int64_t civil(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static int mdays(int y, int m) { static const int t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : t[m - 1]; }
struct Date { int y, mo, d, h, mi, se, ms; int64_t total() const { return ((civil(y, mo, d) * 24 + h) * 60 + mi) * 60000ll + se * 1000 + ms; } std::string date() const { char b[48]; snprintf(b, sizeof b, "%04d-%02d-%02d", y, mo, d); return b; } std::string time() const { char b[48]; snprintf(b, sizeof b, "%02d:%02d:%02d", h, mi, se); return b; } std::string milli() const { char b[16]; snprintf(b, sizeof b, "%03d", ms); return b; } std::string text() const { return date() + " " + time() + "." + milli(); } };
static Date gen_date(pbt::Source& s) { Date d; static const int ys[] = { 1970, 1904, 2000, 1999, 2001, 2038, 2016, 1900, 2100, 1601, 1969, 2262 }; d.y = s.chance(50) ? ys[s.range(0, 11)] : 1970 + (int)s.irange(-350, 1000); d.mo = 1 + (int)s.edgy(0, 11); d.d = 1 + (int)s.edgy(0, mdays(d.y, d.mo) - 1); d.h = (int)s.edgy(0, 23); d.mi = (int)s.edgy(0, 59); d.se = (int)s.edgy(0, 59); d.ms = (int)s.edgy(0, 999); return d; }
static std::unique_ptr<Ctime> make_date(pbt::Source& s, Date& d, std::string& how, bool local = false) {
    char buf[80]; switch (local ? 0 : s.pick({ 4, 2, 1, 1 })) {
    case 1: d.h = d.mi = d.se = d.ms = 0; how = "parts"; return std::unique_ptr<Ctime>(new Ctime((uint16_t)d.y, (uint16_t)d.mo, (uint16_t)d.d));
    case 2: d.ms = 0; how = "text T"; snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02d", d.y, d.mo, d.d, d.h, d.mi, d.se); return std::unique_ptr<Ctime>(new Ctime(buf, false, "%4d-%2d-%2dT%2d:%2d:%2d"));
    case 3: d.h = d.mi = d.se = d.ms = 0; how = "date text"; return std::unique_ptr<Ctime>(new Ctime(d.date().c_str(), false));
    default: how = "text"; return std::unique_ptr<Ctime>(new Ctime(d.text().c_str(), local)); } }
PBT_PROP(calendar, 3, 0) {
    Date a = gen_date(s), b = gen_date(s); std::string ha, hb; if (s.chance(40)) { b = a; switch (s.range(0, 4)) { case 0: b.ms = (int)s.edgy(0, 999); break; case 1: b.se = (int)s.edgy(0, 59); break; case 2: b.h = (int)s.edgy(0, 23); break; case 3: b.d = 1 + (int)s.edgy(0, mdays(b.y, b.mo) - 1); break; } }
    // stack and heap contents vary
    { volatile uint8_t junk[4096]; uint8_t f = s.byte(); for (size_t i = 0; i < sizeof junk; ++i) junk[i] = f; }
    auto A = make_date(s, a, ha), B = make_date(s, b, hb); std::ostringstream log; log << ha << " " << a.text() << " , " << hb << " " << b.text(); s.say(log.str());
    auto one = [&](const Ctime& c, const Date& d) {
        PBT_EQ(c.TotalMilliseconds(), d.total(), "milliseconds since 1970 of " << d.text() << " in " << log.str()); PBT_EQ(c.TotalHNano(), d.total() * 10000, "time of " << d.text()); int64_t add = s.irange(-4000000000000ll, 4000000000000ll); PBT_EQ(c.AddMilliSeconds(add), d.total() + add, "adding " << add << " to " << d.text());
        PBT_CHECK(std::string((char*)c.ToDateString()) == d.date(), "date of " << log.str() << " printed as " << (char*)c.ToDateString()); PBT_CHECK(std::string((char*)c.ToTimeString()) == d.time(), "time of " << log.str() << " printed as " << (char*)c.ToTimeString()); PBT_CHECK(std::string((char*)c.get_MillisecondsString()) == d.milli(), "milliseconds of " << log.str() << " printed as " << (char*)c.get_MillisecondsString());
        std::string x = (char*)c.ToXml(); PBT_CHECK(x == d.date() + "T" + d.time() + "." + d.milli() + "Z", "XML of " << log.str() << " is " << x); Ctime back(x.c_str(), false, "%4d-%2d-%2dT%2d:%2d:%2d.%3d"); PBT_EQ(back.TotalHNano(), c.TotalHNano(), "read back from " << x);
        PBT_EQ(c.get_Time().wYear, d.y, "year of " << log.str()); PBT_EQ(c.get_Time().wMonth, d.mo, "month"); PBT_EQ(c.get_Time().wDay, d.d, "day"); PBT_EQ(c.GetUTCOffset(), (int64_t)0, "offset of " << log.str()); };
    one(*A, a); one(*B, b);
    auto rel = [&](const Ctime& x, const Ctime& y, int64_t d) { PBT_EQ(x.MilliSeconds(&y.get_Time()), d, "difference in milliseconds of " << log.str()); PBT_EQ(x.Seconds(&y.get_Time()), d / 1000, "in seconds of " << log.str()); PBT_EQ(x.Minutes(&y.get_Time()), d / 60000, "in minutes of " << log.str()); PBT_EQ(x.Hours(&y.get_Time()), d / 3600000, "in hours of " << log.str()); PBT_EQ(x.Days(&y.get_Time()), d / 86400000, "in days of " << log.str()); };
    rel(*A, *B, a.total() - b.total()); rel(*B, *A, b.total() - a.total());
    if (a.total() < 0 || b.total() < 0) s.label("before-1970"); if (a.total() < b.total()) s.label("negative-difference"); if (a.total() != b.total()) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(clock_now, 1, 0) {
    // time passes between any two readings of the clock
    struct Fake { ~Fake() { fake_step = 0; } } restore; Date nd = gen_date(s); if (nd.y < 1971 || nd.y > 2200) nd.y = 2026, nd.d = std::min(nd.d, 28); fake_step = 100 * (int64_t)s.edgy(1, 30000000); fake_ns = nd.total() * 1000000 + (s.chance(50) ? 1000000000 - (int64_t)s.small(1, 300) * fake_step / 100 : (int64_t)s.edgy(0, 999999)); if (fake_ns < 0) fake_ns = 0;
    bool local = s.chance(50); int64_t t0 = fake_ns / 100; Ctime n(local); int64_t t1 = fake_ns / 100, v = n.TotalHNano(); PBT_CHECK(v >= t0 && v < t1, "now is " << v << " outside of " << t0 << ".." << t1);
    auto consistent = [&](const Ctime& c, const char* what) { time_t f = (time_t)(c.TotalHNano() / 10000000); tm g; gmtime_r(&f, &g); PBT_EQ(c.get_Time().wYear, g.tm_year + 1900, "year of " << what); PBT_EQ(c.get_Time().wMonth, g.tm_mon + 1, "month of " << what); PBT_EQ(c.get_Time().wDay, g.tm_mday, "day of " << what); PBT_EQ(c.get_Time().wDayOfWeek, g.tm_wday, "day of the week of " << what);
        char b[80]; strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S", &g); char w[100]; snprintf(w, sizeof w, "%s.%03dZ", b, (int)(c.TotalHNano() / 10000 % 1000)); std::string x = (char*)c.ToXml(); PBT_CHECK(x == w, what << " is " << x << " expected " << w << " (" << c.TotalHNano() << ", clock step " << fake_step << " ns)"); };
    consistent(n, "now"); { Ctime again(!local); again.ResetToNow(local); consistent(again, "now, reset"); }
    Date d = gen_date(s); std::string how; auto D = make_date(s, d, how); { int64_t df = v - d.total() * 10000; PBT_EQ(n.MilliSeconds(&D->get_Time()), df / 10000, "milliseconds since " << d.text() << " at " << v); PBT_EQ(D->MilliSeconds(&n.get_Time()), -df / 10000, "milliseconds from now to " << d.text() << " at " << v); } int64_t sec = n.Seconds(&D->get_Time()), want = v / 10000000 - (d.total() - (d.total() % 1000 + 1000) % 1000) / 1000; PBT_CHECK(std::llabs(sec - want) <= 1, "seconds since " << d.text() << ": " << sec << " expected " << want); PBT_CHECK(std::llabs(D->Seconds(&n.get_Time()) + want) <= 1, "seconds from now to " << d.text());
    { int64_t a = fake_ns / 100, days = D->Days(), b = fake_ns / 100, dt = d.total() * 10000; PBT_CHECK(days >= (a - dt) / 864000000000ll - 1 && days <= (b - dt) / 864000000000ll + 1, "days since " << d.text() << ": " << days); a = fake_ns / 100; int64_t h = D->Hours(); b = fake_ns / 100; PBT_CHECK(h >= (a - dt) / 36000000000ll - 1 && h <= (b - dt) / 36000000000ll + 1, "hours since " << d.text() << ": " << h); }
    // running clock
    Ctime c(false); int64_t b0 = c.TotalHNano(); fake_ns += (int64_t)s.edgy(0, 100000000000ll); bool reset = s.chance(50); int64_t r0 = fake_ns / 100; uint64_t el = clock_elapsed(c, reset); int64_t r1 = fake_ns / 100; PBT_CHECK((int64_t)el >= r0 - b0 && (int64_t)el < r1 - b0, "elapsed " << el << " expected " << r0 - b0 << ".." << r1 - b0); if (reset) { PBT_CHECK(c.TotalHNano() >= r0 && c.TotalHNano() < r1, "restarted clock"); consistent(c, "restarted clock"); } else PBT_EQ(c.TotalHNano(), b0, "clock that was not restarted");
    s.nontrivial(); if (s.want_sample()) s.sample(d.text());
}
PBT_PROP(time_zone, 1, 0) {
    // zones of a constant offset
    int off = (int)s.irange(-12 * 4, 14 * 4) * 15; char tz[40]; snprintf(tz, sizeof tz, "ZZZ%s%02d:%02d", off > 0 ? "-" : "+", std::abs(off) / 60, std::abs(off) % 60); setenv("TZ", tz, 1); tzset(); Date d = gen_date(s); std::string how;
    struct Restore { ~Restore() { setenv("TZ", "UTC", 1); tzset(); } } restore;
    PBT_EQ(Ctime::GetLocalOffset(), (int64_t)off, "offset of " << tz); auto A = make_date(s, d, how, true); PBT_EQ(A->GetUTCOffset(), (int64_t)off, "offset of a date in " << tz); PBT_EQ(A->TotalMilliseconds(), d.total() - (int64_t)off * 60000, "time of " << d.text() << " in " << tz);
    char z[16]; snprintf(z, sizeof z, "%c%02d:%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60); std::string w = d.date() + "T" + d.time() + "." + d.milli() + (off ? z : "Z"), x = (char*)A->ToXml(); PBT_CHECK(x == w, "XML of " << d.text() << " in " << tz << " is " << x << " expected " << w);
    Ctime l(true), u(false); PBT_EQ(l.GetUTCOffset(), (int64_t)off, "offset of now"); PBT_EQ(u.GetUTCOffset(), (int64_t)0, "offset of the universal time"); PBT_CHECK(std::llabs(l.TotalHNano() - u.TotalHNano()) < 600000000ll, "local and universal now"); std::string ux = (char*)u.ToXml(); PBT_CHECK(ux[ux.size() - 1] == 'Z', "zone of the universal time " << ux);
    if (off) s.nontrivial(); if (off < 0) s.label("west"); if (off % 60) s.label("fraction-of-an-hour"); if (s.want_sample()) s.sample(w);
}

// ---------------------------------------------------------------- U05 queues
namespace { struct Item { uint64_t serial; uint32_t check; };
struct FQ : cfixed_queue<Item> { FQ(bool del) : cfixed_queue<Item>(del) {} void age(int by) { get_queue_heder()->total_written += by; get_queue_heder()->total_deleted += by; } int free_space() { return get_head_space() + get_tail_space(); } };
struct GQ : grow_queue<Item> { void age(int by) { get_queue_heder()->total_written += by; get_queue_heder()->total_deleted += by; } int full() { return get_queue_heder()->full_size; } };
struct QE { Item t; Bytes b; }; }
template<class Q> static void queue_case(pbt::Source& s, Q& q, int mode, size_t cap) {   // mode 0 keeps, 1 deletes, 2 grows
    q.allocate(true, (int)cap); std::deque<QE> m; std::ostringstream log; log << "capacity " << cap << (mode == 2 ? " grows" : mode ? " deletes" : " keeps") << "; "; uint64_t serial = 1; unsigned ops = 0, fails = 0, drops = 0, wraps = 0; size_t high = s.chance(30) ? cap + 40 : cap / 2 + 1; const size_t HD = 24, IT = 12 + sizeof(Item);
    if (s.chance(20)) { int by = INT32_MAX - 10 - (int)s.range(0, 40); q.age(by); log << "aged; "; s.label("counter-limit"); }
    auto used = [&] { size_t u = 0; for (auto& e : m) u += IT + e.b.size(); return u; };
    auto front = [&] { int n = -1; BYTE* p = 0; const Item* t = q.pick_next(&n, &p); PBT_EQ(t->serial, m.front().t.serial, "element in front after " << log.str()); PBT_EQ((size_t)n, m.front().b.size(), "size of the front element after " << log.str()); PBT_CHECK(n == 0 || !memcmp(p, m.front().b.data(), n), "content of the front element after " << log.str()); };
    while (s.more(30) && ops++ < 120) {
        s.say(log.str());
        switch (s.pick({ 12, 7, 2, 2, 1 })) {
        case 0: { size_t n = (size_t)(s.chance(15) ? s.edgy(0, high) : s.small(0, cap / 3)); Item t{ serial++, (uint32_t)n }; Bytes b = s.blob(n); log << "push " << t.serial << ":" << n << "; "; std::unique_ptr<uint8_t[]> e(new uint8_t[n]); if (n) memcpy(e.get(), b.data(), n); bool quiet = s.chance(50), ok = false, threw = false; size_t space = IT + n, maxit = 0; for (auto& x : m) maxit = std::max(maxit, IT + x.b.size()); size_t fr = cap - HD - used();
            try { ok = q.push(t, e.get(), (unsigned)n, quiet); } catch (mgexceptionbase&) { threw = true; }
            if (threw) PBT_CHECK(!quiet, "push threw although failures are to be returned, " << log.str()); else PBT_CHECK(ok || quiet, "push failed without an exception, " << log.str());
            bool must = mode == 2 || (m.empty() || mode == 1 ? space <= cap - HD : fr >= 2 * space + maxit), cannot = mode == 0 ? space > fr : mode == 1 ? space > cap - HD : false;
            PBT_CHECK(!must || ok, "push failed although there is room, " << log.str()); PBT_CHECK(!cannot || !ok, "push succeeded without room, " << log.str());
            size_t want = m.size() + (ok ? 1 : 0), have = (size_t)q.size();
            if (mode == 1) { PBT_CHECK(have <= want && (!ok || have >= 1), "number of elements " << have << " after " << log.str()); while (m.size() + (ok ? 1 : 0) > have) { m.pop_front(); ++drops; } } else PBT_EQ(have, want, "number of elements after " << log.str());
            if (ok) m.push_back({ t, b }); else ++fails; if (ok && !m.empty()) front(); break; }
        case 1: if (!m.empty()) { size_t n = m.front().b.size(); bool small = n && s.chance(15), null = s.chance(10); size_t len = small ? (size_t)s.range(0, n - 1) : n + (size_t)s.small(0, 3); log << "pop " << (null ? "null" : small ? "small" : "") << "; "; std::unique_ptr<uint8_t[]> o(new uint8_t[len ? len : 1]); int rd = -1; Item t = q.pop(null ? NULL : o.get(), (int)len, &rd); PBT_EQ(t.serial, m.front().t.serial, "element after " << log.str()); PBT_EQ(t.check, m.front().t.check, "element data after " << log.str()); PBT_EQ((size_t)rd, n, "size reported after " << log.str());
            if (!null && !small) { PBT_CHECK(n == 0 || !memcmp(o.get(), m.front().b.data(), n), "content after " << log.str()); m.pop_front(); } PBT_EQ((size_t)q.size(), m.size(), "number of elements after " << log.str()); ++wraps; } break;
        case 2: if (!m.empty()) { log << "delete; "; q.delete_item(); m.pop_front(); } break;
        case 3: if (!m.empty()) { log << "look; "; front(); front(); } break;
        default: if (s.chance(20)) { log << "clear; "; q.clear(); m.clear(); } break;
        }
        PBT_EQ((size_t)q.size(), m.size(), "number of elements after " << log.str());
    }
    log << "drain"; while (!m.empty()) { front(); Bytes o(m.front().b.size() + 1); int rd; Item t = q.pop(o.data(), (int)o.size(), &rd); PBT_EQ(t.serial, m.front().t.serial, "element while draining after " << log.str()); PBT_CHECK(!memcmp(o.data(), m.front().b.data(), rd), "content while draining after " << log.str()); m.pop_front(); } PBT_EQ(q.size(), 0, "elements left after " << log.str());
    if (fails) s.label("refused"); if (drops) s.label("dropped"); if (serial > 3 && wraps) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}
PBT_PROP(queue_fixed, 3, 0) { bool del = s.chance(50); FQ q(del); size_t cap = (size_t)(s.chance(20) ? s.edgy(60, 5000) : s.range(60, 400)); queue_case(s, q, del, cap); }
PBT_PROP(queue_grow, 2, 0) { GQ q; size_t cap = (size_t)s.range(30, 300); size_t c0 = cap; queue_case(s, q, 2, cap); if ((size_t)q.full() > c0) s.label("grown"); }
PBT_PROP(queue_threads, 1, pbt::NONDET) {
    struct LQ : grow_queue<Item> {} q; q.allocate(true, (int)s.range(60, 2000)); unsigned n = (unsigned)s.range(20, 400), prod = (unsigned)s.range(1, 3), sz = (unsigned)s.range(0, 200); std::vector<std::thread> th; std::atomic<unsigned> done{ 0 }; uint64_t seed = s.edgy(0, 1000000); std::string bad;
    for (unsigned p = 0; p < prod; ++p) th.emplace_back([&, p] { for (unsigned i = 0; i < n; ++i) { unsigned len = (unsigned)((i * 31 + p * 7 + seed) % (sz + 1)); Bytes b(len, (uint8_t)(i + p)); q.push(Item{ (uint64_t)p << 32 | i, len }, b.data(), len); } ++done; });
    std::vector<unsigned> next(prod, 0); unsigned total = 0; while (total < n * prod) { if (!q.size()) { if (done == prod && !q.size() && bad.empty()) { bad = "elements lost"; break; } std::this_thread::yield(); continue; } Bytes o(sz + 1); int rd = 0; Item t = q.pop(o.data(), (int)o.size(), &rd); unsigned p = (unsigned)(t.serial >> 32), i = (unsigned)t.serial; if (p >= prod || i != next[p]) { bad = "order: producer " + std::to_string(p) + " element " + std::to_string(i); break; } ++next[p]; ++total; if ((unsigned)rd != t.check) { bad = "size"; break; } for (int k = 0; k < rd; ++k) if (o[k] != (uint8_t)(i + p)) { bad = "content"; break; } if (!bad.empty()) break; }
    for (auto& t : th) t.join(); PBT_CHECK(bad.empty(), bad << " with " << prod << " producers"); PBT_EQ(q.size(), 0, "elements left"); s.nontrivial(); if (s.want_sample()) s.sample(std::to_string(prod) + " producers of " + std::to_string(n));
}

// ---------------------------------------------------------------- U06 joins
PBT_PROP(media_join, 1, 0) {
    unsigned n = (unsigned)s.range(1, 6); std::vector<int64_t> st(n, 0), clk(n, 0); std::ostringstream log; unsigned rounds = (unsigned)s.range(1, 5); int64_t lim = s.chance(20) ? (1ll << 58) : 400000000000ll;
    for (unsigned i = 0; i < n; ++i) clk[i] = (int64_t)s.edgy(0, (uint64_t)lim);
    for (unsigned r = 0; r < rounds; ++r) {
        CMediaJoin j; j.SetStreamCount(n); PBT_EQ(j.GetStreamCount(), (unsigned long)n, "streams"); std::vector<int64_t> start(n), dur(n); log << "| "; bool ends_first = s.chance(50); for (unsigned i = 0; i < n; ++i) { start[i] = s.chance(20) ? 0 : (int64_t)s.edgy(0, (uint64_t)lim); dur[i] = (int64_t)s.edgy(0, 100000000); log << clk[i] << "<-" << start[i] << " "; }
        for (int k = 0; k < 2; ++k) for (unsigned i = 0; i < n; ++i) if ((k == 0) == ends_first) j.AddStreamEnd((uint64_t)clk[i]); else j.AddStreamStart((uint64_t)start[i]);
        j.Compute(); std::vector<int64_t> jt(n); int64_t D = INT64_MIN; for (unsigned i = 0; i < n; ++i) D = std::max(D, clk[i] - start[i]);
        bool tight = false; for (unsigned k = 0; k < 2; ++k) for (unsigned i = 0; i < n; ++i) { jt[i] = j.GetJoinTime((int)i); PBT_CHECK(jt[i] >= clk[i], "stream " << i << " goes back to " << jt[i] << " in " << log.str()); tight |= jt[i] == clk[i]; PBT_EQ(jt[i] - start[i], D, "offset of stream " << i << " in " << log.str()); }
        PBT_CHECK(tight, "a gap in every stream, " << log.str()); for (unsigned i = 0; i < n; ++i) clk[i] = jt[i] + dur[i];
        if (n > 1) s.nontrivial();
    }
    if (rounds > 1) s.label("joined-again"); if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- U07 audio clock
PBT_PROP(audio_clock, 1, 0) {
    CAACFix f; static const unsigned rates[] = { 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 96000, 7350 }; unsigned ns = (unsigned)s.range(1, 4); std::ostringstream log; struct St { int id; double mn, mx, in, out; bool set, first; int64_t k; double base, jit; double drift; bool nominal; }; std::vector<St> v; unsigned resets = 0;
    for (unsigned i = 0; i < ns; ++i) { St t{}; t.id = (int)s.range(0, MAX_STREAM - 1); bool dup = false; for (auto& x : v) dup |= x.id == t.id; if (dup) continue; unsigned r = rates[s.range(0, 10)]; t.mn = 1024.0 / r * 1e7; t.mx = 1025.0 / r * 1e7; t.set = s.chance(90); t.first = true; t.nominal = s.chance(60); t.jit = s.chance(30) ? 0 : (double)s.small(0, 20000) / 1e4 * t.mn; t.base = (double)s.edgy(0, 1000000000000ll); if (t.base == INT32_MAX) t.base++; t.in = t.base; if (t.set) f.set_info(r, t.id); log << t.id << ":" << r << (t.nominal ? " nominal " : " free ") << t.jit << "; "; v.push_back(t); }
    unsigned steps = s.chance(1) ? (unsigned)s.range(3000, 30000) : (unsigned)s.small(1, 400);
    for (unsigned i = 0; i < steps; ++i) {
        St& t = v[s.range(0, v.size() - 1)]; double in;
        if (t.nominal) in = std::floor(t.base + t.k++ * t.mn + t.jit * ((double)s.range(0, 200) / 100 - 1)); else { double d = s.pick({ 6, 2, 2, 1 }) == 0 ? t.mn + (double)s.irange(-1000, 1000) : s.chance(50) ? (double)s.small(0, 1000000) : s.chance(50) ? (double)s.edgy(0, 1000000000) : -(double)s.small(0, 3000000); in = std::floor(t.in + d); }
        if (in < 0) in = 0; if (in == INT32_MAX) in += 1; double out = f.fix_audio_frequency_timing(in, t.id); s.say(std::to_string(t.id) + " in " + std::to_string(in) + " out " + std::to_string(out));
        if (!t.set) { PBT_EQ(out, in, "time of a stream without a sample rate, " << log.str()); continue; }
        if (t.first) { PBT_EQ(out, in, "first time, " << log.str()); if (t.nominal) t.drift = 0; } else {
            double step = out - t.out, eps = std::max(1.0, std::fabs(out)) * 1e-13 + 1e-6; bool mn = std::fabs(step - t.mn) < eps, mx = std::fabs(step - t.mx) < eps, rs = out == in; PBT_CHECK(step > 0, "time goes from " << t.out << " to " << out << ", " << log.str());
            PBT_CHECK(mn || mx || rs, "step of " << step << " is neither a frame (" << t.mn << ".." << t.mx << ") nor the input time, " << log.str()); if (!mn && !mx) { ++resets; PBT_CHECK(in > t.out, "taken over an earlier time"); }
            PBT_CHECK(out >= in - t.mx - eps, "output " << out << " more than a frame behind the input " << in << ", " << log.str());
            if (t.nominal) PBT_CHECK(std::fabs(out - in) <= 2 * t.jit + 3 * t.mx, "output " << out << " drifts away from the input " << in << " after " << t.k << " frames, " << log.str()); }
        t.out = out; t.in = in; t.first = false;
    }
    if (v.size() > 1) s.label("streams"); if (resets) s.label("resets"); if (steps > 3) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- U08 file system helpers
namespace { enum { DIR_ = 1, FILE_ = 2 }; struct Tree { std::map<std::string, int> n; }; }
static void scan(const std::string& d, const std::string& rel, std::map<std::string, int>& out) { DIR* p = opendir(d.c_str()); if (!p) return; while (dirent* e = readdir(p)) { std::string nm = e->d_name; if (nm == "." || nm == "..") continue; struct stat st; lstat((d + "/" + nm).c_str(), &st); out[rel + nm] = S_ISDIR(st.st_mode) ? DIR_ : FILE_; if (S_ISDIR(st.st_mode)) scan(d + "/" + nm, rel + nm + "/", out); } closedir(p); }
static void wipe(const std::string& d) { std::map<std::string, int> t; scan(d, "", t); for (auto i = t.rbegin(); i != t.rend(); ++i) { std::string p = d + "/" + i->first; if (i->second == DIR_) rmdir(p.c_str()); else unlink(p.c_str()); } rmdir(d.c_str()); }
PBT_PROP(directories, 1, 0) {
    static std::atomic<unsigned> cnt{ 0 }; std::string root = scratch_root() + "/u08-" + std::to_string(getpid()) + "-" + std::to_string(cnt++); ::mkdir(root.c_str(), 0777); struct Clean { std::string r; ~Clean() { wipe(r); } } clean{ root }; std::map<std::string, int> m; std::ostringstream log; unsigned ops = 0, exist = 0, fail = 0; static const char* nm[] = { "a", "b", "ab", "x y", "\xc3\xa4", "c" };
    auto gen = [&] { std::string p; unsigned d = (unsigned)s.small(1, 3); for (unsigned i = 0; i < d; ++i) { if (i) p += "/"; p += nm[s.range(0, 5)]; } return p; };
    while (s.more(10) && ops++ < 40) {
        std::string p = gen(), full = root + "/" + p; size_t sl = p.rfind('/'); std::string par = sl == std::string::npos ? "" : p.substr(0, sl); int have = m.count(p) ? m[p] : 0; bool parent = par.empty() || (m.count(par) && m[par] == DIR_); bool empty = true; for (auto& x : m) if (x.first.compare(0, p.size() + 1, p + "/") == 0) empty = false;
        bool fileabove = false; for (size_t k = p.find('/'); k != std::string::npos; k = p.find('/', k + 1)) if (m.count(p.substr(0, k)) && m[p.substr(0, k)] == FILE_) fileabove = true; int err = 0; bool threw = false; s.say(log.str());
        switch (s.pick({ 6, 3, 2 })) {
        case 0: { std::string q = full; if (s.chance(20)) q += "/"; log << "mkdir " << p << (q != full ? "/" : "") << "; "; try { create_directory(q.c_str()); } catch (mgexceptionbase&) { threw = true; } bool want = have == DIR_ || (!have && parent); if (have) ++exist; PBT_EQ((int)threw, (int)!want, "creating " << p << " (there: " << have << ") after " << log.str()); if (want) m[p] = DIR_; else ++fail; break; }
        case 1: { log << "remove " << p << "; "; try { delete_file(full.c_str()); } catch (mgexceptionbase&) { threw = true; } bool want = have == FILE_ || (have == DIR_ && empty); PBT_EQ((int)threw, (int)!want, "deleting " << p << " after " << log.str()); if (want) m.erase(p); else ++fail; break; }
        default: if (!have && parent) { log << "file " << p << "; "; FILE* f = fopen(full.c_str(), "w"); if (f) { fputs("x", f); fclose(f); m[p] = FILE_; } } break;
        }
        std::map<std::string, int> now; scan(root, "", now); PBT_CHECK(now == m, "tree differs after " << log.str()); (void)err; (void)fileabove;
    }
    if (exist) s.label("existing"); if (fail) s.label("failing"); if (ops > 2) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}
PBT_PROP(environment, 1, 0) {
    std::string v; size_t n = (size_t)(s.chance(10) ? s.edgy(0, 6000) : s.small(0, 40)); for (size_t i = 0; i < n; ++i) v += (char)s.range(1, 255); std::string k = "VERIF_ENV_" + std::to_string(s.range(0, 3)); bool set = s.chance(85); if (set) setenv(k.c_str(), v.c_str(), 1); else unsetenv(k.c_str());
    Cstring g = get_env_variable(k.c_str()); PBT_CHECK(std::string((const char*)g) == (set ? v : ""), "value of a variable of " << v.size() << " characters"); PBT_EQ((size_t)g.size(), set ? v.size() : 0, "length"); g += "tail"; PBT_CHECK(!set || v == getenv(k.c_str()), "the environment changed with the copy"); unsetenv(k.c_str()); PBT_EQ((int)get_env_variable(k.c_str()).size(), 0, "an unset variable"); if (n) s.nontrivial(); if (s.want_sample()) s.sample(k + " " + std::to_string(n));
}
