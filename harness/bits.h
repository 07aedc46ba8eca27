// reader model shared by the bit stream and file harnesses
#pragma once
#include "common.h"
#include <sstream>
using namespace mg::core;

static uint32_t model_bits(const Bytes& d, uint64_t p, unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) { uint64_t q = p + i; v = (v << 1) | ((d[q >> 3] >> (7 - (q & 7))) & 1); }
    return (uint32_t)v;
}
static uint32_t sext(uint32_t v, unsigned n) {
    if (n > 1 && n < 32 && (v >> (n - 1) & 1)) v |= ~0u << n;
    return v;
}

struct ReaderRun {
    pbt::Source& s; IBitstream& bs; const Bytes& d; uint64_t total, P = 0; std::ostringstream log; unsigned ops = 0, refills = 0, ends = 0, seeks = 0;
    Deliverer* dl = nullptr;
    ReaderRun(pbt::Source& s_, IBitstream& b, const Bytes& d_) : s(s_), bs(b), d(d_), total(d_.size() * 8ull) {}

    void note(const std::string& t) { s.say(t); if (ops < 40) log << t << "; "; }

    template<class F> bool ends_data(F f) { try { f(); return false; } catch (EndOfData&) { ++ends; return true; } }

    void resync() { uint64_t p = bs.getpos(); PBT_CHECK(p >= P && p <= total, "position " << p << " outside [" << P << "," << total << "] after running out of data"); P = p; }

    void invariants() {
        PBT_EQ(bs.getpos(), P, "bit position");
        PBT_EQ(bs.get_position(), P >> 3, "byte position");
        PBT_EQ((int)bs.eof(), (int)(P == total), "end flag at bit " << P << " of " << total);
    }

    void step() {
        ++ops;
        if (dl && s.chance(30)) dl->kick();
        std::ostringstream o;
        switch (s.pick({ 12, 5, 3, 6, 3, 3, 1, 6, 6, 2, 1 })) {
        case 0: { unsigned n = (unsigned)s.edgy(0, 32); o << "getbits(" << n << ")@" << P; note(o.str());
            uint32_t v = 0; bool e = ends_data([&] { v = bs.getbits((short)n); });
            PBT_EQ((int)e, (int)(P + n > total), "getbits(" << n << ") at bit " << P << " of " << total << " reports end of data");
            if (!e) { PBT_EQ(v, model_bits(d, P, n), "getbits(" << n << ") at bit " << P); P += n; } break; }
        case 1: { unsigned n = (unsigned)s.edgy(0, 32); o << "nextbits(" << n << ")@" << P; note(o.str());
            uint32_t v = 0; bool e = ends_data([&] { v = bs.nextbits((short)n); });
            PBT_EQ((int)e, (int)(P + n > total), "nextbits(" << n << ") at bit " << P << " of " << total << " reports end of data");
            if (!e) PBT_EQ(v, model_bits(d, P, n), "nextbits(" << n << ") at bit " << P); break; }
        case 2: { unsigned n = (unsigned)s.edgy(1, 32); o << "sgetbits(" << n << ")@" << P; note(o.str());
            uint32_t v = 0; bool e = ends_data([&] { v = bs.sgetbits((short)n); });
            PBT_EQ((int)e, (int)(P + n > total), "sgetbits(" << n << ") at bit " << P << " of " << total << " reports end of data");
            if (!e) { PBT_EQ(v, sext(model_bits(d, P, n), n), "sgetbits(" << n << ") at bit " << P); P += n; } break; }
        case 3: { unsigned n = s.chance(20) ? (unsigned)s.edgy(0, 32767) : (unsigned)s.small(0, 900); o << "skipbits(" << n << ")@" << P; note(o.str());
            bs.skipbits((short)n); P = std::min(P + n, total); break; }
        case 4: { static const int al[] = { 8, 16, 32, 64, 24, 40, 128 }; int a = al[s.range(0, 6)]; o << "align(" << a << ")@" << P; note(o.str());
            uint64_t t = (P + a - 1) / a * a; uint32_t r = 0;
            bool e = ends_data([&] { r = bs.align(a); });
            if (t <= total) { PBT_CHECK(!e, "align(" << a << ") at bit " << P << " of " << total << " reports end of data"); PBT_EQ(r, (uint32_t)(t - P), "align result"); P = t; }
            else { PBT_CHECK(e, "align(" << a << ") at bit " << P << " of " << total << " returned although the boundary is past the end"); resync(); }
            break; }
        case 5: { unsigned n = (unsigned)s.edgy(0, 32); o << "little_getbits(" << n << ")@" << P; note(o.str());
            uint32_t v = 0; bool e = ends_data([&] { v = bs.little_getbits((int)n); });
            PBT_EQ((int)e, (int)(P + n > total), "little_getbits(" << n << ") at bit " << P << " of " << total << " reports end of data");
            if (!e) { uint32_t x = 0; unsigned i = 0; for (; i < n / 8; ++i) x |= model_bits(d, P + 8 * i, 8) << (8 * i);
                if (n % 8) x |= model_bits(d, P + 8 * i, n % 8) << (8 * i);
                PBT_EQ(v, x, "little_getbits(" << n << ") at bit " << P); P += n; }
            else resync();
            break; }
        case 6: { unsigned n = (unsigned)s.edgy(1, 32); int sign = (int)s.range(0, 1); int al = s.chance(50) ? 8 : 0; o << "next(" << n << ",big,sign=" << sign << ",align=" << al << ")@" << P; note(o.str());
            uint64_t q = al ? (P + 7) / 8 * 8 : P; uint32_t v = 0;
            bool e = ends_data([&] { v = bs.next((int)n, 1, sign, al); });
            PBT_EQ((int)e, (int)(q + n > total), "next(" << n << ") at bit " << P << " of " << total << " reports end of data");
            if (!e) { uint32_t x = model_bits(d, q, n); if (sign) x = sext(x, n); PBT_EQ(v, x, "next(" << n << ") at bit " << q); }
            P = q; break; }
        case 7: { // raw read needs byte alignment
            if (P & 7) { bs.align(8); P = (P + 7) / 8 * 8; }
            uint32_t n = s.chance(15) ? (uint32_t)s.edgy(0, d.size() + 9) : (uint32_t)s.small(0, 60); o << "read(" << n << ")@" << P; note(o.str());
            std::unique_ptr<uint8_t[]> out(new uint8_t[n ? n : 1]); uint32_t got = 0xdeadbeef;
            bs.read(out.get(), n, &got);
            uint32_t want = (uint32_t)std::min<uint64_t>(n, (total - P) / 8);
            PBT_EQ(got, want, "read(" << n << ") at byte " << P / 8 << " of " << total / 8 << ": bytes delivered");
            PBT_CHECK(!want || !memcmp(out.get(), d.data() + P / 8, want), "read(" << n << ") at byte " << P / 8 << " delivered " << hex(out.get(), want) << " expected " << hex(d.data() + P / 8, want));
            P += want * 8ull; break; }
        case 8: { uint64_t q = s.chance(25) ? d.size() - s.small(0, d.size()) : s.edgy(0, d.size()); if (P / 8 + 20 < d.size() && s.chance(30)) q = P / 8 + s.range(0, 20);
            o << "set_position(" << q << ")@" << P; note(o.str()); ++seeks;
            bs.set_position(q); P = q * 8; break; }
        case 9: { unsigned n = (unsigned)s.range(1, 32); unsigned al = s.chance(60) ? 8 * (unsigned)s.range(1, 2) : 0;
            // a code that occurs somewhere ahead, or an arbitrary one
            uint64_t q = P; uint32_t code = (uint32_t)s.range(0, tmask[n]);
            if (total > P + n) { uint64_t ah = s.small(0, std::min<uint64_t>(total - P - n, 600)); if (s.chance(70)) code = model_bits(d, P + ah, n); }
            o << "nextcode(" << code << "," << n << "," << al << ")@" << P; note(o.str());
            unsigned stp = al ? al : 1; if (al) q = (P + al - 1) / al * al;
            bool found = false; for (; q + n <= total; q += stp) if (model_bits(d, q, n) == code) { found = true; break; }
            uint32_t r = 0; bool e = ends_data([&] { r = bs.nextcode(code, (int)n, (int)al); });
            PBT_EQ((int)e, (int)!found, "nextcode(" << code << "," << n << "," << al << ") from bit " << P << " of " << total << " reports end of data");
            if (found) { PBT_EQ(r, (uint32_t)(q - P), "nextcode: bits skipped from " << P); P = q; } else resync();
            break; }
        default: { int n = s.chance(50) ? (int)s.range(33, 40) : -1 - (int)s.range(0, 3); o << "getbits(" << n << ") invalid"; note(o.str());
            bool inv = false; try { bs.getbits((short)n); } catch (InvalidInput&) { inv = true; }
            PBT_CHECK(inv, "getbits(" << n << ") accepted");
            if (s.chance(50)) { bool ia = false; try { bs.align(8 * (int)s.range(0, 3) + (int)s.range(1, 7)); } catch (mgexceptionbase&) { ia = true; } PBT_CHECK(ia, "align to a non byte multiple accepted"); }
            break; }
        }
        invariants();
    }
    void run() {
        invariants();
        unsigned maxops = 0;
        while (s.more(14) && maxops++ < 80) step();
        // drain: what is left must be exactly the remaining bits
        note("drain");
        if (s.chance(50)) while (P < total) { unsigned n = (unsigned)std::min<uint64_t>(total - P, 1 + P % 32); uint32_t v = bs.getbits((short)n); PBT_EQ(v, model_bits(d, P, n), "drain getbits(" << n << ") at bit " << P); P += n; }
        invariants();
    }
};

static Bytes gen_data(pbt::Source& s, size_t B) {
    size_t n;
    switch (s.pick({ 6, 4, 2, 1 })) {
    case 0: n = (size_t)s.small(0, 64); break;
    case 1: n = (size_t)(s.range(0, 4) * B + s.small(0, B)); break;
    case 2: n = (size_t)s.edgy(0, 3 * B + 8); break;
    default: n = (size_t)s.range(0, 4000);
    }
    return s.blob(n);
}

static size_t gen_bufsize(pbt::Source& s) {
    switch (s.pick({ 60, 30, 10, 1 })) { case 0: return (size_t)s.range(8, 40); case 1: return (size_t)s.range(8, 300); case 2: return 8192; default: return (size_t)s.edgy(30000, 140000); }
}

