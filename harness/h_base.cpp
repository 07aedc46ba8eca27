// resources, buffers, strings, conversions, splitting, exceptions, command lines (M01..M07, L01)
#include "common.h"
#include <mg/alxstring.h>
#include <mg/splitter.h>
#include <mg/cmdline.h>
#include <mg/exception.h>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <list>
using namespace mg::core;

static std::string quote(const std::string& t, size_t lim = 60) { std::string o = "\""; for (unsigned char c : t.substr(0, lim)) { if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o + (t.size() > lim ? "...(" + std::to_string(t.size()) + ")\"" : "\""); }

// ---------------------------------------------------------------- M01 resources
namespace {
struct Obj {
    static std::atomic<int> alive; static std::map<int, int> deleted, cleaned; static std::mutex m; static int next_id;
    int id; CResource<Obj> next; unsigned magic = 0x600dbeef; std::vector<int> payload;
    Obj() { std::lock_guard<std::mutex> l(m); id = next_id++; alive++; payload.assign(3, id); }
    ~Obj() { std::lock_guard<std::mutex> l(m); magic = 0xdead; deleted[id]++; alive--; }
};
std::atomic<int> Obj::alive{ 0 }; std::map<int, int> Obj::deleted, Obj::cleaned; std::mutex Obj::m; int Obj::next_id = 0;
}

PBT_PROP(resource_history, 60, 0) {
    QuietStdout q; Obj::alive = 0; Obj::deleted.clear(); Obj::cleaned.clear(); Obj::next_id = 0; std::ostringstream log;
    std::vector<std::unique_ptr<CResource<Obj>>> h; std::vector<int> mo; std::map<int, int> nx; std::map<int, bool> withclean; std::map<int, Obj*> addr; unsigned ops = 0, assigns = 0, inner = 0, bulk = 0;
    auto live = [&] { std::set<int> l; std::vector<int> st; for (int x : mo) if (x >= 0) st.push_back(x); while (!st.empty()) { int x = st.back(); st.pop_back(); if (!l.insert(x).second) continue; if (nx.count(x) && nx[x] >= 0) st.push_back(nx[x]); } return l; };
    auto refs = [&](int id) { int n = 0; auto l = live(); for (int x : mo) if (x == id) ++n; for (int x : l) if (nx.count(x) && nx[x] == id) ++n; return n; };
    auto check = [&] {
        auto l = live(); PBT_EQ((size_t)Obj::alive.load(), l.size(), "objects alive after " << log.str());
        for (auto& d : Obj::deleted) { PBT_EQ(d.second, 1, "releases of object " << d.first << " after " << log.str()); PBT_CHECK(!l.count(d.first), "object " << d.first << " released while in use after " << log.str()); if (withclean[d.first]) PBT_EQ(Obj::cleaned[d.first], 1, "cleanups of object " << d.first << " after " << log.str()); }
        for (auto& c : Obj::cleaned) PBT_CHECK(Obj::deleted.count(c.first) && c.second == 1, "cleanup of object " << c.first << " ran " << c.second << " times, released " << Obj::deleted[c.first] << " after " << log.str());
        for (size_t i = 0; i < h.size(); ++i) {
            bool null = mo[i] < 0; PBT_EQ((int)!(*h[i]), (int)null, "emptiness of handle " << i << " after " << log.str()); PBT_EQ((int)(bool)*h[i], (int)!null, "truth of handle " << i); Obj* p = *h[i]; PBT_EQ((int)(p == NULL), (int)null, "pointer of handle " << i);
            if (!null) { PBT_EQ((*h[i])->id, mo[i], "object of handle " << i << " after " << log.str()); PBT_EQ((*h[i])->magic, 0x600dbeefu, "object of handle " << i << " was destroyed"); PBT_EQ((int)h[i]->count(), refs(mo[i]), "references to object " << mo[i] << " after " << log.str()); PBT_EQ((int)(&h[i]->GetRef() == p), 1, "reference of handle " << i); }
            else { bool t = false; try { h[i]->GetRef(); } catch (mgexceptionbase&) { t = true; } PBT_CHECK(t, "reference of an empty handle"); } } };
    auto fresh = [&](CResource<Obj>& r) { int id = r->id; nx[id] = -1; addr[id] = r; if (s.chance(60)) { withclean[id] = true; r.add_cleanup_function([id](Obj* o) { std::lock_guard<std::mutex> l(Obj::m); Obj::cleaned[id]++; if (o->id != id || o->magic != 0x600dbeef) Obj::cleaned[id] += 100; }); } return id; };
    while (s.more(15) && ops++ < 60) {
        size_t n = h.size(); int k = (int)s.pick({ 30, 20, 40, 60, 30, 30, 20, 20, 10, 3 }); if (!n && k > 1) k = 0; size_t a = n ? s.range(0, n - 1) : 0, b = n ? s.range(0, n - 1) : 0; s.say(log.str());
        switch (k) {
        case 0: h.emplace_back(new CResource<Obj>()); mo.push_back(-1); log << "h" << n << "; "; break;
        case 1: { h.emplace_back(new CResource<Obj>(new Obj)); int id = fresh(*h.back()); mo.push_back(id); log << "h" << n << "=new " << id << "; "; break; }
        case 2: h.emplace_back(new CResource<Obj>(*h[a])); mo.push_back(mo[a]); log << "h" << n << "(h" << a << "); "; break;
        case 3: log << "h" << a << "=h" << b << "; "; *h[a] = *h[b]; mo[a] = mo[b]; ++assigns; break;
        case 4: log << "del h" << a << "; "; h.erase(h.begin() + a); mo.erase(mo.begin() + a); break;
        case 5: if (mo[a] < 0) { log << "h" << a << ".Create; "; h[a]->Create(); mo[a] = fresh(*h[a]); } else { log << "h" << a << ".Create again; "; bool t = false; try { h[a]->Create(); } catch (mgexceptionbase&) { t = true; } PBT_CHECK(t, "creating over an object"); } break;
        case 6: if (mo[a] >= 0) { // link b's object behind a's (no cycles)
            bool cyc = false; for (int x = mo[b]; x >= 0; x = nx[x]) if (x == mo[a]) cyc = true; if (cyc) break; log << "h" << a << "->next=h" << b << "; "; (*h[a])->next = *h[b]; nx[mo[a]] = mo[b]; } break;
        case 7: if (mo[a] >= 0) { log << "h" << a << "=h" << a << "->next; "; *h[a] = (*h[a])->next; mo[a] = nx[mo[a]]; ++inner; } break;
        case 9: if (mo[a] >= 0 && bulk < 2) { // a container full of handles
            ++bulk; size_t c = (size_t)(s.chance(90) ? s.edgy(1, 300) : s.edgy(300, 70000)); log << c << " copies of h" << a << "; "; std::vector<CResource<Obj>> v; v.reserve(c); for (size_t i = 0; i < c; ++i) v.push_back(*h[a]); PBT_EQ((size_t)h[a]->count(), c + refs(mo[a]), "references after " << log.str()); if (s.chance(50)) { v.erase(v.begin(), v.begin() + (size_t)s.range(0, c)); PBT_EQ((size_t)h[a]->count(), v.size() + refs(mo[a]), "references after dropping some of " << log.str()); } } break;
        default: log << "h" << a << "=empty; "; *h[a] = CResource<Obj>(); mo[a] = -1; break;
        }
        check();
    }
    log << "end"; while (!h.empty()) { size_t a = s.range(0, h.size() - 1); h.erase(h.begin() + a); mo.erase(mo.begin() + a); }
    check(); PBT_EQ(Obj::alive.load(), 0, "objects left after " << log.str());
    if (inner) s.label("inner-assign"); if (assigns) s.label("assign"); if (ops > 3 && Obj::next_id) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}

PBT_PROP(resource_threads, 1, pbt::NONDET) {
    QuietStdout q; Obj::alive = 0; Obj::deleted.clear(); Obj::cleaned.clear(); Obj::next_id = 0;
    unsigned nt = (unsigned)s.range(2, 6), rounds = (unsigned)s.range(1, 6), loops = (unsigned)s.range(50, 1500), bad = 0; std::atomic<unsigned> dead{ 0 };
    std::vector<std::vector<uint8_t>> plan; for (unsigned t = 0; t < nt; ++t) plan.push_back(s.blob(16));
    bool drop = s.chance(50);   // the creator drops its handle while the others work
    for (unsigned r = 0; r < rounds; ++r) {
        CResource<Obj> root(new Obj); int id = root->id; root.add_cleanup_function([id](Obj*) { std::lock_guard<std::mutex> l(Obj::m); Obj::cleaned[id]++; });
        std::atomic<unsigned> go{ 0 }; std::vector<std::thread> th; std::vector<CResource<Obj>> own(nt, root);
        for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t] { CResource<Obj> mine = own[t]; own[t] = CResource<Obj>(); ++go; while (go < nt) {} CResource<Obj> x, y; for (unsigned i = 0; i < loops; ++i) { switch (plan[t][i % 16] % 4) { case 0: x = mine; break; case 1: y = x; break; case 2: { CResource<Obj> z(mine); if (z->magic != 0x600dbeef) dead++; } break; default: x = CResource<Obj>(); } } });
        if (drop) { while (go < nt) {} root = CResource<Obj>(); }
        for (auto& t : th) t.join();
        if (!drop) { PBT_EQ((int)root.count(), 1, "references left after the threads"); root = CResource<Obj>(); }
        PBT_EQ(Obj::deleted[id], 1, "releases of the shared object"); PBT_EQ(Obj::cleaned[id], 1, "cleanups of the shared object");
    }
    PBT_EQ(dead.load(), 0u, "uses of a destroyed object"); PBT_EQ(Obj::alive.load(), 0, "objects alive"); (void)bad;
    s.label(drop ? "owner-drops" : "owner-keeps"); s.nontrivial(); if (s.want_sample()) s.sample(std::to_string(nt) + " threads, " + std::to_string(rounds) + " rounds of " + std::to_string(loops));
}

// ---------------------------------------------------------------- M02 byte buffer
template<class T> static void buffer_case(pbt::Source& s) {
    QuietStdout q; size_t init = (size_t)(s.chance(10) ? s.edgy(1, 9000) : s.small(1, 200)); CBuffer<T> b(init); std::vector<T> m; std::ostringstream log; log << "initial " << init << "; "; unsigned ops = 0, grown = 0; ResetBuffer<T> rb(b);
    auto blk = [&](size_t n) { Bytes x = s.blob(n * sizeof(T)); std::vector<T> v(n); if (n) memcpy(v.data(), x.data(), n * sizeof(T)); return v; };
    auto check = [&] {
        PBT_EQ(b.getFull(), m.size(), "used size after " << log.str()); PBT_EQ(b.size(), m.size(), "size after " << log.str()); PBT_CHECK(b.getSize() >= b.getFull(), "capacity"); PBT_EQ(b.getFree(), b.getSize() - b.getFull(), "free space");
        PBT_CHECK(m.empty() || !memcmp(b.get(), m.data(), m.size() * sizeof(T)), "content differs after " << log.str()); PBT_CHECK(b.getCurrent() == b.get() + m.size(), "current pointer after " << log.str()); PBT_CHECK((T*)b == b.get(), "conversion to the pointer"); };
    while (s.more(14) && ops++ < 60) {
        s.say(log.str()); size_t cap = b.getSize();
        switch (s.pick({ 8, 4, 3, 4, 2, 2, 2, 2 })) {
        case 0: { size_t n = (size_t)(s.chance(30) ? s.edgy(0, b.getFree() + 2) : s.small(0, 300)); if (m.size() < 20000 && s.chance(10)) { /* up to a round total */ size_t t = (size_t)1 << s.range(3, 14); if (t > m.size()) n = t - m.size() + (size_t)s.pick({ 6, 1 }); } log << "add " << n << "; "; auto v = blk(n); std::unique_ptr<T[]> e(new T[n ? n : 1]); if (n) memcpy(e.get(), v.data(), n * sizeof(T)); b.add(e.get(), n); m.insert(m.end(), v.begin(), v.end()); break; }
        case 1: { size_t n = (size_t)(s.chance(30) ? s.edgy(1, b.getFree() + 2) : s.small(1, 300)), u = (size_t)s.edgy(0, n); log << "prepare " << n << " commit " << u << "; "; b.prepare(n); PBT_CHECK(b.getFree() >= n, "prepare(" << n << ") left " << b.getFree()); auto v = blk(n); memcpy(b.getCurrent(), v.data(), n * sizeof(T)); b.updatePosition(u); m.insert(m.end(), v.begin(), v.begin() + u); break; }
        case 2: if (!m.empty()) { uint32_t i = (uint32_t)s.range(0, m.size() - 1); auto v = blk(1); log << "at " << i << "; "; if (s.chance(50)) b.WriteAt(i, v.data()); else b.getAt(i) = v[0]; m[i] = v[0]; PBT_EQ(b.getAt(i), v[0], "element " << i); } break;
        case 3: { size_t pos = (size_t)s.edgy(0, m.size() + 3); unsigned long n = (unsigned long)s.edgy(0, m.size() + 4), got = 77; log << "read " << n << "@" << pos << "; "; std::unique_ptr<T[]> o(new T[n ? n : 1]); bool r = b.ReadBuffer(o.get(), n, got, pos); size_t want = pos < m.size() ? std::min<size_t>(n, m.size() - pos) : 0; PBT_EQ((size_t)got, want, "elements read " << log.str()); if (pos > m.size()) PBT_CHECK(!r, "reading behind the end succeeded"); if (want) PBT_CHECK(r && !memcmp(o.get(), m.data() + pos, want * sizeof(T)), "content read after " << log.str()); break; }
        case 4: { CBuffer<T> o((size_t)s.small(1, 50)); auto v = blk((size_t)s.small(0, 120)); o.add(v.data(), v.size()); log << "+= " << v.size() << "; "; b += o; m.insert(m.end(), v.begin(), v.end()); PBT_EQ(o.size(), v.size(), "the appended buffer"); PBT_CHECK(v.empty() || !memcmp(o.get(), v.data(), v.size() * sizeof(T)), "the appended buffer changed"); break; }
        case 5: if (s.chance(50)) { log << "+= self; "; if (m.size() < 4000) { b += b; auto c = m; m.insert(m.end(), c.begin(), c.end()); } } else if (!m.empty()) { size_t at = (size_t)s.range(0, m.size() - 1), n = (size_t)s.range(0, m.size() - at); log << "add own " << n << "@" << at << "; "; if (m.size() < 4000) { b.add(b.get() + at, n); std::vector<T> c(m.begin() + at, m.begin() + at + n); m.insert(m.end(), c.begin(), c.end()); } } break;
        case 6: { size_t n = (size_t)s.edgy(0, m.size()); bool z = s.chance(50); log << (z ? "back " : "moveback ") << n << "; "; if (z) rb.Back(n); else rb.MoveBack(n); m.resize(m.size() - n); if (z) for (size_t i = 0; i < n; ++i) PBT_EQ(b.get()[m.size() + i], (T)0, "cleared element"); break; }
        default: if (s.chance(40)) { log << "reset; "; rb.Reset(); m.clear(); for (size_t i = 0; i < b.getSize(); ++i) PBT_EQ(b.get()[i], (T)0, "element " << i << " after reset"); } break;
        }
        if (b.getSize() != cap) ++grown;
        check();
    }
    if (grown) s.label("grown"); if (grown > 1) s.label("grown-again"); if (ops > 2 && grown) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}
PBT_PROP(buffer_bytes, 3, 0) { buffer_case<uint8_t>(s); }
PBT_PROP(buffer_words, 1, 0) { buffer_case<uint32_t>(s); }

// ---------------------------------------------------------------- M03 strings
static std::string gen_text(pbt::Source& s, size_t lim = 40, bool wide = false) {
    static const char* small = "ab,:=- /\\.xyzABC019%"; size_t n = (size_t)(s.chance(8) ? s.edgy(0, 2200) : s.small(0, lim)); std::string t; int al = (int)s.pick({ 5, 3, 2 });
    for (size_t i = 0; i < n; ++i) t += al == 0 ? (char)('a' + s.range(0, 1)) : al == 1 ? small[s.range(0, 19)] : (char)(wide ? s.range(1, 255) : s.range(32, 126));
    return t;
}
PBT_PROP(string_history, 4, 0) {
    QuietStdout q; std::ostringstream log; typedef std::shared_ptr<std::string> SP;   // copies share their text
    std::vector<std::unique_ptr<Cstring>> h; std::vector<SP> m; unsigned ops = 0, shared = 0, srch = 0;
    auto put = [&](Cstring* c, SP p) { h.emplace_back(c); m.push_back(p); };
    auto text = [&](const Cstring& c) { return std::string((const char*)c); };
    auto check = [&] { for (size_t i = 0; i < h.size(); ++i) { PBT_EQ((int)h[i]->size(), (int)m[i]->size(), "size of s" << i << " after " << log.str()); PBT_EQ(h[i]->len(), m[i]->size(), "length of s" << i << " after " << log.str()); PBT_CHECK(text(*h[i]) == *m[i], "s" << i << " is " << quote(text(*h[i])) << " expected " << quote(*m[i]) << " after " << log.str()); } };
    put(new Cstring(), SP(new std::string));
    while (s.more(14) && ops++ < 60) {
        s.say(log.str()); size_t n = h.size(), a = s.range(0, n - 1), b = s.range(0, n - 1); std::string t; const std::string& A = *m[a]; const std::string& Bq = *m[b];
        if (A.size() > 20000) { log << "clear s" << a << "; "; h[a]->Clear(); m[a]->clear(); }
        int k = (int)s.pick({ 4, 2, 2, 6, 4, 3, 4, 5, 5, 5, 4, 4, 3, 2, 3, 2, 3, 3, 2 });
        switch (k) {
        case 0: t = gen_text(s, 40, true); log << "s" << n << "=" << quote(t) << "; "; put(new Cstring(t.c_str()), SP(new std::string(t))); break;
        case 1: log << "s" << n << "(s" << a << "); "; put(new Cstring(*h[a]), m[a]); ++shared; break;
        case 2: log << "s" << a << "=s" << b << "; "; *h[a] = *h[b]; m[a] = m[b]; ++shared; break;
        case 3: t = gen_text(s, 40, true); log << "s" << a << "+=" << quote(t) << "; "; *h[a] += t.c_str(); *m[a] += t; break;
        case 4: log << "s" << a << "+=s" << b << "; "; if (A.size() + Bq.size() < 30000) { std::string c = Bq; *h[a] += *h[b]; *m[a] += c; } break;
        case 5: t = gen_text(s, 40, true); log << "s" << a << "=text " << quote(t) << "; "; *h[a] = t.c_str(); m[a] = SP(new std::string(t)); break;
        case 6: { switch (s.range(0, 3)) { case 0: { int64_t v = (int64_t)(s.edgy(0, ~0ull)); log << "s" << a << "+=" << v << "; "; *h[a] += v; *m[a] += std::to_string(v); break; } case 1: { uint64_t v = s.edgy(0, ~0ull); log << "s" << a << "+=" << v << "u; "; *h[a] += v; *m[a] += std::to_string(v); break; } case 2: { int v = (int)s.edgy(0, ~0u); log << "s" << a << "+=int " << v << "; "; *h[a] += v; *m[a] += std::to_string(v); break; } default: { unsigned v = (unsigned)s.edgy(0, ~0u); log << "s" << a << "+=unsigned " << v << "; "; *h[a] += v; *m[a] += std::to_string(v); } } break; }
        case 7: { t = s.chance(50) && !A.empty() ? A.substr(s.range(0, A.size() - 1), s.small(1, 8)) : gen_text(s, 4); uint32_t at = (uint32_t)(s.chance(60) ? 0 : s.edgy(0, A.size())); log << "find " << quote(t) << " in s" << a << " from " << at << "; "; size_t r = A.find(t, at); int got = h[a]->find(t.c_str(), at); PBT_EQ(got, r == std::string::npos ? -1 : (int)r, "find " << quote(t) << " from " << at << " in " << quote(A)); ++srch;
            if (!t.empty()) { size_t rr = A.rfind(t); if (rr != std::string::npos && rr < at) rr = std::string::npos; int g2 = h[a]->rfind(t.c_str(), at); PBT_EQ(g2, rr == std::string::npos ? -1 : (int)rr, "rfind " << quote(t) << " from " << at << " in " << quote(A)); } break; }
        case 8: { size_t at = (size_t)s.edgy(0, A.size()), l = (size_t)s.edgy(0, A.size() - at + (s.chance(50) ? 3 : 0)); if (s.chance(10)) l = (size_t)s.edgy(0, 3000); log << "sub " << at << "," << l << " of s" << a << "; "; Cstring r = h[a]->subString(at, l); std::string w = A.substr(at, l); PBT_CHECK(text(r) == w, "sub string " << at << "," << l << " of " << quote(A) << " is " << quote(text(r)) << " expected " << quote(w)); PBT_EQ((size_t)r.size(), w.size(), "size of the sub string " << at << "," << l << " of " << quote(A)); if (s.chance(40)) { put(new Cstring(r), SP(new std::string(w))); } break; }
        case 9: { std::string c = s.chance(40) ? A : s.chance(50) ? Bq : gen_text(s, 6, true); log << "compare s" << a << " with " << quote(c) << "; "; PBT_EQ((int)(*h[a] == c.c_str()), (int)(A == c), "equality of " << quote(A) << " and " << quote(c)); PBT_EQ((int)(*h[a] != c.c_str()), (int)(A != c), "inequality of " << quote(A) << " and " << quote(c)); PBT_EQ((int)Equals(*h[a], *h[b]), (int)(A == Bq), "equality of s" << a << " and s" << b); PBT_EQ((int)(*h[a] < *h[b]), (int)(A < Bq), "order of " << quote(A) << " and " << quote(Bq)); PBT_EQ((int)(*h[b] < *h[a]), (int)(Bq < A), "order of " << quote(Bq) << " and " << quote(A)); PBT_EQ((int)(c.c_str() == *h[a]), (int)(A == c), "equality of text and string"); PBT_EQ((int)(c.c_str() != *h[a]), (int)(A != c), "inequality of text and string"); break; }
        case 10: { t = gen_text(s, 20); log << "s" << n << "=s" << a << "+" << quote(t) << "; "; if (s.chance(50)) put(new Cstring(*h[a] + t.c_str()), SP(new std::string(A + t))); else put(new Cstring(t.c_str() + *h[a]), SP(new std::string(t + A))); break; }
        case 11: log << "s" << n << "=s" << a << "+s" << b << "; "; if (A.size() + Bq.size() < 30000) put(new Cstring(*h[a] + *h[b]), SP(new std::string(A + Bq))); break;
        case 12: log << "s" << n << "=clone s" << a << "; "; put(new Cstring(h[a]->clone()), SP(new std::string(A))); break;
        case 13: log << "clear s" << a << "; "; h[a]->Clear(); m[a]->clear(); break;
        case 14: { t = gen_text(s, 30, true); if (t.empty()) break; log << "s" << a << " buffer " << t.size() << "; "; if (s.chance(50)) memcpy(h[a]->GetBuffer(t.size()), t.data(), t.size()); else { char* p = h[a]->GetBuffer(t.size() + 4, false); memcpy(p, t.data(), t.size()); h[a]->CommitBuffer(t.size()); } *m[a] += t; break; }
        case 15: { t = gen_text(s, 30, true); log << "s" << a << ".append " << quote(t) << "; "; h[a]->append(t.c_str()); *m[a] += t; break; }
        case 16: { std::string u = gen_text(s, 60); int v = (int)s.edgy(0, ~0u); unsigned long long w = s.edgy(0, ~0ull); char f[6000]; if (s.chance(50)) { log << "s" << a << ".format %s|%d|%llx " << u.size() << "; "; h[a]->append_format("%s|%d|%llx", u.c_str(), v, w); snprintf(f, sizeof f, "%s|%d|%llx", u.c_str(), v, w); } else { log << "s" << a << ".format %5d%%%-7s%c; "; h[a]->append_format("%5d%%%-7s%c", v, u.c_str(), 'q'); snprintf(f, sizeof f, "%5d%%%-7s%c", v, u.c_str(), 'q'); } *m[a] += f; break; }
        case 17: { size_t at = (size_t)s.edgy(0, A.size()); int how = (int)s.range(0, 2); log << "s" << a << (how == 0 ? "=own text from " : how == 1 ? "+=own text from " : ".append own text from ") << at << "; "; const char* p = (const char*)*h[a] + at; std::string w = A.substr(at); if (how == 0) { *h[a] = p; m[a] = SP(new std::string(w)); } else if (A.size() < 15000) { if (how == 1) *h[a] += p; else h[a]->append(p); *m[a] += w; } break; }
        default: { static const char* yes[] = { "1", "true", "yes", "TRUE", "True" }; std::string c = s.chance(60) ? yes[s.range(0, 4)] : s.chance(50) ? std::string("0") : gen_text(s, 5); if (s.chance(20)) c += " "; Cstring x(c.c_str()); bool w = false; for (auto y : yes) if (c == y) w = true; PBT_EQ((int)(bool)x, (int)w, "truth of " << quote(c)); log << "bool " << quote(c) << "; "; PBT_EQ((int)!x, 0, "emptiness"); break; }
        }
        if (h.size() > 8) { h.erase(h.begin()); m.erase(m.begin()); log << "drop s0; "; }
        check();
    }
    if (shared) s.label("shared"); if (srch) s.label("search"); if (ops > 2) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}

// ---------------------------------------------------------------- M04 numbers and hexadecimal
PBT_PROP(number_text, 3, 0) {
    QuietStdout q; std::ostringstream log; std::string pre = s.chance(30) ? std::string(s.small(0, 5), ' ') : "";
    int kind = (int)s.range(0, 4); Cstring t(pre.c_str());
    if (kind == 0) { int64_t v = (int64_t)(s.chance(50) ? s.edgy(0, ~0ull) : 0 - s.edgy(0, ~0ull)); t += v; log << v; PBT_CHECK(std::string((char*)t) == pre + std::to_string(v), "text of " << v << " is " << (char*)t); PBT_EQ((int64_t)t, v, "value read back from " << (char*)t); }
    else if (kind == 1) { uint64_t v = s.chance(50) ? s.edgy(0, ~0ull) : ~0ull - s.small(0, 1000); t += v; log << v; PBT_CHECK(std::string((char*)t) == pre + std::to_string(v), "text of " << v << " is " << (char*)t); PBT_EQ((uint64_t)t, v, "value read back from " << (char*)t); }
    else if (kind == 2) { int v = (int)(s.chance(50) ? s.edgy(0, ~0u) : 0 - (unsigned)s.edgy(0, ~0u)); t += v; log << v; PBT_CHECK(std::string((char*)t) == pre + std::to_string(v), "text of " << v << " is " << (char*)t); PBT_EQ((int)t, v, "value read back from " << (char*)t); }
    else if (kind == 3) { unsigned v = (unsigned)s.edgy(0, ~0u); t += v; log << v; PBT_CHECK(std::string((char*)t) == pre + std::to_string(v), "text of " << v << " is " << (char*)t); PBT_EQ((uint64_t)t, (uint64_t)v, "value read back"); }
    else { float f = (float)((double)(int64_t)(0 - s.edgy(0, ~0ull)) / (double)(1 << s.range(0, 24))); char b[400]; snprintf(b, sizeof b, "%.6f", f); t += f; log << b; PBT_CHECK(std::string((char*)t) == pre + b, "text of " << b << " is " << (char*)t); double d = t; PBT_EQ(d, strtod(b, NULL), "value read back from " << b); }
    // what is no number is refused
    std::string junk = s.chance(50) ? "" : gen_text(s, 4); bool num = false; { size_t i = 0; while (i < junk.size() && isspace((unsigned char)junk[i])) ++i; if (i < junk.size() && (junk[i] == '-' || junk[i] == '+')) ++i; num = i < junk.size() && isdigit((unsigned char)junk[i]); }
    Cstring j(junk.c_str()); bool threw = false; try { (void)(int64_t)j; } catch (mgexceptionbase&) { threw = true; } PBT_EQ((int)threw, (int)!num, "refusal of " << quote(junk));
    static const char* kn[] = { "int64", "uint64", "int", "unsigned", "float" }; s.label(kn[kind]); s.nontrivial(); if (s.want_sample()) s.sample(std::string(kn[kind]) + " " + log.str());
}
PBT_PROP(hex_text, 2, 0) {
    QuietStdout q; Bytes d = s.blob((size_t)s.small(0, 300)); if (s.chance(20)) for (auto& c : d) c = (uint8_t)(c | 0x80); std::string pre = gen_text(s, 10); Cstring t(pre.c_str()); t.append_hex_buffer(d.data(), (uint32_t)d.size());
    std::string want = pre; for (auto c : d) { char b[3]; snprintf(b, 3, "%02X", c); want += b; } PBT_CHECK(std::string((char*)t) == want, "hexadecimal text of " << hex(d) << " is " << (char*)t);
    uint32_t skip = (uint32_t)s.range(0, d.size()), n = (uint32_t)s.range(0, d.size() - skip); std::unique_ptr<uint8_t[]> o(new uint8_t[n + 1]); o[n] = 0x5a;
    t.extract_binary_hex(o.get(), n, (uint32_t)pre.size() + 2 * skip); PBT_CHECK(Bytes(o.get(), o.get() + n) == Bytes(d.begin() + skip, d.begin() + skip + n) && o[n] == 0x5a, "bytes " << skip << "+" << n << " of " << (char*)t << " read back as " << hex(o.get(), n));
    // the printed dump contains every byte, line by line
    unsigned w = (unsigned)s.range(0, 40); int fmt = (int)s.range(0, 2); Cstring dump = hexformat(d.data(), d.size(), w, fmt); if (d.empty()) { PBT_EQ(dump.size(), 0u, "dump of nothing"); return; }
    std::string x((char*)dump); Bytes got; size_t p = 0; while (p < x.size()) { size_t e = x.find("\r\n", p); PBT_CHECK(e != std::string::npos, "line end of the dump " << quote(x)); size_t tab = x.find('\t', p); PBT_CHECK(tab != std::string::npos && tab < e, "columns of the dump " << quote(x)); std::istringstream is(x.substr(p, tab - p)); std::string tok; unsigned k = 0; while (is >> tok) { PBT_CHECK(tok.size() == 2, "token " << quote(tok) << " in the dump " << quote(x)); got.push_back((uint8_t)strtoul(tok.c_str(), NULL, 16)); ++k; } PBT_EQ(k, w + 1, "bytes in a line of the dump"); p = e + 2; }
    PBT_CHECK(got.size() >= d.size() && std::equal(d.begin(), d.end(), got.begin()), "dump of " << hex(d) << " with width " << w + 1 << " contains " << hex(got));
    if (d.size() > 2) s.nontrivial(); if (s.want_sample()) s.sample("bytes " + hex(d, 20) + " width " + std::to_string(w + 1));
}

// ---------------------------------------------------------------- M05 splitting
PBT_PROP(split_replace, 3, 0) {
    QuietStdout q; Csplitter sp; unsigned rounds = (unsigned)s.range(1, 3), parts = 0; std::ostringstream log;
    for (unsigned r = 0; r < rounds; ++r) {
        std::string sep = std::string(1 + s.small(0, 2), 'a'); for (auto& c : sep) c = (char)('a' + s.range(0, 1)); std::string t; while (s.more(6) && t.size() < 600) { if (s.chance(35)) t += sep; else t += (char)('a' + s.range(0, 2)); }
        log << quote(t) << " by " << quote(sep) << "; "; s.say(log.str());
        std::vector<std::string> want; size_t p = 0, e; while ((e = t.find(sep, p)) != std::string::npos) { want.push_back(t.substr(p, e - p)); p = e + sep.size(); } want.push_back(t.substr(p));
        Cstring ct(t.c_str()), cs(sep.c_str()); auto cmp = [&](Csplitter& x, const char* how) { PBT_EQ(x.getCount(), want.size(), how << ": parts of " << log.str()); for (size_t i = 0; i < want.size(); ++i) { Cstring g = x[i]; PBT_CHECK(std::string((char*)g) == want[i] && g.size() == want[i].size(), how << ": part " << i << " is " << quote((char*)g) << " expected " << quote(want[i]) << " of " << log.str()); } PBT_CHECK(std::string((char*)x.getInternalString()) == t, how << ": text kept by the splitter"); };
        sp.split(ct, cs); cmp(sp, r ? "reused splitter" : "splitter"); Csplitter two(ct, cs); cmp(two, "second splitter"); parts += want.size();
        PBT_CHECK(std::string((char*)ct) == t && std::string((char*)cs) == sep, "the arguments changed");
        std::string by; while (s.more(2) && by.size() < 8) by += (char)('a' + s.range(0, 3)); std::string jo; for (size_t i = 0; i < want.size(); ++i) jo += (i ? by : "") + want[i];
        Cstring rep = mg::core::replace(t.c_str(), by.c_str(), sep.c_str()); PBT_CHECK(std::string((char*)rep) == jo, "replacing " << quote(sep) << " by " << quote(by) << " in " << quote(t) << " gives " << quote((char*)rep) << " expected " << quote(jo));
    }
    if (rounds > 1) s.label("reused"); if (parts > 2 * rounds) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}

// ---------------------------------------------------------------- M06 narrowing
template<class F> static bool fails(F f) { try { f(); return false; } catch (mgexceptionbase& e) { PBT_EQ(e.get_error_number(), E_OVERFLOW, "error number of a failed conversion"); return true; } }
PBT_PROP(narrowing, 3, 0) {
    QuietStdout q; uint64_t v = s.chance(50) ? s.edgy(0, ~0ull) : (s.range(0, 3) == 0 ? (1ull << 32) : s.chance(50) ? (1ull << 31) : (1ull << 63)) + s.range(0, 8) - 4; std::ostringstream log; log << v;
    { uint32_t r = 0; bool f = fails([&] { r = U64_U32(v); }); PBT_EQ((int)f, (int)(v > 0xffffffffull), "U64_U32(" << v << ") fails"); if (!f) PBT_EQ((uint64_t)r, v, "U64_U32"); }
    { uint32_t r = 0; bool f = fails([&] { r = ST_U32(v); }); PBT_EQ((int)f, (int)(v > 0xffffffffull), "ST_U32(" << v << ") fails"); if (!f) PBT_EQ((uint64_t)r, v, "ST_U32"); }
    { int32_t r = 0; bool f = fails([&] { r = ST_I32(v); }); PBT_EQ((int)f, (int)(v > 0x7fffffffull), "ST_I32(" << v << ") fails"); if (!f) PBT_EQ((int64_t)r, (int64_t)v, "ST_I32"); }
    { int64_t r = 0; bool f = fails([&] { r = U64_i64(v); }); PBT_EQ((int)f, (int)(v > 0x7fffffffffffffffull), "U64_i64(" << v << ") fails"); if (!f) PBT_EQ((uint64_t)r, v, "U64_i64"); }
    { double r = 0; bool f = fails([&] { r = U64_DBL(v); }); PBT_CHECK(!f, "U64_DBL(" << v << ") fails"); long double d = (long double)r - (long double)v; PBT_CHECK((d < 0 ? -d : d) <= (long double)v / 9007199254740992.0L, "U64_DBL(" << v << ") is " << r); }
    { int64_t w = (int64_t)v; uint32_t r = 0; bool f = fails([&] { r = IS_U32(w); }); if (w < 0 || w > 0xffffffffll) PBT_CHECK(f, "IS_U32(" << w << ") gives " << r); if (w >= 0 && w <= 0x7fffffffll) PBT_CHECK(!f, "IS_U32(" << w << ") fails"); if (!f) PBT_EQ((int64_t)r, w, "IS_U32"); }
    { double d; switch (s.range(0, 5)) { case 0: d = (double)v; break; case 1: d = -(double)v; break; case 2: d = (double)v + 0.5; break; case 3: d = ldexp(1.0, (int)s.range(0, 100)) * (s.chance(50) ? 1 : 1.5); break; case 4: d = (double)s.range(0, 1000) / 8; break; default: { double sp[] = { NAN, INFINITY, -INFINITY, -0.0, 1e-300, -1e-300, 18446744073709551615.0, 18446744073709549568.0 }; d = sp[s.range(0, 7)]; } }
      log << " " << d; uint64_t r = 0; bool f = fails([&] { r = DBL_U64(d); }); bool ok = d >= 0 && d < 18446744073709551616.0; PBT_EQ((int)f, (int)!ok, "DBL_U64(" << d << ") fails"); if (ok) PBT_EQ(r, (uint64_t)d, "DBL_U64(" << d << ")"); }
    s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- M07 exceptions
PBT_PROP(exceptions, 3, 0) {
    QuietStdout q; int num = (int)(s.chance(50) ? 0 - (int64_t)s.edgy(0, 0x7fffffff) : (int64_t)s.edgy(0, 0x7fffffff)), line = (int)s.edgy(0, 0x7fffffff); bool hasmsg = s.chance(70); std::string msg = hasmsg ? gen_text(s, 80, true) : "", file = gen_text(s, 60); std::ostringstream log; log << num << " " << quote(msg) << " " << quote(file) << ":" << line;
    auto report = [&](const std::string& m) { return "Exception: " + std::to_string(num) + "\r\n" + m + "\r\n" + file + ":" + std::to_string(line); };
    auto same = [&](const mgexception& e, const std::string& m, const char* how) { PBT_EQ(e.get_error_number(), num, how << ": number of " << log.str()); PBT_CHECK(std::string(e.what()) == report(m), how << ": report is " << quote(e.what(), 300) << " expected " << quote(report(m), 300)); PBT_CHECK(std::string((char*)e.toString()) == report(m), how << ": toString"); };
    auto make = [&] { return hasmsg ? mgexception(num, msg.c_str(), file.c_str(), line) : mgexception(num, file.c_str(), line); };
    unsigned routes = 0; mgexception e = make(); same(e, msg, "created");
    if (s.chance(60)) { mgexception c(e); same(c, msg, "copied"); std::string m2 = gen_text(s, 40, true); c.set_message(m2.c_str()); same(c, m2, "after setting the message"); same(e, msg, "original after setting the copy's message"); ++routes; }
    if (s.chance(60)) { try { throw e; } catch (mgexceptionbase& b) { PBT_EQ(b.get_error_number(), num, "number caught by base"); PBT_CHECK(std::string(b.what()) == report(msg), "report caught by base"); } try { throw make(); } catch (std::exception& b) { PBT_CHECK(std::string(b.what()) == report(msg), "report caught as std::exception: " << quote(b.what())); } ++routes; }
    if (s.chance(40)) { std::exception_ptr p; std::thread t([&] { try { throw make(); } catch (...) { p = std::current_exception(); } }); t.join(); for (int i = 0; i < 2; ++i) try { std::rethrow_exception(p); } catch (mgexception& x) { same(x, msg, "carried across threads"); } ++routes; }
    if (s.chance(40)) { try { try { throw make(); } catch (mgexception& x) { throw; } } catch (mgexception& x) { same(x, msg, "rethrown"); } ++routes; }
    { int n = (int)s.irange(-300, 300); bool t = false; try { MGCHECK(n); } catch (mgexception& x) { t = true; PBT_EQ(x.get_error_number(), n, "number of a failed check"); PBT_CHECK(std::string(x.what()).find("h_base.cpp:" + std::to_string(__LINE__)) != std::string::npos, "place of a failed check: " << x.what()); } PBT_EQ((int)t, (int)(n < 0), "check of " << n); bool t2 = false; try { MGBASECHECK(n); } catch (mgexceptionbase& x) { t2 = true; PBT_EQ(x.get_error_number(), n, "number of a failed base check"); } PBT_EQ((int)t2, (int)(n < 0), "base check of " << n); }
    { bool t = false; try { ALXTHROW_T(msg.c_str()); } catch (mgexception& x) { t = true; PBT_EQ(x.get_error_number(), -101, "number of ALXTHROW_T"); PBT_CHECK(std::string(x.what()).find("\r\n" + msg + "\r\n") != std::string::npos, "message of ALXTHROW_T"); } PBT_CHECK(t, "ALXTHROW_T"); }
    if (routes) s.nontrivial(); if (msg.size() + file.size() > 500) s.label("long"); if (s.want_sample()) s.sample(log.str().substr(0, 200));
}

// ---------------------------------------------------------------- L01 command lines
namespace { struct Opt { std::string name, desc; int type; bool req; char sc; }; }
PBT_PROP(console_options, 4, 0) {
    QuietStdout q; console_command c; std::vector<Opt> opts; std::ostringstream log; std::map<std::string, std::vector<std::string>> val; static const char* names[] = { "input", "output", "kind", "in", "x", "position", "-help", "size", "a", "test" };
    unsigned n = (unsigned)s.range(0, 7);
    for (unsigned i = 0; i < n; ++i) { Opt o; o.name = names[s.range(0, 9)]; o.type = (int)s.range(0, 2); o.req = s.chance(20); o.desc = gen_text(s, 12); o.sc = s.chance(40) ? "ioxabq0z"[s.range(0, 7)] : 0; bool dup = false, scdup = false; for (auto& p : opts) { dup |= p.name == o.name; scdup |= o.sc && p.sc == o.sc; } if (scdup) o.sc = 0;
        bool threw = false; try { c.add(o.name.c_str(), (console_command::command_type)o.type, o.req, o.desc.c_str(), o.sc); } catch (mgexceptionbase&) { threw = true; } PBT_EQ((int)threw, (int)dup, "declaring " << o.name << " twice"); if (!dup) { opts.push_back(o); log << o.name << (o.type == 2 ? ":bool" : o.type == 1 ? ":int" : "") << (o.req ? "!" : "") << (o.sc ? std::string("/") + o.sc : std::string()) << " "; } }
    std::vector<std::string> args{ "prog" }; unsigned na = (unsigned)(s.chance(5) ? s.range(9, 60) : s.small(0, 8)), used = 0, unknown = 0, shortc = 0; log << "|";
    for (unsigned i = 0; i < na; ++i) {
        std::string a, name, value; bool hasval = false, isopt = s.chance(85);
        if (!isopt) { a = gen_text(s, 6); while (!a.empty() && a[0] == '-') a.erase(0, 1); }
        else {
            if (!opts.empty() && s.chance(75)) { auto& o = opts[s.range(0, opts.size() - 1)]; name = o.sc && s.chance(50) ? std::string(1, o.sc) : o.name; ++used; } else { name = s.chance(50) ? names[s.range(0, 9)] : std::string(1, "ioxabq0z"[s.range(0, 7)]); if (name[0] == '-') name = "zz"; ++unknown; }
            a = (s.chance(50) ? "-" : "--"); if (name[0] == '-') a = "--"; a += name; hasval = s.chance(65);
            if (hasval) { value = s.chance(40) ? std::to_string((int64_t)(0 - s.edgy(0, ~0ull))) : gen_text(s, 12); a += s.chance(50) ? ":" : "="; a += value; }
        }
        args.push_back(a); log << " " << quote(a); if (!isopt) continue;
        // model: an exact name first, then a shortcut, then an unknown parameter of its own
        Opt* o = nullptr; for (auto& p : opts) if (p.name == name) o = &p; bool viaunk = !o && val.count(name) ; if (!o && !viaunk && name.size() == 1) for (auto& p : opts) if (p.sc && p.sc == name[0]) { o = &p; ++shortc; }
        std::string key = o ? o->name : name; if (!hasval && o && o->type == 2) value = "T"; val[key].push_back(value);
    }
    s.say(log.str());
    std::vector<char*> av; std::vector<std::vector<char>> keep; for (auto& a : args) { keep.emplace_back(a.begin(), a.end()); keep.back().push_back(0); } for (auto& k : keep) av.push_back(k.data()); av.push_back(NULL);
    bool want = true; std::set<std::string> missing; for (auto& o : opts) if (o.req && !val.count(o.name)) { want = false; missing.insert(o.name); }
    bool got = c.process((int)args.size(), av.data()); PBT_EQ((int)got, (int)want, "acceptance of " << log.str());
    if (!got) { std::string e((char*)c.get_error_message()); bool hit = false; for (auto& m : missing) if (e == "missing parameter: " + m) hit = true; PBT_CHECK(hit, "message " << quote(e) << " for " << log.str()); }
    for (size_t i = 0; i < args.size(); ++i) PBT_CHECK(args[i] == keep[i].data(), "argument " << i << " changed");
    std::set<std::string> all; for (auto& o : opts) all.insert(o.name); for (auto& v : val) all.insert(v.first); for (auto x : names) all.insert(x);
    for (auto& k : all) { size_t w = val.count(k) ? val[k].size() : 0; for (uint32_t i = 0; i < w + 1; ++i) PBT_EQ((int)c.command_specified(k.c_str(), i), (int)(i < w), "presence of value " << i << " of " << k << " in " << log.str());
        for (uint32_t i = 0; i < w; ++i) { Cstring g = c.get_value(k.c_str(), i); PBT_CHECK(std::string((char*)g) == val[k][i], "value " << i << " of " << k << " is " << quote((char*)g) << " expected " << quote(val[k][i]) << " in " << log.str());
            char* e; errno = 0; long long num = strtoll(val[k][i].c_str(), &e, 10); if (!val[k][i].empty() && !*e && !errno && !isspace((unsigned char)val[k][i][0]) && val[k][i][0] != '+') { PBT_EQ(c.get_integer64_value(k.c_str(), i), (int64_t)num, "number of " << k << " in " << log.str()); if (i == 0 && num >= -0x80000000ll && num <= 0x7fffffff) PBT_EQ(c.get_integer_value(k.c_str()), (int)num, "integer of " << k); } }
        if (w) { PBT_EQ((size_t)c.get_command_count(k.c_str()), w, "number of values of " << k); PBT_CHECK(std::string((char*)c.get_value(k.c_str())) == val[k][0], "first value of " << k); } }
    if (!val.empty() && s.chance(30)) { auto it = val.begin(); std::advance(it, s.range(0, val.size() - 1)); uint32_t i = (uint32_t)s.range(0, it->second.size() - 1); std::string nv = gen_text(s, 10); c.set_value(it->first.c_str(), nv.c_str(), i); PBT_CHECK(std::string((char*)c.get_value(it->first.c_str(), i)) == nv, "value set"); for (uint32_t j = 0; j < it->second.size(); ++j) if (j != i) PBT_CHECK(std::string((char*)c.get_value(it->first.c_str(), j)) == it->second[j], "another value changed by set_value"); }
    std::string help((char*)c.get_help()); for (auto& o : opts) { size_t p = help.find(o.name + ":[value]\t" + o.desc); PBT_CHECK(p != std::string::npos, "help for " << o.name << " missing in " << quote(help, 400)); size_t e = help.find("\r\n", p); std::string ln = help.substr(p, e - p), rest = o.name + ":[value]\t" + o.desc + (o.req ? " - required" : "") + (o.sc ? std::string(" - shortcut: ") + o.sc : std::string()); PBT_CHECK(ln == rest, "help line " << quote(ln) << " expected " << quote(rest)); }
    if (unknown) s.label("unknown"); if (shortc) s.label("shortcut"); if (!want) s.label("missing-required"); if (used) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 300));
}

namespace { struct Sw : Cmdline { typedef std::pair<char, std::vector<std::string>> Call; std::vector<Call> calls; int usage = 0, nullargs = 0;
    void got(char c, int n, char** a) { Call k; k.first = c; if (n == 0 && a) ++nullargs; for (int i = 0; i < n; ++i) k.second.push_back(a[i]); calls.push_back(k); }
#define SW(L) void L(int n, char* a[]) override { got(#L[0], n, a); }
    SW(A) SW(B) SW(C) SW(D) SW(E) SW(F) SW(G) SW(H) SW(I) SW(J) SW(K) SW(L) SW(M) SW(N) SW(O) SW(P) SW(Q) SW(R) SW(S) SW(T) SW(U) SW(V) SW(W) SW(X) SW(Y) SW(Z)
    void Usage() override { ++usage; }
    void Defaul_T(int n, char* a[], char c) override { got(c, n, a); } }; }
PBT_PROP(switch_dispatch, 2, 0) {
    QuietStdout q; unsigned n = (unsigned)(s.chance(5) ? s.range(10, 80) : s.small(0, 9)); std::vector<std::string> args{ "prog" }; std::vector<Sw::Call> want; int help = 0; std::ostringstream log; bool cur = false, ignored = false;
    for (unsigned i = 0; i < n; ++i) { std::string a;
        if (s.chance(50)) { char c = s.chance(80) ? (char)((s.chance(50) ? 'a' : 'A') + s.range(0, 25)) : "?1_+"[s.range(0, 3)]; a = (s.chance(70) ? "-" : "/"); a += c; if (s.chance(15)) a += "tail"; cur = true; if (c == '?') { ++help; ignored = true; } else { ignored = false; want.push_back({ (char)(isalpha((unsigned char)c) ? toupper(c) : c), {} }); } }
        else { a = gen_text(s, 6); if (!a.empty() && (a[0] == '-' || a[0] == '/')) a = "w" + a; if (cur && !ignored) want.back().second.push_back(a); }
        args.push_back(a); log << quote(a) << " "; }
    s.say(log.str()); std::vector<std::vector<char>> keep; std::vector<char*> av; for (auto& a : args) { keep.emplace_back(a.begin(), a.end()); keep.back().push_back(0); } for (auto& k : keep) av.push_back(k.data());
    Sw w; w.process((int)args.size(), av.data());
    PBT_EQ(w.usage, (n ? 0 : 1) + help, "usage texts for " << log.str()); PBT_EQ((int)w.help(), (int)(help > 0), "help asked for by " << log.str()); PBT_EQ(w.calls.size(), want.size(), "switches dispatched for " << log.str());
    for (size_t i = 0; i < want.size(); ++i) { PBT_EQ(w.calls[i].first, want[i].first, "switch " << i << " of " << log.str()); PBT_CHECK(w.calls[i].second == want[i].second, "switch " << i << " of " << log.str() << " got " << w.calls[i].second.size() << " arguments" << (w.calls[i].second.empty() ? "" : " starting with " + quote(w.calls[i].second[0])) << " expected " << want[i].second.size()); }
    PBT_EQ(w.nullargs, 0, "switches without arguments that got an argument vector, " << log.str());
    if (want.size() > 1) s.nontrivial(); if (help) s.label("help"); if (s.want_sample()) s.sample(log.str());
}
