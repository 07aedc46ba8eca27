#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static const size_t MAXCH = 1 << 15;
static const size_t COVSZ = 1 << 16;

static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Shared {
    volatile uint64_t beat;         // case counter
    volatile uint64_t cases;
    volatile uint32_t nch;
    volatile uint32_t prop;
    volatile int failed;            // 1 = message filled in
    volatile int started;
    uint64_t ch[MAXCH];
    char msg[4096];
};
static Shared* g_sh = nullptr;
static uint8_t g_cov[COVSZ];
static uint8_t g_virgin[COVSZ];
static bool g_cov_on = false;
static bool g_replay_verbose = false;

struct Stats {
    uint64_t evaluations = 0, discarded = 0, nontriv = 0, corpus = 0, covbits = 0;
    std::map<std::string, uint64_t> labels, counters, excluded;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
};

struct Source::Impl {
    uint64_t rng = 0;
    std::vector<uint64_t> in;      // replayed prefix
    size_t pos = 0;
    bool extend_random = true;     // after the prefix: random, otherwise zeros
    bool nontriv = false;
    bool wantsample = false;
    std::string sample;
    std::vector<std::string> labels;
    std::map<std::string, uint64_t> counters, excluded;
};

uint64_t Source::rnd() { return mix(impl->rng); }

uint64_t Source::draw(uint64_t max, uint64_t generated) {
    Impl& m = *impl;
    uint64_t v;
    if (m.pos < m.in.size()) { v = m.in[m.pos]; if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1); }
    else v = m.extend_random ? generated : 0;
    m.pos++;
    if (g_sh) {
        uint32_t n = g_sh->nch;
        if (n >= MAXCH) throw Discard();
        g_sh->ch[n] = v; g_sh->nch = n + 1;
    }
    return v;
}

uint64_t Source::range(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    uint64_t g = rnd();
    if (span != UINT64_MAX) g %= (span + 1);
    return lo + draw(span, g);
}

uint64_t Source::edgy(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo, g;
    uint64_t r = rnd(), k = rnd();
    switch (r % 8) {
    case 0: g = 0; break;
    case 1: g = span; break;
    case 2: g = span - std::min(span, k % 9); break;
    case 3: case 4: g = std::min(span, k % 17); break;
    case 5: { uint64_t p = 1ull << (k % 64); p += (int64_t)((k >> 8) % 3) - 1; g = std::min(span, p); if (p > span && span) g = (k >> 16) % span; break; }
    case 6: { unsigned sh = (k >> 58); g = (k << 6 >> 6) >> sh; if (g > span) g = span == UINT64_MAX ? g : g % (span + 1); break; }
    default: g = span == UINT64_MAX ? k : k % (span + 1);
    }
    if (g > span) g = span;
    return lo + draw(span, g);
}

uint64_t Source::small(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    uint64_t r = rnd(), k = rnd(), cap;
    if (r % 16 < 8) cap = 4; else if (r % 16 < 13) cap = 24; else if (r % 16 < 15) cap = 200; else cap = span;
    cap = std::min(cap, span);
    uint64_t g = cap == UINT64_MAX ? k : k % (cap + 1);
    return lo + draw(span, g);
}

int64_t Source::irange(int64_t lo, int64_t hi) {
    // map 0,1,2.. to base, base+1, base-1 ... when 0 is inside, otherwise distance from the nearest end
    if (lo >= 0) return lo + (int64_t)edgy(0, (uint64_t)hi - (uint64_t)lo);
    if (hi <= 0) return hi - (int64_t)edgy(0, (uint64_t)hi - (uint64_t)lo);
    bool neg = draw(1, rnd() & 1) != 0;
    if (neg) { uint64_t d = edgy(0, (uint64_t)(-(lo + 1))); return -1 - (int64_t)d; }
    return (int64_t)edgy(0, (uint64_t)hi);
}

bool Source::chance(unsigned percent) { return draw(1, (rnd() % 100) < percent ? 1 : 0) != 0; }
bool Source::more(unsigned avg) { return draw(1, (rnd() % (avg + 1)) != 0 ? 1 : 0) != 0; }

size_t Source::pick(std::initializer_list<unsigned> w) {
    uint64_t tot = 0; for (unsigned x : w) tot += x;
    uint64_t r = rnd() % tot; size_t i = 0;
    for (unsigned x : w) { if (r < x) break; r -= x; ++i; }
    return (size_t)draw(w.size() - 1, i);
}

uint8_t Source::byte() { return (uint8_t)edgy(0, 255); }

std::vector<uint8_t> Source::bytes(size_t n) {
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)range(0, 255);
    return v;
}

std::vector<uint8_t> Source::blob(size_t n) {
    uint64_t sd = range(0, 0xffffffff);
    std::vector<uint8_t> v(n);
    if (sd == 0) { for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(i + 1); }
    else for (size_t i = 0; i < n; i += 8) { uint64_t x = mix(sd); for (size_t k = 0; k < 8 && i + k < n; ++k) v[i + k] = (uint8_t)(x >> (8 * k)); }
    return v;
}

void Source::label(const char* l) { impl->labels.push_back(l); }
void Source::label(const std::string& l) { impl->labels.push_back(l); }
void Source::nontrivial() { impl->nontriv = true; }
bool Source::want_sample() const { return impl->wantsample || g_replay_verbose; }
void Source::sample(const std::string& t) { impl->sample = t; if (g_replay_verbose) fprintf(stderr, "case: %s\n", t.c_str()); }
void Source::count(const char* what, uint64_t n) { impl->counters[what] += n; }
void Source::exclude(const char* f) { impl->excluded[f]++; }
bool Source::replaying() const { return g_replay_verbose; }
void Source::say(const std::string& t) { if (g_replay_verbose) fprintf(stderr, "  %s\n", t.c_str()); }

static void put_msg(const std::string& m) {
    if (g_sh && !g_sh->failed) {
        snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str());
        g_sh->failed = 1;
    }
    if (g_replay_verbose || !g_sh) fprintf(stderr, "FAILURE: %s\n", m.c_str());
}

void check_failed(const char* file, int line, const char* expr, const std::string& msg) {
    const char* b = strrchr(file, '/');
    std::ostringstream os;
    os << msg << "  [" << (b ? b + 1 : file) << ":" << line << " " << expr << "]";
    throw Failure{ os.str() };
}

void fail_now(const std::string& msg) { put_msg(msg); _exit(77); }

struct Prop { std::string name; prop_fn fn; unsigned weight, flags; };
static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Registrar::Registrar(const char* n, prop_fn f, unsigned w, unsigned fl) { props().push_back(Prop{ n, f, w, fl }); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t hash_ch(uint32_t prop) {
    uint64_t h = 1469598103934665603ull ^ prop;
    for (uint32_t i = 0; i < g_sh->nch; ++i) { h ^= g_sh->ch[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

// one case; returns true when the property held.  Failure => message in g_sh
static bool run_case(const Prop& p, uint32_t pi, Source::Impl& im, Stats* st) {
    g_sh->nch = 0; g_sh->prop = pi; g_sh->beat++;
    Source s; s.impl = &im;
    bool discard = false;
    if (g_cov_on) memset(g_cov, 0, sizeof g_cov);
    try { p.fn(s); }
    catch (const Discard&) { discard = true; }
    catch (const Failure& f) { put_msg(p.name + ": " + f.msg); return false; }
    catch (const std::exception& e) { put_msg(p.name + ": unexpected exception: " + e.what()); return false; }
    catch (...) { put_msg(p.name + ": unexpected exception of unknown type"); return false; }
    g_sh->cases++;
    if (st) {
        st->evaluations++;
        if (discard) { st->discarded++; return true; }
        for (auto& l : im.labels) st->labels[p.name + "/" + l]++;
        for (auto& c : im.counters) st->counters[c.first] += c.second;
        for (auto& c : im.excluded) st->excluded[c.first] += c.second;
        st->counters["cases:" + p.name]++;
        if (im.nontriv) {
            st->nontriv++;
            if (st->distinct.size() < 3000000) st->distinct.insert(hash_ch(pi));
            if (!im.sample.empty() && st->samples.size() < 400) st->samples.push_back(p.name + ": " + im.sample);
        }
    }
    return true;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static void dump_stats(const Stats& st, const std::string& path, const std::string& hashes) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"corpus\":%" PRIu64 ",\"covbits\":%" PRIu64,
        st.evaluations, st.discarded, st.nontriv, st.corpus, st.covbits);
    auto dm = [&](const char* n, const std::map<std::string, uint64_t>& m) {
        fprintf(f, ",\"%s\":{", n); bool first = true;
        for (auto& x : m) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
        fprintf(f, "}");
    };
    dm("labels", st.labels); dm("counters", st.counters); dm("excluded", st.excluded);
    fprintf(f, ",\"samples\":["); bool first = true;
    for (auto& s : st.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    f = fopen(hashes.c_str(), "w");
    if (f) { for (auto h : st.distinct) fwrite(&h, 8, 1, f); fclose(f); }
}

struct Corp { uint32_t prop; std::vector<uint64_t> ch; };

static bool cov_new() {
    bool nw = false;
    for (size_t i = 0; i < COVSZ; i += 8) {
        uint64_t v; memcpy(&v, g_cov + i, 8);
        if (!v) continue;
        for (size_t k = i; k < i + 8; ++k) {
            uint8_t c = g_cov[k]; if (!c) continue;
            uint8_t b = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
            if (!(g_virgin[k] & b)) { g_virgin[k] |= b; nw = true; }
        }
    }
    return nw;
}

static std::vector<uint64_t> mutate(const std::vector<Corp>& corpus, const Corp& base, uint64_t& r) {
    std::vector<uint64_t> c = base.ch;
    unsigned n = 1 + mix(r) % 4;
    for (unsigned i = 0; i < n; ++i) {
        if (c.empty()) break;
        size_t p = mix(r) % c.size();
        switch (mix(r) % 8) {
        case 0: c[p] = mix(r) % 4; break;
        case 1: c[p] += 1; break;
        case 2: if (c[p]) c[p] -= 1; break;
        case 3: c[p] = mix(r) >> (mix(r) % 64); break;
        case 4: { size_t l = 1 + mix(r) % 8; l = std::min(l, c.size() - p); c.erase(c.begin() + p, c.begin() + p + l); break; }
        case 5: { size_t l = 1 + mix(r) % 16; l = std::min(l, c.size() - p); std::vector<uint64_t> d(c.begin() + p, c.begin() + p + l);
                  size_t q = mix(r) % (c.size() + 1); if (c.size() < 4000) c.insert(c.begin() + q, d.begin(), d.end()); break; }
        case 6: { const Corp& o = corpus[mix(r) % corpus.size()]; if (o.prop == base.prop && !o.ch.empty()) {
                  size_t q = mix(r) % o.ch.size(); c.resize(p); c.insert(c.end(), o.ch.begin() + q, o.ch.end()); } break; }
        default: c.resize(p); break;   // random continuation
        }
    }
    return c;
}

static void set_limits() {
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static std::string g_child_log;
static bool in_worker = false;

static void redirect_child(const std::string& log) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); close(n); }
}

static void worker(uint64_t seed, unsigned job, uint64_t start, uint64_t cases, double deadline, bool cov, const std::string& outbase, const std::string& only) {
    in_worker = true;
    Stats st;
    std::vector<uint32_t> order;
    for (uint32_t i = 0; i < props().size(); ++i) if (only.empty() || ("," + only + ",").find("," + props()[i].name + ",") != std::string::npos) for (unsigned w = 0; w < props()[i].weight; ++w) order.push_back(i);
    std::vector<Corp> corpus;
    g_cov_on = cov;
    uint64_t nextsample = 1;
    for (uint64_t idx = start; idx < cases; ++idx) {
        if ((idx & 15) == 0 && now() > deadline) break;
        uint64_t r = seed * 1000003ull + job * 7919ull; mix(r); r ^= idx * 0xD1B54A32D192ED03ull; mix(r);
        uint32_t pi = order[idx % order.size()];
        Source::Impl im; im.rng = mix(r);
        im.wantsample = st.nontriv + 1 >= nextsample;
        if (cov && !corpus.empty() && mix(r) % 3) {
            const Corp& b = corpus[mix(r) % corpus.size()];
            pi = b.prop; im.in = mutate(corpus, b, r);
        }
        size_t ns = st.samples.size();
        if (!run_case(props()[pi], pi, im, &st)) _exit(77);
        if (st.samples.size() > ns) nextsample = st.nontriv + 1 + st.nontriv / 3;
        if (cov && cov_new() && g_sh->nch) corpus.push_back(Corp{ pi, std::vector<uint64_t>(g_sh->ch, g_sh->ch + g_sh->nch) });
    }
    st.corpus = corpus.size();
    for (size_t i = 0; i < COVSZ; ++i) if (g_virgin[i]) st.covbits++;
    dump_stats(st, outbase + ".json", outbase + ".hash");
    _exit(0);
}

enum Outcome { HELD, FAILED, CRASHED, HUNG };
struct Result { Outcome oc = HELD; std::string msg; std::vector<uint64_t> ch; int sig = 0; };

static std::string tail_log(const std::string& log) {
    std::string out; FILE* f = fopen(log.c_str(), "r");
    if (!f) return out;
    char line[600];
    int n = 0;
    while (fgets(line, sizeof line, f)) {
        if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error") || strstr(line, "SUMMARY:") || strstr(line, "terminate called") || strstr(line, "what():") || strstr(line, "ThreadSanitizer")) {
            line[strcspn(line, "\n")] = 0; out += line; out += " | "; if (++n > 4) break;
        }
    }
    fclose(f); return out;
}

static std::string g_tmp;

// run one choice sequence in a forked child
static Result run_forked(uint32_t pi, const std::vector<uint64_t>& ch, double timeout, bool verbose = false) {
    Shared* save = g_sh;
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = sh;
    std::string log = g_tmp + "/replay.log";
    pid_t pid = fork();
    if (pid == 0) {
        set_limits(); setpgid(0, 0);
        if (!verbose) redirect_child(log); else g_replay_verbose = true;
        Source::Impl im; im.in = ch; im.extend_random = false; im.wantsample = verbose;
        bool ok = run_case(props()[pi], pi, im, nullptr);
        fflush(0);
        _exit(ok ? 0 : 77);
    }
    Result res; double t0 = now(); int stt = 0;
    for (;;) {
        pid_t w = waitpid(pid, &stt, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &stt, 0); res.oc = HUNG; break; }
        usleep(now() - t0 < 0.02 ? 200 : 3000);
    }
    kill(-pid, SIGKILL);
    res.ch.assign(sh->ch, sh->ch + std::min<size_t>(sh->nch, MAXCH));
    if (res.oc == HUNG) res.msg = props()[pi].name + ": the case does not finish (hang)";
    else if (sh->failed) { res.oc = FAILED; res.msg = sh->msg; }
    else if (WIFSIGNALED(stt) || (WIFEXITED(stt) && WEXITSTATUS(stt) != 0)) {
        res.oc = CRASHED;
        std::ostringstream os; os << props()[pi].name << ": the process died (" << (WIFSIGNALED(stt) ? "signal " : "exit ") << (WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt)) << ") " << tail_log(log);
        res.msg = os.str();
    }
    munmap(sh, sizeof(Shared)); g_sh = save;
    return res;
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

struct Shrinker {
    uint32_t pi; double deadline, tmo; unsigned attempts; Result best; unsigned runs = 0; std::set<std::vector<uint64_t>> seen;
    bool tryit(const std::vector<uint64_t>& c) {
        if (now() > deadline || !simpler(c, best.ch)) return false;
        if (!seen.insert(c).second) return false;
        for (unsigned a = 0; a < attempts; ++a) {
            Result r = run_forked(pi, c, tmo); runs++;
            if (r.oc != HELD && (r.oc == HUNG) == (best.oc == HUNG)) {
                if (r.oc == HUNG) r.ch = c;
                if (!simpler(r.ch, best.ch)) r.ch = c;
                best = r; return true;
            }
            if (now() > deadline) return false;
        }
        return false;
    }
    void go() {
        // drop trailing zeros
        bool progress = true;
        while (progress && now() < deadline) {
            progress = false;
            for (size_t len : { 64, 32, 16, 8, 6, 5, 4, 3, 2, 1 }) {
                for (size_t p = best.ch.size(); p-- > 0 && now() < deadline; ) {
                    if (p + len > best.ch.size()) continue;
                    std::vector<uint64_t> c = best.ch; c.erase(c.begin() + p, c.begin() + p + len);
                    if (tryit(c)) { progress = true; }
                }
            }
            for (size_t p = 0; p < best.ch.size() && now() < deadline; ++p) {
                if (!best.ch[p]) continue;
                std::vector<uint64_t> c = best.ch; c[p] = 0;
                if (tryit(c)) { progress = true; continue; }
                // binary search to a lower value
                uint64_t lo = 0, hi = p < best.ch.size() ? best.ch[p] : 0;
                while (hi - lo > 1 && now() < deadline) {
                    uint64_t mid = lo + (hi - lo) / 2; c = best.ch; if (p >= c.size()) break; c[p] = mid;
                    if (tryit(c)) { progress = true; hi = (p < best.ch.size()) ? std::min(mid, best.ch[p]) : mid; } else lo = mid;
                }
                if (p < best.ch.size() && best.ch[p]) { c = best.ch; c[p] -= 1; if (tryit(c)) progress = true; }
            }
            // lower one value while deleting a later one (length prefixes)
            for (size_t p = 0; p < best.ch.size() && p < 64 && now() < deadline; ++p) {
                if (!best.ch[p] || best.ch[p] > 64) continue;
                for (size_t q = p + 1; q < best.ch.size() && q < p + 40; ++q) {
                    if (p >= best.ch.size() || !best.ch[p]) break;
                    std::vector<uint64_t> c = best.ch; c[p]--; c.erase(c.begin() + q);
                    if (tryit(c)) { progress = true; break; }
                }
            }
        }
    }
};

static void write_replay(const std::string& path, uint32_t pi, const Result& r) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "prop %s\n# %s\nchoices", props()[pi].name.c_str(), jesc(r.msg).c_str());
    for (uint64_t v : r.ch) fprintf(f, " %" PRIu64, v);
    fprintf(f, "\n"); fclose(f);
}

static int usage() {
    fprintf(stderr, "usage: harness --tmp DIR --out BASE --seed N --jobs N --cases N --time SEC [--cov] [--only PROP] [--hang SEC] --replay-out FILE\n       harness --tmp DIR --replay FILE\n");
    return 2;
}

} // namespace pbt

// gcc -fsanitize-coverage=trace-pc
extern "C" void __sanitizer_cov_trace_pc() {
    if (!pbt::g_cov_on) return;
    static __thread uintptr_t prev;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    uintptr_t h = (pc >> 1) * 0x9E3779B1u; h ^= h >> 15;
    uint8_t& c = pbt::g_cov[(h ^ prev) & (pbt::COVSZ - 1)];
    if (c != 255) ++c;
    prev = (h & (pbt::COVSZ - 1)) >> 1;
}

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=76:handle_abort=1:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:malloc_context_size=6:handle_segv=1:max_allocation_size_mb=2000";
}
extern "C" const char* __tsan_default_options() { return "exitcode=76:halt_on_error=1:report_signal_unsafe=0:symbolize=0:die_after_fork=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=76:print_stacktrace=0"; }

int main(int argc, char** argv) {
    using namespace pbt;
    uint64_t seed = 1, cases = 1000; unsigned jobs = 1; double tsec = 600, hang = 20, shrink_s = 60; bool cov = false;
    std::string out, replay, only, replay_out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--cases") cases = strtoull(nx(), 0, 10);
        else if (a == "--jobs") jobs = atoi(nx());
        else if (a == "--time") tsec = atof(nx());
        else if (a == "--hang") hang = atof(nx());
        else if (a == "--shrink") shrink_s = atof(nx());
        else if (a == "--cov") cov = true;
        else if (a == "--out") out = nx();
        else if (a == "--tmp") g_tmp = nx();
        else if (a == "--only") only = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-out") replay_out = nx();
        else if (a == "--list") { for (auto& p : props()) puts(p.name.c_str()); return 0; }
        else return usage();
    }
    if (g_tmp.empty()) return usage();
    setvbuf(stdout, 0, _IOLBF, 0);
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 2; }
        std::string name; std::vector<uint64_t> ch; char* line = nullptr; size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            if (!strncmp(line, "prop ", 5)) { name = line + 5; name.erase(name.find_last_not_of(" \r\n") + 1); }
            else if (!strncmp(line, "choices", 7)) { char* q = line + 7; for (;;) { char* e; uint64_t v = strtoull(q, &e, 10); if (e == q) break; ch.push_back(v); q = e; } }
        }
        fclose(f);
        for (uint32_t i = 0; i < props().size(); ++i) if (props()[i].name == name) {
            unsigned att = (props()[i].flags & NONDET) ? 40 : 1;
            for (unsigned a = 0; a < att; ++a) {
                Result r = run_forked(i, ch, hang, a == 0);
                if (r.oc != HELD) { printf("REPLAY fails: %s\n", r.msg.c_str()); return 1; }
            }
            printf("REPLAY held\n"); return 0;
        }
        fprintf(stderr, "no such property %s\n", name.c_str()); return 2;
    }
    if (out.empty() || replay_out.empty()) return usage();

    struct Job { pid_t pid; Shared* sh; uint64_t beat; double t; unsigned id; uint64_t start; bool done; unsigned gen; };
    std::vector<Job> js(jobs);
    double t0 = now(), deadline = t0 + tsec;
    unsigned unreproduced = 0;
    std::string unrep_msg;
    auto launch = [&](Job& j) {
        memset(j.sh, 0, sizeof(Shared));
        std::string base = out + "." + std::to_string(j.id) + "." + std::to_string(j.gen);
        g_sh = j.sh;
        fflush(0);
        j.pid = fork();
        if (j.pid == 0) {
            set_limits(); setpgid(0, 0);
            redirect_child(base + ".log");
            worker(seed, j.id, j.start, cases, deadline, cov, base, only);
        }
        j.beat = 0; j.t = now(); j.done = false;
    };
    for (unsigned i = 0; i < jobs; ++i) {
        js[i].sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        js[i].id = i; js[i].start = 0; js[i].gen = 0;
        launch(js[i]);
    }
    int rc = 0;
    unsigned live = jobs;
    while (live) {
        usleep(5000);
        for (auto& j : js) {
            if (j.done) continue;
            int st = 0; pid_t w = waitpid(j.pid, &st, WNOHANG);
            bool failed = false; Result r; r.oc = HELD;
            if (w == j.pid) {
                kill(-j.pid, SIGKILL);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { j.done = true; --live; continue; }
                failed = true;
                if (j.sh->failed) { r.oc = FAILED; r.msg = j.sh->msg; }
                else { r.oc = CRASHED; r.msg = "died: " + tail_log(out + "." + std::to_string(j.id) + "." + std::to_string(j.gen) + ".log"); }
            } else {
                uint64_t b = j.sh->beat;
                if (b != j.beat) { j.beat = b; j.t = now(); }
                else if (now() - j.t > hang) { kill(-j.pid, SIGKILL); kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); failed = true; r.oc = HUNG; r.msg = "hang"; }
            }
            if (!failed) continue;
            uint32_t pi = j.sh->prop; r.ch.assign(j.sh->ch, j.sh->ch + j.sh->nch);
            // stop the others while confirming
            for (auto& o : js) if (!o.done && o.pid != j.pid) kill(-o.pid, SIGSTOP);
            bool nondet = props()[pi].flags & NONDET;
            unsigned need = nondet ? 1 : 3, att = nondet ? 60 : 3, ok = 0; Result first; double ct0 = now();
            for (unsigned a = 0; a < att && ok < need && now() - ct0 < 120; ++a) {
                Result c = run_forked(pi, r.ch, hang);
                if (c.oc != HELD) { if (!ok) first = c; if (c.oc == HUNG) { c.ch = r.ch; first.ch = r.ch; } ++ok; }
                else if (!nondet) break;
            }
            if (ok >= need) {
                for (auto& o : js) if (!o.done && o.pid != j.pid) { kill(-o.pid, SIGKILL); kill(o.pid, SIGKILL); int s2; waitpid(o.pid, &s2, 0); }
                fprintf(stderr, "failing case found after %.1f s (job %u, case %" PRIu64 "): %s\n", now() - t0, j.id, (uint64_t)j.sh->cases, first.msg.c_str());
                Shrinker k; k.pi = pi; k.best = first; k.deadline = now() + shrink_s; k.tmo = first.oc == HUNG ? 6 : hang; k.attempts = nondet ? 4 : 1;
                if (first.ch.empty() ) k.best.ch = r.ch;
                Result orig = k.best;
                k.go();
                // the shrunk case must still fail, three times for deterministic properties
                unsigned good = 0;
                for (unsigned a = 0; a < (nondet ? 60u : 3u) && good < need; ++a) { Result c = run_forked(pi, k.best.ch, hang); if (c.oc != HELD) ++good; }
                if (good < need) k.best = orig;
                write_replay(replay_out, pi, k.best);
                fprintf(stderr, "shrunk with %u runs to %zu choices: %s\n", k.runs, k.best.ch.size(), k.best.msg.c_str());
                printf("FAILED prop=%s msg=%s\n", props()[pi].name.c_str(), k.best.msg.c_str());
                rc = 1; live = 0; break;
            }
            ++unreproduced; unrep_msg = props()[pi].name + ": " + r.msg;
            fprintf(stderr, "not reproduced (counted, not reported): %s\n", unrep_msg.c_str());
            for (auto& o : js) if (!o.done && o.pid != j.pid) { kill(-o.pid, SIGCONT); o.t = now(); }
            if (unreproduced > 20) { j.done = true; --live; continue; }
            j.start = j.start + j.sh->cases + 1; j.gen++;
            launch(j);
        }
    }
    FILE* f = fopen((out + ".summary").c_str(), "w");
    if (f) { fprintf(f, "{\"rc\":%d,\"unreproduced\":%u,\"unreproduced_msg\":\"%s\",\"wall\":%.2f}\n", rc, unreproduced, jesc(unrep_msg).c_str(), now() - t0); fclose(f); }
    return rc;
}
