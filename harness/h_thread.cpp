// T-series: events, locks, threads, promises, loop threads
#include "common.h"
#include "noise.h"
#include <sstream>
#include <functional>
#include <dlfcn.h>
#include <pthread.h>
#include <cerrno>
#include <algorithm>
#include <deque>
#include <memory>
#include <map>
#include <set>
using namespace mg::core;

static uint64_t now_us() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static void spin_us(unsigned us) { if (!us) return; if (us > 60) { usleep(us); return; } uint64_t e = now_us() + us; while (now_us() < e) {} }
struct NoiseGuard { NoiseGuard(pbt::Source& s) { if (s.chance(70)) Noise::start((uint32_t)s.range(1, 0xffff), (uint32_t)s.range(1, 3)); } ~NoiseGuard() { Noise::off(); } };

// ---------------------------------------------------------------- events
PBT_PROP(event_state, 2, 0) {
    signal_event ev; bool m = false; std::ostringstream log; unsigned ops = 0, timed = 0, slept = 0;
    while (s.more(10) && ops < 60) {
        ++ops;
        switch (s.pick({ 4, 4, 4, 3, 2, 2 })) {
        case 0: log << "signal;"; ev.signal(); m = true; break;
        case 1: log << "reset;"; ev.reset(); m = false; break;
        case 2: log << "is;"; PBT_EQ((int)ev.is_signaled(), (int)m, "state query after " << log.str()); break;
        case 3: log << "wait0;"; PBT_EQ((int)ev.wait(0), (int)m, "wait(0) after " << log.str()); break;
        case 4: { unsigned ms = m ? (unsigned)s.edgy(0, 60000) : (unsigned)s.range(0, slept > 6 ? 0 : 4); slept += m ? 0 : ms; log << "wait" << ms << ";"; ++timed; s.say(log.str());
            uint64_t t0 = now_us(); bool r = ev.wait(ms); uint64_t el = now_us() - t0;
            PBT_EQ((int)r, (int)m, "wait(" << ms << ") after " << log.str());
            if (!r) PBT_CHECK(el + 1000 >= ms * 1000ull, "wait(" << ms << ") gave up after " << el << " us"); break; }
        default: if (m) { log << "wait;"; ev.wait(); } break;
        }
    }
    if (ops >= 3 && timed) s.nontrivial();
    if (s.want_sample()) s.sample("one thread: " + log.str());
}

// Waits of any length, under a clock of the harness: a timed wait on a condition ends at its limit or at a
// generated earlier moment (a spurious wake-up, or another thread that signals or resets the event).
namespace Vt {
    static thread_local bool on = false; static thread_local uint64_t now = 0; static thread_local std::function<uint64_t()> wake;   // next moment something happens
    static int timedwait(pthread_mutex_t* m, const timespec* abs) {
        uint64_t lim = abs->tv_sec * 1000000000ull + abs->tv_nsec; if (lim <= now) return ETIMEDOUT;
        pthread_mutex_unlock(m); uint64_t w = wake ? wake() : ~0ull; pthread_mutex_lock(m);   // other threads run while this one waits
        if (w < lim) { now = std::max(now, w); return 0; }
        now = lim; return ETIMEDOUT;
    }
}
extern "C" {
int clock_gettime(clockid_t id, timespec* t) { static int (*f)(clockid_t, timespec*) = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime"); if (Vt::on) { t->tv_sec = Vt::now / 1000000000; t->tv_nsec = Vt::now % 1000000000; return 0; } return f(id, t); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { static int (*f)(pthread_cond_t*, pthread_mutex_t*, const timespec*) = (int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"); return Vt::on ? Vt::timedwait(m, t) : f(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { static int (*f)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*) = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return Vt::on ? Vt::timedwait(m, t) : f(c, m, k, t); }
}
PBT_PROP(event_long_wait, 2, 0) {
    struct Off { ~Off() { Vt::on = false; Vt::wake = nullptr; } } off; signal_event ev; std::ostringstream log; unsigned rounds = (unsigned)s.range(1, 4), sig = 0, spur = 0; uint64_t longest = 0;
    Vt::now = s.edgy(0, 1ull << 50); Vt::on = true; std::string bad;
    for (unsigned r = 0; r < rounds; ++r) {
        uint32_t ms = (uint32_t)s.edgy(0, 0xffffffffu); uint64_t t0 = Vt::now, lim = t0 + ms * 1000000ull; bool pre = s.chance(15); if (pre) ev.signal(); else ev.reset();
        // what happens while it waits
        struct E { uint64_t at; int k; }; std::deque<E> es; unsigned n = (unsigned)s.small(0, 5); for (unsigned i = 0; i < n; ++i) es.push_back({ t0 + s.edgy(0, ms * 1000000ull + 1000), (int)s.pick({ 4, 2, 1 }) }); std::sort(es.begin(), es.end(), [](const E& a, const E& b) { return a.at < b.at; });
        log << "wait " << ms << (pre ? " signalled" : "") << ": "; for (auto& e : es) log << (e.k == 0 ? "spurious" : e.k == 1 ? "signal" : "reset") << "+" << e.at - t0 << " "; s.say(log.str());
        uint64_t done = 0; bool want = pre; if (!pre) for (auto& e : es) if (e.k == 1 && e.at < lim) { want = true; done = e.at; break; }
        Vt::wake = [&]() -> uint64_t { if (es.empty()) return ~0ull; E e = es.front(); if (e.at >= lim) return ~0ull; es.pop_front(); if (e.k == 1) { ev.signal(); ++sig; } else if (e.k == 2) ev.reset(); else ++spur; return e.at; };
        bool got = ev.wait(ms); Vt::wake = nullptr; uint64_t el = Vt::now - t0;
        PBT_EQ((int)got, (int)want, "result of " << log.str()); if (!want) PBT_CHECK(el >= ms * 1000000ull && el <= ms * 1000000ull + 1000000000ull, "wait(" << ms << ") that failed took " << el << " ns, " << log.str()); else if (pre) PBT_EQ(el, (uint64_t)0, "time of a wait for a signalled event, " << log.str()); else PBT_EQ(Vt::now, std::max(t0, done), "end of the wait, " << log.str());
        PBT_EQ((int)ev.is_signaled(), (int)want, "state after " << log.str()); longest = std::max<uint64_t>(longest, el);
    }
    if (sig) s.label("signalled"); if (spur) s.label("spurious-wake-up"); if (longest > 5000000000000ull) s.label("over-an-hour"); if (rounds > 1 || sig || spur) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}

// every thread waiting, or starting to wait later, gets out once the event is signalled and not reset
PBT_PROP(event_release_all, 4, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned n = (unsigned)s.range(1, 6), rounds = (unsigned)s.range(1, 8);
    std::vector<unsigned> delay, kind; std::ostringstream log;
    for (unsigned i = 0; i < n; ++i) { delay.push_back((unsigned)s.edgy(0, 120)); kind.push_back((unsigned)s.pick({ 3, 3, 1 })); }
    unsigned sd = (unsigned)s.edgy(0, 150);
    log << n << " waiters, delays"; for (unsigned i = 0; i < n; ++i) log << " " << delay[i] << (kind[i] == 0 ? "u wait" : kind[i] == 1 ? "u timed" : "u poll"); log << ", signal after " << sd << "us, rounds " << rounds; s.say(log.str());
    for (unsigned r = 0; r < rounds; ++r) {
        signal_event ev; std::atomic<unsigned> out{ 0 }, bad{ 0 }, started{ 0 }; std::vector<std::thread> th;
        for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i] {
            started++; while (started < n) std::this_thread::yield();
            spin_us(delay[i]);
            if (kind[i] == 0) ev.wait();
            else if (kind[i] == 1) { if (!ev.wait(600000)) bad++; }
            else while (!ev.wait(1)) {}
            if (!ev.is_signaled()) bad++;
            out++;
        });
        while (started < n) std::this_thread::yield();
        spin_us(sd); ev.signal();
        for (auto& t : th) t.join();
        PBT_EQ(out.load(), n, "waiters released"); PBT_EQ(bad.load(), 0u, "waiters that returned without the signal");
    }
    s.label("waiters=" + std::to_string(n)); if (n > 1) s.nontrivial();
    if (s.want_sample()) s.sample(log.str());
}

// hand over: two threads take turns through two events; no signal may get lost
PBT_PROP(event_ping_pong, 4, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned rounds = (unsigned)s.range(1, 300); int kind = (int)s.range(0, 2); unsigned jit = (unsigned)s.edgy(0, 20);
    signal_event a, b; uint64_t shared = 0; std::atomic<unsigned> bad{ 0 };
    auto w = [&](signal_event& e, unsigned i) { if (kind == 0 || (kind == 2 && i % 2)) e.wait(); else if (!e.wait(600000)) bad++; e.reset(); };
    std::thread t([&] { for (unsigned i = 0; i < rounds; ++i) { w(a, i); if (shared != 2 * i) bad++; shared++; if (jit) spin_us(i * 7 % (jit + 1)); b.signal(); } });
    for (unsigned i = 0; i < rounds; ++i) { if (jit) spin_us(i * 5 % (jit + 1)); a.signal(); w(b, i); if (shared != 2 * i + 1) bad++; shared++; }
    t.join();
    PBT_EQ(bad.load(), 0u, "hand overs out of turn or timed out"); PBT_EQ(shared, 2ull * rounds, "hand overs");
    if (rounds > 4) s.nontrivial();
    if (s.want_sample()) s.sample("ping-pong rounds=" + std::to_string(rounds) + " kind=" + std::to_string(kind) + " jitter=" + std::to_string(jit));
}

// a timed wait that fails really waited; one whose signal came first succeeds
PBT_PROP(event_timed, 2, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned n = (unsigned)s.range(1, 5), ms = (unsigned)s.range(0, 12); unsigned churn = (unsigned)s.range(0, 3);
    signal_event ev; std::atomic<bool> stop{ false }; std::atomic<unsigned> early{ 0 }, wrong{ 0 }; std::vector<std::thread> th; std::atomic<uint64_t> worst{ 0 };
    for (unsigned i = 0; i < n; ++i) th.emplace_back([&] { uint64_t t0 = now_us(); bool r = ev.wait(ms); uint64_t el = now_us() - t0; if (r) wrong++; else if (el + 1000 < ms * 1000ull) { early++; worst = el; } });
    std::vector<std::thread> pollers; for (unsigned i = 0; i < churn; ++i) pollers.emplace_back([&] { while (!stop) { if (ev.is_signaled()) wrong++; ev.reset(); } });
    for (auto& t : th) t.join(); stop = true; for (auto& t : pollers) t.join();
    PBT_EQ(wrong.load(), 0u, "waits on a never signalled event that succeeded");
    PBT_EQ(early.load(), 0u, "waits of " << ms << " ms that gave up early (one after " << worst.load() << " us)");
    // signalled before the wait starts: succeeds whatever the timeout and the other users
    ev.signal(); stop = false; th.clear(); pollers.clear();
    for (unsigned i = 0; i < churn; ++i) pollers.emplace_back([&] { while (!stop) { if (!ev.is_signaled()) wrong++; } });
    for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i] { for (unsigned k = 0; k < 40; ++k) { if (!ev.wait(i % 2 ? 0 : ms)) wrong++; if (k % 8 == 0) ev.signal(); } });
    for (auto& t : th) t.join(); stop = true; for (auto& t : pollers) t.join();
    PBT_EQ(wrong.load(), 0u, "queries of a signalled event that failed");
    if (n + churn > 1) s.nontrivial();
    if (s.want_sample()) s.sample("timed wait " + std::to_string(ms) + " ms by " + std::to_string(n) + " threads with " + std::to_string(churn) + " pollers");
}

// ---------------------------------------------------------------- locks
PBT_PROP(lock_exclusion, 4, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned nt = (unsigned)s.range(2, 6), per = (unsigned)s.range(1, 120); unsigned pat = (unsigned)s.range(0, 0xffff);
    critical_section cs; int owner = -1; uint64_t counter = 0; std::atomic<unsigned> bad{ 0 }; std::atomic<uint64_t> done{ 0 }; std::vector<std::thread> th; unsigned maxdepth = 1 + pat % 4;
    for (unsigned i = 0; i < nt; ++i) th.emplace_back([&, i] {
        uint32_t r = pat * 31 + i * 977 + 1;
        for (unsigned k = 0; k < per; ++k) {
            r = r * 1664525u + 1013904223u; unsigned op = (r >> 16) % 5, depth = 1 + (r >> 24) % maxdepth;
            auto body = [&] { if (owner != -1 && owner != (int)i) bad++; owner = i; uint64_t c = counter; if ((r >> 8) & 1) sched_yield(); counter = c + 1; if (owner != (int)i) bad++; owner = -1; done++; };
            if (op == 0) { if (cs.try_lock()) { body(); cs.unLock(); } }
            else if (op == 1) { auto_lock l(cs); auto_lock l2(cs); body(); }
            else if (op == 2) { try { auto_lock l(cs); body(); throw 1; } catch (int) {} }
            else if (op == 3) { cs.lock(); unsigned d = 1; for (; d < depth; ++d) { if ((r >> d) & 1) cs.lock(); else if (!cs.try_lock()) { bad++; break; } } body(); for (; d > 1; --d) cs.unLock();
                // still owned once
                if (owner != -1) bad++; owner = i; if ((r >> 9) & 1) sched_yield(); if (owner != (int)i) bad++; owner = -1; cs.unLock(); }
            else { cs.lock(); body(); cs.unLock(); }
        }
    });
    for (auto& t : th) t.join();
    PBT_EQ(bad.load(), 0u, "times two threads were inside at once, or the owner could not enter again");
    PBT_EQ(counter, done.load(), "updates kept");
    s.nontrivial();
    if (s.want_sample()) s.sample(std::to_string(nt) + " threads x " + std::to_string(per) + " sections, nesting up to " + std::to_string(maxdepth));
}

// The lock is held for long: whatever time limit a waiting thread may set itself (timed lock, sleeping between
// tries) passes at once for it, so a wait that gives up shows within milliseconds.
namespace Ht { static std::atomic<bool> on{ false }; static thread_local bool fast = false; }
extern "C" {
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { static auto f = (int (*)(pthread_mutex_t*, const timespec*))dlsym(RTLD_NEXT, "pthread_mutex_timedlock"); if (!Ht::on) return f(m, t); int r = pthread_mutex_trylock(m); return r == EBUSY ? ETIMEDOUT : r; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { static auto f = (int (*)(pthread_mutex_t*, clockid_t, const timespec*))dlsym(RTLD_NEXT, "pthread_mutex_clocklock"); if (!Ht::on) return f(m, c, t); int r = pthread_mutex_trylock(m); return r == EBUSY ? ETIMEDOUT : r; }
int usleep(useconds_t u) { static auto f = (int (*)(useconds_t))dlsym(RTLD_NEXT, "usleep"); if (Ht::fast) { sched_yield(); return 0; } return f(u); }
int nanosleep(const timespec* a, timespec* b) { static auto f = (int (*)(const timespec*, timespec*))dlsym(RTLD_NEXT, "nanosleep"); if (Ht::fast) { sched_yield(); return 0; } return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { static auto f = (int (*)(clockid_t, int, const timespec*, timespec*))dlsym(RTLD_NEXT, "clock_nanosleep"); if (Ht::fast) { sched_yield(); return 0; } return f(c, fl, a, b); }
}
PBT_PROP(lock_held, 1, pbt::NONDET) {
    struct Off { ~Off() { Ht::on = false; } } off; critical_section cs; unsigned nt = (unsigned)s.range(1, 5), depth = (unsigned)s.range(1, 3); uint64_t us = s.chance(2) ? 400000 : s.edgy(0, 12000); std::atomic<bool> inside{ false }; std::atomic<unsigned> bad{ 0 }, in{ 0 }, arrived{ 0 }; unsigned how = (unsigned)s.range(0, 255);
    Ht::on = true; for (unsigned i = 0; i < depth; ++i) cs.lock(); inside = true; std::vector<std::thread> th;
    for (unsigned i = 0; i < nt; ++i) th.emplace_back([&, i] { Ht::fast = true; ++arrived; bool out; if (how >> i & 1) { auto_lock l(cs); out = inside; ++in; if (!out) { inside = true; sched_yield(); inside = false; } else ++bad; } else { cs.lock(); out = inside; ++in; if (!out) { inside = true; sched_yield(); inside = false; cs.unLock(); } else ++bad; } });
    while (arrived < nt) sched_yield(); usleep((useconds_t)us); bool early = bad != 0 || in != 0; inside = false; for (unsigned i = 0; i < depth; ++i) cs.unLock(); for (auto& t : th) t.join(); PBT_CHECK(!early, "a waiting thread entered while the lock was held for " << us << " us"); PBT_CHECK(bad == 0, "a waiting thread entered while another one was inside"); PBT_EQ(in.load(), nt, "threads that entered"); s.nontrivial(); if (us > 100000) s.label("long"); if (s.want_sample()) s.sample(std::to_string(nt) + " threads wait " + std::to_string(us) + " us");
}
PBT_PROP(lock_try, 2, pbt::NONDET) {
    critical_section cs; std::ostringstream log; int depth = 0; unsigned ops = 0;
    auto other = [&](bool want) { bool got = false; std::thread t([&] { got = cs.try_lock(); if (got) cs.unLock(); }); t.join(); PBT_EQ((int)got, (int)want, "another thread's try at depth " << depth << " after " << log.str()); };
    while (s.more(8) && ops++ < 40) switch (s.pick({ 3, 2, 4, 3 })) {
        case 0: cs.lock(); ++depth; log << "lock;"; break;
        case 1: PBT_CHECK(cs.try_lock(), "the owner's try failed at depth " << depth); ++depth; log << "try;"; break;
        case 2: if (depth) { cs.unLock(); --depth; log << "unlock;"; } break;
        default: other(depth == 0); log << "other;"; break;
    }
    while (depth) { other(false); cs.unLock(); --depth; }
    other(true);
    if (ops > 2) s.nontrivial();
    if (s.want_sample()) s.sample("lock history: " + log.str());
}

// ---------------------------------------------------------------- threads
namespace { struct TestThread : cthread {
    std::atomic<int> runs{ 0 }, finished{ 0 }; std::thread::id tid; unsigned work_us = 0, poll = 0; bool until_stop = false; uint64_t result = 0; std::atomic<int> polls{ 0 }; std::atomic<bool> saw_stop_early{ false }; std::atomic<bool> stop_called{ false }, stop_returned{ false };
    void run() override {
        runs++; tid = std::this_thread::get_id();
        if (until_stop) { for (;;) { bool sc = stop_returned; bool ss = should_stop(poll); polls++; if (ss) { if (!stop_called) saw_stop_early = true; break; } if (sc) { saw_stop_early = true; break; } } }
        else spin_us(work_us);
        result = 0x1234; finished++;
    }
}; }

PBT_PROP(thread_lifecycle, 3, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned n = (unsigned)s.range(1, 4); std::vector<std::unique_ptr<TestThread>> th; std::ostringstream log;
    for (unsigned i = 0; i < n; ++i) { std::unique_ptr<TestThread> t(new TestThread); t->until_stop = s.chance(60); t->work_us = (unsigned)s.edgy(0, 300); t->poll = (unsigned)s.pick({ 2, 2, 1 }) ; if (t->poll == 2) t->poll = 60000; log << (t->until_stop ? "until-stop poll=" : "work=") << (t->until_stop ? t->poll : t->work_us) << ";"; th.push_back(std::move(t)); }
    s.say(log.str());
    for (auto& t : th) { PBT_CHECK(!t->is_done(), "done before it was started"); t->start(); }
    unsigned wait = (unsigned)s.edgy(0, 200); spin_us(wait);
    for (auto& t : th) if (t->until_stop) PBT_CHECK(!t->is_done(0), "a thread that waits for stop is done before stop");
    int order = (int)s.range(0, 2);
    for (auto& t : th) {
        if (t->until_stop) { t->stop_called = true; t->stop(); t->stop_returned = true; if (order == 1) t->stop(); }
        if (order) { PBT_CHECK(t->is_done(600000), "not done after it ended"); PBT_CHECK(t->is_done(), "done state lost"); PBT_EQ(t->finished.load(), 1, "runs finished when reported done"); }
        t->join();
        PBT_EQ(t->finished.load(), 1, "runs finished after join"); PBT_EQ(t->runs.load(), 1, "runs"); PBT_EQ(t->result, 0x1234ull, "result visible after join");
        PBT_CHECK(t->is_done(), "not done after join"); PBT_CHECK(t->tid != std::this_thread::get_id(), "ran on the caller's thread");
        PBT_CHECK(!t->saw_stop_early, "the stop request was seen before it was made, or missed after");
        if (s.chance(30)) t->join();
    }
    s.label("threads=" + std::to_string(n)); if (n > 1 || th[0]->until_stop) s.nontrivial();
    if (s.want_sample()) s.sample(log.str() + " order=" + std::to_string(order));
}

// ---------------------------------------------------------------- promises
typedef CPromise<int> P;
namespace { struct Boom { int id; }; }

// a chain of promises, handlers attached before and after the completion, handlers that throw:
// the result is one token that moves down the chain
PBT_PROP(promise_chain, 16, 0) {
    unsigned n = (unsigned)s.range(1, 4); std::vector<CResource<P>> p; std::ostringstream log;
    { CResource<P> r; r.Create(); p.push_back(r); }
    for (unsigned i = 1; i < n; ++i) p.push_back(p[i - 1]->forward());
    bool rethrow = s.chance(25);     // default error handlers: everything surfaces at the caller
    struct H { bool cb = false, er = false, throws = false, further = false; int boom = 0; }; std::vector<H> h(n), set(n);
    for (unsigned i = 0; i < n; ++i) { h[i].cb = !s.chance(12); h[i].er = rethrow || !s.chance(20); h[i].throws = s.chance(20); h[i].further = s.chance(60); h[i].boom = 100 + i; }
    // operations in a generated order: attach cb i, attach er i, complete
    struct Op { int k; unsigned i; }; std::vector<Op> ops;
    bool fail = s.chance(30); int val = (int)s.range(0, 1000);
    ops.push_back(Op{ 2, 0 });
    for (unsigned i = 0; i < n; ++i) { if (h[i].er) ops.push_back(Op{ 1, i }); if (h[i].cb) ops.push_back(Op{ 0, i }); }
    for (size_t i = ops.size(); i > 1; --i) { size_t j = (size_t)s.range(0, i - 1); std::swap(ops[i - 1], ops[i - 1 - (j % i)]); }
    if (rethrow) { std::stable_sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return (a.k == 1) > (b.k == 1); }); }
    std::vector<std::string> got, want;
    int tok = 0; size_t at = 0; int terr = 0; // tok: 0 none 1 value 2 error 3 gone
    auto advance = [&]() -> int { for (;;) {
        if (tok == 1) { if (at >= n) { tok = 3; return 0; } if (!set[at].cb) return 0; want.push_back("cb" + std::to_string(at) + "=" + std::to_string(val)); if (h[at].throws) { tok = 2; terr = h[at].boom; } else ++at; }
        else if (tok == 2) { if (at >= n) { tok = 3; return 0; } if (!set[at].er) return 0; if (rethrow) { tok = 3; return terr; } want.push_back("er" + std::to_string(at) + "=" + std::to_string(terr)); if (h[at].further) ++at; else { tok = 3; return 0; } }
        else return 0; } };
    unsigned afterset = 0; bool completed = false;
    for (auto& o : ops) {
        int surfaced = 0, expect; unsigned i = o.i;
        try {
            if (o.k == 0) { log << "cb" << i << (h[i].throws ? "!" : "") << ";"; if (completed) ++afterset; p[i]->set_cb([&got, &h, i](CResource<int>& v) { got.push_back("cb" + std::to_string(i) + "=" + std::to_string(*v.operator->())); if (h[i].throws) throw Boom{ h[i].boom }; }); }
            else if (o.k == 1) { log << "er" << i << (rethrow ? "^" : h[i].further ? ">" : "") << ";"; if (completed) ++afterset;
                if (rethrow) p[i]->set_er();
                else p[i]->set_er([&got, &h, i](std::exception_ptr e) -> bool { int id = -1; try { std::rethrow_exception(e); } catch (Boom& b) { id = b.id; } catch (...) {} got.push_back("er" + std::to_string(i) + "=" + std::to_string(id)); return h[i].further; }); }
            else { completed = true; if (fail) { log << "fail;"; p[0]->call_er(std::make_exception_ptr(Boom{ 7 })); } else { log << "value;"; CResource<int> v(new int(val)); p[0]->call_cb(v); } }
        } catch (Boom& b) { surfaced = b.id; }
        if (o.k == 0) set[i].cb = true; else if (o.k == 1) set[i].er = true; else { tok = fail ? 2 : 1; at = 0; terr = 7; }
        expect = advance();
        s.say(log.str());
        PBT_EQ(surfaced, expect, "error surfacing at the caller (0 = none) after " << log.str());
        if (got != want) { std::ostringstream o2; for (auto& x : got) o2 << x << " "; o2 << " expected "; for (auto& x : want) o2 << x << " "; PBT_CHECK(false, "deliveries after " << log.str() << ": " << o2.str()); }
    }
    s.label(rethrow ? "rethrow" : fail ? "failure" : "value"); if (afterset) s.label("attached-late"); if (n > 1) s.label("chain");
    if (n > 1 || afterset) s.nontrivial();
    if (s.want_sample()) s.sample("chain of " + std::to_string(n) + ": " + log.str());
}

// completion and attachment race on two threads: still exactly one delivery
PBT_PROP(promise_race, 1, pbt::NONDET) {
    NoiseGuard ng(s);
    unsigned rounds = (unsigned)s.range(1, 30), d1 = (unsigned)s.edgy(0, 15), d2 = (unsigned)s.edgy(0, 15); bool fail = s.chance(40), chain = s.chance(50), both = s.chance(50);
    std::atomic<unsigned> go{ 0 }, ready{ 0 }, bad{ 0 }; std::vector<CResource<P>> ps; for (unsigned i = 0; i < rounds; ++i) { CResource<P> r; r.Create(); ps.push_back(r); }
    std::vector<std::unique_ptr<std::atomic<int>>> cnt, ecnt; for (unsigned i = 0; i < rounds; ++i) { cnt.emplace_back(new std::atomic<int>(0)); ecnt.emplace_back(new std::atomic<int>(0)); }
    if (chain) for (auto& p : ps) { p->set_cb([](CResource<int>&) {}); p->set_er([](std::exception_ptr) { return true; }); p->forward(); }
    std::thread t([&] { for (unsigned i = 0; i < rounds; ++i) { while (go <= i) {} spin_us(d1); if (fail) ps[i]->call_er(std::make_exception_ptr(Boom{ 3 })); else { CResource<int> v(new int(5)); ps[i]->call_cb(v); } ready++; } });
    for (unsigned i = 0; i < rounds; ++i) {
        CResource<P> target = chain ? ps[i]->forward() : ps[i]; std::atomic<int>*c = cnt[i].get(), *e = ecnt[i].get();
        go++; spin_us(d2);
        auto cb = [c, &bad](CResource<int>& v) { if (*v.operator->() != 5) bad++; (*c)++; }; auto er = [e](std::exception_ptr) { (*e)++; return false; };
        if (both) { target->set_er(er); target->set_cb(cb); } else { target->set_cb(cb); target->set_er(er); }
        while (ready <= i) {}
    }
    t.join();
    for (unsigned i = 0; i < rounds; ++i) { PBT_EQ(cnt[i]->load(), fail ? 0 : 1, "value deliveries in round " << i); PBT_EQ(ecnt[i]->load(), fail ? 1 : 0, "error deliveries in round " << i); }
    PBT_EQ(bad.load(), 0u, "wrong values");
    s.nontrivial(); s.label(chain ? "chain" : "single");
    if (s.want_sample()) s.sample("race rounds=" + std::to_string(rounds) + (fail ? " error" : " value") + (chain ? " chain" : ""));
}

// ---------------------------------------------------------------- loop threads
namespace {
struct Work { uv_work_t w; uv_timer_t t; int id; std::vector<int>* order; std::atomic<int>* done; bool boom; int kind; unsigned us; int what; };
void work_do(uv_work_t* w) { spin_us(((Work*)w->data)->us); }
void work_fin(Work* k) { k->order->push_back(k->id); (*k->done)++; if (k->boom) { if (k->what == 1) throw std::runtime_error("boom"); if (k->what == 2) throw k->id; throw mgexception(-500 - k->id, "boom", "harness", k->id); } }
void work_after(uv_work_t* w, int) { work_fin((Work*)w->data); }
void timer_cb(uv_timer_t* t) { Work* k = (Work*)t->data; uv_close((uv_handle_t*)t, 0); work_fin(k); }
}

// everything handed to the loop before end() has run when end() returns; the first exception
// comes out of end(), once
PBT_PROP(loop_thread, 4, pbt::NONDET) {
    QuietStdout q; NoiseGuard ng(s);
    unsigned n = s.chance(3) ? (unsigned)s.range(13, 150) : (unsigned)s.small(0, 12); int boom = s.chance(35) && n ? (int)s.range(0, n - 1) : -1; bool early = s.chance(20); unsigned delay = (unsigned)s.edgy(0, 300), wt = s.chance(70) ? 1 : 100; int endmode = (int)s.range(0, 2); bool kick = s.chance(50); int what = s.chance(50) ? 0 : (int)s.range(1, 2);   // what is thrown: an error of the library, a standard exception, a number
    std::deque<Work> ws; std::vector<int> order; std::atomic<int> done{ 0 }; std::ostringstream log;
    log << n << " jobs" << (boom >= 0 ? ", job " + std::to_string(boom) + " throws " + (what == 1 ? "a standard exception" : what == 2 ? "a number" : "an error") : std::string()) << ", started " << (early ? "before" : "after") << " the thread, pause " << delay << "us, end mode " << endmode; s.say(log.str());
    int caught = 0, second = 0;
    {
        mg::uv::loopthread lt; lt.Create(); lt->set_wait_time(wt);
        auto submit = [&](unsigned i) { ws.emplace_back(); Work& k = ws.back(); k.id = i; k.order = &order; k.done = &done; k.boom = (int)i == boom; k.what = what; k.kind = (int)s.range(0, 1); k.us = (unsigned)s.edgy(0, 100);
            auto_lock l(lt->loop_lock());
            if (k.kind) { k.t.data = &k; uv_timer_init(lt->get_loop(), &k.t); uv_timer_start(&k.t, timer_cb, s.range(0, 3), 0); }
            else { k.w.data = &k; uv_queue_work(lt->get_loop(), &k.w, work_do, work_after); } };
        unsigned i = 0; if (early) for (; i < n; ++i) submit(i);
        lt->start();
        for (; i < n; ++i) { submit(i); if (kick) lt->loop_now(); if (s.chance(20)) spin_us((unsigned)s.edgy(0, 100)); }
        if (boom >= 0) { // the thread ends by itself
            lt->loop_now(); bool d = lt->is_done(600000); PBT_CHECK(d, "the loop thread goes on after the exception"); PBT_CHECK(done > 0, "no job ran"); }
        else if (delay) spin_us(delay);
        if (endmode == 1) { lt->stop(); lt->loop_now(); }
        try { lt->end(); } catch (mgexceptionbase& e) { caught = e.get_error_number(); } catch (std::runtime_error& e) { caught = std::string(e.what()) == "boom" ? -10000 : 1; } catch (int e) { caught = -20000 - e; }
        PBT_CHECK(lt->is_done(), "end() returned before the thread was done");
        if (endmode == 2) try { lt->check_exception(); } catch (...) { second = 1; }
        if (boom < 0) PBT_EQ(done.load(), (int)n, "jobs run when end() returned");
        PBT_EQ(caught, boom < 0 ? 0 : what == 1 ? -10000 : what == 2 ? -20000 - boom : -500 - boom, "error number out of end() (0 = none)");
        PBT_EQ(second, 0, "the exception came out twice");
        // handles left in a loop that died must not be freed under it
        if (boom >= 0) { s.label("boom"); new mg::uv::loopthread(lt); new std::deque<Work>(std::move(ws)); }
    }
    std::set<int> u(order.begin(), order.end()); PBT_EQ(u.size(), order.size(), "jobs completed twice");
    if (n > 1) s.nontrivial();
    if (s.want_sample()) s.sample(log.str());
}
