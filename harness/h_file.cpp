// F-series: files.  The operating system layer (open, pread, pwrite as called by libuv's thread pool) is
// interposed: delays order the completions, errors and short transfers are injected.
#include "bits.h"
#include <algorithm>
#include <map>
#include <set>
#include <cerrno>
#include <cstdarg>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace Io {
struct Rule { unsigned delay = 0; int err = 0; int64_t cut = -1; };
static std::mutex m; static std::map<std::pair<int, uint64_t>, Rule> rules; static std::atomic<bool> on{ false }; static std::atomic<uint64_t> calls{ 0 }; static std::atomic<int> open_err{ 0 };
static void reset() { std::lock_guard<std::mutex> l(m); rules.clear(); open_err = 0; on = true; calls = 0; }
static void set(int type, uint64_t off, Rule r) { std::lock_guard<std::mutex> l(m); rules[{ type, off }] = r; }
static bool get(int type, uint64_t off, Rule& r) { std::lock_guard<std::mutex> l(m); auto i = rules.find({ type, off }); if (i == rules.end()) return false; r = i->second; return true; }
static void touch(const void* p, size_t n) {
#if defined(__SANITIZE_ADDRESS__)
    if (n && __asan_region_is_poisoned(const_cast<void*>(p), n)) pbt::fail_now("a file operation was given memory that is not (or no longer) allocated");
#endif
}
static ssize_t rd(int fd, void* b, size_t n, off64_t off) {
    if (on) { ++calls; touch(b, n); Rule r; if (get(0, off, r)) { if (r.delay) usleep(r.delay); if (r.err) { errno = r.err; return -1; } if (r.cut >= 0 && (size_t)r.cut < n) n = r.cut; } }
    return syscall(SYS_pread64, fd, b, n, off);
}
static ssize_t wr(int fd, const void* b, size_t n, off64_t off) {
    if (on) { ++calls; touch(b, n); Rule r; if (get(1, off, r)) { if (r.delay) usleep(r.delay); if (r.err) { errno = r.err; return -1; } if (r.cut >= 0 && (size_t)r.cut < n) n = r.cut; } }
    return syscall(SYS_pwrite64, fd, b, n, off);
}
}
extern "C" {
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return Io::rd(fd, b, n, o); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return Io::rd(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return Io::wr(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return Io::wr(fd, b, n, o); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
    if (Io::on && Io::open_err && strstr(p, "/hf.")) { errno = Io::open_err; return -1; }
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl | O_LARGEFILE, mode); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return open64(p, fl, mode); }
}
static struct Env { Env() { setenv("UV_USE_IO_URING", "0", 1); setenv("UV_THREADPOOL_SIZE", "8", 1); } } env_;

static std::string tmp_path(const char* what) { const char* t = getenv("VERIF_TMP"); static unsigned n = 0; return std::string(t ? t : "/tmp") + "/hf." + std::to_string(getpid()) + "." + what + std::to_string(n++ % 4); }
static void put_file(const std::string& p, const Bytes& d) { FILE* f = fopen(p.c_str(), "wb"); PBT_CHECK(f, "scratch file"); if (d.size()) fwrite(d.data(), 1, d.size(), f); fclose(f); }
static Bytes get_file(const std::string& p) { Bytes d; FILE* f = fopen(p.c_str(), "rb"); if (!f) return d; fseeko(f, 0, SEEK_END); d.resize(ftello(f)); rewind(f); if (d.size() && fread(d.data(), 1, d.size(), f) != d.size()) d.clear(); fclose(f); return d; }
struct Gone { std::string p; ~Gone() { unlink(p.c_str()); } };

typedef mg::uv::loopthread Loop;
static Loop make_loop(bool start) { Loop l; l.Create(); l->set_wait_time(1); if (start) l->start(); return l; }
static void drain(cfile& f, Loop& l) { for (unsigned i = 0; i < 40000; ++i) { if (!f.outstanding()) { auto_lock k(l->loop_lock()); /* the last callback has ended */ if (!f.outstanding()) break; } l->loop_now(); usleep(300); } PBT_EQ(f.outstanding(), 0, "requests that never complete"); }
template<class P> static bool wait_promise(P p, int& err) {   // waits for an outcome of an asynchronous open/close
    auto st = std::make_shared<std::atomic<int>>(0); auto code = std::make_shared<std::atomic<int>>(0);
    p->set_er([st, code](std::exception_ptr e) { try { std::rethrow_exception(e); } catch (mgexceptionbase& x) { *code = x.get_error_number(); } catch (...) {} *st = 2; return false; });
    p->set_cb([st](CResource<uv_fs_t>&) { *st = 1; });
    for (unsigned i = 0; !*st && i < 40000; ++i) usleep(100);
    err = *code; return *st == 1;
}

// ---------------------------------------------------------------- writing
namespace { struct WReq { uint64_t pos; Bytes data; std::atomic<int> cbs{ 0 }; std::atomic<int64_t> res{ -1 }; int64_t cut = -1; }; }

static void apply(Bytes& m, uint64_t pos, const uint8_t* p, size_t n) { if (!n) return; if (m.size() < pos + n) m.resize(pos + n); memcpy(m.data() + pos, p, n); }

PBT_PROP(file_write, 3, pbt::NONDET) {
    QuietStdout q; Io::reset();
    std::string path = tmp_path("w"); Gone gone{ path }; unlink(path.c_str());
    Bytes model; bool exists = s.chance(40), trunc = s.chance(50);
    if (exists) { model = s.blob((size_t)s.range(0, 500)); put_file(path, model); if (trunc) model.clear(); }
    bool early = s.chance(70), aopen = early && s.chance(40), aclose = s.chance(50); std::ostringstream log; unsigned maxdelay = (unsigned)s.pick({ 1, 2, 2 }) * 400;
    std::deque<WReq> reqs; unsigned batches = 0, waits = 0, chained = 0, seeks = 0, shorts = 0;
    {
        Loop lt = make_loop(early); cfile f(lt); int flags = O_CREAT | O_WRONLY | (trunc ? O_TRUNC : 0);
        if (aopen) { int e; PBT_CHECK(wait_promise(f.open(path.c_str(), flags), e), "asynchronous open failed with " << e); drain(f, lt); } else f.open_sync(path.c_str(), flags);
        std::vector<std::pair<uint64_t, uint64_t>> busy; unsigned ops = 0; uint64_t pos = 0;
        auto add = [&](uint64_t p, size_t n) -> WReq& { reqs.emplace_back(); WReq& r = reqs.back(); r.pos = p; r.data = s.blob(n); Io::Rule rule; rule.delay = maxdelay ? (unsigned)s.range(0, maxdelay) : 0; if (s.chance(4) && n > 1) { /* short: the rest is written by a second call, or fails */ rule.cut = (int64_t)s.range(1, n - 1); ++shorts; Io::Rule more; if (s.chance(60)) { more.err = ENOSPC; r.cut = rule.cut; } Io::set(1, p + rule.cut, more); } Io::set(1, p, rule); apply(model, p, r.data.data(), r.cut >= 0 ? r.cut : n); busy.push_back({ p, p + n }); return r; };
        auto clash = [&](uint64_t a, uint64_t b) { for (auto& x : busy) if (a < x.second && x.first < b) return true; return false; };
        auto sync = [&] { drain(f, lt); busy.clear(); ++waits; };
        unsigned batch = 0; bool locked = false; auto unlock = [&] { if (locked) { lt->loop_lock().unLock(); locked = false; } };
        while (s.more(12) && ops++ < 50) {
            s.say(log.str());
            switch (s.pick({ 8, 3, 2, 2 })) {
            case 0: { size_t n = (size_t)(s.chance(10) ? s.edgy(1, 70000) : s.small(1, 300));
                bool chain = s.chance(20); size_t n2 = chain ? (size_t)s.small(1, 100) : 0;
                if (clash(pos, pos + n + n2)) { if (!early) break; unlock(); sync(); }
                if (batch && early && !locked) { lt->loop_lock().lock(); locked = true; ++batches; }
                WReq* r = &add(pos, n); log << "write(" << n << ")@" << pos << ";"; PBT_EQ(f.get_position(), pos, "position before the write");
                // the caller's block may be reused at once
                Bytes mine = r->data;
                auto p = f.write(mine.data(), (uint32_t)n); pos += n; PBT_EQ(f.get_position(), pos, "position after the write");
                std::fill(mine.begin(), mine.end(), 0xee);
                WReq* r2 = nullptr; if (chain && locked) { r2 = &add(pos, n2); ++chained; log << "then write(" << n2 << ")@" << pos << ";"; pos += n2; }
                cfile* pf = &f;
                p->set_er().set_cb([r, r2, pf](CResource<uv_fs_t>& u) { r->res = u->result; r->cbs++;
                    if (r2) { uint64_t keep = pf->get_position(); pf->set_position(r2->pos); pf->write(r2->data.data(), (uint32_t)r2->data.size())->set_er().set_cb([r2](CResource<uv_fs_t>& u2) { r2->res = u2->result; r2->cbs++; }); pf->set_position(keep); } });
                if (r2) { unlock(); sync(); f.set_position(pos); batch = 0; }
                if (batch && --batch == 0) unlock();
                break; }
            case 1: { ++seeks; pos = s.chance(20) ? s.edgy(0, 200000) : s.edgy(0, model.size() + 50); log << "seek(" << pos << ");"; f.set_position(pos); break; }
            case 2: if (early) { unlock(); log << "wait;"; sync(); } break;
            default: if (early && !batch) { batch = (unsigned)s.range(2, 10); log << "batch" << batch << ";"; } break;
            }
        }
        unlock();
        if (!early) lt->start();
        if (aclose) { auto p = f.close(true); if (p) { int e; PBT_CHECK(wait_promise(p, e), "close failed with " << e); } }
        else f.close(false);
        if (!aclose) for (auto& r : reqs) PBT_EQ(r.cbs.load(), 1, "completions of write(" << r.data.size() << ")@" << r.pos << " when close returned; " << log.str());
        PBT_EQ((int)(aclose ? f.outstanding() <= 1 : f.outstanding() == 0), 1, "outstanding requests after close");
        drain(f, lt);
        lt->end();
    }
    for (auto& r : reqs) { PBT_EQ(r.cbs.load(), 1, "completions of write(" << r.data.size() << ")@" << r.pos); PBT_EQ(r.res.load(), (int64_t)(r.cut >= 0 ? r.cut : r.data.size()), "result of write(" << r.data.size() << ")@" << r.pos); }
    Bytes got = get_file(path);
    PBT_EQ(got.size(), model.size(), "file size after " << log.str());
    for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == model[i], "file content at " << i << " is " << (int)got[i] << " expected " << (int)model[i] << " after " << log.str());
    s.label(early ? "loop-running" : "loop-started-late"); if (batches) s.label("batch"); if (chained) s.label("write-from-callback"); if (shorts) s.label("short-write"); if (aopen) s.label("async-open"); if (aclose) s.label("async-close"); if (exists && !trunc) s.label("existing-file");
    if (reqs.size() > 1) s.nontrivial();
    if (s.want_sample()) s.sample((early ? "" : "late start; ") + log.str().substr(0, 500));
}

// one file written and read through the same object
PBT_PROP(file_update, 2, pbt::NONDET) {
    QuietStdout q; Io::reset(); std::string path = tmp_path("u"); Gone gone{ path }; unlink(path.c_str()); std::ostringstream log;
    Bytes m; bool exists = s.chance(50), trunc = s.chance(20); if (exists) { m = s.blob((size_t)s.range(0, 400)); put_file(path, m); if (trunc) m.clear(); }
    unsigned maxdelay = (unsigned)s.pick({ 2, 1 }) * 300, nr = 0, nw = 0, back = 0;
    Loop lt = make_loop(true);
    { cfile f(lt); f.open_sync(path.c_str(), O_CREAT | O_RDWR | (trunc ? O_TRUNC : 0)); uint64_t pos = 0; unsigned ops = 0; bool dirty = false;
      while (s.more(10) && ops++ < 40) {
        PBT_EQ(f.get_position(), pos, "position after " << log.str());
        if (pos <= m.size()) { PBT_EQ(f.size(), (uint64_t)m.size(), "size after " << log.str()); PBT_EQ((int)f.eof(), (int)(pos >= m.size()), "end of file at " << pos << " of " << m.size() << " after " << log.str()); }
        switch (s.pick({ 4, 4, 3 })) {
        case 0: { size_t n = (size_t)(s.chance(10) ? s.edgy(1, 70000) : s.small(1, 100)); Bytes b = s.blob(n); Io::Rule r; r.delay = maxdelay ? (unsigned)s.range(0, maxdelay) : 0; Io::set(1, pos, r); log << "write(" << n << ")@" << pos << ";"; s.say(log.str());
            if (dirty) drain(f, lt); f.write(b.data(), (uint32_t)n)->set_er(); dirty = true; if (pos < m.size()) ++back; apply(m, pos, b.data(), n); pos += n; ++nw; break; }
        case 1: { uint32_t n = (uint32_t)(s.chance(20) ? s.edgy(1, m.size() + 20) : s.small(1, 64)); log << "read(" << n << ")@" << pos << ";"; s.say(log.str()); drain(f, lt); dirty = false;
            uint64_t want = pos < m.size() ? std::min<uint64_t>(n, m.size() - pos) : 0; Bytes out; int c = 0; f.read(n)->set_er().set_cb([&](CResource<CBuffer<unsigned char>>& b) { out.assign(b->get(), b->get() + b->size()); ++c; }); drain(f, lt);
            PBT_EQ(c, 1, "completions of the read"); PBT_CHECK(out == Bytes(m.begin() + std::min<uint64_t>(pos, m.size()), m.begin() + std::min<uint64_t>(pos, m.size()) + want), "read(" << n << ")@" << pos << " of " << m.size() << " delivered " << out.size() << " bytes " << hex(out, 16) << " expected " << want << " after " << log.str()); pos += want; ++nr; break; }
        default: pos = s.edgy(0, m.size()); log << "seek(" << pos << ");"; f.set_position(pos); break;
        } }
      f.close(false); PBT_EQ(f.outstanding(), 0, "outstanding after close"); drain(f, lt); }
    lt->end();
    Bytes got = get_file(path); PBT_CHECK(got == m, "file content " << got.size() << " bytes, expected " << m.size() << " after " << log.str());
    if (exists) s.label("existing"); if (back) s.label("overwrite"); if (nr && nw) s.nontrivial(); if (s.want_sample()) s.sample(log.str().substr(0, 400));
}

// ---------------------------------------------------------------- reading
namespace { struct RReq { unsigned id; uint64_t pos; uint32_t size; int follow = -1; int err = 0; int64_t cut = -1; bool er = false; std::atomic<int> cbs{ 0 }, ers{ 0 }; std::atomic<int> code{ 0 }; Ibitstream_cb* stream = nullptr; }; 
struct ReadRun {
    cfile& f; const Bytes& d; std::deque<RReq> rq; std::vector<unsigned> issued, done; std::atomic<int> bad{ 0 }; std::string why; std::mutex m;
    ReadRun(cfile& f_, const Bytes& d_) : f(f_), d(d_) {}
    void issue(RReq& r) {   // called with the loop lock held or on the loop thread
        issued.push_back(r.id); f.set_position(r.pos);
        if (r.stream) { static_cast<file_bitstream&>(f).read(r.size, r.stream); return; }
        auto p = f.read(r.size); RReq* pr = &r;
        if (r.er) p->set_er([this, pr](std::exception_ptr e) -> bool { try { std::rethrow_exception(e); } catch (mgexceptionbase& x) { pr->code = x.get_error_number(); } catch (...) {} pr->ers++; done.push_back(pr->id); next(*pr); return false; });
        else p->set_er();
        p->set_cb([this, pr](CResource<CBuffer<unsigned char>>& b) {
            arrived(pr, b->get(), b->size()); next(*pr); });
    }
    void arrived(RReq* pr, const uint8_t* p, size_t n) {
            pr->cbs++; done.push_back(pr->id);
            uint64_t want = pr->pos < d.size() ? std::min<uint64_t>(pr->size, d.size() - pr->pos) : 0; if (pr->cut >= 0) want = std::min<uint64_t>(want, pr->cut);
            if (n != want || (want && memcmp(p, d.data() + pr->pos, want))) { std::lock_guard<std::mutex> l(m); if (!bad++) { std::ostringstream o; o << "read(" << pr->size << ")@" << pr->pos << " delivered " << n << " bytes " << hex(p, n, 16) << " expected " << want << " bytes " << hex(d.data() + std::min<uint64_t>(pr->pos, d.size()), want, 16); why = o.str(); } }
    }
    void next(RReq& r) { if (r.follow >= 0) issue(rq[r.follow]); }
};
// the same through the interface of a stream storage
struct StreamCb : Ibitstream_cb { ReadRun* run = nullptr; RReq* r = nullptr; WReq* w = nullptr; virtual void read_cb(const unsigned char* p, uint32_t n) { run->arrived(r, p, n); } virtual void write_cb(uint32_t n) { w->res = n; w->cbs++; } };
}

PBT_PROP(file_read_order, 3, pbt::NONDET) {
    QuietStdout q; Io::reset();
    std::string path = tmp_path("r"); Gone gone{ path }; Bytes d = s.blob((size_t)(s.chance(15) ? s.range(1, 100000) : s.range(1, 800))); put_file(path, d);
    unsigned n = (unsigned)s.range(1, 14), maxdelay = (unsigned)s.pick({ 1, 2, 2 }) * 500; bool early = s.chance(60), rw = s.chance(25); std::ostringstream log; unsigned batches = 0, follows = 0, mixed = 0;
    {
        Loop lt = make_loop(early); cfile f(lt); bool aopen = early && s.chance(40);
        int fl = rw ? O_RDWR : O_RDONLY;
        if (aopen) { int e; PBT_CHECK(wait_promise(f.open(path.c_str(), fl), e), "asynchronous open failed with " << e); drain(f, lt); } else f.open_sync(path.c_str(), fl);
        PBT_EQ(f.size(), (uint64_t)d.size(), "size");
        ReadRun run(f, d); std::vector<bool> top(n, true); std::set<uint64_t> used;
        for (unsigned i = 0; i < n; ++i) { run.rq.emplace_back(); RReq& r = run.rq.back(); r.id = i; r.pos = s.chance(10) ? d.size() : s.edgy(0, d.size() - 1); r.size = (uint32_t)(s.chance(30) ? s.edgy(1, d.size() + 20) : s.small(1, 64)); r.er = s.chance(50); if (rw) { if (r.pos == d.size()) r.pos = 0; r.size = (uint32_t)std::min<uint64_t>(r.size, d.size() - r.pos); } }
        for (unsigned i = 0; i + 1 < n; ++i) if (top[i] && s.chance(25)) { run.rq[i].follow = i + 1; top[i + 1] = false; ++follows; }
        for (auto& r : run.rq) { Io::Rule rule; rule.delay = maxdelay ? (unsigned)s.range(0, maxdelay) : 0; if (s.chance(5)) rule.cut = (int64_t)s.range(1, r.size); Io::Rule old; if (Io::get(0, r.pos, old)) rule = old; else Io::set(0, r.pos, rule); if (rule.cut >= 0) r.cut = rule.cut; }
        std::atomic<int> wcb{ 0 }; unsigned wn = 0; bool locked = false; unsigned batch = 0;
        for (unsigned i = 0; i < n; ++i) {
            if (!top[i]) continue;
            if (!batch) { if (locked) { lt->loop_lock().unLock(); locked = false; } batch = (unsigned)s.range(1, 8); lt->loop_lock().lock(); locked = true; ++batches; log << "| "; if (s.chance(20) && early) { lt->loop_lock().unLock(); drain(f, lt); lt->loop_lock().lock(); log << "wait "; } }
            --batch;
            log << "read(" << run.rq[i].size << ")@" << run.rq[i].pos << "; "; s.say(log.str());
            run.issue(run.rq[i]);
            if (rw && s.chance(40)) { uint64_t wp = d.size() + 1000 + wn * 10; Bytes b(5, (uint8_t)i); Io::Rule rule; rule.delay = (unsigned)s.range(0, maxdelay); Io::set(1, wp, rule); f.set_position(wp); f.write(b.data(), 5)->set_er().set_cb([&wcb](CResource<uv_fs_t>&) { wcb++; }); ++wn; ++mixed; log << "write; "; }
        }
        if (locked) lt->loop_lock().unLock();
        if (!early) lt->start();
        drain(f, lt); f.close(false); lt->end();
        PBT_EQ(run.bad.load(), 0, run.why);
        for (auto& r : run.rq) { PBT_EQ(r.cbs.load(), 1, "completions of read(" << r.size << ")@" << r.pos); PBT_EQ(r.ers.load(), 0, "errors of read(" << r.size << ")@" << r.pos); }
        PBT_EQ(wcb.load(), (int)wn, "completions of writes");
        std::ostringstream a, b; for (auto i : run.issued) a << i << " "; for (auto i : run.done) b << i << " ";
        PBT_CHECK(run.issued == run.done, "reads were issued in the order " << a.str() << "and delivered in the order " << b.str());
    }
    s.label(early ? "loop-running" : "loop-started-late"); if (follows) s.label("read-from-callback"); if (mixed) s.label("mixed-with-writes"); if (maxdelay) s.label("reordered");
    if (n > 2 && maxdelay) s.nontrivial();
    if (s.want_sample()) s.sample(std::to_string(d.size()) + " bytes: " + log.str().substr(0, 500));
}

// ---------------------------------------------------------------- failures
PBT_PROP(file_faults, 3, pbt::NONDET) {
    QuietStdout q; Io::reset(); static const int errs[] = { EIO, ENOSPC, EDQUOT, EFBIG, EBADF, EACCES, EMFILE, ENODEV, EISDIR };
    std::string path = tmp_path("x"); Gone gone{ path }; unlink(path.c_str()); std::ostringstream log; int kind = (int)s.pick({ 2, 4, 4 });
    if (kind == 0) {   // opening
        bool async = s.chance(50), sync2 = s.chance(20); int mode = (int)s.range(0, 4), want = 0, fl = s.chance(60) ? O_RDONLY : s.chance(50) ? (O_CREAT | O_WRONLY) : (O_RDONLY | O_EXCL); std::string p = path;
        if (mode == 0) { fl = s.chance(50) ? O_RDONLY : O_RDONLY | O_EXCL; want = -ENOENT; }
        else if (mode == 1) { put_file(path, Bytes(3, 1)); p = path + "/below"; want = -ENOTDIR; }
        else if (mode == 2) { p = path + std::string(300, 'n'); want = -ENAMETOOLONG; }
        else if (mode == 3) { p = path + ".no/such/dir"; want = -ENOENT; fl = O_CREAT | O_WRONLY; }
        else { put_file(path, Bytes(3, 1)); int e = errs[s.range(0, 8)]; Io::open_err = e; want = -e; }
        log << "open mode " << mode << " flags " << fl << (async ? " async" : " sync"); s.say(log.str());
        int got = 0, got2 = 0;
        if (sync2 && mode != 4) { bool threw = false; try { sync_file_bitstream b(p.c_str(), true); } catch (mgexceptionbase&) { threw = true; } PBT_CHECK(threw, "opening through the C library reports no error: " << log.str()); }
        else {
            Loop lt = make_loop(true); 
            { cfile f(lt); try { if (async) { f.open(p.c_str(), fl); } else f.open_sync(p.c_str(), fl); } catch (mgexceptionbase& e) { got = e.get_error_number(); }
              if (!got) { lt->loop_now(); lt->is_done(20000); }
              f.close(false); }
            try { lt->end(); } catch (mgexceptionbase& e) { got2 = e.get_error_number(); }
            PBT_CHECK(got == 0 || got2 == 0, "the failure was reported twice");
            PBT_EQ(got ? got : got2, want, "error number of the failed open, " << log.str());
        }
        s.label("open"); s.nontrivial();
    } else {
        bool rd = kind == 1; Bytes d = s.blob((size_t)s.range(1, 600)); if (rd) put_file(path, d);
        unsigned n = (unsigned)s.range(1, 10), maxdelay = (unsigned)s.pick({ 1, 2 }) * 400; bool early = s.chance(50); std::set<int> codes; unsigned nf = 0, unhandled = 0; int got = 0; bool aclose = s.chance(30); int second = 0;
        std::deque<WReq> w; std::vector<int> werr; std::vector<StreamCb*> wcb;
        Loop lt = make_loop(early);
        {
            file_bitstream f(lt); std::deque<StreamCb> scb; f.open_sync(path.c_str(), rd ? O_RDONLY : O_CREAT | O_WRONLY | O_TRUNC); ReadRun run(f, d);
            for (unsigned i = 0; i < n; ++i) {
                int e = s.chance(35) ? errs[s.range(0, 8)] : 0; Io::Rule rule; rule.delay = maxdelay ? (unsigned)s.range(0, maxdelay) : 0; rule.err = e; if (e) ++nf;
                if (rd) { run.rq.emplace_back(); RReq& r = run.rq.back(); r.id = i; r.pos = i * 50 % d.size(); Io::Rule old; r.size = (uint32_t)s.small(1, 64); r.er = s.chance(50); if (s.chance(35)) { scb.emplace_back(); scb.back().run = &run; scb.back().r = &r; r.stream = &scb.back(); r.er = false; s.label("stream"); } if (Io::get(0, r.pos, old)) { if (e) --nf; e = old.err; if (e) ++nf; } else Io::set(0, r.pos, rule); r.err = e; if (e && !r.er) { codes.insert(-e); ++unhandled; }
                    log << "read@" << r.pos << (e ? "!" + std::to_string(e) : std::string()) << (r.er ? "h" : r.stream ? "s" : "") << ";"; }
                else { wcb.push_back(nullptr); if (s.chance(35)) { scb.emplace_back(); wcb.back() = &scb.back(); s.label("stream"); } log << (wcb.back() ? "stream " : ""); w.emplace_back(); w.back().pos = i * 50; w.back().data = s.blob((size_t)s.small(1, 50)); Io::set(1, i * 50, rule); werr.push_back(e); if (e) { codes.insert(-e); ++unhandled; } log << "write@" << i * 50 << (e ? "!" + std::to_string(e) : std::string()) << ";"; }
            }
            s.say(log.str());
            unsigned split = (unsigned)s.range(0, n), sure = n; bool stopped = false;
            lt->loop_lock().lock();
            for (unsigned i = 0; i < n; ++i) {
                if (i == split && early && i) { lt->loop_lock().unLock(); usleep((unsigned)s.edgy(0, 600)); lt->loop_lock().lock(); if (lt->is_done(0)) { stopped = true; }
                    // the loop can be ending by a failure of the first part without having reported it yet: what is handed over now need not be served
                    for (unsigned k = 0; k < i; ++k) if (rd ? run.rq[k].err && !run.rq[k].er : werr[k] != 0) sure = i; }
                if (stopped) break;     // the loop ended by the failure: nothing more can be handed over
                if (rd) run.issue(run.rq[i]);
                else { WReq* r = &w[i]; f.set_position(r->pos); if (wcb[i]) { wcb[i]->w = r; f.write(r->data.data(), (uint32_t)r->data.size(), wcb[i]); } else f.cfile::write(r->data.data(), (uint32_t)r->data.size())->set_er().set_cb([r](CResource<uv_fs_t>& u) { r->res = u->result; r->cbs++; }); }
            }
            lt->loop_lock().unLock();
            if (!early) lt->start();
            lt->loop_now();
            bool closed = false;
            if (aclose && !unhandled) { auto p = f.close(true); if (p) { int e; PBT_CHECK(wait_promise(p, e), "close failed with " << e); } closed = true; }
            if (!closed) f.close(false);          // must return
            if (!aclose || unhandled) for (unsigned i = 0; i < n; ++i) {
                bool was = rd ? std::find(run.issued.begin(), run.issued.end(), i) != run.issued.end() : true;
                if (i >= sure) { if (rd && was) PBT_CHECK(run.rq[i].cbs.load() <= (run.rq[i].err ? 0 : 1) && run.rq[i].ers.load() <= (run.rq[i].err && run.rq[i].er ? 1 : 0), "deliveries of read " << i << " after the failure in " << log.str()); if (!rd) PBT_CHECK(w[i].cbs.load() <= (werr[i] ? 0 : 1), "deliveries of write " << i << " after the failure in " << log.str()); continue; }
                if (rd && was) { RReq& r = run.rq[i]; PBT_EQ(r.cbs.load(), r.err ? 0 : 1, "deliveries of read " << i << " in " << log.str()); PBT_EQ(r.ers.load(), r.err && r.er ? 1 : 0, "error deliveries of read " << i << " in " << log.str()); if (r.err && r.er) PBT_EQ(r.code.load(), -r.err, "error number of read " << i << " in " << log.str()); }
                if (!rd && !stopped) PBT_EQ(w[i].cbs.load(), werr[i] ? 0 : 1, "deliveries of write " << i << " in " << log.str());
            }
            PBT_EQ(run.bad.load(), 0, run.why);
            if (stopped) { codes.insert(0); }
        }
        try { lt->end(); } catch (mgexceptionbase& e) { got = e.get_error_number(); }
        try { lt->check_exception(); } catch (...) { second = 1; }
        if (unhandled) PBT_CHECK(codes.count(got), "error number out of the loop: " << got << " in " << log.str()); else PBT_EQ(got, 0, "error number out of the loop in " << log.str());
        PBT_EQ(second, 0, "the error came out twice");
        s.label(rd ? "read-fault" : "write-fault"); if (nf > 1) s.label("several-faults"); if (!unhandled && nf) s.label("all-handled"); if (nf) s.nontrivial();
    }
    if (s.want_sample()) s.sample(log.str());
}

// ---------------------------------------------------------------- back ends
static size_t file_bufsize(pbt::Source& s) { return s.chance(6) ? (size_t)s.edgy(60000, 300000) : gen_bufsize(s); }
PBT_PROP(file_backends, 3, pbt::NONDET) {
    QuietStdout q; Io::reset(); size_t B = file_bufsize(s); Bytes d = gen_data(s, B); if (d.empty()) d.push_back(1);
    std::string path = tmp_path("b"); Gone gone{ path }; put_file(path, d); int be = (int)s.range(0, 1);
    s.say("buffer " + std::to_string(B) + " data " + std::to_string(d.size()) + (be ? " async " : " sync ") + hex(d));
    std::string sample; unsigned ops = 0; bool multi = d.size() > B, interesting = false;
    auto go = [&](IBitstream& bs) { ReaderRun r(s, bs, d); r.run(); ops = r.ops; interesting = multi || r.ends || r.seeks; sample = r.log.str(); };
    if (be == 0) { _sync_file_bitstream f((uint32_t)B); f.open(path.c_str()); go(f); f.close(); }
    else { unsigned md = (unsigned)s.pick({ 2, 1 }) * 300; if (md) for (size_t o = 0; o < 6; ++o) { Io::Rule r; r.delay = (unsigned)s.range(0, md); Io::set(0, o * B, r); }
        Loop lt = make_loop(true); { _file_bitstream f(lt, (uint32_t)B); f.open(path.c_str()); go(f); f.close(); } lt->end(); }
    s.label(be ? "async" : "sync"); if (multi) s.label("refill"); if (ops >= 2 && interesting) s.nontrivial();
    if (s.want_sample()) s.sample(std::string(be ? "async" : "sync") + " buffer=" + std::to_string(B) + " data=" + std::to_string(d.size()) + ": " + sample.substr(0, 300));
}

// writing through a bit stream over each kind of file, reading back through the other
PBT_PROP(file_roundtrip, 2, pbt::NONDET) {
    QuietStdout q; Io::reset(); size_t B = file_bufsize(s); std::string path = tmp_path("t"); Gone gone{ path }; unlink(path.c_str()); int wb = (int)s.range(0, 1), rb = (int)s.range(0, 2);
    struct Fld { unsigned n; uint32_t v; Bytes raw; }; std::vector<Fld> fl; std::ostringstream log; uint64_t bits = 0;
    while (s.more(25) && fl.size() < 200) { Fld x; if (s.chance(15)) { x.n = 99; x.raw = s.blob((size_t)(s.chance(10) ? s.edgy(1, 100000) : s.small(1, 120))); bits = (bits + 7) / 8 * 8 + x.raw.size() * 8; log << "raw" << x.raw.size() << ";"; } else { x.n = (unsigned)s.edgy(1, 32); x.v = (uint32_t)(s.range(0, 0xffffffffu) & tmask[x.n]); bits += x.n; log << x.n << ";"; } fl.push_back(x); }
    log << " buffer " << B << " writer " << wb << " reader " << rb; s.say(log.str());
    auto wr = [&](IBitstream& b) { uint64_t p = 0; for (auto& x : fl) { if (x.n == 99) { b.align(8); p = (p + 7) / 8 * 8; b.write(x.raw.data(), (uint32_t)x.raw.size()); p += x.raw.size() * 8; } else { b.putbits(x.v, x.n); p += x.n; } PBT_EQ(b.getpos(), p, "position while writing"); } b.align(8); b.flush(); };
    auto rd = [&](IBitstream& b) { for (size_t i = 0; i < fl.size(); ++i) { auto& x = fl[i]; if (x.n == 99) { b.align(8); Bytes g(x.raw.size() + 1); uint32_t got = 0; b.read(g.data(), (uint32_t)x.raw.size(), &got); g.resize(got); PBT_CHECK(g == x.raw, "raw block " << i << " reads back as " << hex(g) << " expected " << hex(x.raw) << " in " << log.str()); } else PBT_EQ(b.getbits((short)x.n), x.v, "field " << i << " of " << x.n << " bits in " << log.str()); } };
    if (wb == 0) { _sync_file_bitstream f((uint32_t)B); f.open(path.c_str(), false); wr(f); f.flush(); f.close(); }
    else { unsigned md = (unsigned)s.pick({ 1, 1 }) * 400; if (md) for (size_t o = 0; o < 8; ++o) { Io::Rule r; r.delay = (unsigned)s.range(0, md); Io::set(1, o * B, r); }
        Loop lt = make_loop(true); { _file_bitstream f(lt, (uint32_t)B); f.open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC); wr(f); f.close(); } lt->end(); }
    Bytes c = get_file(path); PBT_EQ((uint64_t)c.size(), (bits + 7) / 8, "stored length of " << log.str());
    if (bits) {
        size_t B2 = file_bufsize(s);
        if (rb == 0) { _sync_file_bitstream f((uint32_t)B2); f.open(path.c_str()); rd(f); f.close(); }
        else if (rb == 1) { Loop lt = make_loop(true); { _file_bitstream f(lt, (uint32_t)B2); f.open(path.c_str()); rd(f); f.close(); } lt->end(); }
        else { fixed_memory_bitstream f(c.data(), c.size()); rd(f); }
    }
    s.label(std::string(wb ? "async" : "sync") + ">" + (rb == 0 ? "sync" : rb == 1 ? "async" : "memory"));
    if (fl.size() > 2) s.nontrivial(); if (s.want_sample()) s.sample(log.str());
}

// positions beyond 4 GiB, on sparse files
PBT_PROP(file_large, 1, pbt::NONDET) {
    QuietStdout q; Io::reset(); std::string path = tmp_path("l"); Gone gone{ path }; unlink(path.c_str());
    unsigned n = (unsigned)s.range(1, 5); std::map<uint64_t, Bytes> marks; std::ostringstream log; uint64_t end = 0;
    for (unsigned i = 0; i < n; ++i) { uint64_t p = s.chance(60) ? (s.range(0, 2) << 31) + s.edgy(0, 0x80000000ull) : s.edgy(0, 0x300000000ull); p &= ~63ull; Bytes b = s.blob((size_t)s.range(1, 40)); if (marks.count(p)) continue; marks[p] = b; end = std::max(end, p + b.size()); log << b.size() << "@" << p << ";"; }
    int wb = (int)s.range(0, 2), rb = (int)s.range(0, 3); log << " writer " << wb << " reader " << rb; s.say(log.str());
    if (wb == 0) { int fd = ::open(path.c_str(), O_CREAT | O_RDWR, 0644); PBT_CHECK(fd >= 0, "scratch file"); for (auto& m : marks) Io::wr(fd, m.second.data(), m.second.size(), m.first); ::close(fd); }
    else if (wb == 1) { sync_file_bitstream f(path.c_str(), false); for (auto& m : marks) { f.set_position(m.first); PBT_EQ(f.get_position(), m.first, "position after seeking"); f.write(m.second.data(), (uint32_t)m.second.size()); } f.flush(); f.close(); }
    else { Loop lt = make_loop(true); { cfile f(lt); f.open_write_sync(path.c_str()); for (auto& m : marks) { f.set_position(m.first); f.write(m.second.data(), (uint32_t)m.second.size()); PBT_EQ(f.get_position(), m.first + m.second.size(), "position after writing"); } f.close(false); } lt->end(); }
    struct stat st; PBT_EQ(stat(path.c_str(), &st), 0, "stat"); PBT_EQ((uint64_t)st.st_size, end, "file size of " << log.str());
    auto rd = [&](IBitstream& b) { for (unsigned k = 0; k < 6; ++k) { auto it = marks.begin(); std::advance(it, s.range(0, marks.size() - 1)); uint64_t sk = s.chance(40) && it->first >= 8 ? 8 : 0; b.set_position(it->first - sk); PBT_EQ(b.get_position(), it->first - sk, "position after seeking in " << log.str());
        if (sk) { auto prev = it; bool clear = it == marks.begin() || (--prev)->first + prev->second.size() <= it->first - 8; uint32_t a = b.getbits(32), c = b.getbits(32); if (clear) PBT_EQ((a | c), 0u, "hole before " << it->first); }
        Bytes g(it->second.size()); uint32_t got = 0; b.read(g.data(), (uint32_t)g.size(), &got); PBT_EQ(got, (uint32_t)g.size(), "bytes read at " << it->first); PBT_CHECK(g == it->second, "bytes at " << it->first << " read as " << hex(g) << " expected " << hex(it->second) << " in " << log.str()); PBT_EQ(b.get_position(), it->first + g.size(), "position after reading"); } };
    if (rb == 0) { _sync_file_bitstream f(64); f.open(path.c_str()); rd(f); f.close(); }
    else if (rb == 1) { Loop lt = make_loop(true); { _file_bitstream f(lt, 64); f.open(path.c_str()); rd(f); f.close(); } lt->end(); }
    else if (rb == 2) { sync_file_bitstream f(path.c_str(), true); PBT_EQ(f.size(), end, "size"); for (auto& m : marks) { f.set_position(m.first); PBT_EQ(f.get_position(), m.first, "position after seeking"); Bytes g(m.second.size()); PBT_EQ(f.read((uint32_t)g.size(), g.data()), g.size(), "bytes read"); PBT_CHECK(g == m.second, "bytes at " << m.first << " read as " << hex(g) << " expected " << hex(m.second)); } f.close(); }
    else { Loop lt = make_loop(true); { cfile f(lt); f.open_sync(path.c_str(), O_RDONLY); PBT_EQ(f.size(), end, "size"); std::deque<Bytes> out(marks.size()); size_t k = 0; std::atomic<int> c{ 0 }; for (auto& m : marks) { f.set_position(m.first); Bytes* o = &out[k++]; f.read((uint32_t)m.second.size())->set_er().set_cb([o, &c](CResource<CBuffer<unsigned char>>& b) { o->assign(b->get(), b->get() + b->size()); c++; }); } f.close(false); drain(f, lt); PBT_EQ(c.load(), (int)marks.size(), "reads done"); k = 0; for (auto& m : marks) { PBT_CHECK(out[k] == m.second, "bytes at " << m.first << " read as " << hex(out[k]) << " expected " << hex(m.second)); ++k; } } lt->end(); }
    if (end > 0xffffffffull) { s.nontrivial(); s.label("beyond-4GiB"); } if (s.want_sample()) s.sample(log.str());
}
