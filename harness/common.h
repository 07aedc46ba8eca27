// shared pieces of the harnesses: storages owned by the harness, hex printing
#pragma once
#include "pbt.h"
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <chrono>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <mgcore.h>
#include <mg/cbuffer.h>
#include <mg/media/TBitstream.h>

typedef std::vector<uint8_t> Bytes;

inline std::string hex(const uint8_t* p, size_t n, size_t lim = 40) {
    static const char* d = "0123456789abcdef"; std::string o;
    for (size_t i = 0; i < n && i < lim; ++i) { o += d[p[i] >> 4]; o += d[p[i] & 15]; }
    if (n > lim) o += "...(" + std::to_string(n) + ")";
    return o;
}
inline std::string hex(const Bytes& b, size_t lim = 40) { return hex(b.data(), b.size(), lim); }

// what the code prints while it runs is not interesting
struct QuietStdout { QuietStdout() { std::cout.setstate(std::ios_base::badbit); } };

// Runs delivery jobs on a thread of its own, in order.  A job has a class that decides when it may run:
//  1 at once, 2 at the next kick() (idle() of the storage or an operation boundary; 3 ms otherwise),
//  3 after a short sleep
class Deliverer {
    std::mutex m; std::condition_variable cv; std::deque<std::pair<int, std::function<void()>>> q;
    bool stop = false, gate = false; std::thread t;
    void loop() {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            cv.wait(l, [&] { return stop || !q.empty(); });
            if (q.empty()) return;
            auto j = std::move(q.front()); q.pop_front();
            if (j.first == 2 && !stop) cv.wait_for(l, std::chrono::milliseconds(3), [&] { return gate || stop; });
            gate = false;
            l.unlock();
            if (j.first >= 3) std::this_thread::sleep_for(std::chrono::microseconds(30 * (j.first - 2)));
            j.second();
            l.lock();
        }
    }
public:
    Deliverer() : t([this] { loop(); }) {}
    ~Deliverer() { { std::lock_guard<std::mutex> l(m); stop = true; } cv.notify_all(); t.join(); }
    void post(int cls, std::function<void()> f) { { std::lock_guard<std::mutex> l(m); gate = false; q.emplace_back(cls, std::move(f)); } cv.notify_all(); }
    void kick() { { std::lock_guard<std::mutex> l(m); gate = true; } cv.notify_all(); }
};

// A storage over a byte vector.  Reads deliver min(requested, remaining) bytes, like every storage of
// the repository.  eof() is either "position reached the end" (memory, asynchronous file) or "a read
// came back short" (C stdio file).  With a Deliverer, completions arrive from another thread.
class Store : public mg::core::Ibitstream_storage {
public:
    Bytes data; uint64_t pos = 0; bool lazy_eof = false, hit = false;
    Deliverer* dl = nullptr; pbt::Source* src = nullptr;
    uint64_t reads = 0, writes = 0;
    std::vector<uint8_t> tmp;

    bool ordered = false;   // several requests may be outstanding: never overtake the queue
    int cls() { int c = src ? (int)src->pick({ 2, 4, 6, 3, 1 }) : 1; return ordered && !c ? 1 : c; }

    void read(uint32_t to_read, mg::core::Ibitstream_cb* cb) override {
        ++reads;
        uint64_t rem = pos < data.size() ? data.size() - pos : 0;
        uint32_t n = (uint32_t)std::min<uint64_t>(rem, to_read);
        uint64_t at = pos; pos += n;
        if (n < to_read) hit = true;
        // exact-size heap copy, so that reading outside the delivered block is caught
        auto blk = std::make_shared<std::unique_ptr<uint8_t[]>>(new uint8_t[n ? n : 1]);
        if (n) memcpy(blk->get(), data.data() + at, n);
        int c = dl ? cls() : 0;
        if (c == 0) cb->read_cb(blk->get(), n);
        else dl->post(c, [cb, blk, n] { cb->read_cb(blk->get(), n); blk->reset(); });
    }
    void write(const unsigned char* p, uint32_t n, mg::core::Ibitstream_cb* cb) override {
        ++writes;
        if (pos + n > data.size()) data.resize(pos + n);
        if (n) memcpy(data.data() + pos, p, n);
        pos += n;
        int c = dl ? cls() : 0;
        if (c == 0) cb->write_cb(n);
        else dl->post(c, [cb, n] { cb->write_cb(n); });
    }
    bool eof() override { return lazy_eof ? hit : pos >= data.size(); }
    void flush() override {}
    uint64_t get_position() const override { return pos; }
    void set_position(uint64_t r) override { pos = r; hit = false; }
    void idle() override { if (dl) dl->kick(); }
};
