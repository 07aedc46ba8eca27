// Schedule perturbation: the synchronisation calls the code under test makes are interposed and
// followed or preceded by generated delays.  Delays come from a seed drawn by the case.
#pragma once
#include <atomic>
#include <cstdint>
#include <unistd.h>
#include <sched.h>
#include <time.h>

struct Noise {
    static std::atomic<uint32_t> seed;       // 0: off
    static std::atomic<uint32_t> level;      // 0..3
    static void start(uint32_t sd, uint32_t lv) { seed = sd | 1; level = lv; }
    static void off() { seed = 0; }
    static void point() {
        uint32_t sd = seed.load(std::memory_order_relaxed);
        if (!sd) return;
        static thread_local uint32_t st = 0; static std::atomic<uint32_t> ids{ 1 };
        static thread_local uint32_t id = ids++;
        if (!st) st = sd * 2654435761u ^ (id * 40503u);
        st ^= st << 13; st ^= st >> 17; st ^= st << 5; if (!st) st = sd;
        uint32_t r = (st ^ sd) % 100, lv = level.load(std::memory_order_relaxed);
        if (r < 8 * lv) { timespec t = { 0, (long)(1000 * ((st >> 8) % (lv >= 3 ? 150 : 40))) }; nanosleep(&t, 0); }
        else if (r < 30) { for (volatile uint32_t i = 0; i < (st >> 12) % 400; i = i + 1); }
        else if (r < 36) sched_yield();
    }
};
