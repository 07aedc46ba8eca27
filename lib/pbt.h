// Property-based testing / coverage-guided fuzzing engine (see DESIGN.md, "Engine").
//
// A property is a function  void prop(pbt::Source&)  that draws every random decision from the
// Source and throws pbt::Failure (via PBT_CHECK) when the oracle disagrees with the code.
// The engine records the drawn values (the "choice sequence"), runs the cases in forked children,
// treats a crash, a sanitizer report or a hang as a failure, shrinks the choice sequence and writes
// it to a replay file.  0 is the simplest value of every choice; a sequence that ends early
// continues with zeros, so deleting and lowering choices is all the shrinker needs.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>

namespace pbt {

struct Failure { std::string msg; };
struct Discard { };

class Source {
public:
    // uniform in [lo, hi]
    uint64_t range(uint64_t lo, uint64_t hi);
    // in [lo, hi], biased to the ends, to small distances from lo, and to powers of two
    uint64_t edgy(uint64_t lo, uint64_t hi);
    // in [lo, hi], strongly biased to small values
    uint64_t small(uint64_t lo, uint64_t hi);
    int64_t  irange(int64_t lo, int64_t hi);     // 0 / nearest to 0 is simplest
    bool     chance(unsigned percent);           // true with the given percentage; false is simplest
    bool     more(unsigned avg);                 // geometric continuation flag, mean length ~avg
    size_t   pick(std::initializer_list<unsigned> weights);
    uint8_t  byte();
    std::vector<uint8_t> bytes(size_t n);
    // one choice that seeds a whole block of pseudo random bytes (cheap, large payloads).
    // 0 = counting pattern
    std::vector<uint8_t> blob(size_t n);

    void label(const char* l);                   // classification of the case
    void label(const std::string& l);
    void nontrivial();                           // the stated rule is met
    bool want_sample() const;
    void sample(const std::string& text);        // readable form of the case
    void count(const char* what, uint64_t n);    // free counters summed into the evidence
    void exclude(const char* finding);           // case avoids a known finding by construction
    bool replaying() const;                      // replay mode (verbose)
    void say(const std::string& text);           // printed in replay mode only

    // engine internals
    uint64_t draw(uint64_t max, uint64_t generated);
    uint64_t rnd();
    struct Impl; Impl* impl;
};

typedef void (*prop_fn)(Source&);
struct Registrar { Registrar(const char* name, prop_fn fn, unsigned weight, unsigned flags); };
enum { NONDET = 1,        // schedules involve real threads: allow several attempts to reproduce
       SLOW = 2 };

void check_failed(const char* file, int line, const char* expr, const std::string& msg);
// report a failure from any thread, at once, ending the process
void fail_now(const std::string& msg);

} // namespace pbt

#define PBT_PROP(name, weight, flags) \
    static void pbt_prop_##name(pbt::Source&); \
    static pbt::Registrar pbt_reg_##name(#name, pbt_prop_##name, weight, flags); \
    static void pbt_prop_##name(pbt::Source& s)

#define PBT_CHECK(cond, stream_expr) \
    do { if (!(cond)) { std::ostringstream pbt_os; pbt_os << stream_expr; \
        pbt::check_failed(__FILE__, __LINE__, #cond, pbt_os.str()); } } while (0)

#define PBT_EQ(a, b, what) \
    do { auto pbt_a = (a); auto pbt_b = (b); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_os; \
        pbt_os << what << ": got " << +pbt_a << " expected " << +pbt_b; \
        pbt::check_failed(__FILE__, __LINE__, #a " == " #b, pbt_os.str()); } } while (0)
