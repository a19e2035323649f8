// Monitoring framework: seeded workload cases, oracles reporting violations,
// evidence counters.  One process runs a range of cases of some tests.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive range
    int64_t in(int64_t lo, int64_t hi) {
        return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
    }
    bool chance(int pct) { return (int)(next() % 100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Case {
    Rng r{1};
    uint64_t seed = 0;
    std::string test;
    uint64_t idx = 0;
    uint64_t sig = 1469598103934665603ull;
    bool nontrivial = false;
    bool skipped = false;
    std::string desc;
    struct Fail { std::string kind, key, msg, desc; };
    struct Local { std::vector<Fail> fails; std::map<std::string, uint64_t> counts; };
    Local* local = nullptr;      // set: this case runs in a thread of its own, results are merged by the parent
    void d(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void h(uint64_t v) { sig = (sig ^ v) * 1099511628211ull; sig ^= sig >> 29; }
    // kind: value | memory | status | crash...   key: stable identity of the failing site/class
    void fail(const char* kind, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    void count(const std::string& name, uint64_t n = 1);
};

using TestFn = void (*)(Case&);
struct TestDef { const char* name; TestFn fn; int weight; };
std::vector<TestDef>& tests();
uint64_t case_seed(const char* test, uint64_t seed, uint64_t idx);
struct Reg { Reg(const char* name, TestFn fn, int weight); };

#define MON_TEST_W(name, weight) \
    static void name(mon::Case&); \
    static mon::Reg reg_##name(#name, name, weight); \
    static void name(mon::Case& c)
#define MON_TEST(name) MON_TEST_W(name, 100)

}  // namespace mon
