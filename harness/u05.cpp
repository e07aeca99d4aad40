// U05: the synthetic database generator, with arbitrary document indexes and any number of hardware threads.
#ifdef EXACT
#define VF_EXACT_NUMBERS // digits of symbolic numbers, instead of a "#"
#endif
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>
// document indexes are drawn from any 64-bit generator: distinct values, some of them symbolic
static uint64_t draws;
static uint64_t draw()
{
    static const uint64_t SYM = vf_param("symdocs", 1), WIDE = vf_param("wide", 0), STEP = vf_param("step", 1);
    vf_yield();
    bool     old = vf_norace(true);
    uint64_t n   = draws++;
    vf_norace(old);
    if (n >= SYM) return (1ull << 40) + n * STEP;
    if (WIDE) return (vf_sym("index", 64) & ~(15ull << 50 | 1ull << 40)) | n << 50; // arbitrary, distinct from the others
    // arbitrary low decimal digits, all that the keywords of the frequency classes depend on
    uint64_t x = 0;
    for (uint64_t i = 0, p = 1; i < 6; i++, p *= 10) x += p * (vf_sym("digit", 3) + 2 * vf_sym("digit", 1));
    x += n * 1000000 + vf_param("high", 0);
    return x;
}
struct AnyEngine {
    using result_type = uint64_t;
    AnyEngine() {}
    template<class S> explicit AnyEngine(S&&) {}
    template<class S> void seed(S&&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    result_type operator()() { return draw(); }
};
struct AnyDevice {
    using result_type = unsigned;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0u; }
    result_type operator()() { return unsigned(vf_sym("seed", 32)); }
};
namespace std { using vf_engine = ::AnyEngine; using vf_device = ::AnyDevice; }
#define mt19937 vf_engine
#define mt19937_64 vf_engine
#define random_device vf_device
#include <../../../utils/db_generator.cpp>
#undef mt19937
#undef mt19937_64
#undef random_device
struct Call { std::string k; uint64_t d; };
static std::vector<Call> calls;
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
// the number in decimal digits at s[from, to), no branch on the digits
static uint64_t number(const std::string& s, size_t from, size_t to)
{
    vf_check(from < to, "a number is part of the keyword");
    uint64_t v = 0;
    bool ok = true;
    for (size_t i = from; i < to; i++) {
        unsigned c = static_cast<unsigned char>(s[i]) - '0';
        ok = ok & (c < 10);
        v = 10 * v + c;
    }
    vf_check(ok & (to - from == 1 | s[from] != '0'), "a number in decimal digits");
    return v;
}
struct Doc { uint64_t d; unsigned freq[3][2] = {}, fixed[9] = {}, rnd[7] = {}; };
extern "C" void vf_entry()
{
    static const char* F[9] = {"Group-10^1_", "Group-10^2_", "Group-10^3_", "Group-10^4_", "Group-10^5_", "Group-10^6_", "Group-20_", "Group-30_", "Group-60_"};
    static const uint64_t SZ[9] = {10, 100, 1000, 10000, 100000, 1000000, 20, 30, 60};
    static const char* Q[3] = {"0.1_", "1_", "10_"};
    static const uint64_t MOD[3] = {1000, 100, 10};
    draws = 0;
    calls.clear();
    const uint64_t N = vf_param("min", 0) + vf_choice("documents", vf_param("max", 4) - vf_param("min", 0) + 1);
    sse::sophos::gen_db(N, [](const std::string& k, size_t d) {
        vf_yield();
        bool old = vf_norace(true);
        calls.push_back({k, d});
        vf_norace(old);
    });
    std::vector<Doc> docs;
    std::map<std::string, uint64_t> groups[9]; // "thread_counter" -> documents
    std::map<std::string, uint64_t> rnd[7];
    for (auto& c : calls) {
        Doc* D = nullptr;
        for (size_t i = docs.size(); i-- > 0;)
            if (vf_is_concrete(docs[i].d) == vf_is_concrete(c.d) && docs[i].d == c.d) { // the symbolic indexes are distinct from all others
                D = &docs[i];
                break;
            }
        if (!D) {
            docs.emplace_back();
            D = &docs.back();
            D->d = c.d;
        }
        bool known = false;
        for (int f = 0; f < 3; f++)
            if (starts(c.k, Q[f])) {
                known = true;
                size_t e = c.k.find('_', strlen(Q[f]));
                vf_check(e != std::string::npos && e + 2 == c.k.size() && (c.k[e + 1] == '1' || c.k[e + 1] == '2'), "a frequency keyword names its value and its draw");
                bool     second = c.k[e + 1] == '2';
#ifdef EXACT
                uint64_t v = number(c.k, strlen(Q[f]), e);
                vf_check(v < MOD[f], "as many keywords as the frequency class has");
                vf_check(v == (second ? c.d / 1000 : c.d) % MOD[f], "the keyword is given by the document index");
#endif
                D->freq[f][second]++;
            }
        for (int f = 0; f < 9; f++)
            if (starts(c.k, F[f])) {
                known = true;
                D->fixed[f]++;
                groups[f][c.k.substr(strlen(F[f]))]++;
            }
        if (starts(c.k, "Group-rand-10^")) {
            known = true;
            unsigned e = c.k[14] - '0';
            vf_check(e >= 2 && e <= 6 && c.k[15] == '_', "random groups of 10^2 to 10^6 documents");
            vf_check(++D->rnd[e] == 1, "a document is in at most one random group of each size");
            rnd[e][c.k.substr(16)]++;
            REACH("random group");
        }
        vf_check(known, "every keyword is of a known class");
    }
    vf_check(docs.size() == N, "as many documents as requested, whatever the number of threads");
    for (auto& D : docs) {
        for (auto& f : D.freq) vf_check(f[0] == 1 && f[1] == 1, "two keywords of each frequency class per document");
        for (auto f : D.fixed) vf_check(f == 1, "one keyword of each fixed-size group per document");
    }
    for (int f = 0; f < 9; f++) {
        std::map<std::string, uint64_t> per_thread;
        for (auto& g : groups[f]) {
            size_t u = g.first.find('_');
            vf_check(u != std::string::npos, "a group names its thread and its rank");
            per_thread[g.first.substr(0, u)]++;
            number(g.first, 0, u);
        }
        for (auto& g : groups[f]) {
            size_t   u    = g.first.find('_');
            uint64_t rank = number(g.first, u + 1, g.first.size()), of = per_thread[g.first.substr(0, u)];
            vf_check(rank < of, "groups are numbered from 0");
            vf_check(rank + 1 == of ? g.second <= SZ[f] : g.second == SZ[f], "every group but the last one is full, none holds more documents than its size");
            if (g.second == SZ[f]) REACH("full group");
        }
    }
    for (int e = 2; e <= 6; e++) {
        uint64_t size = 1;
        for (int i = 0; i < e; i++) size *= 10;
        for (auto& g : rnd[e]) vf_check(g.second <= size, "a random group holds at most as many documents as its size");
    }
    vf_observe(calls.size());
    REACH(N ? "documents" : "no document");
}
