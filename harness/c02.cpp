// C02 / O01: a committed cuckoo table (Oceanus) returns exactly the value inserted under a key, or not found.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <atomic>
#include <sse/crypto/prf.hpp>
#include "defer_sched.hpp"
#include <sse/schemes/oceanus/cuckoo.hpp>
#ifdef OCEANUS
#include <sse/schemes/oceanus/oceanus.hpp>
#endif
namespace sse { namespace abstractio {
Scheduler* make_default_aio_scheduler(size_t) { if (vf_param("threads", 0)) return new ThreadSched; return new DeferSched; }
size_t     Scheduler::async_io_page_size(int) { return 16; }
} }
using namespace sse::oceanus;
using Opt = bool;
#ifdef OCEANUS
constexpr size_t P = 32;
using K = key_type;
using V = data_type<P>;
using Builder = OceanusBuilder<P>;
using Table   = Oceanus<P>;
static uint64_t hash_of(const K& k, int t) { uint64_t h; memcpy(&h, k.data() + 8 * t, 8); return h; }
static std::unique_ptr<Builder> make(size_t n, double eps, size_t depth) { return std::make_unique<Builder>("/table", n, eps, depth); }
#else
constexpr size_t P = 8;
#ifndef KB
#define KB 4
#endif
using K = std::array<uint8_t, KB>;
using V = std::array<uint8_t, P - KB>;
struct KS {
    static constexpr size_t serialization_length() { return KB; }
    void serialize(const K& k, uint8_t* b) { memcpy(b, k.data(), KB); }
};
struct VS {
    static constexpr size_t serialization_length() { return P - KB; }
    void serialize(const V& v, uint8_t* b) { memcpy(b, v.data(), P - KB); }
    V    deserialize(const uint8_t* b) { V v; memcpy(v.data(), b, P - KB); return v; }
};
struct Hasher {
    CuckooKey operator()(const K& k) { CuckooKey c; c.h[0] = k[0]; c.h[1] = k[1]; return c; }
};
using Builder = CuckooBuilder<P, K, V, KS, VS, Hasher>;
using Table   = CuckooHashTable<P, K, V, KS, VS, Hasher>;
static uint64_t hash_of(const K& k, int t) { return k[static_cast<size_t>(t)]; }
static std::unique_ptr<Builder> make(size_t n, double eps, size_t depth)
{
    CuckooBuilderParam p;
    p.value_file_path = "/table.tmp";
    p.cuckoo_table_path = "/table";
    p.max_n_elements = n;
    p.epsilon = eps;
    p.max_search_depth = depth;
    return std::make_unique<Builder>(p);
}
#endif
template<class A> static bool same(const A& a, const A& b)
{
    const char *x = reinterpret_cast<const char*>(&a), *y = reinterpret_cast<const char*>(&b);
    bool e = true;
    for (size_t i = 0; i < sizeof(A); i++) e = e & (x[i] == y[i]);
    return e;
}
struct El { K k; V v; };
static El       el[4];
static size_t   n;
static bool     read_fault;
static unsigned faults;
static long long hook(fs::Op op, int, size_t len)
{
    if (!read_fault || op != fs::PREAD || !vf_choice("read fails", 2)) return fs::NOFAULT;
    faults++;
    return vf_choice("short", 2) ? static_cast<long long>(len) - 1 : -1;
}
// which: the inserted element with this key, or n
static size_t find(const K& q)
{
    for (size_t i = 0; i < n; i++)
        if (same(q, el[i].k)) return i;
    return n;
}
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("n", 2), F = vf_param("faults", 0), SPILL = vf_param("spill", 0), FULL = vf_param("full", 0), CLASSES = vf_param("classes", 1);
    const double eps = static_cast<double>(vf_param("eps10", 10)) / 10 - 1;
    const size_t S = details::cuckoo_table_size(N, eps);
    fs::st().hook = hook;
    DeferSched::sh().eager = vf_param("eager", 1);
    n = FULL || SPILL ? N : vf_choice("elements", N + 1);
    vf_make_symbolic(el, sizeof el[0] * n, "elements");
    // the slots of each key
    size_t p0[4], p1[4];
    for (size_t i = 0; i < n; i++) {
        bool ones = true;
        for (size_t b = 0; b < sizeof(K); b++) ones = ones & (el[i].k[b] == 0xFF);
        vf_assume(!ones);
        for (size_t j = 0; j < i; j++) vf_assume(!same(el[i].k, el[j].k));
        if (CLASSES) {
            p0[i] = SPILL ? 0 : vf_choice("slot 0", S); p1[i] = S + (SPILL ? 0 : vf_choice("slot 1", S)); // SPILL: all in the same two slots
            vf_assume(hash_of(el[i].k, 0) % S == p0[i] && S + hash_of(el[i].k, 1) % S == p1[i]);
        }
    }
    if (CLASSES && !SPILL) { // what the table can hold: no component has more elements than slots
        for (size_t s = 0; s < 2 * S; s++) {
            bool in[16] = {};
            in[s] = true;
            for (size_t r = 0; r < n; r++)
                for (size_t i = 0; i < n; i++)
                    if (in[p0[i]] || in[p1[i]]) in[p0[i]] = in[p1[i]] = true;
            size_t vs = 0, es = 0;
            for (size_t v = 0; v < 2 * S; v++) vs += in[v];
            for (size_t i = 0; i < n; i++) es += in[p0[i]];
            if (es > vs) { REACH("over-full"); vf_skip(); }
        }
    }
    {
        auto b = make(N, eps, 40);
        for (size_t i = 0; i < n; i++) b->insert(el[i].k, el[i].v);
        if (!FULL && vf_choice("explicit commit", 2)) {
            b->commit();
            vf_check(throws<std::runtime_error>([&] { b->insert(el[0].k, el[0].v); }, "exception type"), "a committed builder refuses insertions");
        }
    }
    vf_check(!fs::file("/table.tmp"), "the temporary value file is removed");
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the files are closed");
    {
        Table t("/table");
        if (vf_param("direct", 0)) {
#ifdef OCEANUS
            t.cuckoo_table.use_direct_IO(true);
#else
            t.use_direct_IO(true);
#endif
        }
        for (uint64_t r = 0, R = vf_param("reads", 1); r < R; r++) {
            K q;
            uint64_t which = vf_choice("query", n + 1);
            if (which < n) q = el[which].k;
            else {
                bool ones = true;
                vf_make_symbolic(&q, sizeof q, "query");
                for (size_t b = 0; b < sizeof(K); b++) ones = ones & (q[b] == 0xFF);
                vf_assume(!ones);
                for (size_t i = 0; i < n; i++) vf_assume(!same(q, el[i].k));
            }
            faults = 0;
            read_fault = F;
            if (!vf_choice("asynchronously", 2)) {
                bool found = true, failed = false;
                V v;
                try { v = t.get(q); } catch (const std::out_of_range&) { found = false; } catch (const std::runtime_error&) { failed = true; }
                vf_check(failed == (faults > 0), "a failed read is reported, never taken for an answer");
                if (!failed) {
                    vf_check(found == (which < n), "exactly the inserted keys are found");
                    if (found) vf_check(same(v, el[which].v), "the value is the one inserted under the key");
                }
                if (found) REACH("sync");
            } else {
                struct Res { unsigned calls = 0; bool found = false; V v; };
                auto res = std::make_shared<Res>();
                auto cb = [res](std::experimental::optional<V> v) {
                    res->calls++;
                    res->found = bool(v);
                    if (v) res->v = *v;
                };
                t.async_get(q, cb);
#ifdef OCEANUS
                t.cuckoo_table.use_direct_IO(false); // waits for the reads in flight
#else
                t.use_direct_IO(true);
                t.use_direct_IO(false);
#endif
                vf_check(res->calls == 1, "the callback is called exactly once");
                if (res->found) vf_check(which < n, "exactly the inserted keys are found");
                if (which < n && faults == 0) vf_check(res->found, "an inserted key is found");
                if (res->found && which < n) vf_check(same(res->v, el[which].v), "the value is the one inserted under the key");
                if (res->found) REACH("async");
            }
            read_fault = false;
        }
    }
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the files are closed");
    REACH("done");
}
