// S01: a store built from any lists and reopened returns exactly every list. S02 (mode 1, 2): asynchronous lookups equal
// synchronous ones, whichever order and threads the bucket reads complete in, and report failed reads.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "defer_sched.hpp"
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
using namespace sse::tethys;
#ifndef PAGE
#define PAGE 64
#endif
static bool threaded;
namespace sse { namespace abstractio {
Scheduler* make_default_aio_scheduler(size_t) { if (threaded) return new ThreadSched; return new DeferSched; }
size_t     Scheduler::async_io_page_size(int) { return PAGE; }
} }
using K = tethys_core_key_type;
using V = uint64_t;
using Enc = encoders::EncodeSeparateEncoder<K, V, PAGE>;
using Dec = encoders::EncodeSeparateDecoder<K, V, PAGE>;
using Builder = TethysStoreBuilder<PAGE, K, V, IdentityHasher, Enc>;
using Store   = TethysStore<PAGE, K, V, IdentityHasher, Dec>;
struct List { K k; std::vector<V> v; };
static std::vector<List>* ls;
static bool keq(const K& a, const K& b)
{
    bool e = true;
    for (size_t i = 0; i < a.size(); i++) e = e & (a[i] == b[i]);
    return e;
}
static size_t count(const std::vector<V>& l, V x)
{
    size_t n = 0;
    for (V y : l) n += x == y;
    return n;
}
static bool is_list(const std::vector<V>& r, size_t w)
{
    if (w == ls->size()) return r.empty();
    const auto& v = (*ls)[w].v;
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (V x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
static uint64_t half(const K& k, int t) { uint64_t h; memcpy(&h, k.data() + 8 * t, 8); return h; }
// a key with any content hashing to bucket a of the first and b of the second half
static K sym_key(size_t a, size_t b, size_t s)
{
    K k;
    vf_make_symbolic(k.data(), k.size(), "key");
    if (s > 1) vf_assume(half(k, 0) % s == a && half(k, 1) % s == b);
    return k;
}
static int io_op = -1; // the operation that may fail
static unsigned failed_io;
static long long hook(fs::Op op, int, size_t len)
{
    if (op != io_op || !vf_choice("fails", 2)) return fs::NOFAULT;
    failed_io++;
    return vf_choice("short", 2) ? static_cast<long long>(len) - 1 : -1;
}
extern "C" void vf_entry()
{
    fs::st().hook = hook;
    const uint64_t M = vf_param("lists", 2), N = vf_param("n", 16), MODE = vf_param("mode", 0), MAXL = vf_param("maxlen", 2), MINL = vf_param("minlen", 0), FAULTS = vf_param("faults", 0), FULL = vf_param("full", 0);
    DeferSched::sh().eager = vf_param("eager", 1);
    threaded = MODE == 2;
    ls = new std::vector<List>;
    TethysStoreBuilderParam p;
    p.tethys_table_path = "/table";
    p.tethys_stash_path = "/stash";
    p.max_n_elements = N;
    p.epsilon = 0;
    const size_t G = p.graph_size(Builder::kBucketSize), S = G / 2;
    vf_check(G == 2 * ((N + PAGE / 8 - 1) / (PAGE / 8)), "table size");
    vf_check(Builder::kMaxListSize == PAGE / 8 - Enc::kListControlValues, "longest list");
    {
        Builder b(p);
        const size_t m = FULL ? M : vf_choice("number of lists", M + 1);
        for (size_t i = 0; i < m; i++) {
            List l;
            size_t a = vf_choice("bucket 0", S), c = vf_choice("bucket 1", S);
            l.k = sym_key(a, c, S);
            for (auto& o : *ls) vf_assume(!keq(o.k, l.k));
            l.v.resize(FULL == 2 ? MAXL : MINL + vf_choice("length", MAXL + 1 - MINL));
            for (auto& x : l.v) x = vf_sym("value", 64);
            b.insert_list(l.k, l.v);
            ls->push_back(l);
        }
        if (!MODE && vf_choice("too long", 2)) {
            std::vector<V> v(Builder::kMaxListSize + 1, 3);
            vf_check(throws<std::invalid_argument>([&] { b.insert_list(sym_key(0, 0, S), v); }, "exception type"), "a list longer than a bucket is refused");
        }
        if (MODE == 0 && FAULTS) {
            io_op = fs::PWRITE;
            bool threw = throws<std::runtime_error>([&] { b.build(); }, "exception type");
            io_op = -1;
            vf_check(threw == (failed_io > 0), "a failed write is reported by the build");
            if (threw) { REACH("write fault"); return; }
        } else b.build();
        if (!MODE) {
            vf_check(throws<std::runtime_error>([&] { b.insert_list(K(), {}); }, "exception type"), "a built store refuses insertions");
            vf_check(throws<std::runtime_error>([&] { b.build(); }, "exception type"), "a store is built once");
        }
    }
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the files are closed");
    if (fs::file("/stash") && fs::file("/stash")->size()) REACH("stash");
    {
        Store s("/table", "/stash");
        if (vf_param("direct", 0)) s.use_direct_IO(true);
        if (MODE == 0) {
            size_t w = vf_choice("query", ls->size() + 1);
            K q;
            if (w < ls->size()) q = (*ls)[w].k;
            else {
                q = sym_key(vf_choice("bucket 0", S), vf_choice("bucket 1", S), S);
                for (auto& o : *ls) vf_assume(!keq(o.k, q));
            }
            if (FAULTS) {
                io_op = fs::PREAD;
                bool threw = throws<std::runtime_error>([&] { vf_check(is_list(s.get_list(q), w), "a lookup returns exactly the list of its key"); }, "exception type");
                io_op = -1;
                vf_check(threw == (failed_io > 0), "a failed read is reported by the lookup");
                if (threw) REACH("read fault");
            }
            vf_check(is_list(s.get_list(q), w), "a lookup returns exactly the list of its key");
            Dec d;
            vf_check(is_list(s.get_list(q, d), w), "a lookup returns exactly the list of its key");
            auto bp = s.get_buckets(q);
            vf_check(bp.index_0 < S && bp.index_1 >= S && bp.index_1 < G, "the buckets are in the table");
            auto part = Store::decode_list(q, bp.payload_0, bp.index_0, bp.payload_1, bp.index_1);
            vf_check(part.size() <= (w < ls->size() ? (*ls)[w].v.size() : 0), "the buckets hold a part of the list");
            REACH("read");
        } else {
            struct Res { unsigned calls = 0, empty = 0; bool ok = true; std::vector<V> list; std::vector<size_t> idx; std::vector<std::array<uint8_t, PAGE>> b; size_t w; bool lst; bool decoded = false; BucketPair<PAGE> ref; };
            static Res res[4];
            Dec d;
            size_t R = vf_param("lookups", 1);
            for (size_t r = 0; r < R; r++) {
                res[r].w = vf_choice("query", ls->size());
                res[r].ref = s.get_buckets((*ls)[res[r].w].k);
            }
            auto& sh = DeferSched::sh();
            sh.shrt = FAULTS;
            static std::mutex* mu = new std::mutex;
            for (size_t r = 0; r < R; r++) {
                Res& x = res[r];
                const K& q = (*ls)[x.w].k;
                x.lst = !vf_choice("buckets", 2);
                if (x.lst) {
                    auto cb = [&x](std::vector<V> v) { std::lock_guard<std::mutex> g(*mu); x.calls++; x.list = std::move(v); };
                    if (vf_choice("own decoder", 2)) s.async_get_list(q, cb);
                    else s.async_get_list(q, d, cb);
                } else
                    s.async_get_buckets(q, [&x](std::unique_ptr<std::array<uint8_t, PAGE>> p, size_t i) {
                        std::lock_guard<std::mutex> g(*mu);
                        x.calls++;
                        x.idx.push_back(i);
                        if (!p) { x.empty++; return; }
                        const auto& want = i == x.ref.index_0 ? x.ref.payload_0 : x.ref.payload_1;
                        for (size_t j = 0; j < PAGE; j++) x.ok = x.ok & ((*p)[j] == want[j]);
                    });
            }
            s.use_direct_IO(!vf_param("direct", 0)); // waits for the reads in flight
            sh.shrt = false;
            size_t empties = 0, empty_lists = 0;
            for (size_t r = 0; r < R; r++) {
                Res& x = res[r];
                if (x.lst) {
                    vf_check(x.calls == 1, "the callback is called exactly once");
                    if (sh.failed == 0) vf_check(is_list(x.list, x.w), "an asynchronous lookup returns the list of its key");
                    else {
                        empty_lists += x.list.size() != (*ls)[x.w].v.size();
                        for (V v : x.list) vf_check(count(x.list, v) <= count((*ls)[x.w].v, v), "nothing but elements of the list is returned");
                    }
                } else {
                    vf_check(x.calls == 2 && ((x.idx[0] == x.ref.index_0 && x.idx[1] == x.ref.index_1) || (x.idx[1] == x.ref.index_0 && x.idx[0] == x.ref.index_1)), "the callback is called once per bucket");
                    vf_check(x.ok, "an asynchronous lookup returns the buckets of its key");
                    empties += x.empty;
                }
            }
            for (size_t r = 0; r < R; r++)
                vf_check(is_list(s.get_list((*ls)[res[r].w].k), res[r].w), "a later lookup returns exactly the list of its key");
            vf_check(empties <= sh.failed, "only failed reads deliver no bucket");
            if (R == 1 && !res[0].lst) vf_check(empties == sh.failed, "exactly the failed reads deliver no bucket");
            REACH("async");
        }
    }
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the files are closed");
    REACH("done");
}
