// L01: Pluto keyword search (builder, client, server together) returns exactly the indexed documents.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include "defer_sched.hpp"
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/pluto/types.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
using namespace sse::pluto;
namespace tethys = sse::tethys;
#ifndef PAGE
#define PAGE 64
#endif
namespace sse { namespace abstractio {
Scheduler* make_default_aio_scheduler(size_t) { return new DeferSched; }
size_t     Scheduler::async_io_page_size(int) { return PAGE; }
} }
#ifdef ROCKSDB_TABLE
using Params = RocksDBPlutoParams<PAGE>;
#else
using Params = DefaultPlutoParams<PAGE>;
#endif
using Builder = PlutoBuilder<Params>;
using Client  = PlutoClient<tethys::encoders::EncodeSeparateDecoder<tethys::tethys_core_key_type, index_type, PAGE>>;
using Server  = PlutoServer<Params>;
using Docs    = std::vector<uint64_t>;
static size_t S, C; // half of the Tethys table; size of each cuckoo table
static uint64_t blocks;
// every block key gets candidate buckets of its own choosing, and cuckoo slots that can hold every block
static void place(const uint8_t* in, size_t len, uint8_t* out, size_t n)
{
    static std::map<std::string, std::pair<uint64_t, uint64_t>> m;
    vf_check(n == 16, "core key size");
    std::string k(reinterpret_cast<const char*>(in), len);
    auto it = m.find(k);
    if (it == m.end()) {
        uint64_t i = m.size(), a = 0, b = 0;
        bool full = false;
        for (size_t j = len - 8; j < len; j++) full = full || in[j];
        if (!full) { a = vf_choice("bucket 0", S); b = vf_choice("bucket 1", S); } // (block 0 goes to the Tethys table)
        it = m.emplace(k, std::make_pair(S * C * (1 + i) + a, S * C * (1 + i) + b)).first;
        if (full) { it->second.first += blocks % C; it->second.second += vf_param("many", 0) || vf_choice("slot", 2) ? 0 : blocks % C; blocks++; }
    }
    memcpy(out, &it->second.first, 8);
    memcpy(out + 8, &it->second.second, 8);
}
static void dummy_key(uint8_t* out, size_t n)
{
    if (n != 16) { memset(out, 0x77, n); return; }
    uint64_t h[2] = {S * C * (1000 + blocks) + blocks % C, S * C * (1000 + blocks)};
    blocks++;
    memcpy(out, h, 16);
}
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    if (vf_param("many", 0)) { // (concrete documents)
        Docs a(r), b(v);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        return a == b;
    }
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
static sse::crypto::Key<tethys::kMasterPrfKeySize> master()
{
    std::array<uint8_t, tethys::kMasterPrfKeySize> k;
    k.fill(0x5a);
    return sse::crypto::Key<tethys::kMasterPrfKeySize>(k.data());
}
#ifdef ROCKSDB_TABLE
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op, const std::string&)
{
    if (!fault_on) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
#endif
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("n", 8), KW = vf_param("keywords", 1), MAXL = vf_param("maxlen", 5), MINL = vf_param("minlen", 0), LOAD = vf_param("load", 0), FAULTS = vf_param("faults", 0);
    tethys::TethysStoreBuilderParam p;
    p.tethys_table_path = "/table";
    p.tethys_stash_path = "/stash";
    p.max_n_elements = N;
    p.epsilon = 0;
    S = p.graph_size(PAGE / 8) / 2;
    sse::crypto::model::hash_hook() = place;
    sse::crypto::model::random_hook() = dummy_key;
    std::array<uint8_t, 32> ek;
    for (size_t i = 0; i < 32; i++) ek[i] = static_cast<uint8_t>(3 * i + 1);
    const char* names[] = {"kw", "kw2", "", "kw3"};
    std::vector<Docs> idx(KW);
    size_t total = 0;
    for (size_t k = 0; k < KW; k++) {
        idx[k].resize(MINL + vf_choice("documents", MAXL + 1 - MINL));
        total += idx[k].size();
        for (auto& d : idx[k]) d = vf_param("many", 0) ? 0x9E3779B97F4A7C15ull * static_cast<uint64_t>(&d - idx[k].data()) : LOAD ? vf_sym("document", 32) : vf_sym("document", 64);
    }
    C = 1 + total / Params::kPlutoListLength;
#ifdef ROCKSDB_TABLE
    rocksdb::model::fault() = fault;
    GenericRocksDBStoreParams hp;
    hp.path = "/ht";
    hp.rocksdb_options = vf_choice("options", 2) ? GenericRocksDBStoreParams::make_rocksdb_cuckoo_options() : GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
    const auto& sp = hp;
#else
    if (total == 0) vf_skip(); // (an empty cuckoo table cannot be opened)
    sse::oceanus::CuckooBuilderParam hp;
    hp.value_file_path = "/ht.tmp";
    hp.cuckoo_table_path = "/ht";
    hp.max_n_elements = C;
    hp.epsilon = 0;
    hp.max_search_depth = 100;
    const std::string sp = "/ht";
#endif
    {
        Builder b(total, p, hp, master(), ek);
        auto& file = sse::dbparser::model::indexes()["/index.json"];
        for (size_t k = 0; k < KW; k++) {
            if (LOAD) file.emplace_back(names[k], std::list<unsigned>(idx[k].begin(), idx[k].end()));
            else b.insert_list(names[k], std::list<uint64_t>(idx[k].begin(), idx[k].end()));
        }
        if (LOAD) {
            vf_check(b.load_inverted_index("/index.json"), "the index is loaded");
            vf_check(!b.load_inverted_index("/absent.json"), "an index that cannot be read is reported");
        }
        b.build();
    }
    if (fs::file("/stash") && fs::file("/stash")->size()) REACH("stash");
    Client c("/stash", master(), ek);
    Server s("/table", sp);
    for (size_t k = 0; k < KW; k++) {
        auto req = c.search_request(names[k]);
#ifdef ROCKSDB_TABLE
        if (FAULTS) {
            fault_on = true;
            bool threw = throws_any([&] { vf_check(same_docs(c.decode_search_results(req, s.search(req)), idx[k]), "a search returns exactly the documents of the keyword"); });
            fault_on = false;
            vf_check(threw == faulted, "a failed read of the table is reported");
            if (threw) REACH("fault");
            faulted = false;
        }
#endif
        auto res = s.search(req);
        vf_check(same_docs(c.decode_search_results(req, res), idx[k]), "a search returns exactly the documents of the keyword");
        if (idx[k].size() > 2) REACH("several blocks");
    }
    for (const char* absent : {"k", "kw20"}) {
        auto req = c.search_request(absent);
        vf_check(c.decode_search_results(req, s.search(req)).empty(), "a search for an absent keyword returns nothing");
    }
    (void)FAULTS;
    REACH("done");
}
