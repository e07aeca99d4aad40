// S03: Tethys keyword search (builder, client, server together) returns exactly the indexed documents.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include "defer_sched.hpp"
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
using namespace sse::tethys;
#ifndef PAGE
#define PAGE 64
#endif
namespace sse { namespace abstractio {
Scheduler* make_default_aio_scheduler(size_t) { return new DeferSched; }
size_t     Scheduler::async_io_page_size(int) { return PAGE; }
} }
using Enc     = encoders::EncodeSeparateEncoder<tethys_core_key_type, index_type, PAGE>;
using Dec     = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, PAGE>;
using Builder = TethysBuilder<PAGE, Enc>;
using Client  = TethysClient<Dec>;
using Server  = TethysServer<tethys_server_store_type<PAGE>>;
using Docs    = std::vector<uint64_t>;
static size_t S; // half of the table
// every distinct block key gets candidate buckets of its own choosing
static void place(const uint8_t* in, size_t len, uint8_t* out, size_t n)
{
    static std::map<std::string, std::pair<uint64_t, uint64_t>> m;
    vf_check(n == 16, "core key size");
    std::string k(reinterpret_cast<const char*>(in), len);
    auto it = m.find(k);
    if (it == m.end()) {
        uint64_t i = m.size();
        if (vf_param("many", 0)) it = m.emplace(k, std::make_pair(S * 10 + i * 7 % S, S * 10 + (i * 5 + 3) % S)).first; // (spread)
        else it = m.emplace(k, std::make_pair(S * (10 + i) + vf_choice("bucket 0", S), S * (10 + i) + vf_choice("bucket 1", S))).first;
    }
    memcpy(out, &it->second.first, 8);
    memcpy(out + 8, &it->second.second, 8);
}
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
static sse::crypto::Key<kMasterPrfKeySize> master()
{
    std::array<uint8_t, kMasterPrfKeySize> k;
    k.fill(0x5a);
    return sse::crypto::Key<kMasterPrfKeySize>(k.data());
}
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("n", 8), KW = vf_param("keywords", 1), MAXL = vf_param("maxlen", 5), MINL = vf_param("minlen", 0), LOAD = vf_param("load", 0);
    TethysStoreBuilderParam p;
    p.tethys_table_path = "/table";
    p.tethys_stash_path = "/stash";
    p.max_n_elements = N;
    p.epsilon = 0;
    S = p.graph_size(Builder::tethys_store_type::kBucketSize) / 2;
    sse::crypto::model::hash_hook() = place;
    std::array<uint8_t, 32> ek;
    for (size_t i = 0; i < 32; i++) ek[i] = static_cast<uint8_t>(3 * i + 1);
    const char* names[] = {"kw", "kw2", "", "kw3"};
    std::vector<Docs> idx(KW);
    {
        Builder b(p, "/counters", master(), ek);
        auto& file = sse::dbparser::model::indexes()["/index.json"];
        for (size_t k = 0; k < KW; k++) {
            idx[k].resize(MINL + vf_choice("documents", MAXL + 1 - MINL));
            std::list<unsigned> l32;
            for (auto& d : idx[k]) {
                d = vf_param("many", 0) && &d != idx[k].data() ? 0x9E3779B97F4A7C15ull * static_cast<uint64_t>(&d - idx[k].data()) : LOAD ? vf_sym("document", 32) : vf_sym("document", 64);
                l32.push_back(static_cast<unsigned>(d));
            }
            if (LOAD) file.emplace_back(names[k], l32);
            else b.insert_list(names[k], std::list<uint64_t>(idx[k].begin(), idx[k].end()));
        }
        if (LOAD) {
            vf_check(b.load_inverted_index("/index.json"), "the index is loaded");
            vf_check(!b.load_inverted_index("/absent.json"), "an index that cannot be read is reported");
        }
        b.build();
    }
    if (fs::file("/stash") && fs::file("/stash")->size()) REACH("stash");
    Client c("/counters", "/stash", master(), ek);
    Server s("/table");
    for (size_t k = 0; k < KW; k++) {
        auto req = c.search_request(names[k]);
        auto res = s.search(req);
        vf_check(res.size() == req.block_count, "one pair of buckets per block");
        vf_check(same_docs(c.decode_search_results(req, res), idx[k]), "a search returns exactly the documents of the keyword");
        if (res.size() > 1) REACH("several blocks");
    }
    for (const char* absent : {"k", "kw20", "nothing"}) {
        auto req = c.search_request(absent, vf_choice("log", 2));
        vf_check(c.decode_search_results(req, s.search(req)).empty(), "a search for an absent keyword returns nothing");
    }
    REACH("done");
}
