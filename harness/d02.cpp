// D02: every search variant of the Diana server returns the same entries, for every number of results and threads.
#include "common.hpp"
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
using namespace sse::diana;
using Client = DianaClient<uint64_t>;
using Server = DianaServer<uint64_t>;
using Docs   = std::vector<uint64_t>;
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
template<size_t N> static sse::crypto::Key<N> key(uint8_t x)
{
    std::array<uint8_t, N> k;
    k.fill(x);
    return sse::crypto::Key<N>(k.data());
}
extern "C" void vf_entry()
{
    const uint64_t MIN = vf_param("minres", 0), MAX = vf_param("maxres", 3), T = vf_param("threads", 2), OTHER = vf_param("other", 1), ONLY = vf_param("only", 99), OLD = vf_param("old", 0);
    Client c("/client", key<Client::kKeySize>(1), key<Client::kKeySize>(2));
    Server s("/server");
    for (uint64_t i = 0; i < OTHER; i++) s.insert(c.insertion_request("other", vf_sym("entry", 64)));
    uint64_t old = OLD ? vf_choice("already removed", OLD + 1) : 0;
    for (uint64_t i = 0; i < old; i++) s.insert(c.insertion_request("kw", vf_sym("entry", 64)));
    if (old) {
        vf_check(s.search(c.search_request("kw"), true).size() == old, "a first search removes entries");
        REACH("entries already removed");
    }
    Docs ref(MIN + vf_choice("results", MAX + 1 - MIN));
    const uint64_t SYM = vf_param("symbolic", 1000);
    for (auto& d : ref) {
        const uint64_t at = static_cast<uint64_t>(&d - ref.data());
        d = at < SYM ? vf_sym("entry", 64) : 0x9E3779B97F4A7C15ull * (at + 1);
        s.insert(c.insertion_request("kw", d));
    }
    const uint64_t variant = ONLY != 99 ? ONLY : vf_choice("variant", 6);
    auto req = c.search_request("kw");
    vf_check(req.add_count == old + ref.size(), "a request asks for every entry");
    const bool many = SYM < ref.size(), del = many || vf_choice("delete results", 2);
    Docs res;
    std::mutex m;
    const uint8_t t = static_cast<uint8_t>(1 + (variant < 2 ? 0 : many ? T - 1 : vf_choice("threads", T)));
    switch (variant) {
    case 0: { auto l = s.search(req, del); res.assign(l.begin(), l.end()); break; }
    case 1: {
        Server::basic_callback_type cb = [&](uint64_t d) { res.push_back(d); };
        s.search(req, cb, del);
        break;
    }
    case 2: { auto l = s.search_parallel(req, t, del); res.assign(l.begin(), l.end()); break; }
    case 3: {
        if (old) vf_skip(); // (positions of missing entries are left as they are)
        uint64_t given = many ? vf_choice("size of the given vector", 2) * ref.size() : vf_choice("size of the given vector", ref.size() + 1);
        res.assign(given, 0x5555);
        s.search_parallel(req, t, res, del);
        vf_check(res.size() == ref.size(), "the result vector has one position per entry");
        bool ordered = true;
        for (size_t i = 0; i < ref.size(); i++) ordered = ordered & (res[i] == ref[i]);
        vf_check(ordered, "the result vector is in insertion order");
        break;
    }
    case 4: {
        Server::basic_callback_type cb = [&](uint64_t d) {
            std::lock_guard<std::mutex> l(m);
            res.push_back(d);
        };
        s.search_parallel(req, cb, t, del);
        break;
    }
    default: {
        std::vector<std::vector<std::pair<size_t, uint64_t>>> per(t); // (no lock: each thread owns its list)
        Server::tl_callback_type cb = [&](size_t i, uint64_t d, uint8_t id) {
            if (id >= t) vf_fail("thread identifiers are below the number of threads");
            per[id].emplace_back(i, d);
        };
        s.search_parallel(req, cb, t, del);
        for (auto& l : per)
            for (auto& e : l) {
                vf_check(e.first >= old && e.first - old < ref.size(), "positions are those of inserted entries");
                vf_check(e.second == ref[e.first - old], "an entry is reported with its position");
                res.push_back(e.second);
            }
    }
    }
    vf_check(same_docs(res, ref), "every variant returns exactly the entries of the keyword");
    auto left = s.search(req);
    vf_check(left.size() == (del ? 0 : ref.size()), "entries are removed if asked for");
    if (del) REACH("removed");
    vf_check(s.search(c.search_request("other")).size() == OTHER, "other keywords are not touched");
    if (ref.size() < t) REACH("fewer results than threads");
    if (ref.size() > t) REACH("more results than threads");
    REACH("done");
}
