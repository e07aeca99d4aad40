// F02: every search variant of the Sophos server returns the same entries, for every number of results and threads.
#include "common.hpp"
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
extern "C" uint64_t vf_hwc;
using namespace sse::sophos;
using Docs = std::vector<uint64_t>;
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
template<size_t N> static sse::crypto::Key<N> key(uint8_t x)
{
    std::array<uint8_t, N> k;
    k.fill(x);
    return sse::crypto::Key<N>(k.data());
}
extern "C" void vf_entry()
{
    const uint64_t MIN = vf_param("minres", 0), MAX = vf_param("maxres", 3), T = vf_param("threads", 2), OTHER = vf_param("other", 1), ONLY = vf_param("only", 99);
    const uint64_t hosts[] = {1, 2, 127, 128, 129, 256, 0};
    if (vf_param("hosts", 0)) vf_hwc = hosts[vf_choice("hardware threads", 7)];
    sse::crypto::TdpInverse tdp;
    SophosClient c("/client", tdp.private_key(), key<SophosClient::kKeySize>(1), key<SophosClient::kKeySize>(2));
    SophosServer s("/server", c.public_key());
    Docs ref(MIN + vf_choice("results", MAX + 1 - MIN));
    for (uint64_t i = 0; i < OTHER; i++) s.insert(c.insertion_request("other", vf_sym("document", 64)));
    const uint64_t SYM = vf_param("symbolic", 1000);
    for (auto& d : ref) {
        const uint64_t at = static_cast<uint64_t>(&d - ref.data());
        d = at < SYM ? vf_sym("document", 64) : 0x9E3779B97F4A7C15ull * (at + 1);
        s.insert(c.insertion_request("kw", d));
    }
    const uint64_t variant = vf_param("hosts", 0) ? vf_choice("variant", 2) * 3 : ONLY != 99 ? ONLY : vf_choice("variant", 6);
    auto req = c.search_request("kw");
    vf_check(req.add_count == ref.size(), "a request asks for every entry");
    const auto before = req.token;
    Docs res;
    std::mutex m;
    std::function<void(uint64_t)> cb = [&](uint64_t d) {
        std::lock_guard<std::mutex> l(m);
        res.push_back(d);
    };
    const uint8_t t1 = static_cast<uint8_t>(1 + vf_choice("threads", variant < 2 ? 1 : T));
    auto use = [&](const std::list<uint64_t>& l) { res.assign(l.begin(), l.end()); };
    switch (variant) {
    case 0: use(s.search(req)); break;
    case 1: s.search_callback(req, cb); break;
    case 2: use(s.search_parallel(req, t1)); break;
    case 3: use(s.search_parallel_light(req, t1)); break;
    case 4: {
        const uint8_t t2 = vf_param("more", 1) ? static_cast<uint8_t>(1 + vf_choice("access threads", T)) : 1;
        s.search_parallel_callback(req, cb, t1, t2, 1);
        break;
    }
    default: s.search_parallel_light_callback(req, cb, t1); break;
    }
    if (variant == 1 || variant > 3) { // the callback is not called later
        size_t n = res.size();
        vf_yield();
        vf_check(res.size() == n, "no callback after the search returned");
    }
    vf_check(same_docs(res, ref), "every variant returns exactly the entries of the keyword");
    if (!ref.empty()) vf_check(before == req.token, "the request is unchanged");
    if (ref.size() < t1) REACH("fewer results than threads");
    if (ref.size() > t1) REACH("more results than threads");
    REACH("done");
}
