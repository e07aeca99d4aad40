// F01: Sophos searches return exactly the inserted entries of the keyword, over histories with restarts and failing counters.
#include "common.hpp"
#include <list>
#include <memory>
#include <functional>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
using namespace sse::sophos;
using Docs = std::vector<uint64_t>;
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op op, const std::string& path)
{
    if (!fault_on || path != "/client" || op == rocksdb::model::OpOpen || op == rocksdb::model::OpProp) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
template<size_t N> static sse::crypto::Key<N> key(uint8_t x)
{
    std::array<uint8_t, N> k;
    k.fill(x);
    return sse::crypto::Key<N>(k.data());
}
static const std::string names[] = {"kw", "", std::string("kw\0", 3), "k\xfflonger keyword than one block of sixteen bytes"};
static std::unique_ptr<SophosClient> client(const std::string& sk) { return std::make_unique<SophosClient>("/client", sk, key<SophosClient::kKeySize>(1), key<SophosClient::kKeySize>(2)); }
struct Snapshot
{
    std::vector<std::pair<std::string, std::string>> kv;
    explicit Snapshot(const char* path) { for (auto& e : rocksdb::model::stores()[path].kv) kv.emplace_back(e.first, e.second); }
    bool same(const Snapshot& o) const
    {
        if (kv.size() != o.kv.size()) return false;
        bool ok = true;
        for (size_t i = 0; i < kv.size(); i++) {
            if (kv[i].first.size() != o.kv[i].first.size() || kv[i].second.size() != o.kv[i].second.size()) return false;
            for (size_t j = 0; j < kv[i].first.size(); j++) ok = ok & (kv[i].first[j] == o.kv[i].first[j]);
            for (size_t j = 0; j < kv[i].second.size(); j++) ok = ok & (kv[i].second[j] == o.kv[i].second[j]);
        }
        return ok;
    }
};
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 4), KW = vf_param("keywords", 2), F = vf_param("faults", 0), R = vf_param("restarts", 1);
    rocksdb::model::fault() = fault;
    const std::string sk = sse::crypto::TdpInverse().private_key();
    auto c = client(sk);
    vf_check(c->private_key() == sk, "the client keeps its key");
    const std::string pk = c->public_key();
    auto s = std::make_unique<SophosServer>("/server", pk);
    vf_check(s->public_key() == pk, "the server keeps the public key");
    std::vector<Docs> ref(KW);
    std::vector<std::string> reachable; // locations an earlier search lets the server compute
    auto search = [&](uint64_t k, bool remember) {
        Snapshot sb("/server"), cb("/client");
        auto req = c->search_request(names[k]);
        auto res = s->search(req);
        vf_check(same_docs(Docs(res.begin(), res.end()), ref[k]), "a search returns exactly the entries inserted for the keyword");
        vf_check(Snapshot("/server").same(sb) & Snapshot("/client").same(cb), "a search changes nothing");
        if (remember && req.add_count) {
            sse::crypto::Tdp tdp(pk);
            sse::crypto::Prf<kUpdateTokenSize> prf(key<kDerivationKeySize>(0));
            std::array<uint8_t, kDerivationKeySize> dk = req.derivation_key;
            prf = sse::crypto::Prf<kUpdateTokenSize>(sse::crypto::Key<kDerivationKeySize>(dk.data()));
            auto t = req.token;
            for (size_t i = 0; i < req.add_count + 2u; i++) {
                update_token_type ut;
                std::array<uint8_t, kUpdateTokenSize> mask;
                gen_update_token_masks(prf, t.data(), ut, mask);
                reachable.emplace_back(reinterpret_cast<char*>(ut.data()), ut.size());
                t = tdp.eval(t);
            }
        }
        if (res.size() > 1) REACH("several results");
    };
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t op = vf_choice("op", R ? 4 : 2), k = op < 2 ? vf_choice("keyword", KW) : 0;
        if (op == 0) {
            uint64_t d = vf_sym("document", 64);
            UpdateRequest u;
            fault_on = F;
            faulted = false;
            bool threw = throws_any([&] { u = c->insertion_request(names[k], d); });
            fault_on = false;
            vf_check(threw == faulted, "an insertion that could not be counted is reported");
            if (threw) { REACH("failed insertion"); continue; }
            std::string loc(reinterpret_cast<char*>(u.token.data()), u.token.size());
            for (auto& e : rocksdb::model::stores()["/server"].kv) vf_check(e.first != loc, "an update addresses a fresh location");
            for (auto& r : reachable) vf_check(r != loc, "an update addresses a location that no earlier search reveals");
            s->insert(u);
            ref[k].push_back(d);
        } else if (op == 1) {
            if (F) {
                fault_on = true;
                faulted = false;
                SearchRequest req = c->search_request(names[k]); // (a failed counter read: nothing is searched)
                fault_on = false;
                if (!faulted) vf_check(req.add_count == ref[k].size(), "a search asks for every entry");
            }
            search(k, true);
        } else if (op == 2) {
            c.reset();
            c = client(sk);
            REACH("client restart");
        } else {
            s.reset();
            s = std::make_unique<SophosServer>("/server", pk);
            REACH("server restart");
        }
    }
    size_t present = 0;
    for (uint64_t k = 0; k < KW; k++) {
        search(k, false);
        present += !ref[k].empty();
    }
    vf_check(c->keyword_count() == present, "one counter per keyword with entries");
    auto req = c->search_request("absent");
    vf_check(req.add_count == 0 && s->search(req).empty(), "a search for an absent keyword returns nothing");
    REACH("done");
}
