// D01: Diana searches return exactly the inserted entries of the keyword, over histories of insertions (single and bulk),
// searches with and without removal of the results, keyword removals, and restarts.
#include "common.hpp"
#include <functional>
#include <list>
#include <memory>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
using namespace sse::diana;
#ifdef WIDE
using Entry = std::array<uint8_t, 24>;
static Entry fresh() { Entry e; vf_make_symbolic(e.data(), e.size(), "entry"); return e; }
static bool eq(const Entry& a, const Entry& b)
{
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
    return r;
}
#else
using Entry = uint64_t;
static Entry fresh() { return vf_sym("entry", 64); }
static bool eq(Entry a, Entry b) { return a == b; }
#endif
using Client  = DianaClient<Entry>;
using Server  = DianaServer<Entry>;
using Entries = std::vector<Entry>;
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op op, const std::string& path)
{
    if (!fault_on || path != "/client" || op == rocksdb::model::OpOpen || op == rocksdb::model::OpProp) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
static size_t count(const Entries& l, const Entry& x)
{
    size_t n = 0;
    for (auto& y : l) n += eq(x, y);
    return n;
}
static bool same(const Entries& r, const Entries& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (auto& x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
template<size_t N> static sse::crypto::Key<N> key(uint8_t x)
{
    std::array<uint8_t, N> k;
    k.fill(x);
    return sse::crypto::Key<N>(k.data());
}
static const std::string names[] = {"kw", "", std::string("kw\0", 3), "k\xfflonger keyword than one block of sixteen bytes"};
static std::unique_ptr<Client> client() { return std::make_unique<Client>("/client", key<Client::kKeySize>(1), key<Client::kKeySize>(2)); }
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 4), KW = vf_param("keywords", 2), F = vf_param("faults", 0), BULK = vf_param("bulk", 2), FIRST = vf_param("first", 0);
    rocksdb::model::fault() = fault;
    auto c = client();
    auto s = std::make_unique<Server>("/server");
    std::vector<Entries> ref(KW); // still stored
    std::vector<size_t> inserted(KW, 0);
    std::vector<std::string> revealed; // locations an earlier search lets the server compute
    auto locations = [&](const SearchRequest& req) {
        std::vector<std::string> l;
        if (req.add_count == 0) return l;
        vf_check(req.constrained_rcprf.min_leaf() == 0 && req.constrained_rcprf.max_leaf() == req.add_count - 1, "a search reveals the tokens of the inserted entries only");
        for (size_t i = 0; i < req.add_count; i++) {
            auto st = req.constrained_rcprf.eval(i);
            update_token_type ut;
            Entry mask;
            gen_update_token_mask(st, ut, mask);
            l.emplace_back(reinterpret_cast<char*>(ut.data()), ut.size());
        }
        return l;
    };
    auto stored = [](const std::string& l) {
        for (auto& e : rocksdb::model::stores()["/server"].kv) if (e.first == l) return true;
        return false;
    };
    auto search = [&](uint64_t k, bool del, bool remember) {
        auto req = c->search_request(names[k], remember && vf_choice("log", 2));
        vf_check(req.add_count == inserted[k] && c->get_match_count(names[k]) == inserted[k], "a search asks for every entry inserted under the keyword");
        auto locs = locations(req);
        size_t before = rocksdb::model::stores()["/server"].kv.size();
        auto res = s->search(req, del);
        vf_check(same(Entries(res.begin(), res.end()), ref[k]), "a search returns exactly the entries inserted for the keyword");
        vf_check(rocksdb::model::stores()["/server"].kv.size() == before - (del ? ref[k].size() : 0), "exactly the returned entries are removed, if asked for");
        for (auto& l : locs) if (del) vf_check(!stored(l), "the removed entries are gone");
        if (remember) for (auto& l : locs) revealed.push_back(l);
        if (del) ref[k].clear();
        if (res.size() > 1) REACH("several results");
    };
    auto fresh_location = [&](const UpdateRequest<Entry>& u) {
        std::string l(reinterpret_cast<const char*>(u.token.data()), u.token.size());
        vf_check(!stored(l), "an update addresses a fresh location");
        for (auto& r : revealed) vf_check(r != l, "an update addresses a location that no earlier search reveals");
    };
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t op = n == 0 && FIRST ? FIRST - 1 : vf_choice("op", F ? 4 : 7), k = op < 5 && op != 1 ? vf_choice("keyword", KW) : 0;
        if (op == 0) { // insertion
            Entry d = fresh();
            UpdateRequest<Entry> u;
            fault_on = F;
            faulted = false;
            bool threw = throws_any([&] { u = c->insertion_request(names[k], d); });
            fault_on = false;
            vf_check(threw == faulted, "an insertion that could not be counted is reported");
            if (threw) { REACH("failed insertion"); continue; }
            fresh_location(u);
            s->insert(u);
            ref[k].push_back(d);
            inserted[k]++;
        } else if (op == 1) { // bulk insertion, possibly of several entries of one keyword
            uint64_t m = vf_choice("bulk size", BULK + 1);
            std::list<std::pair<std::string, Entry>> l;
            std::vector<uint64_t> ks;
            for (uint64_t i = 0; i < m; i++) {
                ks.push_back(vf_choice("keyword", KW));
                l.emplace_back(names[ks[i]], fresh());
            }
            std::list<UpdateRequest<Entry>> us;
            fault_on = F;
            faulted = false;
            bool threw = throws_any([&] { us = c->bulk_insertion_request(l); });
            fault_on = false;
            vf_check(threw == faulted, "a bulk insertion that could not be counted is reported");
            if (threw) vf_skip(); // (the counters of the first entries of the list are consumed)
            vf_check(us.size() == m, "one update per entry of a bulk insertion");
            auto it = l.begin();
            uint64_t i = 0;
            for (auto& u : us) {
                fresh_location(u);
                s->insert(u);
                ref[ks[i]].push_back(it->second);
                inserted[ks[i]]++;
                ++it;
                i++;
            }
            if (m > 1) REACH("bulk");
        } else if (op == 2) search(k, false, true);
        else if (op == 3) search(k, true, true);
        else if (op == 4) { // a keyword is forgotten after its entries were removed
            search(k, true, false);
            vf_check(c->remove_keyword(names[k]), "the keyword is removed");
            inserted[k] = 0;
            revealed.clear();
        } else if (op == 5) {
            c.reset();
            c = client();
            REACH("client restart");
        } else {
            s->flush_edb();
            s.reset();
            s = std::make_unique<Server>("/server");
            REACH("server restart");
        }
    }
    size_t present = 0;
    for (uint64_t k = 0; k < KW; k++) {
        search(k, false, false);
        present += inserted[k] != 0;
    }
    vf_check(c->keyword_count() == present, "one counter per keyword with entries");
    auto req = c->search_request("absent");
    vf_check(req.add_count == 0 && s->search(req).empty(), "a search for an absent keyword returns nothing");
    REACH("done");
}
