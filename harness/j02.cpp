// J02: cached results survive storage exactly, and truncated cache data is never read past its end.
#include "janus_common.hpp"
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("records", 3), TRUNC = vf_param("trunc", 0), ADD = vf_param("add", 0);
    const size_t REC = sizeof(index_type) + sse::crypto::punct::kTagSize;
    sse::crypto::model::prf_hook() = tag_prf;
    auto c = client();
    auto s = server();
    const size_t len = TRUNC ? vf_choice("bytes", N * REC + 1) : vf_choice("records", N + 1) * REC;
    std::string data(len, 0);
    for (auto& b : data) b = static_cast<char>(vf_sym("cached byte", 8));
    auto put = [&](const std::string& key, const std::string& v) { rocksdb::model::stores()["/cache"].kv.push_back({key, v, {}}); };
    auto req = c->search_request("kw");
    std::string key(reinterpret_cast<char*>(req.keyword_token.data()), req.keyword_token.size());
    put(key, data);
    Docs expect;
    for (size_t i = 0; i + REC <= len; i += REC) {
        uint64_t d;
        memcpy(&d, data.data() + i, 8);
        expect.push_back(d);
    }
    Docs added;
    for (uint64_t i = 0; i < ADD; i++) {
        added.push_back(vf_sym("document", 64));
        for (uint64_t j = 0; j < i; j++) vf_assume(added[i] != added[j]);
        s->insert(c->insertion_request("kw", added[i]));
    }
    auto stored = [&]() -> std::string {
        for (auto& e : rocksdb::model::stores()["/cache"].kv) if (e.first == key) return e.second;
        return "";
    };
    const bool par = vf_choice("parallel search", 2);
    for (int round = 0; round < 2; round++) {
        if (round == 1) { s.reset(); s = server(); }
        auto r = round == 0 && ADD ? c->search_request("kw") : c->search_request("kw");
        auto l = par ? s->search_parallel(r, 1) : s->search(r);
        Docs all = expect;
        all.insert(all.end(), added.begin(), added.end());
        vf_check(same_docs(Docs(l.begin(), l.end()), all), "the cached results are those stored");
        std::string now = stored();
        vf_check(now.size() == all.size() * REC, "exactly the whole records are stored again");
        if (!par || !ADD) {
            bool ok = true;
            for (size_t i = 0; i < expect.size() * REC; i++) ok = ok & (now[i] == data[i]);
            vf_check(ok, "the records are stored as they were read");
        }
    }
    if (len % REC) REACH("truncated");
    if (expect.size() > 1) REACH("several records");
    REACH("done");
}
