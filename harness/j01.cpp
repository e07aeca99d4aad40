// J01: Janus searches return exactly the documents inserted and not deleted since, over histories of insertions, deletions,
// searches of every kind and restarts.
#include "janus_common.hpp"
static const std::string names[] = {"kw", "", "00000000", std::string("kw\0", 3), "0kw"};
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 4), KW = vf_param("keywords", 1), T = vf_param("threads", 2), R = vf_param("restarts", 1), VARIANTS = vf_param("variants", 4), PRE = vf_param("preinserted", 0), FINAL = vf_param("final", 1);
    sse::crypto::model::prf_hook() = tag_prf;
    auto c = client();
    auto s = server();
    struct Kw { Docs present, seen, barred; }; // seen: ever used; barred: deleted since the last search (a document deleted in a period cannot be inserted in it)
    std::vector<Kw> ref(KW);
    auto search = [&](uint64_t k, uint64_t v, uint8_t t) {
        auto req = c->search_request(names[k]);
        Docs res;
        std::mutex m;
        if (v == 0) { auto l = s->search(req); res.assign(l.begin(), l.end()); }
        else if (v == 1) { auto l = s->search_parallel(req, t); res.assign(l.begin(), l.end()); }
        else if (v == 2) {
            std::function<void(index_type)> cb = [&](index_type i) { std::lock_guard<std::mutex> l(m); res.push_back(i); };
            s->search_parallel(req, t, cb);
        } else {
            std::vector<Docs> per(t + 1u);
            std::function<void(index_type, uint8_t)> cb = [&](index_type i, uint8_t id) {
                if (id > t) vf_fail("thread identifiers are at most the number of threads");
                per[id].push_back(i);
            };
            s->search_parallel(req, t, cb);
            for (auto& l : per) res.insert(res.end(), l.begin(), l.end());
        }
        vf_check(same_docs(res, ref[k].present), "a search returns exactly the documents inserted and not deleted since");
        ref[k].barred.clear();
        if (res.size() > 1) REACH("several results");
        if (v) REACH("parallel search");
    };
    auto insert = [&](uint64_t k, uint64_t d) {
        for (uint64_t x : ref[k].present) vf_assume(x != d); // (each document once)
        for (uint64_t x : ref[k].barred) vf_assume(x != d);
        s->insert(c->insertion_request(names[k], d));
        ref[k].present.push_back(d);
        ref[k].seen.push_back(d);
    };
    if (vf_param("periods", 0)) { // many searches ago: the state after any number of searches is the one after two, up to the counter
        const uint32_t at[] = {2, 9, 10, 15, 16, 99, 255, 256, 65535, 65536, 0xfffffffeu};
        insert(0, vf_sym("document", 64));
        search(0, 0, 1);
        insert(0, vf_sym("document", 64));
        search(0, 0, 1);
        c.reset();
        {
            sse::sophos::RocksDBCounter m("/counters");
            uint32_t n = 0;
            vf_check(m.get(names[0], n) && n == 2, "the client counts the searches");
            m.set(names[0], at[vf_choice("searches", 11)]);
        }
        c = client();
        const uint64_t o = vf_choice("other keyword", 4) + 1;
        vf_assume(o < KW);
        for (uint64_t p = 0; p < 3; p++) { // every period of the other keyword, with the first one now and the next
            insert(o, vf_sym("document", 64));
            if (p < 2) insert(0, vf_sym("document", 64));
            search(o, 0, 1);
            if (p < 2) search(0, 0, 1);
        }
        REACH("many periods");
    }
    for (uint64_t i = 0; i < PRE; i++) insert(0, vf_sym("document", 64));
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t op = vf_choice("op", R ? 5 : 3), k = op < 3 ? vf_choice("keyword", KW) : 0;
        Kw& w = ref[k];
        if (op == 0) {
            // a new document, or one that was deleted before the last search
            insert(k, vf_sym("document", 64));
        } else if (op == 1) {
            uint64_t i = vf_choice("deleted", w.seen.size() + 1);
            uint64_t d = i < w.seen.size() ? w.seen[i] : vf_sym("deleted document", 64);
            s->remove(c->removal_request(names[k], d));
            Docs left;
            for (uint64_t x : w.present) {
                if (x == d) REACH("deletion of a present document");
                else left.push_back(x);
            }
            w.present = left;
            w.barred.push_back(d);
            if (w.barred.size() > 1) REACH("two deletions between searches");
        } else if (op == 2) {
            uint64_t v = vf_choice("variant", VARIANTS);
            search(k, v, static_cast<uint8_t>(v ? 1 + vf_choice("threads", T) : 1));
        } else if (op == 3) {
            c.reset();
            c = client();
            REACH("client restart");
        } else {
            s->flush_edb();
            s.reset();
            s = server();
            REACH("server restart");
        }
    }
    for (uint64_t k = 0; k < KW; k++)
        for (uint64_t i = 0; i <= FINAL; i++) search(k, VARIANTS > 1 ? i : 0, 2); // (the second one only reads the cache)
    auto req = c->search_request("absent");
    vf_check(s->search(req).empty(), "a search for an absent keyword returns nothing");
    REACH("done");
}
