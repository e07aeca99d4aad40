// N01 (Sophos) / N02 (Diana, with -DDIANA): sessions of the client and server runners: searches return exactly the inserted
// entries of the keyword, over histories of insertions (single, in sessions, from an index file), restarts and failures.
#define DIANA_CLIENT_RUNNER_CPP
#define SOPHOS_CLIENT_RUNNER_CPP
#include "fsmodel.hpp"
#include <list>
#include <memory>
#include <functional>
#ifdef DIANA
#include "protos/diana.grpc.pb.h"
#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>
using ClientRunner = sse::diana::DianaClientRunner;
using ServerRunner = sse::diana::DianaServerRunner;
#else
#include "protos/sophos.grpc.pb.h"
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>
using ClientRunner = sse::sophos::SophosClientRunner;
using ServerRunner = sse::sophos::SophosServerRunner;
#endif
#include <sse/dbparser/json/DBParserJSON.h>
#include <thread>
using Docs = std::vector<uint64_t>;
extern "C" uint64_t vf_hwc;
static bool net_on, db_on, lost_request, lost_reply, db_failed;
static bool net_fault(const char*, bool reply)
{
    if (!net_on) return false;
    bool f = vf_choice("lost", 2);
    if (f) (reply ? lost_reply : lost_request) = true;
    return f;
}
static size_t net_cut(size_t n) { return net_on ? vf_choice("delivered replies", n + 1) : n; }
static bool db_fault(rocksdb::model::Op op, const std::string& path)
{
    if (!db_on || path != "/client/counters.dat" || op == rocksdb::model::OpOpen || op == rocksdb::model::OpProp || op == rocksdb::model::OpFlush) return false;
    bool f = vf_choice("fault", 2);
    db_failed = db_failed || f;
    return f;
}
static bool db_dir(const std::string& p) { return rocksdb::model::stores().count(p) != 0; }
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool subset(const Docs& r, const Docs& v)
{
    bool ok = true;
    for (uint64_t x : r) ok = ok & (count(r, x) <= count(v, x));
    return ok;
}
static bool same(const Docs& r, const Docs& v) { return r.size() == v.size() && subset(r, v); }
static const std::string names[] = {"kw", "", std::string("kw\0", 3)};
static std::shared_ptr<grpc::Channel> channel() { return grpc::CreateChannel("srv", grpc::InsecureChannelCredentials()); }
static std::unique_ptr<ClientRunner> client() { return std::make_unique<ClientRunner>(channel(), "/client"); }
static std::unique_ptr<ServerRunner> server(bool async)
{
    auto s = std::make_unique<ServerRunner>("srv", "/server");
    s->set_async_search(async);
    return s;
}
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 3), KW = vf_param("keywords", 2), NET = vf_param("network", 0), MODE = vf_param("mode", 0), DBF = vf_param("faults", 0);
    fs::st().extra_dir = db_dir;
    rocksdb::model::fault() = db_fault;
    grpc::model::net().lost = net_fault;
    grpc::model::net().cut = net_cut;
    static const uint64_t hosts[] = {2, 0, 1, 3, 256};
    vf_hwc = hosts[vf_param("hosts", 0) ? vf_choice("hardware threads", vf_param("hosts", 0)) : 0];
    bool async = MODE == 1 || MODE == 3 || vf_choice("asynchronous search", 2);
    vf_check(throws_any([&] { fs::st().nodes["/client"] = 'o'; client(); }), "a client needs a directory");
    fs::st().nodes.clear();
    auto s = server(async);
    auto c = client();
    std::vector<Docs> ref(KW);
    bool session = false, session_lost = false;
    auto search = [&](uint64_t k, bool faults) {
        net_on = faults;
        lost_request = lost_reply = false;
        Docs cb;
        auto l = c->search(names[k], [&](uint64_t x) { cb.push_back(x); });
        net_on = false;
        Docs res(l.begin(), l.end());
        vf_check(res.size() == cb.size(), "every received result is given to the callback");
        bool eq = true;
        for (size_t i = 0; i < res.size(); i++) eq = eq & (res[i] == cb[i]);
        vf_check(eq, "the callback sees the results");
        if (faults) vf_check(subset(res, ref[k]), "an interrupted search returns entries of the keyword only");
        else vf_check(same(res, ref[k]), "a search returns exactly the entries inserted for the keyword");
        if (res.size() > 1) REACH("several results");
    };
    if (MODE == 1) { // concurrent calls on a running server, from one client
        const uint64_t T = vf_param("threads", 2);
        std::vector<Docs> d(T, Docs(2));
        std::vector<std::thread> th;
        for (auto& x : d) for (auto& y : x) y = vf_sym("document", 64);
        ref[0].push_back(vf_sym("document", 64));
        c->insert(names[0], ref[0][0]);
        const bool bulk = vf_choice("session", 2);
        if (bulk) c->start_update_session();
        const uint64_t what = vf_choice("second thread", 3);
        th.emplace_back([&] { c->insert(names[1], d[0][0]); });
        Docs found;
        if (what == 0) th.emplace_back([&] { auto l = c->search(names[0]); found.assign(l.begin(), l.end()); });
        else if (what == 1) th.emplace_back([&] { c->insert(names[2], d[1][0]); });
        else th.emplace_back([&] { c->search(names[1]); });
        for (auto& t : th) t.join();
        if (bulk) c->end_update_session();
        if (what == 0) vf_check(same(found, ref[0]), "a search returns exactly the entries inserted for the keyword, whatever else is inserted");
        ref[1].push_back(d[0][0]);
        if (what == 1) ref[2].push_back(d[1][0]);
        for (uint64_t k = 0; k < KW; k++) search(k, false);
        REACH("concurrent");
        REACH("done");
        return;
    }
    auto insert = [&](uint64_t k, uint64_t d, bool in_session) {
        db_on = DBF;
        net_on = NET && !session;
        db_failed = lost_request = lost_reply = false;
        bool threw = throws_any([&] { if (in_session) c->insert_in_session(names[k], d); else c->insert(names[k], d); });
        db_on = net_on = false;
        vf_check(threw == db_failed, "an insertion that could not be counted is reported");
        if (!threw && !lost_request && !(session && session_lost)) ref[k].push_back(d);
        if (threw) REACH("failed insertion");
        if (lost_request | lost_reply) REACH("lost insertion");
    };
    for (uint64_t n = 0; n < OPS; n++) {
        switch (MODE == 3 ? 6 : vf_choice("op", MODE == 2 ? 7 : 6)) {
        case 0: insert(vf_choice("keyword", KW), vf_sym("document", 64), false); break;
        case 1: if (session) vf_skip(); search(vf_choice("keyword", KW), NET); break;
        case 2: // restart of the client
            if (session) { c->end_update_session(); session = false; }
            c.reset();
            c = client();
            REACH("client restart");
            break;
        case 3: // restart of the server
            if (session) vf_skip();
            s->shutdown();
            s.reset();
            s = server(async);
            REACH("server restart");
            break;
        case 4: // session
            if (session) {
                c->end_update_session();
                vf_check(throws<std::runtime_error>([&] { c->insert_in_session("other", 1); }, "exception type"), "a session that was ended takes no insertions");
            } else {
                net_on = NET;
                lost_request = false;
                c->start_update_session();
                net_on = false;
                session_lost = lost_request; // (only logged)
            }
            session = !session;
            REACH("session");
            break;
        case 5:
            if (session) insert(vf_choice("keyword", KW), vf_sym("document", 64), true);
            else {
                vf_check(throws<std::runtime_error>([&] { c->insert_in_session("other", 1); }, "exception type"), "a session has to be started first");
                c->end_update_session(); // (only a warning)
            }
            break;
        case 6: { // an index file
            if (session || vf_hwc > 3) vf_skip();
            auto& ix = sse::dbparser::model::indexes();
            ix.clear();
            std::vector<Docs> add(KW);
            const uint64_t state = vf_choice("missing or malformed file", 3);
            const bool missing = state == 1, malformed = state == 2;
            sse::dbparser::model::malformed()["file"] = malformed;
            if (!missing) {
                auto& f = ix["file"];
                uint64_t m = MODE == 3 ? KW : 1 + vf_choice("keywords in the file", KW);
                for (uint64_t k = 0; k < m; k++) {
                    std::list<unsigned> l;
                    for (uint64_t i = MODE == 3 ? 1 : vf_choice("documents", 3); i > 0; i--) { l.push_back(static_cast<unsigned>(vf_sym("document", 32))); add[k].push_back(l.back()); }
                    f.emplace_back(names[k], l);
                }
            }
            db_on = DBF;
            db_failed = false;
            bool ok = c->load_inverted_index("file");
            db_on = false;
            vf_check(ok == (!missing && !malformed && !db_failed), "a file that could not be loaded is reported");
            if (!ok) REACH("failed load");
            if (db_failed || malformed) { // (some of the entries are there)
                for (uint64_t k = 0; k < KW; k++) {
                    auto l = c->search(names[k]);
                    Docs res(l.begin(), l.end()), all = ref[k];
                    all.insert(all.end(), add[k].begin(), add[k].end());
                    vf_check(subset(res, all) & subset(ref[k], res), "a search returns entries of the keyword, and all those inserted");
                    ref[k] = res;
                }
            } else for (uint64_t k = 0; k < KW; k++) ref[k].insert(ref[k].end(), add[k].begin(), add[k].end());
            REACH("load");
        } break;
        }
    }
    if (session) c->end_update_session();
    if (MODE != 3 && vf_choice("restart", 2)) {
        c.reset();
        s.reset();
        s = server(!async);
        c = client();
    }
    for (uint64_t k = 0; k < KW; k++) search(k, false);
    vf_check(c->search("absent").empty(), "a search for an absent keyword returns nothing");
    REACH("done");
}
