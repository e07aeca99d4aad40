// N03: the Sophos service (Diana with -DDIANA) answers malformed and untimely requests with an error, without memory errors and
// without losing entries; a setup that fails leaves the server ready for another setup and for a restart.
#include "fsmodel.hpp"
#include <functional>
#include <list>
#include <memory>
#ifdef DIANA
#include "protos/diana.grpc.pb.h"
#include <sse/runners/diana/server_runner.hpp>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/crypto/wrapper.hpp>
using namespace sse::diana;
using Service = Diana;
using ServerRunner = DianaServerRunner;
using Client = DianaClient<uint64_t>;
#else
#include "protos/sophos.grpc.pb.h"
#include <sse/runners/sophos/sophos_server_runner.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>
using namespace sse::sophos;
using Service = Sophos;
using ServerRunner = SophosServerRunner;
using Client = SophosClient;
#endif
using Docs = std::vector<uint64_t>;
extern "C" uint64_t vf_hwc;
static const std::string DIR = "/server", KEYFILES[] = {"/server/tdp_pk.key", "/server/wrapping.key"};
// faults
static bool faults_on;
static unsigned failed;
static bool fail(const char* what)
{
    if (!faults_on || !vf_choice(what, 2)) return false;
    failed++;
    return true;
}
static bool db_fault(rocksdb::model::Op op, const std::string& path) { return op == rocksdb::model::OpOpen && path.compare(0, DIR.size(), DIR) == 0 && fail("database fails"); }
static bool stream_fault(const std::string& path, bool open) { return path.compare(0, DIR.size(), DIR) == 0 && fail(open ? "file cannot be opened" : "file cannot be written"); }
static long long fs_fault(fs::Op op, int, size_t) { return op == fs::MKDIR && fail("directory cannot be created") ? -1 : fs::NOFAULT; }
// file system
static bool db_dir(const std::string& p) { return rocksdb::model::stores().count(p) != 0; }
static bool db_rm(const std::string& p)
{
    auto& s = rocksdb::model::stores();
    auto i = s.find(p);
    if (i == s.end()) return false;
    vf_check(!i->second.open, "a database is removed once it is closed");
    s.erase(i);
    return true;
}
static bool under(const std::string& p, const std::string& d) { return p == d || p.compare(0, d.size() + 1, d + "/") == 0; }
static std::vector<std::string> tree(const std::string& d)
{
    std::vector<std::string> v;
    for (auto& x : vf::stream_fs().files) if (under(x.first, d)) v.push_back(x.first);
    for (auto& x : fs::st().nodes) if (under(x.first, d)) v.push_back(x.first);
    for (auto& x : rocksdb::model::stores()) if (under(x.first, d)) v.push_back(x.first);
    for (size_t i = 0; i < v.size(); i++) // children first
        for (size_t j = i + 1; j < v.size(); j++) if (v[j].size() > v[i].size()) std::swap(v[i], v[j]);
    return v;
}
struct Walk { std::vector<std::string> v; size_t i; FTSENT e; };
extern "C" {
FTS* fts_open(char* const* a, int, int (*)(const FTSENT**, const FTSENT**)) { auto* w = new Walk; w->v = tree(*a); w->i = 0; return reinterpret_cast<FTS*>(w); }
FTSENT* fts_read(FTS* f)
{
    auto* w = reinterpret_cast<Walk*>(f);
    errno = 0;
    if (w->i == w->v.size()) return nullptr;
    memset(&w->e, 0, sizeof w->e);
    std::string& p = w->v[w->i++];
    w->e.fts_info = fs::file(p) ? FTS_F : FTS_DP;
    w->e.fts_path = w->e.fts_accpath = &p[0];
    w->e.fts_pathlen = static_cast<unsigned short>(p.size());
    return &w->e;
}
int fts_close(FTS* f) { delete reinterpret_cast<Walk*>(f); return 0; }
}
static size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
static bool subset(const Docs& r, const Docs& v)
{
    bool ok = true;
    for (uint64_t x : r) ok = ok & (count(r, x) <= count(v, x));
    return ok;
}
static bool same(const Docs& r, const Docs& v) { return r.size() == v.size() && subset(r, v); }
template<size_t N> static sse::crypto::Key<N> key(uint8_t x)
{
    std::array<uint8_t, N> k;
    k.fill(x);
    return sse::crypto::Key<N>(k.data());
}
static std::string sized(size_t n, const char* name)
{
    std::string s(n, 'x');
    if (n && n < 100) vf_make_symbolic(&s[0], n, name);
    return s;
}
// a length other than the exact one
static size_t wrong(size_t exact)
{
    switch (vf_choice("length", 5)) {
    case 0: return 0;
    case 1: return exact - 1;
    case 2: return exact + 1;
    case 3: return exact / 2;
    default: return 4 * exact + 1000;
    }
}
static std::unique_ptr<Service::Stub>* stub;
static std::unique_ptr<Client>* client;
static std::string server_key; // what a setup gives to the server
#ifdef DIANA
static constexpr size_t KEY = sse::crypto::Wrapper::kKeySize;
static std::unique_ptr<sse::crypto::Wrapper> wrapper(uint8_t x = 3) { return std::make_unique<sse::crypto::Wrapper>(key<KEY>(x)); }
static SetupMessage setup_message(const std::string& k) { SetupMessage m; m.set_wrapping_key(k); return m; }
static SearchRequestMessage search_message(const std::string& kw)
{
    auto req = (*client)->search_request(kw, false);
    auto rep = wrapper()->wrap(req.constrained_rcprf);
    SearchRequestMessage m;
    m.set_add_count(req.add_count);
    m.set_constrained_rcprf_rep(rep.data(), rep.size());
    m.set_kw_token(req.kw_token.data(), req.kw_token.size());
    return m;
}
#else
static SetupMessage setup_message(const std::string& k) { SetupMessage m; m.set_public_key(k); return m; }
static SearchRequestMessage search_message(const std::string& kw)
{
    auto req = (*client)->search_request(kw);
    SearchRequestMessage m;
    m.set_add_count(req.add_count);
    m.set_derivation_key(req.derivation_key.data(), req.derivation_key.size());
    m.set_search_token(req.token.data(), req.token.size());
    return m;
}
#endif
static UpdateRequestMessage insert_message(const std::string& kw, uint64_t d)
{
    auto req = (*client)->insertion_request(kw, d);
    UpdateRequestMessage m;
    m.set_update_token(req.token.data(), req.token.size());
    m.set_index(req.index);
    return m;
}
static grpc::Status setup(const std::string& k)
{
    grpc::ClientContext c;
    google::protobuf::Empty e;
    return (*stub)->setup(&c, setup_message(k), &e);
}
static grpc::Status insert(const UpdateRequestMessage& m)
{
    grpc::ClientContext c;
    google::protobuf::Empty e;
    return (*stub)->insert(&c, m, &e);
}
static grpc::Status bulk(const std::vector<UpdateRequestMessage>& l)
{
    grpc::ClientContext c;
    google::protobuf::Empty e;
    auto w = (*stub)->bulk_insert(&c, &e);
    for (auto& m : l) w->Write(m);
    w->WritesDone();
    return w->Finish();
}
static grpc::Status search(const SearchRequestMessage& m, Docs& res)
{
    grpc::ClientContext c;
    auto r = (*stub)->search(&c, m);
    SearchReply x;
    res.clear();
    while (r->Read(&x)) res.push_back(x.result());
    return r->Finish();
}
static void search_all(const std::string& kw, const Docs& ref)
{
    Docs r;
    vf_check(search(search_message(kw), r).ok() && same(r, ref), "a search returns exactly the entries of the keyword");
}
static bool distinct(const std::string& token)
{ // an update token no stored entry has
    for (auto& s : rocksdb::model::stores()) {
        if (s.first.compare(0, DIR.size(), DIR) != 0) continue;
        for (auto& e : s.second.kv) {
            if (e.first.size() != token.size()) continue;
            bool same = true;
            for (size_t i = 0; i < token.size(); i++) same = same & (e.first[i] == token[i]);
            if (same) return false;
        }
    }
    return true;
}
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 2), MODE = vf_param("mode", 0);
    vf_hwc = 2;
    fs::st().extra_dir = db_dir;
    fs::st().extra_rm = db_rm;
    fs::st().hook = fs_fault;
    rocksdb::model::fault() = db_fault;
    vf::stream_fs().fail = stream_fault;
    const bool async = MODE == 1 || vf_choice("asynchronous search", 2);
    auto server = [&] {
        auto s = std::make_unique<ServerRunner>("srv", DIR);
        s->set_async_search(async);
        return s;
    };
    auto s = server();
    stub = new std::unique_ptr<Service::Stub>(Service::NewStub(grpc::CreateChannel("srv", grpc::InsecureChannelCredentials())));
#ifdef DIANA
    client = new std::unique_ptr<Client>(std::make_unique<Client>("/client", key<Client::kKeySize>(1), key<Client::kKeySize>(2)));
    server_key = std::string(KEY, '\3');
#else
    const std::string sk = sse::crypto::TdpInverse().private_key();
    client = new std::unique_ptr<Client>(std::make_unique<Client>("/client", sk, key<Client::kKeySize>(1), key<Client::kKeySize>(2)));
    server_key = (*client)->public_key();
#endif
    auto restart = [&] {
        s->shutdown();
        s.reset();
        s = server();
        REACH("restart");
    };
    auto not_set_up = [&] { // requests before the setup
        Docs r;
        grpc::Status st;
        switch (vf_choice("request", 3)) {
        case 0: st = insert(insert_message("early", 1)); break;
        case 1: st = bulk({insert_message("early", 1)}); break;
        default: st = search(search_message("early"), r);
        }
        vf_check(st.error_code() == grpc::StatusCode::FAILED_PRECONDITION && r.empty(), "a request to a server that is not set up is refused");
        vf_check(tree(DIR).empty(), "a request to a server that is not set up leaves nothing behind");
        REACH("not set up");
    };
    auto bad_key = [&]() -> std::string {
#ifdef DIANA
        return sized(wrong(KEY), "key");
#else
        std::string k = sized(vf_choice("key length", 2) ? server_key.size() - 1 : 0, "key");
        if (!k.empty()) k[0] = '\0';
        return k;
#endif
    };
    if (MODE == 1) { // failing setups
        for (uint64_t n = 0; n < OPS; n++) {
            const bool bad = vf_choice("bad key", 2);
            const std::string k = bad ? bad_key() : server_key;
            failed = 0;
            faults_on = true;
            grpc::Status st = setup(k);
            faults_on = false;
            vf_check(st.ok() == (!bad && failed == 0), "a setup that could not be completed is reported, and only that");
            if (st.ok()) { REACH("setup"); break; }
            vf_check(tree(DIR).empty(), "a failed setup leaves nothing behind");
            REACH("failed setup");
            if (vf_choice("use it", 2)) not_set_up();
            if (vf_choice("restart", 2)) restart();
            if (n + 1 == OPS) vf_check(setup(server_key).ok(), "a server can be set up after a failed setup");
        }
        if (vf_choice("restart", 2)) restart();
        uint64_t d = vf_sym("document", 64);
        vf_check(insert(insert_message("kw", d)).ok(), "a server that is set up accepts insertions");
        search_all("kw", {d});
        restart();
        search_all("kw", {d});
        REACH("done");
        return;
    }
    if (vf_choice("before the setup", 2)) not_set_up();
    vf_check(setup(server_key).ok(), "a setup succeeds");
    REACH("setup");
    Docs ref;
    for (uint64_t n = vf_param("docs", 2); n > 0; n--) {
        ref.push_back(vf_sym("document", 64));
        vf_check(insert(insert_message("kw", ref.back())).ok(), "a server that is set up accepts insertions");
    }
    for (uint64_t n = 0; n < OPS; n++) {
        Docs r;
        grpc::Status st;
        switch (vf_choice("op", 5)) {
        case 0: { // insertion of anything (last: it may be an entry of any keyword)
            if (n + 1 < OPS) vf_skip();
            UpdateRequestMessage m;
            const bool bad = vf_choice("bad token", 2);
            const std::string t = sized(bad ? wrong(kUpdateTokenSize) : kUpdateTokenSize, "token");
            if (!bad && !distinct(t)) vf_skip();
            m.set_update_token(t);
            m.set_index(vf_sym("index", 64));
            vf_check(insert(m).ok() == !bad, "exactly the well-formed insertions are accepted");
            REACH("insertion");
        } break;
        case 1: { // several of them, one may be malformed
            std::vector<UpdateRequestMessage> l;
            const uint64_t bad = vf_choice("malformed", 4);
            std::string other = "other" + std::string(n, '+');
            Docs before, after;
            for (uint64_t i = 0; i < 3; i++) {
                uint64_t d = vf_sym("document", 64);
                l.push_back(insert_message(other, d));
                if (i == bad) l.back().set_update_token(sized(wrong(kUpdateTokenSize), "token"));
                else (i < bad ? before : after).push_back(d);
            }
            vf_check(bulk(l).ok() == (bad == 3), "exactly the well-formed insertions are accepted");
            st = search(search_message(other), r);
            if (bad == 3) vf_check(st.ok() & same(r, before), "a search returns exactly the entries of the keyword");
            else {
                before.insert(before.end(), after.begin(), after.end());
                vf_check(subset(r, before), "a search returns entries of the keyword only");
            }
            REACH("bulk insertion");
        } break;
        case 2: { // search
            auto m = search_message("kw");
            bool bad = true;
#ifdef DIANA
            switch (vf_choice("field", 5)) {
            case 0: m.set_kw_token(sized(wrong(kKeywordTokenSize), "token")); break;
            case 1: { // not a wrapped element
                auto rep = m.constrained_rcprf_rep();
                uint64_t how = vf_choice("element", 4);
                if (how == 0) rep.clear();
                else if (how == 1) rep.pop_back();
                else if (how == 2) rep.push_back(0);
                else rep[rep.size() - 1] = static_cast<char>(rep[rep.size() - 1] ^ 1);
                m.set_constrained_rcprf_rep(rep);
            } break;
            case 2: { // wrapped with another key
                auto rep = wrapper(4)->wrap((*client)->search_request("kw", false).constrained_rcprf);
                m.set_constrained_rcprf_rep(rep.data(), rep.size());
            } break;
            case 3: { // more matches than tokens
                static const uint32_t more[] = {1, 2, 0x7fffffff, 0xfffffffd};
                m.set_add_count(m.add_count() + more[vf_choice("matches", m.add_count() == 2 ? 4 : 2)]);
            } break;
            default: // fewer of them
                m.set_add_count(static_cast<uint32_t>(vf_choice("matches", m.add_count())));
                bad = false;
            }
#else
            switch (vf_choice("field", 3)) {
            case 0: m.set_search_token(sized(wrong(kSearchTokenSize), "token")); break;
            case 1: m.set_derivation_key(sized(wrong(kDerivationKeySize), "key")); break;
            default: // another number of matches
                m.set_add_count(static_cast<uint32_t>(vf_choice("matches", m.add_count() + 2)));
                bad = false;
            }
#endif
            st = search(m, r);
            vf_check(st.ok() == !bad, "exactly the well-formed searches are answered");
            if (bad) vf_check(r.empty(), "a malformed search returns nothing");
            else if (m.add_count() <= ref.size()) vf_check(subset(r, ref), "a search returns entries of the keyword only");
            else vf_check(subset(ref, r), "a search that expects too many entries finds those there are");
            REACH("search");
        } break;
        case 3: { // a second setup
            const uint64_t which = vf_choice("key", 3);
#ifdef DIANA
            const std::string other(KEY, '\4');
#else
            const std::string other = sse::crypto::TdpInverse().public_key();
#endif
            const std::string k = which == 0 ? bad_key() : which == 1 ? server_key : other;
            vf_check(!setup(k).ok(), "a server is set up once");
            REACH("second setup");
        } break;
        default: restart();
        }
    }
    search_all("kw", ref);
    restart();
    search_all("kw", ref);
    REACH("done");
}
