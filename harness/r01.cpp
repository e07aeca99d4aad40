// R01: the key-value wrapper returns the last write, reports absence, and reports every failure of the storage engine.
#include "common.hpp"
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
using sse::sophos::RockDBWrapper;
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op, const std::string&)
{
    if (!fault_on) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
template<size_t KN> static std::array<uint8_t, KN> key(const char* n) { std::array<uint8_t, KN> k; vf_make_symbolic(k.data(), KN, n); return k; }
template<class V> struct Ent { bool present; V v; };
extern "C" void vf_entry()
{
    constexpr size_t KN = 4;
    using V = uint64_t;
    const uint64_t OPS = vf_param("ops", 3), F = vf_param("faults", 0), NK = vf_param("keys", 2);
    auto db = std::make_unique<RockDBWrapper>("/db");
    RockDBWrapper other("/other");
    rocksdb::model::fault() = fault;
    std::vector<std::array<uint8_t, KN>> ks;
    std::vector<Ent<V>> ref;
    for (uint64_t i = 0; i < NK; i++) {
        ks.push_back(key<KN>("key"));
        for (uint64_t j = 0; j < i; j++) vf_assume(memcmp(ks[j].data(), ks[i].data(), KN) != 0);
        ref.push_back({false, 0});
    }
    auto check_all = [&] {
        fault_on = false;
        for (uint64_t i = 0; i < NK; i++) {
            V g = 0x5555, h = 0x5555;
            bool a = db->get(ks[i], g), b = db->get(ks[i].data(), static_cast<uint8_t>(KN), h);
            vf_check(a == ref[i].present && b == ref[i].present, "presence follows the writes");
            if (a) vf_check(g == ref[i].v && h == ref[i].v, "the value read is the last one written");
            std::string s;
            bool c = db->get(std::string(reinterpret_cast<const char*>(ks[i].data()), KN), s);
            vf_check(c == ref[i].present, "presence follows the writes (string keys)");
            if (c) { vf_check(s.size() == sizeof(V), "stored length"); V w; memcpy(&w, s.data(), sizeof(V)); vf_check(w == ref[i].v, "the raw value is the last one written"); }
            vf_check(!other.get(ks[i], g), "stores at different paths are separate");
        }
    };
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t op = vf_choice("op", 5), i = vf_choice("which", op == 4 ? 1 : NK);
        faulted = false;
        fault_on = F;
        bool r;
        if (op == 0) {
            V v = vf::any<V>("value");
            r = db->put(ks[i], v);
            vf_check(r == !faulted, "put reports the outcome");
            if (r) ref[i] = {true, v};
        } else if (op == 1) {
            r = db->remove(ks[i]);
            vf_check(r == !faulted, "remove reports the outcome");
            if (r) ref[i].present = false;
        } else if (op == 2) {
            r = db->remove(ks[i].data(), static_cast<uint8_t>(KN));
            vf_check(r == !faulted, "remove reports the outcome");
            if (r) ref[i].present = false;
        } else if (op == 3) {
            V v = 0xABCD;
            r = db->get(ks[i], v);
            vf_check(r == (ref[i].present && !faulted), "get reports absence and failure");
            vf_check(v == (r ? ref[i].v : V(0xABCD)), "a get that fails does not invent a value");
        } else {
            if (vf_choice("reopen", 2)) {
                db.reset();
                bool threw = false;
                try { db = std::make_unique<RockDBWrapper>("/db"); }
                catch (const std::runtime_error&) { threw = true; REACH("open failure"); }
                vf_check(threw == faulted, "a database that cannot be opened is reported");
                if (threw) { fault_on = false; db = std::make_unique<RockDBWrapper>("/db"); }
            } else {
                bool blocking = vf_choice("blocking", 2);
                uint64_t w = rocksdb::model::stores()["/db"].waited;
                db->flush(blocking);
                vf_check(!blocking || rocksdb::model::stores()["/db"].waited > w, "a blocking flush waits for the storage");
            }
        }
        check_all();
    }
    REACH("done");
}
