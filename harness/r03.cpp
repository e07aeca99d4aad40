// R03: persistent lists come back with exactly their elements in order.
#include "common.hpp"
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
using namespace sse::sophos;
struct Fixed { // the 8-byte element codec
    std::string serialize(const uint64_t& v) { return std::string(reinterpret_cast<const char*>(&v), 8); }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, uint64_t& o)
    {
        if (e - b < 8) return false;
        memcpy(&o, &*b, 8);
        b += 8;
        return true;
    }
};
struct Var { // length-prefixed strings
    std::string serialize(const std::string& s) { return std::string(1, static_cast<char>(s.size())) + s; }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, std::string& o)
    {
        if (b == e) return false;
        auto n = static_cast<unsigned char>(*b);
        if (e - b < n + 1) return false;
        o.assign(b + 1, b + 1 + n);
        b += n + 1;
        return true;
    }
};
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op, const std::string&)
{
    if (!fault_on) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
template<class T, class S, class Gen> static void run(Gen gen)
{
    const uint64_t OPS = vf_param("ops", 3), LEN = vf_param("len", 2);
    constexpr size_t KN = 3;
    auto db = std::make_unique<RockDBListStore<T, S>>("/lists");
    rocksdb::model::fault() = fault;
    std::array<uint8_t, KN> k[2];
    if (vf_param("faults", 0)) { k[0] = {1, 2, 3}; k[1] = {1, 2, 0}; } // (logging a failed put forks on every symbolic digit)
    else vf_make_symbolic(k, sizeof k, "keys");
    vf_assume(memcmp(k[0].data(), k[1].data(), KN) != 0);
    bool present[2] = {};
    std::list<T> ref[2];
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t i = vf_choice("which", 2), op = vf_choice("op", 3);
        faulted = false;
        if (op == 2) {
            if (vf_choice("flush", 2)) {
                uint64_t w = rocksdb::model::stores()["/lists"].waited;
                db->flush();
                vf_check(rocksdb::model::stores()["/lists"].waited > w, "a blocking flush waits for the storage");
            }
            else { db.reset(); db = std::make_unique<RockDBListStore<T, S>>("/lists"); }
        } else if (op == 1) {
            std::list<T> l;
            uint64_t len = vf_choice("length", LEN + 1);
            for (uint64_t j = 0; j < len; j++) l.push_back(gen());
            fault_on = vf_param("faults", 0);
            bool r = db->put(k[i], l);
            vf_check(r == !faulted, "put reports the outcome");
            if (r) { ref[i] = l; present[i] = true; }
        } else {
            fault_on = vf_param("faults", 0);
            std::list<T> l{T{}};
            bool r = db->get(k[i], l);
            vf_check(r == (present[i] && !faulted), "get reports absence and failure");
            if (!r) vf_check(l.empty(), "a failed get returns no element");
        }
        fault_on = false;
        for (int q = 0; q < 2; q++) for (int form = 0; form < 3; form++) {
            std::list<T> l{T{}};
            bool r = form == 0 ? db->get(k[q], l) : form == 1 ? db->get(k[q].data(), static_cast<uint8_t>(KN), l) : db->get(std::string(reinterpret_cast<char*>(k[q].data()), KN), l);
            vf_check(r == present[q], "the list is present exactly when it was stored");
            if (!r) { vf_check(l.empty(), "an absent list has no element"); continue; }
            vf_check(l.size() == ref[q].size(), "the list has exactly the stored number of elements");
            auto a = l.begin();
            for (auto& x : ref[q]) { vf_check(*a == x, "the elements come back in order"); ++a; }
        }
    }
    REACH("done");
}
extern "C" void vf_entry()
{
    if (vf_param("var", 0))
        run<std::string, Var>([] { char b[3]; size_t n = vf_choice("size", 3); vf_make_symbolic(b, 3, "elt"); return std::string(b, n); });
    else
        run<uint64_t, Fixed>([] { return vf_param("faults", 0) ? 0x1122334455667788 : vf::any<uint64_t>("elt"); });
}
