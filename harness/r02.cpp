// R02: persistent keyword counters count every increment exactly once and report every failed storage operation.
#include "common.hpp"
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
using sse::sophos::RocksDBCounter;
static bool fault_on, faulted;
static bool fault(rocksdb::model::Op, const std::string&)
{
    if (!fault_on) return false;
    bool f = vf_choice("fault", 2);
    faulted = faulted || f;
    return f;
}
struct Ref { bool present; uint32_t v; };
extern "C" void vf_entry()
{
    const uint64_t OPS = vf_param("ops", 3), F = vf_param("faults", 0);
    auto c = std::make_unique<RocksDBCounter>("/counters");
    rocksdb::model::fault() = fault;
    // two arbitrary distinct keywords, possibly one a prefix of the other
    std::string k[2] = {"", ""};
    for (auto& s : k) { char b[3]; vf_make_symbolic(b, 3, "keyword"); s.assign(b, vf_choice("len", 3) + 1); }
    vf_assume(k[0].size() != k[1].size() || memcmp(k[0].data(), k[1].data(), k[0].size()) != 0);
    Ref ref[2] = {{false, 0}, {false, 0}};
    auto check_all = [&] {
        fault_on = false;
        for (int i = 0; i < 2; i++) {
            uint32_t v = 77;
            bool r = c->get(k[i], v);
            vf_check(r == ref[i].present, "the counter is present exactly when it was written");
            vf_check(v == (r ? ref[i].v : 77), "the counter holds the value of the last successful operation");
        }
    };
    for (uint64_t n = 0; n < OPS; n++) {
        uint64_t op = vf_choice("op", 6), i = op == 5 ? 0 : vf_choice("which", 2);
        faulted = false;
        fault_on = F;
        bool r;
        Ref next = ref[i];
        if (op == 0) {
            uint32_t v = 12345;
            r = c->get_and_increment(k[i], v);
            next = {true, ref[i].present ? ref[i].v + 1 : 0};
            vf_check(r == !faulted, "get_and_increment reports the outcome");
            if (r) vf_check(v == next.v, "get_and_increment returns the next value, 0 first");
        } else if (op == 1) {
            uint32_t d = vf::any<uint32_t>("default");
            if (vf_choice("implicit default", 2)) { d = 0; r = c->increment(k[i]); }
            else r = c->increment(k[i], d);
            next = {true, ref[i].present ? ref[i].v + 1 : d};
            vf_check(r == !faulted, "increment reports the outcome");
        } else if (op == 2) {
            uint32_t v = vf::any<uint32_t>("value");
            r = c->set(k[i], v);
            next = {true, v};
            vf_check(r == !faulted, "set reports the outcome");
        } else if (op == 3) {
            r = c->remove_key(k[i]);
            next.present = false;
            vf_check(r == !faulted, "remove_key reports the outcome");
        } else if (op == 4) {
            uint32_t v = 77;
            bool g = c->get(k[i], v);
            vf_check(g == (ref[i].present && !faulted), "get reports absence and failure");
            vf_check(v == (g ? ref[i].v : 77), "get returns the counter");
            r = false;
        } else {
            r = false;
            if (vf_choice("reopen", 2)) {
                c.reset();
                try { c = std::make_unique<RocksDBCounter>("/counters"); vf_check(!faulted, "a failed open is reported"); }
                catch (const std::runtime_error&) { vf_check(faulted, "a working database opens"); fault_on = false; c = std::make_unique<RocksDBCounter>("/counters"); }
            } else {
                bool blocking = vf_choice("blocking", 2);
                uint64_t w = rocksdb::model::stores()["/counters"].waited;
                c->flush(blocking);
                vf_check(!blocking || rocksdb::model::stores()["/counters"].waited > w, "a blocking flush waits for the storage");
            }
        }
        if (r) ref[i] = next;
        check_all();
    }
    REACH("done");
}
