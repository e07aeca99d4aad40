// V01: every element appended to an on-disk vector is read back at its index, before and after reopening in any mode.
#include "defer_sched.hpp"
#include <abstractio/awonvm_vector.hpp>
using T   = std::array<uint8_t, 16>;
using Vec = sse::abstractio::awonvm_vector<T, 16>;
static bool fail_next, fail_read, null_sched; // null_sched: a vector without asynchronous accesses
static long long hook(fs::Op o, int, size_t n)
{
    if (o == fs::WRITE || o == fs::PWRITE) { if (!fail_next) return fs::NOFAULT; fail_next = false; return vf_choice("failed or short write", 2) ? -1 : static_cast<long long>(n) - 1; }
    if (o == fs::PREAD && fail_read) return vf_choice("failed or short read", 2) ? -1 : static_cast<long long>(n) - 1;
    return fs::NOFAULT;
}
static std::unique_ptr<Vec> open_vec(bool direct) { return std::make_unique<Vec>("/vec", std::unique_ptr<sse::abstractio::Scheduler>(null_sched ? nullptr : new DeferSched), direct); }
struct Elt { bool good; T v; }; // good: the append reported success
static std::vector<Elt>* ref;
static void read_all(Vec& v)
{
    std::vector<Elt>& r = *ref;
    vf_check(v.is_committed(), "a committed vector says so");
    for (size_t i = 0; i < r.size(); i++) {
        if (!r[i].good) continue;
        T g = v.get(i);
        vf_check(memcmp(g.data(), r[i].v.data(), sizeof(T)) == 0, "the element read is the one appended at that index");
    }
    if (vf_param("faults", 0))
        for (size_t i = 0; i < r.size(); i++) {
            fail_read = true;
            vf_check(throws_any([&] { v.get(i); }), "a failed or short read is reported");
            fail_read = false;
        }
    alignas(16) T x{};
    uint64_t before = v.size();
    bool threw = false;
    if (vf_choice("append kind", 2)) { try { v.push_back(x); } catch (const std::exception&) { threw = true; } }
    else { try { v.async_push_back(x); } catch (const std::exception&) { threw = true; } }
    vf_check(threw, "appending to a committed vector is rejected");
    vf_check(v.size() == before, "a rejected append does not change the size");
    // any index at or beyond the size
    uint64_t idx = vf_sym("index beyond the end", 64);
    vf_assume(idx >= v.size());
    threw = false;
    try { v.get(idx); } catch (const std::exception&) { threw = true; }
    vf_check(threw, "reading at or beyond the size is rejected");
    bool called = false, rej = false;
    try { v.async_get(idx, [&](std::unique_ptr<T> p) { called = true; vf_check(!p, "no element beyond the end"); }); } catch (const std::exception&) { rej = true; }
    vf_check(rej, "an asynchronous read at or beyond the size is rejected");
    rej = false;
    try { v.async_gets({Vec::GetRequest(idx, [](std::unique_ptr<T>) { vf_fail("no callback for a rejected request"); })}); } catch (const std::exception&) { rej = true; }
    vf_check(rej, "an asynchronous batch reading at or beyond the size is rejected");
}
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("ops", 3), MOVE = vf_param("move", 0), DIR = vf_param("direct", 0), FAULTS = vf_param("faults", 0), EAGER = vf_param("eager", 0);
    DeferSched::sh().eager = EAGER;
    fs::st().direct_align  = 16;
    fs::st().hook          = hook;
    ref = new std::vector<Elt>;
    null_sched = vf_param("null", 0);
    auto v = open_vec(DIR && vf_choice("open direct", 2));
    size_t reserved = 0;
    for (uint64_t n = 0; n < N; n++) {
        uint64_t op = vf_choice("op", 3 + DIR + MOVE);
        alignas(16) T x;
        if (op <= 1) vf_make_symbolic(x.data(), sizeof x, "element");
        if (op == 0) {
            fail_next = FAULTS && vf_choice("fail", 2);
            bool f = fail_next, threw = false;
            size_t want = v->size(), i = want;
            try { i = v->push_back(x); } catch (const std::runtime_error&) { threw = true; }
            fail_next = false;
            vf_check(threw == f, "an append reports whether the write succeeded");
            vf_check(i == want, "an append returns the next index");
            if (!f || v->size() > want) ref->push_back({!f, x});
        } else if (op == 1) {
            if (null_sched) { vf_check(throws_any([&] { v->async_push_back(x); }), "an asynchronous append without a scheduler is rejected"); continue; }
            size_t i = v->async_push_back(x);
            vf_check(i == ref->size(), "an append returns the next index");
            ref->push_back({true, x});
        } else if (op == 2) {
            size_t r = vf_choice("reserve", 4);
            if (r > reserved) reserved = r;
            v->reserve(r);
        } else if (op == 3 && DIR) v->set_use_direct_access(!v->use_direct_access());
        else v = std::make_unique<Vec>(std::move(*v));
        vf_check(v->size() == ref->size(), "the size is the number of elements appended");
        vf_check(!v->is_committed(), "appending does not commit");
        bool rej = false;
        try { v->get(0); } catch (const std::exception&) { rej = true; }
        vf_check(rej, "reading before the commit is rejected");
    }
    if (vf_choice("commit", 2)) {
        v->commit();
        if (MOVE && vf_choice("move after commit", 2)) v = std::make_unique<Vec>(std::move(*v));
        vf_check(v->size() == ref->size(), "committing does not change the size");
        if (vf_choice("reserve after commit", 2)) v->reserve(ref->size() + 2);
        read_all(*v);
        if (DIR) { v->set_use_direct_access(!v->use_direct_access()); read_all(*v); }
    }
    v.reset();
    vf_check(DeferSched::sh().outstanding == 0 && DeferSched::sh().live == 0, "destruction waits for the pending operations");
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the file descriptor is closed exactly once");
    if (!ref->empty() && ref->back().good) {
        v = open_vec(DIR && vf_choice("reopen direct", 2));
        vf_check(v->size() >= ref->size(), "the reopened vector has every element");
        if (v->size() > ref->size()) vf_check(v->size() <= reserved || !ref->back().good, "and no more than were reserved");
        read_all(*v);
        v.reset();
    }
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the file descriptor is closed exactly once");
    REACH("done");
}
