// V02: asynchronous accesses of the on-disk vector complete exactly once with the right element, and never leak, double-free
// or free a buffer that is still in use, whatever the order of completions, failed reads and rejected submissions.
#include "defer_sched.hpp"
#include <abstractio/awonvm_vector.hpp>
using T   = std::array<uint8_t, 16>;
using Vec = sse::abstractio::awonvm_vector<T, 16>;
static std::unique_ptr<Vec> open_vec(bool direct) { return std::make_unique<Vec>("/vec", std::unique_ptr<sse::abstractio::Scheduler>(new DeferSched), direct); }
struct Req { size_t idx; unsigned calls = 0; bool accepted = false; };
static T        ref[3];
static size_t   nref = 2;
static Req      reqs[8];
static unsigned nreq, delivered, empty_delivered;
static std::function<void(std::unique_ptr<T>)> cb(unsigned k)
{
    return [k](std::unique_ptr<T> p) {
        reqs[k].calls++;
        vf_check(reqs[k].calls == 1, "the callback is called at most once");
        if (!p) { empty_delivered++; return; }
        delivered++;
        vf_check(memcmp(p->data(), ref[reqs[k].idx].data(), sizeof(T)) == 0, "the callback gets the element at the requested index");
    };
}
static unsigned fresh(size_t i) { reqs[nreq].idx = i; return nreq++; }
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("ops", 2), FAULTS = vf_param("faults", 0), REJECT = vf_param("reject", 0), WRITES = vf_param("writes", 0), BATCH = vf_param("batch", 3);
    auto& sh = DeferSched::sh();
    sh.eager = vf_param("eager", 1);
    (void)fs::st(); (void)vf::stream_fs();
    vf_make_symbolic(ref, sizeof ref, "content");
    { auto warm = open_vec(false); } // first-use allocations (loggers, model state)
    vf::stream_fs().files.clear();
    uint64_t base = vf_live_heap();
    {
        auto v = open_vec(false);
        if (WRITES) {
            sh.reject = REJECT;
            for (size_t i = 0; i < nref; i++) {
                unsigned rej = sh.rejected;
                bool threw = false;
                try { v->async_push_back(ref[i]); } catch (const std::runtime_error&) { threw = true; }
                vf_check(threw == (sh.rejected != rej), "a rejected append is reported");
                if (threw) { nref = i; break; } // (the vector is abandoned: its position is lost)
            }
            sh.reject = false;
        } else
            for (size_t i = 0; i < nref; i++) v->push_back(ref[i]);
        v->commit();
        vf_check(sh.outstanding == 0, "a commit waits for the appends");
        for (uint64_t n = 0; n < N && nref; n++) {
            uint64_t op = vf_choice("op", 3);
            sh.reject = REJECT; sh.shrt = FAULTS;
            unsigned rej = sh.rejected;
            if (op == 0) {
                unsigned k = fresh(vf_choice("index", nref));
                bool threw = false;
                try { v->async_get(reqs[k].idx, cb(k)); } catch (const std::runtime_error&) { threw = true; }
                vf_check(threw == (sh.rejected != rej), "a rejected read is reported");
                reqs[k].accepted = !threw;
            } else if (op == 1) {
                unsigned len = static_cast<unsigned>(vf_choice("batch", BATCH)) + 1, k0 = nreq;
                bool oob = vf_choice("last index out of range", 2);
                std::vector<Vec::GetRequest> b;
                b.reserve(4);
                for (unsigned i = 0; i < len; i++) {
                    unsigned k = fresh(vf_choice("index", nref));
                    b.emplace_back(i + 1 == len && oob ? v->size() : reqs[k].idx, cb(k));
                }
                bool threw = false, inv = false;
                try { v->async_gets(b); } catch (const std::invalid_argument&) { threw = inv = true; } catch (const std::runtime_error&) { threw = true; }
                vf_check(inv == oob, "an index out of range is rejected");
                if (!oob) vf_check(threw == (sh.rejected != rej), "a rejected read is reported");
                if (!threw) for (unsigned i = 0; i < len; i++) reqs[k0 + i].accepted = true;
            } else {
                sh.reject = false;
                v->set_use_direct_access(!v->use_direct_access());
                vf_check(sh.outstanding == 0, "changing the mode waits for the requests in flight");
            }
            sh.reject = false; sh.shrt = false;
        }
        sh.shrt = FAULTS;
        v.reset();
        sh.shrt = false;
    }
    vf_check(sh.outstanding == 0 && sh.live == 0, "destruction waits for the requests in flight");
    for (unsigned k = 0; k < nreq; k++)
        if (reqs[k].accepted) vf_check(reqs[k].calls == 1, "the callback of an accepted read is called exactly once");
    vf_check(empty_delivered == sh.failed, "exactly the failed or short reads deliver no element");
    vf_check(fs::open_count() == 0 && fs::st().bad_close == 0, "the file descriptor is closed exactly once");
    vf::stream_fs().files.clear();
    vf_check(vf_live_heap() == base, "every buffer is released");
    REACH("done");
}
