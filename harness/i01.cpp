// I01: the kernel-AIO scheduler completes every accepted request exactly once; waiting and destruction terminate and are exact.
// The kernel side (io_setup, io_submit, io_getevents, io_destroy) is a model: a queue of bounded capacity; a submission accepts
// any non-empty prefix that fits, reports -EAGAIN when full and may fail; io_getevents waits for a completion or the timeout,
// returns any number of completions in any order, and may be interrupted.
#include "fsmodel.hpp"
#include <libaio.h>
#include <condition_variable>
#include <typeinfo>
#include <mutex>
#include "abstractio/linux_aio_scheduler.hpp"
#include "abstractio/thread_pool_aio_scheduler.hpp"
using sse::abstractio::LinuxAIOScheduler;
using sse::abstractio::ThreadPoolAIOScheduler;
struct Kernel { // one io context
    std::mutex m; std::condition_variable cv;
    std::vector<iocb> q;
    size_t cap = 0;
    bool   live = true;
};
static bool     partial, submit_faults, intr;
static unsigned interrupted, submit_failed, contexts;
static std::vector<long>* unsubmitted; // aio_data of requests whose submission failed
extern "C" {
int io_setup(int n, io_context_t* c)
{
    auto* k = new Kernel;
    k->q.reserve(8);
    k->cap = static_cast<size_t>(n);
    contexts++;
    *c = reinterpret_cast<io_context_t>(k);
    return 0;
}
int io_destroy(io_context_t c)
{
    auto* k = reinterpret_cast<Kernel*>(c);
    vf_check(k->q.empty(), "the context is destroyed only when no request is in flight");
    contexts--;
    delete k;
    return 0;
}
int io_submit(io_context_t c, long nr, iocb* v[])
{
    auto* k = reinterpret_cast<Kernel*>(c);
    std::lock_guard<std::mutex> l(k->m);
    if (nr == 0) return 0;
    if (submit_faults && vf_choice("submission fails", 2)) { submit_failed++; return -EIO; }
    size_t room = k->cap - k->q.size();
    if (room == 0) { REACH("queue full"); return -EAGAIN; }
    size_t n = static_cast<size_t>(nr) < room ? static_cast<size_t>(nr) : room;
    if (partial && n > 1) n = 1 + vf_choice("accepted", n);
    for (size_t i = 0; i < n; i++) k->q.push_back(*v[i]);
    k->cv.notify_all();
    return static_cast<int>(n);
}
int io_getevents(io_context_t c, long, long nr, io_event* ev, timespec* ts)
{
    auto* k = reinterpret_cast<Kernel*>(c);
    std::unique_lock<std::mutex> l(k->m);
    if (intr && interrupted < 1 && vf_choice("interrupted", 2)) { interrupted++; return -EINTR; }
    if (k->q.empty()) k->cv.wait_for(l, std::chrono::nanoseconds(ts->tv_nsec));
    size_t n = k->q.size();
    if (n > static_cast<size_t>(nr)) n = static_cast<size_t>(nr);
    if (n > 1) n = 1 + vf_choice("completions", n);
    for (size_t i = 0; i < n; i++) {
        size_t j = k->q.size() > 1 ? vf_choice("which", k->q.size()) : 0;
        iocb b = k->q[j];
        k->q.erase(k->q.begin() + static_cast<long>(j));
        vf_check(vf_is_live(b.u.c.buf), "the buffer of a request in flight is still allocated");
        ssize_t r = b.aio_lio_opcode == IO_CMD_PREAD ? pread(b.aio_fildes, b.u.c.buf, b.u.c.nbytes, b.u.c.offset) : pwrite(b.aio_fildes, b.u.c.buf, b.u.c.nbytes, b.u.c.offset);
        ev[i].data = b.data;
        ev[i].obj  = nullptr;
        ev[i].res  = static_cast<unsigned long>(r < 0 ? -errno : r);
        ev[i].res2 = 0;
    }
    return static_cast<int>(n);
}
}
static constexpr size_t L = 512, PAGE = 512;
struct Q { bool rd; size_t off; uint8_t* buf; int tag; bool accepted = false; bool maybe = false; int calls = 0; int64_t res = -77; int64_t want = 0; };
static Q q[5];
static unsigned nq;
static uint8_t content[3 * L];
static int fd, badfd;
static sse::abstractio::Scheduler::scheduler_callback_type cb(unsigned k)
{
    return [k](void* d, int64_t r) {
        vf_check(d == &q[k].tag, "the callback gets the data pointer of its own request");
        q[k].calls++;
        q[k].res = r;
    };
}
static unsigned fresh(bool writes, bool& aligned)
{
    unsigned k = nq++;
    q[k].rd  = !(writes && vf_choice("write", 2));
    aligned  = true;
    size_t o = q[k].rd ? vf_choice("offset", 2) : 2;
    q[k].off = o * L;
    q[k].buf = static_cast<uint8_t*>(aligned_alloc(PAGE, L));
    q[k].want = static_cast<int64_t>(L);
    if (!q[k].rd) memset(q[k].buf, 0x5A, L);
    return k;
}
static void verify()
{
    for (unsigned k = 0; k < nq; k++) {
        Q& x = q[k];
        if (x.maybe) { vf_check(x.calls <= 1, "a callback is called at most once"); if (!x.calls) continue; }
        else vf_check(x.calls == (x.accepted ? 1 : 0), "the callback of an accepted request is called exactly once, of a rejected one never");
        if (!x.calls) continue;
        vf_check(x.res == x.want, "the callback gets the result of its own operation");
        if (x.rd && x.want > 0) vf_check(x.buf[0] == content[x.off] && x.buf[L - 1] == content[x.off + L - 1], "a read delivers the bytes at its offset");
        if (!x.rd && x.want > 0) vf_check((*fs::file("/f"))[x.off] == 0x5A && (*fs::file("/f"))[x.off + L - 1] == 0x5A, "a write stores the bytes at its offset");
    }
}
extern "C" void vf_entry()
{
    const uint64_t N = vf_param("requests", 2), CAP = vf_param("cap", 2), WRITES = vf_param("writes", 0), BATCH = vf_param("batch", 0), BAD = vf_param("bad", 0), IOERR = vf_param("ioerr", 0);
    partial = vf_param("partial", 0); submit_faults = vf_param("submit_faults", 0); intr = vf_param("intr", 0);
    fs::st().direct_align = 512; fs::st().page = fs::st().block = PAGE;
    for (size_t i = 0; i < 3; i++) { content[i * L] = vf::any<uint8_t>("content"); content[i * L + L - 1] = vf::any<uint8_t>("content"); }
    fs::create("/f").assign(reinterpret_cast<char*>(content), 3 * L);
    fd = open("/f", O_RDWR | O_DIRECT);
    badfd = 99;
    uint64_t base = 0;
    if (vf_param("factory", 0)) { // the functions that make schedulers, and the alignment of their buffers
        using namespace sse::abstractio;
        size_t pg = 512u << vf_choice("page", 4), blk = 512u << vf_choice("block", 4);
        fs::st().page = pg; fs::st().block = blk;
        size_t a = Scheduler::async_io_page_size(fd);
        vf_check(a == std::max(pg, blk), "the alignment for asynchronous accesses suits the memory pages and the device");
        uint64_t kind = vf_choice("kind", 3);
        auto make = [&]() -> Scheduler* { return kind == 0 ? make_default_aio_scheduler(a) : kind == 1 ? make_linux_aio_scheduler(a, 2) : make_thread_pool_aio_scheduler(); };
        std::unique_ptr<Scheduler> s(make());
        vf_check(s != nullptr, "a scheduler is made");
        if (vf_choice("duplicate", 2)) { Scheduler* d = s->duplicate(); vf_check(d != nullptr && d != s.get(), "a duplicate is another scheduler"); s.reset(d); }
        Scheduler& ref = *s;
        vf_check((typeid(ref) == typeid(ThreadPoolAIOScheduler)) == (kind == 2), "of the kind asked for");
        if (kind != 2) { // (the shared pool of the other kind is too large here, see I02)
            bool al;
            unsigned k = fresh(false, al);
            free(q[k].buf);
            q[k].buf = static_cast<uint8_t*>(aligned_alloc(a, a > L ? a : L));
            vf_check(s->submit_pread(fd, q[k].buf, L, static_cast<off_t>(q[k].off), &q[k].tag, cb(k)) == 1, "a well-formed request is accepted");
            q[k].accepted = true;
            vf_check(s->submit_pread(fd, q[k].buf + 256, L, static_cast<off_t>(q[k].off), nullptr, [](void*, int64_t) { vf_fail("a rejected request completes"); }) < 0, "a misaligned buffer is rejected");
        }
        s->wait_completions();
        verify();
        s.reset();
        vf_check(contexts == 0, "the io context is released");
        REACH("done");
        return;
    }
    {
        base = vf_live_heap();
        std::unique_ptr<LinuxAIOScheduler> s(new LinuxAIOScheduler(PAGE, static_cast<unsigned>(CAP)));
        if (vf_param("dup", 0)) { auto* d = static_cast<LinuxAIOScheduler*>(s->duplicate()); s.reset(d); }
        if (BATCH) {
            std::vector<sse::abstractio::Scheduler::PReadSumission> subs;
            subs.reserve(4);
            unsigned bad = 0, k0 = nq;
            for (uint64_t i = 0; i < N; i++) {
                bool al;
                unsigned k = fresh(false, al);
                size_t kind = BAD ? vf_choice("argument", 3) : 0; // valid, misaligned offset, misaligned length
                bad += kind != 0;
                q[k].accepted = kind == 0;
                subs.emplace_back(fd, q[k].buf, kind == 2 ? L - 1 : L, kind == 1 ? q[k].off + 1 : q[k].off, &q[k].tag, cb(k));
            }
            unsigned sf = submit_failed;
            int r = s->submit_preads(subs);
            if (submit_failed != sf) { vf_check(r < 0, "a failed submission is reported"); for (unsigned k = k0; k < nq; k++) if (q[k].accepted) q[k].maybe = true; }
            else vf_check(r == static_cast<int>(N - bad), "the number of accepted requests is returned");
        } else
            for (uint64_t i = 0; i < N; i++) {
                bool al;
                unsigned k = fresh(WRITES, al);
                size_t kind = BAD ? vf_choice("argument", 4) : 0; // valid, misaligned offset / length / buffer
                int f = IOERR && vf_choice("io error", 2) ? badfd : fd;
                if (f == badfd) q[k].want = -EBADF;
                size_t off = kind == 1 ? q[k].off + 1 : q[k].off, len = kind == 2 ? L - 1 : L;
                uint8_t* b = kind == 3 ? q[k].buf + 1 : q[k].buf;
                unsigned sf = submit_failed;
                int r = q[k].rd ? s->submit_pread(f, b, len, static_cast<off_t>(off), &q[k].tag, cb(k)) : s->submit_pwrite(f, b, len, static_cast<off_t>(off), &q[k].tag, cb(k));
                bool ok = kind == 0 && submit_failed == sf;
                vf_check((r == 1) == ok && (r < 0) == !ok, "a request is accepted exactly when it is well-formed and the kernel took it");
                q[k].accepted = ok;
            }
        if (vf_choice("wait", 2)) {
            s->wait_completions();
            verify();
            uint8_t* b = q[0].buf;
            int r = s->submit_pread(fd, b, L, 0, nullptr, [](void*, int64_t) { vf_fail("a request after the wait is rejected"); });
            vf_check(r < 0, "a request after the wait is rejected");
        }
        s.reset();
        verify();
        vf_check(contexts == 0, "the io context is released");
    }
    for (unsigned k = 0; k < nq; k++) free(q[k].buf);
    vf_check(vf_live_heap() == base, "nothing is leaked");
    REACH("done");
}
