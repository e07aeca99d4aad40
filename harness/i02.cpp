// I02: the thread-pool I/O scheduler executes every request once and completes it once; waiting and destruction are exact.
#include "fsmodel.hpp"
#include "utils/thread_pool.hpp"
#include <sse/schemes/utils/logger.hpp>
namespace sse {
struct SmallPool : ThreadPool { // the shared pool, with fewer threads
    explicit SmallPool(unsigned) : ThreadPool(static_cast<unsigned>(vf_param("workers", 2))) {}
};
}
#define ThreadPool SmallPool
#include "abstractio/thread_pool_aio_scheduler.cpp"
#undef ThreadPool
namespace sse { namespace abstractio { Scheduler* make_thread_pool_aio_scheduler() { return new ThreadPoolAIOScheduler(); } } }
using sse::abstractio::ThreadPoolAIOScheduler;
static constexpr size_t L = 8;
struct Q { bool rd; size_t off, len; uint8_t buf[L]; int tag; int calls = 0; int64_t res = -77; };
static Q q[6];
static uint8_t content[4 * L];
static int fd;
static int fail_at = -1; // the descriptor of which operations fail
static long long hook(fs::Op o, int d, size_t) { return (o == fs::PREAD || o == fs::PWRITE) && d == fail_at ? -1 : fs::NOFAULT; }
static void submit(ThreadPoolAIOScheduler& s, int k, int f)
{
    auto cb = [k](void* d, int64_t r) {
        vf_check(d == &q[k].tag, "the callback gets the data pointer of its own request");
        q[k].calls++;
        q[k].res = r;
    };
    int r = q[k].rd ? s.submit_pread(f, q[k].buf, q[k].len, static_cast<off_t>(q[k].off), &q[k].tag, cb)
                    : s.submit_pwrite(f, q[k].buf, q[k].len, static_cast<off_t>(q[k].off), &q[k].tag, cb);
    vf_check(r == 1, "the request is accepted");
}
static void verify(int k, int64_t want)
{
    vf_check(q[k].calls == 1, "waiting returns only when every callback was called, exactly once");
    vf_check(q[k].res == want, "the callback gets the byte count of its own request");
    if (q[k].rd && want > 0) vf_check(memcmp(q[k].buf, content + q[k].off, static_cast<size_t>(want)) == 0, "a read delivers the bytes at its offset");
    if (!q[k].rd && want > 0) vf_check(memcmp(q[k].buf, fs::file("/f")->data() + q[k].off, static_cast<size_t>(want)) == 0, "a write stores the bytes at its offset");
}
static int64_t setup(int k, bool writes)
{
    q[k].rd  = !(writes && vf_choice("write", 2));
    q[k].len = L;
    // distinct regions for writes; reads anywhere in the first two blocks, or at / beyond the end
    if (!q[k].rd) { q[k].off = (2 + static_cast<size_t>(k) % 2) * L; vf_make_symbolic(q[k].buf, L, "data"); return L; }
    size_t kind = vf_choice("offset", 3);
    q[k].off = kind == 0 ? 0 : kind == 1 ? L / 2 : 5 * L;
    return kind == 2 ? 0 : L;
}
extern "C" void vf_entry()
{
    const uint64_t MODE = vf_param("mode", 0), N = vf_param("requests", 2), WRITES = vf_param("writes", 1), FAULT = vf_param("faults", 0);
    vf_make_symbolic(content, sizeof content, "content");
    (void)fs::st();
    fs::create("/f").assign(reinterpret_cast<char*>(content), 2 * L + (WRITES ? 2 * L : 0));
    fd = open("/f", O_RDWR);
    fs::st().hook = hook;
    if (FAULT) fail_at = open("/f", O_RDWR);
    int64_t want[6];
    if (MODE == 0) { // submit, wait or destroy
        auto s = std::make_unique<ThreadPoolAIOScheduler>();
        for (uint64_t k = 0; k < N; k++) {
            want[k] = setup(static_cast<int>(k), WRITES);
            int f = fd;
            if (FAULT && vf_choice("fails", 2)) { f = fail_at; want[k] = -1; }
            submit(*s, static_cast<int>(k), f);
        }
        if (vf_choice("wait", 2)) {
            s->wait_completions();
            for (uint64_t k = 0; k < N; k++) verify(static_cast<int>(k), want[k]);
            if (vf_choice("again", 2)) s->wait_completions();
        }
        s.reset();
        for (uint64_t k = 0; k < N; k++) verify(static_cast<int>(k), want[k]);
    } else if (MODE == 1) { // two schedulers used by two threads share the pool
        for (int k = 0; k < 2; k++) want[k] = setup(k, WRITES);
        std::thread t([&] { ThreadPoolAIOScheduler s; submit(s, 0, fd); s.wait_completions(); verify(0, want[0]); });
        { ThreadPoolAIOScheduler s; submit(s, 1, fd); }
        verify(1, want[1]);
        t.join();
        verify(0, want[0]);
    } else { // a callback submits the next request; several reads at once
        auto s = std::make_unique<ThreadPoolAIOScheduler>();
        want[0] = setup(0, false); want[1] = setup(1, false); want[2] = setup(2, false);
        auto* sp = s.get();
        auto note = [](int k) { return [k](void* d, int64_t r) { vf_check(d == &q[k].tag, "own data"); q[k].calls++; q[k].res = r; }; };
        std::vector<sse::abstractio::Scheduler::PReadSumission> subs;
        subs.reserve(2);
        subs.emplace_back(fd, q[0].buf, L, q[0].off, &q[0].tag, [sp, note](void* d, int64_t r) { submit(*sp, 2, fd); note(0)(d, r); });
        subs.emplace_back(fd, q[1].buf, L, q[1].off, &q[1].tag, note(1));
        vf_check(s->submit_preads(subs) == 2, "the requests are accepted");
        s->wait_completions();
        for (int k = 0; k < 3; k++) verify(k, want[k]);
        s.reset();
    }
    REACH("done");
}
