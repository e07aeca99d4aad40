// W01: every task accepted by the thread pool runs exactly once, its future delivers its outcome, shutdown terminates.
#include "common.hpp"
#include <atomic>
#include <sse/schemes/utils/thread_pool.hpp>
static int run[8];
static std::mutex mtx;
static int64_t work(int i, int64_t arg)
{ // an arbitrary argument decides whether the task throws, and what it returns
    { std::lock_guard<std::mutex> l(mtx); run[i]++; }
    if (arg < 0) throw std::out_of_range("task");
    return arg * 3 + i;
}
static void plain(int i) { std::lock_guard<std::mutex> l(mtx); run[i]++; }
extern "C" void vf_entry()
{
    const unsigned W = static_cast<unsigned>(vf_param("workers", 2));
    const int T = static_cast<int>(vf_param("tasks", 2));
    const uint64_t mode = vf_param("mode", 0);
    bool accepted[8] = {};
    int64_t arg[8] = {};
    std::vector<std::pair<int, std::future<int64_t>>> f;
    {
        auto pool = std::make_unique<ThreadPool>(W);
        if (mode == 0) { // one caller, tasks that return or throw, shut down by join and destructor, or by the destructor alone
            for (int i = 0; i < T; i++) {
                arg[i] = vf::any<int64_t>("arg");
                f.emplace_back(i, pool->enqueue(work, i, arg[i]));
                accepted[i] = true;
            }
            uint64_t order = vf_choice("order", 3);
            if (order == 0) {
                pool->join();
                for (int i = 0; i < T; i++) vf_check(run[i] == 1, "the tasks have run when the shutdown returns");
            }
            if (order <= 1) {
                for (auto& x : f) {
                    bool got = false, threw = false;
                    int64_t v = 0;
                    try { v = x.second.get(); got = true; }
                    catch (const std::out_of_range&) { threw = true; }
                    vf_check(got ? v == arg[x.first] * 3 + x.first && arg[x.first] >= 0 : threw && arg[x.first] < 0, "the future delivers the task's outcome");
                }
                f.clear();
            }
            if (order == 0) {
                vf_check(throws<std::runtime_error>([&] { pool->enqueue(work, T, 0); }, "exception type"), "enqueue after shutdown is rejected");
                pool->join();
            }
            pool.reset();
        } else if (mode == 1) { // two callers; one also shuts the pool down while the other enqueues
            ThreadPool* p = pool.get();
            std::thread other([&] {
                for (int i = 0; i < T; i++) {
                    try { auto r = p->enqueue(work, i, 0); accepted[i] = true; }
                    catch (const std::runtime_error&) { REACH("rejected"); }
                }
            });
            p->enqueue(plain, T);
            accepted[T] = true;
            p->join();
            vf_check(run[T] == 1, "the tasks have run when the shutdown returns");
            other.join();
            pool.reset();
        } else if (mode == 2) { // a task enqueues another task
            ThreadPool* p = pool.get();
            auto r = p->enqueue([p, &accepted] {
                plain(0);
                try { p->enqueue(plain, 1); accepted[1] = true; }
                catch (const std::runtime_error&) { REACH("nested rejected"); }
            });
            accepted[0] = true;
            if (vf_choice("wait", 2)) r.get();
            pool.reset();
        } else { // a task waits for a later task's result: needs two workers
            ThreadPool* p = pool.get();
            std::promise<int> pr;
            auto sf = pr.get_future();
            auto a = p->enqueue([&sf] { plain(0); return sf.get(); });
            auto b = p->enqueue([&pr] { plain(1); pr.set_value(7); });
            accepted[0] = accepted[1] = true;
            vf_check(a.get() == 7, "both workers run tasks at the same time");
            b.get();
            pool.reset();
        }
    }
    for (auto& x : f) {
        vf_check(x.second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the future is ready after the pool is destroyed");
        bool got = false;
        try { got = x.second.get() == arg[x.first] * 3 + x.first && arg[x.first] >= 0; }
        catch (const std::out_of_range&) { got = arg[x.first] < 0; }
        vf_check(got, "the future delivers the task's outcome");
    }
    for (int i = 0; i < 8; i++) {
        vf_check(run[i] == (accepted[i] ? 1 : 0), "an accepted task runs exactly once");
        vf_observe(static_cast<uint64_t>(run[i]));
    }
    REACH("checked");
}
