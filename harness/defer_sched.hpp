// A scheduler that completes its requests in any order, at any later scheduler call (or within the submission).
#pragma once
#include "fsmodel.hpp"
#include <abstractio/scheduler.hpp>
#include <thread>
struct DeferSched : sse::abstractio::Scheduler {
    struct Req { bool rd; int fd; void* buf; size_t len; off_t off; void* data; scheduler_callback_type cb; };
    struct Shared {
        bool     reject = false;  // submissions may be rejected
        bool     eager  = true;   // requests may also complete as soon as they are submitted
        bool     shrt   = false;  // reads may fail or be short
        unsigned rejected = 0, failed = 0, live = 0, outstanding = 0;
    };
    static Shared& sh() { static Shared* s = new Shared; return *s; }
    std::vector<Req> pend;
    bool             stopped = false;
    DeferSched() { sh().live++; }
    ~DeferSched() override { wait_completions(); sh().live--; }
    void run(size_t i)
    {
        Req r = pend[i];
        pend.erase(pend.begin() + static_cast<long>(i));
        ssize_t n;
        if (r.rd && sh().shrt && vf_choice("read outcome", 3)) {
            sh().failed++;
            n = vf_choice("failed or short", 2) ? -1 : static_cast<ssize_t>(r.len) - 1;
        } else {
            vf_check(vf_is_live(r.buf) && vf_is_live(static_cast<char*>(r.buf) + r.len - 1), "the buffer of an operation in flight is still allocated");
            n = r.rd ? pread(r.fd, r.buf, r.len, r.off) : pwrite(r.fd, r.buf, r.len, r.off);
        }
        sh().outstanding--;
        r.cb(r.data, n);
    }
    void step() { if (sh().eager) while (!pend.empty() && vf_choice("complete one", 2)) run(vf_choice("which request", pend.size())); }
    void wait_completions() override
    {
        stopped = true;
        while (!pend.empty()) run(vf_choice("which request", pend.size()));
    }
    int add(Req r)
    {
        if (stopped) return -sse::abstractio::EINVAL_INVALID_STATE;
        if (sh().reject && vf_choice("reject", 2)) { sh().rejected++; return -EINVAL; }
        sh().outstanding++;
        pend.push_back(std::move(r));
        return 1;
    }
    int submit_pread(int fd, void* buf, size_t len, off_t off, void* data, scheduler_callback_type cb) override
    {
        int r = add({true, fd, buf, len, off, data, std::move(cb)});
        step();
        return r;
    }
    int submit_pwrite(int fd, void* buf, size_t len, off_t off, void* data, scheduler_callback_type cb) override
    {
        int r = add({false, fd, buf, len, off, data, std::move(cb)});
        step();
        return r;
    }
    Scheduler* duplicate() const override { return new DeferSched; }
};
// completes every request in a thread of its own
struct ThreadSched : sse::abstractio::Scheduler {
    std::vector<std::thread> th;
    ~ThreadSched() override { wait_completions(); }
    void wait_completions() override { for (auto& t : th) t.join(); th.clear(); }
    int submit_pread(int fd, void* buf, size_t len, off_t off, void* data, scheduler_callback_type cb) override
    {
        th.emplace_back([=] { cb(data, pread(fd, buf, len, off)); });
        return 1;
    }
    int submit_pwrite(int, void*, size_t, off_t, void*, scheduler_callback_type) override { return -1; }
    Scheduler* duplicate() const override { return new ThreadSched; }
};
