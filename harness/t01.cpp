// T01: log messages go to the logger last set, and each benchmark writes one record with the time until it was first stopped.
#include "common.hpp"
#include <sse/schemes/utils/logger.hpp>
#include <spdlog/sinks/null_sink.h>
#include <thread>
extern "C" uint64_t (*vf_clock_hook)();
static uint64_t now, step = 1234567;
static uint64_t tick() { bool o = vf_norace(true); uint64_t t = now += step; step += step / 3; vf_norace(o); return t; }
struct Record { const spdlog::logger* l; int level; std::string text, file; std::vector<long double> v; };
static std::vector<Record>* recs;
static void record(const spdlog::logger* l, int level, const std::string& t, const long double* v, size_t n) { recs->push_back({l, level, t, l->file_, std::vector<long double>(v, v + n)}); }
static long double ms(uint64_t from, uint64_t to) { return std::chrono::duration<long double, std::milli>(std::chrono::nanoseconds(static_cast<long>(to - from))).count(); }
static void benchmark_record(size_t i, const std::string& file, size_t count, uint64_t from, uint64_t to, bool per_item)
{
    Record& r = (*recs)[i];
    vf_check(r.file == file, "a benchmark is written to the file last set");
    vf_check(r.v.size() == 3 && r.v[0] == static_cast<long double>(count), "the record of a benchmark has its number of items");
    long double t = ms(from, to);
    vf_check(r.v[1] == t, "the record of a benchmark has its time until it was stopped");
    if (per_item) vf_check((r.v[2] == (count > 1 ? t / static_cast<long double>(count) : t)), "the record of a benchmark has its time per item");
}
extern "C" void vf_entry()
{
    using namespace sse;
    const uint64_t OPS = vf_param("ops", 4), MODE = vf_param("mode", 0);
    recs = new std::vector<Record>;
    spdlog::model::hook() = record;
    vf_clock_hook = tick;
    if (MODE == 1) { // from several threads
        static std::shared_ptr<spdlog::logger> a = std::make_shared<spdlog::logger>("a");
        const uint64_t what = vf_choice("threads", 4);
        if (vf_choice("benchmark file", 2)) Benchmark::set_benchmark_file("f");
        std::thread t1([&] {
            if (what == 0 || what == 1) logger::logger()->error("m");
            else { SearchBenchmark b("one"); b.set_count(3); }
        });
        std::thread t2([&] {
            if (what == 0) logger::set_logger(a);
            else if (what == 1) logger::logger()->error("m");
            else if (what == 2) Benchmark::set_benchmark_file("g");
            else { SearchBenchmark b("two"); b.stop(4); }
        });
        t1.join();
        t2.join();
        if (what == 0) vf_check(recs->size() == 1 && logger::logger() == a, "every message is logged");
        if (what == 1) vf_check(recs->size() == 2 && (*recs)[0].l == (*recs)[1].l, "every message is logged");
        REACH("threads");
        REACH("done");
        return;
    }
    static const char* shared[] = {"console", "null_logger", "benchmark"};
    std::shared_ptr<spdlog::logger> own[2] = {std::make_shared<spdlog::logger>("a"), std::make_shared<spdlog::logger>("console")}, app;
    const spdlog::logger* cur = nullptr;
    bool null = false;
    std::string file;
    if (vf_choice("loggers of the application", 2)) {
        app = spdlog::stderr_color_mt(shared[vf_choice("name", 2)]);
        REACH("names taken");
    }
    for (uint64_t n = 0; n < OPS; n++) {
        switch (MODE == 2 ? 3 + n % 2 : vf_choice("op", 5)) {
        case 0: {
            uint64_t k = vf_choice("logger", 2);
            logger::set_logger(own[k]);
            cur = own[k].get();
            null = false;
            vf_check(logger::logger() == own[k], "the logger is the one that was set");
        } break;
        case 1:
            logger::set_logger(nullptr);
            vf_check(logger::logger() != nullptr, "there always is a logger");
            null = true;
            REACH("disabled");
            break;
        case 2: { // level, messages
            int l = static_cast<int>(vf_sym("level", 3)), m = static_cast<int>(vf_sym("message", 3));
            vf_assume((l < 7) & (m < 6));
            logger::set_logging_level(static_cast<spdlog::level::level_enum>(l));
            recs->clear();
            auto lg = logger::logger();
            lg->log(static_cast<spdlog::level::level_enum>(m), "text");
            vf_check(recs->size() == (!null && m >= l), "exactly the messages of the level are logged, none while logging is disabled");
            if (recs->size()) vf_check((*recs)[0].l == lg.get() && (!cur || cur == lg.get()) && (*recs)[0].level == m, "the message goes to the logger that was set");
            if (!cur && !null) vf_check(lg->name() == "console", "messages go to the console by default");
            REACH("message");
        } break;
        case 3: {
            file = vf_choice("file", 2) ? "f" : "g";
            Benchmark::set_benchmark_file(file);
            REACH("file");
        } break;
        default: {
            recs->clear();
            now = 1000;
            step = vf_choice("time", 2) ? 1234567 : 0;
            uint64_t from, to = 0;
            size_t items = 0;
            bool stopped = false, items_set = false;
            {
                SearchBenchmark b("name");
                from = now;
                for (uint64_t i = vf_choice("calls", MODE == 2 ? 3 : 2); i > 0; i--) {
                    uint64_t what = vf_choice("call", 3);
                    size_t c = 0;
                    if (what != 2) c = MODE == 2 ? (const size_t[]){0, 1, 2, (size_t(1) << 32) + 5}[vf_choice("items", 4)] : vf_sym("items", 64);
                    if (what != 2 && !stopped) items_set = true;
                    if (what == 0) b.set_count(items = c), items_set = true;
                    else {
                        if (what == 1) b.stop(c); else b.stop();
                        if (!stopped) { to = now; if (what == 1) items = c; }
                        stopped = true;
                    }
                }
            }
            if (!stopped) to = now;
            else REACH("stopped");
            vf_check(recs->size() == (file.empty() ? 0 : 1), "a benchmark writes one record");
            if (recs->size()) benchmark_record(0, file, items, from, to, MODE == 2 || !items_set);
            REACH("benchmark");
        }
        }
    }
    REACH("done");
}
