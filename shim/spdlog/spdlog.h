// Verification model of spdlog: messages are discarded, or given to the harness's hook with their numeric arguments; names are
// registered once (a duplicate throws, as in spdlog). The library synchronises itself.
#pragma once
#include "vf.h"
#include <chrono>
#include <initializer_list>
#include <iomanip>
#include <memory>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug, info, warn, err, critical, off, n_levels }; }
using level::level_enum;
class spdlog_ex : public std::exception {
    std::string m_;
public:
    explicit spdlog_ex(std::string m) : m_(std::move(m)) {}
    const char* what() const noexcept override { return m_.c_str(); }
};
namespace sinks {
struct sink { virtual ~sink() {} };
struct null_sink : sink {}; struct null_sink_mt : null_sink {}; struct null_sink_st : null_sink {};
struct stdout_color_sink_mt : sink {}; struct stderr_color_sink_mt : sink {};
struct basic_file_sink_mt : sink { template<class... A> explicit basic_file_sink_mt(A&&...) {} };
}
using sink_ptr = std::shared_ptr<sinks::sink>;
class logger;
namespace model {
struct Atomic { bool old = vf_norace(true); ~Atomic() { vf_norace(old); } };
using Hook = void (*)(const logger*, int level, const std::string& text, const long double* numbers, size_t n);
inline Hook& hook() { static Hook h = nullptr; return h; }
inline std::string text(const char* s) { return s; }
inline std::string text(const std::string& s) { return s; }
template<class T> std::string text(const T&) { return ""; }
template<class T> typename std::enable_if<std::is_arithmetic<T>::value, long double>::type number(const T& x) { return static_cast<long double>(x); }
template<class T> typename std::enable_if<!std::is_arithmetic<T>::value, long double>::type number(const T&) { return 0; }
} // namespace model
class logger {
    std::string n_;
    int l_ = level::info;
public:
    bool null_ = false;
    std::string file_;
    explicit logger(std::string n) : n_(std::move(n)) {}
    template<class S> logger(std::string n, S&&) : n_(std::move(n)), null_(std::is_convertible<typename std::decay<S>::type, std::shared_ptr<sinks::null_sink>>::value) {}
    template<class I> logger(std::string n, I, I) : n_(std::move(n)) {}
    template<class F, class... A> void log(level::level_enum l, const F& f, const A&... a)
    {
        if (!model::hook()) return;
        model::Atomic g;
        if (null_ || l < l_) return;
        const long double v[] = {0, model::number(a)...};
        model::hook()(this, l, model::text(f), v + 1, sizeof...(A));
    }
    template<class... A> void trace(const A&... a) { log(level::trace, a...); }
    template<class... A> void debug(const A&... a) { log(level::debug, a...); }
    template<class... A> void info(const A&... a) { log(level::info, a...); }
    template<class... A> void warn(const A&... a) { log(level::warn, a...); }
    template<class... A> void error(const A&... a) { log(level::err, a...); }
    template<class... A> void critical(const A&... a) { log(level::critical, a...); }
    void set_level(level::level_enum l) { model::Atomic g; l_ = l; }
    level::level_enum level() const { model::Atomic g; return static_cast<level::level_enum>(l_); }
    bool should_log(level::level_enum l) const { return l >= l_; }
    void set_pattern(const std::string&) {}
    void flush() {}
    void flush_on(level::level_enum) {}
    const std::string& name() const { return n_; }
};
namespace details { inline std::map<std::string, std::shared_ptr<logger>>& names() { static auto* m = new std::map<std::string, std::shared_ptr<logger>>(); return *m; } }
inline void register_logger(std::shared_ptr<logger> l)
{
    model::Atomic g;
    if (details::names().count(l->name())) throw spdlog_ex("logger with name '" + l->name() + "' already exists");
    details::names()[l->name()] = l;
}
inline std::shared_ptr<logger> vf_make(const std::string& n, bool null = false, const std::string& file = "")
{
    auto l = std::make_shared<logger>(n);
    l->null_ = null;
    l->file_ = file;
    register_logger(l);
    return l;
}
struct synchronous_factory {}; struct async_factory {}; struct async_factory_nonblock {};
template<class S, class... A> std::shared_ptr<logger> create(const std::string& n, const A&...) { return vf_make(n, std::is_base_of<sinks::null_sink, S>::value); }
inline std::shared_ptr<logger> stderr_color_mt(const std::string& n) { return vf_make(n); }
inline std::shared_ptr<logger> stdout_color_mt(const std::string& n) { return vf_make(n); }
template<class F = synchronous_factory> std::shared_ptr<logger> null_logger_mt(const std::string& n) { return vf_make(n, true); }
template<class F = synchronous_factory> std::shared_ptr<logger> basic_logger_mt(const std::string& n, const std::string& p, bool = false) { return vf_make(n, false, p); }
inline std::shared_ptr<logger> get(const std::string& n)
{
    model::Atomic g;
    auto i = details::names().find(n);
    return i == details::names().end() ? nullptr : i->second;
}
inline void drop(const std::string& n) { model::Atomic g; details::names().erase(n); }
inline void drop_all() { model::Atomic g; details::names().clear(); }
inline void set_level(level::level_enum) {}
inline void set_pattern(const std::string&) {}
inline void shutdown() {}
}
