// In-process model of the gRPC synchronous API used by the client and server runners.
// Contract: a call reaches the service registered at the channel's address with a copy of the message, in a thread of the
// server (concurrent calls run concurrently), and returns the handler's status; an exception in a handler becomes UNKNOWN;
// without a server, or when the harness makes the network fail, the status is UNAVAILABLE. A writer of a stream may be used
// by one thread at a time. Shutting a server down waits for the calls in progress; destroying it cancels them.
#pragma once
#include "vf.h"
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7,
                  RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
class Status
{
public:
    Status() = default;
    Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
    Status(StatusCode c, std::string m, std::string) : c_(c), m_(std::move(m)) {}
    bool ok() const { return c_ == StatusCode::OK; }
    StatusCode error_code() const { return c_; }
    std::string error_message() const { return m_; }
    static const Status OK, CANCELLED;
private:
    StatusCode  c_{StatusCode::OK};
    std::string m_;
};
inline const Status Status::OK{};
inline const Status Status::CANCELLED{StatusCode::CANCELLED, ""};
class Service { public: virtual ~Service() = default; };
class ServerContext { public: bool IsCancelled() const { return false; } };
class ClientContext
{
public:
    ClientContext() = default;
    ClientContext(const ClientContext&) = delete;
    void TryCancel() {}
};
struct ServerCredentials {};
struct ChannelCredentials {};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
namespace model {
struct Endpoint
{
    std::vector<Service*> services;
    bool up = false, cancelled = false;
    int active = 0;
};
struct Net
{
    std::mutex m;
    std::condition_variable cv;
    std::map<std::string, Endpoint> ep;
    bool (*lost)(const char* method, bool reply) = nullptr; // the request, or the reply, does not get through
    size_t (*cut)(size_t replies) = nullptr;                // only so many replies of a stream get through
};
inline Net& net() { static Net* n = new Net; return *n; }
} // namespace model
class Channel { public: std::string addr; };
inline std::shared_ptr<Channel> CreateChannel(const std::string& a, const std::shared_ptr<ChannelCredentials>&) { auto c = std::make_shared<Channel>(); c->addr = a; return c; }
namespace model {
struct Call
{ // a call in progress
    Endpoint* e = nullptr;
    explicit Call(const Channel& c)
    {
        Net& n = net();
        std::lock_guard<std::mutex> l(n.m);
        auto it = n.ep.find(c.addr);
        if (it == n.ep.end() || !it->second.up) return;
        e = &it->second;
        e->active++;
    }
    ~Call()
    {
        if (!e) return;
        Net& n = net();
        std::lock_guard<std::mutex> l(n.m);
        e->active--;
        n.cv.notify_all();
    }
};
inline Status unavailable() { return Status(StatusCode::UNAVAILABLE, "failed to connect"); }
template<class F> Status guarded(Endpoint* e, F f)
{
    for (Service* s : e->services) {
        try { return f(s); }
        catch (...) { return Status(StatusCode::UNKNOWN, "Unexpected error in RPC handling"); }
    }
    return Status(StatusCode::UNIMPLEMENTED, "");
}
inline bool lost(const char* m, bool r) { return net().lost && net().lost(m, r); }
template<class Q, class R, class F> Status unary(const Channel& ch, const char* m, const Q& q, R* r, F f)
{
    Call c(ch);
    if (!c.e || lost(m, false)) return unavailable();
    Q copy(q);
    R rep;
    Status st = guarded(c.e, [&](Service* s) { ServerContext sc; return f(s, &sc, &copy, &rep); });
    if (lost(m, true)) return unavailable();
    if (st.ok()) *r = rep;
    return st;
}
} // namespace model
template<class R> class ServerWriter
{
public:
    bool Write(const R& r) { q_.push_back(r); return true; } // (not synchronised: one thread at a time)
    std::deque<R> q_;
};
template<class R> class ClientReader
{
public:
    bool Read(R* r)
    {
        if (q_.empty()) return false;
        *r = q_.front();
        q_.pop_front();
        return true;
    }
    Status Finish() { return st_; }
    std::deque<R> q_;
    Status st_;
};
namespace model {
template<class Q> struct Pipe
{
    std::mutex m;
    std::condition_variable cv;
    std::deque<Q> q;
    bool closed = false, finished = false;
    Status st;
};
}
template<class Q> class ServerReader
{
public:
    explicit ServerReader(model::Pipe<Q>* p) : p_(p) {}
    bool Read(Q* q)
    {
        std::unique_lock<std::mutex> l(p_->m);
        p_->cv.wait(l, [&] { return !p_->q.empty() || p_->closed; });
        if (p_->q.empty()) return false;
        *q = p_->q.front();
        p_->q.pop_front();
        return true;
    }
private:
    model::Pipe<Q>* p_;
};
template<class Q> class ClientWriter
{
public:
    ClientWriter() : p_(new model::Pipe<Q>()) {}
    ClientWriter(const ClientWriter&) = delete;
    ~ClientWriter() { Finish(); }
    bool Write(const Q& q)
    {
        in_use_++; // (not synchronised: one thread at a time)
        std::lock_guard<std::mutex> l(p_->m);
        if (p_->finished || p_->closed) return false;
        p_->q.push_back(q);
        p_->cv.notify_all();
        return true;
    }
    bool WritesDone()
    {
        in_use_++;
        std::lock_guard<std::mutex> l(p_->m);
        bool r = !p_->closed;
        p_->closed = true;
        p_->cv.notify_all();
        return r;
    }
    Status Finish()
    {
        if (handler_.joinable()) {
            {
                std::lock_guard<std::mutex> l(p_->m);
                p_->closed = true;
                p_->cv.notify_all();
            }
            handler_.join();
        }
        return p_->st;
    }
    std::unique_ptr<model::Pipe<Q>> p_;
    std::thread handler_;
    int in_use_ = 0;
};
namespace model {
template<class Q, class R, class F> std::unique_ptr<ClientReader<R>> server_stream(const Channel& ch, const char* m, const Q& q, F f)
{
    auto rd = std::unique_ptr<ClientReader<R>>(new ClientReader<R>());
    Call c(ch);
    if (!c.e || lost(m, false)) { rd->st_ = unavailable(); return rd; }
    Q copy(q);
    ServerWriter<R> w;
    rd->st_ = guarded(c.e, [&](Service* s) { ServerContext sc; return f(s, &sc, &copy, &w); });
    rd->q_ = w.q_;
    if (net().cut) {
        size_t k = net().cut(rd->q_.size());
        if (k < rd->q_.size()) { rd->q_.resize(k); rd->st_ = unavailable(); }
    }
    return rd;
}
template<class Q, class R, class F> std::unique_ptr<ClientWriter<Q>> client_stream(const Channel& ch, const char* m, R* r, F f)
{
    auto w = std::unique_ptr<ClientWriter<Q>>(new ClientWriter<Q>());
    auto c = std::make_shared<Call>(ch);
    Pipe<Q>* p = w->p_.get();
    if (!c->e || lost(m, false)) { p->st = unavailable(); p->finished = true; return w; }
    w->handler_ = std::thread([p, c, r, f]() mutable {
        ServerReader<Q> rd(p);
        R rep;
        Status st = guarded(c->e, [&](Service* s) { ServerContext sc; return f(s, &sc, &rd, &rep); });
        c.reset();
        std::lock_guard<std::mutex> l(p->m);
        p->st = st;
        p->finished = true;
        *r = rep;
    });
    return w;
}
} // namespace model
class Server
{
public:
    explicit Server(model::Endpoint* e) : e_(e) {}
    Server(const Server&) = delete;
    ~Server() { if (e_) Shutdown(); }
    void Shutdown()
    {
        model::Net& n = model::net();
        std::unique_lock<std::mutex> l(n.m);
        e_->up = false;
        n.cv.notify_all();
        n.cv.wait(l, [&] { return e_->active == 0; });
    }
    void Wait()
    {
        model::Net& n = model::net();
        std::unique_lock<std::mutex> l(n.m);
        n.cv.wait(l, [&] { return !e_->up; });
    }
private:
    model::Endpoint* e_;
};
class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& a, const std::shared_ptr<ServerCredentials>&, int* port = nullptr) { addr_ = a; if (port) *port = 1; return *this; }
    ServerBuilder& RegisterService(Service* s) { services_.push_back(s); return *this; }
    std::unique_ptr<Server> BuildAndStart()
    {
        model::Net& n = model::net();
        std::lock_guard<std::mutex> l(n.m);
        model::Endpoint& e = n.ep[addr_];
        if (e.up) return nullptr; // address in use
        e.services = services_;
        e.up = true;
        return std::unique_ptr<Server>(new Server(&e));
    }
private:
    std::string addr_;
    std::vector<Service*> services_;
};
} // namespace grpc
