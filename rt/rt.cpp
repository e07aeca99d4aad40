// The out-of-line part of libstdc++ that the code under verification needs, written so that it can be
// executed symbolically (and compiled natively for replay).  Linked into every verification module.
#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <optional>
#include <pthread.h>
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>

// ---------------------------------------------------------------- exceptions
namespace std {
const char* vf_dup_c(const char* s);
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static const char* vf_dup(const char* s, size_t n)
{
    char* p = static_cast<char*>(malloc(n + 1));
    if (n) memcpy(p, s, n);
    p[n] = 0;
    return p;
}
const char* vf_dup_c(const char* s) { return vf_dup(s, strlen(s)); }
__cow_string::__cow_string() { _M_p = vf_dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = vf_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = vf_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = vf_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    const char* n = vf_dup(o._M_p, strlen(o._M_p));
    free(const_cast<char*>(_M_p));
    _M_p = n;
    return *this;
}
__cow_string::~__cow_string() { free(const_cast<char*>(_M_p)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = vf_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = static_cast<const __cow_string&>(o); }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VF_EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
VF_EXC(domain_error, logic_error)
VF_EXC(invalid_argument, logic_error)
VF_EXC(length_error, logic_error)
VF_EXC(out_of_range, logic_error)
VF_EXC(range_error, runtime_error)
VF_EXC(overflow_error, runtime_error)
VF_EXC(underflow_error, runtime_error)
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return logic_error::what(); }

error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return c.category() == *this && c.value() == i; }
__cow_string error_category::_M_message(int i) const { return __cow_string(message(i)); }
namespace {
struct vf_cat : error_category {
    const char* n;
    constexpr explicit vf_cat(const char* s) : n(s) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return string(n); }
};
alignas(vf_cat) char cat_mem[3][sizeof(vf_cat)];
struct cat_init { cat_init() { new (cat_mem[0]) vf_cat("generic"); new (cat_mem[1]) vf_cat("system"); new (cat_mem[2]) vf_cat("future"); } } cat_init_;
}
inline namespace _V2 {
const error_category& generic_category() noexcept { return *reinterpret_cast<vf_cat*>(cat_mem[0]); }
const error_category& system_category() noexcept { return *reinterpret_cast<vf_cat*>(cat_mem[1]); }
}
const error_category& future_category() noexcept { return *reinterpret_cast<vf_cat*>(cat_mem[2]); }
system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
#if defined(_GLIBCXX_RELEASE)
void __glibcxx_assert_fail(const char* f, int l, const char* fn, const char* c) noexcept { (void)f; (void)l; (void)fn; vf_fail(c ? c : "libstdc++ assertion"); }
#endif

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept
{
    if (a._M_next != &a) {
        if (b._M_next != &b) {
            std::swap(a._M_next, b._M_next);
            std::swap(a._M_prev, b._M_prev);
            a._M_next->_M_prev = a._M_prev->_M_next = &a;
            b._M_next->_M_prev = b._M_prev->_M_next = &b;
        } else {
            b._M_next = a._M_next;
            b._M_prev = a._M_prev;
            b._M_next->_M_prev = b._M_prev->_M_next = &b;
            a._M_next = a._M_prev = &a;
        }
    } else if (b._M_next != &b) {
        a._M_next = b._M_next;
        a._M_prev = b._M_prev;
        a._M_next->_M_prev = a._M_prev->_M_next = &a;
        b._M_next = b._M_prev = &b;
    }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const t = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731};
    if (n == 0) return 1;
    for (size_t p : primes)
        if (p >= n) { _M_next_resize = static_cast<size_t>(p * static_cast<size_t>(_M_max_load_factor)); return p; }
    return 236897;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const
{
    if (nelt + nins > _M_next_resize) {
        size_t min = nelt + nins;
        if (!_M_next_resize && min < 11) min = 11;
        if (min >= nbkt) return {true, _M_next_bkt(std::max(min + 1, nbkt * 2))};
        _M_next_resize = nbkt;
    }
    return {false, 0};
}
} // namespace __detail

size_t _Hash_bytes(const void*, size_t, size_t) { return 0; } // a legal (constant) hash: buckets never matter
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }

static inline bool is_red(_Rb_tree_node_base* x) { return x && x->_M_color == _S_red; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rot_left(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rot_right(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base* const y = g->_M_right;
            if (is_red(y)) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rot_left(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rot_right(g, root);
            }
        } else {
            _Rb_tree_node_base* const y = g->_M_left;
            if (is_red(y)) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rot_right(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rot_left(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base*& leftmost = h._M_left;
    _Rb_tree_node_base*& rightmost = h._M_right;
    _Rb_tree_node_base* y = z;
    _Rb_tree_node_base* x = nullptr;
    _Rb_tree_node_base* xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_left(xp, root); w = xp->_M_right; }
                if (!is_red(w->_M_left) && !is_red(w->_M_right)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!is_red(w->_M_right)) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rot_right(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rot_left(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_right(xp, root); w = xp->_M_left; }
                if (!is_red(w->_M_right) && !is_red(w->_M_left)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!is_red(w->_M_left)) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rot_left(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rot_right(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

// ---------------------------------------------------------------- threads
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    void* (*run)(void*) = [](void* p) -> void* {
        _State_ptr t{static_cast<_State*>(p)};
        t->_M_run();
        return nullptr;
    };
    pthread_create(&_M_id._M_thread, nullptr, run, s.get());
    s.release();
}
void thread::join()
{
    if (_M_id._M_thread == id()._M_thread) __throw_system_error(EINVAL);
    pthread_join(_M_id._M_thread, nullptr);
    _M_id = id();
}
void thread::detach()
{
    if (_M_id._M_thread == id()._M_thread) __throw_system_error(EINVAL);
    pthread_detach(_M_id._M_thread);
    _M_id = id();
}
extern "C" uint64_t (*vf_clock_hook)(); // a harness can choose the time
uint64_t (*vf_clock_hook)() = nullptr;
extern "C" uint64_t vf_hwc; // a harness can choose the number of hardware threads
uint64_t vf_hwc = ~uint64_t(0);
unsigned thread::hardware_concurrency() noexcept { return static_cast<unsigned>(vf_hwc != ~uint64_t(0) ? vf_hwc : vf_param("hwc", 2)); }
namespace this_thread {
void __sleep_for(chrono::seconds, chrono::nanoseconds) { vf_yield(); }
}
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }

// futures: waits on the state word go through one mutex and condition variable
static pthread_mutex_t futex_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  futex_c = PTHREAD_COND_INITIALIZER;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds)
{
    pthread_mutex_lock(&futex_m);
    bool ok = true;
    if (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) {
        if (timed) { struct timespec ts = {0, 0}; ok = pthread_cond_timedwait(&futex_c, &futex_m, &ts) == 0; }
        else pthread_cond_wait(&futex_c, &futex_m);
    }
    pthread_mutex_unlock(&futex_m);
    return ok;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n)
{ return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*)
{
    pthread_mutex_lock(&futex_m);
    pthread_cond_broadcast(&futex_c);
    pthread_mutex_unlock(&futex_m);
}
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __future_base::_State_baseV2::_Make_ready::_M_set() { vf_fail("make_ready_at_thread_exit is not modelled"); }

__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(static_cast<long>(vf_clock_hook ? vf_clock_hook() : vf_clock()))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(static_cast<long>(vf_clock_hook ? vf_clock_hook() : vf_clock()))); }
} }
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return 4; }
double random_device::_M_getentropy() const noexcept { return 0; }
} // namespace std

// ---------------------------------------------------------------- C runtime pieces
static pthread_mutex_t once_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  once_c = PTHREAD_COND_INITIALIZER;
extern "C" int vf_pthread_once(pthread_once_t* o, void (*fn)()) __asm__("pthread_once");
extern "C" int vf_pthread_once(pthread_once_t* o, void (*fn)())
{
    int* st = reinterpret_cast<int*>(o);
    if (__atomic_load_n(st, __ATOMIC_ACQUIRE) == 2) return 0;
    pthread_mutex_lock(&once_m);
    while (*st == 1) pthread_cond_wait(&once_c, &once_m);
    if (*st == 2) { pthread_mutex_unlock(&once_m); return 0; }
    __atomic_store_n(st, 1, __ATOMIC_RELAXED);
    pthread_mutex_unlock(&once_m);
    int result = 2;
    struct Fin {
        int* st; int& r;
        ~Fin() { pthread_mutex_lock(&once_m); __atomic_store_n(st, r, __ATOMIC_RELEASE); pthread_cond_broadcast(&once_c); pthread_mutex_unlock(&once_m); }
    } fin{st, result};
    try { fn(); } catch (...) { result = 0; throw; }
    return 0;
}
extern "C" int __cxa_guard_acquire(long* g)
{
    char* b = reinterpret_cast<char*>(g);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    pthread_mutex_lock(&once_m);
    while (b[1]) pthread_cond_wait(&once_c, &once_m);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { pthread_mutex_unlock(&once_m); return 0; }
    b[1] = 1;
    pthread_mutex_unlock(&once_m);
    return 1;
}
extern "C" void __cxa_guard_release(long* g)
{
    char* b = reinterpret_cast<char*>(g);
    pthread_mutex_lock(&once_m);
    b[1] = 0;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    pthread_cond_broadcast(&once_c);
    pthread_mutex_unlock(&once_m);
}
extern "C" void __cxa_guard_abort(long* g)
{
    pthread_mutex_lock(&once_m);
    reinterpret_cast<char*>(g)[1] = 0;
    pthread_cond_broadcast(&once_c);
    pthread_mutex_unlock(&once_m);
}
extern "C" char* vf_strerror(int) __asm__("strerror");
extern "C" char* vf_strerror(int) { static char msg[] = "error"; return msg; }
extern "C" char* strcpy(char* d, const char* s) noexcept { memcpy(d, s, strlen(s) + 1); return d; }
extern "C" char* strcat(char* d, const char* s) noexcept { memcpy(d + strlen(d), s, strlen(s) + 1); return d; }
extern "C" char* strdup(const char* s) noexcept { return const_cast<char*>(std::vf_dup_c(s)); }
extern "C" char* strncpy(char* d, const char* s, size_t n) noexcept
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}

// ---------------------------------------------------------------- streams
#include "vf_streams.hpp"
namespace vf {
StreamFS& stream_fs() { static StreamFS* fs = new StreamFS; return *fs; }
}
namespace std {
ostream cout(nullptr), cerr(nullptr), clog(nullptr);
istream cin(nullptr);
}
extern "C" void vf_perror(const char*) __asm__("perror");
extern "C" void vf_perror(const char*) {}
