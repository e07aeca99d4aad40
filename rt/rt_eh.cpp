// Exception runtime for symbolic execution (native replay uses the real one).
// The engine reads the typeinfo at obj-16 and writes the adjusted pointer at obj-8.
#include "vf.h"
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
extern "C" [[noreturn]] void __vf_unwind(void* obj, void* ti);
namespace {
struct Hdr {
    Hdr*  next;
    void (*dtor)(void*);
    int   refs;
    int   handlers;
    void* pad[2];
    void* ti;
    void* adj;
};
static_assert(sizeof(Hdr) == 56 || sizeof(Hdr) == 64, "");
inline Hdr* hdr(void* o) { return reinterpret_cast<Hdr*>(static_cast<char*>(o) - sizeof(Hdr)); }
inline void* obj(Hdr* h) { return reinterpret_cast<char*>(h) + sizeof(Hdr); }
thread_local Hdr* caught_;
thread_local int  uncaught_;
void drop(Hdr* h)
{
    if (vf_refadd(&h->refs, -1) == 1) {
        if (h->dtor) h->dtor(obj(h));
        free(h);
    }
}
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept
{
    char* p = static_cast<char*>(malloc(n + sizeof(Hdr)));
    memset(p, 0, sizeof(Hdr));
    return p + sizeof(Hdr);
}
void __cxa_free_exception(void* o) noexcept { free(hdr(o)); }
[[noreturn]] void __cxa_throw(void* o, std::type_info* ti, void (*dtor)(void*))
{
    Hdr* h = hdr(o);
    h->refs = 1;
    h->dtor = dtor;
    h->ti = ti;
    h->adj = o;
    uncaught_++;
    __vf_unwind(o, ti);
}
void* vf_init_primary(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept __asm__("__cxa_init_primary_exception");
void* vf_init_primary(void* o, std::type_info* ti, void (*dtor)(void*)) noexcept
{
    Hdr* h = hdr(o);
    h->refs = 0;
    h->dtor = dtor;
    h->ti = ti;
    h->adj = o;
    return o;
}
void* __cxa_begin_catch(void* o) noexcept
{
    Hdr* h = hdr(o);
    if (h->handlers < 0) h->handlers = -h->handlers + 1;
    else h->handlers++;
    if (caught_ != h) { h->next = caught_; caught_ = h; }
    uncaught_--;
    return h->adj;
}
void __cxa_end_catch()
{
    Hdr* h = caught_;
    if (!h) return;
    if (h->handlers < 0) {
        if (++h->handlers == 0) caught_ = h->next;
    } else if (--h->handlers == 0) {
        caught_ = h->next;
        drop(h);
    }
}
[[noreturn]] void __cxa_rethrow()
{
    Hdr* h = caught_;
    if (!h) vf_fail("rethrow without an exception");
    h->handlers = -h->handlers;
    uncaught_++;
    __vf_unwind(obj(h), h->ti);
}
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adj; }
std::type_info* __cxa_current_exception_type() noexcept { return caught_ ? static_cast<std::type_info*>(caught_->ti) : nullptr; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}
namespace std {
int  uncaught_exceptions() noexcept { return uncaught_; }
bool uncaught_exception() noexcept { return uncaught_ != 0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void  exception_ptr::_M_addref() noexcept { if (_M_exception_object) vf_refadd(&hdr(_M_exception_object)->refs, 1); }
void  exception_ptr::_M_release() noexcept { if (_M_exception_object) { drop(hdr(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return static_cast<const type_info*>(hdr(_M_exception_object)->ti); }
}
exception_ptr current_exception() noexcept { return caught_ ? exception_ptr(obj(caught_)) : exception_ptr(); }
void rethrow_exception(exception_ptr p)
{
    void* o;
    memcpy(&o, &p, sizeof o);
    Hdr* h = hdr(o);
    vf_refadd(&h->refs, 1);
    h->adj = o;
    uncaught_++;
    __vf_unwind(o, h->ti);
}
nested_exception::~nested_exception() noexcept {}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
}
