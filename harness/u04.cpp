// U04: the optional wrapper against a reference model, through every sequence of operations.
#include "common.hpp"
#include <memory>
#include <utility>
#include <sse/schemes/utils/optional.hpp>
namespace ex = std::experimental;
struct Boom {};
static int  live;
static bool may_throw;
constexpr uint64_t MOVED = 0x4D4F564544ull;
// non-trivial payload: knows its own address, counts its instances
struct Track {
    uint64_t v;
    Track*   self;
    void born() { live++; self = this; }
    void ok() const { vf_check(self == this, "an object is used only while it exists"); }
    static void boom() { if (may_throw && vf_choice("copy fails", 2)) throw Boom(); }
    explicit Track(uint64_t x) : v(x) { boom(); born(); }
    Track(std::initializer_list<uint64_t> l, uint64_t y = 0) : v(y) { for (auto e : l) v += e; born(); }
    Track(const Track& o) : v(o.v) { o.ok(); boom(); born(); }
    Track(Track&& o) noexcept : v(o.v) { o.ok(); born(); if (this != &o) o.v = MOVED; }
    Track& operator=(const Track& o) { ok(); o.ok(); boom(); v = o.v; return *this; }
    Track& operator=(Track&& o) noexcept { ok(); o.ok(); if (this != &o) { v = o.v; o.v = MOVED; } return *this; }
    ~Track() { ok(); self = nullptr; live--; }
    bool operator==(const Track& o) const { return v == o.v; }
    bool operator<(const Track& o) const { return v < o.v; }
};
static uint64_t val(const Track& t) { t.ok(); return t.v; }
static uint64_t val(uint64_t t) { return t; }
template<class T> struct Is { static constexpr bool track = false; static uint64_t moved(uint64_t v) { return v; } };
template<> struct Is<Track> { static constexpr bool track = true; static uint64_t moved(uint64_t) { return MOVED; } };
struct Ref { bool has = false; uint64_t v = 0; };
template<class T> static void agree(ex::optional<T>& o, const Ref& r)
{
    const ex::optional<T>& c = o;
    vf_check(o.has_value() == r.has && static_cast<bool>(o) == r.has, "engaged exactly when the last operation left a value");
    if (r.has) {
        vf_check(val(*o) == r.v & val(*c) == r.v & val(o.value()) == r.v & val(c.value()) == r.v, "the value is the one stored last");
        vf_check(&*o == &o.value() && &*c == &*o && c.operator->() == &*o && o.operator->() == &*o, "all accessors give the same object");
    } else {
        vf_check((throws<ex::bad_optional_access>([&] { o.value(); }, "wrong exception")), "reading an absent value is rejected");
        vf_check((throws<ex::bad_optional_access>([&] { c.value(); }, "wrong exception")), "reading an absent value is rejected");
        vf_check((throws<ex::bad_optional_access>([&] { std::move(o).value(); }, "wrong exception")), "reading an absent value is rejected");
    }
    bool t0 = may_throw;
    may_throw = false;
    T other(77);
    vf_check(val(c.value_or(other)) == (r.has ? r.v : 77), "value or default");
    may_throw = t0;
}
template<class T> static void ops()
{
    may_throw = vf_param("throwing", 0);
    live = 0;
    {
        ex::optional<T> o[2];
        Ref r[2];
        for (size_t k = 0; k < vf_param("ops", 2); k++) {
            size_t i = vf_choice("which", 2), j = 1 - i;
            uint64_t x = vf_sym("value", 64);
            bool failed = false;
            size_t op = vf_choice("operation", 15);
            Ref was = r[i];
            int  before = live;
            try {
                switch (op) {
                case 0: o[i] = ex::nullopt; r[i].has = false; break;
                case 1: o[i].reset(); r[i].has = false; break;
                case 2: { T t(x); o[i] = t; r[i] = {true, x}; vf_check(val(t) == x, "the source of a copy is unchanged"); break; }
                case 3: { T t(x); o[i] = std::move(t); r[i] = {true, x}; break; }
                case 4: o[i].emplace(x); r[i] = {true, x}; break;
                case 5: o[i] = o[j]; r[i] = r[j]; break;
                case 6: o[i] = std::move(o[j]); r[i] = r[j]; if (r[j].has) r[j].v = Is<T>::moved(r[j].v); break;
                case 7: o[i].swap(o[j]); std::swap(r[i], r[j]); break;
                case 8: { using std::swap; swap(o[i], o[j]); std::swap(r[i], r[j]); break; }
                case 9: { auto& self = o[i]; o[i] = self; break; }
                case 10: { ex::optional<T> c(o[i]); Ref rc = r[i]; agree(c, rc); break; }
                case 11: { Ref rc = r[i]; ex::optional<T> c(std::move(o[i])); if (rc.has) r[i].v = Is<T>::moved(rc.v); agree(c, rc); break; }
                case 12: { T t(x); ex::optional<T> c(t), d(std::move(t)), e(ex::in_place, x), n(ex::nullopt), m = ex::make_optional(T(x)); agree(c, {true, x}); agree(d, {true, x}); agree(e, {true, x}); agree(m, {true, x}); agree(n, {}); break; }
                case 13: { // taking the value out
                    T d(5);
                    uint64_t got = val(std::move(o[i]).value_or(d));
                    vf_check(got == (was.has ? was.v : 5), "value or default");
                    if (was.has) r[i].v = Is<T>::moved(was.v);
                    break;
                }
                case 14: if (was.has) { T t(std::move(*o[i])); vf_check(val(t) == was.v, "moved out"); r[i].v = Is<T>::moved(was.v); } break;
                }
            } catch (Boom&) {
                failed = true;
            }
            if (failed) {
                // emplace destroys the old value first; every other failing operation leaves the wrapper as it was
                r[i] = was;
                if (op == 4) r[i].has = false;
                REACH("failed copy");
            }
            agree(o[0], r[0]);
            agree(o[1], r[1]);
            if (Is<T>::track) vf_check(live == int(r[0].has) + int(r[1].has), "one object per engaged wrapper, no other left");
            (void)before;
        }
    }
    vf_check(live == 0, "every object is destroyed exactly once");
    REACH(Is<T>::track ? "object" : "integer");
}
template<class T> static void relations()
{
    ex::optional<T> a, b;
    bool ha = vf_choice("a", 2), hb = vf_choice("b", 2);
    uint64_t x = vf_sym("x", 64), y = vf_sym("y", 64);
    if (ha) a.emplace(x);
    if (hb) b.emplace(y);
    bool eq = ha == hb && (!ha || x == y), lt = hb && (!ha || x < y), gt = ha && (!hb || y < x);
    vf_check((a == b) == eq & (a != b) == !eq, "equality");
    vf_check((a < b) == lt & (a > b) == gt & (a <= b) == !gt & (a >= b) == !lt, "an absent value is less than any other, values compare as themselves");
    const ex::nullopt_t n = ex::nullopt;
    vf_check((a == n) == !ha & (n == a) == !ha & (a != n) == ha & (n != a) == ha, "comparison with the absent value");
    vf_check(!(a < n) & (n < a) == ha & (a <= n) == !ha & (n <= a) & (a > n) == ha & !(n > a) & (a >= n) & (n >= a) == !ha, "comparison with the absent value");
    REACH("relations");
}
static void with_value()
{
    ex::optional<uint64_t> a;
    bool ha = vf_choice("a", 2);
    const uint64_t x = vf_sym("x", 64), y = vf_sym("y", 64);
    if (ha) a.emplace(x);
    vf_check((a == y) == (ha & x == y) & (y == a) == (ha & x == y) & (a != y) == !(ha & x == y) & (y != a) == !(ha & x == y), "comparison with a value");
    vf_check((a < y) == (!ha | x < y) & (y > a) == (!ha | x < y) & (a >= y) == !(!ha | x < y) & (y <= a) == !(!ha | x < y), "comparison with a value");
    vf_check((a > y) == (ha & x > y) & (y < a) == (ha & x > y) & (a <= y) == !(ha & x > y) & (y >= a) == !(ha & x > y), "comparison with a value");
    vf_check(std::hash<ex::optional<uint64_t>>()(a) == (ha ? std::hash<uint64_t>()(x) : 0), "hash");
    // initializer lists
    live = 0;
    {
        ex::optional<Track> t(ex::in_place, {uint64_t(1), uint64_t(2)}, x);
        vf_check(t->v == x + 3, "in place from a list");
        t.emplace({uint64_t(4), uint64_t(5)}, y);
        vf_check(t->v == y + 9, "in place from a list");
        vf_check(live == 1, "one object");
    }
    vf_check(live == 0, "destroyed once");
    REACH("with value");
}
static void references()
{
    uint64_t v[2] = {vf_sym("v", 64), vf_sym("w", 64)};
    ex::optional<uint64_t&> o[2];
    uint64_t* r[2] = {};
    for (size_t k = 0; k < vf_param("ops", 3); k++) {
        size_t i = vf_choice("which", 2), j = 1 - i;
        switch (vf_choice("operation", 7)) {
        case 0: o[i] = ex::nullopt; r[i] = nullptr; break;
        case 1: o[i].reset(); r[i] = nullptr; break;
        case 2: { size_t t = vf_choice("target", 2); o[i].emplace(v[t]); r[i] = &v[t]; break; }
        case 3: o[i] = o[j]; r[i] = r[j]; break;
        case 4: o[i].swap(o[j]); std::swap(r[i], r[j]); break;
        case 5: { ex::optional<uint64_t&> c(o[j]); o[i] = c; r[i] = r[j]; break; }
        case 6: if (r[i]) { uint64_t x = vf_sym("value", 64); *o[i] = x; vf_check(*r[i] == x, "written through the reference"); } break;
        }
        for (size_t q = 0; q < 2; q++) {
            vf_check(o[q].has_value() == (r[q] != nullptr) && static_cast<bool>(o[q]) == (r[q] != nullptr), "engaged exactly when it refers to an object");
            if (r[q]) vf_check(&*o[q] == r[q] && &o[q].value() == r[q] && o[q].operator->() == r[q] && o[q].value_or(1) == *r[q], "refers to the object it was given");
            else vf_check((throws<ex::bad_optional_access>([&] { o[q].value(); }, "wrong exception")) && o[q].value_or(1) == 1, "reading an absent reference is rejected");
        }
    }
    REACH("references");
}
extern "C" void vf_entry()
{
    switch (vf_param("mode", 0)) {
    case 0: if (vf_choice("payload", 2)) ops<Track>(); else ops<uint64_t>(); break;
    case 1: ops<Track>(); break;
    case 2: if (vf_choice("payload", 2)) relations<Track>(); else relations<uint64_t>(); break;
    case 3: with_value(); break;
    default: references();
    }
}
