// U01: byte helpers, on every input within the sizes.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <vf_streams.hpp>
#include <sse/schemes/utils/utils.hpp>
#include <sse/schemes/diana/types.hpp>
using namespace sse;
// value of a lower- or upper-case hexadecimal digit, 99 for any other character; no branch on the character
static unsigned digit(char c)
{
    unsigned u = static_cast<unsigned char>(c);
    unsigned d = vf_ite(u - '0' < 10, u - '0', 99);
    d = vf_ite(u - 'a' < 6, u - 'a' + 10, d);
    return vf_ite(u - 'A' < 6, u - 'A' + 10, d);
}
// s is exactly two digits per byte, most significant first
static void renders(const std::string& s, const std::vector<uint8_t>& b)
{
    vf_check(s.size() == 2 * b.size(), "exactly two digits per byte");
    bool ok = true;
    for (size_t i = 0; i < b.size(); i++) ok = ok & (digit(s[2 * i]) == unsigned(b[i] >> 4)) & (digit(s[2 * i + 1]) == (b[i] & 15u));
    vf_check(ok, "the digits are those of the bytes, most significant first");
}
template<class T> static void be(std::vector<uint8_t>& o, T v)
{
    for (size_t i = sizeof(T); i-- > 0;) o.push_back(uint8_t(uint64_t(v) >> (8 * i)));
}
template<class T, size_t N> static void hex_array(const char* l)
{
    std::array<T, N> a;
    std::vector<uint8_t> b;
    for (auto& x : a) {
        x = static_cast<T>(vf_sym("element", 8 * sizeof(T)));
        be<T>(b, x);
    }
    renders(utility::hex_string(a), b);
    REACH(l);
}
template<size_t N> static void hex_stream()
{
    std::array<uint8_t, N> a;
    for (auto& x : a) x = static_cast<uint8_t>(vf_sym("byte", 8));
    std::ostringstream o;
    vf_check(&utility::print_hex(o, a) == &o, "the stream is returned");
    renders(o.str(), std::vector<uint8_t>(a.begin(), a.end()));
    std::string s(reinterpret_cast<const char*>(a.data()), N);
    std::ostringstream p;
    vf_check(&utility::print_hex(p, s) == &p, "the stream is returned");
    renders(p.str(), std::vector<uint8_t>(a.begin(), a.end()));
    renders(utility::hex_string(s), std::vector<uint8_t>(a.begin(), a.end()));
}
template<size_t N> static void mask64()
{
    std::array<uint8_t, N> m;
    vf_make_symbolic(m.data(), N, "mask");
    auto     m0 = m;
    uint64_t x = vf_sym("x", 64), y = vf_sym("y", 64);
    uint64_t a = utility::xor_mask(x, m), b = utility::xor_mask(y, m);
    vf_check(utility::xor_mask(a, m) == x, "masking twice restores the value");
    vf_check((a ^ b) == (x ^ y), "masking combines each bit with its own key bit");
    uint64_t k = utility::xor_mask(0, m);
    for (size_t i = 0; i < 8; i++) { // every key byte masks one byte of its own
        auto n = m;
        n[i] ^= 0xFF;
        vf_check((utility::xor_mask(0, n) ^ k) == 0xFFull << (8 * (7 - i)), "every key byte masks exactly one byte of the value");
    }
    bool same = true;
    for (size_t i = 0; i < N; i++) same = same & (m[i] == m0[i]);
    vf_check(same, "the key is left unchanged");
    REACH("mask");
}
template<class T> static void mask_value()
{
    T x, m;
    vf_make_symbolic(&x, sizeof x, "value");
    vf_make_symbolic(&m, sizeof m, "mask");
    std::array<uint8_t, sizeof(T)> a;
    memcpy(a.data(), &m, sizeof m);
    T r = diana::xor_mask(x, m), q = diana::xor_mask(x, a);
    bool ok = true;
    for (size_t i = 0; i < sizeof(T); i++) {
        uint8_t w = reinterpret_cast<uint8_t*>(&x)[i] ^ reinterpret_cast<uint8_t*>(&m)[i];
        ok = ok & (reinterpret_cast<uint8_t*>(&r)[i] == w) & (reinterpret_cast<uint8_t*>(&q)[i] == w);
    }
    vf_check(ok, "every byte is combined with its own key byte");
    T back = diana::xor_mask(r, m);
    vf_check(memcmp(&back, &x, sizeof x) == 0, "masking twice restores the value");
    REACH("diana mask");
}
extern "C" void vf_entry()
{
    switch (vf_choice("function", 12)) {
    case 0: hex_array<uint8_t, 16>("hex bytes"); break;
    case 1: hex_array<uint16_t, 3>("hex 16"); break;
    case 2: hex_array<uint32_t, 3>("hex 32"); break;
    case 3: hex_array<uint64_t, 2>("hex 64"); break;
    case 4: hex_array<char, 4>("hex chars"); break;
    case 5: hex_array<int32_t, 2>("hex signed"); break;
    case 6: {
        uint64_t v = vf_sym("value", 64);
        std::vector<uint8_t> b;
        be(b, v);
        renders(utility::hex_string(v), b);
        uint32_t w = static_cast<uint32_t>(vf_sym("value", 32));
        std::vector<uint8_t> c;
        be(c, w);
        renders(utility::hex_string(w), c);
        REACH("hex integer");
        break;
    }
    case 7: {
        size_t n = vf_choice("length", vf_param("maxlen", 17));
        std::string s(n, 0);
        if (n) vf_make_symbolic(&s[0], n, "string");
        renders(utility::hex_string(s), std::vector<uint8_t>(s.begin(), s.end()));
        REACH("hex string");
        break;
    }
    case 8: hex_stream<1>(); hex_stream<8>(); hex_stream<17>(); REACH("stream"); break;
    case 9: mask64<8>(); mask64<16>(); break;
    case 10:
        mask_value<uint64_t>();
        mask_value<uint32_t>();
        mask_value<uint8_t>();
        mask_value<std::array<uint8_t, 16>>();
        mask_value<std::array<uint8_t, 5>>();
        break;
    case 11: {
        unsigned k = unsigned(vf_choice("log2 alignment", 64));
        uint64_t x = vf_sym("address", 64), a = 1ull << k;
        bool m = (x >> k) << k == x;
        vf_check(utility::is_aligned(x, a) == m, "aligned exactly if a multiple");
        vf_check(utility::is_aligned(reinterpret_cast<const volatile void*>(x), a) == m, "aligned exactly if a multiple");
        uint32_t y = uint32_t(x);
        vf_check(utility::is_aligned(y, a) == (k < 32 ? (y >> k) << k == y : y == 0), "aligned exactly if a multiple");
        REACH("aligned");
    }
    }
}
