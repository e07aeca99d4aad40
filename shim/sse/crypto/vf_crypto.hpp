// Ideal-functionality stand-in for the crypto-tk library, with its interface.
//  * PRF, PRG and hash outputs are a fixed mixing function of (domain, key, input): deterministic, and collision-free on
//    the inputs of the bounded runs; that is all the schemes may rely on.
//  * Keys are move-only; building one from an array erases the array, as the library does.
//  * The trapdoor permutation moves one step along a chain; inverting moves back.
//  * Range-constrained PRFs evaluate the same leaves as the full one and refuse leaves outside their range.
//  * Puncturable encryption: the key shares of n punctures are only usable together with an initial share made for n and
//    if they carry the indices 1..n, once each; a punctured tag does not decrypt, an unusable key decrypts to garbage.
#pragma once
#include "vf.h"
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace sse {
namespace crypto {
namespace model {
struct Mix
{
    uint64_t a, b;
    explicit Mix(uint64_t domain) : a(0x9E3779B97F4A7C15ull ^ domain), b(0xC2B2AE3D27D4EB4Full + domain * 0x100000001B3ull) {}
    void word(uint64_t w)
    {
        a = (a ^ w) * 0xFF51AFD7ED558CCDull;
        a ^= a >> 32;
        b = (b + a) * 0xC4CEB9FE1A85EC53ull;
        b ^= b >> 29;
    }
    void bytes(const uint8_t* p, size_t n)
    {
        word(n);
        while (n >= 8) { uint64_t w; memcpy(&w, p, 8); word(w); p += 8; n -= 8; }
        if (n) { uint64_t w = 0; memcpy(&w, p, n); word(w); }
    }
    uint64_t out(uint64_t i) const { Mix m = *this; m.word(i ^ 0x5555555555555555ull); m.word(b); return m.a ^ (m.b >> 7); }
    void stream(size_t offset, size_t n, uint8_t* o) const
    {
        uint64_t w = 0, cur = ~uint64_t(0);
        for (size_t i = 0; i < n; i++) {
            size_t q = offset + i;
            if (q / 8 != cur) { cur = q / 8; w = out(cur); }
            o[i] = static_cast<uint8_t>(w >> (8 * (q % 8)));
        }
    }
};
// lets a harness choose the 16-byte hash values (bucket positions)
using hash_hook_type = void (*)(const uint8_t* in, size_t len, uint8_t* out, size_t out_len);
inline hash_hook_type& hash_hook() { static hash_hook_type h = nullptr; return h; }
// lets a harness evaluate a PRF on symbolic inputs (returns true if it produced the output)
using prf_hook_type = bool (*)(const uint8_t* key, const uint8_t* in, size_t len, uint8_t* out, size_t out_len);
inline prf_hook_type& prf_hook() { static prf_hook_type h = nullptr; return h; }
using random_hook_type = void (*)(uint8_t* out, size_t len);
inline random_hook_type& random_hook() { static random_hook_type h = nullptr; return h; }
inline uint64_t& random_counter() { static uint64_t c = 0; return c; }
inline void random_fill(uint8_t* out, size_t len)
{
    if (random_hook()) { random_hook()(out, len); return; }
    bool nr = vf_norace(true);
    Mix m(0xabcd);
    m.word(random_counter()++);
    vf_norace(nr);
    m.stream(0, len, out);
}
} // namespace model
template<size_t K> class Key
{
public:
    static constexpr size_t kKeySize = K;
    Key() { model::random_fill(c_.data(), K); }
    explicit Key(uint8_t* const key) { memcpy(c_.data(), key, K); memset(key, 0, K); }
    Key(const Key&) = delete;
    Key(Key&& k) noexcept : c_(k.c_), set_(k.set_) { k.wipe(); }
    Key& operator=(const Key&) = delete;
    Key& operator=(Key&& k) noexcept { if (this != &k) { c_ = k.c_; set_ = k.set_; k.wipe(); } return *this; }
    const uint8_t* vf_data() const { if (!set_) vf_fail("use of a moved-from key"); return c_.data(); }
private:
    void wipe() { c_.fill(0); set_ = false; }
    std::array<uint8_t, K> c_;
    bool set_{true};
};
template<size_t N> class Prf
{
public:
    static constexpr size_t kKeySize = 32;
    Prf() = default;
    explicit Prf(Key<kKeySize>&& k) : key_(std::move(k)) {}
    Prf(const Prf&) = delete;
    Prf(Prf&&) noexcept = default;
    Prf& operator=(Prf&&) noexcept = default;
    std::array<uint8_t, N> prf(const unsigned char* in, size_t n) const
    {
        std::array<uint8_t, N> r;
        if (model::prf_hook() && model::prf_hook()(key_.vf_data(), in, n, r.data(), N)) return r;
        model::Mix m(N);
        m.bytes(key_.vf_data(), kKeySize);
        m.bytes(in, n);
        m.stream(0, N, r.data());
        return r;
    }
    std::array<uint8_t, N> prf(const std::string& s) const { return prf(reinterpret_cast<const uint8_t*>(s.data()), s.size()); }
    template<size_t L> std::array<uint8_t, N> prf(const std::array<uint8_t, L>& a) const { return prf(a.data(), L); }
    Key<N> derive_key(const unsigned char* in, size_t n) const
    {
        auto r = prf(in, n);
        return Key<N>(r.data());
    }
    Key<N> derive_key(const std::string& s) const { return derive_key(reinterpret_cast<const uint8_t*>(s.data()), s.size()); }
    template<size_t L> Key<N> derive_key(const std::array<uint8_t, L>& a) const { return derive_key(a.data(), L); }
private:
    Key<kKeySize> key_;
};
class Prg
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k) : key_(std::move(k)) {}
    void derive(size_t offset, size_t len, unsigned char* out) const
    {
        model::Mix m(0x9999);
        m.bytes(key_.vf_data(), kKeySize);
        m.stream(offset, len, out);
    }
    void derive(size_t len, unsigned char* out) const { derive(0, len, out); }
    std::string derive(size_t len) const { return derive(0, len); }
    std::string derive(size_t offset, size_t len) const
    {
        std::string s(len, 0);
        derive(offset, len, reinterpret_cast<uint8_t*>(&s[0]));
        return s;
    }
private:
    Key<kKeySize> key_;
};
class Hash
{
public:
    static constexpr size_t kDigestSize = 64;
    static void hash(const unsigned char* in, size_t len, size_t out_len, unsigned char* out)
    {
        model::Mix m(0x4444);
        m.bytes(in, len);
        m.stream(0, out_len, out);
        if (model::hash_hook()) model::hash_hook()(in, len, out, out_len);
    }
    static void hash(const unsigned char* in, size_t len, unsigned char* out) { hash(in, len, kDigestSize, out); }
    static void hash(const std::string& in, size_t out_len, std::string& out)
    {
        out.assign(out_len, 0);
        hash(reinterpret_cast<const uint8_t*>(in.data()), in.size(), out_len, reinterpret_cast<uint8_t*>(&out[0]));
    }
    static void hash(const std::string& in, std::string& out) { hash(in, kDigestSize, out); }
    static std::string hash(const std::string& in)
    {
        std::string o;
        hash(in, o);
        return o;
    }
};
template<typename T, size_t N> std::array<T, N> random_bytes()
{
    std::array<T, N> a;
    model::random_fill(reinterpret_cast<uint8_t*>(a.data()), N * sizeof(T));
    return a;
}
template<typename T> std::vector<T> random_bytes(size_t n)
{
    std::vector<T> a(n);
    model::random_fill(reinterpret_cast<uint8_t*>(a.data()), n * sizeof(T));
    return a;
}
inline std::string random_string(size_t n)
{
    std::string s(n, 0);
    model::random_fill(reinterpret_cast<uint8_t*>(&s[0]), n);
    return s;
}

class TdpInverse;
class Tdp
{
public:
    static constexpr size_t kMessageSize = 32; // (256 in the library)
    static constexpr size_t kRSAPrfSize  = kMessageSize + 16;
    using msg = std::array<uint8_t, kMessageSize>;
    explicit Tdp(const std::string& pk) : pk_(pk) { if (pk.compare(0, 3, "pk-") != 0) throw std::runtime_error("invalid public key"); }
    std::string public_key() const { return pk_; }
    msg eval(const msg& in) const { return step(in, 1); }
    static msg step(const msg& in, uint64_t n)
    {
        msg o = in;
        uint64_t p;
        memcpy(&p, in.data(), 8);
        p -= n;
        memcpy(o.data(), &p, 8);
        return o;
    }
protected:
    std::string pk_;
};
class TdpInverse
{
public:
    static constexpr size_t kMessageSize = Tdp::kMessageSize;
    TdpInverse() : sk_("sk-" + random_string(8)) {}
    explicit TdpInverse(const std::string& sk) : sk_(sk) { if (sk.compare(0, 3, "sk-") != 0) throw std::runtime_error("invalid key"); }
    std::string private_key() const { return sk_; }
    std::string public_key() const { return "pk-" + sk_.substr(3); }
    Tdp::msg generate_array(const Prf<Tdp::kRSAPrfSize>& prg, const std::string& seed) const
    {
        auto r = prg.prf(seed);
        Tdp::msg m;
        std::copy_n(r.begin(), m.size(), m.begin());
        return m;
    }
    Tdp::msg eval(const Tdp::msg& in) const { return Tdp::step(in, 1); }
    Tdp::msg invert(const Tdp::msg& in) const { return Tdp::step(in, ~uint64_t(0)); }
    Tdp::msg invert_mult(const Tdp::msg& in, uint32_t order) const { return Tdp::step(in, -static_cast<uint64_t>(order)); }
private:
    std::string sk_;
};
class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, uint8_t size) : Tdp(pk), max_(size)
    {
        if (size == 0) throw std::invalid_argument("Invalid Multiple TDP pool input size. Pool size should be > 0.");
    }
    msg eval(const msg& in) const { return step(in, 1); }
    msg eval(const msg& in, uint8_t order) const
    {
        if (order == 0 || order > max_) throw std::invalid_argument("Invalid order for this TDP pool.");
        return step(in, order);
    }
    uint8_t maximum_order() const { return max_; }
private:
    uint8_t max_;
};

template<size_t N> class ConstrainedRCPrfElement
{
public:
    std::array<uint8_t, 32> key;
    uint64_t min, max;
};
template<size_t N> inline std::array<uint8_t, N> vf_leaf(const std::array<uint8_t, 32>& key, uint64_t leaf)
{
    model::Mix m(0x7777 + N);
    m.bytes(key.data(), 32);
    m.word(leaf);
    std::array<uint8_t, N> r;
    m.stream(0, N, r.data());
    return r;
}
template<size_t N> class ConstrainedRCPrf
{
public:
    explicit ConstrainedRCPrf(std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>&& e) : e_(std::move(e)) {}
    ConstrainedRCPrf(const ConstrainedRCPrf&) = delete;
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    uint64_t min_leaf() const { return e_.empty() ? 0 : e_.front()->min; }
    uint64_t max_leaf() const { return e_.empty() ? 0 : e_.back()->max; }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        for (const auto& p : e_)
            if (leaf >= p->min && leaf <= p->max) return vf_leaf<N>(p->key, leaf);
        throw std::out_of_range("Constrained RCPrf evaluation: leaf index out of range");
    }
    void eval_range(uint64_t min, uint64_t max, const std::function<void(uint64_t, std::array<uint8_t, N>)>& cb) const
    {
        if (min > max) throw std::out_of_range("Constrained RCPrf evaluation: empty range");
        if (e_.empty() || min < min_leaf() || max > max_leaf()) throw std::out_of_range("Constrained RCPrf evaluation: range outside the constraint");
        for (uint64_t i = min; i <= max; i++) cb(i, eval(i));
    }
    const std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>& vf_elements() const { return e_; }
private:
    std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> e_;
};
template<size_t N> class RCPrf
{
public:
    static constexpr size_t kKeySize = 32;
    RCPrf(Key<kKeySize>&& k, uint8_t height) : height_(height) { memcpy(key_.data(), k.vf_data(), 32); Key<kKeySize> gone(std::move(k)); }
    RCPrf(const RCPrf&) = delete;
    uint64_t leaf_count() const { return uint64_t(1) << (height_ - 1); }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        if (leaf >= leaf_count()) throw std::out_of_range("RCPrf evaluation: leaf index out of range");
        return vf_leaf<N>(key_, leaf);
    }
    ConstrainedRCPrf<N> constrain(uint64_t min, uint64_t max) const
    {
        if (min > max || max >= leaf_count()) throw std::out_of_range("RCPrf constrain: invalid range");
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        v.push_back(std::unique_ptr<ConstrainedRCPrfElement<N>>(new ConstrainedRCPrfElement<N>{key_, min, max}));
        return ConstrainedRCPrf<N>(std::move(v));
    }
private:
    std::array<uint8_t, 32> key_;
    uint8_t height_;
};

namespace punct {
constexpr size_t kTagSize = 16, kMasterKeySize = 32, kCiphertextSize = 32, kKeyShareSize = 40; // (ciphertexts and key shares are larger in the library)
using tag_type          = std::array<uint8_t, kTagSize>;
using ciphertext_type   = std::array<uint8_t, kCiphertextSize>;
using key_share_type    = std::array<uint8_t, kKeyShareSize>;
using punctured_key_type = std::vector<key_share_type>;
struct VfShare { uint64_t id, d, puncture; tag_type tag; };
struct VfCt { uint64_t id, body; tag_type tag; };
inline tag_type extract_tag(const ciphertext_type& c) { VfCt v; memcpy(&v, c.data(), sizeof v); return v.tag; }
inline tag_type extract_tag(const key_share_type& k) { VfShare v; memcpy(&v, k.data(), sizeof v); return v.tag; }
} // namespace punct
class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& k)
    {
        model::Mix m(0x3333);
        m.bytes(k.vf_data(), punct::kMasterKeySize);
        id_ = m.out(0);
        Key<punct::kMasterKeySize> gone(std::move(k));
    }
    punct::key_share_type initial_keyshare(size_t d) { return share({id_, d, 0, {}}); }
    punct::key_share_type inc_puncture(size_t d, const punct::tag_type& tag)
    {
        if (d == 0) throw std::invalid_argument("Invalid puncture index");
        return share({id_, d, 1, tag});
    }
    punct::ciphertext_type encrypt(uint64_t m, const punct::tag_type& tag)
    {
        punct::VfCt c{id_, m ^ mask(id_, tag), tag};
        punct::ciphertext_type r;
        memcpy(r.data(), &c, sizeof c);
        return r;
    }
    static uint64_t mask(uint64_t id, const punct::tag_type& tag)
    {
        model::Mix m(0x2222);
        m.word(id);
        m.bytes(tag.data(), tag.size());
        return m.out(1);
    }
private:
    static punct::key_share_type share(const punct::VfShare& s)
    {
        static_assert(sizeof s == punct::kKeyShareSize && sizeof(punct::VfCt) == punct::kCiphertextSize, "layout");
        punct::key_share_type r;
        memcpy(r.data(), &s, sizeof s);
        return r;
    }
    uint64_t id_;
};
class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(punct::punctured_key_type&& k) { load(k); }
    explicit PuncturableDecryption(const punct::punctured_key_type& k) { load(k); }
    bool is_punctured_on_tag(const punct::tag_type& t) const
    {
        for (size_t i = 1; i < s_.size(); i++)
            if (s_[i].tag == t) return true;
        return false;
    }
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m)
    {
        punct::VfCt c;
        memcpy(&c, ct.data(), sizeof c);
        if (is_punctured_on_tag(c.tag)) return false;
        m = c.body ^ PuncturableEncryption::mask(c.id, c.tag);
        if (!usable_ || s_.empty() || s_[0].id != c.id) m = ~m; // garbage
        return true;
    }
private:
    void load(const punct::punctured_key_type& k)
    {
        for (const auto& b : k) { punct::VfShare v; memcpy(&v, b.data(), sizeof v); s_.push_back(v); }
        usable_ = !s_.empty() && s_[0].puncture == 0 && s_[0].d == s_.size() - 1;
        std::vector<char> seen(s_.size(), 0);
        for (size_t i = 1; usable_ && i < s_.size(); i++) {
            usable_ = s_[i].puncture == 1 && s_[i].id == s_[0].id && s_[i].d >= 1 && s_[i].d < s_.size() && !seen[s_[i].d];
            if (usable_) seen[s_[i].d] = 1;
        }
    }
    std::vector<punct::VfShare> s_;
    bool usable_{false};
};
class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& k) : key_(std::move(k)) {}
    // authenticated encryption: only what was wrapped with the same key unwraps
    template<size_t N> std::vector<uint8_t> wrap(const ConstrainedRCPrf<N>& c) const
    {
        std::vector<uint8_t> r(16, 0);
        for (auto& e : c.vf_elements()) {
            r.insert(r.end(), e->key.begin(), e->key.end());
            for (uint64_t w : {e->min, e->max}) for (int i = 0; i < 8; i++) r.push_back(static_cast<uint8_t>(w >> (8 * i)));
        }
        auto t = tag(r);
        std::copy(t.begin(), t.end(), r.begin());
        return r;
    }
    template<class T> T unwrap(const std::vector<uint8_t>& b) const { return unwrap_(b, static_cast<T*>(nullptr)); }
private:
    std::array<uint8_t, 16> tag(const std::vector<uint8_t>& b) const
    {
        model::Mix m(0x1111);
        m.bytes(key_.vf_data(), kKeySize);
        m.bytes(b.data() + 16, b.size() - 16);
        std::array<uint8_t, 16> t;
        m.stream(0, 16, t.data());
        return t;
    }
    template<size_t N> ConstrainedRCPrf<N> unwrap_(const std::vector<uint8_t>& b, ConstrainedRCPrf<N>*) const
    {
        if (b.size() < 16 || (b.size() - 16) % 48) throw std::runtime_error("unwrap: invalid buffer");
        auto t = tag(b);
        bool ok = true;
        for (size_t i = 0; i < 16; i++) ok = ok & (t[i] == b[i]);
        if (!ok) throw std::runtime_error("unwrap: invalid tag");
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> v;
        for (size_t o = 16; o < b.size(); o += 48) {
            std::unique_ptr<ConstrainedRCPrfElement<N>> e(new ConstrainedRCPrfElement<N>());
            std::copy_n(b.begin() + static_cast<long>(o), 32, e->key.begin());
            e->min = e->max = 0;
            for (size_t i = 0; i < 8; i++) {
                e->min |= static_cast<uint64_t>(b[o + 32 + i]) << (8 * i);
                e->max |= static_cast<uint64_t>(b[o + 40 + i]) << (8 * i);
            }
            v.push_back(std::move(e));
        }
        return ConstrainedRCPrf<N>(std::move(v));
    }
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
