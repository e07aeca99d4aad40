// K01: key/value serialisation (stash files): what is read back is what was written; truncated or malformed input is rejected.
#include "common.hpp"
#include <array>
#include <cstring>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <fstream>
#include <sstream>
#include <vf_streams.hpp>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/abstractio/kv_serializer.hpp>
using namespace sse::tethys;
namespace aio = sse::abstractio;
#ifndef VT
#define VT uint64_t
#endif
constexpr size_t KS = 16, PAGE = 64;
using K    = std::array<uint8_t, KS>;
using V    = VT;
using Enc0 = encoders::EncodeSeparateEncoder<K, V, PAGE>;
using Dec0 = encoders::EncodeSeparateDecoder<K, V, PAGE>;
using Enc1 = encoders::EncryptEncoder<Enc0, PAGE>;
using Dec1 = encoders::DecryptDecoder<Dec0, PAGE>;
constexpr size_t CTRL = Enc0::kListControlValues;
using Entry = std::pair<K, std::vector<V>>;
template<class A> static bool same(const A& a, const A& b)
{
    bool e = true;
    for (size_t i = 0; i < a.size(); i++) e = e & (a[i] == b[i]);
    return e;
}
static std::vector<Entry> entries(size_t m, size_t maxlen)
{
    std::vector<Entry> r(m);
    for (size_t i = 0; i < m; i++) {
        vf_make_symbolic(r[i].first.data(), KS, "key");
        for (size_t j = 0; j < i; j++) vf_assume(!same(r[i].first, r[j].first));
        r[i].second.resize(vf_choice("length", maxlen + 1));
        for (auto& x : r[i].second) x = static_cast<V>(vf_sym("value", 8 * sizeof(V)));
    }
    return r;
}
template<class D> static std::vector<Entry> read_all(std::istream& in, D& d, bool& threw)
{
    std::vector<Entry> got;
    threw = throws_any([&] { aio::deserialize<K, std::vector<V>, D>(in, [&](K k, std::vector<V> v) { got.emplace_back(k, v); }, d); });
    return got;
}
template<class E> static std::string write_all(const std::vector<Entry>& es, E& e, std::vector<size_t>& ends)
{
    std::stringstream out;
    aio::KVSerializer<K, TethysStashSerializationValue<V>, E> s(out);
    for (auto& x : es) {
        details::Edge g(3, x.second.size() + CTRL);
        g.flow     = ends.empty() ? 0 : CTRL / 2; // only control values are in the buckets
        g.rec_flow = CTRL / 2 - g.flow;
        s.serialize(std::make_pair(x.first, TethysStashSerializationValue<V>(&x.second, TethysAssignmentInfo(g, IncomingEdge))), e);
        ends.push_back(out.str().size());
    }
    return out.str();
}
template<class E, class D> static void round_trip(E& e, D& d)
{
    auto es = entries(vf_param("entries", 2), vf_param("maxlen", 2));
    std::vector<size_t> ends;
    std::string data = write_all(es, e, ends);
    std::vector<Entry> kept; // empty lists need not be written
    std::vector<size_t> kends;
    for (size_t i = 0; i < es.size(); i++)
        if (es[i].second.size()) {
            kept.push_back(es[i]);
            kends.push_back(ends[i]);
        }
    size_t cut = vf_choice("cut", data.size() + 1);
    std::stringstream in(data.substr(0, cut));
    size_t whole = 0;
    bool   boundary = cut == 0;
    for (size_t i = 0; i < kept.size(); i++) {
        whole += kends[i] <= cut;
        boundary |= kends[i] == cut;
    }
    if (vf_choice("map", 2)) {
        std::map<K, std::vector<V>> m;
        bool threw = throws_any([&] { m = aio::deserialize_map<K, std::vector<V>, D>(in, d); });
        vf_check(threw == !boundary, "a stream that ends inside an entry is rejected, any other is not");
        if (!threw) {
            vf_check(m.size() == whole, "as many keys as were written");
            for (size_t i = 0; i < whole; i++) {
                auto it = m.find(kept[i].first);
                vf_check(it != m.end() && it->second.size() == kept[i].second.size() && same(it->second, kept[i].second), "every key with its list");
            }
            REACH("map read back");
        } else
            REACH("map truncated");
    } else {
        bool threw;
        auto got = read_all(in, d, threw);
        vf_check(threw == !boundary, "a stream that ends inside an entry is rejected, any other is not");
        vf_check(got.size() == whole, "exactly the whole entries are delivered");
        for (size_t i = 0; i < got.size(); i++)
            vf_check(same(got[i].first, kept[i].first) & (got[i].second.size() == kept[i].second.size() && same(got[i].second, kept[i].second)), "the entries are those written");
        REACH(threw ? "truncated" : "read back");
    }
}
template<class D> static void arbitrary(D& d)
{
    size_t n = vf_choice("size", vf_param("bytes", 42) + 1);
    std::string data(n, 0);
    if (n) vf_make_symbolic(&data[0], n, "input");
    std::stringstream in(data);
    bool threw;
    auto got = read_all(in, d, threw);
    std::string again;
    for (auto& x : got) {
        uint64_t l = x.second.size();
        again.append(reinterpret_cast<const char*>(x.first.data()), KS);
        again.append(reinterpret_cast<const char*>(&l), 8);
        for (V v : x.second) again.append(reinterpret_cast<const char*>(&v), sizeof(V));
    }
    vf_check(again.size() <= n, "no more than the input");
    bool e = true;
    for (size_t i = 0; i < again.size(); i++) e = e & (again[i] == data[i]);
    vf_check(e, "what is delivered is in the input");
    vf_check(threw == (again.size() < n), "input that is not a sequence of entries is rejected");
    REACH(threw ? "malformed" : "well formed");
}
// a plain serialiser, for the generic overloads
struct Rec { uint32_t k; uint16_t v; uint32_t get_key() const { return k; } uint16_t get_value() const { return v; } };
struct Plain {
    size_t n = 0;
    void serialize_key_value(std::ostream& o, uint32_t k, uint16_t v)
    {
        o.write(reinterpret_cast<const char*>(&k), 4);
        o.write(reinterpret_cast<const char*>(&v), 2);
        n++;
    }
    std::pair<uint32_t, uint16_t> deserialize_key_value(std::istream& in)
    {
        std::pair<uint32_t, uint16_t> r;
        in.read(reinterpret_cast<char*>(&r.first), 4);
        in.read(reinterpret_cast<char*>(&r.second), 2);
        if (!in) throw std::runtime_error("truncated");
        n++;
        return r;
    }
};
static void generic()
{
    const size_t M = 2;
    std::map<uint32_t, uint16_t> m;
    std::vector<Rec> recs;
    for (size_t i = 0; i < M; i++) {
        Rec r{uint32_t(vf_sym("key", 32)), uint16_t(vf_sym("value", 16))};
        for (auto& o : recs) vf_assume(o.k != r.k);
        recs.push_back(r);
        m[r.k] = r.v;
    }
    std::stringstream s;
    aio::KVSerializer<uint32_t, uint16_t, Plain> out(s);
    Plain p;
    size_t way = vf_choice("overload", 8);
    if (way == 0) out.serialize_iterable(m);
    if (way == 1) out.serialize_iterable(m, p);
    if (way == 2) out.serialize_iterable(recs);
    if (way == 3) out.serialize_iterable(recs, p);
    for (auto& r : recs) {
        if (way == 4) out.serialize(r.k, r.v);
        if (way == 5) out.serialize(std::make_pair(r.k, r.v));
        if (way == 6) out.serialize(r);
        if (way == 7) out.serialize(r.k, r.v, p);
    }
    vf_check(p.n == (way == 1 || way == 3 || way == 7 ? M : 0), "the given serialiser is used, once per entry");
    std::map<uint32_t, uint16_t> got;
    Plain q;
    size_t calls = 0;
    auto cb = [&](uint32_t k, uint16_t v) { got[k] = v; calls++; };
    size_t rd = vf_choice("reader", 4);
    if (rd == 0) got = aio::deserialize_map<uint32_t, uint16_t, Plain>(s);
    if (rd == 1) got = aio::deserialize_map<uint32_t, uint16_t, Plain>(s, q);
    if (rd == 2) aio::deserialize<uint32_t, uint16_t, Plain>(s, cb);
    if (rd == 3) aio::deserialize<uint32_t, uint16_t, Plain>(s, cb, q);
    vf_check(rd < 2 || calls == M, "every entry is delivered once");
    vf_check(got.size() == M, "every entry is read back");
    for (auto& r : recs) {
        auto it = got.find(r.k);
        vf_check(it != got.end() && it->second == r.v, "with its value");
    }
    REACH("generic");
}
extern "C" void vf_entry()
{
    std::array<uint8_t, 32> ck{};
    Enc0 e0; Dec0 d0; Enc1 e1(ck); Dec1 d1(ck);
    switch (vf_param("mode", 0)) {
    case 0: if (vf_choice("encrypted", 2)) round_trip(e1, d1); else round_trip(e0, d0); break;
    case 1: if (vf_choice("encrypted", 2)) arbitrary(d1); else arbitrary(d0); break;
    case 2: generic(); break;
    default: { // a stash file that does not exist
        std::ifstream f("/no/stash");
        vf_check((aio::deserialize_map<K, std::vector<V>, Dec0>(f, d0).empty()), "no file, no entries");
        REACH("no file");
    }
    }
}
