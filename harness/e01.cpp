// E01: encode an arbitrary allocation of lists into two buckets each plus the stash, decode, compare. -DENCRYPTED (E02): the
// same through the encrypting encoder, at arbitrary table positions, with an arbitrary keystream per key and nonce.
#include "common.hpp"
#include <array>
#include <cstring>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <vf_streams.hpp>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/abstractio/kv_serializer.hpp>
using namespace sse::tethys;
#ifndef KS
#define KS 16
#endif
#ifndef PAGE
#define PAGE 64
#endif
using K = std::array<uint8_t, KS>;
#ifndef VT
#define VT uint64_t
#endif
using V = VT;
using Enc0 = encoders::EncodeSeparateEncoder<K, V, PAGE>;
using Dec0 = encoders::EncodeSeparateDecoder<K, V, PAGE>;
#ifdef ENCRYPTED
using Enc = encoders::EncryptEncoder<Enc0, PAGE>;
using Dec = encoders::DecryptDecoder<Dec0, PAGE>;
#else
using Enc = Enc0;
using Dec = Dec0;
#endif
constexpr size_t CTRL = Enc::kListControlValues;
constexpr size_t B    = PAGE / sizeof(V); // bucket capacity
struct List { K k; std::vector<V> v; size_t a, b, flow, rec; };
// nonces used for encryption, one keystream each
struct Use { uint8_t nonce[8]; uint8_t ks[PAGE]; };
static std::vector<Use>* uses;
static bool encrypting;
static bool bytes_eq(const uint8_t* a, const uint8_t* b, size_t n)
{
    bool e = true;
    for (size_t i = 0; i < n; i++) e = e & (a[i] == b[i]);
    return e;
}
static K secret;
static void stream(uint8_t* o, uint64_t len, const uint8_t* nonce, const uint8_t* key)
{
    vf_check(len == PAGE, "whole buckets are encrypted");
    vf_check(bytes_eq(key, secret.data(), KS) && bytes_eq(key + 32 - KS, secret.data(), KS), "the encryption key is used");
    for (auto& u : *uses)
        if (bytes_eq(u.nonce, nonce, 8)) {
            vf_check(!encrypting, "no two buckets are encrypted under the same nonce");
            memcpy(o, u.ks, len);
            return;
        }
    Use u;
    memcpy(u.nonce, nonce, 8);
    vf_make_symbolic(u.ks, PAGE, "keystream");
    memcpy(o, u.ks, len);
    uses->push_back(u);
}
static size_t count(const std::vector<V>& l, V x)
{
    size_t n = 0;
    for (V y : l) n += x == y;
    return n;
}
extern "C" void vf_entry()
{
    const size_t M = vf_param("lists", 2), SAME = vf_param("samepair", 0), Q = vf_param("absent", 1), MIN = vf_param("min", 0), REST = vf_param("rest", 1);
    static_assert(B > CTRL, "page too small");
    uses = new std::vector<Use>;
    vf_make_symbolic(secret.data(), KS, "cipher key");
    std::vector<List> ls(M);
    size_t load[4] = {};
    for (size_t i = 0; i < M; i++) {
        List& l = ls[i];
        vf_make_symbolic(l.k.data(), KS, "key");
        for (size_t j = 0; j < i; j++) vf_assume(!bytes_eq(l.k.data(), ls[j].k.data(), KS));
        l.v.resize(MIN + vf_choice("length", B - CTRL + 1 - MIN));
        for (auto& x : l.v) x = static_cast<V>(vf_sym("value", 8 * sizeof(V)));
        size_t cap = l.v.size() + CTRL;
        l.a = i && !SAME ? vf_choice("bucket 0", 2) : 0;
        l.b = 2 + (i && !SAME ? vf_choice("bucket 1", 2) : 0);
        l.flow = vf_choice("in bucket 0", cap + 1);
        l.rec  = REST ? vf_choice("in bucket 1", cap - l.flow + 1) : cap - l.flow;
        load[l.a] += l.flow;
        load[l.b] += l.rec;
        if (load[l.a] > B || load[l.b] > B) vf_skip();
    }
    uint64_t pos[4];
    for (size_t t = 0; t < 4; t++) {
        pos[t] = vf_param("positions", 0) ? vf_sym("position", 64) : t;
        for (size_t u = 0; u < t; u++) vf_assume(pos[t] != pos[u]);
    }
#ifdef ENCRYPTED
    vf_chacha::stream() = stream;
    std::array<uint8_t, 32> ck;
    for (size_t i = 0; i < KS; i++) ck[i] = ck[32 - KS + i] = secret[i];
    Enc e(ck);
    Dec d(ck);
#else
    Enc e;
    Dec d;
#endif
    auto edge = [&](const List& l) { // as the allocator leaves it
        details::Edge g(7, l.v.size() + CTRL);
        g.flow = l.flow;
        g.rec_flow = l.rec;
        return g;
    };
    std::array<uint8_t, PAGE> bucket[4];
    const size_t T = 4;
    encrypting = true;
    for (size_t t = 0; t < T; t++) {
        std::unique_ptr<uint8_t[]> buf(new uint8_t[PAGE]); // writes outside are violations
        memset(buf.get(), 0xFF, PAGE);
        size_t w = e.start_block_encoding(buf.get(), pos[t]);
        for (int out = 0; out < 2; out++)
            for (auto& l : ls)
                if ((out ? l.a : l.b) == t) {
                    size_t n = e.encode(buf.get() + w, pos[t], l.k, l.v, TethysAssignmentInfo(edge(l), out ? OutgoingEdge : IncomingEdge));
                    vf_check(n <= (out ? l.flow : l.rec) * sizeof(V), "an encoded part is no longer than the space assigned to it");
                    w += n;
                }
        w += e.finish_block_encoding(buf.get(), pos[t], w, PAGE - w);
        vf_check(w == PAGE, "the bucket is filled exactly");
        memcpy(bucket[t].data(), buf.get(), PAGE);
    }
    encrypting = false;
    std::stringstream stash;
    for (auto& l : ls)
        if (l.flow + l.rec < l.v.size() + CTRL) {
            sse::abstractio::KVSerializer<K, TethysStashSerializationValue<V>, Enc> s(stash);
            s.serialize(l.k, TethysStashSerializationValue<V>(&l.v, TethysAssignmentInfo(edge(l), IncomingEdge)), e);
            REACH("stashed");
        }
    auto m = sse::abstractio::deserialize_map<K, std::vector<V>, Dec>(stash, d);
    for (auto& l : ls) {
        auto r = d.decode_buckets(l.k, bucket[l.a], pos[l.a], bucket[l.b], pos[l.b]);
        auto s = m.find(l.k);
        if (s != m.end()) r.insert(r.end(), s->second.begin(), s->second.end());
        vf_check(r.size() == l.v.size(), "as many elements as in the list");
        bool ok = true;
        for (V x : l.v) ok = ok & (count(r, x) == count(l.v, x));
        vf_check(ok, "exactly the elements of the list");
        if (r.size()) REACH("decoded");
    }
    if (Q) {
        K q;
        vf_make_symbolic(q.data(), KS, "other key");
        for (auto& l : ls) vf_assume(!bytes_eq(q.data(), l.k.data(), KS));
        for (size_t a = 0; a < 2; a++) {
            auto r = d.decode_buckets(q, bucket[a], pos[a], bucket[2 + a], pos[2 + a]);
            vf_check(r.empty(), "nothing is decoded for another key");
        }
        vf_check(m.find(q) == m.end(), "nothing is stashed for another key");
    }
    REACH("done");
}
