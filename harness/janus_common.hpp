// Shared by the Janus harnesses: an ideal PRF for the tags, whose inputs contain symbolic document identifiers.
#pragma once
#include "common.hpp"
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>
using namespace sse::janus;
using Docs = std::vector<uint64_t>;
struct TagInput { std::vector<uint8_t> key, in; };
inline std::vector<TagInput>& tag_inputs() { static auto* v = new std::vector<TagInput>; return *v; }
// every input gets an output of its own, equal inputs the same one (one path per equality pattern)
inline bool tag_prf(const uint8_t* key, const uint8_t* in, size_t len, uint8_t* out, size_t n)
{
    if (n != sse::crypto::punct::kTagSize || len < 18 || in[16] != '|' || in[17] != '|') return false;
    auto& v = tag_inputs();
    size_t i = 0;
    for (; i < v.size(); i++) {
        if (v[i].in.size() != len) continue;
        bool eq = true;
        for (size_t j = 0; j < len; j++) eq = eq & (v[i].in[j] == in[j]);
        for (size_t j = 0; j < 32; j++) eq = eq & (v[i].key[j] == key[j]);
        if (eq) break;
    }
    if (i == v.size()) v.push_back({std::vector<uint8_t>(key, key + 32), std::vector<uint8_t>(in, in + len)});
    memset(out, 0xa5, n);
    out[0] = static_cast<uint8_t>(i);
    out[n - 1] = static_cast<uint8_t>(7 * i + 3); // (tags differ at both ends)
    return true;
}
inline size_t count(const Docs& l, uint64_t x)
{
    size_t n = 0;
    for (uint64_t y : l) n += x == y;
    return n;
}
inline bool same_docs(const Docs& r, const Docs& v)
{
    if (r.size() != v.size()) return false;
    bool ok = true;
    for (uint64_t x : v) ok = ok & (count(r, x) == count(v, x));
    return ok;
}
inline sse::crypto::Key<JanusClient::kPRFKeySize> master()
{
    std::array<uint8_t, JanusClient::kPRFKeySize> k;
    k.fill(9);
    return sse::crypto::Key<JanusClient::kPRFKeySize>(k.data());
}
inline std::unique_ptr<JanusClient> client() { return std::make_unique<JanusClient>("/counters", "/add", "/del", master()); }
inline std::unique_ptr<JanusServer> server() { return std::make_unique<JanusServer>("/db-add", "/db-del", "/cache"); }
