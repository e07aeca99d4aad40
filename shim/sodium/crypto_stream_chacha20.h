// ChaCha20 as an arbitrary (fixed) keystream per (key, nonce).
#pragma once
#include <sse/crypto/vf_crypto.hpp>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
namespace vf_chacha {
using hook_type = void (*)(const uint8_t* nonce, const uint8_t* key, bool xored, uint64_t len); // observes every use
inline hook_type& hook() { static hook_type h = nullptr; return h; }
using stream_type = void (*)(uint8_t* o, uint64_t len, const uint8_t* nonce, const uint8_t* key); // replaces the keystream
inline stream_type& stream() { static stream_type f = nullptr; return f; }
inline void keystream(uint8_t* o, uint64_t len, const uint8_t* n, const uint8_t* k)
{
    if (stream()) { stream()(o, len, n, k); return; }
    sse::crypto::model::Mix m(0x1111);
    m.bytes(k, 32);
    m.bytes(n, 8);
    m.stream(0, len, o);
}
}
inline int crypto_stream_chacha20(unsigned char* c, unsigned long long len, const unsigned char* n, const unsigned char* k)
{
    if (vf_chacha::hook()) vf_chacha::hook()(n, k, false, len);
    vf_chacha::keystream(c, len, n, k);
    return 0;
}
inline int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long len, const unsigned char* n, const unsigned char* k)
{
    if (vf_chacha::hook()) vf_chacha::hook()(n, k, true, len);
    std::vector<uint8_t> s(len);
    vf_chacha::keystream(s.data(), len, n, k);
    for (unsigned long long i = 0; i < len; i++) c[i] = m[i] ^ s[i];
    return 0;
}
