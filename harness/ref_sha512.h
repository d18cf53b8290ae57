// Independent SHA-512 and SHA-512/256 (FIPS 180-4), written from the standard's
// round-by-round definition; shares nothing with the code under test. The
// constants were computed as the fractional parts of square/cube roots of primes,
// and the SHA-512/256 initial value is derived at start-up by the standard's
// SHA-512/t generation function.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
using Bytes = std::vector<uint8_t>;
static const uint64_t K[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull,
    0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull,
    0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull,
    0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull,
    0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull,
    0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull,
    0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull,
    0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull,
    0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull,
    0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull,
    0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull,
    0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull,
    0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull,
    0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull,
    0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull,
    0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull,
    0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull,
    0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull,
    0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull,
    0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull,
};
static const uint64_t H0[8] = {
    0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull,
};
inline uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
inline void block(uint64_t st[8], const uint8_t* p)
{
    uint64_t w[80];
    for (int i = 0; i < 16; ++i) {
        w[i] = 0;
        for (int j = 0; j < 8; ++j) w[i] = (w[i] << 8) | p[i * 8 + j];
    }
    for (int i = 16; i < 80; ++i) {
        uint64_t s0 = rotr(w[i - 15], 1) ^ rotr(w[i - 15], 8) ^ (w[i - 15] >> 7);
        uint64_t s1 = rotr(w[i - 2], 19) ^ rotr(w[i - 2], 61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint64_t v[8];
    memcpy(v, st, sizeof v);
    for (int i = 0; i < 80; ++i) {
        uint64_t S1 = rotr(v[4], 14) ^ rotr(v[4], 18) ^ rotr(v[4], 41);
        uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
        uint64_t t1 = v[7] + S1 + ch + K[i] + w[i];
        uint64_t S0 = rotr(v[0], 28) ^ rotr(v[0], 34) ^ rotr(v[0], 39);
        uint64_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        uint64_t t2 = S0 + mj;
        for (int k = 7; k > 0; --k) v[k] = v[k - 1];
        v[4] += t1;
        v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) st[i] += v[i];
}
inline std::array<uint8_t, 64> digest(const uint64_t iv[8], const uint8_t* data, size_t len, uint64_t before = 0)
{
    uint64_t st[8];
    memcpy(st, iv, sizeof st);
    size_t off = 0;
    for (; off + 128 <= len; off += 128) block(st, data + off);
    uint8_t tail[256] = {0};
    size_t rest = len - off;
    if (rest) memcpy(tail, data + off, rest);
    tail[rest] = 0x80;
    size_t total = rest + 17 <= 128 ? 128 : 256;
    uint64_t bits = (before + len) * 8;
    for (int j = 0; j < 8; ++j) tail[total - 1 - j] = (uint8_t)(bits >> (8 * j));
    for (size_t o = 0; o < total; o += 128) block(st, tail + o);
    std::array<uint8_t, 64> out;
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j) out[i * 8 + j] = (uint8_t)(st[i] >> (56 - 8 * j));
    return out;
}
inline std::array<uint8_t, 64> sha512(const uint8_t* d, size_t n) { return digest(H0, d, n); }
inline const uint64_t* iv256()
{
    static uint64_t iv[8];
    static bool init = false;
    if (!init) {
        uint64_t h[8];
        for (int i = 0; i < 8; ++i) h[i] = H0[i] ^ 0xa5a5a5a5a5a5a5a5ull;
        auto o = digest(h, (const uint8_t*)"SHA-512/256", 11);
        for (int i = 0; i < 8; ++i) {
            iv[i] = 0;
            for (int j = 0; j < 8; ++j) iv[i] = (iv[i] << 8) | o[i * 8 + j];
        }
        init = true;
    }
    return iv;
}
inline std::array<uint8_t, 32> sha512_256(const uint8_t* d, size_t n)
{
    auto o = digest(iv256(), d, n);
    std::array<uint8_t, 32> r;
    memcpy(r.data(), o.data(), 32);
    return r;
}
} // namespace ref
