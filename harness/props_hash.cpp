// Hashing.
#include "world.h"
#include <crypto/sha512.h>
#include "midstates.h"
using namespace vf;
extern "C" void ref_resume(uint8_t* out, const uint64_t* st, uint64_t from, const uint8_t* d, size_t n);

// A message no table of test vectors has: byte i is i mod 251, up to a bit more than 4 GB.
static void long_message(Ctx& c)
{
    const size_t CHUNK = 251u << 14; // a multiple of the period
    static std::vector<uint8_t> pattern;
    if (pattern.empty()) {
        pattern.resize(CHUNK + 4096 + 251);
        for (size_t i = 0; i < pattern.size(); ++i) pattern[i] = (uint8_t)(i % 251);
    }
    size_t k = c.weighted({2, 2, 4, 1, 1});
    const Midstate& m = MIDSTATES[k];
    uint64_t tail = c.chance(1, 2) ? c.below(300) : c.below(8000);
    int v = (int)c.below(2);
    uint64_t len = m.len + tail, at = 0;
    LOG(c, "message of " << len << " bytes, SHA-512" << (v ? "/256" : ""));
    utreexo::CSHA512 h(v ? utreexo::CSHA512::OUTPUT_SIZE_256 : utreexo::CSHA512::OUTPUT_SIZE);
    int odd = (int)c.below(6);
    while (at < len) {
        uint64_t piece = odd > 0 ? 1 + c.below(3000) : CHUNK;
        if (odd > 0) --odd;
        if (piece > len - at) piece = len - at;
        h.Write(pattern.data() + at % 251, piece);
        at += piece;
    }
    REQUIRE(h.Size() == len, "hasher reports " << h.Size() << " bytes written, " << len << " were");
    std::array<uint8_t, 64> want, got{};
    std::vector<uint8_t> rest(tail);
    for (uint64_t i = 0; i < tail; ++i) rest[i] = (uint8_t)((m.len + i) % 251);
    ref_resume(want.data(), m.st[v], m.len, rest.data(), tail);
    if (v) {
        h.Finalize256(got.data());
        std::fill(want.begin() + 32, want.end(), 0);
    } else {
        h.Finalize(got.data());
    }
    REQUIRE(want == got, "the digest of " << len << " bytes is wrong");
    c.label(len >= (1ull << 32) ? "message over 4 GB" : len >= (1ull << 29) ? "message over 512 MB" : "message over 1 MB");
    c.nontrivial();
}

PROPERTY(C16, "case = a random message of 0-1500 bytes (lengths around block boundaries favoured) cut into random pieces, hashed with SHA-512 and SHA-512/256 objects, fresh, reset or used for another message before, "
              "against an independent implementation; and two random nodes merged by a forest and a pollard. One case in 70000 is a message of 1 MB to 4 GB, decided by precomputed states of the reference. Non-trivial: more than one block in more than one piece")
{
    if (c.rare(70000)) return long_message(c);
    size_t len;
    switch (c.weighted({3, 3, 2})) {
    case 0: len = c.below(300); break;
    case 1: {
        static const int edges[] = {0, 55, 56, 64, 111, 112, 113, 127, 128, 129, 239, 240, 241, 255, 256, 257, 383, 384};
        len = edges[c.below(18)];
        break;
    }
    default: len = c.below(1500); break;
    }
    std::vector<uint8_t> msg(len);
    uint64_t seed = c.bits64();
    bool flat = c.chance(1, 8);
    for (size_t i = 0; i < len; ++i) msg[i] = flat ? (uint8_t)seed : (uint8_t)mix(seed, i);
    std::vector<size_t> cuts;
    auto feed = [&](utreexo::CSHA512& h) {
        size_t i = 0;
        cuts.clear();
        while (i < len) {
            size_t k = c.chance(1, 3) ? len - i : 1 + c.small(len - i);
            if (c.chance(1, 10)) k = 0;
            if (k > len - i) k = len - i;
            cuts.push_back(k);
            h.Write(msg.data() + i, k);
            i += k;
            REQUIRE(h.Size() == i, "hasher reports " << h.Size() << " bytes written, " << i << " were");
            if (cuts.size() > 400) {
                h.Write(msg.data() + i, len - i);
                break;
            }
        }
    };
    std::array<uint8_t, 64> want, got;
    ref_sha512(want.data(), msg.data(), len);
    {
        utreexo::CSHA512 h;
        if (c.chance(1, 3)) {
            auto junk = c.below(300);
            std::vector<uint8_t> j(junk, 7);
            h.Write(j.data(), junk);
            if (c.chance(1, 2)) h.Finalize(got.data());
            h.Reset();
            c.label("reset");
        }
        if (len && c.chance(1, 6)) { // two messages with the same beginning, from copies of the object
            size_t k = c.below(len);
            h.Write(msg.data(), k);
            utreexo::CSHA512 h2 = h;
            std::vector<uint8_t> other(msg.begin(), msg.begin() + k);
            for (size_t i = c.below(300); i > 0; --i) other.push_back((uint8_t)i);
            h2.Write(other.data() + k, other.size() - k);
            h.Write(msg.data() + k, len - k);
            h2.Finalize(got.data());
            std::array<uint8_t, 64> want2;
            ref_sha512(want2.data(), other.data(), other.size());
            REQUIRE(want2 == got, "SHA-512 of " << other.size() << " bytes is wrong in a copy of an object that had hashed " << k << " of them");
            c.label("copied");
        } else {
            feed(h);
        }
        h.Finalize(got.data());
        REQUIRE(want == got, "SHA-512 of " << len << " bytes in " << cuts.size() << " pieces is wrong");
    }
    Hash w2, g2;
    ref_sha512_256(w2.data(), msg.data(), len);
    {
        utreexo::CSHA512 h(utreexo::CSHA512::OUTPUT_SIZE_256);
        feed(h);
        h.Finalize256(g2.data());
        REQUIRE(w2 == g2, "SHA-512/256 of " << len << " bytes in " << cuts.size() << " pieces is wrong");
    }
    LOG(c, len << " bytes, last cut into " << cuts.size() << " pieces");
    // the hash of an inner node
    Hash l, r;
    for (int i = 0; i < 32; ++i) {
        l[i] = (uint8_t)mix(seed, 5000 + i);
        r[i] = (uint8_t)mix(seed, 6000 + i);
    }
    if (l != r) {
        RamForest f(0);
        Pollard p(0);
        REQUIRE(f.Add({{l, false}, {r, false}}) && p.Modify({{l, false}, {r, true}}, {}), "add");
        std::vector<Hash> wr = {model::parent(l, r)};
        REQUIRE(roots_of(f) == wr && roots_of(p) == wr, "the parent of two leaves is not SHA-512/256 of their concatenation");
    }
    if (len > 128 && cuts.size() > 1) c.nontrivial();
}

