// Shared generators: leaf hashes, deletion sets, proof views, comparison helpers.
#pragma once
#include "core.h"
#include "model.h"
#include <memory>

namespace vf {
using utreexo::BatchProof;
using utreexo::Hash;
using utreexo::Leaf;
using utreexo::Pollard;
using utreexo::RamForest;
using utreexo::UndoBatch;
using model::hex;
using model::Model;

// How the leaf hashes of a case look.
struct LeafGen {
    int style = 0, at = 0;
    uint64_t next = 0;
    void init(Ctx& c)
    {
        style = (int)c.weighted({5, 2, 2, 2});
        if (style == 3) at = (c.chance(1, 3) ? 29 : (int)c.below(30)) - 30 * (int)c.below(2); // negative: last byte first
    }
    // For large forests: hashes that agree in 8 bytes make the library's hash maps quadratic.
    void spread()
    {
        if (style >= 2) style = 0;
    }
    Hash make(uint64_t id) const
    {
        Hash h{};
        uint8_t b[8];
        for (int i = 0; i < 8; ++i) b[i] = (uint8_t)(id >> (8 * i));
        switch (style) {
        case 0: // realistic: uniformly distributed
            ref_sha512_256(h.data(), b, 8);
            break;
        case 1: // like the repository's tests: counter in front, mostly zeros
            for (int i = 0; i < 4; ++i) h[i] = b[i];
            h[4] = 0xff;
            break;
        case 3: // all leaves share all but three bytes
            h.fill((uint8_t)(at * 7));
            for (int i = 0; i < 3; ++i) h[at < 0 ? at + 32 - i : at + i] = b[i];
            break;
        default: // all leaves share their first 8 bytes
            for (int i = 0; i < 8; ++i) h[i] = 0x11;
            for (int i = 0; i < 8; ++i) h[24 + i] = b[i];
            h[31] = 0x77;
            break;
        }
        return h;
    }
    Hash fresh() { return make(++next); }
};

inline std::string show(const std::vector<uint64_t>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 200; ++i) s += (i ? " " : "") + std::to_string(v[i]);
    return s + (v.size() > 200 ? " ... " + std::to_string(v.size()) + " in all]" : "]");
}
inline std::string show(const std::vector<Hash>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 100; ++i) s += (i ? " " : "") + hex(v[i], 4);
    return s + (v.size() > 100 ? " ... " + std::to_string(v.size()) + " in all]" : "]");
}

// A set of leaf positions below n, sorted. Covers: none, one, all, dense, sparse,
// runs, aligned subtrees, sibling pairs, ends.
inline std::vector<uint64_t> gen_targets(Ctx& c, uint64_t n, bool allow_empty = true)
{
    std::set<uint64_t> t;
    if (n == 0) return {};
    size_t kind = c.weighted({3, 4, 4, 2, 3, 3, 2, 2, 1});
    switch (kind) {
    case 0:
        break;
    case 1: t.insert(c.below(n)); break;
    case 2: { // a handful
        uint64_t k = 1 + c.below(std::min<uint64_t>(n, 6));
        for (uint64_t i = 0; i < k; ++i) t.insert(c.below(n));
        break;
    }
    case 3: { // random density
        uint64_t den = 2 + c.below(7), num = 1 + c.below(den - 1);
        uint64_t s = c.bits64();
        for (uint64_t i = 0; i < n; ++i)
            if (mix(s, i) % den < num) t.insert(i);
        break;
    }
    case 4: { // run
        uint64_t a = c.below(n), len = 1 + c.small(n - a);
        for (uint64_t i = a; i < a + len && i < n; ++i) t.insert(i);
        break;
    }
    case 5: { // aligned subtrees plus strays
        uint64_t k = 1 + c.below(3);
        for (uint64_t j = 0; j < k; ++j) {
            uint64_t rows = model::rows_for(n);
            uint64_t lg = n <= 256 ? c.below(5) : c.chance(1, 2) ? rows - 1 - c.below(4) : c.below(rows);
            uint64_t w = 1ull << lg;
            uint64_t a = (c.below(n) / w) * w;
            for (uint64_t i = a; i < a + w && i < n; ++i) t.insert(i);
        }
        if (c.chance(1, 2)) t.insert(c.below(n));
        break;
    }
    case 6: { // suffix
        uint64_t len = 1 + c.small(n);
        for (uint64_t i = n - len; i < n; ++i) t.insert(i);
        break;
    }
    case 7: { // all but a few
        for (uint64_t i = 0; i < n; ++i) t.insert(i);
        uint64_t k = c.below(4);
        for (uint64_t i = 0; i < k; ++i) t.erase(c.below(n));
        break;
    }
    case 8: // everything
        for (uint64_t i = 0; i < n; ++i) t.insert(i);
        break;
    }
    if (t.empty() && !allow_empty) t.insert(c.below(n));
    return {t.begin(), t.end()};
}

// Number of leaves a block adds.
inline uint64_t gen_add_count(Ctx& c, uint64_t cap)
{
    switch (c.weighted({2, 5, 3, 1})) {
    case 0: return 0;
    case 1: return std::min<uint64_t>(cap, 1 + c.below(8));
    case 2: return std::min<uint64_t>(cap, c.small(40));
    default: {
        uint64_t p = 1ull << c.below(7); // around powers of two
        uint64_t k = p + c.below(3);
        return std::min<uint64_t>(cap, k ? k - 1 : 0);
    }
    }
}

template <class T>
std::vector<T> subset(Ctx& c, const std::vector<T>& v, uint64_t num, uint64_t den)
{
    std::vector<T> o;
    for (auto& x : v)
        if (c.chance(num, den)) o.push_back(x);
    return o;
}

inline std::vector<Hash> hashes_at(const Model& m, const std::vector<uint64_t>& pos)
{
    std::vector<Hash> o;
    for (auto p : pos) o.push_back(m.leaves[p]);
    return o;
}
inline std::vector<Hash> roots_of(const utreexo::Accumulator& a)
{
    std::vector<Hash> r;
    a.Roots(r);
    return r;
}

template <class T>
void shuffle(Ctx& c, std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; --i) {
        size_t j = i - 1 - (size_t)c.below(i); // choice 0 keeps the order
        std::swap(v[i - 1], v[j]);
    }
}

inline void check_forest(const RamForest& f, const Model& m, const char* when)
{
    REQUIRE(f.NumLeaves() == m.n(), when << ": forest reports " << f.NumLeaves() << " leaves, history gives " << m.n());
    for (uint64_t i = 0; i < m.n(); ++i)
        REQUIRE(f.GetLeaf(i) == m.leaves[i], when << ": forest leaf " << i << " is " << hex(f.GetLeaf(i)) << ", expected " << hex(m.leaves[i]));
    auto r = roots_of(f);
    REQUIRE(r == m.roots(), when << ": forest roots " << show(r) << " differ from the reference " << show(m.roots()));
}
inline void check_roots(const utreexo::Accumulator& p, const Model& m, const char* when)
{
    REQUIRE(p.NumLeaves() == m.n(), when << ": accumulator reports " << p.NumLeaves() << " leaves, history gives " << m.n());
    auto r = roots_of(p);
    REQUIRE(r == m.roots(), when << ": accumulator roots " << show(r) << " differ from the reference " << show(m.roots()));
}
inline bool is_subsequence(const std::vector<Hash>& a, const std::vector<Hash>& b)
{
    size_t j = 0;
    for (auto& x : b)
        if (j < a.size() && a[j] == x) ++j;
    return j == a.size();
}

} // namespace vf
