// Reference for forests of any size: only the nodes near the touched leaves are
// materialised, everything else is an opaque subtree with an arbitrary hash.
#pragma once
#include "world.h"

namespace vf {
class Sparse
{
public:
    uint64_t n = 0;
    std::map<model::Node, Hash> at; // known nodes
    std::map<int, Hash> root;       // row -> hash

    std::vector<Hash> roots() const
    {
        std::vector<Hash> o;
        for (auto it = root.rbegin(); it != root.rend(); ++it) o.push_back(it->second);
        return o;
    }
    // Remove sorted targets whose proof nodes are all known. Only roots are
    // carried over; inner nodes are forgotten.
    void remove(const std::vector<uint64_t>& targets)
    {
        using Slot = std::optional<Hash>;
        std::map<uint64_t, Slot> changed; // slots of this row that are not as before
        for (uint64_t t : targets) changed[t] = std::nullopt;
        std::map<int, Hash> next;
        for (int row = 0; row < 64 && (n >> row); ++row) {
            uint64_t slots = n >> row;
            Slot r;
            auto value = [&](uint64_t i) -> Slot {
                auto it = changed.find(i);
                if (it != changed.end()) return it->second;
                if (model::is_root(n, {row, i})) return root.at(row);
                return at.at({row, i});
            };
            if (slots & 1) r = value(slots - 1);
            changed.erase(slots - (slots & 1));
            std::set<uint64_t> pairs;
            for (auto& [i, s] : changed) pairs.insert(i / 2);
            std::vector<uint64_t> lone;
            for (uint64_t p : pairs) {
                bool l = value(2 * p).has_value(), rr = value(2 * p + 1).has_value();
                if (l != rr) lone.push_back(l ? 2 * p + 1 : 2 * p);
            }
            size_t k = 0;
            for (; k + 1 < lone.size(); k += 2) {
                changed[lone[k]] = value(lone[k + 1] ^ 1);
                changed[lone[k + 1] ^ 1] = std::nullopt;
            }
            if (k < lone.size()) {
                if (r) {
                    changed[lone[k]] = r;
                    r = std::nullopt;
                } else {
                    r = value(lone[k] ^ 1);
                    changed[lone[k] ^ 1] = std::nullopt;
                }
            }
            if (r) next[row] = *r;
            std::map<uint64_t, Slot> up;
            for (uint64_t p : pairs) {
                Slot l = value(2 * p), rr = value(2 * p + 1);
                if (l)
                    up[p] = model::parent(*l, *rr);
                else
                    up[p] = std::nullopt;
            }
            changed.swap(up);
        }
        root.swap(next);
        at.clear();
        n -= targets.size();
    }
    void add(const Hash& h)
    {
        Hash x = h;
        int row = 0;
        for (; (n >> row) & 1; ++row) {
            x = model::parent(root.at(row), x);
            root.erase(row);
        }
        root[row] = x;
        ++n;
        at.clear();
    }
    // Invent a forest of num leaves in which the targets have the given hashes.
    static Sparse invent(Ctx& c, uint64_t num, const std::vector<uint64_t>& targets, const std::vector<Hash>& hashes, const LeafGen& g)
    {
        Sparse s;
        s.n = num;
        uint64_t id = 1000000;
        for (size_t i = 0; i < targets.size(); ++i) s.at[{0, targets[i]}] = hashes[i];
        std::vector<model::Node> computed;
        for (auto x : model::proof_nodes(num, targets, &computed)) s.at[x] = g.make(++id);
        std::sort(computed.begin(), computed.end());
        for (auto x : computed) {
            if (x.row == 0) continue;
            s.at[x] = model::parent(s.at.at({x.row - 1, 2 * x.index}), s.at.at({x.row - 1, 2 * x.index + 1}));
        }
        for (int r = 0; r < 64; ++r) {
            if (!((num >> r) & 1)) continue;
            model::Node x{r, (num >> r) - 1};
            auto it = s.at.find(x);
            s.root[r] = it != s.at.end() ? it->second : g.make(++id);
        }
        (void)c;
        return s;
    }
    std::vector<Hash> proof(const std::vector<uint64_t>& t) const
    {
        std::vector<Hash> o;
        for (auto x : model::proof_nodes(n, t)) o.push_back(at.at(x));
        return o;
    }
};
// Number of leaves: any magnitude up to 2^62, often around powers of two.
inline uint64_t gen_n(Ctx& c, int max_bits, uint64_t least)
{
    uint64_t n;
    switch (c.weighted({3, 3, 2, 2})) {
    case 0: n = c.below(70); break;
    case 1: n = c.bits64() >> (64 - max_bits + c.below(max_bits)); break;
    case 2: {
        uint64_t p = 1ull << c.below(max_bits);
        n = p - 1 + c.below(3);
        break;
    }
    default: { // few set bits
        n = 0;
        for (uint64_t i = 1 + c.below(5); i > 0; --i) n |= 1ull << c.below(max_bits);
        break;
    }
    }
    return std::max(n, least);
}
inline std::vector<uint64_t> gen_sparse_targets(Ctx& c, uint64_t n)
{
    std::set<uint64_t> t;
    uint64_t k = c.below(7);
    for (uint64_t i = 0; i < k; ++i) {
        uint64_t x;
        switch (c.weighted({3, 3, 2})) {
        case 0: x = c.below(n); break;
        case 1: x = t.empty() ? c.below(n) : (*t.begin() ^ (1ull << c.small(62))); break; // near another one
        default: x = n - 1 - c.small(std::min<uint64_t>(n, 64)); break;
        }
        if (x < n) t.insert(x);
        if (c.chance(1, 3) && (x ^ 1) < n && x < n) t.insert(x ^ 1);
    }
    return {t.begin(), t.end()};
}

} // namespace vf
