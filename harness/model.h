// Reference model of the accumulator, written from its definition and sharing no
// code with the library: a forest is the ordered list of its leaves, cut from the
// left into perfect trees of decreasing size; everything else is derived.
#pragma once
#include "include/utreexo.h"
#include <algorithm>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" void ref_parent(uint8_t* out, const uint8_t* l, const uint8_t* r);
extern "C" void ref_sha512(uint8_t* out, const uint8_t* d, size_t n);
extern "C" void ref_sha512_256(uint8_t* out, const uint8_t* d, size_t n);

namespace model {
using Hash = std::array<uint8_t, 32>;

inline Hash parent(const Hash& l, const Hash& r)
{
    Hash o;
    ref_parent(o.data(), l.data(), r.data());
    return o;
}

inline std::string hex(const Hash& h, int bytes = 6)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for (int i = 0; i < bytes; ++i) {
        s += d[h[i] >> 4];
        s += d[h[i] & 15];
    }
    return s;
}

// Number of rows above the bottom one: smallest R with 2^R >= n.
inline int rows_for(uint64_t n)
{
    int r = 0;
    while (r < 64 && ((unsigned __int128)1 << r) < n) ++r;
    return r;
}
// Position numbering: bottom row 0..2^R-1, next row 2^R.., and so on.
inline uint64_t position(int R, int row, uint64_t index)
{
    uint64_t p = 0;
    for (int k = 0; k < row; ++k) p += 1ull << (R - k);
    return p + index;
}
// Inverse; false if pos is not below 2^(R+1)-1.
inline bool locate(int R, uint64_t pos, int& row, uint64_t& index)
{
    for (row = 0; row <= R; ++row) {
        uint64_t width = 1ull << (R - row);
        if (pos < width) {
            index = pos;
            return true;
        }
        pos -= width;
    }
    return false;
}

struct Node {
    int row;
    uint64_t index;
    bool operator<(const Node& o) const { return row != o.row ? row < o.row : index < o.index; }
    bool operator==(const Node& o) const { return row == o.row && index == o.index; }
};
inline bool is_root(uint64_t n, Node x) { return ((n >> x.row) & 1) && x.index == (n >> x.row) - 1; }

// Nodes whose hashes a full proof of the targets consists of, bottom row first,
// left to right; `computed` gets targets and everything derived from them.
inline std::vector<Node> proof_nodes(uint64_t n, const std::vector<uint64_t>& sorted_targets, std::vector<Node>* computed = nullptr)
{
    std::vector<Node> out;
    std::set<uint64_t> have(sorted_targets.begin(), sorted_targets.end());
    for (int row = 0; !have.empty() && row < 64; ++row) {
        std::set<uint64_t> up;
        for (uint64_t i : have) {
            if (computed) computed->push_back({row, i});
            if (is_root(n, {row, i})) continue;
            if (!have.count(i ^ 1)) out.push_back({row, i ^ 1});
            up.insert(i / 2);
        }
        have.swap(up);
    }
    return out;
}

class Model
{
public:
    std::vector<Hash> leaves;

    uint64_t n() const { return leaves.size(); }
    int R() const { return rows_for(n()); }

    const std::vector<std::vector<Hash>>& levels() const
    {
        if (m_dirty) {
            m_levels.clear();
            m_levels.push_back(leaves);
            for (int r = 0; (leaves.size() >> (r + 1)) > 0; ++r) {
                std::vector<Hash> up;
                for (size_t i = 0; i < leaves.size() >> (r + 1); ++i)
                    up.push_back(parent(m_levels[r][2 * i], m_levels[r][2 * i + 1]));
                m_levels.push_back(std::move(up));
            }
            m_dirty = false;
        }
        return m_levels;
    }
    Hash at(Node x) const { return levels()[x.row][x.index]; }

    std::vector<Hash> roots() const
    {
        std::vector<Hash> o;
        for (int r = 63; r >= 0; --r)
            if ((n() >> r) & 1) o.push_back(at({r, (n() >> r) - 1}));
        return o;
    }
    std::vector<Hash> proof(const std::vector<uint64_t>& sorted_targets) const
    {
        std::vector<Hash> o;
        for (Node x : proof_nodes(n(), sorted_targets)) o.push_back(at(x));
        return o;
    }
    std::optional<uint64_t> find(const Hash& h) const
    {
        if (leaves.size() > 64) {
            if (m_index_dirty) {
                m_index.clear();
                for (size_t i = leaves.size(); i-- > 0;) m_index[std::string((const char*)leaves[i].data(), 32)] = i;
                m_index_dirty = false;
            }
            auto it = m_index.find(std::string((const char*)h.data(), 32));
            if (it == m_index.end()) return std::nullopt;
            return it->second;
        }
        for (size_t i = 0; i < leaves.size(); ++i)
            if (leaves[i] == h) return i;
        return std::nullopt;
    }
    void add(const std::vector<Hash>& hs)
    {
        leaves.insert(leaves.end(), hs.begin(), hs.end());
        m_dirty = m_index_dirty = true;
    }
    void set(const std::vector<Hash>& hs)
    {
        leaves = hs;
        m_dirty = m_index_dirty = true;
    }

    // Deletion, told on subtrees rather than positions. Row by row from the
    // bottom: a pair whose two members are both gone is gone itself; lone gone
    // members are made into such pairs by moving the survivor of the second into
    // the gap of the first; a last lone gap is filled with the row's root if
    // there is one, otherwise its surviving sibling becomes the row's root. The
    // new forest is the new roots' leaves, tallest first.
    void remove(const std::vector<uint64_t>& sorted_targets)
    {
        if (sorted_targets.empty()) return;
        using Tree = std::optional<std::vector<Hash>>;
        std::vector<Tree> slots;
        for (auto& h : leaves) slots.push_back(std::vector<Hash>{h});
        for (uint64_t t : sorted_targets) slots.at(t) = std::nullopt;

        std::vector<Tree> new_roots;
        while (!slots.empty()) {
            Tree root;
            if (slots.size() % 2) {
                root = std::move(slots.back());
                slots.pop_back();
            }
            std::vector<size_t> lone;
            for (size_t i = 0; i < slots.size(); i += 2)
                if (slots[i].has_value() != slots[i + 1].has_value()) lone.push_back(slots[i] ? i + 1 : i);
            size_t k = 0;
            for (; k + 1 < lone.size(); k += 2) {
                slots[lone[k]] = std::move(slots[lone[k + 1] ^ 1]);
                slots[lone[k + 1] ^ 1] = std::nullopt;
            }
            if (k < lone.size()) {
                if (root) {
                    slots[lone[k]] = std::move(root);
                    root = std::nullopt;
                } else {
                    root = std::move(slots[lone[k] ^ 1]);
                    slots[lone[k] ^ 1] = std::nullopt;
                }
            }
            new_roots.push_back(std::move(root));
            std::vector<Tree> up;
            for (size_t i = 0; i < slots.size(); i += 2) {
                Tree t;
                if (slots[i]) {
                    t = std::move(slots[i]);
                    t->insert(t->end(), slots[i + 1]->begin(), slots[i + 1]->end());
                }
                up.push_back(std::move(t));
            }
            slots = std::move(up);
        }
        std::vector<Hash> next;
        for (size_t i = new_roots.size(); i-- > 0;)
            if (new_roots[i]) next.insert(next.end(), new_roots[i]->begin(), new_roots[i]->end());
        leaves = std::move(next);
        m_dirty = m_index_dirty = true;
    }

private:
    mutable bool m_dirty = true, m_index_dirty = true;
    mutable std::unordered_map<std::string, uint64_t> m_index;
    mutable std::vector<std::vector<Hash>> m_levels;
};
} // namespace model
