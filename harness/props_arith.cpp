// Position arithmetic for forests of any size.
#include "sparse.h"
#include <state.h>
#include <tuple>
using namespace vf;
using utreexo::ForestState;

PROPERTY(C14, "case = a number of leaves of any magnitude up to 2^62 and random nodes, rows and sparse leaf sets in that forest; every position function (parent, children, sibling, ancestor, descendants, "
              "row, row offset, roots, path, proof positions, target check) is compared with arithmetic on (row, index) pairs. Non-trivial: more than 2^16 leaves and not a power of two")
{
    uint64_t n = gen_n(c, 62, 1);
    ForestState s(n);
    int R = model::rows_for(n);
    LOG(c, n << " leaves");
    auto P = [&](int row, uint64_t i) { return model::position(R, row, i); };
    REQUIRE(s.NumRows() == R, "NumRows of " << n << " leaves is " << (int)s.NumRows() << ", expected " << R);
    if (n > 0) REQUIRE(s.MaxNodes() == (2ull << R) - 1, "MaxNodes of " << n << " leaves is " << s.MaxNodes());
    uint64_t roots = 0;
    std::vector<uint64_t> rp;
    for (int r = R; r >= 0; --r) {
        bool has = (n >> r) & 1;
        REQUIRE(s.HasRoot((uint8_t)r) == has, "HasRoot(" << r << ") of " << n << " leaves is wrong");
        if (!has) continue;
        ++roots;
        uint64_t want = P(r, (n >> r) - 1);
        rp.push_back(want);
        REQUIRE(s.RootPosition((uint8_t)r) == want, "RootPosition(" << r << ") of " << n << " leaves is " << s.RootPosition((uint8_t)r) << ", expected " << want);
        REQUIRE(s.RootIndex(want) == roots - 1, "RootIndex(" << want << ") of " << n << " leaves is " << (int)s.RootIndex(want));
    }
    REQUIRE(s.NumRoots() == roots, "NumRoots of " << n << " leaves is " << (int)s.NumRoots() << ", expected " << roots);
    REQUIRE(s.RootPositions() == rp, "RootPositions of " << n << " leaves are " << show(s.RootPositions()) << ", expected " << show(rp));
    {
        uint64_t n2 = c.below(n + 1);
        std::vector<uint64_t> want;
        for (int r = R; r >= 0; --r)
            if ((n2 >> r) & 1) want.push_back(P(r, (n2 >> r) - 1));
        REQUIRE(s.RootPositions(n2) == want, "RootPositions of " << n2 << " leaves in a forest of " << n << " are " << show(s.RootPositions(n2)) << ", expected " << show(want));
    }
    for (int r = 0; r <= R; ++r) REQUIRE(s.RowOffset((uint8_t)r) == P(r, 0), "RowOffset(row " << r << ") of " << n << " leaves is " << s.RowOffset((uint8_t)r));
    for (int q = 0; q < 6; ++q) {
        c.span();
        int row = (int)c.below(R + 1);
        uint64_t width = n >> row;
        if (width == 0) continue;
        uint64_t i = c.chance(1, 3) ? width - 1 - c.small(width) : c.below(width);
        uint64_t pos = P(row, i);
        LOG(c, "node " << i << " of row " << row << " = position " << pos);
        REQUIRE(s.DetectRow(pos) == row, "DetectRow(" << pos << ") of " << n << " leaves is " << (int)s.DetectRow(pos) << ", expected " << row);
        REQUIRE(s.RowOffset(pos) == P(row, 0), "RowOffset(" << pos << ") of " << n << " leaves is " << s.RowOffset(pos));
        REQUIRE(s.Sibling(pos) == P(row, i ^ 1), "Sibling(" << pos << ") is " << s.Sibling(pos));
        REQUIRE(s.RightSibling(pos) == P(row, i | 1), "RightSibling(" << pos << ") is " << s.RightSibling(pos));
        if (row + 2 <= R) REQUIRE(s.Cousin(pos) == P(row, i ^ 2), "Cousin(" << pos << ") is " << s.Cousin(pos));
        if (row < R) REQUIRE(s.Parent(pos) == P(row + 1, i / 2), "Parent(" << pos << ") of " << n << " leaves is " << s.Parent(pos) << ", expected " << P(row + 1, i / 2));
        if (row > 0) {
            REQUIRE(s.LeftChild(pos) == P(row - 1, 2 * i), "LeftChild(" << pos << ") of " << n << " leaves is " << s.LeftChild(pos));
            REQUIRE(s.Child(pos, 0) == P(row - 1, 2 * i) && s.Child(pos, 1) == P(row - 1, 2 * i + 1), "Child(" << pos << ") of " << n << " leaves is " << s.Child(pos, 1));
        }
        uint8_t rise = (uint8_t)c.below(R - row + 1), drop = (uint8_t)c.below(row + 1);
        REQUIRE(s.Ancestor(pos, rise) == P(row + rise, i >> rise), "Ancestor(" << pos << ", " << (int)rise << ") of " << n << " leaves is " << s.Ancestor(pos, rise) << ", expected " << P(row + rise, i >> rise));
        REQUIRE(s.LeftDescendant(pos, drop) == P(row - drop, i << drop), "LeftDescendant(" << pos << ", " << (int)drop << ") of " << n << " leaves is " << s.LeftDescendant(pos, drop));
        // path: which tree, how deep, which turns
        uint64_t first = i << row; // first leaf below
        uint64_t before = 0;
        int tree = 0, trow = -1;
        for (int r = R; r >= 0; --r) {
            if (!((n >> r) & 1)) continue;
            if (first < before + (1ull << r)) {
                trow = r;
                break;
            }
            before += 1ull << r;
            ++tree;
        }
        auto [ti, len, bits] = s.Path(pos);
        REQUIRE(ti == tree && len == trow - row, "Path(" << pos << ") of " << n << " leaves gives tree " << (int)ti << " depth " << (int)len << ", expected " << tree << " and " << trow - row);
        REQUIRE(s.RootIndex(pos) == tree, "RootIndex(" << pos << ") of " << n << " leaves is " << (int)s.RootIndex(pos));
        uint64_t within = (first - before) >> row; // index below the root at this depth
        for (int d = 0; d < len; ++d) {
            uint64_t turn = (within >> (len - 1 - d)) & 1;
            REQUIRE(((bits >> (len - 1 - d)) & 1) == (turn ^ 1), "Path(" << pos << ") of " << n << " leaves takes a wrong turn at depth " << d);
        }
    }
    for (int q = 0; q < 2; ++q) {
        auto t = gen_sparse_targets(c, n);
        LOG(c, "targets " << show(t));
        std::vector<model::Node> comp;
        auto nodes = model::proof_nodes(n, t, &comp);
        std::vector<uint64_t> wp, wc;
        for (auto x : nodes) wp.push_back(P(x.row, x.index));
        for (auto x : comp) wc.push_back(P(x.row, x.index));
        auto [gp, gc] = s.ProofPositions(t);
        REQUIRE(gp == wp, "proof positions of " << show(t) << " in " << n << " leaves are " << show(gp) << ", expected " << show(wp));
        REQUIRE(gc == wc, "computed positions of " << show(t) << " in " << n << " leaves are " << show(gc) << ", expected " << show(wc));
        REQUIRE(s.CheckTargetsSanity(t), "sane targets " << show(t) << " of " << n << " leaves are refused");
        auto bad = t;
        switch (c.below(3)) {
        case 0: bad.push_back(n + c.small(100)); break;
        case 1:
            if (bad.size() < 2) bad = {n};
            else std::swap(bad[0], bad[1]);
            break;
        default:
            if (bad.empty()) bad = {~0ull};
            else bad.insert(bad.begin(), bad[0]);
            break;
        }
        REQUIRE(!s.CheckTargetsSanity(bad), "targets " << show(bad) << " of " << n << " leaves pass the check");
    }
    if (n > (1ull << 16) && (n & (n - 1))) c.nontrivial();
}


// Where leaves go when targets are deleted, by the definition, in a forest too large to hold:
// only slots that differ from "as before" are kept, as the subtree now in them.
namespace {
struct Plan {
    uint64_t n;
    std::vector<std::map<uint64_t, std::optional<uint64_t>>> rows; // row -> slot -> which subtree of that row came there (none: gone)
    std::map<int, uint64_t> root;                                  // row -> subtree that becomes the new root

    Plan(uint64_t num, const std::vector<uint64_t>& targets) : n(num)
    {
        std::map<uint64_t, std::optional<uint64_t>> changed; // slot -> subtree (named by its slot before the moves of its row)
        std::set<uint64_t> gone(targets.begin(), targets.end());
        for (int row = 0; row < 64 && (n >> row); ++row) {
            changed.clear();
            for (uint64_t i : gone) changed[i] = std::nullopt;
            auto value = [&](uint64_t i) -> std::optional<uint64_t> {
                auto it = changed.find(i);
                return it == changed.end() ? std::optional<uint64_t>(i) : it->second;
            };
            uint64_t slots = n >> row;
            std::optional<uint64_t> r;
            if (slots & 1) {
                r = value(slots - 1);
                gone.erase(slots - 1);
                changed.erase(slots - 1);
            }
            std::set<uint64_t> pairs;
            std::vector<uint64_t> lone;
            for (uint64_t i : gone) pairs.insert(i / 2);
            for (uint64_t p : pairs)
                if (value(2 * p).has_value() != value(2 * p + 1).has_value()) lone.push_back(value(2 * p) ? 2 * p + 1 : 2 * p);
            size_t k = 0;
            for (; k + 1 < lone.size(); k += 2) {
                changed[lone[k]] = value(lone[k + 1] ^ 1);
                changed[lone[k + 1] ^ 1] = std::nullopt;
            }
            if (k < lone.size()) {
                if (r) {
                    changed[lone[k]] = r;
                    r = std::nullopt;
                } else {
                    r = value(lone[k] ^ 1);
                    changed[lone[k] ^ 1] = std::nullopt;
                }
            }
            if (r) root[row] = *r;
            rows.push_back(changed);
            gone.clear();
            for (uint64_t p : pairs)
                if (!value(2 * p)) gone.insert(p);
        }
    }
    // Position after the deletion of a leaf that survives.
    uint64_t follow(uint64_t leaf) const
    {
        uint64_t slot = leaf, path = 0;
        for (int row = 0;; ++row) {
            auto it = root.find(row);
            if (it != root.end() && it->second == slot) {
                uint64_t first = 0;
                for (auto& r : root)
                    if (r.first > row) first += 1ull << r.first;
                return first + path;
            }
            for (auto& [to, from] : rows.at(row))
                if (from && *from == slot) {
                    slot = to;
                    break;
                }
            path |= (slot & 1) << row;
            slot >>= 1;
        }
    }
};
} // namespace

PROPERTY(C21, "case = a forest of any magnitude up to 2^62 leaves and a set of leaves to delete (sparse, clustered, aligned subtrees, pairs, ends; dense in small forests); the planned moves are applied to the positions of "
              "targets, their neighbours, ends of moved ranges and random leaves: survivors must arrive where the deletion rule puts them, deleted ones behind the last survivor, and undoing the plan in reverse must bring "
              "every one of them back. Non-trivial: more than 2^16 leaves and at least two moves")
{
    uint64_t n = gen_n(c, 62, 1);
    std::vector<uint64_t> t;
    if (n <= 256 && c.chance(1, 2)) {
        t = gen_targets(c, n);
    } else {
        auto v = gen_sparse_targets(c, n);
        std::set<uint64_t> s(v.begin(), v.end());
        for (uint64_t k = c.below(4); k > 0; --k) { // whole subtrees, runs
            uint64_t w = 1ull << c.below(6), a = c.below(n);
            if (c.chance(2, 3)) a = a / w * w;
            if (c.chance(1, 3) && n > 2 * w) a = n - w - c.small(w);
            for (uint64_t i = a; i < a + w && i < n; ++i)
                if (!c.chance(1, 16)) s.insert(i);
        }
        t.assign(s.begin(), s.end());
    }
    LOG(c, n << " leaves, delete " << show(t));
    ForestState st(n);
    auto rows = st.Transform(t);
    auto back = st.UndoTransform(t);
    std::vector<ForestState::Swap> fwd;
    size_t moves = 0;
    std::set<uint64_t> watch(t.begin(), t.end());
    auto add = [&](uint64_t x) {
        if (x < n) watch.insert(x);
    };
    for (uint64_t x : t)
        for (int r = 0; r < 62; r += 1 + (int)c.below(12)) {
            add(x ^ (1ull << r));
            add((x >> r) << r);
        }
    for (int k = 0; k < 10; ++k) {
        add(c.below(n));
        add(n - 1 - c.small(n));
    }
    for (auto& row : rows)
        for (auto& s : row) {
            auto l = s.ToLeaves(st);
            if (!l.m_is_range_swap) l.m_range = 1;
            REQUIRE(l.m_range && l.m_from < n && l.m_to < n && l.m_from + l.m_range <= n && l.m_to + l.m_range <= n, "deleting " << show(t) << " from " << n << " leaves moves leaves that do not exist: " << l.m_range << " at " << l.m_from << " and " << l.m_to);
            fwd.push_back(l);
            if (l.m_from != l.m_to) ++moves;
            if (watch.size() < 400) {
                uint64_t o = c.below(l.m_range);
                for (uint64_t b : {l.m_from, l.m_to})
                    for (uint64_t x : {b, b + l.m_range - 1, b + o}) add(x);
            }
        }
    auto apply = [](uint64_t x, const ForestState::Swap& s) {
        uint64_t w = s.m_is_range_swap ? s.m_range : 1;
        if (x - s.m_from < w) return x - s.m_from + s.m_to;
        if (x - s.m_to < w) return x - s.m_to + s.m_from;
        return x;
    };
    Plan plan(n, t);
    uint64_t left = n - t.size();
    std::set<uint64_t> places;
    for (uint64_t x : watch) {
        uint64_t at = x;
        for (auto& s : fwd) at = apply(at, s);
        bool dead = std::binary_search(t.begin(), t.end(), x);
        if (dead) {
            REQUIRE(at >= left && at < n, "deleting " << show(t) << " from " << n << " leaves puts the deleted leaf " << x << " at " << at << ", among the " << left << " that stay");
        } else {
            uint64_t want = plan.follow(x);
            REQUIRE(at == want, "deleting " << show(t) << " from " << n << " leaves moves leaf " << x << " to " << at << ", expected " << want);
        }
        REQUIRE(places.insert(at).second, "deleting " << show(t) << " from " << n << " leaves moves two leaves to " << at);
        for (auto it = back.rbegin(); it != back.rend(); ++it) at = apply(at, *it);
        REQUIRE(at == x, "undoing the deletion of " << show(t) << " from " << n << " leaves brings leaf " << x << " to " << at);
    }
    if (n > (1ull << 16) && moves >= 2) c.nontrivial();
}
