// Histories of pollards of forests no machine can hold. The model keeps trees of
// which only the branches of some leaves exist; every other subtree is a hash.
#pragma once
#include "history.h"
#include "sparse.h"

namespace vf {
struct Tree;
using TreeP = std::shared_ptr<const Tree>;
struct Tree {
    Hash h;
    int height;
    TreeP l, r; // both or none; a node of height 0 is a leaf
};
inline TreeP join(const TreeP& l, const TreeP& r) { return std::make_shared<Tree>(Tree{model::parent(l->h, r->h), l->height + 1, l, r}); }
inline TreeP leaf_tree(const Hash& h) { return std::make_shared<Tree>(Tree{h, 0, nullptr, nullptr}); }

class HugeModel
{
public:
    uint64_t n = 0;
    std::map<int, TreeP> root; // by height

    std::vector<Hash> roots() const
    {
        std::vector<Hash> o;
        for (auto it = root.rbegin(); it != root.rend(); ++it) o.push_back(it->second->h);
        return o;
    }
    // The node, or null if it lies in a subtree of which only the hash exists.
    TreeP node(model::Node x) const
    {
        uint64_t first = x.index << x.row, start = 0;
        for (auto it = root.rbegin(); it != root.rend(); ++it) {
            uint64_t size = 1ull << it->first;
            if (first >= start + size) {
                start += size;
                continue;
            }
            if (x.row > it->first) return nullptr;
            TreeP t = it->second;
            uint64_t rel = (first - start) >> x.row;
            for (int b = it->first - x.row; b-- > 0 && t;) t = (rel >> b) & 1 ? t->r : t->l;
            return t;
        }
        return nullptr;
    }
    Hash at(model::Node x) const
    {
        TreeP t = node(x);
        REQUIRE(t, "harness: node (" << x.row << ", " << x.index << ") is not there");
        return t->h;
    }
    // Position and hash of every leaf that exists, in order.
    std::vector<std::pair<uint64_t, Hash>> known() const
    {
        std::vector<std::pair<uint64_t, Hash>> o;
        std::function<void(const TreeP&, uint64_t)> walk = [&](const TreeP& t, uint64_t pos) {
            if (t->height == 0)
                o.push_back({pos, t->h});
            else if (t->l) {
                walk(t->l, pos);
                walk(t->r, pos + (1ull << (t->height - 1)));
            }
        };
        uint64_t start = 0;
        for (auto it = root.rbegin(); it != root.rend(); ++it) {
            walk(it->second, start);
            start += 1ull << it->first;
        }
        return o;
    }
    std::vector<Hash> proof(const std::vector<uint64_t>& sorted) const
    {
        std::vector<Hash> o;
        for (auto x : model::proof_nodes(n, sorted)) o.push_back(at(x));
        return o;
    }
    void add(const Hash& h)
    {
        TreeP x = leaf_tree(h);
        int row = 0;
        for (; (n >> row) & 1; ++row) {
            x = join(root.at(row), x);
            root.erase(row);
        }
        root[row] = x;
        ++n;
    }
    // The rule of model.h, on the slots that change.
    void remove(const std::vector<uint64_t>& targets)
    {
        using Slot = std::optional<TreeP>;
        std::map<uint64_t, Slot> changed;
        for (uint64_t t : targets) changed[t] = std::nullopt;
        std::map<int, TreeP> next;
        for (int row = 0; row < 64 && (n >> row); ++row) {
            uint64_t slots = n >> row;
            auto value = [&](uint64_t i) -> Slot {
                auto it = changed.find(i);
                if (it != changed.end()) return it->second;
                TreeP t = node({row, i});
                REQUIRE(t, "harness: slot (" << row << ", " << i << ") is not there");
                return t;
            };
            Slot r;
            if (slots & 1) r = value(slots - 1);
            changed.erase(slots - (slots & 1));
            std::set<uint64_t> pairs;
            for (auto& [i, s] : changed) pairs.insert(i / 2);
            std::vector<uint64_t> lone;
            for (uint64_t p : pairs) {
                bool a = value(2 * p).has_value(), b = value(2 * p + 1).has_value();
                if (a != b) lone.push_back(a ? 2 * p + 1 : 2 * p);
            }
            size_t k = 0;
            for (; k + 1 < lone.size(); k += 2) {
                changed[lone[k]] = value(lone[k + 1] ^ 1);
                changed[lone[k + 1] ^ 1] = std::nullopt;
            }
            if (k < lone.size()) {
                if (r) {
                    changed[lone[k]] = r;
                    r = std::nullopt;
                } else {
                    r = value(lone[k] ^ 1);
                    changed[lone[k] ^ 1] = std::nullopt;
                }
            }
            if (r) next[row] = *r;
            std::map<uint64_t, Slot> up;
            for (uint64_t p : pairs) {
                Slot a = value(2 * p), b = value(2 * p + 1);
                up[p] = a ? Slot(join(*a, *b)) : Slot();
            }
            changed.swap(up);
        }
        root.swap(next);
        n -= targets.size();
    }
    static HugeModel invent(uint64_t num, const std::vector<uint64_t>& targets, LeafGen& g)
    {
        HugeModel m;
        m.n = num;
        std::function<TreeP(int, uint64_t, size_t, size_t)> make = [&](int height, uint64_t pos, size_t a, size_t b) -> TreeP {
            if (height == 0 || a == b) return std::make_shared<Tree>(Tree{g.fresh(), height, nullptr, nullptr});
            uint64_t mid = pos + (1ull << (height - 1));
            size_t s = std::lower_bound(targets.begin() + a, targets.begin() + b, mid) - targets.begin();
            TreeP l = make(height - 1, pos, a, s);
            return join(l, make(height - 1, mid, s, b));
        };
        uint64_t start = 0;
        for (int r = 63; r >= 0; --r) {
            if (!((num >> r) & 1)) continue;
            uint64_t end = start + (1ull << r);
            size_t a = std::lower_bound(targets.begin(), targets.end(), start) - targets.begin();
            size_t b = std::lower_bound(targets.begin(), targets.end(), end) - targets.begin();
            m.root[r] = make(r, start, a, b);
            start = end;
        }
        return m;
    }
};

// A pollard updates positions leaf by leaf when it moves a subtree: is every subtree that
// deleting the targets moves of at most 2^max_row leaves?
inline bool cheap(uint64_t n, const std::vector<uint64_t>& targets, int max_row)
{
    std::set<uint64_t> gone(targets.begin(), targets.end());
    for (int row = 0; row < 64 && (n >> row); ++row) {
        if (gone.empty() && row > 0) return true;
        if (row > max_row) return false;
        uint64_t slots = n >> row;
        bool r = slots & 1;
        if (r && gone.count(slots - 1)) {
            gone.erase(slots - 1);
            r = false;
        }
        std::vector<uint64_t> lone;
        std::set<uint64_t> up;
        for (uint64_t x : gone) {
            if (gone.count(x ^ 1))
                up.insert(x / 2);
            else
                lone.push_back(x);
        }
        size_t k = 0;
        for (; k + 1 < lone.size(); k += 2) up.insert(lone[k + 1] / 2);
        if (k < lone.size() && !r) up.insert(lone[k] / 2);
        gone.swap(up);
    }
    return true;
}

// What a huge history judges; anything else that goes wrong ends the case silently.
enum : unsigned {
    H_ROOTS = 1,   // roots and counts follow the model
    H_ACCEPT = 2,  // honest proofs are accepted, valid blocks are not refused
    H_REJECT = 4,  // accepted claims are true
    H_SAME = 8,    // a rejected claim changes nothing, also compared with a twin
    H_PROVE = 16,  // kept leaves are provable, and only they
    H_BOUND = 32,  // nodes held
    H_REFUSE = 64, // invalid blocks are refused as a whole
    H_ALL = 127
};
struct HugeStats {
    int verified = 0, forged = 0, deleted = 0;
    uint64_t n = 0;
};

inline HugeStats huge_history(Ctx& c, unsigned judge)
{
    struct Stop {
    };
    HugeStats st;
#define NEED(bit, cond, expr)                  \
    do {                                       \
        if (!(cond)) {                         \
            if (!(judge & (bit))) throw Stop(); \
            REQUIRE(false, expr);              \
        }                                      \
    } while (0)
    try {
        c.label("huge forest");
        LeafGen g;
        g.init(c);
        uint64_t n = gen_n(c, 60, 1);
        if (c.chance(3, 4)) n |= (1ull << c.below(8)) - 1; // small trees to fill gaps from
        std::set<uint64_t> want;
        for (int i = 0; i < 2; ++i)
            for (auto x : gen_sparse_targets(c, n)) want.insert(x);
        HugeModel m = HugeModel::invent(n, {want.begin(), want.end()}, g);
        LOG(c, n << " leaves, of which exist " << show(std::vector<uint64_t>(want.begin(), want.end())));
        st.n = n;
        auto p = std::make_unique<Pollard>(m.roots(), n);
        std::unique_ptr<Pollard> twin;
        if (judge & H_SAME) twin = std::make_unique<Pollard>(m.roots(), n);
        std::set<Hash> kept;
        std::vector<std::pair<std::vector<uint64_t>, std::pair<std::vector<Hash>, std::vector<Hash>>>> old;

        auto check_state = [&](const char* when) {
            NEED(H_ROOTS, p->NumLeaves() == m.n, when << ": pollard reports " << p->NumLeaves() << " leaves, expected " << m.n);
            auto r = roots_of(*p);
            NEED(H_ROOTS, r == m.roots(), when << ": roots " << show(r) << " of " << m.n << " leaves differ from " << show(m.roots()));
        };
        auto look = [&](Pollard& q) {
            Observation o;
            o.n = q.NumLeaves();
            o.cached = q.NumCachedLeaves();
            o.roots = roots_of(q);
            for (auto& [pos, h] : m.known()) {
                BatchProof pr;
                if (q.Prove(pr, {h}))
                    o.proofs.push_back({pr.GetTargets(), pr.GetHashes()});
                else
                    o.proofs.push_back({});
            }
            return o;
        };
        auto provable = [&](const char* when) {
            if (!(judge & H_PROVE)) return;
            std::vector<uint64_t> pos;
            std::vector<Hash> hs;
            for (auto& [x, h] : m.known()) {
                BatchProof q;
                bool ok = p->Prove(q, {h}), should = kept.count(h) != 0;
                REQUIRE(ok == should, when << ": leaf " << x << " of " << m.n << (should ? " was to be kept but cannot be proven" : " was not kept but a proof is offered"));
                if (!ok) continue;
                REQUIRE(q.GetTargets() == std::vector<uint64_t>{x} && q.GetHashes() == m.proof({x}), when << ": pollard's proof of leaf " << x << " of " << m.n << " is wrong (position " << show(q.GetTargets()) << ")");
                pos.push_back(x);
                hs.push_back(h);
            }
            REQUIRE(p->NumCachedLeaves() == kept.size(), when << ": pollard reports " << p->NumCachedLeaves() << " cached leaves, " << kept.size() << " were to be kept");
            if (pos.size() < 2) return;
            BatchProof q;
            REQUIRE(p->Prove(q, hs) && q.GetTargets() == pos && q.GetHashes() == m.proof(pos), when << ": pollard's joint proof of " << show(pos) << " of " << m.n << " is wrong");
        };
        auto bound = [&](const char* when) {
            if (!(judge & H_BOUND)) return;
            std::set<model::Node> s;
            for (auto& [x, h] : m.known()) {
                if (!kept.count(h)) continue;
                std::vector<model::Node> comp;
                for (auto y : model::proof_nodes(m.n, {x}, &comp)) s.insert(y);
                s.insert(comp.begin(), comp.end());
            }
            for (auto& r : m.root) s.insert({r.first, (m.n >> r.first) - 1});
            REQUIRE(p->CountNodes() <= s.size() && p->CountNodes() >= m.root.size(), when << ": the pollard holds " << p->CountNodes() << " nodes for " << kept.size() << " kept of " << m.n << " leaves; roots and their branches are " << s.size());
        };
        auto held = [&] {
            std::set<model::Node> s;
            for (auto& [x, h] : m.known())
                if (kept.count(h))
                    for (auto y : model::proof_nodes(m.n, {x})) s.insert(y);
            return s;
        };
        // Honest proof of the positions, hashes the pollard holds maybe left out.
        auto verify = [&](const std::vector<uint64_t>& t, const std::vector<Hash>& th) {
            bool omit = c.chance(1, 2);
            std::set<model::Node> have;
            if (omit) have = held();
            std::vector<Hash> hs;
            for (auto x : model::proof_nodes(m.n, t))
                if (!have.count(x) || !c.chance(2, 3)) hs.push_back(m.at(x));
            auto sent = t;
            if (c.chance(1, 2)) shuffle(c, sent);
            LOG(c, "  verifies " << show(sent) << " with " << hs.size() << " hashes");
            BatchProof pr(sent, hs);
            NEED(H_ACCEPT, pr.CheckSanity(m.n), "sanity check refuses an honest proof in " << m.n << " leaves");
            NEED(H_ACCEPT, p->Verify(pr, th), "an honest proof of " << show(t) << " in " << m.n << " leaves was rejected");
            if (twin) NEED(H_SAME, twin->Verify(pr, th), "an honest proof of " << show(t) << " in " << m.n << " leaves was rejected");
            kept.insert(th.begin(), th.end());
            ++st.verified;
        };
        auto pick = [&](uint64_t num, uint64_t den, std::vector<uint64_t>& t, std::vector<Hash>& th) {
            t.clear();
            th.clear();
            auto k = m.known();
            for (auto& [x, h] : k)
                if (t.size() < 12 && c.chance(num, den)) {
                    t.push_back(x);
                    th.push_back(h);
                }
            if (t.empty() && !k.empty()) {
                auto& y = k[c.below(k.size())];
                t = {y.first};
                th = {y.second};
            }
        };
        check_state("after starting from roots");
        int steps = 0;
        while (steps < 7 * g_scale && (steps < 2 || c.chance(7, 8))) {
            c.span();
            ++steps;
            std::vector<uint64_t> t;
            std::vector<Hash> th;
            switch (c.weighted({5, 3, 4, 1, 1, 1})) {
            case 0: { // block
                pick(1, 2 + c.below(5), t, th);
                if (c.chance(1, 4)) t.clear(), th.clear();
                // fewer until no large subtree has to move
                while (!t.empty() && !cheap(m.n, t, 5)) {
                    size_t i = c.below(t.size());
                    t.erase(t.begin() + i);
                    th.erase(th.begin() + i);
                }
                if (!t.empty()) verify(t, th);
                std::vector<Leaf> adds;
                for (uint64_t k = c.below(6); k > 0; --k) adds.push_back({g.fresh(), c.chance(1, 2)});
                LOG(c, "block on " << m.n << " leaves: delete " << show(t) << ", add " << adds.size());
                if (!t.empty()) {
                    m.remove(t);
                    ++st.deleted;
                    c.label("huge forest, deletion");
                }
                NEED(H_ACCEPT, p->Modify(adds, t), "a valid block was refused: delete " << show(t) << " add " << adds.size() << " in " << m.n + t.size() << " leaves");
                if (twin) NEED(H_SAME, twin->Modify(adds, t), "a valid block was refused");
                for (auto& h : th) kept.erase(h);
                for (auto& a : adds) {
                    m.add(a.first);
                    if (a.second) kept.insert(a.first);
                }
                check_state("after the block");
                provable("after the block");
                bound("after the block");
                if (twin) {
                    Observation a = look(*p), b = look(*twin);
                    NEED(H_SAME, a == b, "after a block the pollard differs from one that never saw the rejected claims: " << diff(a, b));
                }
                break;
            }
            case 1: // more leaves learned
                pick(1, 3, t, th);
                if (t.empty()) break;
                verify(t, th);
                old.push_back({t, {th, m.proof(t)}});
                check_state("after verification");
                provable("after verification");
                bound("after verification");
                break;
            case 2: { // a claim that is not honest
                pick(1, 3, t, th);
                if (t.empty()) break;
                auto pr = m.proof(t);
                if (!old.empty() && c.chance(1, 6)) std::tie(t, th, pr) = [&] { auto& o = old[c.below(old.size())]; return std::make_tuple(o.first, o.second.first, o.second.second); }();
                for (uint64_t e = 1 + c.below(2); e > 0; --e) {
                    switch (c.weighted({3, 2, 2, 2, 3, 1, 1, 1, 2})) {
                    case 0: th[c.below(th.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8)); break;
                    case 1:
                        if (!pr.empty()) pr[c.below(pr.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
                        break;
                    case 2:
                        if (!pr.empty()) pr.erase(pr.begin() + c.below(pr.size()));
                        break;
                    case 3: t[c.below(t.size())] = c.below(m.n); break;
                    case 4: t[c.below(t.size())] ^= 1ull << c.below(64); break;
                    case 5: { // the position of an ancestor
                        size_t i = c.below(t.size());
                        int R = model::rows_for(m.n), r = 1 + (int)c.below(R + 1);
                        t[i] = r > R ? (2ull << R) - 1 : model::position(R, r, t[i] >> r);
                        break;
                    }
                    case 6: {
                        size_t i = c.below(t.size());
                        t.insert(t.begin() + i, t[i]);
                        th.insert(th.begin() + i, th[c.below(th.size())]);
                        break;
                    }
                    case 7: pr.insert(pr.begin() + c.below(pr.size() + 1), pr.empty() ? g.fresh() : pr[c.below(pr.size())]); break;
                    default: { // the hash of another node
                        auto nodes = model::proof_nodes(m.n, {m.known()[0].first});
                        th[c.below(th.size())] = nodes.empty() ? Hash{} : m.at(nodes[c.below(nodes.size())]);
                    }
                    }
                }
                auto sorted = t;
                std::sort(sorted.begin(), sorted.end());
                bool truth = sorted.size() == th.size();
                for (size_t i = 0; i < sorted.size() && truth; ++i) {
                    TreeP x = sorted[i] < m.n ? m.node({0, sorted[i]}) : nullptr;
                    truth = x && x->h == th[i] && (i == 0 || sorted[i] != sorted[i - 1]);
                }
                LOG(c, "claim: " << show(t) << " " << show(th) << " with " << show(pr) << (truth ? " (true)" : " (false)"));
                Observation before;
                uint64_t nodes = 0;
                if (twin) before = look(*p), nodes = p->CountNodes();
                bool ok = p->Verify(BatchProof(t, pr), th);
                NEED(H_REJECT, !ok || truth, "a false claim about " << show(t) << " in " << m.n << " leaves was accepted");
                if (ok) {
                    NEED(H_REJECT, is_subsequence(pr, m.proof(sorted)), "a proof of " << show(sorted) << " was accepted although it contains hashes that do not belong to it");
                    kept.insert(th.begin(), th.end());
                    if (twin) twin->Verify(BatchProof(t, pr), th);
                } else {
                    ++st.forged;
                    c.label("huge forest, forged");
                    if (twin) {
                        Observation after = look(*p);
                        NEED(H_SAME, after == before, "a rejected claim changed the pollard: " << diff(before, after));
                        NEED(H_SAME, nodes == p->CountNodes(), "a rejected claim changed the number of nodes from " << nodes << " to " << p->CountNodes());
                    }
                }
                check_state("after a claim");
                provable("after a claim");
                bound("after a claim");
                break;
            }
            case 3: // pruned or restarted
                if (c.chance(1, 2)) {
                    LOG(c, "  pruned");
                    p->Prune();
                    if (twin) twin->Prune();
                } else {
                    LOG(c, "  restarted from roots");
                    p = std::make_unique<Pollard>(m.roots(), m.n);
                    if (twin) twin = std::make_unique<Pollard>(m.roots(), m.n);
                }
                kept.clear();
                check_state("after pruning");
                provable("after pruning");
                bound("after pruning");
                break;
            case 4: { // an invalid block
                pick(1, 3, t, th);
                if (t.empty()) break;
                std::vector<uint64_t> bad = t;
                switch (c.below(4)) {
                case 0: bad.push_back(bad[c.below(bad.size())]); break;
                case 1: bad.push_back(m.n + c.small(m.n)); break;
                case 2:
                    bad.push_back(c.bits64());
                    if (bad.back() < m.n) continue;
                    break;
                default:
                    if (bad.size() < 2) continue;
                    std::reverse(bad.begin(), bad.end());
                }
                verify(t, th);
                LOG(c, "invalid block: delete " << show(bad));
                NEED(H_REFUSE, !p->Modify({{g.fresh(), true}}, bad), "an invalid deletion list " << show(bad) << " of " << m.n << " leaves was carried out");
                if (twin) twin->Modify({{g.fresh(), true}}, bad);
                if (judge & H_REFUSE) {
                    REQUIRE(p->NumLeaves() == m.n && roots_of(*p) == m.roots(), "a refused block (delete " << show(bad) << ") changed the pollard");
                }
                provable("after a refused block");
                break;
            }
            default: { // restart a second client from what this one says
                auto q = std::make_unique<Pollard>(roots_of(*p), p->NumLeaves());
                pick(1, 3, t, th);
                if (t.empty()) break;
                NEED(H_ACCEPT, q->Verify(BatchProof(t, m.proof(t)), th), "a second client rejects an honest proof of " << show(t) << " in " << m.n << " leaves");
                BatchProof pr;
                std::vector<Hash> ks(kept.begin(), kept.end());
                if (!ks.empty() && p->Prove(pr, ks)) {
                    std::vector<std::pair<uint64_t, Hash>> z;
                    for (size_t i = 0; i < ks.size(); ++i) z.push_back({pr.GetTargets()[i], ks[i]});
                    std::sort(z.begin(), z.end());
                    std::vector<Hash> zs;
                    for (auto& e : z) zs.push_back(e.second);
                    NEED(H_PROVE | H_ACCEPT, q->Verify(pr, zs), "the pollard's proof of its kept leaves in " << m.n << " leaves is rejected by another client");
                }
                break;
            }
            }
        }
    } catch (const Stop&) {
        c.label("huge forest, judged elsewhere");
    }
#undef NEED
    return st;
}

// One case in twelve of the history properties is a huge history, judged on what that property says.
inline bool huge_case(Ctx& c, unsigned judge)
{
    if (!c.chance(1, 12)) return false;
    auto st = huge_history(c, judge);
    if (st.verified + st.forged >= 3 && st.deleted) c.nontrivial();
    return true;
}
} // namespace vf
