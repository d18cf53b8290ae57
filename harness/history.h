// Histories: one forest, its reference model, and clients (pollards) that follow
// the same blocks with different policies.
#pragma once
#include "world.h"
#include <unistd.h>

namespace vf {

struct Block {
    std::vector<uint64_t> targets; // sorted
    std::vector<Hash> target_hashes;
    std::vector<Hash> adds;
};

// A pollard together with what its user knows about it: which leaves it was told
// to keep.
struct Client {
    std::unique_ptr<Pollard> p;
    std::set<Hash> kept;
    int policy = 0; // 0 keeps nothing, 4 keeps everything, else a random share
};

struct World {
    Ctx& c;
    Model m;
    LeafGen g;
    RamForest f{0};
    std::vector<Client> clients;
    uint64_t cap;
    std::vector<Hash> seen; // every leaf of every block so far

    uint64_t first = 0; // size of the first block of a large forest
    uint64_t flags = 0, flag_no = 0;

    // One case in big_one_in is a large forest of up to 2^big_rows leaves.
    World(Ctx& ctx, size_t n_clients, uint64_t cap_, uint64_t big_one_in = 0, int big_rows = 0) : c(ctx), cap(cap_ * g_scale)
    {
        g.init(c);
        if (big_one_in && c.rare(big_one_in)) {
            c.label("large forest");
            uint64_t p = 1ull << (c.chance(1, 4) ? big_rows : 9 + c.below(big_rows - 8));
            first = c.chance(1, 2) ? p + c.below(p) : p - 2 + c.below(5);
            cap = 2 * first;
            flags = c.bits64();
            g.spread(); // would make the library's hash maps quadratic
        }
        for (size_t i = 0; i < n_clients; ++i) {
            Client cl;
            cl.p = std::make_unique<Pollard>(0);
            cl.policy = (int)c.below(5);
            clients.push_back(std::move(cl));
        }
    }

    // Shall there be another step? One history in den ends here. One in LONG starts a long life: hundreds
    // of blocks on a forest that stays small.
    static constexpr uint64_t LONG = 1500;
    bool long_life = false;
    bool go(int steps, int max, uint64_t den)
    {
        if (steps >= (long_life ? 420 : first ? 5 : max * g_scale)) return false;
        if (c.fuzzing()) return c.below(den) != 0;
        uint64_t v = c.below(den * LONG);
        if (steps == 0 && !first && v / den == LONG - 1 && v % den) {
            long_life = true;
            c.label("long life");
            if (g_heavy) g_heavy(6);
            cap = std::min(cap, 8 + 4 * (v % den));
        }
        return long_life ? v != 0 : v % den != 0;
    }

    Block gen_block()
    {
        Block b;
        if (first && m.n() == 0 && seen.empty()) {
            for (uint64_t i = 0; i < first; ++i) b.adds.push_back(g.fresh());
            seen = b.adds;
            return b;
        }
        b.targets = gen_targets(c, m.n());
        b.target_hashes = hashes_at(m, b.targets);
        uint64_t left = m.n() - b.targets.size();
        uint64_t k = gen_add_count(c, cap > left ? cap - left : 0);
        if (first && cap > left && c.chance(1, 3)) k = c.below(cap - left);
        bool again = k < 200 && c.chance(1, 3), odd = k < 200 && c.chance(1, 12);
        for (uint64_t i = 0; i < k; ++i) {
            Hash h = (again && c.chance(1, 2)) ? old_leaf(b) : (odd && c.chance(1, 4)) ? odd_leaf() : g.fresh();
            if ((!again && !odd) || absent(h, b))
                b.adds.push_back(h);
            else
                b.adds.push_back(g.fresh());
        }
        seen.insert(seen.end(), b.adds.begin(), b.adds.end());
        return b;
    }
    bool absent(const Hash& h, const Block& b) const
    {
        if (std::find(b.adds.begin(), b.adds.end(), h) != b.adds.end()) return false;
        auto pos = m.find(h);
        return !pos || std::binary_search(b.targets.begin(), b.targets.end(), *pos);
    }
    // A leaf that was there before: deleted in this block, or earlier, or undone.
    Hash old_leaf(const Block& b)
    {
        if (!b.target_hashes.empty() && c.chance(1, 2)) return b.target_hashes[c.below(b.target_hashes.size())];
        if (seen.empty()) return g.fresh();
        return seen[seen.size() - 1 - c.small(seen.size())];
    }
    // Hashes that an implementation might treat specially.
    Hash odd_leaf()
    {
        Hash h{};
        switch (c.below(3)) {
        case 0: break;
        case 1: h.fill(0xff); break;
        default:
            if (m.n() >= 2) {
                auto& l = m.levels();
                int r = 1 + (int)c.below(l.size() - 1);
                h = l[r][c.below(l[r].size())]; // same as an inner node
            }
        }
        return h;
    }

    bool keeps(const Client& cl)
    {
        if (first && cl.policy != 0 && cl.policy != 4) return mix(flags, ++flag_no) % (16 >> cl.policy) == 0;
        return cl.policy == 4 || (cl.policy != 0 && c.chance(cl.policy, 4));
    }

    // Nodes a client certainly has: the proofs of the leaves it keeps.
    std::set<model::Node> held(const Client& cl) const
    {
        std::set<model::Node> s;
        for (auto& h : cl.kept) {
            auto pos = m.find(h);
            if (!pos) continue;
            for (auto x : model::proof_nodes(m.n(), {*pos})) s.insert(x);
        }
        return s;
    }

    // The honest proof of sorted targets, as a client may receive it: targets in
    // any order, hashes the client holds possibly left out.
    BatchProof honest(const Client& cl, const std::vector<uint64_t>& targets, bool may_shuffle, bool may_omit)
    {
        std::vector<Hash> hs;
        auto nodes = model::proof_nodes(m.n(), targets);
        bool omit = may_omit && !cl.kept.empty() && c.chance(1, 2);
        if (cl.kept.size() > 20000) omit = false; // takes too long
        std::set<model::Node> have;
        if (omit) have = held(cl);
        if (omit) {
            // A proof with two equal hashes (a leaf may equal an inner node) does not tell which
            // of them was left out: the encoding has no room for it.
            std::set<Hash> all;
            for (auto x : nodes)
                if (!all.insert(m.at(x)).second) have.clear();
        }
        uint64_t rate = omit ? 1 + c.below(4) : 0;
        size_t left_out = 0;
        for (auto x : nodes) {
            if (omit && have.count(x) && c.chance(rate, 4)) {
                ++left_out;
                continue;
            }
            hs.push_back(m.at(x));
        }
        if (left_out) {
            c.label("partial proof");
            LOG(c, "  proof leaves out " << left_out << " of " << nodes.size() << " hashes");
        }
        std::vector<uint64_t> t = targets;
        if (may_shuffle && t.size() > 1 && c.chance(1, 2)) shuffle(c, t);
        return BatchProof(t, hs);
    }

    // The client learns the targets; it has to accept.
    void verify_honest(Client& cl, const std::vector<uint64_t>& targets, bool may_shuffle = true, bool may_omit = true)
    {
        auto th = hashes_at(m, targets);
        BatchProof pr = honest(cl, targets, may_shuffle, may_omit);
        bool ok = cl.p->Verify(pr, th);
        REQUIRE(ok, "an honest proof of leaves " << show(targets) << " of " << m.n() << " (targets sent as " << show(pr.GetTargets()) << ", " << pr.GetHashes().size() << " hashes) was rejected");
        cl.kept.insert(th.begin(), th.end());
    }

    void client_block(Client& cl, const Block& b)
    {
        if (!b.targets.empty()) {
            verify_honest(cl, b.targets);
        }
        std::vector<Leaf> leaves;
        std::string flags;
        for (auto& h : b.adds) {
            bool k = keeps(cl);
            leaves.push_back({h, k});
            if (flags.size() < 300) flags += k ? '1' : '0';
        }
        if (!flags.empty()) LOG(c, "  client keeps " << flags);
        bool ok = cl.p->Modify(leaves, b.targets);
        REQUIRE(ok, "pollard refused a valid block (delete " << show(b.targets) << ", add " << b.adds.size() << ")");
        for (auto& h : b.target_hashes) cl.kept.erase(h);
        for (auto& l : leaves)
            if (l.second) cl.kept.insert(l.first);
    }

    // Forest and model.
    void forest_block(const Block& b)
    {
        std::vector<Leaf> leaves;
        for (auto& h : b.adds) leaves.push_back({h, false});
        UndoBatch u;
        bool ok = f.Modify(u, leaves, b.targets);
        REQUIRE(ok, "forest refused a valid block (delete " << show(b.targets) << ", add " << b.adds.size() << ")");
        m.remove(b.targets);
        m.add(b.adds);
    }
    void model_block(const Block& b)
    {
        m.remove(b.targets);
        m.add(b.adds);
    }
    void trace_block(const Block& b)
    {
        LOG(c, "block on " << m.n() << " leaves: delete " << show(b.targets) << ", add " << b.adds.size());
    }

    // Start over from the roots alone.
    void restart(Client& cl)
    {
        cl.p = std::make_unique<Pollard>(m.roots(), m.n());
        cl.kept.clear();
        c.label("client rebuilt from roots");
        LOG(c, "  client rebuilt from the roots of " << m.n() << " leaves");
    }
    void prune(Client& cl)
    {
        cl.p->Prune();
        cl.kept.clear();
        c.label("client pruned");
        LOG(c, "  client pruned");
    }
};

// Everything a client of a pollard can see.
struct Observation {
    uint64_t n = 0, cached = 0;
    std::vector<Hash> roots;
    std::vector<std::pair<std::vector<uint64_t>, std::vector<Hash>>> proofs;
    bool operator==(const Observation& o) const { return n == o.n && cached == o.cached && roots == o.roots && proofs == o.proofs; }
};
inline Observation observe(const Pollard& p, const Model& m)
{
    Observation o;
    o.n = p.NumLeaves();
    o.cached = p.NumCachedLeaves();
    o.roots = roots_of(p);
    for (auto& h : m.leaves) {
        BatchProof q;
        if (p.Prove(q, {h}))
            o.proofs.push_back({q.GetTargets(), q.GetHashes()});
        else
            o.proofs.push_back({});
    }
    return o;
}
inline std::string diff(const Observation& a, const Observation& b)
{
    std::ostringstream s;
    if (a.n != b.n) s << "number of leaves " << a.n << " vs " << b.n << "; ";
    if (a.cached != b.cached) s << "cached leaves " << a.cached << " vs " << b.cached << "; ";
    if (a.roots != b.roots) s << "roots " << show(a.roots) << " vs " << show(b.roots) << "; ";
    for (size_t i = 0; i < a.proofs.size() && i < b.proofs.size(); ++i)
        if (a.proofs[i] != b.proofs[i]) {
            s << "proof for leaf " << i << ": " << (a.proofs[i].first.empty() ? "none" : show(a.proofs[i].second)) << " vs " << (b.proofs[i].first.empty() ? "none" : show(b.proofs[i].second)) << "; ";
            break;
        }
    return s.str();
}

// A pollard proves what its user told it to keep, and only that.
inline void check_provable(Ctx& c, Pollard& p, const Model& m, const std::set<Hash>& kept, const char* when)
{
    REQUIRE(p.NumCachedLeaves() == kept.size(), when << ": pollard reports " << p.NumCachedLeaves() << " cached leaves, " << kept.size() << " were to be kept");
    std::vector<uint64_t> pos;
    uint64_t some = m.n() > 1000 ? m.n() / 150 : 0, at = some ? c.bits64() : 0; // of a large forest, a sample
    for (uint64_t i = 0; i < m.n(); i += some ? 1 + mix(at, i) % some : 1) {
        BatchProof q;
        bool ok = p.Prove(q, {m.leaves[i]});
        bool want = kept.count(m.leaves[i]) != 0;
        REQUIRE(ok == want, when << ": leaf " << i << " of " << m.n() << (want ? " was to be kept but cannot be proven" : " was not kept but a proof is offered"));
        if (!ok) continue;
        pos.push_back(i);
        REQUIRE(q.GetTargets() == std::vector<uint64_t>{i}, when << ": pollard places leaf " << i << " at " << show(q.GetTargets()));
        REQUIRE(q.GetHashes() == m.proof({i}), when << ": pollard's proof of leaf " << i << " of " << m.n() << " is " << show(q.GetHashes()) << ", expected " << show(m.proof({i})));
    }
    if (pos.size() < 2) return;
    std::vector<uint64_t> want = c.chance(1, 3) ? pos : subset(c, pos, 1, 2);
    if (want.empty()) return;
    std::vector<uint64_t> req = want;
    shuffle(c, req);
    BatchProof q;
    REQUIRE(p.Prove(q, hashes_at(m, req)), when << ": pollard cannot prove kept leaves " << show(req) << " together");
    REQUIRE(q.GetTargets() == req, when << ": proof targets " << show(q.GetTargets()) << " are not in the requested order " << show(req));
    REQUIRE(q.GetHashes() == m.proof(want), when << ": pollard's joint proof of " << show(want) << " is wrong");
    c.label("joint pollard proof");
}
} // namespace vf
