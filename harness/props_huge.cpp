// Pollards of forests no test can hold.
#include "huge.h"
using namespace vf;

PROPERTY(C15, "case = a pollard started from the roots of an invented forest of up to 2^60 leaves (only the branches of a few leaves exist, all other subtrees are opaque hashes); honest proofs of those leaves "
              "must be accepted, also partially, proofs from the pollard must equal the reference, forged ones must be rejected, and adding leaves and deleting the verified ones must give the reference's roots. "
              "Half of the cases are histories of such a pollard: blocks, verifications, forged claims, invalid blocks, pruning, restarts, with what it proves and holds compared after every step. "
              "Non-trivial: more than 2^32 leaves and a non-empty leaf set")
{
    if (c.chance(1, 2)) {
        auto st = huge_history(c, H_ALL);
        if (st.n > (1ull << 32) && st.verified) c.nontrivial();
        return;
    }
    LeafGen g;
    g.init(c);
    uint64_t n = gen_n(c, 60, 1);
    bool del = c.chance(1, 2);
    if (del) n |= (1ull << c.below(11)) - 1; // small trees to fill gaps from
    auto t = gen_sparse_targets(c, n);
    std::vector<Hash> th;
    for (size_t i = 0; i < t.size(); ++i) th.push_back(g.fresh());
    Sparse s = Sparse::invent(c, n, t, th, g);
    Pollard p(s.roots(), n);
    LOG(c, n << " leaves, targets " << show(t));
    auto roots_ok = [&](const char* when) {
        REQUIRE(p.NumLeaves() == s.n, when << ": pollard reports " << p.NumLeaves() << " leaves, expected " << s.n);
        auto r = roots_of(p);
        REQUIRE(r == s.roots(), when << " (" << n << " leaves, targets " << show(t) << "): roots " << show(r) << " differ from " << show(s.roots()));
    };
    roots_ok("after starting from roots");
    auto full = s.proof(t);
    REQUIRE(BatchProof(t, full).CheckSanity(n), "sanity check refuses an honest proof in " << n << " leaves");
    for (uint64_t k = c.below(3); k > 0; --k) { // forged first
        if (t.empty()) break;
        auto h = th;
        auto pr = full;
        auto tt = t;
        switch (c.weighted({3, 2, 2, 2, 3, 1, 1, 1})) {
        case 0: h[c.below(h.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8)); break;
        case 1:
            if (pr.empty()) continue;
            pr[c.below(pr.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
            break;
        case 2:
            if (pr.empty()) continue;
            pr.erase(pr.begin() + c.below(pr.size()));
            break;
        case 3: {
            uint64_t x = c.below(n);
            if (std::find(tt.begin(), tt.end(), x) != tt.end()) continue;
            tt[c.below(tt.size())] = x;
            break;
        }
        case 4: { // one bit of a position: a leaf far away, or no leaf at all
            size_t i = c.below(tt.size());
            uint64_t x = tt[i] ^ (1ull << c.below(64));
            if (std::find(tt.begin(), tt.end(), x) != tt.end()) continue;
            tt[i] = x;
            std::vector<std::pair<uint64_t, Hash>> z;
            for (size_t j = 0; j < tt.size(); ++j) z.push_back({tt[j], h[j]});
            std::sort(z.begin(), z.end());
            for (size_t j = 0; j < tt.size(); ++j) tt[j] = z[j].first, h[j] = z[j].second;
            break;
        }
        case 5: { // the position of an ancestor
            size_t i = c.below(tt.size());
            int R = model::rows_for(n), r = 1 + (int)c.below(R + 1);
            if (R == 0) continue;
            tt[i] = r > R ? (2ull << R) - 1 : model::position(R, r, tt[i] >> r);
            break;
        }
        case 6: { // a target twice
            size_t i = c.below(tt.size());
            tt.insert(tt.begin() + i, tt[i]);
            h.insert(h.begin() + i, h[i]);
            break;
        }
        default: // hashes in another order, or one too many
            if (pr.size() > 1 && c.chance(1, 2)) {
                size_t i = c.below(pr.size() - 1);
                std::swap(pr[i], pr[i + 1]);
            } else {
                pr.insert(pr.begin() + c.below(pr.size() + 1), pr.empty() ? g.fresh() : pr[c.below(pr.size())]);
            }
            break;
        }
        bool ok = p.Verify(BatchProof(tt, pr), h);
        REQUIRE(!ok, "a forged proof of " << show(tt) << " in " << n << " leaves was accepted");
        roots_ok("after a forged proof");
        REQUIRE(p.NumCachedLeaves() == 0 && p.CountNodes() == s.root.size(), "a forged proof left something behind");
        c.label("forged");
    }
    // maybe learn a part first
    auto part = subset(c, t, 1, 3);
    std::set<model::Node> have;
    if (!part.empty()) {
        std::vector<Hash> ph;
        for (auto x : part) ph.push_back(th[std::lower_bound(t.begin(), t.end(), x) - t.begin()]);
        std::vector<Hash> pp;
        for (auto x : model::proof_nodes(n, part)) pp.push_back(s.at.at(x));
        REQUIRE(p.Verify(BatchProof(part, pp), ph), "an honest proof of " << show(part) << " in " << n << " leaves was rejected");
        for (auto x : part)
            for (auto y : model::proof_nodes(n, {x})) have.insert(y);
        c.label("learned in two parts");
    }
    std::vector<Hash> sent;
    bool omit = c.chance(1, 2);
    for (auto x : model::proof_nodes(n, t))
        if (!omit || !have.count(x)) sent.push_back(s.at.at(x));
    REQUIRE(p.Verify(BatchProof(t, sent), th), "an honest proof of " << show(t) << " in " << n << " leaves was rejected (" << sent.size() << " of " << full.size() << " hashes sent)");
    roots_ok("after verification");
    auto some = subset(c, t, 2, 3);
    if (!some.empty()) {
        std::vector<Hash> sh;
        for (auto x : some) sh.push_back(th[std::lower_bound(t.begin(), t.end(), x) - t.begin()]);
        BatchProof q;
        REQUIRE(p.Prove(q, sh), "verified leaves " << show(some) << " of " << n << " cannot be proven");
        std::vector<Hash> want;
        for (auto x : model::proof_nodes(n, some)) want.push_back(s.at.at(x));
        REQUIRE(q.GetTargets() == some && q.GetHashes() == want, "pollard's proof of " << show(some) << " in " << n << " leaves is wrong");
    }
    if (del && !t.empty() && cheap(n, t, 9)) {
        s.remove(t);
        REQUIRE(p.Modify({}, t), "deleting " << show(t) << " refused");
        roots_ok("after deletion");
        REQUIRE(p.NumCachedLeaves() == 0, "deleted leaves are still cached");
        c.label("deleted");
    }
    std::vector<Leaf> adds;
    for (uint64_t k = c.below(12); k > 0; --k) {
        Hash h = g.fresh();
        adds.push_back({h, false});
        s.add(h);
    }
    REQUIRE(p.Modify(adds, {}), "adding refused");
    roots_ok("after additions");
    if (n > (1ull << 32) && !t.empty()) c.nontrivial();
}

