// Bridge and clients over the wire.
#include "history.h"
using namespace vf;

PROPERTY(C19, "case = a bridge (forest, maybe on disk) and 1-2 clients (pollards) connected only by serialised proofs over a random chain of blocks with reorganisations: the bridge undoes 1-4 blocks from serialised "
              "undo records and continues on another branch, clients restart from the roots they had at the fork; every proof of the bridge is accepted, clients and bridge agree on roots and counts after every block, "
              "clients' own proofs are accepted by a fresh client. Non-trivial: at least one reorganisation that undid deletions, followed by a block with deletions")
{
    World w(c, 1 + c.below(2), c.chance(1, 8) ? 250 : 60, 2000, 13);
    bool on_disk = !c.scratch.empty() && c.chance(1, 4);
    std::string path = c.scratch + "/bridge.dat";
    std::unique_ptr<RamForest> f = std::make_unique<RamForest>(0);
    if (on_disk) {
        unlink(path.c_str());
        f = std::make_unique<RamForest>(path);
    }
    struct Step {
        std::vector<uint8_t> undo;
        std::vector<Hash> before, roots;
        uint64_t n;
        bool dels;
    };
    std::vector<Step> chain;
    int steps = 0, reorgs = 0, after = 0;
    while (w.go(steps, 14, 13)) {
        c.span();
        ++steps;
        if (on_disk && c.chance(1, 5)) {
            LOG(c, "bridge restarts");
            f.reset();
            f = std::make_unique<RamForest>(path);
        }
        if (chain.size() >= 2 && c.chance(1, 4)) {
            uint64_t k = 1 + c.below(std::min<size_t>(4, chain.size()));
            bool dels = false;
            for (uint64_t i = 0; i < k; ++i) {
                UndoBatch u;
                REQUIRE(u.Unserialize(chain.back().undo), "the bridge cannot read its undo record");
                REQUIRE(f->Undo(u), "the bridge cannot undo a block");
                w.m.set(chain.back().before);
                dels = dels || chain.back().dels;
                REQUIRE(f->NumLeaves() == chain.back().n && roots_of(*f) == chain.back().roots, "after undoing a block the bridge's roots are not those before the block");
                chain.pop_back();
            }
            LOG(c, "reorganisation: " << k << " blocks undone, " << w.m.n() << " leaves");
            for (auto& cl : w.clients) w.restart(cl);
            if (dels) ++reorgs;
            continue;
        }
        Block b = w.gen_block();
        w.trace_block(b);
        auto req = b.target_hashes;
        shuffle(c, req);
        BatchProof pr;
        REQUIRE(f->Prove(pr, req), "the bridge cannot prove " << show(b.targets));
        std::vector<uint8_t> wire;
        pr.Serialize(wire);
        Step st;
        st.before = w.m.leaves;
        st.roots = roots_of(*f);
        st.n = f->NumLeaves();
        st.dels = !b.targets.empty();
        std::vector<Leaf> plain;
        for (auto& h : b.adds) plain.push_back({h, false});
        for (auto& cl : w.clients) {
            BatchProof got;
            REQUIRE(got.Unserialize(wire), "a client cannot decode the bridge's proof");
            REQUIRE(cl.p->Verify(got, b.target_hashes), "a client rejects the bridge's proof of " << show(b.targets) << " of " << st.n << " leaves");
            std::vector<Leaf> leaves;
            for (auto& h : b.adds) leaves.push_back({h, w.keeps(cl)});
            REQUIRE(cl.p->Modify(leaves, got.GetSortedTargets()), "a client cannot apply a block");
            for (auto& h : b.target_hashes) cl.kept.erase(h);
            for (auto& l : leaves)
                if (l.second) cl.kept.insert(l.first);
        }
        UndoBatch u;
        REQUIRE(f->Modify(u, plain, pr.GetSortedTargets()), "the bridge refuses a valid block");
        u.Serialize(st.undo);
        w.model_block(b);
        chain.push_back(st);
        if (st.dels && reorgs) ++after;
        auto fr = roots_of(*f);
        REQUIRE(f->NumLeaves() == w.m.n() && fr == w.m.roots(), "the bridge's roots differ from the reference after a block");
        for (auto& cl : w.clients) {
            REQUIRE(cl.p->NumLeaves() == f->NumLeaves() && roots_of(*cl.p) == fr, "a client's roots differ from the bridge's after a block");
            std::vector<Hash> mine(cl.kept.begin(), cl.kept.end());
            if (mine.size() > 300) mine.resize(300);
            mine = subset(c, mine, 1, 2);
            if (mine.empty()) continue;
            BatchProof q;
            REQUIRE(cl.p->Prove(q, mine), "a client cannot prove leaves it keeps");
            std::vector<uint8_t> w2;
            q.Serialize(w2);
            BatchProof q2;
            REQUIRE(q2.Unserialize(w2), "a client's proof cannot be decoded");
            Pollard other(w.m.roots(), w.m.n());
            auto pos = q2.GetSortedTargets();
            for (auto x : pos) REQUIRE(x < w.m.n(), "a client's proof names position " << x << " of " << w.m.n());
            REQUIRE(other.Verify(q2, hashes_at(w.m, pos)), "a fresh client rejects another client's proof of " << show(pos));
            auto srt = mine;
            auto h2 = hashes_at(w.m, pos);
            std::sort(srt.begin(), srt.end());
            std::sort(h2.begin(), h2.end());
            REQUIRE(srt == h2, "a client's proof is about other leaves than requested");
            c.label("client to client proof");
        }
    }
    f.reset();
    if (on_disk) unlink(path.c_str());
    if (reorgs >= 1 && after >= 1) c.nontrivial();
}
