// What accumulators keep allocated, by the sanitizer's allocator.
#include "claims.h"
#include <sanitizer/allocator_interface.h>
using namespace vf;

namespace {
// Bytes the metered calls left allocated.
struct Meter {
    int64_t held = 0;
    template <class F>
    auto operator()(F&& f)
    {
        struct Scope {
            Meter& m;
            int64_t before = (int64_t)__sanitizer_get_current_allocated_bytes();
            ~Scope() { m.held += (int64_t)__sanitizer_get_current_allocated_bytes() - before; }
        } s{*this};
        return f();
    }
};
struct Op {
    enum { BLOCK, VERIFY, REJECT, PRUNE, PROVE, RESTART, UNDO } kind;
    std::vector<Leaf> leaves;
    std::vector<uint64_t> targets;
    BatchProof proof;
    std::vector<Hash> hashes;
    uint64_t n = 0;
};
// Strictly more in every one of the last repetitions.
bool grows(const std::vector<int64_t>& v, size_t from)
{
    for (size_t i = from; i < v.size(); ++i)
        if (v[i] <= v[i - 1]) return false;
    return v.size() > from;
}
std::string show64(const std::vector<int64_t>& v)
{
    std::string s;
    for (auto x : v) s += (s.empty() ? "" : " ") + std::to_string(x);
    return s;
}
} // namespace

PROPERTY(C22, "case = one of: (a) a random history (blocks, undos, proofs, rejected claims, pruning, restarts) of a forest and a pollard, run five times with the same steps from construction to destruction: the allocator must "
              "not hold more after each repetition; (b) at a random state, a step that ends where it began (block and its undo; a rejected claim; a proof request; verifying again; verify and prune) repeated eight times; "
              "(c) 60 to 200 rounds of verify, delete and add on a small pollard, which must stay within a bound given by its roots, kept leaves and their branches. Non-trivial: a history with deletions, or at least one step of (b), (c)")
{
    size_t mode = c.weighted({3, 5, 2});
    if (mode == 2) {
        // a long life at small size
        World w(c, 1, 12 + c.below(30));
        w.cap = 12 + c.below(30); // not scaled
        Client& cl = w.clients[0];
        cl.p.reset();
        Meter m;
        m([&] { cl.p = std::make_unique<Pollard>(0); });
        size_t most = 0;
        uint64_t rounds = (60 + c.below(140)) * g_scale;
        int dels = 0;
        std::vector<Claim> old;
        for (uint64_t r = 0; r < rounds && (r < 2 || !c.exhausted()); ++r) {
            if (r % 8 == 0) c.span();
            Block b = w.gen_block();
            auto th = hashes_at(w.m, b.targets);
            {
                BatchProof pr = w.honest(cl, b.targets, true, true);
                bool ok = true;
                if (!b.targets.empty()) m([&] { ok = cl.p->Verify(pr, th); });
                REQUIRE(ok, "an honest proof was rejected");
            }
            most = std::max(most, cl.kept.size() + th.size());
            if (w.m.n() && c.chance(1, 3)) {
                Claim k = gen_claim(w, old);
                if (!claim_true(w.m, k)) {
                    BatchProof pr(k.targets, k.hashes);
                    bool ok = false;
                    m([&] { ok = cl.p->Verify(pr, k.target_hashes); });
                    if (ok) return; // judged by C04
                }
            }
            std::vector<Leaf> leaves;
            for (auto& h : b.adds) leaves.push_back({h, w.keeps(cl)});
            bool ok = true;
            m([&] { ok = cl.p->Modify(leaves, b.targets); });
            REQUIRE(ok, "valid block refused");
            if (!b.targets.empty()) ++dels;
            for (auto& h : b.target_hashes) cl.kept.erase(h);
            for (auto& l : leaves)
                if (l.second) cl.kept.insert(l.first);
            w.model_block(b);
            most = std::max(most, cl.kept.size());
            std::set<model::Node> s;
            for (auto& h : cl.kept) {
                std::vector<model::Node> comp;
                for (auto x : model::proof_nodes(w.m.n(), {*w.m.find(h)}, &comp)) s.insert(x);
                s.insert(comp.begin(), comp.end());
            }
            int64_t bound = 4096 + 320 * (int64_t)(s.size() + w.m.roots().size()) + 160 * (int64_t)cl.kept.size() + 64 * (int64_t)most;
            REQUIRE(m.held <= bound, "after " << r + 1 << " rounds the pollard holds " << m.held << " bytes for " << w.m.roots().size() << " roots, " << cl.kept.size() << " kept leaves and " << s.size() << " nodes of their branches");
        }
        if (dels > 20) c.nontrivial();
        c.label("long life");
        return;
    }
    World w(c, 1, 40);
    Client& cl = w.clients[0];
    std::vector<Claim> old;
    // a history, written down
    std::vector<Op> pol, fst;
    std::vector<std::pair<UndoBatch, std::vector<Hash>>> undo;
    int steps = 0, dels = 0;
    int want = mode == 0 ? 8 : 4;
    while (steps < want * g_scale && (steps < 2 || c.chance(9, 10))) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        for (uint64_t k = c.below(3); k > 0 && w.m.n(); --k) {
            Op o;
            switch (c.below(4)) {
            case 0: {
                auto t = gen_targets(c, w.m.n(), false);
                o.kind = Op::VERIFY;
                o.proof = w.honest(cl, t, true, true);
                o.hashes = hashes_at(w.m, t);
                REQUIRE(cl.p->Verify(o.proof, o.hashes), "an honest proof was rejected");
                cl.kept.insert(o.hashes.begin(), o.hashes.end());
                break;
            }
            case 1: {
                Claim q = gen_claim(w, old);
                if (claim_true(w.m, q)) continue;
                o.kind = Op::REJECT;
                o.proof = BatchProof(q.targets, q.hashes);
                o.hashes = q.target_hashes;
                if (cl.p->Verify(o.proof, o.hashes)) return; // judged by C04
                break;
            }
            case 2:
                o.kind = Op::PRUNE;
                w.prune(cl);
                break;
            default: {
                o.kind = Op::PROVE;
                o.hashes = std::vector<Hash>(cl.kept.begin(), cl.kept.end());
                if (c.chance(1, 4)) o.hashes.push_back(w.g.fresh());
                break;
            }
            }
            pol.push_back(o);
        }
        Op o;
        if (!b.targets.empty()) {
            o.kind = Op::VERIFY;
            o.proof = w.honest(cl, b.targets, true, true);
            o.hashes = b.target_hashes;
            REQUIRE(cl.p->Verify(o.proof, o.hashes), "an honest proof was rejected");
            pol.push_back(o);
            ++dels;
        }
        Op bl;
        bl.kind = Op::BLOCK;
        bl.targets = b.targets;
        for (auto& h : b.adds) bl.leaves.push_back({h, w.keeps(cl)});
        REQUIRE(cl.p->Modify(bl.leaves, bl.targets), "valid block refused");
        for (auto& h : b.target_hashes) cl.kept.erase(h);
        for (auto& l : bl.leaves)
            if (l.second) cl.kept.insert(l.first);
        pol.push_back(bl);
        fst.push_back(bl);
        UndoBatch u;
        REQUIRE(w.f.Modify(u, bl.leaves, bl.targets), "valid block refused");
        undo.push_back({u, w.m.leaves});
        w.model_block(b);
    }
    if (mode == 0) {
        auto run = [&](Meter& m) {
            std::unique_ptr<Pollard> p;
            std::unique_ptr<RamForest> f;
            m([&] {
                p = std::make_unique<Pollard>(0);
                f = std::make_unique<RamForest>(0);
            });
            for (auto& o : pol)
                m([&] {
                    switch (o.kind) {
                    case Op::BLOCK: p->Modify(o.leaves, o.targets); break;
                    case Op::PRUNE: p->Prune(); break;
                    case Op::PROVE: {
                        BatchProof q;
                        p->Prove(q, o.hashes);
                        break;
                    }
                    default: p->Verify(o.proof, o.hashes);
                    }
                });
            std::vector<UndoBatch> us(fst.size());
            for (size_t i = 0; i < fst.size(); ++i)
                m([&] {
                    UndoBatch u;
                    f->Modify(u, fst[i].leaves, fst[i].targets);
                    if (i + 1 == fst.size()) {
                        f->Undo(u);
                        f->Modify(u, fst[i].leaves, fst[i].targets);
                    }
                    std::vector<Hash> all;
                    for (uint64_t k = 0; k < f->NumLeaves(); ++k) all.push_back(f->GetLeaf(k));
                    BatchProof q;
                    f->Prove(q, all);
                    std::vector<uint8_t> bytes;
                    q.Serialize(bytes);
                    BatchProof q2;
                    q2.Unserialize(bytes);
                    q2.CheckSanity(f->NumLeaves());
                });
            m([&] {
                p.reset();
                f.reset();
            });
        };
        std::vector<int64_t> left;
        Meter m;
        for (int i = 0; i < 5; ++i) {
            run(m);
            left.push_back(m.held);
        }
        LOG(c, "bytes left after each life: " << show64(left));
        REQUIRE(!grows(left, 2), "each life of a forest and a pollard leaves memory behind: bytes held after each of five: " << show64(left));
        if (dels) c.nontrivial();
        c.label("whole lives");
        return;
    }
    // steps that end where they began
    for (uint64_t q = 1 + c.below(4); q > 0; --q) {
        c.span();
        Op o;
        std::string what;
        size_t kind = c.weighted({2, 3, 2, 2, 2});
        Block b = w.gen_block();
        std::vector<Leaf> leaves;
        for (auto& h : b.adds) leaves.push_back({h, true});
        switch (kind) {
        case 0: what = "a block and its undo"; break;
        case 1: {
            if (!w.m.n()) continue;
            Claim k = gen_claim(w, old);
            if (claim_true(w.m, k)) continue;
            o.proof = BatchProof(k.targets, k.hashes);
            o.hashes = k.target_hashes;
            what = "a rejected claim";
            break;
        }
        case 2: {
            o.hashes = std::vector<Hash>(cl.kept.begin(), cl.kept.end());
            if (c.chance(1, 4)) o.hashes.push_back(w.g.fresh());
            shuffle(c, o.hashes);
            what = "a proof request";
            break;
        }
        case 3:
        case 4: {
            auto t = gen_targets(c, w.m.n());
            o.proof = w.honest(cl, t, true, kind == 3);
            o.hashes = hashes_at(w.m, t);
            what = kind == 3 ? "verifying the same proof" : "verifying and pruning";
            break;
        }
        }
        LOG(c, "repeat: " << what);
        Meter m;
        std::vector<int64_t> v;
        for (int i = 0; i < 8; ++i) {
            m([&] {
                switch (kind) {
                case 0: {
                    UndoBatch u;
                    w.f.Modify(u, leaves, b.targets);
                    w.f.Undo(u);
                    break;
                }
                case 1: cl.p->Verify(o.proof, o.hashes); break;
                case 2: {
                    BatchProof x;
                    cl.p->Prove(x, o.hashes);
                    w.f.Prove(x, o.hashes);
                    break;
                }
                case 3: cl.p->Verify(o.proof, o.hashes); break;
                default:
                    cl.p->Verify(o.proof, o.hashes);
                    cl.p->Prune();
                }
            });
            v.push_back(m.held);
        }
        if (kind == 3) cl.kept.insert(o.hashes.begin(), o.hashes.end());
        if (kind == 4) cl.kept.clear();
        LOG(c, "bytes held: " << show64(v));
        REQUIRE(!grows(v, 3), "repeating " << what << " holds more memory each time: " << show64(v));
        c.label(kind == 0 ? "block and undo" : kind == 1 ? "rejected claim" : kind == 2 ? "proof request" : kind == 3 ? "verify again" : "verify and prune");
        c.nontrivial();
    }
}
