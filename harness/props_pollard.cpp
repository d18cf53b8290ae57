// Properties of the pollard: follows the forest, accepts what is true, rejects
// what is false, keeps what it was told to keep and nothing else.
#include "claims.h"
#include "huge.h"
using namespace vf;

static void random_client_op(World& w, Client& cl)
{
    Ctx& c = w.c;
    switch (c.weighted({6, 2, 1, 1})) {
    case 0: break;
    case 1: {
        auto t = gen_targets(c, w.m.n());
        LOG(c, "  client verifies " << show(t));
        w.verify_honest(cl, t);
        break;
    }
    case 2: w.prune(cl); break;
    case 3: w.restart(cl); break;
    }
}

PROPERTY(C02, "case = random history of blocks (delete a set of leaves, add new ones) applied to the reference model, a forest and 1-3 pollards "
              "with random keep policies, with random extra verifications, prunings and restarts from roots; roots and leaf counts compared after "
              "every block. Non-trivial: at least two blocks deleted leaves. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_ROOTS | H_ACCEPT)) return;
    World w(c, 1 + c.below(3), c.chance(1, 8) ? 400 : 80, 2000, 14);
    int steps = 0, dels = 0;
    while (w.go(steps, 14, 8)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        for (auto& cl : w.clients) {
            random_client_op(w, cl);
            check_roots(*cl.p, w.m, "before the block");
            w.client_block(cl, b);
        }
        w.forest_block(b);
        if (!b.targets.empty()) ++dels;
        auto fr = roots_of(w.f);
        for (auto& cl : w.clients) {
            check_roots(*cl.p, w.m, "after the block");
            REQUIRE(roots_of(*cl.p) == fr, "pollard and forest disagree about the roots");
        }
    }
    if (dels >= 2) c.nontrivial();
}

PROPERTY(C03, "case = random history with one pollard, interleaved with honest proofs of random leaf sets: from the forest's prover (hashes requested in "
              "random order), or with targets in random order, or with hashes left out that the pollard holds; every one has to be accepted, also "
              "repeatedly. Non-trivial: at least three proofs with two or more targets, one of them after a deletion. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_ACCEPT)) return;
    World w(c, 1, c.chance(1, 10) ? 300 : 70, 2000, 14);
    Client& cl = w.clients[0];
    int steps = 0, proofs = 0, after_del = 0;
    bool deleted = false;
    while (w.go(steps, 16, 11)) {
        c.span();
        ++steps;
        if (w.m.n() == 0 || c.chance(2, 5)) {
            Block b = w.gen_block();
            w.trace_block(b);
            if (c.chance(1, 8)) w.prune(cl);
            if (c.chance(1, 8)) w.restart(cl);
            if (!b.targets.empty()) deleted = true;
            w.client_block(cl, b);
            w.forest_block(b);
            continue;
        }
        if (c.chance(1, 5)) {
            // a claim that is refused must not spoil what follows
            Claim k = gen_claim(w, {});
            if (!claim_true(w.m, k)) {
                LOG(c, "false claim: targets " << show(k.targets) << " hashes " << show(k.target_hashes) << " proof " << show(k.hashes));
                cl.p->Verify(BatchProof(k.targets, k.hashes), k.target_hashes);
                c.label("false claim before");
            }
        }
        auto t = gen_targets(c, w.m.n());
        auto th = hashes_at(w.m, t);
        if (c.chance(1, 2)) {
            auto req = th;
            shuffle(c, req);
            BatchProof pr;
            LOG(c, "forest proves " << show(t) << ", client verifies");
            REQUIRE(w.f.Prove(pr, req), "the forest cannot prove its own leaves " << show(t));
            REQUIRE(cl.p->Verify(pr, th), "the forest's proof of leaves " << show(t) << " of " << w.m.n() << " (targets " << show(pr.GetTargets()) << ") was rejected");
            REQUIRE(w.f.Verify(pr, th), "the forest rejects its own proof of " << show(t));
            cl.kept.insert(th.begin(), th.end());
            c.label("forest's own proof");
        } else {
            LOG(c, "client verifies " << show(t));
            w.verify_honest(cl, t);
        }
        if (c.chance(1, 6)) {
            LOG(c, "again");
            w.verify_honest(cl, t);
        }
        if (t.size() >= 2) {
            ++proofs;
            if (deleted) ++after_del;
        }
    }
    if (proofs >= 3 && after_del >= 1) c.nontrivial();
}

// Blocks and claims alternate; `judge` gets every claim.
template <class F>
static void claims_history(Ctx& c, World& w, Client& cl, F&& judge)
{
    std::vector<Claim> old;
    int steps = 0;
    while (w.go(steps, 16, 13)) {
        c.span();
        ++steps;
        if (w.m.n() == 0 || c.chance(2, 7)) {
            Block b = w.gen_block();
            w.trace_block(b);
            if (w.m.n()) {
                Claim k;
                k.targets = gen_targets(c, w.m.n(), false);
                k.target_hashes = hashes_at(w.m, k.targets);
                k.hashes = w.m.proof(k.targets);
                old.push_back(k);
            }
            random_client_op(w, cl);
            w.client_block(cl, b);
            w.model_block(b);
            check_roots(*cl.p, w.m, "after the block");
            continue;
        }
        Claim k = gen_claim(w, old);
        LOG(c, "claim: targets " << show(k.targets) << " hashes " << show(k.target_hashes) << " proof " << show(k.hashes) << (claim_true(w.m, k) ? " (true)" : " (false)"));
        judge(k);
    }
}

PROPERTY(C04, "case = random history with one pollard, interleaved with claims: honest proofs edited 0-3 times (claimed hash, position, proof hash "
              "replaced, flipped, moved, dropped, duplicated or inserted; stale proofs; internal nodes claimed as leaves; zero hashes; 64-bit "
              "positions); an accepted claim must be true in the model and carry only hashes of the true proof, in order; roots never change. "
              "Non-trivial: at least three false claims judged, one of them with a pollard that keeps leaves. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_REJECT | H_ROOTS)) return;
    World w(c, 1, c.chance(1, 10) ? 200 : 50);
    Client& cl = w.clients[0];
    int forged = 0;
    bool with_cache = false;
    claims_history(c, w, cl, [&](const Claim& k) {
        bool truth = claim_true(w.m, k);
        auto sorted = k.targets;
        std::sort(sorted.begin(), sorted.end());
        bool ok = cl.p->Verify(BatchProof(k.targets, k.hashes), k.target_hashes);
        if (ok) {
            REQUIRE(truth, "a false claim was accepted: positions " << show(sorted) << " with hashes " << show(k.target_hashes) << " in a forest of " << w.m.n() << " leaves");
            if (!sorted.empty())
                REQUIRE(is_subsequence(k.hashes, w.m.proof(sorted)), "a proof of " << show(sorted) << " was accepted although it contains hashes that do not belong to it: " << show(k.hashes) << ", true proof " << show(w.m.proof(sorted)));
            for (auto& h : k.target_hashes) cl.kept.insert(h);
            c.label("accepted claim");
        }
        if (!truth) {
            ++forged;
            if (!cl.kept.empty()) with_cache = true;
        }
        check_roots(*cl.p, w.m, "after a claim");
    });
    if (forged >= 3 && with_cache) c.nontrivial();
}

PROPERTY(C05, "case = random history with a pollard and a twin; the pollard is additionally sent claims that it rejects (edited proofs as in C04); after every "
              "rejection the pollard must look exactly as before (roots, leaf count, cached leaves, node count, which leaves it proves and how) and stay "
              "equal to the twin through all later blocks. Non-trivial: at least two rejections and a later block with deletions. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_SAME)) return;
    World w(c, 2, c.chance(1, 10) ? 150 : 45);
    Client &cl = w.clients[0], &twin = w.clients[1];
    int rejected = 0, later = 0, steps = 0;
    std::vector<Claim> old;
    while (w.go(steps, 14, 13)) {
        c.span();
        ++steps;
        if (w.m.n() == 0 || c.chance(2, 7)) {
            Block b = w.gen_block();
            w.trace_block(b);
            if (!b.targets.empty()) {
                auto th = hashes_at(w.m, b.targets);
                BatchProof pr = w.honest(twin, b.targets, true, true);
                bool a = cl.p->Verify(pr, th), z = twin.p->Verify(pr, th);
                REQUIRE(z, "an honest proof of " << show(b.targets) << " was rejected");
                REQUIRE(a, "an honest proof of " << show(b.targets) << " was rejected by the pollard that had rejected " << rejected << " claims before");
                if (rejected >= 2) ++later;
            }
            std::vector<Leaf> leaves;
            for (auto& h : b.adds) leaves.push_back({h, w.keeps(twin)});
            REQUIRE(twin.p->Modify(leaves, b.targets), "valid block refused");
            REQUIRE(cl.p->Modify(leaves, b.targets), "valid block refused after rejected claims");
            for (auto& h : b.target_hashes) twin.kept.erase(h);
            for (auto& l : leaves)
                if (l.second) twin.kept.insert(l.first);
            w.model_block(b);
            if (w.m.n()) {
                Claim k;
                k.targets = gen_targets(c, w.m.n(), false);
                k.target_hashes = hashes_at(w.m, k.targets);
                k.hashes = w.m.proof(k.targets);
                old.push_back(k);
            }
            if (c.chance(1, 8)) {
                LOG(c, "  both pruned");
                cl.p->Prune();
                twin.p->Prune();
                twin.kept.clear();
            }
            Observation oa = observe(*cl.p, w.m), ob = observe(*twin.p, w.m);
            REQUIRE(oa == ob, "after " << rejected << " rejected claims and a block the pollard differs from one that never saw them: " << diff(oa, ob));
            continue;
        }
        cl.kept = twin.kept;
        Claim k = gen_claim(w, old);
        if (claim_true(w.m, k)) {
            // keep the statement, break the proof
            if (k.targets.empty()) continue;
            k.hashes.push_back(w.g.fresh());
        }
        LOG(c, "claim: targets " << show(k.targets) << " hashes " << show(k.target_hashes) << " proof " << show(k.hashes));
        Observation before = observe(*cl.p, w.m);
        uint64_t nodes = cl.p->CountNodes();
        if (cl.p->Verify(BatchProof(k.targets, k.hashes), k.target_hashes)) return; // judged by C04
        ++rejected;
        Observation after = observe(*cl.p, w.m);
        REQUIRE(after == before, "a rejected claim changed the pollard: " << diff(before, after));
        REQUIRE(cl.p->CountNodes() == nodes, "a rejected claim changed the number of nodes from " << nodes << " to " << cl.p->CountNodes());
    }
    if (rejected >= 2 && later >= 1) c.nontrivial();
}

PROPERTY(C06, "case = random history with one pollard (random keep policy, extra verifications, prunings, restarts); before and after every block: it proves "
              "each kept leaf, and random sets of them in random order, with exactly the model's proof, offers no proof for other leaves, reports their number, "
              "and its positions agree with the forest's. Non-trivial: at least two blocks with deletions while leaves are kept. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_PROVE)) return;
    World w(c, 1, c.chance(1, 10) ? 200 : 60, 2500, 17);
    int steps = 0, dels = 0;
    Client& cl = w.clients[0];
    while (w.go(steps, 12, 8)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        random_client_op(w, cl);
        check_provable(c, *cl.p, w.m, cl.kept, "before the block");
        w.client_block(cl, b);
        w.forest_block(b);
        check_provable(c, *cl.p, w.m, cl.kept, "after the block");
        REQUIRE(cl.p->ComparePositionMap(w.f), "after the block: the pollard's positions differ from the forest's");
        if (!b.targets.empty() && !cl.kept.empty()) ++dels;
    }
    if (dels >= 2) c.nontrivial();
}

PROPERTY(C07, "case = random history with one pollard as in C06, plus rejected claims; at every step the number of nodes it holds is at most roots plus branches "
              "(path and siblings) of the kept leaves; after pruning it is exactly the number of roots, nothing is provable, and roots are unchanged. "
              "Non-trivial: at least two blocks with deletions, and leaves were kept. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_BOUND)) return;
    World w(c, 1, c.chance(1, 6) ? 300 : 70);
    int steps = 0, dels = 0;
    bool kept = false;
    Client& cl = w.clients[0];
    std::vector<Claim> old;
    auto bound = [&](const char* when) {
        std::set<model::Node> s;
        for (auto& h : cl.kept) {
            std::vector<model::Node> comp;
            auto pos = w.m.find(h);
            for (auto x : model::proof_nodes(w.m.n(), {*pos}, &comp)) s.insert(x);
            s.insert(comp.begin(), comp.end());
        }
        for (int r = 0; r < 64; ++r)
            if ((w.m.n() >> r) & 1) s.insert({r, (w.m.n() >> r) - 1});
        uint64_t have = cl.p->CountNodes();
        REQUIRE(have <= s.size(), when << ": the pollard holds " << have << " nodes for " << cl.kept.size() << " kept of " << w.m.n() << " leaves; roots and their branches are only " << s.size());
        REQUIRE(have >= w.m.roots().size(), when << ": the pollard reports " << have << " nodes but has " << w.m.roots().size() << " roots");
    };
    while (w.go(steps, 12, 8)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        switch (c.weighted({4, 2, 2, 1, 2})) {
        case 0: break;
        case 1: {
            auto t = gen_targets(c, w.m.n());
            LOG(c, "  client verifies " << show(t));
            w.verify_honest(cl, t);
            break;
        }
        case 2: {
            w.prune(cl);
            REQUIRE(cl.p->CountNodes() == w.m.roots().size(), "a pruned pollard holds " << cl.p->CountNodes() << " nodes, it has " << w.m.roots().size() << " roots");
            check_provable(c, *cl.p, w.m, cl.kept, "after pruning");
            check_roots(*cl.p, w.m, "after pruning");
            break;
        }
        case 3: w.restart(cl); break;
        case 4:
            if (w.m.n()) {
                Claim k = gen_claim(w, old);
                if (claim_true(w.m, k)) break;
                LOG(c, "  claim: targets " << show(k.targets));
                if (cl.p->Verify(BatchProof(k.targets, k.hashes), k.target_hashes)) return; // judged by C04
            }
            break;
        }
        bound("before the block");
        w.client_block(cl, b);
        w.model_block(b);
        bound("after the block");
        if (!b.targets.empty()) ++dels;
        if (!cl.kept.empty()) kept = true;
    }
    if (dels >= 2 && kept) c.nontrivial();
}
