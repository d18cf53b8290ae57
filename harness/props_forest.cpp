// Properties of the full forest.
#include "huge.h"
using namespace vf;
using utreexo::Accumulator;

// Apply a block in one of the ways the API offers.
static void apply_forest(Ctx& c, RamForest& f, const Block& b)
{
    std::vector<Leaf> leaves;
    for (auto& h : b.adds) leaves.push_back({h, b.adds.size() < 200 && c.chance(1, 4)});
    size_t way = c.weighted({3, 2, 2, 2});
    LOG(c, "  applied in way " << way);
    if (way == 0) {
        UndoBatch u;
        REQUIRE(f.Modify(u, leaves, b.targets), "forest refused a valid block");
    } else if (way == 1) {
        Accumulator& a = f;
        REQUIRE(a.Modify(leaves, b.targets), "forest refused a valid block");
    } else if (way == 2) { // deletions first, then the additions in pieces
        c.label("additions in pieces");
        Accumulator& a = f;
        REQUIRE(a.Modify({}, b.targets), "forest refused valid deletions");
        size_t i = 0;
        while (i < leaves.size()) {
            size_t k = 1 + c.below(leaves.size() - i);
            std::vector<Leaf> part(leaves.begin() + i, leaves.begin() + i + k);
            if (c.chance(1, 2))
                REQUIRE(f.Add(part), "forest refused additions");
            else
                REQUIRE(a.Modify(part, {}), "forest refused additions");
            i += k;
        }
    } else { // with an undo record, additions separately
        UndoBatch u;
        REQUIRE(f.Modify(u, {}, b.targets), "forest refused valid deletions");
        REQUIRE(f.Add(leaves), "forest refused additions");
    }
}

PROPERTY(C01, "case = random history of blocks on a forest and the reference model (deletion sets: none, single, sparse, dense, runs, aligned subtrees, suffixes, "
              "all), blocks applied through either Modify or in pieces; leaf order, leaf count and roots compared after every block. Non-trivial: at least "
              "three blocks, two of them deleting leaves")
{
    World w(c, 0, c.chance(1, 6) ? 600 : 120, 2000, 17);
    check_forest(w.f, w.m, "empty forest");
    int steps = 0, dels = 0;
    while (w.go(steps, 16, 10)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        apply_forest(c, w.f, b);
        w.model_block(b);
        check_forest(w.f, w.m, "after the block");
        if (!b.targets.empty()) ++dels;
    }
    if (steps >= 3 && dels >= 2) c.nontrivial();
}

PROPERTY(C08, "case = random history on a forest; after every block several prove requests (random sets in random order, with unknown, deleted or repeated "
              "hashes mixed in): success exactly for distinct present leaves, targets in request order at the model's positions, hashes exactly the model's minimal "
              "proof; each proof is also checked by an independent verifier. Non-trivial: at least one refused and two multi-leaf requests after a deletion")
{
    World w(c, 0, c.chance(1, 6) ? 500 : 90, 3000, 17);
    int steps = 0, refused = 0, multi = 0;
    bool deleted = false;
    std::vector<Hash> gone;
    while (w.go(steps, 10, 8)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        w.forest_block(b);
        for (auto& h : b.target_hashes) gone.push_back(h);
        if (!b.targets.empty()) deleted = true;
        for (uint64_t q = c.below(4); q > 0; --q) {
            auto t = gen_targets(c, w.m.n());
            auto req = hashes_at(w.m, t);
            bool valid = true;
            switch (c.weighted({5, 1, 1, 1, 1})) {
            case 0: break;
            case 1:
                req.push_back(w.g.fresh());
                valid = false;
                break;
            case 2:
                if (!gone.empty()) {
                    req.push_back(gone[c.below(gone.size())]);
                    valid = false;
                }
                break;
            case 3:
                if (!req.empty()) {
                    req.push_back(req[c.below(req.size())]);
                    valid = false;
                }
                break;
            case 4: { // the hash of an inner node is not a leaf
                if (w.m.n() >= 2) {
                    auto& l = w.m.levels();
                    req.push_back(l[1][c.below(l[1].size())]);
                    valid = false;
                }
                break;
            }
            }
            shuffle(c, req);
            // decided by the model: an old leaf may be present again, an inner node's hash may also be a leaf
            std::set<Hash> once(req.begin(), req.end());
            bool present = true;
            for (auto& h : req) present = present && w.m.find(h);
            valid = present && once.size() == req.size();
            BatchProof pr({12345}, {w.g.make(1)});
            bool ok = w.f.Prove(pr, req);
            LOG(c, "prove " << show(t) << (valid ? "" : " and something absent or repeated"));
            REQUIRE(ok == valid, "proving " << show(t) << (valid ? "" : " plus an absent or repeated hash") << " on " << w.m.n() << " leaves " << (ok ? "succeeded" : "failed"));
            if (!present) REQUIRE(!w.f.Verify(BatchProof(t, w.m.proof(t)), req), "the forest confirms hashes it does not contain");
            if (!ok) {
                ++refused;
                continue;
            }
            std::vector<uint64_t> want;
            for (auto& h : req) want.push_back(*w.m.find(h));
            REQUIRE(pr.GetTargets() == want, "targets " << show(pr.GetTargets()) << " do not follow the request " << show(want));
            t = want;
            std::sort(t.begin(), t.end());
            REQUIRE(pr.GetSortedTargets() == t, "sorted targets " << show(pr.GetSortedTargets()) << " are not " << show(t));
            REQUIRE(pr.GetHashes() == w.m.proof(t), "proof of " << show(t) << " on " << w.m.n() << " leaves is " << show(pr.GetHashes()) << ", minimal proof is " << show(w.m.proof(t)));
            REQUIRE(pr.CheckSanity(w.m.n()), "the forest's own proof fails the sanity check");
            REQUIRE(w.f.Verify(pr, hashes_at(w.m, t)), "the forest does not confirm its own proof");
            if (t.size() >= 2 && deleted) ++multi;
        }
        check_forest(w.f, w.m, "after proving");
    }
    if (refused >= 1 && multi >= 2) c.nontrivial();
}

PROPERTY(C09, "case = random history on a forest with a stack of undo records (some sent through serialisation); blocks, and undoing 1..all of them in reverse "
              "order, alternate, on a forest that may be saved and reopened in between; after every undo leaves, order, roots, provable positions and equality with a "
              "fresh forest of the same leaves are checked. Non-trivial: at least two undone blocks that had deleted leaves")
{
    World w(c, 0, c.chance(1, 8) ? 300 : 70, 3000, 17);
    struct Step {
        UndoBatch u;
        std::vector<Hash> before;
        bool dels;
    };
    std::vector<Step> st;
    bool on_disk = !c.scratch.empty() && c.chance(1, 3);
    std::string path = c.scratch + "/undo.dat";
    auto f = std::make_unique<RamForest>(0);
    if (on_disk) {
        unlink(path.c_str());
        f = std::make_unique<RamForest>(path);
        LOG(c, "forest on disk");
    }
    int steps = 0, undone = 0;
    while (w.go(steps, 16, 13)) {
        c.span();
        ++steps;
        if (on_disk && c.chance(1, 4)) {
            f.reset();
            f = std::make_unique<RamForest>(path);
            LOG(c, "reopened");
            c.label("reopened");
            check_forest(*f, w.m, "after reopening");
        }
        if (st.empty() || c.chance(3, 5)) {
            Block b = w.gen_block();
            w.trace_block(b);
            std::vector<Leaf> leaves;
            for (auto& h : b.adds) leaves.push_back({h, false});
            Step s;
            s.before = w.m.leaves;
            s.dels = !b.targets.empty();
            REQUIRE(f->Modify(s.u, leaves, b.targets), "valid block refused");
            REQUIRE(s.u.GetNumAdds() == b.adds.size(), "undo record says " << s.u.GetNumAdds() << " additions, there were " << b.adds.size());
            REQUIRE(s.u.GetDeletedPositions() == b.targets, "undo record lists positions " << show(s.u.GetDeletedPositions()) << ", deleted were " << show(b.targets));
            std::set<Hash> want(b.target_hashes.begin(), b.target_hashes.end()), got(s.u.GetDeletedHashes().begin(), s.u.GetDeletedHashes().end());
            REQUIRE(want == got && s.u.GetDeletedHashes().size() == want.size(), "undo record does not hold the deleted hashes");
            w.model_block(b);
            check_forest(*f, w.m, "after the block");
            st.push_back(s);
            continue;
        }
        uint64_t k = 1 + c.small(st.size());
        for (uint64_t i = 0; i < k && !st.empty(); ++i) {
            Step s = st.back();
            st.pop_back();
            if (c.chance(1, 2)) {
                std::vector<uint8_t> bytes;
                s.u.Serialize(bytes);
                UndoBatch u2;
                REQUIRE(u2.Unserialize(bytes), "a serialised undo record cannot be read back");
                s.u = u2;
                c.label("undo record through serialisation");
            }
            LOG(c, "undo: back to " << s.before.size() << " leaves from " << w.m.n());
            REQUIRE(f->Undo(s.u), "undo refused");
            w.m.set(s.before);
            if (s.dels) ++undone;
            check_forest(*f, w.m, "after undo");
            RamForest fresh(0);
            std::vector<Leaf> leaves;
            for (auto& h : s.before) leaves.push_back({h, false});
            REQUIRE(fresh.Add(leaves), "add");
            REQUIRE(*f == fresh, "after undo: the forest differs from one that holds the same leaves");
            auto t = gen_targets(c, w.m.n());
            BatchProof pr;
            REQUIRE(f->Prove(pr, hashes_at(w.m, t)), "after undo: leaves " << show(t) << " cannot be proven");
            REQUIRE(pr.GetTargets() == t && pr.GetHashes() == w.m.proof(t), "after undo: wrong proof of " << show(t) << ": targets " << show(pr.GetTargets()) << " hashes " << show(pr.GetHashes()));
        }
    }
    f.reset();
    if (on_disk) unlink(path.c_str());
    if (undone >= 2) c.nontrivial();
}

PROPERTY(C13, "case = random history on a forest and a pollard, interleaved with invalid blocks (targets unsorted, repeated, beyond the last leaf, more than there are "
              "leaves, 64-bit values, deletions on an empty accumulator): each must be refused without any effect, additions included, and later valid blocks must work. "
              "Non-trivial: at least two invalid blocks of different kinds and a later valid deletion. One case in twelve is a history in a forest of up to 2^60 leaves of which only some branches exist; non-trivial there: three claims and a deletion")
{
    if (huge_case(c, H_REFUSE)) return;
    World w(c, 1, 60, 4000, 13);
    Client& cl = w.clients[0];
    int steps = 0;
    std::set<size_t> kinds;
    int later = 0;
    while (w.go(steps, 14, 11)) {
        c.span();
        ++steps;
        if (c.chance(1, 2)) {
            Block b = w.gen_block();
            w.trace_block(b);
            w.client_block(cl, b);
            w.forest_block(b);
            if (!b.targets.empty() && kinds.size() >= 2) ++later;
            check_forest(w.f, w.m, "after a valid block");
            check_roots(*cl.p, w.m, "after a valid block");
            continue;
        }
        uint64_t n = w.m.n();
        auto t = gen_targets(c, n);
        if (!t.empty() && c.chance(1, 2)) { // the pollard knows the leaves, so only the list is wrong
            LOG(c, "  client verifies " << show(t));
            w.verify_honest(cl, t);
        }
        size_t kind = c.weighted({2, 2, 3, 1, 2, 1});
        switch (kind) {
        case 0: // unsorted
            if (t.size() < 2) continue;
            {
                size_t i = c.below(t.size() - 1);
                if (c.chance(1, 2))
                    std::swap(t[i], t[i + 1]);
                else
                    std::reverse(t.begin(), t.end());
            }
            break;
        case 1: // repeated
            if (t.empty()) continue;
            {
                size_t i = c.below(t.size());
                t.insert(t.begin() + i, t[i]);
            }
            break;
        case 2: // beyond the last leaf
            t.push_back(n + c.small(2 * n + 4));
            break;
        case 3: // 64-bit values
            t.push_back(c.chance(1, 4) ? ~0ull : std::max<uint64_t>(n, c.bits64()));
            break;
        case 4: // more than there are
            t.clear();
            for (uint64_t i = 0; i <= n; ++i) t.push_back(i);
            break;
        case 5: // first and last exchanged
            if (t.size() < 3) continue;
            std::swap(t.front(), t.back());
            break;
        }
        std::vector<Leaf> leaves;
        uint64_t k = c.below(4);
        for (uint64_t i = 0; i < k; ++i) leaves.push_back({w.g.fresh(), c.chance(1, 2)});
        LOG(c, "invalid block: delete " << show(t) << ", add " << k);
        Observation before = observe(*cl.p, w.m);
        switch (c.below(3)) {
        case 0: {
            UndoBatch u(77, {5}, {w.g.make(1)}), u0(u);
            REQUIRE(!w.f.Modify(u, leaves, t), "the forest accepted the invalid deletions " << show(t) << " of " << n << " leaves");
            REQUIRE(u == u0, "a refused block left " << u.GetNumAdds() << " additions and deletions " << show(u.GetDeletedPositions()) << " in the undo record");
            break;
        }
        case 1: {
            Accumulator& a = w.f;
            REQUIRE(!a.Modify(leaves, t), "the forest accepted the invalid deletions " << show(t) << " of " << n << " leaves");
            break;
        }
        default: {
            REQUIRE(!cl.p->Modify(leaves, t), "the pollard accepted the invalid deletions " << show(t) << " of " << n << " leaves");
            break;
        }
        }
        kinds.insert(kind);
        check_forest(w.f, w.m, "after an invalid block");
        check_roots(*cl.p, w.m, "after an invalid block");
        Observation after = observe(*cl.p, w.m);
        REQUIRE(before == after, "an invalid block changed the pollard: " << diff(before, after));
        if (n) {
            auto q = gen_targets(c, n);
            BatchProof pr;
            REQUIRE(w.f.Prove(pr, hashes_at(w.m, q)) && pr.GetTargets() == q && pr.GetHashes() == w.m.proof(q), "after an invalid block the forest's proof of " << show(q) << " is wrong");
        }
    }
    if (kinds.size() >= 2 && later >= 1) c.nontrivial();
}

PROPERTY(C18, "case = two forests with independent random histories over one leaf universe, steered towards equal or nearly equal contents; operator== and "
              "ComparePositionMap must agree with the model (equal leaf sequences / every leaf of the first at the same position in the second), also for pollards; "
              "batch proofs and undo records compare equal exactly when their contents are. Non-trivial: an equal pair reached through different histories or an unequal pair of "
              "the same size")
{
    LeafGen g;
    g.init(c);
    RamForest a(0), b(0);
    Model ma, mb;
    auto mod = [&](RamForest& f, Model& m, const std::vector<uint64_t>& t, const std::vector<Hash>& adds) {
        std::vector<Leaf> l;
        for (auto& h : adds) l.push_back({h, false});
        UndoBatch u;
        REQUIRE(f.Modify(u, l, t), "valid block refused");
        m.remove(t);
        m.add(adds);
    };
    auto compare = [&]() {
        bool same = ma.leaves == mb.leaves;
        REQUIRE((a == b) == same, "forests of " << ma.n() << " and " << mb.n() << " leaves compare " << (same ? "unequal" : "equal"));
        REQUIRE((b == a) == same, "forests of " << mb.n() << " and " << ma.n() << " leaves compare " << (same ? "unequal" : "equal"));
        auto within = [](const Model& x, const Model& y) {
            for (uint64_t i = 0; i < x.n(); ++i)
                if (i >= y.n() || x.leaves[i] != y.leaves[i]) return false;
            return true;
        };
        REQUIRE(a.ComparePositionMap(b) == within(ma, mb), "ComparePositionMap is wrong for leaves " << show(ma.leaves) << " against " << show(mb.leaves));
        REQUIRE(b.ComparePositionMap(a) == within(mb, ma), "ComparePositionMap is wrong for leaves " << show(mb.leaves) << " against " << show(ma.leaves));
        if (ma.n() && (same || ma.n() == mb.n())) c.nontrivial();
    };
    int steps = 0;
    uint64_t uni = 6 + c.below(40), big = 0;
    if (c.rare(6000)) {
        c.label("large forests");
        big = c.bits64() | 1;
        g.spread();
        uni = (c.chance(1, 2) ? 100 : 60000) + c.below(60000);
    }
    while (steps < (big ? 3 : 8 * g_scale) && c.chance(6, 7)) {
        c.span();
        ++steps;
        // a block for a
        auto t = gen_targets(c, ma.n());
        std::vector<Hash> adds;
        Model left = ma;
        left.remove(t);
        for (uint64_t i = 1 + c.below(3); i <= uni; i += 1 + (big ? mix(big, i + steps) & 1 : c.below(4))) {
            Hash h = g.make(i);
            if (!left.find(h)) adds.push_back(h);
        }
        LOG(c, "first: delete " << show(t) << " add " << adds.size());
        mod(a, ma, t, adds);
        compare();
        // b is rebuilt: same leaves, or nearly
        std::vector<Hash> want = ma.leaves;
        size_t how = c.weighted({3, 2, 2, 2});
        if (how == 1 && !want.empty()) want[c.below(want.size())] = g.make(uni + 1 + c.below(5));
        if (how == 2 && want.size() > 1) std::swap(want[c.below(want.size())], want[c.below(want.size())]);
        if (how == 3 && !want.empty()) want.pop_back();
        LOG(c, "second: rebuilt, variant " << how);
        std::vector<uint64_t> all;
        for (uint64_t i = 0; i < mb.n(); ++i) all.push_back(i);
        mod(b, mb, all, {});
        size_t cut = want.empty() ? 0 : c.below(want.size());
        mod(b, mb, {}, std::vector<Hash>(want.begin(), want.begin() + cut));
        mod(b, mb, {}, std::vector<Hash>(want.begin() + cut, want.end()));
        compare();
        // records
        auto t1 = gen_targets(c, ma.n()), t2 = c.chance(1, 2) ? t1 : gen_targets(c, ma.n());
        auto h1 = ma.proof(t1), h2 = ma.proof(t2);
        if (!h2.empty() && c.chance(1, 3)) h2[c.below(h2.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
        if (t2.size() > 1 && c.chance(1, 4)) std::swap(t2.front(), t2.back());
        REQUIRE((BatchProof(t1, h1) == BatchProof(t2, h2)) == (t1 == t2 && h1 == h2), "batch proofs with targets " << show(t1) << " / " << show(t2) << " and hashes " << show(h1) << " / " << show(h2) << " compare wrongly");
        uint64_t n1 = c.below(3), n2 = c.below(3);
        REQUIRE((UndoBatch(n1, t1, h1) == UndoBatch(n2, t2, h2)) == (n1 == n2 && t1 == t2 && h1 == h2), "undo records compare wrongly");
    }
}
