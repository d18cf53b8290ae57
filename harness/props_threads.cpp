// Accumulators, proofs and hash objects share nothing: interleaved in one thread,
// in threads of their own, and under concurrent const queries. Built with the
// thread sanitizer.
#include "claims.h"
#include "src/crypto/sha512.h"
#include <atomic>
#include <thread>
using namespace vf;

namespace {
struct Step {
    enum Kind { BLOCK, UNDO, PROVE, VERIFY, REJECT, PRUNE, COMMIT, CODEC, SUM } kind;
    std::vector<Leaf> leaves;
    std::vector<uint64_t> targets;
    BatchProof proof;
    std::vector<Hash> hashes; // of the targets
    std::vector<Hash> want;   // roots afterwards, or the hashes of the proof
    uint64_t n = 0;
    std::string text;
    size_t cut = 0;
    Hash sum{};
};
struct Script {
    enum { FOREST, FILE, POLLARD, VALUES } kind;
    std::vector<Step> steps;
};
// The objects of one actor; ends with the first wrong answer in `wrong`.
struct Actor {
    const Script& s;
    std::string file;
    std::unique_ptr<RamForest> f;
    std::unique_ptr<Pollard> p;
    std::unique_ptr<UndoBatch> u;
    size_t at = 0;
    std::string wrong;
    Actor(const Script& sc, std::string fl) : s(sc), file(std::move(fl)) {}
    ~Actor()
    {
        f.reset();
        if (!file.empty()) unlink(file.c_str());
    }
    bool live() const { return wrong.empty() && at < s.steps.size(); }
    void need(bool ok, const char* what)
    {
        if (!ok && wrong.empty()) wrong = std::string(what) + " (step " + std::to_string(at) + ")";
    }
    template <class A>
    void prove(const A& a, const Step& x)
    {
        BatchProof q;
        need(a.Prove(q, x.hashes), "leaves that are kept could not be proven");
        need(q.GetTargets() == x.targets && q.GetHashes() == x.want, "a proof differs from the one it gives alone");
    }
    template <class A>
    void state(const A& a, const Step& x)
    {
        need(a.NumLeaves() == x.n, "the number of leaves differs from its own history");
        need(roots_of(a) == x.want, "the roots differ from those of its own history");
    }
    void step()
    {
        const Step& x = s.steps[at];
        if (at == 0) {
            if (s.kind == Script::POLLARD) p = std::make_unique<Pollard>(0);
            if (s.kind == Script::FOREST) f = std::make_unique<RamForest>(0);
            if (s.kind == Script::FILE) f = std::make_unique<RamForest>(file);
        }
        switch (x.kind) {
        case Step::BLOCK:
            if (p) {
                need(p->Modify(x.leaves, x.targets), "a valid block was refused");
                state(*p, x);
            } else {
                u = std::make_unique<UndoBatch>();
                need(f->Modify(*u, x.leaves, x.targets), "a valid block was refused");
                state(*f, x);
            }
            break;
        case Step::UNDO:
            need(f->Undo(*u), "a block could not be undone");
            state(*f, x);
            break;
        case Step::PROVE:
            if (p)
                prove(*p, x);
            else
                prove(*f, x);
            break;
        case Step::VERIFY: need(p->Verify(x.proof, x.hashes), "an honest proof was rejected"); break;
        case Step::REJECT: need(!p->Verify(x.proof, x.hashes), "a false claim was accepted"); break;
        case Step::PRUNE: p->Prune(); break;
        case Step::COMMIT:
            need(f->Commit(), "a commit failed");
            f.reset();
            f = std::make_unique<RamForest>(file);
            state(*f, x);
            break;
        case Step::CODEC: {
            std::vector<uint8_t> bytes;
            x.proof.Serialize(bytes);
            BatchProof q;
            need(q.Unserialize(bytes), "a proof does not decode");
            need(q.GetTargets() == x.proof.GetTargets() && q.GetHashes() == x.proof.GetHashes(), "a proof changed on its way");
            need(q.CheckSanity(x.n), "an honest proof is found insane");
            break;
        }
        case Step::SUM: {
            utreexo::CSHA512 h(utreexo::CSHA512::OUTPUT_SIZE_256);
            h.Write((const unsigned char*)x.text.data(), x.cut);
            h.Write((const unsigned char*)x.text.data() + x.cut, x.text.size() - x.cut);
            Hash o;
            h.Finalize256(o.data());
            need(o == x.sum, "a digest is wrong");
            break;
        }
        }
        ++at;
    }
    void all()
    {
        try {
            while (live()) step();
        } catch (const std::exception& e) {
            wrong = std::string("exception: ") + e.what();
        } catch (...) {
            wrong = "exception";
        }
    }
};

Step state_step(Step::Kind k, const Model& m)
{
    Step x;
    x.kind = k;
    x.n = m.n();
    x.want = m.roots();
    return x;
}
Step prove_step(Ctx& c, const Model& m, std::vector<uint64_t> pos)
{
    Step x;
    x.kind = Step::PROVE;
    x.want = m.proof(pos);
    shuffle(c, pos);
    x.targets = pos;
    x.hashes = hashes_at(m, pos);
    return x;
}
// Written from the model alone. kept: what a pollard ends up remembering.
Script gen_script(Ctx& c, World& w, std::set<Hash>& kept)
{
    Script s;
    s.kind = decltype(s.kind)(c.weighted({4, 1, 5, 2}));
    if (c.scratch.empty() && s.kind == Script::FILE) s.kind = Script::FOREST;
    Client& cl = w.clients[0];
    std::vector<Claim> old;
    int n = 0;
    while (n < 7 * g_scale && (n < 2 || c.chance(9, 10))) {
        c.span();
        ++n;
        if (s.kind == Script::VALUES) {
            if (w.m.n() < 20) {
                Block b = w.gen_block();
                w.model_block(b);
            }
            Step x;
            if (w.m.n() && c.chance(1, 2)) {
                auto t = gen_targets(c, w.m.n());
                x.kind = Step::CODEC;
                x.n = w.m.n();
                x.proof = w.honest(cl, t, true, false);
            } else {
                x.kind = Step::SUM;
                uint64_t len = c.below(300), sd = c.bits64();
                for (uint64_t i = 0; i < len; ++i) x.text += (char)mix(sd, i);
                x.cut = c.below(len + 1);
                ref_sha512_256(x.sum.data(), (const uint8_t*)x.text.data(), len);
            }
            s.steps.push_back(x);
            continue;
        }
        Block b = w.gen_block();
        std::vector<Hash> before = w.m.leaves;
        if (s.kind == Script::POLLARD && !b.targets.empty()) {
            Step x;
            x.kind = Step::VERIFY;
            x.proof = w.honest(cl, b.targets, true, true);
            x.hashes = b.target_hashes;
            s.steps.push_back(x);
        }
        std::vector<Leaf> leaves;
        for (auto& h : b.adds) leaves.push_back({h, w.keeps(cl)});
        w.model_block(b);
        Step x = state_step(Step::BLOCK, w.m);
        x.leaves = leaves;
        x.targets = b.targets;
        s.steps.push_back(x);
        if (s.kind == Script::POLLARD) {
            for (auto& h : b.target_hashes) cl.kept.erase(h);
            for (auto& l : leaves)
                if (l.second) cl.kept.insert(l.first);
            switch (c.below(4)) {
            case 0: break;
            case 1: {
                std::vector<uint64_t> pos;
                for (auto& h : cl.kept) pos.push_back(*w.m.find(h));
                std::sort(pos.begin(), pos.end());
                if (!pos.empty()) s.steps.push_back(prove_step(c, w.m, pos));
                break;
            }
            case 2: {
                if (!w.m.n()) break;
                Claim k = gen_claim(w, old);
                if (claim_true(w.m, k)) break;
                Step y;
                y.kind = Step::REJECT;
                y.proof = BatchProof(k.targets, k.hashes);
                y.hashes = k.target_hashes;
                s.steps.push_back(y);
                break;
            }
            case 3:
                if (c.chance(1, 3)) {
                    Step y;
                    y.kind = Step::PRUNE;
                    s.steps.push_back(y);
                    cl.kept.clear();
                }
                break;
            }
        } else {
            switch (c.below(4)) {
            case 0: break;
            case 1:
                if (w.m.n()) s.steps.push_back(prove_step(c, w.m, gen_targets(c, w.m.n(), false)));
                break;
            case 2:
                w.m.set(before);
                s.steps.push_back(state_step(Step::UNDO, w.m));
                break;
            case 3:
                if (s.kind == Script::FILE && w.m.n()) s.steps.push_back(state_step(Step::COMMIT, w.m));
                break;
            }
        }
    }
    kept = cl.kept;
    return s;
}
const char* kind_name(const Script& s)
{
    return s.kind == Script::FOREST ? "forest" : s.kind == Script::FILE ? "forest in a file" : s.kind == Script::POLLARD ? "pollard" : "proofs and digests";
}
// Runs fn(0..n-1) in threads that start together.
template <class F>
void together(size_t n, F fn)
{
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
            fn(i);
        });
    for (auto& t : ts) t.join();
}
} // namespace

PROPERTY(C23, "case = 2 to 4 scripts (forest, forest in a file, pollard, proofs and digests) written from the model with the right answer of every step; they are run (a) step by step in a random interleaving in one thread, "
              "(b) each in a thread of its own, some of them twice at once on separate objects with the same inputs, (c) then 2 to 4 threads put const queries to one forest and one pollard nobody modifies. "
              "Thread sanitizer stops data races. Non-trivial: at least two scripts with deletions or proofs ran at once")
{
    size_t k = 2 + c.below(3);
    std::vector<std::unique_ptr<World>> ws;
    std::vector<Script> scripts;
    std::vector<std::set<Hash>> kept(k);
    int busy = 0;
    for (size_t i = 0; i < k; ++i) {
        c.span();
        ws.push_back(std::make_unique<World>(c, 1, 24));
        ws.back()->clients[0].p.reset();
        scripts.push_back(gen_script(c, *ws.back(), kept[i]));
        bool b = false;
        for (auto& x : scripts[i].steps)
            if (x.kind == Step::PROVE || x.kind == Step::VERIFY || x.kind == Step::CODEC || !x.targets.empty()) b = true;
        busy += b;
        LOG(c, "script " << i << ": " << kind_name(scripts[i]) << ", " << scripts[i].steps.size() << " steps");
        c.label(kind_name(scripts[i]));
    }
    if (busy >= 2) c.nontrivial();
    auto path = [&](size_t i) { return scripts[i % k].kind == Script::FILE ? c.scratch + "/t" + std::to_string(i) : std::string(); };

    // (a) one thread
    {
        std::vector<std::unique_ptr<Actor>> as;
        for (size_t i = 0; i < k; ++i) as.push_back(std::make_unique<Actor>(scripts[i], path(i)));
        uint64_t order = c.bits64(), turn = 0;
        for (;;) {
            std::vector<size_t> live;
            for (size_t i = 0; i < k; ++i)
                if (as[i]->live()) live.push_back(i);
            if (live.empty()) break;
            as[live[mix(order, ++turn) % live.size()]]->step();
        }
        for (size_t i = 0; i < k; ++i)
            REQUIRE(as[i]->wrong.empty(), "interleaved with others in one thread, " << kind_name(scripts[i]) << " of script " << i << ": " << as[i]->wrong);
    }
    // (b) a thread each
    uint64_t twice = c.below(1ull << k);
    {
        std::vector<size_t> who;
        for (size_t i = 0; i < k; ++i) {
            who.push_back(i);
            if (twice >> i & 1) who.push_back(i + k);
        }
        std::vector<std::string> wrong(who.size());
        together(who.size(), [&](size_t t) {
            for (int rep = 0; rep < 2 && wrong[t].empty(); ++rep) {
                Actor a(scripts[who[t] % k], path(who[t]));
                a.all();
                wrong[t] = a.wrong;
            }
        });
        for (size_t t = 0; t < who.size(); ++t)
            REQUIRE(wrong[t].empty(), "in a thread of its own, beside " << who.size() - 1 << " others, " << kind_name(scripts[who[t] % k]) << " of script " << who[t] % k << ": " << wrong[t]);
        if (twice) c.label("same inputs twice at once");
    }
    // (c) const queries to shared objects
    for (size_t i = 0; i < k; ++i) {
        const Script& s = scripts[i];
        const Model& m = ws[i]->m;
        if (s.kind == Script::VALUES || m.n() == 0 || !c.chance(1, 2)) continue;
        Actor a(s, path(i));
        a.all();
        const RamForest* f = a.f.get();
        const Pollard* p = a.p.get();
        if (!f && !p) continue;
        std::vector<uint64_t> can;
        for (uint64_t q = 0; q < m.n(); ++q)
            if (f || kept[i].count(m.leaves[q])) can.push_back(q);
        size_t readers = 2 + c.below(3);
        std::vector<std::vector<Step>> asks(readers);
        for (auto& v : asks)
            for (uint64_t q = 1 + c.below(4); q > 0; --q) {
                auto pos = subset(c, can, 1, 3);
                v.push_back(pos.empty() ? state_step(Step::BLOCK, m) : prove_step(c, m, pos));
            }
        const std::vector<Hash> leaves = m.leaves, roots = m.roots();
        const BatchProof shared(can, m.proof(can));
        std::vector<uint8_t> bytes;
        shared.Serialize(bytes);
        uint64_t nodes = p ? p->CountNodes() : 0, cached = p ? p->NumCachedLeaves() : 0;
        Hash absent = ws[i]->g.make(~0ull);
        std::vector<std::string> wrong(readers);
        together(readers, [&](size_t t) {
            Actor me(s, "");
            try {
                for (int rep = 0; rep < 3; ++rep)
                    for (auto& x : asks[t]) {
                        if (x.kind == Step::PROVE) {
                            if (f)
                                me.prove(*f, x);
                            else
                                me.prove(*p, x);
                        }
                        if (f) {
                            me.state(*f, Step{Step::BLOCK, {}, {}, {}, {}, roots, leaves.size()});
                            for (uint64_t q = 0; q < leaves.size(); ++q) me.need(f->GetLeaf(q) == leaves[q], "a leaf is wrong");
                        } else {
                            me.state(*p, Step{Step::BLOCK, {}, {}, {}, {}, roots, leaves.size()});
                            me.need(p->CountNodes() == nodes && p->NumCachedLeaves() == cached, "the counts differ");
                        }
                        BatchProof q;
                        bool ok = f ? f->Prove(q, {absent}) : p->Prove(q, {absent});
                        me.need(!ok, "a leaf that is not there was proven");
                        std::vector<uint8_t> b2;
                        shared.Serialize(b2);
                        me.need(b2 == bytes && shared.CheckSanity(leaves.size()), "a shared proof object changed");
                    }
            } catch (const std::exception& e) {
                me.wrong = std::string("exception: ") + e.what();
            }
            wrong[t] = me.wrong;
        });
        for (auto& x : wrong) REQUIRE(x.empty(), "const queries to a " << kind_name(s) << " from " << readers << " threads: " << x);
        c.label("shared readers");
    }
}
