// The library answers the same however it was built.
#include "builds.h"
#include "claims.h"
#include <dlfcn.h>
#include <unistd.h>
using namespace vf;
using vfb::Op;

extern "C" void vf_play_here(const vfb::Script&, int, const std::string&, std::vector<std::string>&);

namespace {
struct Build {
    std::string name;
    vfb::Play play;
};
// VF_BUILDS: name=file|name=file|...
const std::vector<Build>& builds()
{
    static std::vector<Build> all;
    if (!all.empty()) return all;
    all.push_back({"clang -O1, sanitizers", vf_play_here});
    const char* e = getenv("VF_BUILDS");
    std::istringstream in(e ? e : "");
    std::string one;
    while (std::getline(in, one, '|')) {
        size_t at = one.rfind('=');
        void* h = dlopen(one.substr(at + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
        void* f = h ? dlsym(h, "vf_play") : nullptr;
        if (!f) {
            fprintf(stderr, "cannot load %s: %s\n", one.c_str(), dlerror());
            _exit(77);
        }
        all.push_back({one.substr(0, at), (vfb::Play)f});
    }
    return all;
}
const char* op_name(const Op& x)
{
    static const char* names[] = {"a block on the forest", "a block on a pollard", "undoing a block", "a commit and reopening", "the forest's proof", "a pollard's proof", "a verification",
                                  "pruning", "a start from roots", "decoding bytes", "comparisons", "a digest", "printing the roots"};
    return names[x.kind];
}
std::string model_state(const Model& m)
{
    std::string s;
    auto put = [&](uint64_t v) { for (int i = 56; i >= 0; i -= 8) s += (char)(v >> i); };
    put(m.n());
    auto r = m.roots();
    put(r.size());
    for (auto& h : r) s.append((const char*)h.data(), 32);
    return s;
}
} // namespace

PROPERTY(C24, "case = a script of calls (blocks on a forest and two pollards, invalid ones among them; honest, partial, stale and forged proofs; proving, undoing, commits with reopening, pruning, starts from roots, decoding of damaged bytes, "
              "comparisons, digests; also a pollard of up to 2^62 leaves) written from the model and played by the library in every build: sanitizers, the release flags, with the library's own consistency checks (-DUTREEXO_VERIFY), -O0 and -O3, -DNDEBUG, unsigned char, "
              "gcc and clang. All answers must be the same, byte for byte, roots those of the model, and no build may abort. Non-trivial: at least two deleting blocks and a forged or damaged input")
{
    World w(c, 2, 60, 6000, 12);
    for (auto& cl : w.clients) cl.p.reset();
    bool in_file = !c.scratch.empty() && c.chance(1, 5);
    vfb::Script script;
    std::vector<std::string> want; // number of leaves and roots from the model, or empty
    std::vector<std::vector<Hash>> before;
    std::vector<Claim> old;
    int steps = 0, dels = 0, odd = 0;
    auto push = [&](Op x, bool known = false) {
        script.push_back(std::move(x));
        want.push_back(known ? model_state(w.m) : "");
    };
    while (w.go(steps, 12, 12)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        if (c.chance(1, 6)) { // an invalid block
            Op x;
            x.targets = b.targets;
            x.targets.push_back(w.m.n() + c.below(3));
            if (c.chance(1, 3)) std::reverse(x.targets.begin(), x.targets.end());
            if (c.chance(1, 4)) x.targets.back() = c.bits64() | w.m.n();
            if (c.chance(1, 2)) x.leaves.push_back({w.g.fresh(), true});
            x.kind = c.chance(1, 2) ? Op::BLOCK_FOREST : Op::BLOCK_POLLARD;
            x.obj = (int)c.below(2);
            LOG(c, "invalid block first: delete " << show(x.targets));
            push(x);
            ++odd;
        }
        std::vector<std::vector<Leaf>> leaves(2);
        for (int i = 0; i < 2; ++i) {
            Client& cl = w.clients[i];
            if (!b.targets.empty()) {
                BatchProof p = w.honest(cl, b.targets, true, true);
                Op x;
                x.kind = Op::VERIFY;
                x.obj = i;
                x.targets = p.GetTargets();
                x.hashes = p.GetHashes();
                x.target_hashes = b.target_hashes;
                push(x);
            }
            for (auto& h : b.adds) leaves[i].push_back({h, w.keeps(cl)});
        }
        before.push_back(w.m.leaves);
        w.model_block(b);
        for (int i = 0; i < 2; ++i) {
            Op x;
            x.kind = Op::BLOCK_POLLARD;
            x.obj = i;
            x.leaves = leaves[i];
            x.targets = b.targets;
            push(x, true);
            for (auto& h : b.target_hashes) w.clients[i].kept.erase(h);
            for (auto& l : leaves[i])
                if (l.second) w.clients[i].kept.insert(l.first);
        }
        {
            Op x;
            x.kind = Op::BLOCK_FOREST;
            x.leaves = leaves[0];
            x.targets = b.targets;
            push(x, true);
        }
        if (!b.targets.empty()) ++dels;
        for (uint64_t k = c.below(4); k > 0; --k) {
            Op x;
            x.obj = (int)c.below(2);
            Client& cl = w.clients[x.obj];
            auto restart = [&](int i) {
                Op y;
                y.kind = Op::RESTART;
                y.obj = i;
                y.hashes = w.m.roots();
                y.n = w.m.n();
                w.clients[i].kept.clear();
                push(y, false);
            };
            switch (c.weighted({2, 3, 3, 5, 1, 1, 2, 1, 1, 2})) {
            case 0: {
                if (before.empty()) break;
                LOG(c, "undo");
                w.m.set(before.back());
                before.pop_back();
                x.kind = Op::UNDO;
                push(x);
                restart(0);
                restart(1);
                break;
            }
            case 1: {
                x.kind = Op::PROVE_FOREST;
                auto t = gen_targets(c, w.m.n());
                shuffle(c, t);
                x.target_hashes = hashes_at(w.m, t);
                if (c.chance(1, 4)) x.target_hashes.push_back(c.chance(1, 2) || t.empty() ? w.g.make(~0ull) : x.target_hashes[0]);
                push(x);
                break;
            }
            case 2: {
                x.kind = Op::PROVE_POLLARD;
                std::vector<Hash> mine(cl.kept.begin(), cl.kept.end());
                x.target_hashes = subset(c, mine, 1, 2);
                if (w.m.n() && c.chance(1, 4)) x.target_hashes.push_back(w.m.leaves[c.below(w.m.n())]);
                push(x);
                break;
            }
            case 3: {
                if (!w.m.n()) break;
                Claim q = gen_claim(w, old);
                old.push_back(q);
                if (claim_true(w.m, q)) {
                    // accepted or not, depending on what the client holds: afterwards it is not known what it keeps
                    x.kind = Op::VERIFY;
                    x.targets = q.targets;
                    x.hashes = q.hashes;
                    x.target_hashes = q.target_hashes;
                    push(x);
                    restart(x.obj);
                    break;
                }
                LOG(c, "a claim about " << show(q.targets) << " with " << q.hashes.size() << " hashes");
                x.kind = Op::VERIFY;
                x.targets = q.targets;
                x.hashes = q.hashes;
                x.target_hashes = q.target_hashes;
                push(x);
                ++odd;
                break;
            }
            case 4:
                x.kind = Op::PRUNE;
                cl.kept.clear();
                push(x);
                break;
            case 5: restart(x.obj); break;
            case 6: {
                x.kind = Op::DECODE;
                x.n = w.m.n();
                auto t = gen_targets(c, w.m.n());
                BatchProof p(t, w.m.proof(t));
                p.Serialize(x.bytes);
                if (c.chance(1, 2) && !x.bytes.empty()) {
                    ++odd;
                    switch (c.below(3)) {
                    case 0: x.bytes[c.below(x.bytes.size())] ^= (uint8_t)(1u << c.below(8)); break;
                    case 1: x.bytes.resize(c.below(x.bytes.size())); break;
                    default: x.bytes.push_back((uint8_t)c.below(256));
                    }
                }
                push(x);
                break;
            }
            case 7: {
                x.kind = Op::COMPARE;
                auto ls = w.m.leaves;
                if (ls.size() > 1 && c.chance(1, 2)) std::swap(ls[c.below(ls.size())], ls[c.below(ls.size())]);
                for (auto& h : ls) x.leaves.push_back({h, false});
                push(x);
                break;
            }
            case 8: {
                x.kind = Op::DIGEST;
                uint64_t len = c.below(400), s = c.bits64();
                for (uint64_t i = 0; i < len; ++i) x.bytes.push_back((uint8_t)mix(s, i));
                for (uint64_t i = c.below(4); i > 0; --i) x.cuts.push_back(c.below(len + 1));
                push(x);
                break;
            }
            default:
                if (in_file && w.m.n() && c.chance(1, 2))
                    x.kind = Op::COMMIT;
                else
                    x.kind = Op::PRINT;
                push(x);
                break;
            }
        }
    }
    // A client of a forest too large to build.
    if (c.chance(1, 3)) {
        c.label("huge forest");
        Op x;
        x.obj = 2;
        x.kind = Op::RESTART;
        x.n = c.bits64() >> (2 + c.below(62));
        for (int r = 63; r >= 0; --r)
            if (x.n >> r & 1) x.hashes.push_back(w.g.make(1000000 + r));
        uint64_t n = x.n;
        LOG(c, "pollard of " << n << " leaves");
        push(x);
        for (uint64_t k = c.below(6); k > 0; --k) {
            Op y;
            y.obj = 2;
            y.n = n;
            uint64_t t = c.below(5);
            switch (c.below(4)) {
            case 0:
                y.kind = Op::BLOCK_POLLARD;
                for (uint64_t j = c.small(12); j > 0; --j) y.leaves.push_back({w.g.fresh(), c.chance(1, 2)});
                n += y.leaves.size();
                break;
            case 1:
                y.kind = Op::VERIFY;
                for (uint64_t j = 0; j < t; ++j) {
                    y.targets.push_back(c.chance(1, 8) ? c.bits64() : n ? c.below(n) : 0);
                    y.target_hashes.push_back(w.g.make(2000000 + j));
                }
                for (uint64_t j = c.below(64); j > 0; --j) y.hashes.push_back(w.g.make(3000000 + j));
                ++odd;
                break;
            case 2: {
                y.kind = Op::DECODE;
                std::vector<uint64_t> pos;
                for (uint64_t j = 0; j < t; ++j) pos.push_back(c.below(n < 1ull << 32 ? n + 1 : 1ull << 32));
                BatchProof(pos, {}).Serialize(y.bytes);
                break;
            }
            default: y.kind = Op::PRINT;
            }
            push(y);
        }
    }
    if (dels >= 2 && odd) c.nontrivial();
    std::vector<std::string> first;
    for (size_t i = 0; i < builds().size(); ++i) {
        auto& bd = builds()[i];
        LOG(c, "playing " << script.size() << " steps in " << bd.name);
        std::string file = in_file ? c.scratch + "/builds.dat" : "";
        if (in_file) unlink(file.c_str());
        std::vector<std::string> got;
        bd.play(script, 3, file, got);
        REQUIRE(got.size() == script.size(), "the build " << bd.name << " gave " << got.size() << " answers to " << script.size() << " calls");
        for (size_t k = 0; k < got.size(); ++k) {
            if (!want[k].empty()) {
                bool forest = script[k].kind == Op::BLOCK_FOREST;
                bool right = got[k].substr(0, 1) == "1" && (forest ? got[k].find(want[k]) != std::string::npos : got[k].compare(1, want[k].size(), want[k]) == 0);
                REQUIRE(right, "in the build " << bd.name << ", step " << k << " (" << op_name(script[k]) << ") does not end with the reference's roots");
            }
            if (i) REQUIRE(got[k] == first[k], "the builds " << bd.name << " and " << builds()[0].name << " answer differently to step " << k << " of " << script.size() << ", " << op_name(script[k]));
        }
        if (!i) first = std::move(got);
    }
    if (in_file) c.label("in a file");
}
