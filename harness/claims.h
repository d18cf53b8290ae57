// Forged and honest claims a peer may send.
#pragma once
#include "history.h"

namespace vf {
// One forgery: what a peer may send. Starts from an honest proof of some leaves.
struct Claim {
    std::vector<uint64_t> targets;
    std::vector<Hash> target_hashes, hashes;
};
inline Claim gen_claim(World& w, const std::vector<Claim>& old)
{
    Ctx& c = w.c;
    Claim k;
    if (!old.empty() && c.chance(1, 6)) {
        k = old[c.below(old.size())];
        c.label("stale proof");
    } else {
        k.targets = gen_targets(c, w.m.n(), false);
        k.target_hashes = hashes_at(w.m, k.targets);
        auto nodes = model::proof_nodes(w.m.n(), k.targets);
        std::set<model::Node> have;
        bool omit = c.chance(1, 3);
        if (omit) have = w.held(w.clients[0]);
        for (auto x : nodes)
            if (!have.count(x) || !c.chance(3, 4)) k.hashes.push_back(w.m.at(x));
    }
    auto any_hash = [&]() -> Hash {
        switch (c.weighted({3, 3, 1, 1, 2})) {
        case 0: return w.m.n() ? w.m.leaves[c.below(w.m.n())] : w.g.fresh();
        case 1: {
            auto& l = w.m.levels();
            size_t r = c.below(l.size());
            return l[r].empty() ? w.g.fresh() : l[r][c.below(l[r].size())];
        }
        case 2: return Hash{};
        case 3: return w.g.fresh();
        default: return k.hashes.empty() ? w.g.fresh() : k.hashes[c.below(k.hashes.size())];
        }
    };
    uint64_t n = w.m.n();
    uint64_t edits = c.weighted({1, 6, 3, 2});
    for (uint64_t e = 0; e < edits; ++e) {
        size_t kind = c.weighted({4, 3, 3, 2, 3, 3, 2, 3, 2, 2, 2, 1});
        switch (kind) {
        case 0: // another hash claimed at a position
            if (!k.target_hashes.empty()) k.target_hashes[c.below(k.target_hashes.size())] = any_hash();
            break;
        case 1: // one bit
            if (!k.target_hashes.empty()) k.target_hashes[c.below(k.target_hashes.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
            break;
        case 2: // two claimed hashes exchanged
            if (k.target_hashes.size() > 1) std::swap(k.target_hashes[c.below(k.target_hashes.size())], k.target_hashes[c.below(k.target_hashes.size())]);
            break;
        case 3: // proof hash replaced
            if (!k.hashes.empty()) k.hashes[c.below(k.hashes.size())] = any_hash();
            break;
        case 4: // proof hash dropped
            if (!k.hashes.empty()) k.hashes.erase(k.hashes.begin() + c.below(k.hashes.size()));
            break;
        case 5: // proof hash inserted
            k.hashes.insert(k.hashes.begin() + c.below(k.hashes.size() + 1), any_hash());
            break;
        case 6: // proof hashes exchanged
            if (k.hashes.size() > 1) std::swap(k.hashes[c.below(k.hashes.size())], k.hashes[c.below(k.hashes.size())]);
            break;
        case 7: // a target moved
            if (!k.targets.empty()) {
                uint64_t v;
                switch (c.weighted({4, 2, 2, 1})) {
                case 0: v = n ? c.below(n) : 0; break;
                case 1: v = k.targets[c.below(k.targets.size())] ^ (1ull << c.below(64)); break;
                case 2: v = n + c.below(2 * n + 3); break;
                default: v = c.bits64(); break;
                }
                k.targets[c.below(k.targets.size())] = v;
            }
            break;
        case 8: // an extra claim
            k.targets.insert(k.targets.begin() + c.below(k.targets.size() + 1), n ? c.below(n) : 0);
            k.target_hashes.insert(k.target_hashes.begin() + c.below(k.target_hashes.size() + 1), any_hash());
            break;
        case 9: // a claim dropped
            if (!k.targets.empty()) {
                size_t i = c.below(k.targets.size());
                k.targets.erase(k.targets.begin() + i);
                if (i < k.target_hashes.size() && c.chance(3, 4)) k.target_hashes.erase(k.target_hashes.begin() + i);
            }
            break;
        case 10: // bit in a proof hash
            if (!k.hashes.empty()) k.hashes[c.below(k.hashes.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
            break;
        case 11: k.hashes.clear(); break;
        }
    }
    return k;
}
// Is what the claim says true? (hashes in position order)
inline bool claim_true(const Model& m, const Claim& k)
{
    auto t = k.targets;
    std::sort(t.begin(), t.end());
    if (t.size() != k.target_hashes.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (i && t[i] == t[i - 1]) return false;
        if (t[i] >= m.n() || m.leaves[t[i]] != k.target_hashes[i]) return false;
    }
    return true;
}
} // namespace vf
