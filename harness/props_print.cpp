// What the library prints is what the objects hold, and printing changes nothing.
#include "history.h"
#include <iostream>
using namespace vf;

namespace {
// Collects what goes to std::cout.
struct Capture {
    std::ostringstream out;
    std::streambuf* old;
    Capture() { old = std::cout.rdbuf(out.rdbuf()); }
    ~Capture() { std::cout.rdbuf(old); }
};
// The numbers and the 64-digit hashes of a text, in order.
struct Item {
    bool is_hash;
    uint64_t number;
    Hash hash;
    std::string text;
};
int digit(char ch)
{
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
}
std::vector<Item> items(const std::string& s)
{
    std::vector<Item> out;
    for (size_t i = 0; i < s.size();) {
        if (!isalnum((unsigned char)s[i])) {
            ++i;
            continue;
        }
        size_t j = i;
        bool hexa = true, deca = true;
        while (j < s.size() && isalnum((unsigned char)s[j])) {
            hexa = hexa && digit(s[j]) >= 0;
            deca = deca && digit(s[j]) >= 0 && digit(s[j]) < 10;
            ++j;
        }
        Item it{false, 0, {}, s.substr(i, j - i)};
        bool hex_digits = hexa && (j - i >= 21 || !deca); // longer than any position
        if (hexa && j - i == 64) {
            it.is_hash = true;
            for (int k = 0; k < 32; ++k) it.hash[k] = (uint8_t)(digit(it.text[2 * k]) * 16 + digit(it.text[2 * k + 1]));
            out.push_back(it);
        } else if (deca && j - i <= 20) {
            it.number = strtoull(it.text.c_str(), nullptr, 10);
            out.push_back(it);
        } else if (hex_digits && j - i >= 16) {
            REQUIRE(false, "a printed hash has " << j - i << " digits: " << it.text);
        }
        i = j;
    }
    return out;
}
std::string head(const std::string& s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }
using Pairs = std::vector<std::pair<uint64_t, Hash>>;
// Lists of (position, hash), whichever of the two comes first.
Pairs pairs(const std::string& s)
{
    Pairs out;
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        auto v = items(line);
        if (v.empty()) continue;
        REQUIRE(v.size() == 2 && v[0].is_hash != v[1].is_hash, "a printed line does not have a position and a hash: " << head(line));
        out.push_back({v[0].is_hash ? v[1].number : v[0].number, v[0].is_hash ? v[0].hash : v[1].hash});
    }
    return out;
}
template <class F>
std::string printed(F f)
{
    auto flags = std::cout.flags();
    auto fill = std::cout.fill();
    Capture cap;
    f();
    REQUIRE(std::cout.flags() == flags && std::cout.fill() == fill, "printing leaves other settings on std::cout behind");
    return cap.out.str();
}
std::vector<uint64_t> root_positions(uint64_t n)
{
    std::vector<uint64_t> o;
    for (int r = 63; r >= 0; --r)
        if ((n >> r) & 1) o.push_back(model::position(model::rows_for(n), r, (n >> r) - 1));
    return o;
}
void roots_printed(const utreexo::Accumulator& a, uint64_t n, const std::vector<Hash>& roots, const char* what)
{
    Pairs want;
    auto pos = root_positions(n);
    for (size_t i = 0; i < pos.size(); ++i) want.push_back({pos[i], roots[i]});
    std::string text = printed([&] { a.PrintRoots(); });
    Pairs got = pairs(text);
    REQUIRE(got.size() == want.size(), what << " of " << n << " leaves prints " << got.size() << " of its " << want.size() << " roots");
    for (size_t i = 0; i < want.size(); ++i) {
        REQUIRE(got[i].second == want[i].second, what << " of " << n << " leaves prints root " << i << " as " << hex(got[i].second, 32) << ", it is " << hex(want[i].second, 32));
        REQUIRE(got[i].first == want[i].first, what << " of " << n << " leaves prints root " << i << " at position " << got[i].first << ", it is at " << want[i].first);
    }
}
void map_printed(const utreexo::Accumulator& a, const std::map<Hash, uint64_t>& want, const char* what)
{
    std::string text = printed([&] { a.PrintPositionMap(); });
    Pairs got = pairs(text);
    std::map<Hash, uint64_t> m;
    for (auto& x : got) {
        REQUIRE(!m.count(x.second), what << " prints the position of " << hex(x.second) << " twice");
        m[x.second] = x.first;
    }
    for (auto& x : want) {
        REQUIRE(m.count(x.first), what << " does not print the position of " << hex(x.first, 32) << ", one of its " << want.size() << " leaves");
        REQUIRE(m[x.first] == x.second, what << " prints position " << m[x.first] << " for the leaf at " << x.second);
    }
    REQUIRE(m.size() == want.size(), what << " prints " << m.size() << " positions and has " << want.size());
}
void list_printed(const std::string& text, const std::vector<uint64_t>& numbers, const std::vector<Hash>& hashes, const char* what)
{
    std::vector<uint64_t> n;
    std::vector<Hash> h;
    for (auto& x : items(text)) {
        if (x.is_hash)
            h.push_back(x.hash);
        else
            n.push_back(x.number);
    }
    REQUIRE(n == numbers, what << " prints the numbers " << show(n) << ", it holds " << show(numbers));
    REQUIRE(h == hashes, what << " prints the hashes " << show(h) << ", it holds " << show(hashes));
}
Hash any_hash(Ctx& c)
{
    Hash h;
    uint64_t s = c.bits64();
    switch (c.below(3)) {
    case 0:
        for (int i = 0; i < 32; ++i) h[i] = (uint8_t)mix(s, i);
        break;
    case 1: h.fill((uint8_t)s); break;
    default: // small and large bytes side by side
        for (int i = 0; i < 32; ++i) h[i] = (uint8_t)(mix(s, i) % 3 == 0 ? mix(s, i) >> 8 & 15 : mix(s, i) >> 8);
    }
    return h;
}
void values(Ctx& c)
{
    std::vector<uint64_t> t;
    std::vector<Hash> h;
    for (uint64_t k = c.small(12); k > 0; --k) t.push_back(c.chance(1, 3) ? c.bits64() : c.small(1ull << 33));
    for (uint64_t k = c.small(12); k > 0; --k) h.push_back(any_hash(c));
    BatchProof p(t, h), p0(p);
    LOG(c, "proof of " << show(t) << ", " << h.size() << " hashes");
    std::string text = printed([&] { p.Print(); });
    list_printed(text, t, h, "a proof");
    REQUIRE(p == p0 && p.GetTargets() == t && p.GetHashes() == h && p.GetSortedTargets() == p0.GetSortedTargets(), "printing a proof changed it");
    uint64_t adds = c.chance(1, 3) ? c.bits64() : c.small(1ull << 33);
    UndoBatch u(adds, t, h), u0(u);
    text = printed([&] { u.Print(); });
    t.insert(t.begin(), adds);
    list_printed(text, t, h, "an undo record");
    REQUIRE(u == u0 && u.GetNumAdds() == adds && u.GetDeletedHashes() == h, "printing an undo record changed it");
    if (t.size() > 1 && !h.empty()) c.nontrivial();
}
// A pollard of any size; only additions, which merge roots like a binary counter.
void huge(Ctx& c)
{
    uint64_t n = c.bits64() >> (2 + c.below(62));
    if (c.chance(1, 3)) {
        n = 1ull << c.below(62);
        n -= std::min(n, c.below(3));
    }
    std::vector<Hash> roots;
    for (int r = 63; r >= 0; --r)
        if (n >> r & 1) roots.push_back(any_hash(c));
    Pollard p(roots, n);
    LOG(c, "pollard of " << n << " leaves");
    roots_printed(p, n, roots, "a pollard");
    std::map<Hash, uint64_t> map;
    LeafGen g;
    g.init(c);
    for (uint64_t k = c.below(4); k > 0; --k) {
        std::vector<Leaf> leaves;
        for (uint64_t j = c.small(20); j > 0; --j) {
            Hash h = g.fresh(), x = h;
            bool keep = c.chance(1, 2);
            leaves.push_back({h, keep});
            if (keep) map[h] = n;
            for (uint64_t m = n; m & 1; m >>= 1) {
                x = model::parent(roots.back(), x);
                roots.pop_back();
            }
            roots.push_back(x);
            ++n;
        }
        LOG(c, "adds " << leaves.size());
        REQUIRE(p.Modify(leaves, {}), "a pollard refused to add leaves");
        roots_printed(p, n, roots, "a pollard");
        map_printed(p, map, "a pollard");
    }
    if (n > 65536 && !map.empty()) c.nontrivial();
}
} // namespace

PROPERTY(C25, "case = either a history of blocks on a forest (in memory or in a file, with undone blocks and restarts) and two pollards (with proofs verified, prunings and restarts from roots), where roots and position maps are printed "
              "from the real objects and read back, or a pollard of up to 2^62 leaves, or any proof and undo record. What is printed must be the model's roots with their positions, tallest first, every known leaf once with its position, "
              "the targets in request order and the hashes; afterwards everything is as it was. Non-trivial: at least two printings after deletions of a history, or lists with positions and hashes, or more than 65536 leaves with some known")
{
    switch (c.weighted({4, 1, 1})) {
    case 1: return values(c);
    case 2: return huge(c);
    default: break;
    }
    World w(c, 2, 60, 4000, 12);
    bool in_file = !c.scratch.empty() && c.chance(1, 4);
    std::string path = c.scratch + "/print.dat";
    auto f = std::make_unique<RamForest>(0);
    if (in_file) {
        unlink(path.c_str());
        f = std::make_unique<RamForest>(path);
    }
    int steps = 0, after = 0;
    bool deleted = false;
    while (w.go(steps, 12, 12)) {
        c.span();
        ++steps;
        Block b = w.gen_block();
        w.trace_block(b);
        for (auto& cl : w.clients) w.client_block(cl, b);
        std::vector<Leaf> leaves;
        for (auto& h : b.adds) leaves.push_back({h, false});
        UndoBatch u;
        std::vector<Hash> before = w.m.leaves;
        REQUIRE(f->Modify(u, leaves, b.targets), "forest refused a valid block");
        w.model_block(b);
        deleted = deleted || !b.targets.empty();
        if (c.chance(1, 4)) {
            auto text = printed([&] { u.Print(); });
            std::vector<uint64_t> nums = u.GetDeletedPositions();
            nums.insert(nums.begin(), u.GetNumAdds());
            list_printed(text, nums, u.GetDeletedHashes(), "an undo record");
        }
        bool undone = false;
        switch (c.below(6)) {
        case 0:
            LOG(c, "undo");
            REQUIRE(f->Undo(u), "a block could not be undone");
            w.m.set(before);
            undone = true;
            break;
        case 1:
            if (!in_file) break;
            LOG(c, "restart of the forest");
            f.reset();
            f = std::make_unique<RamForest>(path);
            break;
        }
        for (auto& cl : w.clients) {
            if (undone) {
                w.restart(cl);
                continue;
            }
            switch (c.below(8)) {
            case 0: w.prune(cl); break;
            case 1: w.restart(cl); break;
            case 2:
            case 3: {
                auto t = gen_targets(c, w.m.n());
                if (!t.empty()) w.verify_honest(cl, t);
                break;
            }
            }
        }
        if (w.first && c.chance(1, 2)) continue;
        auto roots = w.m.roots();
        std::map<Hash, uint64_t> all;
        for (uint64_t i = 0; i < w.m.n(); ++i) all[w.m.leaves[i]] = i;
        roots_printed(*f, w.m.n(), roots, "a forest");
        map_printed(*f, all, "a forest");
        for (auto& cl : w.clients) {
            std::map<Hash, uint64_t> some;
            for (auto& h : cl.kept) some[h] = all.at(h);
            roots_printed(*cl.p, w.m.n(), roots, "a pollard");
            map_printed(*cl.p, some, "a pollard");
            check_roots(*cl.p, w.m, "after printing");
        }
        check_forest(*f, w.m, "after printing");
        if (w.m.n()) {
            auto t = gen_targets(c, w.m.n());
            auto req = t;
            shuffle(c, req);
            BatchProof q;
            REQUIRE(f->Prove(q, hashes_at(w.m, req)), "after printing the forest cannot prove its leaves");
            auto text = printed([&] { q.Print(); });
            list_printed(text, req, w.m.proof(t), "a proof");
        }
        if (deleted) ++after;
    }
    f.reset();
    if (in_file) unlink(path.c_str());
    if (after >= 2) c.nontrivial();
}
