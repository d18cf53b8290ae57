// Properties of stored and transmitted data.
#include "alloc.h"
#include "claims.h"
#include <csignal>
#include <cstring>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;

static std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), {});
}
static void spit(const std::string& path, const std::string& d)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(d.data(), d.size());
}
static void be(std::string& s, uint64_t v, int bytes)
{
    for (int i = bytes - 1; i >= 0; --i) s += (char)(v >> (8 * i));
}
static void put(std::string& s, const Hash& h) { s.append((const char*)h.data(), 32); }

// A saved forest: leaf count, then all hashes row by row.
static std::string image(const Model& m)
{
    std::string s;
    be(s, m.n(), 8);
    if (m.n())
        for (auto& row : m.levels())
            for (auto& h : row) put(s, h);
    return s;
}
static bool starts_with(const std::string& a, const std::string& b) { return a.compare(0, b.size(), b) == 0; }

struct ForestHistory {
    World& w;
    std::vector<std::pair<UndoBatch, std::vector<Hash>>> undo;
    bool shrunk = false;
    // Block or undo on f.
    void step(RamForest& f)
    {
        Ctx& c = w.c;
        if (!undo.empty() && c.chance(1, 5)) {
            LOG(c, "undo to " << undo.back().second.size() << " leaves");
            REQUIRE(f.Undo(undo.back().first), "undo refused");
            w.m.set(undo.back().second);
            undo.pop_back();
            return;
        }
        Block b = w.gen_block();
        w.trace_block(b);
        std::vector<Leaf> leaves;
        for (auto& h : b.adds) leaves.push_back({h, false});
        UndoBatch u;
        auto before = w.m.leaves;
        REQUIRE(f.Modify(u, leaves, b.targets), "valid block refused");
        w.model_block(b);
        if (w.m.n() < before.size()) shrunk = true;
        undo.push_back({u, before});
    }
};

static void check_usable(Ctx& c, RamForest& f, const Model& m, const char* when)
{
    check_forest(f, m, when);
    auto t = gen_targets(c, m.n());
    BatchProof pr;
    REQUIRE(f.Prove(pr, hashes_at(m, t)), when << ": leaves " << show(t) << " cannot be proven");
    REQUIRE(pr.GetTargets() == t && pr.GetHashes() == m.proof(t), when << ": wrong proof of " << show(t));
    RamForest fresh(0);
    std::vector<Leaf> leaves;
    for (auto& h : m.leaves) leaves.push_back({h, false});
    REQUIRE(fresh.Add(leaves), "add");
    REQUIRE(f == fresh, when << ": the forest differs from one that holds the same leaves");
}

PROPERTY(C10, "case = random history of blocks and undos on a forest in a file, with commits and close/reopen cycles at random points; after a commit a copy of the file "
              "(what a crash right then would leave) restores to the same forest and has the documented layout; after reopening leaves, order, roots, proofs and later blocks and "
              "undos are right; files written by an independent encoder restore too. Non-trivial: at least one reopen after the forest shrank or two reopens")
{
    if (c.scratch.empty()) return;
    World w(c, 0, c.chance(1, 8) ? 400 : 60, 3000, 17);
    std::string path = c.scratch + "/forest.dat", copy = c.scratch + "/copy.dat";
    unlink(path.c_str());
    ForestHistory h{w, {}};
    std::unique_ptr<RamForest> f;
    if (c.chance(1, 3)) { // an existing file, maybe with left-overs behind the forest
        std::vector<Hash> l;
        for (uint64_t i = c.below(40); i > 0; --i) l.push_back(w.g.fresh());
        w.m.set(l);
        std::string img = image(w.m);
        img.append(c.chance(1, 2) ? c.below(200) : 0, 'x');
        spit(path, img);
        LOG(c, "file with " << l.size() << " leaves exists");
        c.label("independently written file");
    }
    f = std::make_unique<RamForest>(path);
    check_usable(c, *f, w.m, "after opening");
    Model saved = w.m; // what the file holds
    REQUIRE(starts_with(slurp(path), image(saved)), "after opening, the file does not hold the forest");
    int steps = 0, reopens = 0;
    bool after_shrink = false;
    while (w.go(steps, 14, 13)) {
        c.span();
        ++steps;
        switch (c.weighted({4, 2, 2, 1})) {
        case 0: h.step(*f); break;
        case 3: {
            LOG(c, "crash between commits");
            std::string img = slurp(path);
            REQUIRE(starts_with(img, image(saved)), "between commits the file does not hold the forest that was saved last");
            spit(copy, img);
            RamForest g(copy);
            check_usable(c, g, saved, "restored from the file between commits");
            c.label("crash between commits");
            break;
        }
        case 1: {
            LOG(c, "commit");
            saved = w.m;
            REQUIRE(f->Commit(), "commit failed");
            std::string img = slurp(path);
            std::string want = image(w.m);
            REQUIRE(starts_with(img, want), "after a successful commit the file does not hold the forest (" << img.size() << " bytes, expected at least " << want.size() << ")");
            spit(copy, img);
            RamForest g(copy);
            check_usable(c, g, w.m, "restored from a copy of the committed file");
            c.label("commit");
            break;
        }
        case 2:
            LOG(c, "close and reopen");
            f.reset();
            REQUIRE(starts_with(slurp(path), image(w.m)), "after closing, the file does not hold the forest");
            f = std::make_unique<RamForest>(path);
            check_usable(c, *f, w.m, "after reopening");
            saved = w.m;
            ++reopens;
            if (h.shrunk) after_shrink = true;
            break;
        }
        check_forest(*f, w.m, "after a step");
    }
    f.reset();
    REQUIRE(starts_with(slurp(path), image(w.m)), "after closing, the file does not hold the forest");
    unlink(path.c_str());
    unlink(copy.c_str());
    if (reopens >= 2 || after_shrink) c.nontrivial();
}

// No file may grow beyond this size while the object exists.
struct FileLimit {
    struct rlimit old;
    explicit FileLimit(uint64_t bytes)
    {
        getrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit now = old;
        now.rlim_cur = bytes;
        setrlimit(RLIMIT_FSIZE, &now);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

// Something is in the way of opening a file. The forest in `saved` is m.
static void cannot_open(Ctx& c, const std::string& saved, const std::string& other, const model::Model& m)
{
    std::string img = slurp(saved), p = saved;
    struct rlimit old, now;
    getrlimit(RLIMIT_NOFILE, &old);
    now = old;
    int kind = (int)c.below(7);
    bool user = false;
    static const char* names[] = {"no descriptors left", "a new file, no descriptors left", "in a missing directory", "is a directory", "symlinks in a circle", "name too long", "read-only for this user"};
    LOG(c, "opening a file: " << names[kind]);
    c.label("cannot open");
    switch (kind) {
    case 0: now.rlim_cur = 0; break;
    case 1: now.rlim_cur = 0, p = other; break;
    case 2: p = other + "/missing/forest.dat"; break;
    case 3:
        p = other;
        mkdir(p.c_str(), 0755);
        break;
    case 4:
        p = other;
        if (symlink(other.c_str(), p.c_str())) return;
        break;
    case 5: p = other + std::string(300, 'x'); break;
    case 6:
        chmod(c.scratch.c_str(), 0755);
        chmod(c.scratch.substr(0, c.scratch.rfind('/')).c_str(), 0755);
        chmod(p.c_str(), 0444);
        user = geteuid() == 0 && seteuid(65534) == 0;
        if (!user || euidaccess(p.c_str(), W_OK) == 0) {
            if (user && seteuid(0)) abort();
            return;
        }
        break;
    }
    if (kind < 2) setrlimit(RLIMIT_NOFILE, &now);
    bool thrown = false, good = false;
    try {
        RamForest g(p);
        good = g.Commit();
    } catch (const std::exception&) {
        thrown = true;
    }
    if (kind < 2) setrlimit(RLIMIT_NOFILE, &old);
    if (user && seteuid(0)) abort();
    if (kind == 3) rmdir(p.c_str());
    if (kind == 4) unlink(p.c_str());
    if (kind == 6) chmod(p.c_str(), 0644);
    REQUIRE(!good, "commit reported success for a forest without a file");
    REQUIRE(thrown, "a file that cannot be opened (" << names[kind] << ") yields an empty forest, and no exception tells");
    REQUIRE(slurp(saved) == img, "failing to open a file changed it");
    RamForest g(saved);
    check_forest(g, m, "once the file can be opened");
}

PROPERTY(C20, "case = a forest in a file with random contents; (a) a commit while the file system refuses to grow the file beyond a random size: if it reports success, the file "
              "holds the complete forest, the forest in memory is unharmed, and saving works once there is room; (b) the file cut off at a random byte, or its leaf count raised: opening it must be refused with an exception, "
              "while any complete file opens; (c) a file that cannot be opened (no descriptors, directory, missing directory, circle of links, read-only): an exception, and the file is as it was. "
              "Non-trivial: a save that could not fit, a cut inside the data, or (c)")
{
    if (c.scratch.empty()) return;
    World w(c, 0, c.chance(1, 4) ? 400 : 40, 4000, 14);
    std::string path = c.scratch + "/forest.dat", cutp = c.scratch + "/cut.dat";
    unlink(path.c_str());
    ForestHistory h{w, {}};
    std::unique_ptr<RamForest> f;
    bool failed = false; // what the stream could not write it will try to write again
    if (c.chance(1, 8)) { // no room even for an empty forest
        uint64_t limit = c.below(8);
        LOG(c, "a forest on a new file with room for " << limit << " bytes");
        FileLimit full(limit);
        try {
            f = std::make_unique<RamForest>(path);
            REQUIRE(!f->Commit(), "commit reported success with room for " << limit << " bytes");
            c.label("made without room");
            failed = true;
        } catch (const std::exception&) { // refused right away
            unlink(path.c_str());
        }
    }
    if (!f) f = std::make_unique<RamForest>(path);
    for (uint64_t i = 1 + c.below(4); i > 0; --i) h.step(*f);
    uint64_t part = c.below(9);
    if (part == 8) {
        f.reset();
        cannot_open(c, path, cutp, w.m);
        c.nontrivial();
    } else if (part < 4) {
        // (a)
        if (c.chance(1, 2)) {
            LOG(c, "commit, then more blocks");
            REQUIRE(f->Commit(), "commit failed");
            failed = false;
            for (uint64_t i = c.below(3); i > 0; --i) h.step(*f);
        }
        std::string want = image(w.m);
        uint64_t limit = c.chance(1, 4) ? want.size() : c.below(want.size() + 200);
        LOG(c, "commit of " << want.size() << " bytes with room for " << limit);
        bool ok;
        {
            FileLimit full(limit);
            ok = f->Commit();
        }
        bool holds = starts_with(slurp(path), want);
        if (limit < want.size()) {
            c.label("save cannot fit");
            c.nontrivial();
        }
        REQUIRE(!ok || holds, "commit reported success but the file does not hold the forest (" << want.size() << " bytes, " << limit << " allowed)");
        REQUIRE(ok || failed || limit < want.size(), "commit reported failure although the forest fits (" << want.size() << " bytes, " << limit << " allowed)");
        check_forest(*f, w.m, "after the commit");
        if (c.chance(1, 2)) {
            if (c.chance(1, 3)) h.step(*f);
            want = image(w.m);
            LOG(c, "commit again, now with room");
            bool again = f->Commit();
            REQUIRE(again, "commit reported failure although there is room again");
            REQUIRE(starts_with(slurp(path), want), "commit reported success, but the file does not hold the forest");
            check_forest(*f, w.m, "after the second commit");
            if (!ok) c.label("commit after a failed one");
        }
        f.reset();
        if (c.chance(1, 2)) {
            want = image(w.m);
            REQUIRE(starts_with(slurp(path), want), "after closing with room, the file does not hold the forest");
            RamForest g(path);
            check_forest(g, w.m, "reopened");
        }
    } else {
        f.reset();
        std::string img = slurp(path);
        std::string want = image(w.m);
        REQUIRE(starts_with(img, want), "after closing, the file does not hold the forest");
        img.resize(want.size());
        if (c.chance(1, 5)) { // complete: must open
            spit(cutp, img);
            RamForest g(cutp);
            check_forest(g, w.m, "complete file");
        } else {
            std::string bad = img;
            if (c.chance(1, 4)) {
                uint64_t n = c.chance(1, 2) ? w.m.n() + 1 + c.below(5) : std::max(w.m.n() + 1, c.bits64() >> (3 + c.below(58)));
                std::string head;
                be(head, n, 8);
                bad = head + img.substr(8);
                LOG(c, "leaf count " << w.m.n() << " replaced by " << n);
                c.label("leaf count raised");
            } else {
                size_t keep = c.chance(1, 3) ? (img.size() - 8) / 32 * c.below(32) + 8 : c.below(img.size());
                if (keep >= img.size()) keep = img.size() - 1;
                bad = img.substr(0, keep);
                LOG(c, "file of " << img.size() << " bytes cut to " << keep);
                c.label("file cut");
            }
            c.nontrivial();
            spit(cutp, bad);
            bool thrown = false;
            try {
                RamForest g(cutp);
            } catch (const std::bad_alloc&) {
                throw Failure{"opening an incomplete file asked for more memory than there is"};
            } catch (const std::exception&) {
                thrown = true;
            }
            REQUIRE(thrown, "an incomplete file (" << bad.size() << " bytes for " << w.m.n() << " leaves) was opened as a forest");
            REQUIRE(slurp(cutp) == bad, "refusing an incomplete file changed it");
        }
    }
    unlink(path.c_str());
    unlink(cutp.c_str());
}

static std::vector<Hash> some_hashes(Ctx& c, const LeafGen& g, uint64_t max)
{
    std::vector<Hash> v;
    uint64_t k = c.small(max + 1);
    for (uint64_t i = 0; i < k; ++i) v.push_back(c.chance(1, 10) ? Hash{} : g.make(c.below(1000)));
    return v;
}
static std::vector<uint64_t> some_targets(Ctx& c, uint64_t max)
{
    std::vector<uint64_t> v;
    uint64_t k = c.small(max + 1);
    uint64_t lim = c.chance(1, 2) ? 200 : (1ull << 32);
    for (uint64_t i = 0; i < k; ++i) v.push_back(c.below(lim));
    return v;
}
// Lists longer than 16 bits can count.
static void long_lists(Ctx& c, const LeafGen& g, std::vector<uint64_t>& t, std::vector<Hash>& h, bool paired)
{
    c.label("long lists");
    uint64_t s = c.bits64(), k = 60000 + c.below(80000);
    if (paired || c.chance(1, 2)) {
        t.clear();
        for (uint64_t i = 0; i < k; ++i) t.push_back(mix(s, i) >> 32);
    }
    if (paired || c.chance(1, 2)) {
        h.clear();
        for (uint64_t i = 0; i < k; ++i) {
            Hash x = g.make(i & 255);
            x[5] = (uint8_t)(i >> 8);
            x[6] = (uint8_t)(i >> 16);
            h.push_back(x);
        }
    }
    LOG(c, "long lists: " << t.size() << " positions, " << h.size() << " hashes");
}
static std::string bytes_of(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
static std::vector<uint8_t> vec_of(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }

// Damage an encoding.
static std::string damage(Ctx& c, std::string s)
{
    switch (c.weighted({3, 2, 2, 2, 1})) {
    case 0: s = s.substr(0, c.below(s.size() + 1)); break;
    case 1: s.append(1 + c.below(80), (char)c.below(256)); break;
    case 2: // a count
        if (s.size() >= 8) {
            uint64_t v = c.chance(1, 2) ? c.below(1ull << 32) : (1ull << 27) * c.below(32);
            std::string x;
            be(x, v, 4);
            s.replace(4 * c.below(2), 4, x);
        }
        break;
    case 3:
        if (!s.empty()) s[c.below(s.size())] ^= (char)(1u << c.below(8));
        break;
    case 4: {
        size_t n = c.below(100);
        s.clear();
        for (size_t i = 0; i < n; ++i) s += (char)c.below(256);
        break;
    }
    }
    return s;
}
static uint32_t rd(const std::string& s, size_t at)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v = (v << 8) | (uint8_t)s[at + i];
    return v;
}

// A near variant of positions and hashes; true if it differs from the original.
static bool near_variant(Ctx& c, std::vector<uint64_t>& t, std::vector<Hash>& h, bool paired)
{
    auto t0 = t;
    auto h0 = h;
    switch (c.below(7)) {
    case 0:
        if (!t.empty()) t[c.below(t.size())] ^= 1ull << c.below(32);
        break;
    case 1:
        if (!h.empty()) h[c.below(h.size())][c.below(32)] ^= (uint8_t)(1u << c.below(8));
        break;
    case 2:
        if (t.size() > 1) std::swap(t[c.below(t.size())], t[c.below(t.size())]);
        break;
    case 3:
        if (h.size() > 1) std::swap(h[c.below(h.size())], h[c.below(h.size())]);
        break;
    case 4:
        if (paired && !t.empty()) {
            t.pop_back();
            h.pop_back();
        } else if (!paired && c.chance(1, 2) && !t.empty()) {
            t.pop_back();
        } else if (!paired && !h.empty()) {
            h.pop_back();
        }
        break;
    case 5: {
        size_t i = c.below(t.size() + 1);
        size_t j = c.below(h.size() + 1);
        if (paired || c.chance(1, 2)) t.insert(t.begin() + i, t.empty() ? 0 : t[c.below(t.size())]);
        if (t.size() == t0.size() || paired) h.insert(h.begin() + j, h.empty() ? Hash{} : h[c.below(h.size())]);
        break;
    }
    case 6: break; // a copy
    }
    return t != t0 || h != h0;
}

PROPERTY(C11, "case = a sequence of encode/decode operations on one reused batch proof object: random proofs (0-200 targets below 2^32 in any order, 0-200 hashes) must encode to the documented "
              "layout and decode to an equal proof whose sorted targets are right; damaged or random byte strings must be accepted exactly when their size matches their counts (128-bit arithmetic), and "
              "then re-encode to the same bytes; equality of verification before and after the wire. Non-trivial: a decode into a used object and a damaged input")
{
    LeafGen g;
    g.init(c);
    BatchProof obj, last;
    bool used = false, damaged = false, reused = false;
    for (int i = 0; i < 8 && c.chance(7, 8); ++i) {
        c.span();
        auto t = some_targets(c, c.chance(1, 6) ? 200 : 12);
        auto h = some_hashes(c, g, c.chance(1, 6) ? 200 : 12);
        if (i == 0 && c.rare(6000)) long_lists(c, g, t, h, false);
        BatchProof pr(t, h);
        std::string want;
        be(want, t.size(), 4);
        be(want, h.size(), 4);
        for (auto x : t) be(want, x, 4);
        for (auto& x : h) put(want, x);
        std::vector<uint8_t> bytes = {1, 2, 3};
        if (c.chance(1, 3)) bytes.assign(c.below(3000), 0xee);
        pr.Serialize(bytes);
        REQUIRE(bytes_of(bytes) == want, "a proof with " << t.size() << " targets and " << h.size() << " hashes is not encoded in the documented layout");
        {
            auto t2 = t;
            auto h2 = h;
            bool differs = near_variant(c, t2, h2, false);
            BatchProof other(t2, h2), copy(pr);
            REQUIRE((pr == other) == !differs && (other == pr) == !differs, "proofs of targets " << show(t) << " and " << show(t2) << (differs ? ", which differ, compare equal" : ", which are equal, compare different"));
            REQUIRE(pr == copy && copy == pr, "a proof differs from its copy");
        }
        std::string in = want;
        bool dam = c.chance(1, 2);
        if (dam) in = damage(c, in);
        bool valid = in.size() >= 8 && (unsigned __int128)in.size() == 8 + (unsigned __int128)4 * rd(in, 0) + (unsigned __int128)32 * rd(in, 4);
        LOG(c, (dam ? "damaged " : "") << "encoding of " << in.size() << " bytes from " << t.size() << " targets, " << h.size() << " hashes" << (valid ? "" : " (invalid)"));
        if (dam) damaged = true;
        BatchProof fresh;
        BatchProof* objs[2] = {&fresh, &obj};
        for (int k = 0; k < 2; ++k) {
            if (k == 1 && used) reused = true;
            auto iv = vec_of(in);
            bool ok = objs[k]->Unserialize(iv);
            REQUIRE(ok == valid, "decoding " << in.size() << " bytes with counts " << (in.size() >= 8 ? rd(in, 0) : 0) << "/" << (in.size() >= 8 ? rd(in, 4) : 0) << (ok ? " succeeded" : " failed"));
            if (!ok) {
                REQUIRE(*objs[k] == (k ? last : BatchProof()), "a refused encoding changed the proof it was read into");
                if (k == 1 && c.chance(1, 2)) {
                    obj.SetNull();
                    last = BatchProof();
                    REQUIRE(obj == last && obj.GetSortedTargets().empty(), "SetNull leaves something behind");
                }
                continue;
            }
            if (k == 1) used = true;
            std::vector<uint64_t> tt;
            std::vector<Hash> hh;
            for (uint32_t j = 0; j < rd(in, 0); ++j) tt.push_back(rd(in, 8 + 4 * j));
            for (uint32_t j = 0; j < rd(in, 4); ++j) {
                Hash x;
                memcpy(x.data(), in.data() + 8 + 4ull * rd(in, 0) + 32ull * j, 32);
                hh.push_back(x);
            }
            auto st = tt;
            std::sort(st.begin(), st.end());
            REQUIRE(objs[k]->GetTargets() == tt, (k ? "reused" : "fresh") << " object: decoded targets " << show(objs[k]->GetTargets()) << ", expected " << show(tt));
            REQUIRE(objs[k]->GetSortedTargets() == st, (k ? "reused" : "fresh") << " object: decoded sorted targets " << show(objs[k]->GetSortedTargets()) << ", expected " << show(st));
            REQUIRE(objs[k]->GetHashes() == hh, (k ? "reused" : "fresh") << " object: decoded hashes differ");
            REQUIRE(*objs[k] == BatchProof(tt, hh), "decoded proof does not equal the original");
            std::vector<uint8_t> again;
            objs[k]->Serialize(again);
            REQUIRE(bytes_of(again) == in, "a decoded proof does not encode to the bytes it came from");
            if (k == 1) last = obj;
            uint64_t n = c.below(300);
            REQUIRE(objs[k]->CheckSanity(n) == BatchProof(tt, hh).CheckSanity(n), "sanity differs after the wire");
        }
    }
    if (damaged && reused) c.nontrivial();
}

PROPERTY(C12, "case = as C11 for undo records (number of additions, positions below 2^32, as many hashes), one object reused; a refused input must leave the object as it was. "
              "Non-trivial: a decode into a used object and a damaged input")
{
    LeafGen g;
    g.init(c);
    UndoBatch obj(3, {1, 2}, {g.make(1), g.make(2)});
    bool damaged = false, reused = false;
    UndoBatch last = obj;
    for (int i = 0; i < 8 && c.chance(7, 8); ++i) {
        c.span();
        auto t = some_targets(c, c.chance(1, 6) ? 200 : 12);
        std::vector<Hash> h;
        for (size_t k = 0; k < t.size(); ++k) h.push_back(g.make(c.below(1000)));
        if (i == 0 && c.rare(6000)) long_lists(c, g, t, h, true);
        uint64_t adds = c.chance(1, 2) ? c.below(20) : c.below(1ull << 32);
        UndoBatch u(adds, t, h);
        std::string want;
        be(want, adds, 4);
        be(want, t.size(), 4);
        for (auto x : t) be(want, x, 4);
        for (auto& x : h) put(want, x);
        std::vector<uint8_t> bytes = {1, 2, 3};
        u.Serialize(bytes);
        REQUIRE(bytes_of(bytes) == want, "an undo record with " << t.size() << " deletions is not encoded in the documented layout");
        {
            auto t2 = t;
            auto h2 = h;
            uint64_t adds2 = c.chance(1, 4) ? adds ^ (1ull << c.below(32)) : adds;
            bool differs = near_variant(c, t2, h2, true) || adds2 != adds;
            UndoBatch other(adds2, t2, h2), copy(u);
            REQUIRE((u == other) == !differs && (other == u) == !differs, "undo records of " << adds << "/" << adds2 << " additions and deletions " << show(t) << "/" << show(t2) << (differs ? ", which differ, compare equal" : ", which are equal, compare different"));
            REQUIRE(u == copy && copy == u, "an undo record differs from its copy");
        }
        std::string in = want;
        bool dam = c.chance(1, 2);
        if (dam) in = damage(c, in);
        bool valid = in.size() >= 8 && (unsigned __int128)in.size() == 8 + (unsigned __int128)36 * rd(in, 4);
        LOG(c, (dam ? "damaged " : "") << "encoding of " << in.size() << " bytes, " << adds << " additions, " << t.size() << " deletions" << (valid ? "" : " (invalid)"));
        if (dam) damaged = true;
        UndoBatch fresh;
        UndoBatch* objs[2] = {&fresh, &obj};
        for (int k = 0; k < 2; ++k) {
            bool ok = objs[k]->Unserialize(vec_of(in));
            REQUIRE(ok == valid, "decoding " << in.size() << " bytes with count " << (in.size() >= 8 ? rd(in, 4) : 0) << (ok ? " succeeded" : " failed"));
            if (!ok) {
                REQUIRE(*objs[k] == (k ? last : UndoBatch()), "a refused encoding changed the record it was read into");
                continue;
            }
            if (k == 1) reused = true;
            std::vector<uint64_t> tt;
            std::vector<Hash> hh;
            for (uint32_t j = 0; j < rd(in, 4); ++j) tt.push_back(rd(in, 8 + 4 * j));
            for (uint32_t j = 0; j < rd(in, 4); ++j) {
                Hash x;
                memcpy(x.data(), in.data() + 8 + 4ull * rd(in, 4) + 32ull * j, 32);
                hh.push_back(x);
            }
            REQUIRE(objs[k]->GetNumAdds() == rd(in, 0), "decoded number of additions is " << objs[k]->GetNumAdds() << ", expected " << rd(in, 0));
            REQUIRE(objs[k]->GetDeletedPositions() == tt, "decoded positions " << show(objs[k]->GetDeletedPositions()) << ", expected " << show(tt));
            REQUIRE(objs[k]->GetDeletedHashes() == hh, "decoded hashes differ");
            REQUIRE(*objs[k] == UndoBatch(rd(in, 0), tt, hh), "decoded record does not equal the original");
            std::vector<uint8_t> again;
            objs[k]->Serialize(again);
            REQUIRE(bytes_of(again) == in, "a decoded record does not encode to the bytes it came from");
            if (k == 1) last = obj;
        }
    }
    if (damaged && reused) c.nontrivial();
}

// What a call may allocate: in proportion to its input, with plenty of room.
template <class F>
static auto metered(const char* what, uint64_t allowed, F&& f)
{
    Allocations a;
    auto r = f();
    REQUIRE(a.bytes() <= allowed, what << " allocated " << a.bytes() << " bytes, " << allowed << " would be plenty");
    return r;
}
static uint64_t decode_memory(uint64_t bytes) { return 65536 + 64 * bytes; }
static uint64_t check_memory(uint64_t targets) { return 65536 + 65536 * targets; }
static uint64_t verify_memory(uint64_t targets, uint64_t hashes) { return 65536 + 262144 * targets + 256 * hashes; }

// A message as long as a peer can make it at little cost: time and memory have to stay in proportion.
static void long_message(Ctx& c)
{
    c.label("long message");
    LeafGen g;
    g.init(c);
    g.spread();
    int bit = 20 + (int)c.below(40);
    uint64_t n = (1ull << bit) | (c.bits64() >> (65 - bit)); // (top bit below the tree's)
    std::vector<Hash> roots;
    for (uint64_t x = n; x; x &= x - 1) roots.push_back(g.fresh());
    Pollard p(roots, n);
    uint64_t k = 30000 + c.below(270000), start = c.below(std::min<uint64_t>(n, 1ull << 32) - k);
    uint64_t stride = c.chance(1, 4) ? 2 : 1;
    if (start + k * stride >= std::min<uint64_t>(n, 1ull << 32)) stride = 1;
    std::vector<uint64_t> t;
    for (uint64_t i = 0; i < k; ++i) t.push_back(start + i * stride);
    bool well = true;
    switch (c.below(5)) {
    case 0: t[k - 1] = t[k - 2], well = false; break;
    case 1: t[c.below(k)] = t[c.below(2) * (k - 1)]; well = std::set<uint64_t>(t.begin(), t.end()).size() == k; break;
    case 2: std::reverse(t.begin(), t.end()); break;
    case 3:
        if (n < (1ull << 32)) t[k - 1] = n, well = false;
        break;
    default: break;
    }
    uint64_t nh = c.chance(1, 2) ? c.below(200) : c.below(k);
    std::string in;
    be(in, k, 4);
    be(in, nh, 4);
    for (auto x : t) be(in, x, 4);
    for (uint64_t i = 0; i < nh; ++i) put(in, g.make(i));
    LOG(c, "message of " << in.size() << " bytes: " << k << " positions from " << start << ", " << nh << " hashes, forest of " << n << " leaves");
    BatchProof pr;
    auto bytes = vec_of(in);
    if (c.chance(1, 3)) { // not all of it arrives
        std::vector<uint8_t> part(bytes.begin(), bytes.end() - 1 - c.below(bytes.size() - 9));
        REQUIRE(!metered("decoding", decode_memory(part.size()), [&] { return pr.Unserialize(part); }), "a message cut short was decoded");
    }
    REQUIRE(metered("decoding", decode_memory(bytes.size()), [&] { return pr.Unserialize(bytes); }), "a well-formed message of " << bytes.size() << " bytes was refused");
    bool sane = metered("the sanity check", check_memory(k), [&] { return pr.CheckSanity(n); });
    REQUIRE(well || !sane, "a malformed list of " << k << " positions passed the sanity check");
    std::vector<Hash> th;
    for (uint64_t i = 0; i < k; ++i) th.push_back(g.make(i ^ 77));
    REQUIRE(!metered("verification", verify_memory(k, nh), [&] { return p.Verify(pr, th); }), "a proof with made-up hashes was accepted");
    REQUIRE(p.NumLeaves() == n && roots_of(p) == roots, "a rejected message changed the pollard");
    REQUIRE(p.NumCachedLeaves() == 0 && p.CountNodes() == roots.size(), "a rejected message left something behind: " << p.CountNodes() << " nodes, " << p.NumCachedLeaves() << " leaves");
    c.nontrivial();
}

PROPERTY(C17, "case = a pollard (random history) and raw byte strings from a peer: encodings of honest proofs damaged at byte level, proofs with arbitrary 64-bit targets, counts and orders, "
              "unequal numbers of hashes; decoding, the sanity check at any leaf count and verification must return without crash, undefined behaviour or hang, reject whatever is malformed, and the "
              "pollard must afterwards follow honest blocks; memory asked for stays in proportion to the input. One case in 5000 is a message with 30 000 to 300 000 positions. Non-trivial: at least two inputs that decode and a later block with deletions")
{
    if (c.rare(5000, 3)) return long_message(c);
    World w(c, 1, 50);
    Client& cl = w.clients[0];
    int steps = 0, decoded = 0, later = 0;
    while (w.go(steps, 14, 13)) {
        c.span();
        ++steps;
        if (w.m.n() == 0 || c.chance(1, 4)) {
            Block b = w.gen_block();
            w.trace_block(b);
            w.client_block(cl, b);
            w.model_block(b);
            check_roots(*cl.p, w.m, "after a block");
            if (!b.targets.empty() && decoded >= 2) ++later;
            continue;
        }
        BatchProof pr;
        std::vector<Hash> th;
        if (c.chance(3, 5)) {
            auto t = gen_targets(c, w.m.n(), false);
            th = hashes_at(w.m, t);
            std::vector<uint8_t> bytes;
            BatchProof(t, w.m.proof(t)).Serialize(bytes);
            std::string in = bytes_of(bytes);
            for (uint64_t k = 1 + c.below(2); k > 0; --k) in = damage(c, in);
            LOG(c, in.size() << " bytes from a peer");
            auto raw = vec_of(in);
            if (c.chance(1, 4)) { // an undo record, for a change
                UndoBatch u;
                metered("decoding", decode_memory(raw.size()), [&] { return u.Unserialize(raw); });
            }
            if (!metered("decoding", decode_memory(raw.size()), [&] { return pr.Unserialize(raw); })) continue;
            ++decoded;
        } else {
            std::vector<uint64_t> t;
            uint64_t k = c.small(20);
            for (uint64_t i = 0; i < k; ++i) t.push_back(c.chance(1, 2) ? c.below(2 * w.m.n() + 2) : c.bits64() >> c.below(64));
            pr = BatchProof(t, some_hashes(c, w.g, 20));
            th = some_hashes(c, w.g, 20);
            ++decoded;
        }
        if (c.chance(1, 3)) th.resize(pr.GetTargets().size());
        if (c.chance(1, 6)) th.clear();
        uint64_t n = c.bits64() >> (2 + c.below(62));
        auto st = pr.GetSortedTargets();
        bool well = std::is_sorted(st.begin(), st.end()) && std::adjacent_find(st.begin(), st.end()) == st.end() && (st.empty() || st.back() < n);
        bool sane = metered("the sanity check", check_memory(st.size()), [&] { return pr.CheckSanity(n); });
        LOG(c, "targets " << show(pr.GetTargets()) << ", " << pr.GetHashes().size() << " hashes, " << th.size() << " target hashes; sanity against " << n);
        if (n < (1ull << 40) || st.size() < 4) {
            bool want = well && pr.GetHashes().size() <= model::proof_nodes(n, st).size();
            REQUIRE(sane == want, "CheckSanity(" << n << ") of targets " << show(st) << " with " << pr.GetHashes().size() << " hashes is " << sane);
        }
        Claim k{pr.GetTargets(), th, pr.GetHashes()};
        bool ok = metered("verification", verify_memory(st.size() + th.size(), pr.GetHashes().size()), [&] { return cl.p->Verify(pr, th); });
        REQUIRE(!ok || claim_true(w.m, k), "a malformed or false proof was accepted: targets " << show(k.targets));
        if (ok)
            for (auto& h : th) cl.kept.insert(h);
        check_roots(*cl.p, w.m, "after bytes from a peer");
        REQUIRE(cl.p->NumCachedLeaves() == cl.kept.size(), "pollard reports " << cl.p->NumCachedLeaves() << " cached leaves instead of " << cl.kept.size());
    }
    if (decoded >= 2 && later >= 1) c.nontrivial();
}
