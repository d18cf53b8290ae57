// Compiled once with every build of the library, into a shared object of its own.
#include "builds.h"
#include "include/utreexo.h"
#include "src/crypto/sha512.h"
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace utreexo;
using namespace vfb;

namespace {
void put(std::string& s, uint64_t v)
{
    for (int i = 56; i >= 0; i -= 8) s += (char)(v >> i);
}
void put(std::string& s, const std::vector<uint64_t>& v)
{
    put(s, v.size());
    for (auto x : v) put(s, x);
}
void put(std::string& s, const std::vector<vfb::Hash>& v)
{
    put(s, v.size());
    for (auto& h : v) s.append((const char*)h.data(), 32);
}
void put(std::string& s, const std::vector<uint8_t>& v)
{
    put(s, v.size());
    s.append((const char*)v.data(), v.size());
}
void put(std::string& s, const BatchProof& p)
{
    put(s, p.GetTargets());
    put(s, p.GetSortedTargets());
    put(s, p.GetHashes());
}
void put(std::string& s, const UndoBatch& u)
{
    put(s, u.GetNumAdds());
    put(s, u.GetDeletedPositions());
    put(s, u.GetDeletedHashes());
}
void roots(std::string& s, const Accumulator& a)
{
    std::vector<vfb::Hash> r;
    a.Roots(r);
    put(s, a.NumLeaves());
    put(s, r);
}
void state(std::string& s, const RamForest& f)
{
    roots(s, f);
    for (uint64_t i = 0; i < f.NumLeaves() && i < 400; ++i) {
        auto h = f.GetLeaf(i);
        s.append((const char*)h.data(), 32);
    }
}
void state(std::string& s, const Pollard& p)
{
    roots(s, p);
    put(s, p.NumCachedLeaves());
    put(s, p.CountNodes());
}
} // namespace

extern "C" __attribute__((visibility("default"))) void VF_PLAY(const Script& script, int pollards, const std::string& file, std::vector<std::string>& answers)
{
    std::unique_ptr<RamForest> f;
    if (file.empty())
        f = std::make_unique<RamForest>(0);
    else
        f = std::make_unique<RamForest>(file);
    std::vector<std::unique_ptr<Pollard>> ps;
    for (int i = 0; i < pollards; ++i) ps.push_back(std::make_unique<Pollard>(0));
    std::vector<std::vector<uint8_t>> undos;
    for (auto& x : script) {
        std::string s;
        try {
            switch (x.kind) {
            case Op::BLOCK_FOREST: {
                UndoBatch u;
                bool ok = f->Modify(u, x.leaves, x.targets);
                s += ok ? '1' : '0';
                put(s, u);
                std::vector<uint8_t> b;
                u.Serialize(b);
                put(s, b);
                if (ok) undos.push_back(b);
                state(s, *f);
                break;
            }
            case Op::BLOCK_POLLARD:
                s += ps[x.obj]->Modify(x.leaves, x.targets) ? '1' : '0';
                state(s, *ps[x.obj]);
                break;
            case Op::UNDO: {
                UndoBatch u;
                s += u.Unserialize(undos.back()) ? '1' : '0';
                s += f->Undo(u) ? '1' : '0';
                undos.pop_back();
                state(s, *f);
                break;
            }
            case Op::COMMIT:
                s += f->Commit() ? '1' : '0';
                f.reset();
                f = std::make_unique<RamForest>(file);
                state(s, *f);
                break;
            case Op::PROVE_FOREST:
            case Op::PROVE_POLLARD: {
                BatchProof p;
                bool ok = x.kind == Op::PROVE_FOREST ? f->Prove(p, x.target_hashes) : ps[x.obj]->Prove(p, x.target_hashes);
                s += ok ? '1' : '0';
                put(s, p);
                std::vector<uint8_t> b;
                p.Serialize(b);
                put(s, b);
                break;
            }
            case Op::VERIFY: {
                BatchProof p(x.targets, x.hashes);
                s += p.CheckSanity(ps[x.obj]->NumLeaves()) ? '1' : '0';
                s += ps[x.obj]->Verify(p, x.target_hashes) ? '1' : '0';
                state(s, *ps[x.obj]);
                break;
            }
            case Op::PRUNE:
                ps[x.obj]->Prune();
                state(s, *ps[x.obj]);
                break;
            case Op::RESTART:
                ps[x.obj] = std::make_unique<Pollard>(x.hashes, x.n);
                state(s, *ps[x.obj]);
                break;
            case Op::DECODE: {
                BatchProof p;
                bool ok = p.Unserialize(x.bytes);
                s += ok ? '1' : '0';
                put(s, p);
                if (ok) s += p.CheckSanity(x.n) ? '1' : '0';
                UndoBatch u;
                s += u.Unserialize(x.bytes) ? '1' : '0';
                put(s, u);
                break;
            }
            case Op::COMPARE: {
                RamForest other(0);
                UndoBatch u;
                s += other.Modify(u, x.leaves, {}) ? '1' : '0';
                s += *f == other ? '1' : '0';
                s += f->ComparePositionMap(other) ? '1' : '0';
                for (auto& p : ps) {
                    s += p->ComparePositionMap(*f) ? '1' : '0';
                    s += p->ComparePositionMap(other) ? '1' : '0';
                }
                break;
            }
            case Op::DIGEST: {
                CSHA512 h256(CSHA512::OUTPUT_SIZE_256), h;
                size_t at = 0;
                for (auto c : x.cuts) {
                    size_t k = std::min<size_t>(c, x.bytes.size() - at);
                    h.Write(x.bytes.data() + at, k);
                    h256.Write(x.bytes.data() + at, k);
                    at += k;
                }
                h.Write(x.bytes.data() + at, x.bytes.size() - at);
                h256.Write(x.bytes.data() + at, x.bytes.size() - at);
                std::vector<uint8_t> o(64), o256(32);
                h.Finalize(o.data());
                h256.Finalize256(o256.data());
                put(s, o);
                put(s, o256);
                break;
            }
            case Op::PRINT: {
                std::ostringstream out;
                auto* old = std::cout.rdbuf(out.rdbuf());
                f->PrintRoots();
                for (auto& p : ps) p->PrintRoots();
                std::vector<vfb::Hash> some;
                for (uint64_t i = 0; i < f->NumLeaves() && i < 5; i += 2) some.push_back(f->GetLeaf(i));
                BatchProof q;
                if (f->Prove(q, some)) q.Print();
                if (!undos.empty()) {
                    UndoBatch u;
                    if (u.Unserialize(undos.back())) u.Print();
                }
                s += out.str();
                // the maps have no order
                out.str("");
                f->PrintPositionMap();
                for (auto& p : ps) p->PrintPositionMap();
                std::cout.rdbuf(old);
                std::multiset<std::string> lines;
                std::istringstream in(out.str());
                for (std::string l; std::getline(in, l);) lines.insert(l);
                for (auto& l : lines) s += l + "\n";
                break;
            }
            }
        } catch (const std::exception& e) {
            s += std::string("exception: ") + e.what();
        } catch (...) {
            s += "exception";
        }
        answers.push_back(s);
    }
    ps.clear();
    f.reset();
    if (!file.empty()) unlink(file.c_str());
}
