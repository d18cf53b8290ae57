// Generated-case engine: choice-recording source, property registry, failure type.
// Every random decision of a case goes through Ctx::below(), so a case is exactly
// its list of choices: it can be replayed, shrunk and fed from fuzzer bytes.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

struct Failure {
    std::string msg;
};

// Shared-memory record of the running case, so that the parent still has the
// choices after the child crashed.
struct Record {
    static constexpr uint32_t MAX_CHOICES = 1u << 17;
    static constexpr uint32_t MAX_SPANS = 1u << 14;
    uint32_t n_choices;
    uint32_t n_spans;
    uint32_t status; // 0 running, 1 passed, 2 Failure, 3 unexpected exception
    uint32_t nontrivial;
    char msg[2048];
    uint64_t choices[MAX_CHOICES];
    uint32_t spans[MAX_SPANS]; // start offsets of operations
};

class Ctx
{
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    // RANDOM
    explicit Ctx(uint64_t seed, Record* rec);
    // REPLAY
    explicit Ctx(std::vector<uint64_t> choices, Record* rec);
    // BYTES
    Ctx(const uint8_t* data, size_t size, Record* rec);

    // Uniform in [0, n); n == 0 means the full 64-bit range.
    uint64_t below(uint64_t n);
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    // True with probability num/den; shrinks towards false.
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    // Index drawn with the given weights; shrinks towards 0.
    size_t weighted(std::initializer_list<uint32_t> w);
    // Value in [0, n), biased to small ones.
    uint64_t small(uint64_t n);
    uint64_t bits64() { return below(0); }
    // True once a byte source ran dry (used to stop loops in fuzz mode).
    bool exhausted() const;
    bool fuzzing() const { return m_mode == BYTES; }
    // True once in n cases; never for fuzzer bytes. For cases that cost far more than others; their
    // CPU allowance is raised by the given factor.
    bool rare(uint64_t n, int allowance = 6);

    void span(); // an operation starts here
    void label(const char* l) { labels.insert(l); }
    void nontrivial() { is_nontrivial = true; }

    bool tracing = false;
    std::string trace;
    std::set<std::string> labels;
    bool is_nontrivial = false;
    std::string scratch; // scratch directory, may be empty

    void note(const std::string& s);
    uint64_t choice_hash() const { return m_fnv; }
    size_t n_choices() const { return m_n; }

private:
    uint64_t next64();
    Mode m_mode;
    Record* m_rec;
    uint64_t m_s[4];
    std::vector<uint64_t> m_choices;
    size_t m_idx = 0;
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_n = 0;
    uint64_t m_fnv = 1469598103934665603ull;
};

#define LOG(c, expr)                       \
    do {                                   \
        if ((c).tracing) {                 \
            std::ostringstream _o;         \
            _o << expr;                    \
            (c).note(_o.str());            \
        }                                  \
    } while (0)

#define REQUIRE(cond, expr)                \
    do {                                   \
        if (!(cond)) {                     \
            std::ostringstream _o;         \
            _o << expr;                    \
            throw vf::Failure{_o.str()};   \
        }                                  \
    } while (0)

struct Property {
    std::string id;
    std::string rule; // how cases are made, what is non-trivial
    std::function<void(Ctx&)> fn;
};

std::vector<Property>& registry();
struct Register {
    Register(const char* id, const char* rule, void (*fn)(Ctx&))
    {
        registry().push_back({id, rule, fn});
    }
};
#define PROPERTY(ID, RULE)                                    \
    static void prop_##ID(vf::Ctx& c);                        \
    static vf::Register reg_##ID(#ID, RULE, prop_##ID);       \
    static void prop_##ID(vf::Ctx& c)

uint64_t mix(uint64_t a, uint64_t b);
// Size factor of the generated histories (1 in the quick tier).
extern int g_scale;
// Called when a case turns out to be an expensive one: raises its CPU allowance.
extern void (*g_heavy)(int factor);
const Property* find_property(const std::string& id);
// Run one case; fills rec->status / msg. Never throws.
void run_case(const Property& p, Ctx& c, Record* rec);

} // namespace vf
