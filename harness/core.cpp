#include "core.h"
#include <cstdio>
#include <cstring>
#include <exception>

namespace vf {
int g_scale = 1;
void (*g_heavy)(int) = nullptr;

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ull + b;
    return splitmix(x) ^ (b * 0xd6e8feb86659fd93ull);
}

Ctx::Ctx(uint64_t seed, Record* rec) : m_mode(RANDOM), m_rec(rec)
{
    for (auto& s : m_s) s = splitmix(seed);
    rec->n_choices = rec->n_spans = 0;
}
Ctx::Ctx(std::vector<uint64_t> choices, Record* rec) : m_mode(REPLAY), m_rec(rec), m_choices(std::move(choices))
{
    rec->n_choices = rec->n_spans = 0;
}
Ctx::Ctx(const uint8_t* data, size_t size, Record* rec) : m_mode(BYTES), m_rec(rec), m_data(data), m_size(size)
{
    rec->n_choices = rec->n_spans = 0;
}

uint64_t Ctx::next64()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t result = rotl(m_s[1] * 5, 7) * 9;
    const uint64_t t = m_s[1] << 17;
    m_s[2] ^= m_s[0];
    m_s[3] ^= m_s[1];
    m_s[1] ^= m_s[2];
    m_s[0] ^= m_s[3];
    m_s[2] ^= t;
    m_s[3] = rotl(m_s[3], 45);
    return result;
}

bool Ctx::exhausted() const
{
    if (m_mode == BYTES) return m_idx >= m_size;
    if (m_mode == REPLAY) return m_idx >= m_choices.size();
    return false;
}

// n == 0 means the full 64-bit range.
uint64_t Ctx::below(uint64_t n)
{
    uint64_t v = 0;
    if (n != 1) {
        switch (m_mode) {
        case RANDOM:
            v = next64();
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
            break;
        case REPLAY:
            v = m_idx < m_choices.size() ? m_choices[m_idx] : 0;
            if (n) v %= n;
            ++m_idx;
            break;
        case BYTES: {
            int bytes = 8;
            if (n) {
                bytes = 1;
                while (bytes < 8 && (n - 1) >> (8 * bytes)) ++bytes;
            }
            for (int i = 0; i < bytes; ++i) {
                v = (v << 8) | (m_idx < m_size ? m_data[m_idx] : 0);
                ++m_idx;
            }
            if (n) v %= n;
            break;
        }
        }
    } else if (m_mode == REPLAY) {
        ++m_idx;
    }
    if (m_n < Record::MAX_CHOICES) {
        m_rec->choices[m_n] = v;
        m_rec->n_choices = (uint32_t)(m_n + 1);
    } else {
        throw Failure{"__too_many_choices__"};
    }
    ++m_n;
    m_fnv = (m_fnv ^ v) * 1099511628211ull;
    m_fnv ^= m_fnv >> 29;
    return v;
}

bool Ctx::rare(uint64_t n, int allowance)
{
    if (m_mode == BYTES) {
        below(1);
        return false;
    }
    if (!chance(1, n)) return false;
    if (g_heavy) g_heavy(allowance);
    return true;
}

size_t Ctx::weighted(std::initializer_list<uint32_t> w)
{
    uint64_t sum = 0;
    for (auto x : w) sum += x;
    uint64_t v = below(sum);
    size_t i = 0;
    for (auto x : w) {
        if (v < x) return i;
        v -= x;
        ++i;
    }
    return 0;
}

uint64_t Ctx::small(uint64_t n)
{
    if (n <= 1) return below(1);
    // draw a magnitude, then a value below it
    uint64_t levels = 1;
    while (levels < 63 && (1ull << levels) < n) ++levels;
    uint64_t l = 1 + below(levels);
    uint64_t cap = 1ull << l;
    if (cap > n) cap = n;
    return below(cap);
}

void Ctx::span()
{
    if (m_rec->n_spans < Record::MAX_SPANS) m_rec->spans[m_rec->n_spans++] = (uint32_t)m_n;
}

void Ctx::note(const std::string& s)
{
    trace += s;
    trace += '\n';
    if (tracing) {
        fputs(s.c_str(), stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
}

std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}
const Property* find_property(const std::string& id)
{
    for (auto& p : registry())
        if (p.id == id) return &p;
    return nullptr;
}

void run_case(const Property& p, Ctx& c, Record* rec)
{
    rec->status = 0;
    rec->msg[0] = 0;
    rec->nontrivial = 0;
    try {
        p.fn(c);
        rec->status = 1;
    } catch (const Failure& f) {
        if (f.msg == "__too_many_choices__") {
            rec->status = 1; // case too large for the recorder: not a verdict
        } else {
            snprintf(rec->msg, sizeof rec->msg, "%s", f.msg.c_str());
            rec->status = 2;
        }
    } catch (const std::exception& e) {
        snprintf(rec->msg, sizeof rec->msg, "unexpected exception escaped the code under test: %s", e.what());
        rec->status = 3;
    } catch (...) {
        snprintf(rec->msg, sizeof rec->msg, "unexpected exception escaped the code under test");
        rec->status = 3;
    }
    rec->nontrivial = c.is_nontrivial;
}

} // namespace vf
