// How much memory a call asks for, by the sanitizer's allocator hooks.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vf {
// Bytes allocated by this thread while at least one Allocations exists.
class Allocations
{
    uint64_t m_before;

public:
    Allocations();
    ~Allocations();
    uint64_t bytes() const;
};
} // namespace vf
