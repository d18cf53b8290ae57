#include "alloc.h"
#include <sanitizer/allocator_interface.h>

namespace {
thread_local uint64_t t_bytes = 0;
thread_local int t_open = 0;
void on_malloc(const volatile void*, size_t n)
{
    if (t_open) t_bytes += n;
}
void on_free(const volatile void*) {}
void install()
{
    static int done = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void)done;
}
} // namespace

namespace vf {
Allocations::Allocations()
{
    install();
    ++t_open;
    m_before = t_bytes;
}
Allocations::~Allocations() { --t_open; }
uint64_t Allocations::bytes() const { return t_bytes - m_before; }
} // namespace vf
