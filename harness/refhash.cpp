// Built without sanitizers, for speed. Raw pointers only across this boundary.
#include "ref_sha512.h"
extern "C" void ref_parent(uint8_t* out, const uint8_t* l, const uint8_t* r)
{
    uint8_t buf[64];
    memcpy(buf, l, 32);
    memcpy(buf + 32, r, 32);
    auto o = ref::sha512_256(buf, 64);
    memcpy(out, o.data(), 32);
}
extern "C" void ref_sha512(uint8_t* out, const uint8_t* d, size_t n)
{
    auto o = ref::sha512(d, n);
    memcpy(out, o.data(), 64);
}
extern "C" void ref_sha512_256(uint8_t* out, const uint8_t* d, size_t n)
{
    auto o = ref::sha512_256(d, n);
    memcpy(out, o.data(), 32);
}
// The digest of `from` bytes whose state is st, followed by n more.
extern "C" void ref_resume(uint8_t* out, const uint64_t* st, uint64_t from, const uint8_t* d, size_t n)
{
    auto o = ref::digest(st, d, n, from);
    memcpy(out, o.data(), 64);
}
