// Prints harness/midstates.h: the state of SHA-512 and SHA-512/256 (ref_sha512.h) after long
// prefixes of byte i = i mod 251. g++ -O2 -Iharness tools/mkmid.cpp -o mkmid && ./mkmid
#include "ref_sha512.h"
#include <cstdio>
int main()
{
    std::printf("// Written by tools/mkmid.cpp.\n#pragma once\n#include <cstdint>\nstruct Midstate {\n    uint64_t len;\n    uint64_t st[2][8]; // SHA-512, SHA-512/256\n};\n"
                "static const Midstate MIDSTATES[] = {\n");
    const uint64_t lens[] = {1ull << 20, 1ull << 28, 1ull << 29, (1ull << 32) - 4096, 1ull << 32};
    uint64_t st[2][8];
    std::memcpy(st[0], ref::H0, 64);
    std::memcpy(st[1], ref::iv256(), 64);
    uint64_t pos = 0;
    for (uint64_t l : lens) {
        uint8_t b[128];
        for (; pos < l; pos += 128) {
            for (int i = 0; i < 128; ++i) b[i] = uint8_t((pos + i) % 251);
            ref::block(st[0], b);
            ref::block(st[1], b);
        }
        std::printf("    {%lluull, {", (unsigned long long)l);
        for (int v = 0; v < 2; ++v) {
            std::printf("%s{", v ? ", " : "");
            for (int i = 0; i < 8; ++i) std::printf("%s0x%016llxull", i ? ", " : "", (unsigned long long)st[v][i]);
            std::printf("}");
        }
        std::printf("}},\n");
    }
    std::printf("};\n");
}
