// Written by tools/mkmid.cpp.
#pragma once
#include <cstdint>
struct Midstate {
    uint64_t len;
    uint64_t st[2][8]; // SHA-512, SHA-512/256
};
static const Midstate MIDSTATES[] = {
    {1048576ull, {{0x5abb74a4b8ae20a8ull, 0xda54eaa5894c4146ull, 0x8987c4ee638a1331ull, 0xeb00dcfade5b6f21ull, 0xc53cf00f1ac26c9full, 0xc33d1a0fcc7cb8c1ull, 0xd6d86186fb1aa60full, 0x547af5bc7b79470cull}, {0xce4ccf71541aea86ull, 0x1a1b251855cdab58ull, 0x90bb8a5e51e53f54ull, 0x81b0af9894400ef2ull, 0x22936c15e7c635c2ull, 0xa9a5a579bccc7a01ull, 0xfc7fe93c4dab57d5ull, 0x293711b500edc0aeull}}},
    {268435456ull, {{0xd1ce909e2f0aae2aull, 0x01f93b96d0b8d1b2ull, 0x7081bd178567afbeull, 0x21453e2f3a28ca8dull, 0x5595147699512084ull, 0xcecc87a544fd9fb4ull, 0xddecfa4fcb19c554ull, 0x0314197559300641ull}, {0x8e83b5454c660fadull, 0xcc41fc24a382640cull, 0x53d3fbc466b5599eull, 0x4e440d1000df9687ull, 0x8f586b0671bce207ull, 0xb3a95f93c116d254ull, 0x68046fdab6963c95ull, 0x7c5f940b2b955a6cull}}},
    {536870912ull, {{0x118e9e0e1b5ff77cull, 0x6e15c6ddf352358cull, 0x1d378b33ef5601a4ull, 0x2197b3c2807aaaefull, 0xce06129d8d9f9550ull, 0x84d8ccd77f9f36bcull, 0x90ae383e79b77269ull, 0x37bdd1cb55436356ull}, {0x800901c51f6bcf5cull, 0x1d1ac561745367d2ull, 0xc723c50e6b91ab59ull, 0xf11798cfca971f5cull, 0x68102815599f9369ull, 0xe3ccd23db314e461ull, 0x3aa05681d86a5061ull, 0xfcafcbac1c96d567ull}}},
    {4294963200ull, {{0x99dd2cba51495329ull, 0xee3f9f87b3075f97ull, 0x7e25cc1fd0e996e7ull, 0x2b7bd63213c1ea8bull, 0x580a3dd86e6cad63ull, 0x737c6ab285107e48ull, 0xe668bf1eb43caa5full, 0xd163a10a83ee89beull}, {0x830f894ff04de668ull, 0x08389cb0325bda24ull, 0x90288e752c3acf3bull, 0xb78e7bceb53ce2c4ull, 0x3366cc0fee4c07ffull, 0xa3a41da8e759d150ull, 0xfd4ab1f2892bfe61ull, 0xcadbbe868bca5083ull}}},
    {4294967296ull, {{0x68b988b5e64a3ee7ull, 0x8ccad1a5358c3540ull, 0xb445d9593d7fc121ull, 0xa73afb6c66935a9aull, 0x92e87399715f3256ull, 0x0406254e5ecf30a4ull, 0xbdd16bbe6d662c13ull, 0x60e8b59b87430253ull}, {0x7d733e39cdaba071ull, 0x04753cfd6f3c625bull, 0xba0c38863c1bc613ull, 0xc78da50a95b467f9ull, 0x7d0080347f1484a1ull, 0x15a6516b0b84ab45ull, 0x35fedc50911687a9ull, 0xb8d0204562548c64ull}}},
};
