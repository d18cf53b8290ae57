// A script of calls which every build of the library plays, and what it answers.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace vfb {
using Hash = std::array<uint8_t, 32>;
struct Op {
    enum Kind { BLOCK_FOREST, BLOCK_POLLARD, UNDO, COMMIT, PROVE_FOREST, PROVE_POLLARD, VERIFY, PRUNE, RESTART, DECODE, COMPARE, DIGEST, PRINT } kind;
    int obj = 0;                               // which pollard
    std::vector<std::pair<Hash, bool>> leaves; // added
    std::vector<uint64_t> targets;
    std::vector<Hash> target_hashes, hashes; // of targets, of a proof; RESTART: roots
    std::vector<uint8_t> bytes;              // to decode, or to digest
    std::vector<uint64_t> cuts;
    uint64_t n = 0;
};
using Script = std::vector<Op>;
// One text of raw bytes per step.
using Play = void (*)(const Script&, int pollards, const std::string& file, std::vector<std::string>& answers);
} // namespace vfb
