// C04: streaming hashes equal one-shot hashes for every seed and delivery schedule; nothing outside the bytes is read.
#include "harness/hash_kinds.h"

namespace {
void Run() { sm::Run(hk::kinds, sim::Chance(1, 12) ? 5000 : 700); }
}  // namespace
const SimHarness kSimHarness = {"C04", Run, hk::AddHashes};
