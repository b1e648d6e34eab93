// C22: histories over fixed-capacity sets and maps.
#include "harness/limited_ord.h"

namespace {
void Run() {
  const uint32_t c = sim::ChooseIndexed(15);
  if (c < 4) lo::RunSets(c);
  else if (c < 7) lo::RunMaps(c - 4);
  else if (c < 11) lo::RunLargeSets(c - 7);
  else if (c < 14) lo::RunLargeMaps(c - 11);
  else lo::RunHelpers();
  if (lo::g_steps >= 4 && lo::g_fails + lo::g_rejects > 0) sim::NonTrivial();
}
}  // namespace
const SimHarness kSimHarness = {"C22", Run, nullptr};
