// C01 / C02 / C03: digest streaming histories against slow reference implementations.
#include "harness/digest_kinds.h"

namespace {
using namespace dk;
#if defined(PROP_C01)
void Init() { AddUnkeyed(); }
void Run() { sm::Run(kinds, sim::Chance(1, 12) ? (sim::Chance(1, 60) ? 200000 : 20000) : 1500); }
const char* kName = "C01";
#elif defined(PROP_C02)
void Init() { AddKeyed(); }
void Run() { sm::Run(kinds, sim::Chance(1, 12) ? (sim::Chance(1, 60) ? 200000 : 12000) : 1200); }
const char* kName = "C02";
#elif defined(PROP_C03)
void Init() { AddXof(); }
void Run() { sm::Run(kinds, sim::Chance(1, 12) ? (sim::Chance(1, 60) ? 200000 : 9000) : 900); }
const char* kName = "C03";
#endif
}  // namespace

const SimHarness kSimHarness = {kName, Run, Init};
