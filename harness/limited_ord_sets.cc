// C22: limited_ord_sets.
#include "harness/limited_ord.h"

namespace lo {
void RunSets(uint32_t config) {
  switch (config) {
    case 0: RunOrd<Set<5>, Set<3>>(5, 3); break;
    case 1: RunOrd<Set<6, Three>, Set<4>>(6, 4); break;
    case 2: RunOrd<Set<5, ModCmp>, Set<5>>(5, 5); break;
    default: RunOrd<Set<LimitedOptions<5, F::kRequireSortedInput>{}>, Set<5>, true>(5, 5); break;
  }
}
}  // namespace lo
