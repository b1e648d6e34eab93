// C22: limited_ord_lsets.
#include "harness/limited_ord.h"

namespace lo {
void RunLargeSets(uint32_t config) {
  switch (config) {
    case 0: RunOrd<Set<LimitedOptions<20, F::kCustomIndexOfBeyondUnroll>{}>, Set<6>>(20, 6); break;
    case 1: RunOrd<Set<LimitedOptions<20, F::kCustomIndexOfBeyondUnroll>{}, Three>, Set<6>>(20, 6); break;
    case 2: RunOrd<Set<LimitedOptions<6, F::kNoOptimizeIndexOf>{}, Three>, Set<6>>(6, 6); break;
    default: RunOrd<Set<LimitedOptions<16>{}>, Set<1>>(16, 1); break;
  }
}
}  // namespace lo
