// C22: limited_ord_lmaps.
#include "harness/limited_ord.h"

namespace lo {
void RunLargeMaps(uint32_t config) {
  switch (config) {
    case 0: RunOrd<Map<LimitedOptions<20, F::kCustomIndexOfBeyondUnroll>{}, Three>, Map<6>>(20, 6); break;
    case 1: RunOrd<Map<LimitedOptions<18>{}>, Map<5>>(18, 5); break;
    default: RunOrd<Map<LimitedOptions<17, F::kCustomIndexOfBeyondUnroll>{}, ModCmp>, Map<2>>(17, 2); break;
  }
}
}  // namespace lo
