// C22: limited_ord_maps.
#include "harness/limited_ord.h"

namespace lo {
void RunMaps(uint32_t config) {
  switch (config) {
    case 0: RunOrd<Map<5>, Map<3>>(5, 3); break;
    case 1: RunOrd<Map<6, Three>, Map<4>>(6, 4); break;
    default: RunOrd<Map<5, ModCmp>, Map<3>>(5, 3); break;
  }
}
}  // namespace lo
