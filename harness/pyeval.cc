// C22, with caches that start out empty.
#include "pyevalrun.h"
extern "C" const char* const sim_harness_name = "pyeval";
extern "C" void sim_init() {
  full_cache = false;
  pyhost::boot_eval(kScript, more_all);
}
