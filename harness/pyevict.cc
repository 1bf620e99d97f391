// C22, with caches filled to the brim: every new expression evicts an old one.
#include "pyevalrun.h"
extern "C" const char* const sim_harness_name = "pyevict";
extern "C" void sim_init() {
  full_cache = true;
  pyhost::boot_eval(kScript, more_all);
}
