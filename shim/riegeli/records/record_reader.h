#include "riegeli/sim_records.h"
