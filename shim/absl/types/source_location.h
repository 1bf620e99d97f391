#ifndef SHIM_SOURCE_LOCATION_H_
#define SHIM_SOURCE_LOCATION_H_
#include <source_location>
namespace absl { using SourceLocation = std::source_location; }
#endif
