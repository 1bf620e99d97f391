// Stand-in for abseil >= 2024 absl/base/nullability.h (annotations only).
#ifndef SHIM_ABSL_NULLABILITY_H_
#define SHIM_ABSL_NULLABILITY_H_
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#endif
