// Verification shim: abseil 20220623 (the installed one) has no absl/log.
// CHECK* abort the process when the condition is false, as absl's do.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define CHECK(cond) \
  if (static_cast<bool>(cond)) {} else ::verif_shim::Fatal()
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_OK(s) CHECK((s).ok())
#define DCHECK(cond) CHECK(cond)
#endif
