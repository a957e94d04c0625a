#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include "absl/strings/str_format.h"
namespace verif_shim {
struct Fatal {
  Fatal() {}
  ~Fatal() { std::cerr << "CHECK failed / LOG(FATAL)\n"; std::abort(); }
  template <class T> Fatal& operator<<(const T&) { return *this; }
};
struct Null {
  template <class T> Null& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define VERIF_LOG_INFO ::verif_shim::Null()
#define VERIF_LOG_WARNING ::verif_shim::Null()
#define VERIF_LOG_ERROR ::verif_shim::Null()
#define VERIF_LOG_FATAL ::verif_shim::Fatal()
#define LOG(sev) VERIF_LOG_##sev
#endif
