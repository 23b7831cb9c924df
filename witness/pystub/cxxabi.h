// Stand-in for <cxxabi.h> during the analysis (the analyser knows this function).
#pragma once
extern "C" char *pystub_demangle(const char *, int *);
namespace __cxxabiv1 {
inline char *__cxa_demangle(const char *name, char *, unsigned long *, int *status) {
  int ignored;
  return pystub_demangle(name, status ? status : &ignored);
}
} // namespace __cxxabiv1
namespace abi = __cxxabiv1;
