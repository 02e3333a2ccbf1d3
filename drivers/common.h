// Shared by the replay drivers: bounded search for an input on which the real
// code of /repo breaks a contract. A driver only runs after an obligation failed.
#ifndef VERIF_DRIVER_COMMON_H_
#define VERIF_DRIVER_COMMON_H_
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
namespace drv {
static char cur[1 << 16];
static long cases = 0;
static uint64_t rng_s = 88172645463325252ull;
static double deadline = 0;
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t rnd() { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s; }
inline int rint(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
inline double rreal() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
inline bool more() { return now() < deadline; }
inline void onsig(int s) {
  char b[64]; int n = snprintf(b, sizeof b, "COUNTEREXAMPLE (signal %d) on input:\n", s);
  if (write(1, b, n)) {} if (write(1, cur, strlen(cur))) {} if (write(1, "\n", 1)) {}
  _exit(77);
}
inline void init(int argc, char **argv) {
  rng_s ^= (uint64_t)(argc > 1 ? atoi(argv[1]) : 1) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 20; ++i) rnd();
  deadline = now() + (argc > 2 ? atof(argv[2]) : 20);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
}
inline void input(const std::string &d) { size_t n = std::min(d.size(), sizeof(cur) - 1); memcpy(cur, d.data(), n); cur[n] = 0; ++cases; alarm(20); }
inline void fail(const std::string &why) {
  printf("COUNTEREXAMPLE: %s\ninput:\n%s\n", why.c_str(), cur); fflush(stdout); _exit(1);
}
inline void check(bool ok, const std::string &why) { if (!ok) fail(why); }
inline int done() { alarm(0); printf("%ld inputs tried, no violation\n", cases); fflush(stdout); _exit(0); }
template <class T> std::string str(const T &v) { std::ostringstream o; o << v; return o.str(); }
template <class T> std::string vstr(const std::vector<T> &v) { std::ostringstream o; o << "["; for (auto &x : v) o << x << " "; o << "]"; return o.str(); }
inline bool close(double a, double b, double tol = 1e-6) { if (a == b) return true; return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
}  // namespace drv
#endif
