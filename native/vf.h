// Shared support of the native contract checkers: cases, failure reports, crash and hang capture.
#ifndef VF_H
#define VF_H
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <cmath>
#include <limits>
#include <random>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define VF_ASAN 1
#endif

namespace vf {
static char cur[65536] = "(start)";
static uint64_t cases = 0, seed = 1;
static double budget = 20, t0 = 0;
static bool thorough = false;
static std::set<uint64_t> distinct;
static std::vector<std::string> samples;
static std::mt19937_64 rng;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline double elapsed() { return now() - t0; }
inline bool more() { return elapsed() < budget; }

inline void report(const char* what) {
  printf("FAIL %s | input: %s\n", what, cur);
  fflush(stdout);
}
inline void death() {
  static bool done = false;
  if (done) return;
  done = true;
  printf("FAIL memory error or undefined behaviour (see the sanitizer report) | input: %s\n", cur);
  fflush(stdout);
}
inline void onalarm(int) {
  const char m[] = "FAIL the call does not return | input: ";
  (void)!write(1, m, sizeof m - 1);
  (void)!write(1, cur, strlen(cur));
  (void)!write(1, "\n", 1);
  _exit(1);
}
inline void onsig(int s) {
  const char m[] = "FAIL the process is terminated by a signal | input: ";
  (void)!write(1, m, sizeof m - 1);
  (void)!write(1, cur, strlen(cur));
  (void)!write(1, "\n", 1);
  _exit(1);
}
inline void hash(uint64_t h) { if (distinct.size() < 2000000) distinct.insert(h); }
inline void begin(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(cur, sizeof cur, fmt, ap);
  va_end(ap);
  ++cases;
  uint64_t h = 1469598103934665603ull;
  for (const char* p = cur; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  hash(h);
  if (samples.size() < 4 && (cases == 1 || cases == 17 || cases == 171 || cases == 1717)) samples.push_back(std::string(cur).substr(0, 200));
  if ((cases & 63) == 0) alarm(60);
}
inline void more_input(const char* fmt, ...) {
  size_t l = strlen(cur);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(cur + l, sizeof cur - l, fmt, ap);
  va_end(ap);
}
[[noreturn]] inline void fail(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  report(b);
  _exit(1);
}
inline void init(int argc, char** argv) {
  t0 = now();
  if (argc > 1) seed = strtoull(argv[1], 0, 10);
  if (argc > 2) budget = atof(argv[2]);
  if (argc > 3) thorough = !strcmp(argv[3], "thorough");
  rng.seed(seed);
  signal(SIGALRM, onalarm);
  alarm(60);
#ifdef VF_ASAN
  __sanitizer_set_death_callback(death);
#else
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig);
#endif
  signal(SIGABRT, onsig); signal(SIGFPE, onsig);
}
inline int finish() {
  printf("CASES %llu DISTINCT %llu\n", (unsigned long long)cases, (unsigned long long)distinct.size());
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  fflush(stdout);
  _exit(0);
}
inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
inline double uni() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }

inline bool property(const char* id) { const char* p = getenv("VF_PROPERTY"); return !p || !strcmp(p, id); }

// exact-size heap block, so that the address sanitizer sees any access outside
template <typename T>
struct Block {
  T* p; size_t n;
  explicit Block(size_t n_, bool slack = false) : p((T*)malloc((n_ + (slack ? 256 : 0)) * sizeof(T) + (n_ ? 0 : 1))), n(n_) {}
  ~Block() { free(p); }
  Block(const Block&) = delete;
  T& operator[](size_t i) { return p[i]; }
};
}  // namespace vf
#endif
