// Small support library of the native contract monitors.
#pragma once
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vn {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + static_cast<int>(below(b - a + 1)); }
  bool chance(int pct) { return below(100) < static_cast<uint64_t>(pct); }
};
static uint64_t evals = 0;
static std::set<uint64_t> distinct_set;
static uint64_t distinct_extra = 0;
static int fails = 0;
static int samples = 0;
static char current[4096] = "(start)";
static uint64_t seed = 1;
static double budget = 20;
static std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
static uint64_t hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static bool time_left(double frac = 1.0) { return elapsed() < budget * frac; }
static void emit_end() {
  printf("EVAL %llu\nDISTINCT %llu\n", (unsigned long long)evals, (unsigned long long)(distinct_set.size() + distinct_extra));
  fflush(stdout);
}
static void on_alarm(int) {
  char b[4200];
  int n = snprintf(b, sizeof b, "\nFAIL hang: case does not finish: %s\n", current);
  (void)!write(1, b, n);
  _exit(1);
}
static void on_crash(int sig) {
  char b[4300];
  int n = snprintf(b, sizeof b, "\nFAIL signal %d in case: %s\n", sig, current);
  (void)!write(1, b, n);
  _exit(1);
}
// start a case; its text is what a failure reports
static void begin(const std::string& text) {
  ++evals;
  strncpy(current, text.c_str(), sizeof current - 1);
  if (distinct_set.size() < 400000) distinct_set.insert(hash(text));
  if (samples < 4 && (evals % 37) == 1) { printf("SAMPLE %s\n", text.substr(0, 300).c_str()); ++samples; }
  if ((evals & 63) == 1) alarm(60);
}
static void fail(const std::string& why) {
  printf("FAIL %s :: case: %s\n", why.c_str(), current);
  fflush(stdout);
  if (++fails >= 10) { emit_end(); printf("DONE\n"); fflush(stdout); _exit(1); }
}
#define VN_CHECK(cond, why) do { if (!(cond)) { std::ostringstream o_; o_ << why; vn::fail(o_.str()); } } while (0)
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() {
  char b[4300];
  int n = snprintf(b, sizeof b, "\nFAIL memory error (sanitizer) in case: %s\n", current);
  (void)!write(1, b, n);
}
static void init(int argc, char** argv, const char* rule) {
  if (argc > 1) seed = strtoull(argv[1], 0, 10);
  if (argc > 2) budget = atof(argv[2]);
  printf("RULE %s\n", rule);
  signal(SIGALRM, on_alarm);
  signal(SIGABRT, on_crash);
  if (__asan_set_death_callback) __asan_set_death_callback(on_death);
  else { signal(SIGSEGV, on_crash); signal(SIGBUS, on_crash); signal(SIGFPE, on_crash); signal(SIGILL, on_crash); }
  t0 = std::chrono::steady_clock::now();
}
static int done() {
  alarm(0);
  emit_end();
  printf("DONE\n");
  fflush(stdout);
  return fails ? 1 : 0;
}
}  // namespace vn
