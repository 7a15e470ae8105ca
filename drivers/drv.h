// Common parts of the concrete replay drivers: they run the repository's real
// sources on generated inputs against an independent oracle, and are used only
// to search for a failing input after a proof obligation failed (or, labelled
// bounded, when the verifier cannot take the code).
#pragma once
#include <unistd.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace drv {
static uint64_t g_s = 88172645463325252ull;
static unsigned long g_runs = 0;
static std::string g_input;
static std::chrono::steady_clock::time_point g_t0;
static double g_secs = 10;
static std::string g_dir;
static inline uint64_t rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s * 2685821657736338717ull; }
static inline uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static inline bool more() { return elapsed() < g_secs; }
static inline void init(int argc, char** argv) {
  g_t0 = std::chrono::steady_clock::now();
  if (argc > 1) g_s ^= strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull;
  if (argc > 2) g_secs = atof(argv[2]);
  if (argc > 3) g_dir = argv[3];
  if (!g_s) g_s = 1;
  for (int i = 0; i < 8; i++) rnd();
}
static inline std::string hex(const std::string& s) {
  std::string r; char b[4];
  for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; if (r.size() > 400) { r += "..."; break; } }
  return r;
}
static inline void done() { printf("RUNS %lu\n", g_runs); fflush(stdout); }
[[noreturn]] static inline void fail(const char* file, int line, const std::string& msg) {
  printf("FAIL %s (driver line %d)\ninput: %s\n", msg.c_str(), line, g_input.c_str());
  done();
  _exit(1);
}
// bytes in an exactly sized heap block, so that the sanitizer sees every overrun
struct Exact {
  char* p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  Exact(const Exact&) = delete;
  ~Exact() { delete[] p; }
};
static inline std::string randbytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)rnd(); return s; }
}  // namespace drv
#define CHECK(c, msg) do { if (!(c)) drv::fail(__FILE__, __LINE__, std::string(msg) + "  [" #c "]"); } while (0)
