#include "drv.h"
#include "util/random.h"
using namespace lsmdb; using namespace drv;
static void one(uint32_t seed, int steps) {
  Random r(seed), u(seed); uint64_t st = 0;
  for (int i = 0; i < steps; i++) {
    g_runs++; char t[64]; snprintf(t, 64, "seed %u step %d", seed, i); g_input = t;
    uint64_t x = r.Next(); CHECK(x >= 1 && x <= 2147483646, "state range"); if (i) CHECK(x == st * 16807 % 2147483647ull, "recurrence"); st = x;
    int n = 1 + (int)(rnd() >> 33) % 2147483647; if (rnd(2)) n = 1 + rnd(100);
    Random a = u; uint32_t nx = a.Next(); (void)nx; Random b = u; CHECK(b.Uniform(n) < (uint32_t)n, "Uniform");
    b.OneIn(n); Random q = u; CHECK(q.OneIn(1), "OneIn(1)"); int ml = rnd(31); Random k = u; CHECK(k.Skewed(ml) < (1u << ml), "Skewed"); u.Next();
  }
}
int main(int c, char** v) {
  init(c, v);
  for (uint32_t s : {0u, 1u, 2u, 2147483646u, 2147483647u, 2147483648u, 2147483649u, 4294967295u, 4294967294u, 301u}) one(s, 200);
  { Random r(1); uint64_t st = 1; for (int i = 0; i < 3000000; i++) { uint64_t x = r.Next(); st = st * 16807 % 2147483647ull; g_input = "seed 1, step " + std::to_string(i); CHECK(x == st, "recurrence"); } }
  // states next to the reduction boundary: s with 16807*s close to multiples of M
  for (uint64_t q = 1; q < 16807; q++) for (int d = -3; d <= 3; d++) { uint64_t s = q * 2147483647ull / 16807 + d; if (s >= 1 && s <= 2147483646) { g_runs++; g_input = "state " + std::to_string(s); Random r((uint32_t)s); CHECK(r.Next() == s * 16807 % 2147483647ull, "recurrence"); } }
  while (more()) one((uint32_t)rnd(), 50);
  done(); return 0;
}
