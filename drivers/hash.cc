#include "drv.h"
#include "util/hash.h"
using namespace lsmdb; using namespace drv;
static uint32_t ref(const std::string& s, uint32_t seed) {
  const uint64_t m = 0xc6a4a793ull, W = 1ull << 32;
  uint64_t n = s.size(), h = seed ^ ((n % W) * m % W), i = 0;
  auto b = [&](size_t k) { return (uint64_t)(unsigned char)s[k]; };
  for (; n - i >= 4; i += 4) { uint64_t w = b(i) + b(i + 1) * 256 + b(i + 2) * 65536 + b(i + 3) * 16777216; h = (h + w) % W * m % W; h ^= h / 65536; }
  uint64_t r = n - i;
  if (r) { uint64_t t = 0; for (uint64_t k = 0; k < r; k++) t += b(i + k) << (8 * k); h = (h + t) % W * m % W; h ^= h >> 24; }
  return (uint32_t)h;
}
static void one(const std::string& s, uint32_t seed) {
  g_runs++; char t[64]; snprintf(t, 64, "seed %u bytes ", seed); g_input = t + hex(s);
  for (int al = 0; al < 2; al++) { std::string pad(al * 3, 'q'); Exact x(pad + s); CHECK(Hash(x.p + pad.size(), s.size(), seed) == ref(s, seed), "Hash value"); }
}
int main(int c, char** v) {
  init(c, v);
  for (int n = 0; n <= 40; n++) for (int t = 0; t < 300; t++) { std::string s = randbytes(n); if (t & 1) for (auto& ch : s) ch |= 0x80; if (t % 7 == 0) s.assign(n, 0); one(s, t % 5 == 0 ? 0 : (uint32_t)rnd()); }
  for (int a = 0; a < 256; a++) one(std::string(1, (char)a), 0xbc9f1d34);
  for (int a = 0; a < 65536; a++) { std::string s; s += (char)a; s += (char)(a >> 8); one(s, 1); }
  while (more()) for (int i = 0; i < 500; i++) one(randbytes(rnd(2000)), (uint32_t)rnd());
  done(); return 0;
}
