#include "drv.h"
#include "util/logging.h"
#include "lsmdb/slice.h"
using namespace lsmdb; using namespace drv;
static std::string dec(uint64_t v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
static void parse(const std::string& s) {
  g_runs++; g_input = "parse " + hex(s);
  Exact x(s); Slice in(x.p, x.n); uint64_t val = 0xabcdef;
  size_t R = 0; unsigned __int128 v = 0; bool over = false;
  while (R < s.size() && s[R] >= '0' && s[R] <= '9') { v = v * 10 + (s[R] - '0'); if (v >> 64) { over = true; v = 1; v <<= 64; } R++; }
  bool ok = ConsumeDecimalNumber(&in, &val);
  CHECK(ok == (R > 0 && !over), "ConsumeDecimalNumber result");
  if (ok) { CHECK(val == (uint64_t)v, "value"); CHECK(in.data() == x.p + R && in.size() == x.n - R, "position"); }
  else if (!R) CHECK(in.data() == x.p && in.size() == x.n, "position without digits");
  else CHECK(val == 0xabcdef, "no value delivered on overflow");
}
static void print(uint64_t v) {
  g_runs++; char t[40]; snprintf(t, 40, "print %llu", (unsigned long long)v); g_input = t;
  CHECK(NumberToString(v) == dec(v), "NumberToString"); std::string s = "a1"; AppendNumberTo(&s, v); CHECK(s == "a1" + dec(v), "AppendNumberTo");
  parse(dec(v)); parse(dec(v) + "x"); parse(dec(v) + "0"); parse("0" + dec(v)); parse(dec(v) + std::string(1, 0));
}
static void esc(const std::string& s) {
  g_runs++; g_input = "escape " + hex(s);
  std::string e; for (unsigned char c : s) { if (c >= 0x20 && c < 0x7f) e += (char)c; else { static const char* h = "0123456789abcdef"; e += "\\x"; e += h[c >> 4]; e += h[c & 15]; } }
  Exact x(s); CHECK(EscapeString(Slice(x.p, x.n)) == e, "EscapeString"); std::string d("p\0q", 3); AppendEscapedStringTo(&d, Slice(x.p, x.n)); CHECK(d == std::string("p\0q", 3) + e, "AppendEscapedStringTo");
}
int main(int c, char** v) {
  init(c, v);
  for (int i = 0; i < 64; i++) for (int d = -2; d <= 2; d++) print((1ull << i) + d);
  uint64_t p = 1; for (int i = 0; i < 20; i++) { print(p); print(p - 1); print(p + 1); p *= 10; }
  for (uint64_t x = 0; x < 3000; x++) print(x);
  const char* big[] = {"18446744073709551615", "18446744073709551616", "18446744073709551614", "18446744073709551620", "18446744073709551625", "18446744073709551705", "184467440737095516150", "184467440737095516149", "36893488147419103232", "99999999999999999999", "028446744073709551616", "00000000000000000000000018446744073709551615", "00000000000000000000000018446744073709551616", "", "-1", "+1", "/", ":", "9:", "5/"};
  for (auto s : big) { parse(s); parse(std::string(s) + "a"); }
  esc(""); for (int a = 0; a < 256; a++) { esc(std::string(1, (char)a)); esc(std::string("x") + (char)a + "y"); for (int b = 0; b < 256; b++) { std::string s; s += (char)a; s += (char)b; parse(s); esc(s);} }
  while (more()) for (int i = 0; i < 200; i++) { print(rnd() >> rnd(64)); std::string s; int n = rnd(26); for (int k = 0; k < n; k++) s += (char)(rnd(20) ? '0' + rnd(10) : rnd(256)); parse(s); esc(randbytes(rnd(60))); }
  done(); return 0;
}
