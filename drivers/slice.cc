#include "drv.h"
#include "lsmdb/slice.h"
using namespace lsmdb; using namespace drv;
static int cmp(const std::string& a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) { unsigned x = (unsigned char)a[i], y = (unsigned char)b[i]; if (x != y) return x < y ? -1 : 1; }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void two(const std::string& a, const std::string& b) {
  g_runs++; g_input = "slices " + hex(a) + " / " + hex(b);
  Exact x(a), y(b); Slice s(x.p, x.n), t(y.p, y.n);
  int r = cmp(a, b);
  CHECK(sgn(s.compare(t)) == r, "compare"); CHECK((s == t) == (r == 0), "=="); CHECK((s != t) == (r != 0), "!=");
  CHECK(s.starts_with(t) == (a.size() >= b.size() && a.substr(0, b.size()) == b), "starts_with");
  CHECK(s.ToString() == a, "ToString"); CHECK(s.size() == a.size() && s.empty() == a.empty() && s.data() == x.p, "accessors");
  Slice fs(a); CHECK(fs.size() == a.size() && std::string(fs.data(), fs.size()) == a, "Slice(string)");
  std::string z = a.c_str(); Slice fc(a.c_str()); CHECK(fc.ToString() == z, "Slice(cstr)");
  for (size_t i = 0; i < a.size(); i++) CHECK(s[i] == a[i], "operator[]");
  for (size_t k = 0; k <= a.size() && k < 40; k++) { Slice u = s; u.remove_prefix(k); CHECK(u.data() == x.p + k && u.size() == a.size() - k, "remove_prefix"); CHECK(u.ToString() == a.substr(k), "remove_prefix bytes"); }
  Slice u = s; u.clear(); CHECK(u.empty() && u.size() == 0 && u.data() != nullptr && u == Slice(""), "clear");
  CHECK(Slice().empty() && Slice().data() != nullptr, "default");
  CHECK(std::string(x.p, x.n) == a && std::string(y.p, y.n) == b, "bytes unchanged");
}
int main(int c, char** v) {
  init(c, v);
  const char al[] = {0, 1, 0x7f, (char)0x80, (char)0xff};
  std::vector<std::string> all{""};
  for (size_t i = 0; i < all.size() && all[i].size() < 3; i++) for (char ch : al) all.push_back(all[i] + ch);
  for (auto& a : all) for (auto& b : all) two(a, b);
  while (more()) for (int i = 0; i < 200; i++) { std::string a = randbytes(rnd(40)), b = rnd(2) ? a : randbytes(rnd(40)); if (rnd(2) && b.size()) b[rnd(b.size())] = (char)rnd(); if (rnd(2)) b = b.substr(0, rnd(b.size() + 1)); two(a, b); two(b, a); }
  done(); return 0;
}
