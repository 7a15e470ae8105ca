// Random histories on the real skip list against a sorted set, and readers beside an inserting thread.
#include <signal.h>
#include <algorithm>
#include <atomic>
#include <set>
#include <thread>
#include "drv.h"
#include "db/skiplist.h"
using namespace lsmdb; using namespace drv;
// a total order: by value, reversed, or by a permuted value
struct Cmp {
  int kind;
  uint64_t pos(uint64_t a) const { return kind == 0 ? a : kind == 1 ? ~a : a * 0x9E3779B97F4A7C15ull; }
  int operator()(const uint64_t& a, const uint64_t& b) const { uint64_t x = pos(a), y = pos(b); int big = kind == 2 ? 1 << 30 : 1; return x < y ? -big : x > y ? big : 0; }
};
struct Less { Cmp c; bool operator()(uint64_t a, uint64_t b) const { return c(a, b) < 0; } };
typedef SkipList<uint64_t, Cmp> List;
static void history() {
  g_runs++; Cmp cmp{(int)rnd(3)}; Arena arena; List list(cmp, &arena); std::set<uint64_t, Less> m(Less{cmp});
  uint64_t range = rnd(2) ? 1 + rnd(60) : rnd(2) ? 5000 : ~0ull; size_t n = rnd(3) ? rnd(40) : rnd(2000);
  char b[120]; snprintf(b, 120, "order %d, keys below %llu, seed state %llu:", cmp.kind, (unsigned long long)range, (unsigned long long)g_s); g_input = b;
  bool asc = !rnd(4); uint64_t next = 0;
  auto key = [&] { return rnd(10) == 0 ? (rnd(2) ? 0 : ~0ull) : rnd(range); };
  auto audit = [&](List::Iterator& it, std::set<uint64_t, Less>::iterator p, const char* w) {
    CHECK(it.Valid() == (p != m.end()), w); if (it.Valid()) CHECK(it.key() == *p, w);
  };
  for (size_t i = 0; i <= n; i++) {
    uint64_t k = asc ? next++ : key();
    if (!m.count(k) && i < n) { m.insert(k); snprintf(b, 120, " %llu", (unsigned long long)k); if (g_input.size() < 2000) g_input += b; list.Insert(k); CHECK(list.Contains(k), "an inserted key is found"); }
    uint64_t q = rnd(2) && !m.empty() ? *m.begin() + rnd(3) - 1 : key();
    CHECK(list.Contains(q) == (m.count(q) != 0), "membership");
    List::Iterator it(&list); CHECK(!it.Valid(), "a new iterator is not valid");
    it.Seek(q); auto p = m.lower_bound(q); audit(it, p, "Seek lands on the first key at or after the target");
    for (int s = 0; s < 6 && it.Valid(); s++) {
      if (rnd(2)) { it.Next(); ++p; audit(it, p, "Next"); }
      else { it.Prev(); if (p == m.begin()) { CHECK(!it.Valid(), "stepping back from the first key"); break; } --p; audit(it, p, "Prev"); }
    }
    it.SeekToFirst(); audit(it, m.begin(), "SeekToFirst");
    it.SeekToLast(); audit(it, m.empty() ? m.end() : std::prev(m.end()), "SeekToLast");
    if (i == n || !rnd(60)) {
      it.SeekToFirst(); for (uint64_t x : m) { CHECK(it.Valid() && it.key() == x, "iteration is the sorted set"); it.Next(); } CHECK(!it.Valid(), "iteration ends");
      it.SeekToLast(); for (auto r = m.rbegin(); r != m.rend(); ++r) { CHECK(it.Valid() && it.key() == *r, "backward iteration is the sorted set"); it.Prev(); } CHECK(!it.Valid(), "backward iteration ends");
    }
  }
}
static void threads() {
  g_runs++; g_input = "readers beside an inserting thread"; Cmp cmp{(int)rnd(3)}; Arena arena; List list(cmp, &arena);
  size_t n = 50 + rnd(300); std::vector<uint64_t> ks; std::set<uint64_t> u; while (u.size() < n) { uint64_t k = rnd(4 * n); if (u.insert(k).second) ks.push_back(k); }
  std::atomic<size_t> begun{0}, done{0}; std::atomic<const char*> err{nullptr}; uint64_t s0 = rnd(); std::vector<std::thread> rs;
  for (int t = 0; t < 3; t++) rs.emplace_back([&, t] {
    uint64_t x = s0 + t * 7919 + 1; auto r = [&](uint64_t m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 11) % m; };
    std::vector<size_t> at(4 * n, ~(size_t)0); for (size_t i = 0; i < n; i++) at[ks[i]] = i;
    auto bad = [&](const char* m) { err.store(m); };
    for (size_t d = 0; d < n && !err.load();) {
      d = done.load(std::memory_order_acquire); List::Iterator it(&list);
      if (r(3) == 0) { uint64_t k = r(4 * n); bool c = list.Contains(k); size_t i = at[k]; size_t e = begun.load(); if (c && i >= e) bad("a key was found that was never inserted"); if (!c && i < d) bad("a key inserted before the read was not found"); }
      else if (r(2)) {
        std::vector<uint64_t> got; for (it.SeekToFirst(); it.Valid(); it.Next()) got.push_back(it.key()); size_t e = begun.load();
        for (size_t i = 0; i < got.size(); i++) { if (i && cmp(got[i - 1], got[i]) >= 0) bad("keys out of order"); if (got[i] >= 4 * n || at[got[i]] >= e) bad("iteration met a key that was not inserted"); }
        std::set<uint64_t> g(got.begin(), got.end()); for (size_t i = 0; i < d; i++) if (!g.count(ks[i])) bad("iteration missed a key");
      } else {
        uint64_t k = r(4 * n); it.Seek(k); uint64_t best = 0; bool have = false; uint64_t lo = 0; bool hlo = false;
        for (size_t i = 0; i < d; i++) { if (cmp(ks[i], k) >= 0 && (!have || cmp(ks[i], best) < 0)) best = ks[i], have = true; }
        if (it.Valid() ? cmp(it.key(), k) < 0 || (have && cmp(it.key(), best) > 0) : have) bad("Seek");
        if (it.Valid()) { uint64_t c = it.key(); for (size_t i = 0; i < d; i++) if (cmp(ks[i], c) < 0 && (!hlo || cmp(ks[i], lo) > 0)) lo = ks[i], hlo = true; it.Prev(); if (it.Valid() ? cmp(it.key(), c) >= 0 || (hlo && cmp(it.key(), lo) < 0) : hlo) bad("Prev"); }
        it.SeekToLast(); if (d && !it.Valid()) bad("SeekToLast");
      }
    }
  });
  for (size_t i = 0; i < n; i++) { begun.store(i + 1); list.Insert(ks[i]); done.store(i + 1, std::memory_order_release); }
  for (auto& t : rs) t.join();
  if (err.load()) fail(__FILE__, __LINE__, err.load());
}
// a reader at every instruction boundary of an insertion (the writer single-steps itself; x86)
#ifdef __x86_64__
static List* g_list; static Cmp g_cmp; static std::vector<uint64_t>* g_keys; static size_t g_full, g_range; static volatile bool g_on;
static void flag_on() { asm volatile("subq $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "memory", "cc"); }
static void flag_off() { asm volatile("subq $128,%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "memory", "cc"); }
static void at_step(int) {
  if (!g_on) return;
  const std::vector<uint64_t>& ks = *g_keys; uint64_t cur = ks[g_full]; static unsigned turn; turn++;
  List::Iterator it(g_list); size_t seen = 0; bool first = true; uint64_t last = 0;
  for (it.SeekToFirst(); it.Valid(); it.Next()) {
    uint64_t k = it.key(); CHECK(first || g_cmp(last, k) < 0, "keys out of order during an insertion"); first = false; last = k;
    if (k == cur) continue;
    bool known = false; for (size_t i = 0; i < g_full && !known; i++) known = ks[i] == k;
    CHECK(known, "a reader met a key that was never inserted"); seen++;
  }
  CHECK(seen == g_full, "iteration during an insertion missed a key");
  for (int j = 0; j < 2 && g_full; j++) CHECK(g_list->Contains(ks[(turn + j * 7) % g_full]), "a key inserted before is not found during an insertion");
  uint64_t q = turn % g_range; bool known = q == cur; for (size_t i = 0; i < g_full && !known; i++) known = ks[i] == q;
  if (!known) CHECK(!g_list->Contains(q), "a reader found a key that was never inserted");
  it.SeekToLast(); if (g_full) { CHECK(it.Valid(), "SeekToLast during an insertion"); uint64_t k = it.key(); it.Prev(); if (it.Valid()) CHECK(g_cmp(it.key(), k) < 0, "Prev during an insertion"); }
}
static void stepping() {
  g_runs++; g_input = "a reader at every step of the insertions"; g_cmp.kind = (int)rnd(3); Arena arena; List list(g_cmp, &arena);
  // leftovers in memory the arena will hand out
  { std::vector<char*> g; for (int i = 0; i < 3; i++) { g.push_back(new char[4096]); memset(g.back(), rnd(2) ? 0 : 0x41, 4096); } for (char* p : g) delete[] p; }
  std::vector<uint64_t> ks; std::set<uint64_t> u; size_t n = 6 + rnd(20); g_range = 4 * n; while (ks.size() < n) { uint64_t k = rnd(4 * n); if (u.insert(k).second) ks.push_back(k); }
  char b[40]; for (uint64_t k : ks) { snprintf(b, 40, " %llu", (unsigned long long)k); g_input += b; }
  g_list = &list; g_keys = &ks; signal(SIGTRAP, at_step);
  for (g_full = 0; g_full < n; g_full++) { g_on = true; flag_on(); list.Insert(ks[g_full]); flag_off(); g_on = false; }
}
#else
static void stepping() {}
#endif
int main(int c, char** v) {
  init(c, v);
#ifdef HISTORIES
  do { for (int i = 0; i < 10; i++) history(); } while (more());
#else
  do { threads();
#ifdef STEPS
    stepping();
#endif
  } while (more());
#endif
  done();
}
