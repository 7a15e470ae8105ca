// Random histories on the real cache against a model of its entries, and threads sharing one cache.
#include <algorithm>
#include <atomic>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "drv.h"
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include "util/hash.h"
using namespace lsmdb; using namespace drv;
struct Ent { std::string key; size_t charge; int ext; bool in; int deleted; uint64_t age; };
static std::vector<Ent>* E; static std::string* bad;
static std::vector<std::pair<std::string, std::string>> twins;   // keys with the same 32-bit hash
static unsigned sh(const std::string& k) { return Hash(k.data(), k.size(), 0) >> 28; }
static void find_twins() {
  std::map<uint32_t, std::string> seen;
  for (int i = 0; i < 150000; i++) { std::string k = randbytes(3 + i % 4); uint32_t h = Hash(k.data(), k.size(), 0); auto it = seen.find(h); if (it == seen.end()) seen[h] = k; else if (it->second != k) twins.push_back({k, it->second}); }
}
// does the cache spread keys over its shards as assumed here?  (If not, the order of eviction is not judged.)
static bool placed(const std::vector<std::string>& keys) {
  for (size_t i = 0; i < keys.size(); i++) for (size_t j = 0; j < i; j++) {
    auto c = NewLRUCache(16); auto d = [](const Slice&, void*) {};
    c->Release(c->Insert(keys[j], nullptr, 1, d)); c->Release(c->Insert(keys[i], nullptr, 1, d));
    auto h = c->Lookup(keys[j]); if (h) c->Release(h);
    if ((h == nullptr) != (sh(keys[i]) == sh(keys[j]))) return false;
  }
  return true;
}
static void history(bool order) {
  g_runs++; g_input.clear();
  std::vector<Ent> ents; E = &ents; std::string err; bad = &err;
  static const size_t caps[] = {0, 1, 16, 40, 160, 1000, 100000, SIZE_MAX, SIZE_MAX - 3, 64, 17};
  size_t cap = caps[rnd(11)], per = cap / 16 + (cap % 16 != 0);
  std::vector<std::string> keys; size_t nk = rnd(4) ? 1 + rnd(12) : 1 + rnd(600);
  bool one = rnd(2);      // keys of one shard only
  unsigned s0 = (unsigned)rnd(16);
  if (!twins.empty() && rnd(3)) { auto& t = twins[rnd(twins.size())]; keys.push_back(t.first); keys.push_back(t.second); s0 = sh(t.first); }
  if (!rnd(4)) keys.push_back("");
  for (int t = 0; keys.size() < nk && t < 40000; t++) { std::string k = randbytes(rnd(3) ? 4 : rnd(20)); if ((!one || sh(k) == s0) && std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k); }
  char b[200]; snprintf(b, 200, "capacity %zu, %zu keys;", cap, keys.size()); g_input = b;
  std::map<std::string, int> at;            // key -> entry in the cache
  struct H { Cache::Handle* h; int e; }; std::vector<H> hs;
  uint64_t now = 1; size_t big = rnd(3) ? 3 : per < 100000 ? per + 2 : 50; bool hold = rnd(3) == 0;
  auto c = NewLRUCache(cap); std::set<uint64_t> ids;
  auto total = [&] { size_t t = 0; for (auto& x : at) t += ents[x.second].charge; return t; };
  auto shtotal = [&](unsigned s) { size_t t = 0; for (auto& x : at) if (sh(x.first) == s) t += ents[x.second].charge; return t; };
  auto alive = [&](int e) { return ents[e].in || ents[e].ext > 0; };
  auto put = [&](const std::string& k, const char* w) { if (g_input.size() < 2500) { snprintf(b, 200, " %s(%s)", w, hex(k).c_str()); g_input += b; } };
  auto leave = [&](int e) { ents[e].in = false; };
  auto audit = [&](const char* when) {
    if (!err.empty()) fail(__FILE__, __LINE__, err);
    for (size_t i = 0; i < ents.size(); i++) { int want = alive((int)i) ? 0 : 1; if (ents[i].deleted != want) { snprintf(b, 200, "after %s, the deleter of entry %zu has run %d times instead of %d", when, i, ents[i].deleted, want); fail(__FILE__, __LINE__, b); } }
  };
  int ops = 1 + (int)rnd(rnd(5) ? 60 : 900);
  for (int i = 0; i < ops; i++) {
    const std::string& k = keys[rnd(keys.size())]; unsigned what = (unsigned)rnd(20); const char* name = "";
    if (what < 8) {
      name = "Insert"; put(k, name);
      int id = (int)ents.size(); size_t ch = rnd(8) ? 1 + rnd(big) : rnd(4) ? 0 : 1 + rnd(per < 1000 ? per + 3 : 7);
      ents.push_back({k, ch, 1, cap > 0, 0, 0});
      Cache::Handle* h; { Exact ek(k); h = c->Insert(Slice(ek.p, ek.n), (void*)(intptr_t)(id + 1), ch, [id](const Slice& key, void* v) {
        auto& x = (*E)[id]; x.deleted++; if (key.ToString() != x.key) *bad = "a deleter got another key"; if ((intptr_t)v != id + 1) *bad = "a deleter got another value"; }); }
      CHECK(h != nullptr, "Insert returns a handle"); CHECK((intptr_t)c->Value(h) == id + 1, "the handle carries the value");
      if (cap) {
        auto it = at.find(k); if (it != at.end()) leave(it->second); at[k] = id;
        if (order) {
          std::vector<int> idle; for (auto& x : at) if (sh(x.first) == sh(k) && ents[x.second].ext == 0) idle.push_back(x.second);
          std::sort(idle.begin(), idle.end(), [&](int x, int y) { return ents[x].age < ents[y].age; });
          for (int x : idle) { if (shtotal(sh(k)) <= per) break; at.erase(ents[x].key); leave(x); }
        } else for (auto x = at.begin(); x != at.end();) { if (ents[x->second].ext == 0 && ents[x->second].deleted) { leave(x->second); x = at.erase(x); } else ++x; }
      }
      hs.push_back({h, id});
      if (!hold && rnd(8)) { put("", "Release"); ents[id].ext--; ents[id].age = now++; c->Release(h); hs.pop_back(); }
    } else if (what < 12) {
      name = "Lookup"; put(k, name);
      auto it = at.find(k); Exact ek(k); auto h = c->Lookup(Slice(ek.p, ek.n));
      CHECK((h != nullptr) == (it != at.end()), it != at.end() ? "Lookup finds an entry in the cache" : "Lookup finds nothing that is not in the cache");
      if (h) { int id = it->second; CHECK((intptr_t)c->Value(h) == id + 1, "Lookup returns the latest value for exactly that key"); ents[id].ext++; hs.push_back({h, id}); }
    } else if (what < 15 && !hs.empty()) {
      size_t j = rnd(hs.size()); name = "Release"; put(ents[hs[j].e].key, name); H x = hs[j]; hs[j] = hs.back(); hs.pop_back();
      CHECK((intptr_t)c->Value(x.h) == x.e + 1, "a handle keeps its value"); if (--ents[x.e].ext == 0) ents[x.e].age = now++; c->Release(x.h);
    } else if (what < 18) {
      name = "Erase"; put(k, name); auto it = at.find(k); if (it != at.end()) { leave(it->second); at.erase(it); } Exact ek(k); c->Erase(Slice(ek.p, ek.n));
    } else if (what == 18 && !rnd(6)) {
      name = "Prune"; put("", name); for (auto it = at.begin(); it != at.end();) if (ents[it->second].ext == 0) { leave(it->second); it = at.erase(it); } else ++it; c->Prune();
    } else if (what == 19) {
      name = "NewId"; CHECK(ids.insert(c->NewId()).second, "ids never repeat");
      for (auto& x : hs) CHECK((intptr_t)c->Value(x.h) == x.e + 1, "a handle keeps its value");
    }
    audit(name); CHECK(c->TotalCharge() == total(), "TotalCharge is the sum of the charges of the entries in the cache");
  }
  while (!hs.empty()) { H x = hs.back(); hs.pop_back(); ents[x.e].ext--; put(ents[x.e].key, "Release"); c->Release(x.h); }
  audit("the last Release"); c.reset(); g_input += " destroy";
  for (auto& x : ents) x.in = false;
  audit("destroying the cache");
}
static void threads() {
  g_runs++; g_input = "threads sharing a cache";
  const int N = 4, OPS = 250; std::atomic<int> made{0}, gone{0}, wrong{0}; std::mutex mu; std::set<uint64_t> ids; std::atomic<int> dup{0};
  { auto c = NewLRUCache(rnd(4) ? 48 : 0); auto probe = c.get(); std::vector<std::thread> ts; uint64_t s = rnd();
    for (int t = 0; t < N; t++) ts.emplace_back([&, t] {
      uint64_t x = s + t * 77777777ull + 1; auto r = [&](uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 11) % n; };
      std::vector<uint64_t> mine; std::vector<Cache::Handle*> hs; uint64_t last = 0;
      for (int i = 0; i < OPS; i++) {
        std::string k = std::string("k") + (char)('a' + r(6)) + (char)('a' + r(4)); int* v; Cache::Handle* h = nullptr;
        switch (r(8)) {
          case 0: case 1: case 2: v = new int(k[1] * 256 + k[2]); made++; h = probe->Insert(k, v, 1 + r(3), [&](const Slice& key, void* p) { if (*(int*)p != key.data()[1] * 256 + key.data()[2]) wrong++; gone++; delete (int*)p; }); break;
          case 3: case 4: h = probe->Lookup(k); break;
          case 5: probe->Erase(k); break;
          case 6: { uint64_t id = probe->NewId(); if (id <= last) dup++; last = id; mine.push_back(id); } break;
          default: if (!r(10)) probe->Prune(); else (void)probe->TotalCharge(); }
        if (h) { if (*(int*)probe->Value(h) != k[1] * 256 + k[2]) wrong++; if (r(3)) probe->Release(h); else hs.push_back(h); }
        if (hs.size() > 5) { probe->Release(hs[0]); hs.erase(hs.begin()); }
      }
      for (auto h : hs) probe->Release(h);
      std::lock_guard<std::mutex> l(mu); for (auto id : mine) if (!ids.insert(id).second) dup++;
    });
    for (auto& t : ts) t.join();
  }
  CHECK(wrong == 0, "a handle carries a value of another key"); CHECK(dup == 0, "an id was handed out twice or out of order"); CHECK(made == gone, "every entry is deleted exactly once");
}
int main(int c, char** v) {
  init(c, v); find_twins();
  std::vector<std::string> ks; for (int i = 0; i < 24; i++) ks.push_back(randbytes(4));
  bool order = placed(ks);
  do { for (int i = 0; i < 6; i++) history(order); threads(); } while (more());
  done();
}
