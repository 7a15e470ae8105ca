#include <cstdarg>
#include <atomic>
#include <map>
#include <thread>
#include <set>
#include <memory>
#include "drv.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
using namespace lsmdb; using namespace drv;
// Model of the in-memory file system: names -> content objects, with any number of open handles.
struct Obj { std::string data; };
typedef std::shared_ptr<Obj> OP;
struct W { WritableFile* f; OP o; }; struct R { RandomAccessFile* f; OP o; }; struct S { SequentialFile* f; OP o; uint64_t pos; };
static std::string pat(size_t n) { std::string s(n, 0); uint64_t x = rnd(); for (size_t i = 0; i < n; i++) { s[i] = (char)(x >> (8 * (i & 7))); if ((i & 7) == 7) x = x * 6364136223846793005ull + 1442695040888963407ull; } return s; }
static size_t size() { switch (rnd(9)) { case 0: return 0; case 1: return 1 + rnd(4); case 2: return 8190 + rnd(5); case 3: return 8192; case 4: return 16383 + rnd(3); case 5: return rnd(30000); case 6: return rnd(100000); default: return rnd(300); } }
static void note(const char* f, ...) { char b[160]; va_list a; va_start(a, f); vsnprintf(b, 160, f, a); va_end(a); g_input += b; if (g_input.size() > 6000) g_input.erase(0, 2000); }
// several threads on one environment: races are ThreadSanitizer's and AddressSanitizer's, sums and content are checked here
static void together() {
  Env* env = NewMemEnv(Env::Default()); int T = 2 + (int)rnd(3), n = 5 + (int)rnd(40); g_input = std::to_string(T) + " threads, " + std::to_string(n) + " operations each, on one environment";
  std::vector<uint64_t> seed; for (int t = 0; t < T; t++) seed.push_back(rnd());
  std::vector<std::thread> ts; std::atomic<uint64_t> bytes(0);
  WritableFile* keep; CHECK(env->NewWritableFile("/d/keep", &keep).ok(), "opens");
  for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
    uint64_t x = seed[t] | 1; auto r = [&x](uint64_t m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 20) % m; };
    const char* nm[3] = {"/d/a", "/d/b", "/d/c"};
    for (int i = 0; i < n; i++) { std::string a = nm[r(3)], b = nm[r(3)]; WritableFile* w = nullptr; RandomAccessFile* f = nullptr; SequentialFile* q = nullptr; uint64_t z; std::vector<std::string> ch; char buf[64]; Slice g;
      switch (r(10)) {
        case 0: if (env->NewWritableFile(a, &w).ok()) { w->Append(Slice("0123456789")); delete w; } break;
        case 1: if (env->NewAppendableFile(a, &w).ok()) { w->Append(Slice("abc")); delete w; } break;
        case 2: if (env->NewRandomAccessFile(a, &f).ok()) { f->Read(0, 60, &g, buf); delete f; } break;
        case 3: if (env->NewSequentialFile(a, &q).ok()) { q->Skip(1); q->Read(20, &g, buf); delete q; } break;
        case 4: env->RemoveFile(a); break;
        case 5: env->RenameFile(a, b); break;
        case 6: env->GetChildren("/d", &ch); break;
        case 7: env->GetFileSize(a, &z); env->FileExists(b); break;
        default: { std::string d(1 + r(5000), (char)('A' + t)); keep->Append(Slice(d)); bytes += d.size(); }
      } } });
  for (auto& t : ts) t.join();
  uint64_t z = 0; CHECK(env->GetFileSize("/d/keep", &z).ok() && z == bytes, "every append is in the file");
  delete keep; delete env;
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
int main(int c, char** v) {
  init(c, v);
#ifdef TSAN
  if (g_secs > 6) g_secs = 6;
  do { g_runs++; together(); } while (more());
  done(); return 0;
#endif
  do {
    g_runs++; g_input.clear();
    if (g_runs % 64 == 0) { together(); g_input.clear(); }
    Env* env = NewMemEnv(Env::Default());
    std::map<std::string, OP> ns; std::vector<W> ws; std::vector<R> rs; std::vector<S> ss;
    std::vector<std::string> names = {"/d/a", "/d/b", "/d/sub/c", "/d", "/db/a", "x", "/d/", "", "/d/a/b"};
    int ops = 5 + (int)rnd(60); bool content = rnd(2);
    for (int i = 0; i < ops; i++) {
      const std::string& n = names[rnd(rnd(3) ? 4 : names.size())]; const std::string& n2 = names[rnd(rnd(3) ? 4 : names.size())]; Status s;
      auto it = ns.find(n);
      switch (content ? rnd(22) : rnd(16)) {
        case 0: { note("NewWritable(%s); ", n.c_str()); WritableFile* f = nullptr; s = env->NewWritableFile(n, &f); CHECK(s.ok() && f, "opening for write succeeds");
          if (it == ns.end()) ns[n] = std::make_shared<Obj>(); else it->second->data.clear(); ws.push_back({f, ns[n]}); break; }
        case 1: { note("NewAppendable(%s); ", n.c_str()); WritableFile* f = nullptr; s = env->NewAppendableFile(n, &f); CHECK(s.ok() && f, "opening for append succeeds");
          if (it == ns.end()) ns[n] = std::make_shared<Obj>(); ws.push_back({f, ns[n]}); break; }
        case 2: { note("NewSequential(%s); ", n.c_str()); SequentialFile* f = (SequentialFile*)1; s = env->NewSequentialFile(n, &f); CHECK(s.ok() == (it != ns.end()), "opens exactly existing files");
          if (s.ok()) ss.push_back({f, it->second, 0}); else CHECK(!f, "no file on failure"); break; }
        case 3: { note("NewRandom(%s); ", n.c_str()); RandomAccessFile* f = (RandomAccessFile*)1; s = env->NewRandomAccessFile(n, &f); CHECK(s.ok() == (it != ns.end()), "opens exactly existing files");
          if (s.ok()) rs.push_back({f, it->second}); else CHECK(!f, "no file on failure"); break; }
        case 4: { note("Remove(%s); ", n.c_str()); s = env->RemoveFile(n); CHECK(s.ok() == (it != ns.end()), "removes exactly existing files"); if (s.ok()) ns.erase(n); break; }
        case 5: case 6: { note("Rename(%s,%s); ", n.c_str(), n2.c_str()); s = env->RenameFile(n, n2); CHECK(s.ok() == (it != ns.end()), "renames exactly existing files");
          if (s.ok() && n != n2) { OP o = it->second; ns.erase(n); ns[n2] = o; } break; }
        case 7: CHECK(env->FileExists(n) == (it != ns.end()), "exists exactly when created"); break;
        case 8: { uint64_t z = 12345; s = env->GetFileSize(n, &z); CHECK(s.ok() == (it != ns.end()), "size of existing files"); if (s.ok()) CHECK(z == it->second->data.size(), "the size"); break; }
        case 9: { std::string d = names[rnd(names.size())]; std::vector<std::string> ch = {"junk"}; s = env->GetChildren(d, &ch); CHECK(s.ok(), "lists"); note("GetChildren(%s); ", d.c_str());
          std::multiset<std::string> want, got(ch.begin(), ch.end()); for (auto& k : ns) if (k.first.size() > d.size() && k.first.compare(0, d.size() + 1, d + "/") == 0) want.insert(k.first.substr(d.size() + 1));
          CHECK(got == want, "exactly the names under the directory, relative to it"); break; }
        case 10: if (!ws.empty()) { size_t k = rnd(ws.size()); note("close w; "); delete ws[k].f; ws.erase(ws.begin() + k); } break;
        case 11: if (!rs.empty()) { size_t k = rnd(rs.size()); note("close r; "); delete rs[k].f; rs.erase(rs.begin() + k); } break;
        case 12: if (!ss.empty()) { size_t k = rnd(ss.size()); note("close s; "); delete ss[k].f; ss.erase(ss.begin() + k); } break;
        case 13: case 16: case 17: if (!ws.empty()) { W& w = ws[rnd(ws.size())]; std::string d = pat(size()); note("append %zu; ", d.size()); Exact e(d); s = w.f->Append(Slice(e.p, e.n)); CHECK(s.ok(), "append succeeds"); w.o->data += d;
            if (!rnd(3)) CHECK(w.f->Flush().ok() && w.f->Sync().ok(), "flush and sync succeed"); if (!rnd(9)) CHECK(w.f->Close().ok(), "close succeeds"); } break;
        case 14: case 18: case 19: if (!rs.empty()) { R& r = rs[rnd(rs.size())]; uint64_t L = r.o->data.size(); uint64_t o; switch (rnd(5)) { case 0: o = L; break; case 1: o = L + 1 + rnd(5); break; case 2: o = rnd(L + 1) / 8192 * 8192; break; case 3: o = ~0ull - rnd(3); break; default: o = rnd(L + 1); }
            size_t k = size(); std::string buf(k, 0x5a); Exact e(buf); Slice got("x", 1); note("read at %llu %zu of %llu; ", (unsigned long long)o, k, (unsigned long long)L); s = r.f->Read(o, k, &got, e.p);
            CHECK(s.ok() == (o <= L), "fails exactly when the offset is beyond the size"); if (s.ok()) { std::string w = r.o->data.substr(o, k); CHECK(got.size() == w.size(), "min(n, size-offset) bytes"); CHECK(std::string(got.data(), got.size()) == w, "exactly the bytes stored there"); } } break;
        default: if (!ss.empty()) { S& q = ss[rnd(ss.size())]; uint64_t L = q.o->data.size(); size_t k = rnd(4) ? size() : (size_t)-1;
            if (rnd(3) && k != (size_t)-1) { std::string buf(k, 0x5a); Exact e(buf); Slice got; note("seq read %zu at %llu; ", k, (unsigned long long)q.pos); s = q.f->Read(k, &got, e.p); CHECK(s.ok() == (q.pos <= L), "sequential read");
              if (s.ok()) { std::string w = q.o->data.substr(q.pos, k); CHECK(std::string(got.data(), got.size()) == w, "successive bytes"); q.pos += w.size(); } }
            else { uint64_t m = k; note("skip %llu at %llu; ", (unsigned long long)m, (unsigned long long)q.pos); s = q.f->Skip(m); CHECK(s.ok() == (q.pos <= L), "skip"); if (s.ok()) q.pos += m <= L - q.pos ? m : L - q.pos; } } break;
      }
    }
    // every file by name and by handle, before and after the names go away
    for (auto& k : ns) { RandomAccessFile* f; CHECK(env->NewRandomAccessFile(k.first, &f).ok(), "still there"); std::string b(k.second->data.size() + 7, 1); Slice g; Exact e(b); CHECK(f->Read(0, e.n, &g, e.p).ok(), "whole file"); CHECK(std::string(g.data(), g.size()) == k.second->data, "whole content"); delete f; }
    if (rnd(2)) { for (auto& k : ns) CHECK(env->RemoveFile(k.first).ok(), "removable"); ns.clear(); }
    bool early = rnd(2); if (early) delete env;
    for (auto& r : rs) { std::string b(r.o->data.size() + 3, 1); Slice g; Exact e(b); CHECK(r.f->Read(0, e.n, &g, e.p).ok(), "an open file stays usable"); CHECK(std::string(g.data(), g.size()) == r.o->data, "its content stays"); delete r.f; }
    for (auto& w : ws) delete w.f; for (auto& q : ss) delete q.f;
    if (!early) delete env;
  } while (more());
  done();   // leaks and double frees are the sanitizer's
}
