#include "kernel.h"
#include <sys/wait.h>
#include <thread>
#include "util/env_posix.cc"
namespace lsmdb { class EnvPosixTest { public: static void Limits(int f, int m) { EnvPosixTestHelper::SetReadOnlyFDLimit(f); EnvPosixTestHelper::SetReadOnlyMMapLimit(m); } }; }
using namespace lsmdb; using namespace drv; using namespace kern;
static Env* E() { return Env::Default(); }
static void reset() { g_ev.clear(); g_fault = g_intr = 0; g_short = false; g_hook = nullptr; }
static std::string trace() { std::string r; for (size_t i = g_ev.size() > 25 ? g_ev.size() - 25 : 0; i < g_ev.size(); i++) { auto& e = g_ev[i]; char b[120]; snprintf(b, 120, " %c(fd%d,%zu)%s%d", e.op, e.fd, e.n, e.ok ? "=ok" : "=err", e.err); r += b; } return r; }
// limits are fixed when the environment is created, so every configuration runs in a process of its own
template <class F> static void config(int fdlim, int mmlim, F f) {
  fflush(stdout); pid_t p = fork();
  if (!p) { EnvPosixTest::Limits(fdlim, mmlim); f(); fflush(stdout); _exit(0); }
  int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { printf("FAIL killed by signal %d\ninput: %s\n", WTERMSIG(st), g_input.c_str()); } 
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { fflush(stdout); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 1); }
  g_runs += 100; for (int i = 0; i < 3; i++) rnd();
}

// ---- C18, C19
static void writable(int prop) {
  static const char* names[] = {"d/000001.log", "MANIFEST-1", "d/MANIFEST-000002", "a.b/MANIFEST", "d/xMANIFEST", "MANIFESTS/f", "d/MANIFES", "f", "d/manifest-1", "x/y/z/MANIFEST-9", "MANIFEST/MANIFESTO", "d/M", "d/"};
  g_runs++; reset();
  std::string name = names[rnd(13)]; size_t sl = name.rfind('/');
  std::string dir = sl == std::string::npos ? "." : name.substr(0, sl), base = sl == std::string::npos ? name : name.substr(sl + 1);
  bool manifest = base.compare(0, 8, "MANIFEST") == 0;
  g_dirs.clear(); g_dirs.insert(dir); g_files.clear(); g_fds.clear();
  WritableFile* f = nullptr; bool app = rnd(2);
  std::string all; if (app && rnd(2)) { g_files[name] = std::make_shared<File>(); g_files[name]->data = all = "old contents"; }
  Status s = app ? E()->NewAppendableFile(name, &f) : E()->NewWritableFile(name, &f);
  if (!app) all.clear();
  CHECK(s.ok() && f && g_fds.size() == 1, "file opens"); int fd = g_fds.begin()->first; auto file = g_files[name];
  g_short = rnd(2); g_intr = rnd(2) ? 30 : 0; g_fault = rnd(3) ? 0 : 10 + rnd(30);
  bool bad = false, closed = false; std::string ops;
  int n = 1 + rnd(14);
  for (int i = 0; i < n && !bad && !closed; i++) {
    g_ev.clear(); int op = rnd(10); Status r; std::string d; size_t had = file->data.size();
    if (op < 6) {
      size_t len; switch (rnd(7)) { case 0: len = 0; break; case 1: len = 1 + rnd(10); break; case 2: len = 65536 - rnd(3); break; case 3: len = 65536 + rnd(4); break; case 4: len = 131072 + rnd(3) - 1; break; case 5: len = (65536 - (all.size() - had) % 65536) + rnd(3) - 1; if (len > 200000) len = 5; break; default: len = rnd(200000); }
      d = randbytes(len); Exact x(d); ops += " append " + std::to_string(len); g_input = name + ":" + ops; r = f->Append(Slice(x.p, x.n)); all += d;
    } else if (op == 6) { ops += " flush"; g_input = name + ":" + ops; r = f->Flush(); }
    else if (op < 9) { ops += " sync"; g_input = name + ":" + ops; r = f->Sync(); }
    else { ops += " close"; g_input = name + ":" + ops; r = f->Close(); closed = true; }
    g_input += " |" + trace();
    bool failed = false; bool datasync = false, dirsync = false; int dfd = -1; bool wrote_before_dir = false;
    for (auto& e : g_ev) {
      if (!e.ok && e.err != EINTR && !(e.op == 'c' && e.fd != fd)) failed = true;
      if (e.op == 'w') { CHECK(e.fd == fd, "data goes to the file's descriptor"); if (e.ok) { datasync = false; if (!dirsync) wrote_before_dir = true; } }
      if (e.op == 'o' && e.ok && e.path == dir) dfd = e.fd;
      if (e.op == 's' && e.ok) { if (e.fd == fd) datasync = true; else if (e.fd == dfd) dirsync = true; }
      if (e.op == 'c' && e.fd == dfd) dfd = -1;
    }
    CHECK(dfd == -1, "the directory's descriptor is closed");
    CHECK(!failed || !r.ok(), "a failure is reported"); if (g_fault == 0) CHECK(r.ok(), "no failure, so success");
    if (!r.ok()) { bad = true; }
    else {
      CHECK(file->data.size() <= all.size() && all.compare(0, file->data.size(), file->data) == 0, "the system has a prefix of what was appended");
      if (op >= 6) CHECK(file->data == all, "nothing remains buffered");
      if (op == 7 || op == 8) {
        CHECK(datasync, "the data was synced after the last write");
        if (manifest) CHECK(dirsync && !wrote_before_dir, "the directory was synced before the data was written");
      }
    }
    CHECK(g_fds.count(fd) == (closed ? 0 : 1), "the descriptor is closed exactly by Close");
  }
  g_ev.clear(); g_input = name + ":" + ops + " delete"; if (rnd(2)) g_fault = 0; int fl = g_fault; delete f; g_input += " |" + trace();
  if (!bad && !fl) CHECK(file->data == all, "the destructor hands over what was buffered");
  CHECK(g_fds.empty(), "every descriptor closed"); reset();
}

// ---- C20, C22
struct Obj { int kind; SequentialFile* s; RandomAccessFile* r; WritableFile* w; Logger* l; FileLock* k; std::string name; size_t pos; bool mapped, perm; };
static int g_fdlim, g_mmlim; static std::vector<Obj> g_objs; static int g_perm, g_mapped;
static size_t expect_fds() { size_t n = 0; for (auto& o : g_objs) n += o.kind == 0 || (o.kind == 1 && o.perm) || o.kind == 2 || o.kind == 3 || o.kind == 4; return n; }
static size_t expect_maps() { size_t n = 0; for (auto& o : g_objs) n += o.kind == 1 && o.mapped; return n; }
static void balance(const char* w) { CHECK(g_fds.size() == expect_fds(), std::string("each descriptor is owned by one object: ") + w); CHECK(g_maps.size() == expect_maps(), std::string("each mapping is owned by one object: ") + w);
  CHECK((int)g_maps.size() <= std::max(g_mmlim, 0), "mapping limit"); int p = 0; for (auto& o : g_objs) p += o.kind == 1 && o.perm; CHECK(p <= std::max(g_fdlim, 0), "descriptor limit"); }
static void destroy(size_t i) { Obj o = g_objs[i]; g_objs.erase(g_objs.begin() + i); int fl = g_fault; g_fault = rnd(2) ? fl : 0; if (o.kind == 0) delete o.s; if (o.kind == 1) { if (o.perm) g_perm--; if (o.mapped) g_mapped--; delete o.r; } if (o.kind == 2) delete o.w; if (o.kind == 3) delete o.l; if (o.kind == 4) { g_fault = 0; CHECK(E()->UnlockFile(o.k).ok(), "unlock"); } g_fault = fl; balance("destroyed"); }
static void readsome(Obj& o) {
  const std::string& d = g_files.count(o.name) ? g_files[o.name]->data : std::string(); g_ev.clear();
  size_t n; switch (rnd(6)) { case 0: n = 0; break; case 1: n = d.size(); break; case 2: n = d.size() + 1 + rnd(10); break; default: n = rnd(d.size() + 2); }
  char t[160];
  if (o.kind == 0) {
    if (rnd(4) == 0) { uint64_t k = rnd(3) ? rnd(20) : rnd(2 * d.size() + 2); Status s = o.s->Skip(k); snprintf(t, 160, "skip %zu at %zu", (size_t)k, o.pos); g_input = t + trace(); bool ok = true; for (auto& e : g_ev) ok = ok && e.ok; CHECK(s.ok() == ok, "skip reports failures"); if (ok) o.pos += k; return; }
    Slice r("none", 4); char* b = new char[n]; Status s = o.s->Read(n, &r, b); snprintf(t, 160, "sequential read of %zu at %zu of %zu", n, o.pos, d.size()); g_input = t + trace();
    bool err = false; size_t got = 0; int okreads = 0; for (auto& e : g_ev) { if (e.op != 'r') continue; if (e.ok) { got = e.n; okreads++; } else if (e.err != EINTR) err = true; }
    CHECK(s.ok() == !err, "an error exactly when the system reported one"); if (!err) { CHECK(okreads == 1 && r.size() == got && got <= n, "as many bytes as delivered"); CHECK(r.ToString() == (o.pos < d.size() ? d.substr(o.pos, got) : std::string()), "the delivered bytes"); o.pos += got; }
    delete[] b; return;
  }
  uint64_t off; switch (rnd(8)) { case 0: off = d.size(); break; case 1: off = d.size() + 1; break; case 2: off = ~0ull - rnd(n + 2); break; case 3: off = 0ull - n; break; case 4: off = (1ull << 63) + rnd(5); break; default: off = rnd(d.size() + 1); }
  if (o.mapped && rnd(3) == 0) { n = rnd(2) ? ~(size_t)0 - rnd(d.size() + 2) : (size_t)0 - off + rnd(3); }
  Slice r("none", 4); size_t cap = n > 100000 ? 1 : n; char* b = new char[cap]; size_t fds = g_fds.size(); Status s = o.r->Read(off, n, &r, b); snprintf(t, 160, "%s read of %zu at %llu of %zu", o.mapped ? "mapped" : o.perm ? "positioned" : "reopening", n, (unsigned long long)off, d.size()); g_input = t + trace();
  CHECK(g_fds.size() == fds, "a read leaves no descriptor open");
  if (o.mapped) { bool in = off <= d.size() && n <= d.size() - off; CHECK(s.ok() == in, "success exactly inside the file"); if (in) { auto m = g_maps.begin(); bool inside = false; for (auto& x : g_maps) inside = inside || (r.data() >= x.first && r.data() + r.size() <= x.first + x.second); CHECK(inside || !n, "slice inside the mapping"); CHECK(r.ToString() == d.substr(off, n), "the file's bytes"); } }
  else { bool err = false; size_t got = 0; int k = 0; for (auto& e : g_ev) { if (!e.ok && e.op != 'c') err = true; if (e.op == 'r' && e.ok) { got = e.n; k++; } } CHECK(s.ok() == !err, "an error exactly when the system reported one"); if (!err) { CHECK(k == 1 && r.size() == got && got <= n, "as many bytes as delivered"); CHECK(r.ToString() == (off < d.size() ? d.substr(off, got) : std::string()), "the bytes at that position"); } }
  delete[] b;
}
static void create() {
  static const char* names[] = {"a", "b", "empty", "c", "missing"}; g_ev.clear(); Obj o{}; o.name = names[rnd(5)]; o.kind = rnd(9); if (o.kind > 4) o.kind = 1;
  if (o.kind == 4) { o.name = "LOCK" + std::to_string(rnd(3)); for (auto& x : g_objs) if (x.kind == 4 && x.name == o.name) return; g_files[o.name] = std::make_shared<File>(); g_files[o.name]->otherlock = rnd(3) == 0; }
  if (o.kind == 2 || o.kind == 3) o.name = "out" + std::to_string(rnd(3));
  bool was_map = g_mapped < g_mmlim; Status s; void* res = (void*)1;
  switch (o.kind) {
    case 0: { SequentialFile* p = (SequentialFile*)8; s = E()->NewSequentialFile(o.name, &p); o.s = p; res = p; break; }
    case 1: { RandomAccessFile* p = (RandomAccessFile*)8; s = E()->NewRandomAccessFile(o.name, &p); o.r = p; res = p; break; }
    case 2: { WritableFile* p = (WritableFile*)8; s = rnd(2) ? E()->NewWritableFile(o.name, &p) : E()->NewAppendableFile(o.name, &p); o.w = p; res = p; break; }
    case 3: { Logger* p = (Logger*)8; s = E()->NewLogger(o.name, &p); o.l = p; res = p; break; }
    case 4: { FileLock* p = (FileLock*)8; s = E()->LockFile(o.name, &p); o.k = p; res = p; break; }
  }
  char t[100]; snprintf(t, 100, "limits fd %d mmap %d: open kind %d %s", g_fdlim, g_mmlim, o.kind, o.name.c_str()); g_input = t + trace();
  CHECK(s.ok() == (res != nullptr), "an object exactly on success");
  if (s.ok()) {
    if (o.kind == 1) { o.mapped = was_map; if (o.mapped) g_mapped++; else if (g_perm < g_fdlim) { o.perm = true; g_perm++; } }
    g_objs.push_back(o);
  } else { bool err = false; for (auto& e : g_ev) err = err || !e.ok; if (g_fault == 0) CHECK(err, "failure without a reason"); }
  balance("created");
}
static void files(int fdlim, int mmlim) {
  g_fdlim = fdlim; g_mmlim = mmlim; reset(); g_files.clear(); g_fds.clear();
  for (const char* n : {"a", "b", "c"}) { g_files[n] = std::make_shared<File>(); g_files[n]->data = randbytes(1 + rnd(200)); } g_files["empty"] = std::make_shared<File>();
  for (int it = 0; it < 500; it++) {
    g_runs++; g_fault = rnd(3) ? 0 : rnd(40); g_intr = rnd(2) ? 30 : 0; g_short = rnd(2);
    int op = rnd(8);
    if (op < 3) create(); else if (op < 5 && !g_objs.empty()) { destroy(rnd(g_objs.size())); }
    else if (!g_objs.empty()) { Obj& o = g_objs[rnd(g_objs.size())]; if (o.kind <= 1) { readsome(o); balance("read"); } }
    if (g_objs.size() > 14) destroy(0);
  }
  g_fault = 0; while (!g_objs.empty()) destroy(0); CHECK(g_fds.empty() && g_maps.empty(), "everything released");
}
static void hammer(int fdlim, int mmlim) {   // many threads: limits hold at every moment
  reset(); g_log = false; g_files.clear(); g_files["a"] = std::make_shared<File>(); g_files["a"]->data = "some bytes";
  std::vector<std::thread> th; Env* env = E(); 
  for (int k = 0; k < 8; k++) th.emplace_back([=] {
    uint64_t s = 77 * k + 1; std::vector<RandomAccessFile*> v;
    for (int i = 0; i < 3000; i++) {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      if (v.size() < 3 && (s >> 40) % 2) { RandomAccessFile* r = nullptr; env->NewRandomAccessFile("a", &r); if (r) v.push_back(r); }
      else if (!v.empty()) { delete v.back(); v.pop_back(); }
      g_mu.lock(); size_t m = g_maps.size(), f = g_fds.size(); g_mu.unlock();
      CHECK((int)m <= mmlim, "mapping limit under concurrency"); CHECK((int)f <= fdlim + 8, "descriptor limit under concurrency");
    }
    for (auto r : v) delete r; });
  for (auto& t : th) t.join();
  CHECK(g_fds.empty() && g_maps.empty(), "everything released");
  // the budgets are intact: exactly mmlim mappings and fdlim descriptors can be had again
  std::vector<RandomAccessFile*> v; for (int i = 0; i < fdlim + mmlim + 5; i++) { RandomAccessFile* r = nullptr; CHECK(env->NewRandomAccessFile("a", &r).ok(), "open"); v.push_back(r); }
  g_input = "after 8 threads opened and closed files"; CHECK((int)g_maps.size() == mmlim, "mapping budget neither leaks nor grows"); CHECK((int)g_fds.size() == fdlim, "descriptor budget neither leaks nor grows"); for (auto r : v) delete r;
}

// ---- C21
static std::map<std::string, FileLock*> g_held; static int g_depth; static std::string g_ops; static std::set<std::string> g_busy;
static void lockop() {
  static const char* names[] = {"LOCK", "db/LOCK", "x"}; std::string n = names[rnd(3)]; if (g_busy.count(n) && g_depth > 3) return;
  bool held = g_held.count(n); int op = rnd(3); auto& f = g_files[n]; if (!f) f = std::make_shared<File>();
  size_t d0 = g_ev.size(); (void)d0;
  if (op < 2) {
    bool busy = g_busy.count(n); if (rnd(8) == 0 && !f->mylocks) f->otherlock = !f->otherlock;
    g_ops += " lock(" + n + ")"; g_input = g_ops; FileLock* l = (FileLock*)8; bool ins = g_busy.insert(n).second; g_depth++; Status s = E()->LockFile(n, &l); g_depth--; if (ins) g_busy.erase(n);
    g_ops += s.ok() ? "=ok" : "=err"; g_input = g_ops + " |" + trace(); CHECK(s.ok() == (l != nullptr), "a lock exactly on success");
    if (s.ok()) { CHECK(!held && !g_held.count(n), "held by one holder only"); CHECK(!f->otherlock || f->mylocks, "not held by another process"); CHECK(f->mylocks, "other processes are excluded"); g_held[n] = l; }
    else if (!held && !busy && !f->otherlock && g_fault == 0 && !g_held.count(n) && !g_hook) CHECK(false, "a free file can be locked");
  } else if (held && !g_busy.count(n)) {
    FileLock* l = g_held[n]; int fl = g_fault; if (rnd(2)) g_fault = 0; g_held.erase(n); g_ops += " unlock(" + n + ")"; g_input = g_ops; g_busy.insert(n); g_depth++;
    Status s = E()->UnlockFile(l); g_depth--; g_busy.erase(n); g_ops += s.ok() ? "=ok" : "=err"; if (!s.ok()) { g_held[n] = l; } g_fault = fl; g_input = g_ops + " |" + trace();
  }
  for (auto& h : g_held) { if (g_busy.count(h.first)) continue; CHECK(g_files[h.first]->mylocks, "a held lock stays in force"); }
  if (!g_depth) { CHECK(g_fds.size() == g_held.size(), "one descriptor per held lock"); }
  if (g_ops.size() > 1500) g_ops.erase(0, 700);
}
static void locks() {
  reset(); g_files.clear(); g_fds.clear(); g_ops.clear();
  for (int it = 0; it < 400; it++) { g_runs++; g_fault = rnd(3) ? 0 : 20; bool nest = rnd(2); g_hook = nullptr; if (nest) g_hook = [](const char*) { if (g_depth && g_depth < 3 && rnd(3) == 0) { int fl = g_fault; lockop(); g_fault = fl; } }; if (g_ev.size() > 200) g_ev.clear(); lockop(); }
  g_hook = nullptr; g_fault = 0; g_ops += " (unlock all)";
  while (!g_held.empty()) { auto h = *g_held.begin(); g_held.erase(h.first); CHECK(E()->UnlockFile(h.second).ok(), "unlock"); }
  CHECK(g_fds.empty(), "no descriptor left");
  for (const char* n : {"LOCK", "db/LOCK", "x"}) { FileLock* l; if (g_files[n]) g_files[n]->otherlock = false; g_input = g_ops + " relock " + n; CHECK(E()->LockFile(n, &l).ok(), "an unlocked file can be locked again"); E()->UnlockFile(l); }
}
int main(int c, char** v) {
  init(c, v);
#if PROP == 18 || PROP == 19
  do { for (int i = 0; i < 50; i++) writable(PROP); } while (more());
#elif PROP == 20 || PROP == 22
  do { for (int fl : {0, 1, 2, 5}) for (int ml : {0, 1, 3}) config(fl, ml, [=] { for (int k = 0; k < 3; k++) files(fl, ml); });
#if PROP == 22
    config(3, 4, [] { hammer(3, 4); }); config(1, 1, [] { hammer(1, 1); }); config(0, 2, [] { hammer(0, 2); });
#endif
  } while (more());
#elif PROP == 21
  do { locks(); } while (more());
#endif
  done(); return 0;
}
