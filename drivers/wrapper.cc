#include "drv.h"
#include "lsmdb/env.h"
using namespace lsmdb; using namespace drv;
struct Call { std::string op; std::vector<std::string> s; std::vector<const void*> p; uint64_t n = 0; int tag = -1; };
static int g_tag;   // identity of the std::function passed
struct Rec : public Env {
  std::vector<Call> calls; Status next; bool b = false; uint64_t micros = 0; 
  Status R(const char* op, std::vector<std::string> s, std::vector<const void*> p) { Call c; c.op = op; c.s = s; c.p = p; calls.push_back(c); return next; }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { return R("seq", {f}, {r}); }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { return R("ra", {f}, {r}); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { return R("w", {f}, {r}); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { return R("app", {f}, {r}); }
  bool FileExists(const std::string& f) override { R("ex", {f}, {}); return b; }
  Status GetChildren(const std::string& d, std::vector<std::string>* r) override { return R("ch", {d}, {r}); }
  Status RemoveFile(const std::string& f) override { return R("rm", {f}, {}); }
  Status CreateDir(const std::string& f) override { return R("mkdir", {f}, {}); }
  Status RemoveDir(const std::string& f) override { return R("rmdir", {f}, {}); }
  Status GetFileSize(const std::string& f, uint64_t* s) override { return R("size", {f}, {s}); }
  Status RenameFile(const std::string& f, const std::string& t) override { return R("ren", {f, t}, {}); }
  Status LockFile(const std::string& f, FileLock** l) override { return R("lock", {f}, {l}); }
  Status UnlockFile(FileLock* l) override { return R("unlock", {}, {l}); }
  void Schedule(std::function<void(void*)> f, void* a) override { R("sched", {}, {a}); g_tag = -1; f(a); calls.back().tag = g_tag; }
  void StartThread(std::function<void(void*)> f, void* a) override { R("thr", {}, {a}); g_tag = -1; f(a); calls.back().tag = g_tag; }
  Status GetTestDirectory(std::string* p) override { return R("td", {}, {p}); }
  Status NewLogger(const std::string& f, Logger** r) override { return R("log", {f}, {r}); }
  uint64_t NowMicros() override { R("now", {}, {}); return micros; }
  void SleepForMicroseconds(int m) override { R("sleep", {}, {}); calls.back().n = (uint64_t)m; }
};
static Rec rec;
static std::string want;
static void expect(const char* op, std::vector<std::string> s, std::vector<const void*> p, const Status* st = nullptr) {
  g_input = std::string(op) + " " + (s.empty() ? "" : hex(s[0]));
  CHECK(rec.calls.size() == 1, "forwarded exactly once"); Call& c = rec.calls[0];
  CHECK(c.op == op, "forwarded to the same operation, got " + c.op); CHECK(c.s == s, "strings unchanged"); CHECK(c.p == p, "pointers unchanged");
  if (st) CHECK(st->ToString() == rec.next.ToString(), "status unchanged");
  rec.calls.clear();
}
static Status pick() { std::string m = randbytes(rnd(12)); switch (rnd(6)) { case 0: return Status::NotFound(m); case 1: return Status::Corruption(m, "x"); case 2: return Status::IOError(m, m); case 3: return Status::NotSupported(m); case 4: return Status::InvalidArgument(m); } return Status::OK(); }
int main(int c, char** v) {
  init(c, v);
  EnvWapper w(&rec); Env* e = &w; CHECK(w.target() == &rec, "target");
  do {
    g_runs++; std::string f = randbytes(rnd(40)), t = randbytes(rnd(40)); rec.next = pick(); Status s;
    void* a = (void*)(uintptr_t)rnd();
    SequentialFile* sf; RandomAccessFile* rf; WritableFile* wf; FileLock* fl = (FileLock*)a; Logger* lg; uint64_t sz; std::vector<std::string> ch; std::string td;
    if (!rnd(8)) f = ""; 
    s = e->NewSequentialFile(f, &sf); expect("seq", {f}, {&sf}, &s);
    s = e->NewRandomAccessFile(f, &rf); expect("ra", {f}, {&rf}, &s);
    s = e->NewWritableFile(f, &wf); expect("w", {f}, {&wf}, &s);
    s = e->NewAppendableFile(f, &wf); expect("app", {f}, {&wf}, &s);
    rec.b = rnd(2); bool b = e->FileExists(f); expect("ex", {f}, {}); CHECK(b == rec.b, "exists result");
    s = e->GetChildren(f, &ch); expect("ch", {f}, {&ch}, &s);
    s = e->RemoveFile(f); expect("rm", {f}, {}, &s);
    s = e->CreateDir(f); expect("mkdir", {f}, {}, &s);
    s = e->RemoveDir(f); expect("rmdir", {f}, {}, &s);
    sz = 77; s = e->GetFileSize(f, &sz); expect("size", {f}, {&sz}, &s); CHECK(sz == 77, "size untouched");
    s = e->RenameFile(f, t); expect("ren", {f, t}, {}, &s);
    s = e->LockFile(f, &fl); expect("lock", {f}, {&fl}, &s);
    s = e->UnlockFile(fl); expect("unlock", {}, {fl}, &s);
    int tag = (int)rnd(1000000); auto fn = [tag](void*) { g_tag = tag; };
    e->Schedule(fn, a); CHECK(rec.calls.size() == 1 && rec.calls[0].tag == tag, "Schedule function"); expect("sched", {}, {a});
    e->StartThread(fn, a); CHECK(rec.calls.size() == 1 && rec.calls[0].tag == tag, "StartThread function"); expect("thr", {}, {a});
    s = e->GetTestDirectory(&td); expect("td", {}, {&td}, &s);
    s = e->NewLogger(f, &lg); expect("log", {f}, {&lg}, &s);
    rec.micros = rnd(); uint64_t m = e->NowMicros(); CHECK(m == rec.micros, "NowMicros result"); expect("now", {}, {});
    int sl = (int)rnd(); e->SleepForMicroseconds(sl); CHECK(rec.calls.size() == 1 && rec.calls[0].n == (uint64_t)sl, "sleep argument"); expect("sleep", {}, {});
  } while (more());
  done(); return 0;
}
