#include "drv.h"
#include "lsmdb/env.h"
#include <map>
namespace lsmdb { Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname); }
using namespace lsmdb; using namespace drv;
static std::vector<std::string> g_log; static int g_failat; static int g_step; static int g_live, g_deleted; static bool g_rmfail;
static std::string g_content, g_fragsrc; static std::vector<std::string> g_frags; static size_t g_fi; static bool g_scratch;
static Status step(const char* op) { g_log.push_back(op); g_step++; if (g_step == g_failat) { char b[40]; snprintf(b, 40, "fail %d", g_step); return (g_step & 1) ? Status::IOError(b) : Status::Corruption(b, op); } return Status::OK(); }
struct W : public WritableFile {
  bool closed = false; std::string buf;
  W() { g_live++; } ~W() override { g_live--; g_deleted++; }
  Status Append(const Slice& d) override { Status s = step("append"); if (s.ok()) buf.append(d.data(), d.size()); return s; }
  Status Close() override { Status s = step("close"); closed = true; if (s.ok()) g_content = buf; return s; }
  Status Flush() override { return step("flush"); }
  Status Sync() override { return step("sync"); }
};
struct R : public SequentialFile {
  R() { g_live++; } ~R() override { g_live--; g_deleted++; }
  Status Read(size_t n, Slice* r, char* scratch) override {
    CHECK(n > 0, "asks for at least one byte"); 
    memset(scratch, 0x5a, n);  // the whole requested room belongs to us
    Status s = step("read"); if (!s.ok()) { if (rnd(2)) *r = Slice(scratch, rnd(n)); return s; }
    std::string f = g_fi < g_frags.size() ? g_frags[g_fi] : std::string(); g_fi++;
    CHECK(g_fi <= g_frags.size() + 1, "no read after the empty fragment");
    if (f.size() > n) { std::string rest = f.substr(n); f.resize(n); g_frags.insert(g_frags.begin() + g_fi, rest); }
    if (g_scratch) { memcpy(scratch, f.data(), f.size()); *r = Slice(scratch, f.size()); } else { g_fragsrc = f; *r = Slice(g_fragsrc.data(), f.size()); }
    return s;
  }
  Status Skip(uint64_t) override { return step("skip"); }
};
struct E : public EnvWapper {
  E() : EnvWapper(nullptr) {}
  std::string name;
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { name = f; *r = nullptr; Status s = step("newseq"); if (s.ok()) *r = new R; return s; }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { name = f; *r = nullptr; Status s = step("neww"); if (s.ok()) *r = new W; return s; }
  Status RemoveFile(const std::string& f) override { CHECK(f == name, "removes the file it created"); Status s = step("remove"); return g_rmfail ? Status::InvalidArgument("remove failed") : s; }
};
int main(int c, char** v) {
  init(c, v); E env;
  do {
    for (int sync = 0; sync < 2; sync++) for (int fa = 0; fa <= 6; fa++) {
      g_runs++; std::string d = randbytes(rnd(3) ? rnd(40) : rnd(20000)), fn = "f" + randbytes(rnd(8));
      char t[60]; snprintf(t, 60, "write sync=%d failing step %d size %zu", sync, fa, d.size()); g_input = t;
      g_rmfail = rnd(2); g_log.clear(); g_step = 0; g_failat = fa; g_live = g_deleted = 0; g_content = "<none>";
      Exact x(d); Status s = sync ? WriteStringToFileSync(&env, Slice(x.p, x.n), fn) : WriteStringToFile(&env, Slice(x.p, x.n), fn);
      std::vector<std::string> want{"neww", "append"}; if (sync) want.push_back("sync"); want.push_back("close");
      bool fails = fa >= 1 && fa <= (int)want.size();
      if (fails) { want.resize(fa); if (fa > 1) want.push_back("remove"); }
      CHECK(g_log == want, "operations and their order"); CHECK(s.ok() == !fails, "success exactly when every step succeeded");
      if (fails) { char b[40]; snprintf(b, 40, "fail %d", fa); CHECK(s.ToString().find(b) != std::string::npos, "the first error is returned"); }
      else CHECK(g_content == d, "complete contents");
      CHECK(g_live == 0 && g_deleted == (fa == 1 ? 0 : 1), "file object destroyed exactly once");
    }
    for (int k = 0; k < 4; k++) {
      g_runs++; g_frags.clear(); std::string all; int n = rnd(6);
      for (int i = 0; i < n; i++) { size_t len = rnd(2) ? 1 + rnd(50) : 1 + rnd(9000); std::string f = randbytes(len); if (!rnd(3)) f[0] = 0; g_frags.push_back(f); all += f; }
      int fa = rnd(3) ? 0 : 1 + rnd(n + 2); g_scratch = rnd(2); g_fi = 0;
      char t[60]; snprintf(t, 60, "read %d fragments %zu bytes failing step %d", n, all.size(), fa); g_input = t;
      g_log.clear(); g_step = 0; g_failat = fa; g_live = g_deleted = 0;
      std::string out = randbytes(rnd(10)); Status s = ReadFileToString(&env, "name", &out);
      bool failed = fa >= 1 && fa <= g_step; 
      CHECK(s.ok() == !failed, "success exactly without an error");
      if (failed) { char b[40]; snprintf(b, 40, "fail %d", fa); CHECK(s.ToString().find(b) != std::string::npos, "the first error"); CHECK(g_step == fa, "stops at the first error"); }
      else CHECK(out == all, "exactly the contents");
      CHECK(g_live == 0 && g_deleted == (fa == 1 ? 0 : 1), "file object destroyed exactly once");
    }
  } while (more());
  done(); return 0;
}
