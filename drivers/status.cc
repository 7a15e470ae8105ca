#include "drv.h"
#include "lsmdb/status.h"
#include <utility>
using namespace lsmdb; using namespace drv;
struct Ref { int kind; std::string msg; };   // kind 0 ok
static const char* txt[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
static Status mk(int k, const Slice& a, const Slice& b) {
  switch (k) { case 1: return Status::NotFound(a, b); case 2: return Status::Corruption(a, b); case 3: return Status::NotSupported(a, b); case 4: return Status::InvalidArgument(a, b); case 5: return Status::IOError(a, b); }
  return Status::OK();
}
static void check(const Status& s, const Ref& r, const char* what) {
  CHECK(s.ok() == (r.kind == 0), what); CHECK(s.IsNotFound() == (r.kind == 1), what); CHECK(s.IsCorruption() == (r.kind == 2), what);
  CHECK(s.IsNotSupportedError() == (r.kind == 3), what); CHECK(s.IsInvalidArgument() == (r.kind == 4), what); CHECK(s.IsIOError() == (r.kind == 5), what);
  CHECK(s.ToString() == (r.kind ? txt[r.kind] + r.msg : std::string("OK")), what);
}
int main(int c, char** v) {
  init(c, v);
  std::vector<size_t> lens{0, 1, 2, 3, 7, 100, 255, 256, 257, 300, 65535, 65536, 70000};
  do {
    for (int k = 0; k <= 5; k++) for (size_t a : lens) for (size_t b : lens) {
      if (a > 1000 && b > 1000 && rnd(3)) continue;
      g_runs++; std::string m1 = randbytes(a), m2 = randbytes(b);
      char t[80]; snprintf(t, 80, "kind %d message lengths %zu %zu", k, a, b); g_input = t;
      Exact x(m1), y(m2); Ref r{k, b ? m1 + ": " + m2 : m1}, ok{0, ""};
      Status s = mk(k, Slice(x.p, x.n), Slice(y.p, y.n)); check(s, r, "created");
      Status cp(s); check(cp, r, "copy"); check(s, r, "copied from");
      int k2 = rnd(6); Ref r2{k2, "other"}; Status o = mk(k2, "other", Slice());
      check(o, r2, "other"); o = s; check(o, r, "assigned"); check(s, r, "assigned from");
      Status* self = &o; o = *self; check(o, r, "self-assigned");
      { Status tmp(s); s = tmp; check(s, r, "reassigned"); }
      check(s, r, "after source destroyed");
      Status mv(std::move(cp)); check(mv, r, "move constructed"); cp.ok(); cp.ToString(); 
      Status mv2 = mk(k2, "other", Slice()); mv2 = std::move(mv); check(mv2, r, "move assigned"); mv.ToString();
      mv = s; check(mv, r, "assign into moved-from");
      Status* p = &mv2; mv2 = std::move(*p); mv2.ToString();
      s = Status::OK(); check(s, ok, "reset"); check(mv2, r, "independent"); check(o, r, "independent");
    }
  } while (more());
  done(); return 0;
}
