// Odr-uses the repository's inline functions so that their real bodies are
// emitted; nothing in this file is itself verified.
#include <cstdint>
#include <utility>
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/random.h"
using namespace lsmdb;
int verif_use(Slice a, Slice& b, const Slice& c, std::string& s, const char* z, size_t n) {
  Slice e; Slice f(z, n); Slice g(s); Slice h(z);
  int r = (a == b) + (a != c) + a.compare(b) + a.starts_with(c) + a.empty() + a[n];
  a.remove_prefix(n); b.clear(); s = a.ToString(); r += *a.data() + a.size();
  return r + e.size() + f.size() + g.size() + h.size();
}
void verif_use2(Status& a, Status& b, const Slice& m, const Slice& m2, bool* r) {
  Status c; Status d(a); Status e(std::move(b)); c = a; c = std::move(d);
  a = Status::OK(); a = Status::NotFound(m, m2); a = Status::Corruption(m, m2);
  a = Status::NotSupported(m, m2); a = Status::InvalidArgument(m, m2); a = Status::IOError(m, m2);
  *r = a.ok() | a.IsNotFound() | a.IsCorruption() | a.IsIOError() | a.IsNotSupportedError() | a.IsInvalidArgument();
}
uint32_t verif_use3(uint32_t s, int n) {
  Random r(s); return r.Next() + r.Uniform(n) + r.OneIn(n) + r.Skewed(n);
}
uint64_t verif_use4(char* d, uint32_t v, uint64_t w, const char* l, uint32_t* o) {
  EncodeFixed32(d, v); EncodeFixed64(d, w); GetVarint32Ptr(d, l, o);
  return DecodeFixed32(d) + DecodeFixed64(d);
}
size_t verif_use5(Arena* a, size_t n) { return a->Allocate(n) - (char*)0 + a->MemoryUsage(); }
