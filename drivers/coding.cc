#include "drv.h"
#include "util/coding.h"
namespace lsmdb { const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result); }
using namespace lsmdb;
using namespace drv;

static std::string venc(uint64_t v) { std::string s; while (v > 127) { s += (char)(v % 128 + 128); v /= 128; } s += (char)v; return s; }
static std::string fixedenc(uint64_t v, int k) { std::string s; for (int i = 0; i < k; i++) { s += (char)(v % 256); v /= 256; } return s; }

// oracle: >0 bytes consumed, 0 rejected
static size_t vdec(const std::string& s, int maxb, int bits, uint64_t* out) {
  unsigned __int128 v = 0;
  for (int i = 0; i < maxb && i < (int)s.size(); i++) {
    v += (unsigned __int128)((unsigned char)s[i] & 127) << (7 * i);
    if (!((unsigned char)s[i] & 128)) { *out = bits == 32 ? (uint32_t)v : (uint64_t)v; return i + 1; }
  }
  return 0;
}
static uint64_t interesting() {
  switch (rnd(4)) {
    case 0: { uint64_t b = 1ull << rnd(64); return b + rnd(5) - 2; }
    case 1: return rnd() >> rnd(64);
    case 2: return rnd();
    default: { uint64_t b = 1ull << (7 * rnd(10)); return b + rnd(3) - 1; }
  }
}
static void encode_one(uint64_t v) {
  g_runs++;
  char t[64]; snprintf(t, 64, "encode value %llu", (unsigned long long)v); g_input = t;
  for (int pre = 0; pre < 2; pre++) {
    std::string p = pre ? std::string("pre\0fix", 7) : "", s;
    uint32_t v32 = (uint32_t)v;
    s = p; PutFixed32(&s, v32); CHECK(s == p + fixedenc(v32, 4), "PutFixed32");
    s = p; PutFixed64(&s, v); CHECK(s == p + fixedenc(v, 8), "PutFixed64");
    s = p; PutVarint32(&s, v32); CHECK(s == p + venc(v32), "PutVarint32");
    s = p; PutVarint64(&s, v); CHECK(s == p + venc(v), "PutVarint64");
  }
  char buf[32]; memset(buf, 0x5a, 32);
  EncodeFixed32(buf, (uint32_t)v); CHECK(std::string(buf, 4) == fixedenc((uint32_t)v, 4) && buf[4] == 0x5a, "EncodeFixed32"); CHECK(DecodeFixed32(buf) == (uint32_t)v, "DecodeFixed32");
  memset(buf, 0x5a, 32);
  EncodeFixed64(buf, v); CHECK(std::string(buf, 8) == fixedenc(v, 8) && buf[8] == 0x5a, "EncodeFixed64"); CHECK(DecodeFixed64(buf) == v, "DecodeFixed64");
  std::string e = venc(v), e32 = venc((uint32_t)v);
  memset(buf, 0x5a, 32);
  CHECK(EncodeVarint64(buf, v) == buf + e.size() && std::string(buf, e.size()) == e && buf[e.size()] == 0x5a, "EncodeVarint64");
  memset(buf, 0x5a, 32);
  CHECK(EncodeVarint32(buf, (uint32_t)v) == buf + e32.size() && std::string(buf, e32.size()) == e32 && buf[e32.size()] == 0x5a, "EncodeVarint32");
  CHECK(VarintLength(v) == (int)e.size(), "VarintLength");
}
static void decode_one(const std::string& s) {
  g_runs++;
  g_input = "decode bytes " + hex(s);
  Exact x(s);
  const char *b = x.p, *l = x.p + x.n;
  uint64_t w32 = 0, w64 = 0;
  size_t n32 = vdec(s, 5, 32, &w32), n64 = vdec(s, 10, 64, &w64);
  uint32_t a = 0xdeadbeef; uint64_t c = 0xdeadbeef;
  const char* q = GetVarint32Ptr(b, l, &a);
  CHECK(q == (n32 ? b + n32 : nullptr), "GetVarint32Ptr result"); if (n32) CHECK(a == (uint32_t)w32, "GetVarint32Ptr value");
  q = GetVarint64Ptr(b, l, &c);
  CHECK(q == (n64 ? b + n64 : nullptr), "GetVarint64Ptr result"); if (n64) CHECK(c == w64, "GetVarint64Ptr value");
  Slice in(b, x.n); a = 1;
  bool ok = GetVarint32(&in, &a);
  CHECK(ok == (n32 > 0), "GetVarint32 result");
  CHECK(in.data() == b + n32 && in.size() == x.n - n32, "GetVarint32 position"); if (n32) CHECK(a == (uint32_t)w32, "GetVarint32 value");
  in = Slice(b, x.n); c = 1;
  ok = GetVarint64(&in, &c);
  CHECK(ok == (n64 > 0), "GetVarint64 result");
  CHECK(in.data() == b + n64 && in.size() == x.n - n64, "GetVarint64 position"); if (n64) CHECK(c == w64, "GetVarint64 value");
  bool good = n32 && x.n - n32 >= w32;
  in = Slice(b, x.n); Slice out("zz", 2);
  ok = GetLengthPrefixedSlice(&in, &out);
  CHECK(ok == good, "GetLengthPrefixedSlice result");
  if (good) { CHECK(out.data() == b + n32 && out.size() == w32, "GetLengthPrefixedSlice slice"); CHECK(in.data() == b + n32 + w32 && in.size() == x.n - n32 - w32, "GetLengthPrefixedSlice position"); }
  Slice out2("zz", 2);
  q = GetLengthPrefixedSlice(b, l, &out2);
  CHECK(q == (good ? b + n32 + w32 : nullptr), "GetLengthPrefixedSlice(ptr) result");
  if (good) CHECK(out2.data() == b + n32 && out2.size() == w32, "GetLengthPrefixedSlice(ptr) slice");
}
static void lp(size_t n) {
  g_runs++;
  std::string body = randbytes(n), s = "x";
  char t[64]; snprintf(t, 64, "length-prefixed %zu bytes", n); g_input = t;
  PutLengthPrefixedSlice(&s, Slice(body));
  CHECK(s == "x" + venc(n) + body, "PutLengthPrefixedSlice");
  decode_one(s.substr(1));
}
int main(int argc, char** argv) {
  init(argc, argv);
  for (int sh = 0; sh < 64; sh++) for (int d = -2; d <= 2; d++) encode_one((1ull << sh) + d);
  for (uint64_t v = 0; v < 70000; v++) encode_one(v);
  decode_one("");
  for (int len = 1; len <= 12; len++)
    for (int t = 0; t < 3000; t++) { std::string s; for (int i = 0; i < len; i++) { int r = rnd(8); s += (char)(r < 5 ? 0x80 | rnd(128) : r == 5 ? 0xff : r == 6 ? 0x80 : rnd(128)); } decode_one(s); if (t % 3 == 0) { s[len - 1] &= 127; decode_one(s); } }
  for (int t = 0; t < 3000; t++) { std::string s = venc(interesting()); decode_one(s); decode_one(s + randbytes(rnd(4))); decode_one(s.substr(0, s.size() - 1)); }
  for (size_t n : {0, 1, 2, 100, 127, 128, 129, 255, 256, 16383, 16384, 16385, 70000}) lp(n);
  lp(2097151); lp(2097152); 
  for (int t = 0; t < 2000; t++) { size_t n = rnd(300); std::string s = venc(n) + randbytes(n); decode_one(s); if (s.size()) { s.pop_back(); decode_one(s); } }
  while (more()) { for (int i = 0; i < 200; i++) { encode_one(interesting()); std::string s = randbytes(rnd(14)); for (auto& c : s) if (rnd(3)) c |= 0x80; decode_one(s); } }
  done();
  return 0;
}
